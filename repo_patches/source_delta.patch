From b5ad48947ed5ce2589bb1b089cb9c7d48b3756a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:19 +0000
Subject: [PATCH 001/134] fix: Timestamp.String prints the instant in UTC, with
 a 4 digit year

The text always ends in "Z", but the fields were taken from the time's own
zone, so a non-UTC time printed a different instant; and years below 1000
printed text that ParseTimestamp rejects.
---
 timestamp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timestamp.go b/timestamp.go
index 6eecf68..a458cc3 100644
--- a/timestamp.go
+++ b/timestamp.go
@@ -11,12 +11,13 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
+	ts.Time = ts.UTC()
 	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
 }
 
-- 
2.43.0


From 17af13d0acbeb13ab1afeee7c64eba4e7f31d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:19 +0000
Subject: [PATCH 002/134] fix: ParseUUID rejects text that is not hexadecimal

---
 uuid.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uuid.go b/uuid.go
index b509003..7392271 100644
--- a/uuid.go
+++ b/uuid.go
@@ -29,5 +29,13 @@ func ParseUUID(text string) UUID {
 	if text[8] != '-' || text[13] != '-' || text[18] != '-' || text[23] != '-' {
 		return ""
 	}
+	for i, ch := range text {
+		if i == 8 || i == 13 || i == 18 || i == 23 {
+			continue
+		}
+		if !IsDigit(ch) && !(ch >= 'a' && ch <= 'f') && !(ch >= 'A' && ch <= 'F') {
+			return ""
+		}
+	}
 	return UUID(text)
 }
-- 
2.43.0


From 6153ae9a6ee5f85b7cecd217f93434054dc3e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:19 +0000
Subject: [PATCH 003/134] fix: UnitValue.MarshalJSON escapes the unit, so the
 result is always valid JSON

---
 unitvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unitvalue.go b/unitvalue.go
index e630886..15be343 100644
--- a/unitvalue.go
+++ b/unitvalue.go
@@ -40,7 +40,7 @@ func NewUnitValue(value float64, unit string) *UnitValue {
 }
 
 func (q *UnitValue) MarshalJSON() ([]byte, error) {
-	return []byte("\"" + q.String() + "\""), nil
+	return json.Marshal(q.String())
 }
 
 func (q *UnitValue) UnmarshalJSON(b []byte) error {
-- 
2.43.0


From a4ef14ccd82dea6a7bb208d1baedf5a24c1d9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:19 +0000
Subject: [PATCH 004/134] fix: ParseDecimal rejects infinities, which have no
 decimal (or JSON) representation

---
 decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal.go b/decimal.go
index 00c00dd..9c1938d 100644
--- a/decimal.go
+++ b/decimal.go
@@ -31,7 +31,7 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
 	return &Decimal{Float: *num}, nil
-- 
2.43.0


From eadd1d83852fa834e1e2c206f19a4f56fcb15678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:19 +0000
Subject: [PATCH 005/134] fix: DecimalValue handles int, so the range of the
 integer types is enforced

ValidateNumber passes untyped constants (math.MaxInt8 and so on) as the default
limits; they arrive as int, which was ignored, so 1000 was a valid Int8.
---
 decimal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decimal.go b/decimal.go
index 9c1938d..8f79c9d 100644
--- a/decimal.go
+++ b/decimal.go
@@ -75,6 +75,9 @@ func DecimalValue(val *Decimal, defval interface{}) *Decimal {
 		case int64:
 			d, _ := ParseDecimal(fmt.Sprint(n))
 			return d
+		case int:
+			d, _ := ParseDecimal(fmt.Sprint(n))
+			return d
 		case int32:
 			return NewDecimal(float64(n))
 		case int16:
-- 
2.43.0


From ffbbc6575df905a5cd258ab754b402471cb00569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:19 +0000
Subject: [PATCH 006/134] fix: a number with a fraction is not a valid value
 for an integer type

---
 model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model.go b/model.go
index 01bb72a..d644185 100644
--- a/model.go
+++ b/model.go
@@ -299,6 +299,12 @@ func (model *Model) ValidateNumber(context string, td *TypeSpec, value interface
 				maxval = DecimalValue(td.Max, math.MaxInt8)
 			}
 			nval := n.AsBigFloat()
+			switch td.Type {
+			case "Int8", "Int16", "Int32", "Int64":
+				if !nval.IsInt() {
+					return fmt.Errorf("%s: Not an integer: %v", context, n)
+				}
+			}
 			if minval != nil {
 				nmin := minval.AsBigFloat()
 				if nval.Cmp(nmin) < 0 {
-- 
2.43.0


From 40977a5f2f3950b43e410c1220a7dfd91097efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:19 +0000
Subject: [PATCH 007/134] fix: validating a Union value no longer recurses
 forever

There was no case for Union, and the base type Union is defined as itself, so
any value (or example, or default) of a union type overflowed the stack.
---
 model.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/model.go b/model.go
index d644185..190b84c 100644
--- a/model.go
+++ b/model.go
@@ -192,6 +192,8 @@ func (model *Model) ValidateAgainstTypeSpec(context string, td *TypeSpec, value
 		return model.ValidateUnitValue(context, td, value)
 	case "UUID":
 		return model.ValidateUUID(context, td, value)
+	case "Union":
+		return model.ValidateUnion(context, td, value)
 	case "Bytes":
 		//fixme
 		return nil
@@ -359,6 +361,20 @@ func (model *Model) ValidateStruct(context string, td *TypeSpec, value interface
 	return nil
 }
 
+// A union value is a JSON object with one key, which names the variant present.
+func (model *Model) ValidateUnion(context string, td *TypeSpec, value interface{}) error {
+	m, ok := value.(map[string]interface{})
+	if !ok || len(m) != 1 {
+		return fmt.Errorf("%s: Not a valid Union: %v", context, Pretty(value))
+	}
+	for _, variant := range td.Variants {
+		if v, ok := m[variant.Name]; ok {
+			return model.ValidateAgainstTypeSpec(context+"."+variant.Name, &variant.TypeSpec, v)
+		}
+	}
+	return fmt.Errorf("%s: Not a variant of the Union: %v", context, Pretty(value))
+}
+
 func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case []interface{}:
-- 
2.43.0


From 56d885690d0d1ab7721ae27ec67e0a51fc42633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:19 +0000
Subject: [PATCH 008/134] fix: ValidateUnitValue accepts any length of number,
 and a plain string

Values with a one or two digit number ("10 USD") were rejected, as was any value
that was not a *string, which every other string-like type accepts.
---
 model.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/model.go b/model.go
index 190b84c..dcd05d1 100644
--- a/model.go
+++ b/model.go
@@ -237,22 +237,25 @@ func (model *Model) ValidateUUID(context string, td *TypeSpec, value interface{}
 }
 
 func (model *Model) ValidateUnitValue(context string, td *TypeSpec, value interface{}) error {
+	var s string
 	switch sp := value.(type) {
 	case *string:
-		s := *sp
-		n := strings.Index(s, " ")
-		if n >= 3 {
-			val := s[:n]
-			unit := s[n+1:]
-			nval, err := ParseDecimal(val)
+		s = *sp
+	case string:
+		s = sp
+	}
+	n := strings.Index(s, " ")
+	if n > 0 {
+		val := s[:n]
+		unit := s[n+1:]
+		nval, err := ParseDecimal(val)
+		if err == nil {
+			err = model.Validate(context+".value", td.Value, nval)
 			if err == nil {
-				err = model.Validate(context+".value", td.Value, nval)
-				if err == nil {
-					err = model.Validate(context+".unit", td.Unit, unit)
-				}
+				err = model.Validate(context+".unit", td.Unit, unit)
 			}
-			return err
 		}
+		return err
 	}
 	return fmt.Errorf("%s: Not a valid UnitValue: %v", context, Pretty(value))
 }
-- 
2.43.0


From 7506582dc37a847b315da7c3b8a17872283554a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:19 +0000
Subject: [PATCH 009/134] fix: ValidateTimestamp accepts a plain string, as the
 other string-like types do

---
 model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index dcd05d1..57642f1 100644
--- a/model.go
+++ b/model.go
@@ -485,7 +485,10 @@ func (model *Model) ValidateTimestamp(tname string, td *TypeSpec, val interface{
 		return nil
 	}
 	if s, ok := val.(*string); ok {
-		_, err := ParseTimestamp(*s)
+		val = *s
+	}
+	if s, ok := val.(string); ok {
+		_, err := ParseTimestamp(s)
 		if err == nil {
 			return nil
 		}
-- 
2.43.0


From b6d50f090005767b5017c957458a6ac747b35453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:19 +0000
Subject: [PATCH 010/134] fix: a bare Array or Map (as in Array<Array>) has
 items of any type

The parser defaults the items of an unparameterized Array or Map to Any, but a
reference to the base type by name found no item type and rejected every value.
---
 model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 57642f1..e373f07 100644
--- a/model.go
+++ b/model.go
@@ -381,7 +381,7 @@ func (model *Model) ValidateUnion(context string, td *TypeSpec, value interface{
 func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case []interface{}:
-		if td.Items != "Any" {
+		if td.Items != "Any" && td.Items != "" {
 			tdi := model.FindType(td.Items)
 			if tdi == nil {
 				return fmt.Errorf("%s: Undefined type: %s", context, td.Items)
@@ -412,7 +412,7 @@ func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{
 func (model *Model) ValidateMap(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case map[string]interface{}:
-		if td.Items != "Any" {
+		if td.Items != "Any" && td.Items != "" {
 			tdi := model.FindType(td.Items)
 			if tdi == nil {
 				return fmt.Errorf("%s: Undefined type: %s", context, td.Items)
-- 
2.43.0


From 04582e3feefe6f8fd0260c208fcb71e863159dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:20 +0000
Subject: [PATCH 011/134] fix: Data.Get of a path with a missing key finds
 nothing

A missing key was skipped and the next one looked up at the same level, so
Get("a", "b") returned the top level "b".
---
 data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.go b/data.go
index b72f5ad..c0aa172 100644
--- a/data.go
+++ b/data.go
@@ -112,6 +112,8 @@ func (data *Data) get(keys []string) interface{} {
 					} else {
 						return v
 					}
+				} else {
+					return nil
 				}
 			}
 		}
-- 
2.43.0


From e76c5c196eb5a54c0659f78bb272b14dafa38da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:20 +0000
Subject: [PATCH 012/134] fix: Generator.WriteFile reports a failed write, and
 keeps an earlier error

The content is usually smaller than the buffer, so it is written by Flush, whose
error was ignored; and a successful write cleared an error already recorded.
---
 generator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 92d1311..4f9de89 100644
--- a/generator.go
+++ b/generator.go
@@ -74,8 +74,13 @@ func (gen *Generator) WriteFile(path string, content string) {
 	}
 	defer f.Close()
 	writer := bufio.NewWriter(f)
-	_, gen.Err = writer.WriteString(content)
-	writer.Flush()
+	_, err = writer.WriteString(content)
+	if err == nil {
+		err = writer.Flush()
+	}
+	if err != nil {
+		gen.Err = err
+	}
 }
 
 func (gen *Generator) EmitTemplate(name string, tmplSource string, data interface{}, funcMap template.FuncMap) {
-- 
2.43.0


From 072016cab5101045b2805f2a004a396a8cefb224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:20 +0000
Subject: [PATCH 013/134] fix: EquivalentTypesByName of an undefined type is
 false rather than a crash

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index e373f07..e74ea76 100644
--- a/model.go
+++ b/model.go
@@ -64,6 +64,9 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	}
 	td1 := model.FindType(tname1)
 	td2 := model.FindType(tname2)
+	if td1 == nil || td2 == nil {
+		return false
+	}
 	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
 }
 
-- 
2.43.0


From 6d12f45600d05b48822bd884d0e5bfb64672ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:20 +0000
Subject: [PATCH 014/134] fix: EquivalentTypes compares size and range limits
 by value

The pointers were compared, and maxsize with itself, so equal limits made types
differ and different maxsizes did not.
---
 model.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/model.go b/model.go
index e74ea76..9063914 100644
--- a/model.go
+++ b/model.go
@@ -77,7 +77,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	//TODO: check annotations
 	switch ts1.Type {
 	case "String":
-		if ts1.Pattern != ts2.Pattern || ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize || len(ts1.Values) != len(ts2.Values) {
+		if ts1.Pattern != ts2.Pattern || !equalInt64(ts1.MinSize, ts2.MinSize) || !equalInt64(ts1.MaxSize, ts2.MaxSize) || len(ts1.Values) != len(ts2.Values) {
 			return false
 		}
 		if ts1.Reference != ts2.Reference {
@@ -103,7 +103,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Bytes":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equalInt64(ts1.MinSize, ts2.MinSize) || !equalInt64(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 	case "UnitValue":
@@ -114,7 +114,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Array", "Map":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equalInt64(ts1.MinSize, ts2.MinSize) || !equalInt64(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 		if !model.EquivalentTypesByName(ts1.Items, ts2.Items) {
@@ -124,7 +124,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-		if ts1.Min != ts2.Min || ts1.Max != ts2.Max {
+		if !equalDecimal(ts1.Min, ts2.Min) || !equalDecimal(ts1.Max, ts2.Max) {
 			return false
 		}
 	case "Enum":
@@ -159,6 +159,20 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	return true
 }
 
+func equalInt64(n1, n2 *int64) bool {
+	if n1 == nil || n2 == nil {
+		return n1 == n2
+	}
+	return *n1 == *n2
+}
+
+func equalDecimal(n1, n2 *Decimal) bool {
+	if n1 == nil || n2 == nil {
+		return n1 == n2
+	}
+	return n1.Cmp(n2.AsBigFloat()) == 0
+}
+
 func (model *Model) Validate(context string, typename string, value interface{}) error {
 	td := model.FindType(typename)
 	if td == nil {
-- 
2.43.0


From 648183d875fbe8fc5cc76a63e8563fd856dd4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:20 +0000
Subject: [PATCH 015/134] fix: EquivalentTypes compares the fields of structs,
 not just how many there are

---
 model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model.go b/model.go
index 9063914..aba7415 100644
--- a/model.go
+++ b/model.go
@@ -102,6 +102,12 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		if len(ts1.Fields) != len(ts2.Fields) {
 			return false
 		}
+		for i, f1 := range ts1.Fields {
+			f2 := ts2.Fields[i]
+			if f1.Name != f2.Name || f1.Required != f2.Required || !model.EquivalentTypes(&f1.TypeSpec, &f2.TypeSpec) {
+				return false
+			}
+		}
 	case "Bytes":
 		if !equalInt64(ts1.MinSize, ts2.MinSize) || !equalInt64(ts1.MaxSize, ts2.MaxSize) {
 			return false
-- 
2.43.0


From fabe4f012cc1b390ddb5234594d800eeba00fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 016/134] fix: EquivalentTypes compares the names of union
 variants

The name is the JSON key of the variant, so unions of the same types under
other names are not the same union.
---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index aba7415..5e3868a 100644
--- a/model.go
+++ b/model.go
@@ -152,12 +152,12 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		if len(ts1.Variants) != len(ts2.Variants) {
 			return false
 		}
-		m := make(map[string]bool, 0)
+		m := make(map[string]string, 0)
 		for _, v := range ts1.Variants {
-			m[v.Type] = true
+			m[v.Name] = v.Type
 		}
 		for _, v := range ts2.Variants {
-			if _, ok := m[v.Type]; !ok {
+			if t, ok := m[v.Name]; !ok || t != v.Type {
 				return false
 			}
 		}
-- 
2.43.0


From 560e4647e8940faf6973f011b16abb2a29573856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 017/134] fix: ConvertInlineEnums does not define a type twice,
 or half refactor a model

An enum equivalent to one already declared was declared again under the same
name, two different enums of one struct could get the same name (so one was
lost), and after an error some fields already referred to types never added.
---
 model.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/model.go b/model.go
index 5e3868a..0847fb2 100644
--- a/model.go
+++ b/model.go
@@ -649,6 +649,8 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 func (model *Model) ConvertInlineEnums() error {
 	//	refs := make(map[string]*TypeSpec, 0)
 	var tds []*TypeDef
+	added := make(map[string]*TypeDef, 0)
+	refs := make(map[*StructFieldDef]string, 0)
 	for _, td := range model.Types {
 		switch td.Type {
 		case "Struct":
@@ -663,20 +665,26 @@ func (model *Model) ConvertInlineEnums() error {
 						Name:     tname,
 					}
 					prev := model.FindType(tname)
+					if prev == nil {
+						prev = added[tname]
+					}
 					if prev != nil {
 						if !model.EquivalentTypes(&prev.TypeSpec, &fdef.TypeSpec) {
 							//Alternatively, could prefix the struct type name to the new type `td.Name + tname` to make it unique. Steill not foolproof.
 							return fmt.Errorf("cannot refactor, duplicate type names for non-equivalent types: %s and %s\n", Pretty(prev), Pretty(fdef))
 						}
+					} else {
+						added[tname] = ntd
+						tds = append(tds, ntd)
 					}
-					var blank TypeSpec
-					fdef.TypeSpec = blank
-					fdef.Type = tname
-					tds = append(tds, ntd)
+					refs[fdef] = tname
 				}
 			}
 		}
 	}
+	for fdef, tname := range refs {
+		fdef.TypeSpec = TypeSpec{Type: tname}
+	}
 	for _, td := range tds {
 		model.Types = append(model.Types, td)
 		model.typeIndex[td.Name] = td
-- 
2.43.0


From e62630ce03bf1bb2976f57f90a8d27a7007793e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 018/134] fix: FindExampleType of a response of an action with
 no expected response is an error

---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 0847fb2..f0a7bcb 100644
--- a/model.go
+++ b/model.go
@@ -596,7 +596,7 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 		} else if strings.HasSuffix(theType, "Response") {
 			httpName := Uncapitalize(theType[:len(theType)-len("Response")])
 			h := model.FindHttp(httpName)
-			if h != nil {
+			if h != nil && h.Expected != nil {
 				if len(lst) > 0 {
 					var tmp *TypeSpec
 					fname := lst[0]
-- 
2.43.0


From c31b71348d84ef1b9e7a0fc29c66dea1765bc19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 019/134] fix: FindExampleType follows fields whose type is a
 declared struct

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index f0a7bcb..51ce60b 100644
--- a/model.go
+++ b/model.go
@@ -623,6 +623,9 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 		return nil, fmt.Errorf("Undefined type '%s' in example: %s", theType, Pretty(ex))
 	}
 	for len(lst) > 0 {
+		if t := model.FindType(ts.Type); t != nil && ts.Type != "Struct" {
+			ts = &t.TypeSpec
+		}
 		if ts.Type != "Struct" {
 			return nil, fmt.Errorf("Cannot dereference a non-struct in example target: %v", ex)
 		}
-- 
2.43.0


From d4399f54a0ea954c27bb5c0ddc2fb20da7509d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:08 +0000
Subject: [PATCH 020/134] fix: options can be put in Data loaded from an empty
 (null) document

---
 data.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data.go b/data.go
index c0aa172..d295499 100644
--- a/data.go
+++ b/data.go
@@ -49,7 +49,10 @@ func DataFromFile(path string) (*Data, error) {
 			err = json.Unmarshal(raw, &value)
 		}
 		if err == nil {
-			data = &Data{value: value}
+			data = NewData()
+			if value != nil {
+				data.value = value
+			}
 		}
 	}
 	return data, err
@@ -60,7 +63,10 @@ func DataFromJsonString(raw string) (*Data, error) {
 	var value map[string]interface{}
 	err := json.Unmarshal([]byte(raw), &value)
 	if err == nil {
-		data = &Data{value: value}
+		data = NewData()
+		if value != nil {
+			data.value = value
+		}
 	}
 	return data, err
 }
-- 
2.43.0


From 6a205c3d4aa45051f048f16f5fd839d935747e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:05 +0000
Subject: [PATCH 021/134] fix: openapi export of arrays of Float64 no longer
 panics

---
 openapi/export_openapi.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index aa4b750..25351b5 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -555,9 +555,6 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return sch, nil
 	case "Int32", "Int16", "Int8", "Int64", "Float32", "Float64", "Decimal":
-		if td.Type == "Float64" && name != "" {
-			panic("here? " + name + " -> " + sadl.Pretty(td))
-		}
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
 		sch := &Schema{
 			Type:        stype,
-- 
2.43.0


From ae8352d819580b430dbb8514a36a9309e9e11fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:06 +0000
Subject: [PATCH 022/134] fix: openapi export of an action with no expected
 response

---
 openapi/export_openapi.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 25351b5..388ab91 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -180,7 +180,11 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		responses := make(map[string]*Response, 0)
 		op.Responses = responses
 		content := make(map[string]*MediaType)
-		comment := hdef.Expected.Comment
+		expected := hdef.Expected
+		if expected == nil {
+			expected = &sadl.HttpExpectedSpec{Status: 200}
+		}
+		comment := expected.Comment
 		if comment == "" {
 			comment = "Expected response"
 		}
@@ -189,7 +193,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			Content:     content,
 		}
 		var headers map[string]*Header
-		for _, param := range hdef.Expected.Outputs {
+		for _, param := range expected.Outputs {
 			if param.Header != "" {
 				pschema, err := gen.oasSchema(&param.TypeSpec, "")
 				if err != nil {
@@ -217,7 +221,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		if len(headers) > 0 {
 			resp.Headers = headers
 		}
-		key := fmt.Sprint(hdef.Expected.Status)
+		key := fmt.Sprint(expected.Status)
 		responses[key] = resp
 		for _, out := range hdef.Exceptions {
 			content := make(map[string]*MediaType)
-- 
2.43.0


From 29ea7b13e0bcecfb5dfe84c20dc5596dcdb3b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:07 +0000
Subject: [PATCH 023/134] fix: openapi export includes PATCH, HEAD and OPTIONS
 actions

---
 openapi/export_openapi.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 388ab91..1fca895 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -136,6 +136,23 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
 			}
 			pi.Post = op
+		case "PATCH":
+			if pi.Patch != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Patch = op
+		case "HEAD":
+			if pi.Head != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Head = op
+		case "OPTIONS":
+			if pi.Options != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Options = op
+		default:
+			return nil, fmt.Errorf("Unsupported HTTP Method (%s %s)", hdef.Method, p)
 		}
 		for _, in := range hdef.Inputs {
 			param := &Parameter{
-- 
2.43.0


From 2ae5bd9393f8e47ab605150beb445cea96a3c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:08 +0000
Subject: [PATCH 024/134] fix: openapi FindOperation considers every operation
 of a path

---
 openapi/export_openapi.go | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 1fca895..3e9bd3f 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -367,24 +367,11 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
-		var op *Operation
-		if pathItem.Get != nil {
-			op = pathItem.Get
-		} else if pathItem.Put != nil {
-			op = pathItem.Put
-		} else if pathItem.Delete != nil {
-			op = pathItem.Delete
-		} else if pathItem.Post != nil {
-			op = pathItem.Post
-		} else if pathItem.Head != nil {
-			op = pathItem.Head
-		} else if pathItem.Patch != nil {
-			op = pathItem.Patch
-		} else {
-			panic("fix me")
-		}
-		if op.OperationId == opId {
-			return op
+		ops := []*Operation{pathItem.Get, pathItem.Put, pathItem.Delete, pathItem.Post, pathItem.Head, pathItem.Patch, pathItem.Options}
+		for _, op := range ops {
+			if op != nil && op.OperationId == opId {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 30d68f57bd0a5389b5272f176ef57782532e8fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:08 +0000
Subject: [PATCH 025/134] fix: openapi export writes inline enums in place
 instead of a dangling reference

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 3e9bd3f..a32bf6c 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -622,6 +622,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return tr, nil
 	case "Enum":
+		if name == "" {
+			return gen.exportEnumTypeDef(&sadl.TypeDef{TypeSpec: *td})
+		}
 		return &Schema{
 			Ref: "#/components/schemas/" + name,
 		}, nil
-- 
2.43.0


From 4fb0f5d66f799e2e022703cac26004df096e162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:09 +0000
Subject: [PATCH 026/134] fix: openapi export of maps refers to the item type
 by name

---
 openapi/export_openapi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index a32bf6c..aaef0d3 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -485,7 +485,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -642,7 +642,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 	case "Map":
 		//note: keys are always strings
 		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 37929189ae3b45af7cfba1afc35f0704babf9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:57 +0000
Subject: [PATCH 027/134] fix: openapi export of arrays and maps of base types
 without a schema of their own

---
 openapi/export_openapi.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index aaef0d3..35e9c89 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -470,8 +470,7 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+	itemSchema, err := gen.itemSchema(td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -484,8 +483,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+	itemSchema, err := gen.itemSchema(td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -550,6 +548,21 @@ func oasNumericEquivalent(sadlTypeName string) (string, string, string) {
 	}
 }
 
+// itemSchema returns the schema for the items of an array or map. Base types have no named schema to refer to.
+func (gen *Generator) itemSchema(items string) (*Schema, error) {
+	if items == "" {
+		items = "Any"
+	}
+	itd := gen.Model.FindType(items)
+	if itd == nil {
+		return nil, fmt.Errorf("No such type: %q", items)
+	}
+	if itd.Type == items {
+		return gen.oasSchema(&itd.TypeSpec, "")
+	}
+	return gen.oasSchema(&itd.TypeSpec, items)
+}
+
 func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error) {
 	//	if name != "" {
 	//		return &Schema{
@@ -629,8 +642,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Ref: "#/components/schemas/" + name,
 		}, nil
 	case "Array":
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+		itemSchema, err := gen.itemSchema(td.Items)
 		if err != nil {
 			return nil, err
 		}
@@ -641,8 +653,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+		itemSchema, err := gen.itemSchema(td.Items)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 687d6dbd39e224d2f4103b883bb9596c44d51bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:58 +0000
Subject: [PATCH 028/134] fix: openapi export of Any and Union no longer refers
 to schemas that do not exist

---
 openapi/export_openapi.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 35e9c89..ccae631 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -461,8 +461,9 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 	}
 	for _, vd := range td.Variants {
-		v := &Schema{
-			Ref: "#/components/schemas/" + vd.Type,
+		v, err := gen.oasSchema(&vd.TypeSpec, "")
+		if err != nil {
+			return nil, err
 		}
 		schema.OneOf = append(schema.OneOf, v)
 	}
@@ -641,6 +642,15 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		return &Schema{
 			Ref: "#/components/schemas/" + name,
 		}, nil
+	case "Any":
+		return &Schema{}, nil
+	case "Union":
+		if name == "" {
+			return gen.exportUnionTypeDef(&sadl.TypeDef{TypeSpec: *td})
+		}
+		return &Schema{
+			Ref: "#/components/schemas/" + name,
+		}, nil
 	case "Array":
 		itemSchema, err := gen.itemSchema(td.Items)
 		if err != nil {
-- 
2.43.0


From d3a8d3341c8821c370ff805420d37ba24bb7eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:59 +0000
Subject: [PATCH 029/134] fix: openapi export of Bytes, UnitValue, Any and
 alias type definitions

---
 openapi/export_openapi.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index ccae631..b2dea7f 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -429,8 +429,14 @@ func (gen *Generator) exportTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		tmp.Format = "date-time"
 		return tmp, nil
 	}
-	//etc
-	return nil, fmt.Errorf("Implement export of this type: %q", td.Type)
+	otd, err := gen.oasSchema(&td.TypeSpec, "")
+	if err != nil {
+		return nil, err
+	}
+	if otd.Ref == "" && td.Comment != "" {
+		otd.Description = td.Comment
+	}
+	return otd, nil
 }
 
 func (gen *Generator) exportStructTypeDef(td *sadl.TypeDef) (*Schema, error) {
-- 
2.43.0


From 7f7c3715980414f42168ce299460409e14ab3906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 030/134] fix: openapi export keeps the size limits of arrays
 and maps

---
 openapi/export_openapi.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index b2dea7f..8ae2053 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -486,6 +486,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 		Items:       itemSchema,
 	}
+	schema.MinItems, schema.MaxItems = oasSizes(&td.TypeSpec)
 	return schema, nil
 }
 
@@ -494,11 +495,13 @@ func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &Schema{
+	schema := &Schema{
 		Type:                 "object",
 		Description:          td.Comment,
 		AdditionalProperties: itemSchema,
-	}, nil
+	}
+	schema.MinProps, schema.MaxProps = oasSizes(&td.TypeSpec)
+	return schema, nil
 }
 
 func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
@@ -555,6 +558,19 @@ func oasNumericEquivalent(sadlTypeName string) (string, string, string) {
 	}
 }
 
+func oasSizes(td *sadl.TypeSpec) (uint64, *uint64) {
+	var min uint64
+	var max *uint64
+	if td.MinSize != nil {
+		min = uint64(*td.MinSize)
+	}
+	if td.MaxSize != nil {
+		tmp := uint64(*td.MaxSize)
+		max = &tmp
+	}
+	return min, max
+}
+
 // itemSchema returns the schema for the items of an array or map. Base types have no named schema to refer to.
 func (gen *Generator) itemSchema(items string) (*Schema, error) {
 	if items == "" {
@@ -666,6 +682,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:  "array",
 			Items: itemSchema,
 		}
+		tr.MinItems, tr.MaxItems = oasSizes(td)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
@@ -677,6 +694,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:                 "object",
 			AdditionalProperties: itemSchema,
 		}
+		otd.MinProps, otd.MaxProps = oasSizes(td)
 		return otd, nil
 	case "Struct":
 		if name != "" {
-- 
2.43.0


From d05b5c66c0c147da82d6172ab0e3fa6c974da33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 031/134] fix: openapi export keeps the accepted values of
 strings that are not type definitions

---
 openapi/export_openapi.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 8ae2053..d2dde7a 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -510,13 +510,6 @@ func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return nil, err
 	}
 	otd.Description = td.Comment
-	if len(td.Values) > 0 {
-		e := make([]interface{}, 0)
-		for _, s := range td.Values {
-			e = append(e, s)
-		}
-		otd.Enum = e
-	}
 	return otd, nil
 }
 
@@ -635,6 +628,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			tmp := uint64(*td.MaxSize)
 			tr.MaxLength = &tmp
 		}
+		for _, s := range td.Values {
+			tr.Enum = append(tr.Enum, s)
+		}
 		return tr, nil
 	case "Timestamp":
 		tr := &Schema{
-- 
2.43.0


From 8b879b0673b27a457cf538559ea362f04d0377e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:01 +0000
Subject: [PATCH 032/134] fix: openapi export keeps required fields of inline
 structs

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index d2dde7a..6814d3d 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -703,6 +703,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			}
 			f := make(map[string]*Schema, 0)
 			for _, fd := range td.Fields {
+				if fd.Required {
+					sch.Required = append(sch.Required, fd.Name)
+				}
 				fieldSchema, err := gen.oasSchema(&fd.TypeSpec, "")
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 6e2982530b9385f3a83edb19bd6824ea86840ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:02 +0000
Subject: [PATCH 033/134] fix: openapi export keeps the comment of numeric type
 definitions

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 6814d3d..3922719 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -397,6 +397,9 @@ func (gen *Generator) exportTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return gen.exportEnumTypeDef(td)
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
+		if td.Comment != "" {
+			scomment = td.Comment
+		}
 		otd := &Schema{
 			Description: scomment,
 			Type:        stype,
-- 
2.43.0


From 118c9a4c568599a771cc05ab5d47cfa3e477b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:03 +0000
Subject: [PATCH 034/134] fix: openapi export of exceptions whose type has no
 schema

---
 openapi/export_openapi.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 3922719..28dd60a 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -250,13 +250,16 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				Description: comment,
 				Content:     content,
 			}
-			tr := &Schema{
-				Ref: "#/components/schemas/" + out.Type,
-			}
-			mt := &MediaType{
-				Schema: tr,
+			if out.Type != "" {
+				tr, err := gen.oasSchema(&sadl.TypeSpec{Type: out.Type}, "")
+				if err != nil {
+					return nil, err
+				}
+				mt := &MediaType{
+					Schema: tr,
+				}
+				content["application/json"] = mt
 			}
-			content["application/json"] = mt
 			key := "default"
 			if out.Status != 0 {
 				key = fmt.Sprint(out.Status)
-- 
2.43.0


From 6232a11bc3653928132275ea6fbc432c681243fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:25 +0000
Subject: [PATCH 035/134] fix: openapi export places request and response
 examples by parameter name

---
 openapi/export_openapi.go | 114 +++++++++++++++++---------------------
 1 file changed, 52 insertions(+), 62 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 28dd60a..666a21b 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -286,32 +286,33 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			if strings.HasSuffix(ed.Target, "Request") {
 				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-7])
 				op := gen.FindOperation(oas, hdefName)
-				if op != nil {
-					for k, v := range ed.Example.(map[string]interface{}) {
-						if k == "body" {
-							tmp := op.RequestBody.Content["application/json"]
-							if ed.Name == "" {
-								tmp.Example = v
-							} else {
-								if tmp.Examples == nil {
-									tmp.Examples = make(map[string]*Example, 0)
-								}
-								tmp.Examples[ed.Name] = &Example{
-									Value: v,
-								}
-							}
-						} else {
-							for _, param := range op.Parameters {
-								if param.Name == k {
-									if ed.Name == "" {
-										param.Example = v
-									} else {
-										if param.Examples == nil {
-											param.Examples = make(map[string]*Example, 0)
-										}
-										param.Examples[ed.Name] = &Example{
-											Value: v,
-										}
+				hact := model.FindHttp(hdefName)
+				values, ok := ed.Example.(map[string]interface{})
+				if op != nil && hact != nil && ok {
+					for _, in := range hact.Inputs {
+						v, ok := values[in.Name]
+						if !ok {
+							continue
+						}
+						key, name := "path", in.Name
+						if in.Query != "" && !in.Path {
+							key, name = "query", in.Query
+						} else if in.Header != "" && !in.Path {
+							key, name = "header", in.Header
+						} else if !in.Path { //body
+							setMediaTypeExample(op.RequestBody.Content["application/json"], ed.Name, v)
+							continue
+						}
+						for _, param := range op.Parameters {
+							if param.In == key && param.Name == name {
+								if ed.Name == "" {
+									param.Example = v
+								} else {
+									if param.Examples == nil {
+										param.Examples = make(map[string]*Example, 0)
+									}
+									param.Examples[ed.Name] = &Example{
+										Value: v,
 									}
 								}
 							}
@@ -321,44 +322,17 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			} else if strings.HasSuffix(ed.Target, "Response") {
 				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-8])
 				op := gen.FindOperation(oas, hdefName)
-				if op != nil {
-					for k, v := range ed.Example.(map[string]interface{}) {
-						if k == "body" {
-							hact := model.FindHttp(hdefName)
-							//FIXME: somehow the example name must include the status to use here
-							//FIXME: currently the parser only handles Request and Response, not Exceptxxx
-							sstatus := fmt.Sprintf("%v", hact.Expected.Status)
-							tmp := op.Responses[sstatus].Content["application/json"]
-							if ed.Name == "" {
-								tmp.Example = v
-							} else {
-								if tmp.Examples == nil {
-									tmp.Examples = make(map[string]*Example, 0)
-								}
-								tmp.Examples[ed.Name] = &Example{
-									Value: v,
-								}
-							}
-
-						} else {
-							for _, param := range op.Parameters {
-								if param.Name == k {
-									if ed.Name == "" {
-										param.Example = v
-									} else {
-										if param.Examples == nil {
-											param.Examples = make(map[string]*Example, 0)
-										}
-										param.Examples[ed.Name] = &Example{
-											Value: v,
-										}
-									}
-								}
-							}
+				hact := model.FindHttp(hdefName)
+				values, ok := ed.Example.(map[string]interface{})
+				if op != nil && hact != nil && hact.Expected != nil && ok {
+					//FIXME: somehow the example name must include the status to use here
+					//FIXME: currently the parser only handles Request and Response, not Exceptxxx
+					resp := op.Responses[fmt.Sprint(hact.Expected.Status)]
+					for _, out := range hact.Expected.Outputs {
+						if v, ok := values[out.Name]; ok && out.Header == "" {
+							setMediaTypeExample(resp.Content["application/json"], ed.Name, v)
 						}
 					}
-				} else {
-					panic("no")
 				}
 			} else {
 				fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
@@ -368,6 +342,22 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 	return oas, nil
 }
 
+func setMediaTypeExample(mt *MediaType, name string, v interface{}) {
+	if mt == nil {
+		return
+	}
+	if name == "" {
+		mt.Example = v
+	} else {
+		if mt.Examples == nil {
+			mt.Examples = make(map[string]*Example, 0)
+		}
+		mt.Examples[name] = &Example{
+			Value: v,
+		}
+	}
+}
+
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
 		ops := []*Operation{pathItem.Get, pathItem.Put, pathItem.Delete, pathItem.Post, pathItem.Head, pathItem.Patch, pathItem.Options}
-- 
2.43.0


From 0301a4044fb2a718d029b0015af45c6593d73bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:47 +0000
Subject: [PATCH 036/134] fix: openapi import of a document without components

---
 openapi/import_openapi.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 034d497..ae367c6 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -141,7 +141,11 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
-	for name, oasSchema := range model.Components.Schemas {
+	var schemas map[string]*Schema
+	if model.Components != nil {
+		schemas = model.Components.Schemas
+	}
+	for name, oasSchema := range schemas {
 		name = validSadlName(name, oasSchema)
 		if name == "" {
 			continue
@@ -151,7 +155,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		comment := ""
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
-			if oasDef, ok := model.Components.Schemas[tname]; ok {
+			if oasDef, ok := schemas[tname]; ok {
 				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
 			} else {
 				panic("hmm")
-- 
2.43.0


From 98b4b1d4e93176c119bacde398b5680b214adb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:48 +0000
Subject: [PATCH 037/134] fix: openapi import gives the same model every time

---
 openapi/import_openapi.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index ae367c6..1147359 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -5,7 +5,9 @@ import (
 	"fmt"
 	"io/ioutil"
 	"path/filepath"
+	"reflect"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -145,7 +147,8 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	if model.Components != nil {
 		schemas = model.Components.Schemas
 	}
-	for name, oasSchema := range schemas {
+	for _, name := range sortedKeys(schemas) {
+		oasSchema := schemas[name]
 		name = validSadlName(name, oasSchema)
 		if name == "" {
 			continue
@@ -178,8 +181,8 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	}
 
 	httpBindings := true
-	for tmpl, path := range model.Paths {
-		path2 := *path
+	for _, tmpl := range sortedKeys(model.Paths) {
+		path2 := *model.Paths[tmpl]
 		for _, method := range methods {
 			op := getPathOperation(&path2, method)
 			if op != nil {
@@ -350,7 +353,8 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
-			for fname, fschema := range oasSchema.Properties {
+			for _, fname := range sortedKeys(oasSchema.Properties) {
+				fschema := oasSchema.Properties[fname]
 				fd := &sadl.StructFieldDef{
 					Name:    fname,
 					Comment: fschema.Description,
@@ -372,6 +376,16 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 	return ts, err
 }
 
+// sortedKeys returns the keys of a map (with string keys) in order, since the iteration order of a map is random
+func sortedKeys(m interface{}) []string {
+	var keys []string
+	for _, k := range reflect.ValueOf(m).MapKeys() {
+		keys = append(keys, k.String())
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func containsString(lst []string, val string) bool {
 	for _, s := range lst {
 		if s == val {
@@ -509,7 +523,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	//else: if 201 is in the list, use that
 	//else: ? find a likely candidate.
 	var expectedStatus string = "default"
-	for status, _ := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
 		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
 			expectedStatus = status
 			break
@@ -535,7 +549,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			Status:  int32(code),
 			Comment: eparam.Description,
 		}
-		for header, def := range eparam.Headers {
+		for _, header := range sortedKeys(eparam.Headers) {
+			def := eparam.Headers[header]
 			param := &sadl.HttpParamSpec{}
 			param.Header = header
 			param.Comment = def.Description
@@ -574,7 +589,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		hact.Expected = ex
 	}
-	for status, param := range op.Responses {
+	for _, status := range sortedKeys(op.Responses) {
+		param := op.Responses[status]
 		if status != expectedStatus {
 			//the status can be "default", or "4XX" (where 'X' is a wildcard) or "404". If the latter, it takes precedence.
 			//for SADL, not specifying the response is a bug. So "default" will be turned into "500". The wildcards
-- 
2.43.0


From db851b23c80ce9da8bd894a00db11cd6096b5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:50 +0000
Subject: [PATCH 038/134] fix: openapi import includes PATCH and OPTIONS
 operations

---
 openapi/import_openapi.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 1147359..6f71062 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -123,7 +123,7 @@ func xParse(data []byte, format string) (*Model, error) {
 
 var examples []*sadl.ExampleDef
 
-var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD"} //to do: "PATCH", "OPTIONS", "TRACE"
+var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"} //to do: "TRACE"
 
 func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	annotations := make(map[string]string, 0)
@@ -643,11 +643,11 @@ func getPathOperation(oasPathItem *PathItem, method string) *Operation {
 		return oasPathItem.Delete
 	case "HEAD":
 		return oasPathItem.Head
+	case "PATCH":
+		return oasPathItem.Patch
+	case "OPTIONS":
+		return oasPathItem.Options
 		/*
-			case "PATCH":
-				return oasPathItem.Patch
-			case "OPTIONS":
-				return oasPathItem.Options
 			case "TRACE":
 				return oasPathItem.Trace
 			case "CONNECT":
-- 
2.43.0


From bcc700e38457a006cc81e504e57c5a1a43f7a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:14 +0000
Subject: [PATCH 039/134] fix: openapi import of schemas that are references to
 references, or to nothing

---
 openapi/import_openapi.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 6f71062..7d19f0a 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -158,11 +158,15 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		comment := ""
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
-			if oasDef, ok := schemas[tname]; ok {
-				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
-			} else {
-				panic("hmm")
+			oasDef := schemas[tname]
+			for i := 0; i < len(schemas) && oasTypeRef(oasDef) != ""; i++ {
+				tname = oasTypeRef(oasDef)
+				oasDef = schemas[tname]
+			}
+			if oasDef == nil || oasTypeRef(oasDef) != "" {
+				return nil, fmt.Errorf("Reference to undefined schema: %q", tname)
 			}
+			ts, err = convertOasType(tname, oasDef)
 		} else {
 			ts, err = convertOasType(name, oasSchema)
 			comment = oasSchema.Description
-- 
2.43.0


From faec94b5b498f7e329554a2edae58081ee1e48e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:15 +0000
Subject: [PATCH 040/134] fix: openapi import reports unsupported types and
 responses instead of panicking

---
 openapi/import_openapi.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 7d19f0a..8f7b39e 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -374,8 +374,7 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			}
 		}
 	default:
-		fmt.Printf("oas type is %q\n", oasSchema.Type)
-		panic("oas type not handled")
+		return ts, fmt.Errorf("OAS type not supported: %q", oasSchema.Type)
 	}
 	return ts, err
 }
@@ -601,7 +600,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			if status == "default" {
 				status = "0"
 			} else if strings.Index(status, "X") >= 0 {
-				panic("wildcard response codes not supported")
+				return nil, fmt.Errorf("wildcard response codes not supported: %q", status)
 			}
 			code, err := strconv.Atoi(status)
 			if err != nil {
@@ -619,7 +618,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						if schref.Ref != "" {
 							ex.Type = oasTypeRef(schref)
 						} else {
-							panic("inline response types not yet supported")
+							return nil, fmt.Errorf("inline response types not yet supported for exceptions in operation %q", op.OperationId)
 						}
 						break
 					}
-- 
2.43.0


From 43e48b6abf3a5e7898b98e2b679f26772cac96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:16 +0000
Subject: [PATCH 041/134] fix: openapi import reports errors in fields, items,
 headers and bodies

---
 openapi/import_openapi.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 8f7b39e..5386d14 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -319,9 +319,10 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = oasTypeRef(oasSchema.Items)
 			} else {
 				its, err := convertOasType(name+".Items", oasSchema.Items)
-				if err == nil {
-					ts.Items = its.Type
+				if err != nil {
+					return ts, err
 				}
+				ts.Items = its.Type
 			}
 		}
 		//minsize, maxsize
@@ -369,6 +370,9 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				fd.Type = oasTypeRef(fschema)
 				if fd.Type == "" {
 					fd.TypeSpec, err = convertOasType(name+"."+fname, fschema)
+					if err != nil {
+						return ts, err
+					}
 				}
 				ts.Fields = append(ts.Fields, fd)
 			}
@@ -569,6 +573,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					param.Type = oasTypeRef(schref)
 				} else {
 					param.TypeSpec, err = convertOasType(hact.Name+".Expected."+param.Name, schref) //fix: example
+					if err != nil {
+						return nil, err
+					}
 				}
 				ex.Outputs = append(ex.Outputs, param)
 			}
@@ -583,6 +590,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						result.Type = oasTypeRef(schref)
 					} else {
 						result.TypeSpec, err = convertOasType(hact.Name+".Expected.payload", schref) //fix: example
+						if err != nil {
+							return nil, err
+						}
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
-- 
2.43.0


From 6ac4c7c2156b76dd4a22dcfbb44af82abcaf1e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:17 +0000
Subject: [PATCH 042/134] fix: openapi import keeps the size limits of arrays

---
 openapi/import_openapi.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 5386d14..83cce9d 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -325,7 +325,14 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = its.Type
 			}
 		}
-		//minsize, maxsize
+		if oasSchema.MinItems > 0 {
+			tmpMin := int64(oasSchema.MinItems)
+			ts.MinSize = &tmpMin
+		}
+		if oasSchema.MaxItems != nil {
+			tmpMax := int64(*oasSchema.MaxItems)
+			ts.MaxSize = &tmpMax
+		}
 		//comment
 	case "number":
 		ts.Type = "Decimal"
-- 
2.43.0


From c72bb08c2331da589b363ac652d52ed1b8b05eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:18 +0000
Subject: [PATCH 043/134] fix: openapi import keeps digits in the names of
 parameters

---
 openapi/import_openapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 83cce9d..e3d9e8f 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -418,7 +418,7 @@ func uncapitalize(s string) string {
 }
 
 func makeIdentifier(text string) string {
-	reg, _ := regexp.Compile("[^a-zA-Z_][^a-zA-Z_0-9]*")
+	reg, _ := regexp.Compile("^[^a-zA-Z_]+|[^a-zA-Z_0-9]+")
 	return reg.ReplaceAllString(text, "")
 }
 
-- 
2.43.0


From f161133a4733c1911b1d836f481cd7a48747adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:19 +0000
Subject: [PATCH 044/134] fix: openapi import of path parameters whose name is
 not an identifier or not in the path

---
 openapi/import_openapi.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index e3d9e8f..dcb10f6 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -465,10 +465,10 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			queries = append(queries, param.Name+"={"+name+"}")
 		case "path":
 			spec.Path = true
-			if strings.Index(path, "{"+name+"}") < 0 {
-				fmt.Println("WARNING: path param is not in path template:", path, name)
-				panic("here")
+			if strings.Index(path, "{"+param.Name+"}") < 0 {
+				return nil, fmt.Errorf("path param is not in path template: %s %s", path, param.Name)
 			}
+			hact.Path = strings.Replace(hact.Path, "{"+param.Name+"}", "{"+name+"}", -1)
 		case "header":
 			spec.Header = param.Name
 		case "cookie":
-- 
2.43.0


From 94f8a5578b3161199c72e2ae5b25763704c244ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:20 +0000
Subject: [PATCH 045/134] fix: openapi import keeps the format and limits of
 parameters

---
 openapi/import_openapi.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index dcb10f6..4f6f289 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -476,26 +476,27 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		spec.Type = oasTypeRef(param.Schema)
 		if spec.Type == "" {
-			if param.Schema != nil {
-				spec.Type = sadlPrimitiveType(param.Schema.Type)
+			if param.Schema == nil {
+				return nil, fmt.Errorf("Parameter has no schema: %q", param.Name)
 			}
-			if spec.Type == "Array" {
-				if param.Schema.Items == nil {
-					spec.Items = "Any"
-				} else {
-					schref := param.Schema.Items
-					switch schref.Type {
-					case "string":
-						spec.Items = "String"
-					default:
-						spec.Items = "Any"
-					}
-				}
+			pschema := *param.Schema
+			pschema.Enum = nil
+			pschema.Example = nil
+			if pschema.Type == "integer" && pschema.Format == "" {
+				pschema.Format = "int32"
+			}
+			var err error
+			spec.TypeSpec, err = convertOasType(op.OperationId+"."+name, &pschema)
+			if err != nil {
+				return nil, err
+			}
+			if spec.Type == "Array" && spec.Items == "" {
+				spec.Items = "Any"
 			}
 			if spec.Type == "Struct" {
-				panic("Whoops, that can't be right")
+				return nil, fmt.Errorf("Parameter cannot be an object: %q", param.Name)
 			}
-			if param.Schema != nil && param.Schema.Enum != nil {
+			if param.Schema.Enum != nil {
 				for _, val := range param.Schema.Enum {
 					if s, ok := val.(string); ok {
 						spec.Values = append(spec.Values, s)
-- 
2.43.0


From 1f985b80a66f3d3ac5915985e9a119ca4c2ab0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:21 +0000
Subject: [PATCH 046/134] fix: openapi import includes request bodies with an
 inline schema

---
 openapi/import_openapi.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 4f6f289..4a2c91e 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -516,18 +516,22 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		if op.RequestBody != nil {
 			for contentType, mediadef := range op.RequestBody.Content {
 				if contentType == "application/json" { //hack
-					bodyType := oasTypeRef(mediadef.Schema)
-					if bodyType != "" {
+					if mediadef.Schema != nil {
 						spec := &sadl.HttpParamSpec{
 							StructFieldDef: sadl.StructFieldDef{
-								TypeSpec: sadl.TypeSpec{
-									Type: bodyType,
-								},
 								Comment:  op.RequestBody.Description,
 								Name:     "body",
 								Required: op.RequestBody.Required,
 							},
 						}
+						spec.Type = oasTypeRef(mediadef.Schema)
+						if spec.Type == "" {
+							var err error
+							spec.TypeSpec, err = convertOasType(hact.Name+".Request.payload", mediadef.Schema) //fix: example
+							if err != nil {
+								return nil, err
+							}
+						}
 						hact.Inputs = append(hact.Inputs, spec)
 					}
 				}
-- 
2.43.0


From 4b6acdca107a9d2aaa714492b4b021a9155e9d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:22 +0000
Subject: [PATCH 047/134] fix: openapi import includes the parameters shared by
 the operations of a path

---
 openapi/import_openapi.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 4a2c91e..c41c842 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -194,7 +194,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 					continue
 				}
 				if httpBindings {
-					hact, err := convertOasPath(tmpl, op, method)
+					hact, err := convertOasPath(tmpl, operationParameters(path2.Parameters, op), op, method)
 					if err != nil {
 						return nil, err
 					}
@@ -422,7 +422,24 @@ func makeIdentifier(text string) string {
 	return reg.ReplaceAllString(text, "")
 }
 
-func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, error) {
+// operationParameters returns the parameters of the operation, preceded by the ones of its path that it does not override
+func operationParameters(shared []*Parameter, op *Operation) []*Parameter {
+	var params []*Parameter
+	for _, param := range shared {
+		overridden := false
+		for _, p := range op.Parameters {
+			if p.Name == param.Name && p.In == param.In {
+				overridden = true
+			}
+		}
+		if !overridden {
+			params = append(params, param)
+		}
+	}
+	return append(params, op.Parameters...)
+}
+
+func convertOasPath(path string, params []*Parameter, op *Operation, method string) (*sadl.HttpDef, error) {
 	hact := &sadl.HttpDef{
 		Name:    op.OperationId,
 		Path:    path,
@@ -450,7 +467,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	}
 
 	var queries []string
-	for _, param := range op.Parameters {
+	for _, param := range params {
 		name := makeIdentifier(param.Name)
 		spec := &sadl.HttpParamSpec{
 			StructFieldDef: sadl.StructFieldDef{
-- 
2.43.0


From 21f99f0d8fa68c517c36d06717ce7c01c935412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:40 +0000
Subject: [PATCH 048/134] fix: swagger import keeps the numeric limits of types

---
 openapi/import_swagger.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index c5648e8..13f18dc 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -228,12 +228,12 @@ func toV3Schema(v2Any interface{}) *Schema {
 		}
 	case "integer", "number":
 		schema.Format = v2.GetString("format")
-		if v2.Has("min") {
-			f := v2.GetFloat64("min")
+		if v2.Has("minimum") {
+			f := v2.GetFloat64("minimum")
 			schema.Min = &f
 		}
-		if v2.Has("max") {
-			f := v2.GetFloat64("max")
+		if v2.Has("maximum") {
+			f := v2.GetFloat64("maximum")
 			schema.Max = &f
 		}
 	case "boolean":
-- 
2.43.0


From 26305ef5bb980a1782db5463bd6d84304f24606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:41 +0000
Subject: [PATCH 049/134] fix: swagger import keeps the description, format,
 items and limits of parameters and headers

---
 openapi/import_swagger.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 13f18dc..247bebf 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -107,16 +107,16 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 				Content:     toV3Content(consumes, paramd.Get("schema")),
 			}
 		} else {
-			var tp interface{}
-			tp = paramd.GetString("type")
-			if tp == "" {
+			tp := param
+			if paramd.GetString("type") == "" {
 				tp = paramd.Get("schema")
 			}
 			p := &Parameter{
-				In:       paramd.GetString("in"),
-				Name:     paramd.GetString("name"),
-				Required: paramd.GetBool("required"),
-				Schema:   toV3Schema(tp),
+				In:          paramd.GetString("in"),
+				Name:        paramd.GetString("name"),
+				Description: paramd.GetString("description"),
+				Required:    paramd.GetBool("required"),
+				Schema:      toV3Schema(tp),
 			}
 			params = append(params, p)
 		}
@@ -155,7 +155,7 @@ func toV3Headers(v2 map[string]interface{}) map[string]*Header {
 		vd := sadl.AsData(v)
 		headers[k] = &Header{
 			Description: vd.GetString("description"),
-			Schema:      toV3Schema(vd.GetString("type")),
+			Schema:      toV3Schema(v),
 		}
 	}
 	return headers
-- 
2.43.0


From 5212667bac9ec216300eba7ca5eb905ace2f11f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:42 +0000
Subject: [PATCH 050/134] fix: swagger import of schemas without a type no
 longer panics

---
 openapi/import_swagger.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 247bebf..cef909b 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -200,7 +200,11 @@ func toV3Schema(v2Any interface{}) *Schema {
 	schema.Type = v2.GetString("type")
 	schema.Required = v2.GetStringArray("required")
 	switch schema.Type {
-	case "object":
+	case "", "object":
+		if v2.Has("$ref") {
+			schema.Ref = strings.Replace(v2.GetString("$ref"), "#/definitions/", "#/components/schemas/", -1)
+			break
+		}
 		schema.Properties = make(map[string]*Schema, 0)
 		for k, v := range v2.GetData("properties").AsMap() {
 			schema.Properties[k] = toV3Schema(v)
@@ -238,13 +242,6 @@ func toV3Schema(v2Any interface{}) *Schema {
 		}
 	case "boolean":
 		//
-	default:
-		if v2.Has("$ref") {
-			schema.Ref = strings.Replace(v2.GetString("$ref"), "#/definitions/", "#/components/schemas/", -1)
-		} else {
-			fmt.Printf("type: %q\n%s\n->%v\n", schema.Type, sadl.Pretty(v2), v2.Get("$ref"))
-			panic("fix this schema")
-		}
 	}
 	return schema
 }
-- 
2.43.0


From 9aa066f055c0441b38038f9d23fe1aad1bcb207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:43 +0000
Subject: [PATCH 051/134] fix: swagger import keeps the size limits of arrays

---
 openapi/import_swagger.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index cef909b..0b109b5 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -210,7 +210,16 @@ func toV3Schema(v2Any interface{}) *Schema {
 			schema.Properties[k] = toV3Schema(v)
 		}
 	case "array":
-		schema.Items = toV3Schema(v2.Get("items"))
+		if v2.Has("items") {
+			schema.Items = toV3Schema(v2.Get("items"))
+		}
+		if v2.Has("minItems") {
+			schema.MinItems = uint64(v2.GetInt64("minItems"))
+		}
+		if v2.Has("maxItems") {
+			n := uint64(v2.GetInt64("maxItems"))
+			schema.MaxItems = &n
+		}
 	case "string":
 		schema.Format = v2.GetString("format")
 		schema.Pattern = v2.GetString("pattern")
-- 
2.43.0


From 7366767f3c248e0cd89b8ffe48db670dfd2d06b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:44 +0000
Subject: [PATCH 052/134] fix: swagger import includes OPTIONS operations and
 the parameters shared by a path

---
 openapi/import_swagger.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 0b109b5..b796052 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -69,12 +69,13 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 	for k, v := range v2.AsMap() {
 		vd := sadl.AsData(v)
 		pi := &PathItem{
-			Get:    toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
-			Delete: toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
-			Put:    toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
-			Post:   toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
-			Patch:  toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
-			Head:   toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
+			Get:     toV3Operation(model, vd.GetData("get"), vd.GetArray("parameters"), defConsumes, defProduces),
+			Delete:  toV3Operation(model, vd.GetData("delete"), vd.GetArray("parameters"), defConsumes, defProduces),
+			Put:     toV3Operation(model, vd.GetData("put"), vd.GetArray("parameters"), defConsumes, defProduces),
+			Post:    toV3Operation(model, vd.GetData("post"), vd.GetArray("parameters"), defConsumes, defProduces),
+			Patch:   toV3Operation(model, vd.GetData("patch"), vd.GetArray("parameters"), defConsumes, defProduces),
+			Head:    toV3Operation(model, vd.GetData("head"), vd.GetArray("parameters"), defConsumes, defProduces),
+			Options: toV3Operation(model, vd.GetData("options"), vd.GetArray("parameters"), defConsumes, defProduces),
 			//etc
 		}
 		paths[k] = pi
@@ -82,7 +83,26 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 	return paths
 }
 
-func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []string) *Operation {
+// operationParametersV2 returns the parameters of the operation, preceded by the ones of its path that it does not override
+func operationParametersV2(shared []interface{}, own []interface{}) []interface{} {
+	var params []interface{}
+	for _, param := range shared {
+		pd := sadl.AsData(param)
+		overridden := false
+		for _, o := range own {
+			od := sadl.AsData(o)
+			if od.GetString("name") == pd.GetString("name") && od.GetString("in") == pd.GetString("in") {
+				overridden = true
+			}
+		}
+		if !overridden {
+			params = append(params, param)
+		}
+	}
+	return append(params, own...)
+}
+
+func toV3Operation(model *Model, v2 *sadl.Data, shared []interface{}, defConsumes []string, defProduces []string) *Operation {
 	if v2.IsNil() {
 		return nil
 	}
@@ -98,7 +118,7 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 		consumes = defConsumes
 	}
 	var params []*Parameter
-	for _, param := range v2.GetArray("parameters") {
+	for _, param := range operationParametersV2(shared, v2.GetArray("parameters")) {
 		paramd := sadl.AsData(param)
 		if paramd.GetString("in") == "body" {
 			op.RequestBody = &RequestBody{
-- 
2.43.0


From fbe911ebb954a07d68bda85d544dc430ac6f0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:46 +0000
Subject: [PATCH 053/134] fix: swagger import keeps bodies when the document
 does not say what it consumes or produces

---
 openapi/import_swagger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index b796052..66174f3 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -187,6 +187,9 @@ func toV3Content(mediaTypes []string, v2 interface{}) Content {
 	}
 	schema := toV3Schema(v2)
 	content := make(map[string]*MediaType, 0)
+	if len(mediaTypes) == 0 {
+		mediaTypes = []string{"application/json"}
+	}
 	for _, mt := range mediaTypes {
 		md := &MediaType{
 			Schema: schema,
-- 
2.43.0


From 25d0cb1e5298dd8deeb476d07791d12f9ac723e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:47 +0000
Subject: [PATCH 054/134] fix: swagger import keeps the server of documents
 with other schemes, or only a base path

---
 openapi/import_swagger.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 66174f3..9e38761 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -280,12 +280,18 @@ func toV3Schema(v2Any interface{}) *Schema {
 
 func toV3Servers(v2 *sadl.Data) []*Server {
 	var servers []*Server
+	bp := v2.GetString("basePath")
 	if v2.Has("host") {
-		bp := v2.GetString("basePath")
+		scheme := "https"
+		if schemes := v2.GetStringArray("schemes"); len(schemes) > 0 && !containsString(schemes, scheme) {
+			scheme = schemes[0]
+		}
 		server := &Server{
-			URL: "https://" + v2.GetString("host") + bp,
+			URL: scheme + "://" + v2.GetString("host") + bp,
 		}
 		servers = append(servers, server)
+	} else if bp != "" {
+		servers = append(servers, &Server{URL: bp})
 	}
 	return servers
 }
-- 
2.43.0


From c38884aca581a345e16804daefc693c3e1c67221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:48 +0000
Subject: [PATCH 055/134] fix: swagger import keeps the examples of types

---
 openapi/import_swagger.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 9e38761..8567cea 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -220,6 +220,7 @@ func toV3Schema(v2Any interface{}) *Schema {
 	}
 	v2 := sadl.AsData(v2Any)
 	schema.Description = v2.GetString("description")
+	schema.Example = v2.Get("example")
 	schema.Type = v2.GetString("type")
 	schema.Required = v2.GetStringArray("required")
 	switch schema.Type {
-- 
2.43.0


From 774988a7b4bc86932be090fde8237df93a405570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:13 +0000
Subject: [PATCH 056/134] fix: graphql export reports types that GraphQL cannot
 say instead of panicking or leaving them undefined

---
 graphql/export_graphql.go | 81 +++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 32 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 192d6a6..e066318 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -11,8 +11,7 @@ import (
 func Export(model *sadl.Model, conf *sadl.Data) error {
 	s, err := FromSadl(model, conf)
 	if err != nil {
-		panic(fmt.Sprintf("*** %v\n", err))
-		//		return err
+		return err
 	}
 	fmt.Print(s)
 	return nil
@@ -23,16 +22,10 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 		//		namespace: ns,
 		model:         model,
 		config:        conf,
-		arrays:        make(map[string]*sadl.TypeDef, 0),
 		customScalars: make(map[string]bool, 0),
 	}
 	w.Begin()
 	var err error
-	for _, td := range model.Types {
-		if td.Type == "Array" {
-			w.arrays[td.Name] = td
-		}
-	}
 	for _, td := range model.Types {
 		switch td.Type {
 		case "Enum":
@@ -41,12 +34,10 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			err = w.EmitStructDef(td)
 		case "Union":
 			err = w.EmitUnionDef(td)
-		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-			//these get replace by the equivalent type, you cannot "subtype" thesein GraphQL
-		case "Array":
-			//skip these. All references to it should be replaced with literal GraphQL list syntax.
 		default:
-			panic("fixme: " + td.Type)
+			//these get replace by the equivalent type, you cannot "subtype" thesein GraphQL. References to arrays
+			//are replaced with literal GraphQL list syntax.
+			_, err = w.typeRef(&td.TypeSpec)
 		}
 		if err != nil {
 			return "", err
@@ -60,7 +51,6 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 
 type GraphqlWriter struct {
 	model         *sadl.Model
-	arrays        map[string]*sadl.TypeDef
 	config        *sadl.Data
 	buf           bytes.Buffer
 	writer        *bufio.Writer
@@ -99,7 +89,10 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 			//TO DO: format as block before the field
 			w.Emit("  # %s\n", fd.Comment)
 		}
-		ftype := w.typeRef(&fd.TypeSpec)
+		ftype, err := w.typeRef(&fd.TypeSpec)
+		if err != nil {
+			return fmt.Errorf("Cannot export field %q of type %q: %v", fd.Name, td.Name, err)
+		}
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
 	}
 	w.Emit("}\n\n")
@@ -119,7 +112,7 @@ func (w *GraphqlWriter) scalarType(name string) string {
 	switch name {
 	case "Bool":
 		return "Boolean"
-	case "String":
+	case "String", "Bytes", "UnitValue":
 		return "String"
 	case "UUID", "Timestamp":
 		return w.customScalar(name, "String")
@@ -134,26 +127,47 @@ func (w *GraphqlWriter) scalarType(name string) string {
 	}
 }
 
-func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
-	if td, ok := w.arrays[ts.Type]; ok {
-		ts = &td.TypeSpec
-	}
-	tsName := w.scalarType(ts.Type)
-	if tsName != "" {
-		return tsName
-	}
+func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) (string, error) {
 	switch ts.Type {
 	case "Array":
-		return fmt.Sprintf("[%s!]", ts.Items)
+		items, err := w.typeRefByName(ts.Items, nil)
+		if err != nil {
+			return "", err
+		}
+		return fmt.Sprintf("[%s!]", items), nil
+	case "Enum", "Struct", "Union":
+		return "", fmt.Errorf("inline %s has no equivalent in GraphQL", ts.Type)
 	default:
-		td := w.model.FindType(ts.Type)
-		if td != nil {
-			tsName = w.scalarType(td.Type)
-			if tsName != "" {
-				return tsName
-			}
+		return w.typeRefByName(ts.Type, nil)
+	}
+}
+
+// the types made of base types and of arrays are replaced by what they are made of.
+func (w *GraphqlWriter) typeRefByName(name string, via []string) (string, error) {
+	if tsName := w.scalarType(name); tsName != "" {
+		return tsName, nil
+	}
+	for _, n := range via {
+		if n == name {
+			return "", fmt.Errorf("type %q is defined as itself", name)
 		}
-		return ts.Type
+	}
+	td := w.model.FindType(name)
+	if td == nil || td.Name == td.Type {
+		return "", fmt.Errorf("type %q has no equivalent in GraphQL", name)
+	}
+	via = append(via, name)
+	switch td.Type {
+	case "Enum", "Struct", "Union":
+		return name, nil
+	case "Array":
+		items, err := w.typeRefByName(td.Items, via)
+		if err != nil {
+			return "", err
+		}
+		return fmt.Sprintf("[%s!]", items), nil
+	default:
+		return w.typeRefByName(td.Type, via)
 	}
 }
 
@@ -166,6 +180,9 @@ func (w *GraphqlWriter) EmitUnionDef(td *sadl.TypeDef) error {
 			w.Emit("    ")
 		}
 		vtype := uv.Type
+		if vtd := w.model.FindType(vtype); vtd == nil || vtd.Type != "Struct" || vtd.Name == vtd.Type {
+			return fmt.Errorf("Cannot export variant %q of union %q: only structs can be in a GraphQL union", vtype, td.Name)
+		}
 		w.Emit("%s\n", vtype)
 	}
 	w.Emit("\n")
-- 
2.43.0


From a3941880606b2f2a3c40ab42e2f68373b4dc5dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:14 +0000
Subject: [PATCH 057/134] fix: graphql export writes the custom scalars in the
 same order every time

---
 graphql/export_graphql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index e066318..4b74ac6 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/boynton/sadl"
 )
@@ -43,7 +44,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			return "", err
 		}
 	}
+	var scalars []string
 	for k, _ := range w.customScalars {
+		scalars = append(scalars, k)
+	}
+	sort.Strings(scalars)
+	for _, k := range scalars {
 		w.Emit("scalar %s\n", k)
 	}
 	return w.End(), nil
-- 
2.43.0


From 151b04ee944a7b6e3168b52917f84a6528d1b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:15 +0000
Subject: [PATCH 058/134] fix: graphql export of field comments with more than
 one line

---
 graphql/export_graphql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 4b74ac6..ecad221 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"strings"
 
 	"github.com/boynton/sadl"
 )
@@ -93,7 +94,7 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 		}
 		if fd.Comment != "" {
 			//TO DO: format as block before the field
-			w.Emit("  # %s\n", fd.Comment)
+			w.Emit("  # %s\n", strings.Replace(fd.Comment, "\n", "\n  # ", -1))
 		}
 		ftype, err := w.typeRef(&fd.TypeSpec)
 		if err != nil {
-- 
2.43.0


From f95995ae5607a1256a1cda22ba980365c8b447b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:16 +0000
Subject: [PATCH 059/134] fix: graphql import leaves out the operation types
 wherever the schema is declared

---
 graphql/import_graphql.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index e269216..fa4e5cb 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -67,6 +67,14 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 		},
 	}
 	schema.Types = append(schema.Types, td)
+	for _, def := range doc.Definitions {
+		if tdef, ok := def.(*gql_ast.SchemaDefinition); ok {
+			for _, opt := range tdef.OperationTypes {
+				iname := (*gql_ast.Named)(opt.Type).Name.Value
+				ignore[iname] = true
+			}
+		}
+	}
 	for _, def := range doc.Definitions {
 		switch tdef := def.(type) {
 		case *gql_ast.ObjectDefinition:
@@ -74,10 +82,7 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 				err = gqlStruct(schema, tdef)
 			}
 		case *gql_ast.SchemaDefinition:
-			for _, opt := range tdef.OperationTypes {
-				iname := (*gql_ast.Named)(opt.Type).Name.Value
-				ignore[iname] = true
-			}
+			//see above
 		case *gql_ast.EnumDefinition:
 			err = gqlEnum(schema, tdef)
 		case *gql_ast.UnionDefinition:
-- 
2.43.0


From 6628da327b84db44843b2913d2c0171078da8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:17 +0000
Subject: [PATCH 060/134] fix: graphql import of lists of lists no longer
 panics

---
 graphql/import_graphql.go | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index fa4e5cb..e55dee3 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -116,6 +116,8 @@ func typeName(t gql_ast.Type) string {
 		return tt.Name.Value
 	case *gql_ast.List:
 		return "Array"
+	case *gql_ast.NonNull:
+		return typeName(tt.Type)
 	default:
 		panic("FixMe")
 	}
@@ -212,19 +214,7 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 			fd.Type = convertTypeName(t.Name.Value)
 		case *gql_ast.List:
 			fd.Type = "Array"
-			switch it := t.Type.(type) {
-			case *gql_ast.Named:
-				fd.Items = convertTypeName(it.Name.Value)
-			case *gql_ast.NonNull:
-				switch it := it.Type.(type) {
-				case *gql_ast.Named:
-					fd.Items = convertTypeName(it.Name.Value)
-				default:
-					panic("inline list type not supported")
-				}
-			default:
-				panic("list type not supported")
-			}
+			fd.Items = convertTypeName(typeName(t.Type))
 		case *gql_ast.NonNull:
 			fd.Required = true
 			switch t := t.Type.(type) {
@@ -232,14 +222,7 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				fd.Type = convertTypeName(t.Name.Value)
 			case *gql_ast.List:
 				fd.Type = "Array"
-				switch it := t.Type.(type) {
-				case *gql_ast.Named:
-					fd.Items = convertTypeName(it.Name.Value)
-				case *gql_ast.NonNull:
-					fd.Items = convertTypeName(typeName(it.Type))
-				default:
-					panic("inline list type not supported")
-				}
+				fd.Items = convertTypeName(typeName(t.Type))
 			default:
 				fd.Type = convertTypeName(typeName(t))
 			}
-- 
2.43.0


From 7304621a02cd90b8f74c0d7a3c09f50ad92a4022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:06 +0000
Subject: [PATCH 061/134] fix: go export of enums imports the packages that
 their code uses

---
 golang/golang_model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index fd34161..2e23959 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -208,6 +208,8 @@ func (gen *Generator) EmitEnumType(td *sadl.TypeDef) {
 			return val
 		},
 	}
+	gen.addImport("encoding/json")
+	gen.addImport("fmt")
 	gen.EmitTemplate("enumType", enumTemplate, td, funcMap)
 }
 
-- 
2.43.0


From 584f3e964338b13c0274b6f1fafb52e4734f8d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:07 +0000
Subject: [PATCH 062/134] fix: go export of numeric types converts strings to
 the type

---
 golang/golang_model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 2e23959..f3a96f7 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -2,6 +2,7 @@ package golang
 
 import (
 	"fmt"
+	"strings"
 	"text/template"
 
 	"github.com/boynton/sadl"
@@ -126,7 +127,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		name := td.Name
 		gen.Emit("type " + name + " " + sadl.Uncapitalize(td.Type) + "\n")
 		gen.addImport("strconv")
-		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := strconv.ParseInt(s, 10, 64)\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn n\n}\n")
+		parse := "strconv.ParseInt(s, 10, " + strings.TrimPrefix(td.Type, "Int") + ")"
+		if strings.HasPrefix(td.Type, "Float") {
+			parse = "strconv.ParseFloat(s, " + strings.TrimPrefix(td.Type, "Float") + ")"
+		}
+		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := " + parse + "\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn " + name + "(n)\n}\n")
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
-- 
2.43.0


From b29fd066a302a3cad3825165430685318b0c60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:08 +0000
Subject: [PATCH 063/134] fix: go export of UUID, Bytes, Any, UnitValue and of
 arrays, maps and structs of anything

---
 golang/export_golang.go | 33 ++++++++++++++++++++++++++-------
 golang/golang_model.go  |  6 +++---
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index f5a9f01..e1d808a 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -171,6 +171,14 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 	switch name {
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "String":
 		return uncapitalize(name)
+	case "UUID":
+		return "string"
+	case "Bytes":
+		return "[]byte"
+	case "Any", "":
+		return "interface{}"
+	case "Struct":
+		return "map[string]interface{}"
 	case "Decimal":
 		if gen.runtime {
 			gen.addImport("github.com/boynton/sadl")
@@ -181,12 +189,9 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			return "*" + name
 		}
 	case "Array":
-		its := gen.Model.FindType(ts.Items)
-		return "[]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
+		return "[]" + gen.itemTypeName(ts.Items)
 	case "Map":
-		its := gen.Model.FindType(ts.Items)
-		kts := gen.Model.FindType(ts.Keys)
-		return "map[" + gen.nativeTypeName(&kts.TypeSpec, ts.Keys) + "]" + gen.nativeTypeName(&its.TypeSpec, ts.Items)
+		return "map[" + gen.keyTypeName(ts.Keys) + "]" + gen.itemTypeName(ts.Items)
 	case "Timestamp":
 		if gen.runtime {
 			gen.addImport("github.com/boynton/sadl")
@@ -200,8 +205,7 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			gen.addImport("github.com/boynton/sadl")
 			return "*sadl." + name
 		} else {
-			//FIXME
-			return "*" + name
+			return "string"
 		}
 	default:
 		//must be a app-defined class. Parser should have already verified its existence
@@ -216,6 +220,21 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 	}
 }
 
+func (gen *Generator) itemTypeName(name string) string {
+	ts := &sadl.TypeSpec{Type: name}
+	if td := gen.Model.FindType(name); td != nil {
+		ts = &td.TypeSpec
+	}
+	return gen.nativeTypeName(ts, name)
+}
+
+func (gen *Generator) keyTypeName(name string) string {
+	if name == "" {
+		return "string"
+	}
+	return gen.itemTypeName(name)
+}
+
 func capitalize(s string) string {
 	return strings.ToUpper(s[0:1]) + s[1:]
 }
diff --git a/golang/golang_model.go b/golang/golang_model.go
index f3a96f7..1a8ccf3 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -144,13 +144,13 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 }
 
 func (gen *Generator) EmitArrayType(td *sadl.TypeDef) {
-	itemType := gen.nativeTypeName(&td.TypeSpec, td.Items)
+	itemType := gen.itemTypeName(td.Items)
 	gen.Emit("type " + td.Name + " []" + itemType + "\n")
 }
 
 func (gen *Generator) EmitMapType(td *sadl.TypeDef) {
-	keyType := gen.nativeTypeName(&td.TypeSpec, td.Keys)
-	itemType := gen.nativeTypeName(&td.TypeSpec, td.Items)
+	keyType := gen.keyTypeName(td.Keys)
+	itemType := gen.itemTypeName(td.Items)
 	gen.Emit("type " + td.Name + " map[" + keyType + "]" + itemType + "\n")
 }
 
-- 
2.43.0


From 24d35dc2fdb3b30dff7cbb8e8d2d5d9d8a63f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:09 +0000
Subject: [PATCH 064/134] fix: go export of types that are another type, and of
 Bool, Bytes, Timestamp, UnitValue and Any types

---
 golang/golang_model.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 1a8ccf3..f743aa3 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -1,7 +1,6 @@
 package golang
 
 import (
-	"fmt"
 	"strings"
 	"text/template"
 
@@ -108,8 +107,6 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		gen.EmitStructType(td, errors)
 	case "Union":
 		gen.EmitUnionType(td, errors)
-	case "UnitValue":
-		gen.EmitUnitValueType(td)
 	case "Enum":
 		gen.EmitEnumType(td)
 	case "String":
@@ -135,10 +132,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
+	case "Bool", "Bytes", "Any":
+		gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, td.Type) + "\n")
 	default:
-		fmt.Println(td.Type)
-		panic("EmitType NYI: " + td.Type)
-		//do nothing, i.e. a String subclass
+		//the same as some other type. As an alias, it keeps the JSON representation
+		gen.Emit("type " + td.Name + " = " + strings.TrimPrefix(gen.nativeTypeName(&td.TypeSpec, td.Type), "*") + "\n")
 	}
 
 }
@@ -415,7 +413,3 @@ func ParseTimestamp(s string) (Timestamp, error) {
 	return Timestamp{t}, nil
 }
 `
-
-func (gen *Generator) EmitUnitValueType(td *sadl.TypeDef) {
-	panic("emitUnitValueType NYI")
-}
-- 
2.43.0


From 320ec361b7f68b40043dd7688a2d556960ca0816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:10 +0000
Subject: [PATCH 065/134] fix: go export keeps the JSON representation of
 Decimal types, and of absent unions, decimals and timestamps

---
 golang/export_golang.go |  7 ++++++-
 golang/golang_model.go  |  3 ---
 golang/golang_server.go | 10 +++++++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index e1d808a..b04cfbb 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -213,8 +213,13 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 		if td == nil {
 			panic("Unresolved type, parser should have caught this: " + name)
 		}
-		if td.Type == "Struct" {
+		switch gen.baseType(name) {
+		case "Struct", "Union", "Decimal", "Timestamp":
 			name = "*" + name
+		case "UnitValue":
+			if gen.runtime {
+				name = "*" + name
+			}
 		}
 		return name
 	}
diff --git a/golang/golang_model.go b/golang/golang_model.go
index f743aa3..cadc169 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -113,9 +113,6 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		gen.Emit("type " + td.Name + " string\n")
 	case "UUID":
 		gen.Emit("type " + td.Name + " string //UUID\n")
-	case "Decimal":
-		gen.Emit("type " + td.Name + " Decimal\n")
-		gen.createDecimal = true
 	case "Array":
 		gen.EmitArrayType(td)
 	case "Map":
diff --git a/golang/golang_server.go b/golang/golang_server.go
index 83ffab9..2a7402a 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -180,10 +180,14 @@ func (gen *Generator) nativeType(name string) string {
 
 func (gen *Generator) baseType(tname string) string {
 	td := gen.Model.FindType(tname)
-	if td == nil {
-		return ""
+	for n := 0; td != nil && n <= len(gen.Model.Types); n++ {
+		next := gen.Model.FindType(td.Type)
+		if next == nil || next.Name == next.Type {
+			return td.Type
+		}
+		td = next
 	}
-	return td.Type
+	return ""
 }
 
 func stringDefault(any interface{}) string {
-- 
2.43.0


From 9c23f64765366e58bd71ae4f75e10ae85ff4ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:11 +0000
Subject: [PATCH 066/134] fix: go export of actions without an expected
 response

---
 golang/golang_model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index cadc169..dbd2adf 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -79,8 +79,10 @@ func (gen *Generator) EmitResponseType(hd *sadl.HttpDef) {
 	}
 	td.Type = "Struct"
 	fields := make([]*sadl.StructFieldDef, 0)
-	for _, p := range hd.Expected.Outputs {
-		fields = append(fields, &p.StructFieldDef)
+	if hd.Expected != nil {
+		for _, p := range hd.Expected.Outputs {
+			fields = append(fields, &p.StructFieldDef)
+		}
 	}
 	td.Fields = fields
 	gen.EmitStructType(td, nil)
-- 
2.43.0


From 69085545b075e786410d61c628bf59c4875a529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:12 +0000
Subject: [PATCH 067/134] fix: go export reports types that it cannot generate
 instead of panicking

---
 golang/export_golang.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index b04cfbb..96e0d15 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -210,8 +210,12 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 	default:
 		//must be a app-defined class. Parser should have already verified its existence
 		td := gen.Model.FindType(name)
-		if td == nil {
-			panic("Unresolved type, parser should have caught this: " + name)
+		if td == nil || td.Name == td.Type {
+			//inline enums and unions have no name, see Model.ConvertInlineEnums
+			if gen.Err == nil {
+				gen.Err = fmt.Errorf("Cannot generate Go for type %q", name)
+			}
+			return name
 		}
 		switch gen.baseType(name) {
 		case "Struct", "Union", "Decimal", "Timestamp":
-- 
2.43.0


From 905c27a6d716bde248a3e8614e4a838d8b62476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:13 +0000
Subject: [PATCH 068/134] fix: go Decimal type reads JSON numbers exactly

---
 golang/golang_model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index dbd2adf..1da564c 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -287,10 +287,10 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 			return nil
 		}
 	} else {
-		var floatRepr float64
-		err = json.Unmarshal(b, &floatRepr)
+		var num *Decimal
+		num, err = ParseDecimal(string(b))
 		if err == nil {
-         *d = *NewDecimal(floatRepr)
+			*d = *num
 			return nil
 		}
 	}
-- 
2.43.0


From a742f116e2ea325aa84215b8b43d0590b5b98fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:14 +0000
Subject: [PATCH 069/134] fix: go Timestamp type prints the instant in UTC,
 with a 4 digit year

---
 golang/golang_model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 1da564c..877a9f1 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -359,12 +359,13 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
+	ts.Time = ts.Time.UTC()
 	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
 }
 
-- 
2.43.0


From 2c562e3288ac76253130f983c5e29ab0bd9f2033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:28 +0000
Subject: [PATCH 070/134] fix: go Decimal type prints all of its digits, and
 refuses infinity

---
 golang/golang_model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 877a9f1..4b38a39 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -307,7 +307,7 @@ func DecimalFromString(text string) *Decimal {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
    return &Decimal{Float:*num}, nil
@@ -318,7 +318,7 @@ func NewDecimal(val float64) *Decimal {
 }
 
 func (d *Decimal) String() string {
-	return fmt.Sprint(d)
+	return d.Text('f', -1)
 }
 
 func (d *Decimal) AsInt32() int32 {
-- 
2.43.0


From 087735131d81a3b3fa76a2a1c6ddeb70b9a38202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:55 +0000
Subject: [PATCH 071/134] fix: go server compiles for actions with both query
 and body, without outputs, or without an expected response

---
 golang/golang_server.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 2a7402a..8fa202a 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -76,7 +76,7 @@ func (gen *Generator) EmitServerAdaptor() {
 			}
 			s := ""
 			if form {
-				s = "\terr := r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
+				s = "\tif err := r.ParseForm(); err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 			}
 			for _, in := range hd.Inputs {
 				name := sadl.Capitalize(in.Name)
@@ -87,15 +87,14 @@ func (gen *Generator) EmitServerAdaptor() {
 				} else if in.Path {
 					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("mux.Vars(r)[%q]", in.Name)) + "\n"
 				} else {
-					s = s + "\terr := json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
-					s = s + "\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
+					s = s + "\tif err := json.NewDecoder(r.Body).Decode(&req." + name + "); err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 				}
 			}
 			return s
 		},
 		"outputs": func(hd *sadl.HttpDef) string {
 			s := ""
-			for _, out := range hd.Expected.Outputs {
+			for _, out := range expectedOutputs(hd) {
 				name := sadl.Capitalize(out.Name)
 				if out.Header != "" {
 					s = s + "\t\tw.Header().Add(\"" + out.Header + "\", normalizeHeaderValue(\"" + out.Header + "\", res." + name + "))\n"
@@ -112,15 +111,16 @@ func (gen *Generator) EmitServerAdaptor() {
 			return s
 		},
 		"expectedResult": func(hd *sadl.HttpDef) string {
-			switch hd.Expected.Status {
-			case 204, 304:
+			if len(expectedOutputs(hd)) == 0 {
 				return "_"
-			default:
-				return "res"
 			}
+			return "res"
+		},
+		"expectedStatus": func(hd *sadl.HttpDef) int32 {
+			return expectedStatus(hd)
 		},
 		"expectedEntity": func(hd *sadl.HttpDef) string {
-			for _, out := range hd.Expected.Outputs {
+			for _, out := range expectedOutputs(hd) {
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
 					return "res." + name
@@ -139,6 +139,20 @@ func (gen *Generator) EmitServerAdaptor() {
 	gen.EmitTemplate("server", serverTemplate, gen, funcMap)
 }
 
+func expectedStatus(hd *sadl.HttpDef) int32 {
+	if hd.Expected == nil || hd.Expected.Status == 0 {
+		return 200
+	}
+	return hd.Expected.Status
+}
+
+func expectedOutputs(hd *sadl.HttpDef) []*sadl.HttpParamSpec {
+	if hd.Expected == nil {
+		return nil
+	}
+	return hd.Expected.Outputs
+}
+
 func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
 	coerceTo := gen.nativeType(in.Type)
 	if strings.HasPrefix(coerceTo, "*") {
@@ -241,7 +255,7 @@ func (handler *{{adaptorName}}) {{methodName .}}Handler(w http.ResponseWriter, r
 			jsonResponse(w, 500, &serverError{Message: fmt.Sprint(err)})
 		}
 	} else {
-{{outputs .}}		jsonResponse(w, {{.Expected.Status}}, {{expectedEntity .}})
+{{outputs .}}		jsonResponse(w, {{expectedStatus .}}, {{expectedEntity .}})
 	}
 }
 {{end}}
-- 
2.43.0


From 7e5276fc604a578da6fd98c8a7437293885e5d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:56 +0000
Subject: [PATCH 072/134] fix: go server compiles when the model has no
 Timestamp, and with the runtime

---
 golang/golang_model.go  |  2 +-
 golang/golang_server.go | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 4b38a39..a9d0a83 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -14,7 +14,7 @@ func (gen *Generator) CreateModel() {
 	gen.Begin()
 	gen.EmitInterface()
 	gen.EmitTypeDefs()
-	if gen.createTimestamp {
+	if gen.createTimestamp || (gen.createServer && !gen.runtime) { //the server code refers to it
 		gen.EmitTimestamp()
 	}
 	if gen.createDecimal {
diff --git a/golang/golang_server.go b/golang/golang_server.go
index 8fa202a..61e9fc3 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -39,6 +39,13 @@ func (gen *Generator) EmitServerAdaptor() {
 	funcMap := template.FuncMap{
 		"openBrace":   func() string { return "{" },
 		"backquote":   func() string { return "`" },
+		"sadlPrefix": func() string {
+			if gen.runtime {
+				gen.addImport("github.com/boynton/sadl")
+				return "sadl."
+			}
+			return ""
+		},
 		"serviceName": func() string { return sadl.Capitalize(gen.Name) },
 		"adaptorName": func() string { return sadl.Uncapitalize(gen.Name) + "Adaptor" },
 		"reqTypeName": func(hd *sadl.HttpDef) string { return gen.RequestTypeName(hd) },
@@ -287,9 +294,9 @@ func stringParam(val string, def string) string {
 	return val
 }
 
-func timestampParam(val string, def *Timestamp) *Timestamp {
+func timestampParam(val string, def *{{sadlPrefix}}Timestamp) *{{sadlPrefix}}Timestamp {
 	if val != "" {
-		ts, err := ParseTimestamp(val)
+		ts, err := {{sadlPrefix}}ParseTimestamp(val)
 		if err == nil {
 			return &ts
 		}
@@ -344,7 +351,7 @@ func normalizeHeaderValue(key string, value interface{}) string {
       switch ts := value.(type) {
       case time.Time:
          return timestampRfc2616(ts)
-      case *Timestamp:
+      case *{{sadlPrefix}}Timestamp:
          return timestampRfc2616(ts.Time)
       case string:
 			return ts //just trust the application
-- 
2.43.0


From d831ee6fad95e16eccf1221b5a3f86ad1cef1401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:57 +0000
Subject: [PATCH 073/134] fix: go server default values of Timestamp and String
 parameters

---
 golang/golang_server.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 61e9fc3..903635a 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -174,7 +174,7 @@ func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
 		}
 		return vv
 	case "Timestamp":
-		return fmt.Sprintf("timestampParam(%s, %s)", v, timestampDefault(in.Default))
+		return fmt.Sprintf("timestampParam(%s, %s)", v, gen.timestampDefault(in.Default))
 	case "Int32", "Int8", "Int16", "Int64":
 		vv := fmt.Sprintf("intParam(%s, %d)", v, intDefault(in.Default))
 		if coerceTo != bt {
@@ -218,19 +218,18 @@ func stringDefault(any interface{}) string {
 	switch v := any.(type) {
 	case string:
 		return v
+	case *string:
+		return *v
 	default:
 		return fmt.Sprint(any)
 	}
 }
 
-func timestampDefault(any interface{}) string {
-	switch v := any.(type) {
-	case *sadl.Timestamp:
-		return fmt.Sprintf("%q", v.String())
-	case string:
-		ts, err := sadl.ParseTimestamp(v)
+func (gen *Generator) timestampDefault(any interface{}) string {
+	if any != nil {
+		ts, err := sadl.ParseTimestamp(stringDefault(any))
 		if err == nil {
-			return fmt.Sprintf("%q", ts.String())
+			return fmt.Sprintf("timestampParam(%q, nil)", ts.String())
 		}
 	}
 	return "nil"
-- 
2.43.0


From e1bc0b7796f137e020085f941892c51f6d301779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:58 +0000
Subject: [PATCH 074/134] fix: go server parameters of Bool, Float, Decimal and
 Enum types; others are an error, not a panic

---
 golang/golang_server.go | 55 +++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 903635a..c14cb64 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -161,7 +161,7 @@ func expectedOutputs(hd *sadl.HttpDef) []*sadl.HttpParamSpec {
 }
 
 func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
-	coerceTo := gen.nativeType(in.Type)
+	coerceTo := gen.nativeTypeName(&in.TypeSpec, in.Type)
 	if strings.HasPrefix(coerceTo, "*") {
 		coerceTo = "&" + coerceTo[1:]
 	}
@@ -181,13 +181,27 @@ func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
 			vv = fmt.Sprintf("%s(%s)", coerceTo, vv)
 		}
 		return vv
-		/*
-			case "Float32", "Float64":
-			case "Decimal":
-			case "UUID":
-		*/
+	case "Float32", "Float64":
+		return fmt.Sprintf("%s(floatParam(%s, %s))", coerceTo, v, numberDefault(in.Default))
+	case "Bool":
+		return fmt.Sprintf("%s(boolParam(%s, %v))", coerceTo, v, in.Default == true)
+	case "Decimal":
+		vv := fmt.Sprintf("%s(stringParam(%s, %q))", "DecimalFromString", v, stringDefault(in.Default))
+		if gen.runtime {
+			vv = fmt.Sprintf("func() *sadl.Decimal { d, _ := sadl.ParseDecimal(stringParam(%s, %q)); return d }()", v, stringDefault(in.Default))
+		}
+		return vv
+	case "Enum":
+		//the symbol as a JSON string. Anything else leaves the parameter unset
+		return fmt.Sprintf("func() (e %s) { _ = json.Unmarshal([]byte(strconv.Quote(stringParam(%s, %q))), &e); return }()", coerceTo, v, stringDefault(in.Default))
 	default:
-		panic("Fix this: " + in.Type)
+		if bt == "UnitValue" && !gen.runtime {
+			return fmt.Sprintf("stringParam(%s, %q)", v, stringDefault(in.Default))
+		}
+		if gen.Err == nil {
+			gen.Err = fmt.Errorf("Cannot generate Go for parameter %q of type %s", in.Name, in.Type)
+		}
+		return v
 	}
 }
 
@@ -235,6 +249,13 @@ func (gen *Generator) timestampDefault(any interface{}) string {
 	return "nil"
 }
 
+func numberDefault(v interface{}) string {
+	if d, ok := v.(*sadl.Decimal); ok && d != nil {
+		return d.String()
+	}
+	return "0"
+}
+
 func intDefault(v interface{}) int64 {
 	if v != nil {
 		switch n := v.(type) {
@@ -313,6 +334,26 @@ func intParam(val string, def int64) int64 {
 	return def
 }
 
+func floatParam(val string, def float64) float64 {
+	if val != "" {
+		f, err := strconv.ParseFloat(val, 64)
+		if err == nil {
+			return f
+		}
+	}
+	return def
+}
+
+func boolParam(val string, def bool) bool {
+	if val != "" {
+		b, err := strconv.ParseBool(val)
+		if err == nil {
+			return b
+		}
+	}
+	return def
+}
+
 func Pretty(obj interface{}) string {
 	buf := new(bytes.Buffer)
 	enc := json.NewEncoder(buf)
-- 
2.43.0


From 49511133dcb09b12a50f5f3a578f4c05df3c5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:19 +0000
Subject: [PATCH 075/134] fix: go server integer parameters that are out of
 range are not truncated

---
 golang/golang_server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index c14cb64..15a2aad 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -37,8 +37,8 @@ func (gen *Generator) EmitServerAdaptor() {
 	gen.addImport("strings")
 	gen.addImport("time")
 	funcMap := template.FuncMap{
-		"openBrace":   func() string { return "{" },
-		"backquote":   func() string { return "`" },
+		"openBrace": func() string { return "{" },
+		"backquote": func() string { return "`" },
 		"sadlPrefix": func() string {
 			if gen.runtime {
 				gen.addImport("github.com/boynton/sadl")
@@ -176,7 +176,7 @@ func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
 	case "Timestamp":
 		return fmt.Sprintf("timestampParam(%s, %s)", v, gen.timestampDefault(in.Default))
 	case "Int32", "Int8", "Int16", "Int64":
-		vv := fmt.Sprintf("intParam(%s, %d)", v, intDefault(in.Default))
+		vv := fmt.Sprintf("intParam(%s, %d, %s)", v, intDefault(in.Default), strings.TrimPrefix(bt, "Int"))
 		if coerceTo != bt {
 			vv = fmt.Sprintf("%s(%s)", coerceTo, vv)
 		}
@@ -324,9 +324,9 @@ func timestampParam(val string, def *{{sadlPrefix}}Timestamp) *{{sadlPrefix}}Tim
 	return def
 }
 
-func intParam(val string, def int64) int64 {
+func intParam(val string, def int64, bits int) int64 {
 	if val != "" {
-		i, err := strconv.ParseInt(val, 10, 64)
+		i, err := strconv.ParseInt(val, 10, bits)
 		if err == nil {
 			return i
 		}
-- 
2.43.0


From 6639c7ebeb07f63c2956b4b3977021ea672183ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:20 +0000
Subject: [PATCH 076/134] fix: go server leaves out headers that have no value
 instead of crashing on them

---
 golang/golang_server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 15a2aad..54fcd44 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -104,7 +104,11 @@ func (gen *Generator) EmitServerAdaptor() {
 			for _, out := range expectedOutputs(hd) {
 				name := sadl.Capitalize(out.Name)
 				if out.Header != "" {
-					s = s + "\t\tw.Header().Add(\"" + out.Header + "\", normalizeHeaderValue(\"" + out.Header + "\", res." + name + "))\n"
+					add := "w.Header().Add(\"" + out.Header + "\", normalizeHeaderValue(\"" + out.Header + "\", res." + name + "))\n"
+					if strings.HasPrefix(gen.nativeTypeName(&out.TypeSpec, out.Type), "*") {
+						add = "if res." + name + " != nil {\n\t\t\t" + add + "\t\t}\n"
+					}
+					s = s + "\t\t" + add
 				}
 			}
 			return s
-- 
2.43.0


From 2921d719a59d1c2e8f169f941e93f2f8dd5ed787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:05 +0000
Subject: [PATCH 077/134] fix: go client is named after the service, and does
 not need an expected response

---
 golang/golang_client.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 24ff55a..ec488f7 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -81,15 +81,15 @@ func (gen *Generator) EmitClient() {
 			return path
 		},
 		"expectedResults": func(hd *sadl.HttpDef) string {
-			s := fmt.Sprintf("\tcase %d:\n", hd.Expected.Status)
+			s := fmt.Sprintf("\tcase %d:\n", expectedStatus(hd))
 			//			if hd.Expected.Status == 204 || hd.Expected.Status == 304 {
 			//				if len(hd.Expected.Outputs) == 0 {
 			//					return s + "\t\treturn nil, nil\n"
 			//				}
 			//			}
 			s = s + "\t\tresponse := &" + sadl.Capitalize(hd.Name) + "Response{}\n"
-			for _, out := range hd.Expected.Outputs {
-				natType := gen.nativeType(out.Type)
+			for _, out := range expectedOutputs(hd) {
+				natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
 					s = s + "\t\tvar entity " + natType + "\n"
@@ -164,8 +164,8 @@ type {{clientName}} struct {
 	Target string
 }
 
-func NewClient(target string) (*CrudlClient, error) {
-	return &CrudlClient{
+func NewClient(target string) (*{{clientName}}, error) {
+	return &{{clientName}}{
 		Target: target,
 	}, nil
 }
-- 
2.43.0


From 8c56873942bee52419cc04dd3de52e69622d35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:06 +0000
Subject: [PATCH 078/134] fix: go client sends path parameters, headers, and
 escaped query parameters under their names

---
 golang/golang_client.go | 93 ++++++++++++++++++++++++++---------------
 1 file changed, 59 insertions(+), 34 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index ec488f7..fbf7295 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -26,9 +26,7 @@ func (gen *Generator) EmitClient() {
 	gen.addImport("encoding/json")
 	gen.addImport("fmt")
 	gen.addImport("net/http")
-	//	gen.addImport("net/url")
-	gen.addImport("strings")
-	//	gen.addImport("time")
+	gen.addImport("net/url")
 	funcMap := template.FuncMap{
 		"openBrace":   func() string { return "{" },
 		"clientName":  func() string { return sadl.Capitalize(gen.Name) + "Client" },
@@ -38,6 +36,28 @@ func (gen *Generator) EmitClient() {
 		"inputs":      func(hd *sadl.HttpDef) string { return "// fix me: 'inputs'" },
 		"outputs":     func(hd *sadl.HttpDef) string { return "// fix me: 'outputs'" },
 		"exceptions":  func(hd *sadl.HttpDef) string { return "// fix me: 'exceptions'" },
+		"pathParams": func(hd *sadl.HttpDef) string {
+			s := ""
+			for _, in := range hd.Inputs {
+				if in.Path {
+					gen.addImport("strings")
+					s = s + fmt.Sprintf("\tpath = strings.Replace(path, %q, url.PathEscape(fmt.Sprint(req.%s)), 1)\n", "{"+in.Name+"}", sadl.Capitalize(in.Name))
+				}
+			}
+			return s
+		},
+		"headerParams": func(hd *sadl.HttpDef) string {
+			s := ""
+			for _, in := range hd.Inputs {
+				if in.Header != "" {
+					name := sadl.Capitalize(in.Name)
+					s = s + "\tif req." + name + " != " + gen.notSet(in.Type) + " {\n"
+					s = s + fmt.Sprintf("\t\threq.Header.Set(%q, fmt.Sprint(req.%s))\n", in.Header, name)
+					s = s + "\t}\n"
+				}
+			}
+			return s
+		},
 		"requestEntityContentType": func(hd *sadl.HttpDef) string {
 			switch hd.Method {
 			case "PUT", "POST", "PATCH":
@@ -45,15 +65,16 @@ func (gen *Generator) EmitClient() {
 			}
 			return ""
 		},
+		"reqBody": func(hd *sadl.HttpDef) string {
+			if name := gen.bodyName(hd); name != "" {
+				return "\tentity, err := json.Marshal(req." + name + ")\n\tif err != nil {\n\t\treturn nil, err\n\t}\n"
+			}
+			return ""
+		},
 		"reqBodyReader": func(hd *sadl.HttpDef) string {
-			switch hd.Method {
-			case "PUT", "POST", "PATCH":
-				for _, in := range hd.Inputs {
-					if !in.Path && in.Query == "" && in.Header == "" {
-						gen.addImport("bytes")
-						return "bytes.NewReader([]byte(Json(req." + sadl.Capitalize(in.Name) + ")))"
-					}
-				}
+			if gen.bodyName(hd) != "" {
+				gen.addImport("bytes")
+				return "bytes.NewReader(entity)"
 			}
 			return "nil"
 		},
@@ -62,7 +83,7 @@ func (gen *Generator) EmitClient() {
 			for _, in := range hd.Inputs {
 				if in.Query != "" {
 					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
-					s = s + "\t\targs = append(args, fmt.Sprintf(\"" + in.Name + "=" + gen.typeFormat(in.Type) + "\", req." + sadl.Capitalize(in.Name) + "))\n"
+					s = s + fmt.Sprintf("\t\targs.Set(%q, fmt.Sprint(req.%s))\n", in.Query, sadl.Capitalize(in.Name))
 					s = s + "\t}\n"
 				}
 			}
@@ -129,14 +150,32 @@ func (gen *Generator) EmitClient() {
 	gen.EmitTemplate("client", clientTemplate, gen, funcMap)
 }
 
+// bodyName returns the name of the field of the request that is its body, if it has one
+func (gen *Generator) bodyName(hd *sadl.HttpDef) string {
+	switch hd.Method {
+	case "PUT", "POST", "PATCH":
+		for _, in := range hd.Inputs {
+			if !in.Path && in.Query == "" && in.Header == "" {
+				return sadl.Capitalize(in.Name)
+			}
+		}
+	}
+	return ""
+}
+
 func (gen *Generator) notSet(sadlType string) string {
 	bt := gen.baseType(sadlType)
 	switch bt {
-	case "String":
+	case "String", "UUID":
 		return `""`
-	case "Int8", "Int16", "Int32", "Int64":
+	case "UnitValue":
+		if gen.runtime {
+			return "nil"
+		}
+		return `""`
+	case "Int8", "Int16", "Int32", "Int64", "Enum":
 		return "0"
-	case "Float32", "Float64", "Decimal":
+	case "Float32", "Float64":
 		return "0.0"
 	case "Bool":
 		return "false"
@@ -145,20 +184,6 @@ func (gen *Generator) notSet(sadlType string) string {
 	}
 }
 
-func (gen *Generator) typeFormat(sadlType string) string {
-	bt := gen.baseType(sadlType)
-	switch bt {
-	case "String":
-		return "%s"
-	case "Int8", "Int16", "Int32", "Int64":
-		return "%d"
-	case "Float32", "Float64", "Decimal":
-		return "&g"
-	default:
-		return "%v"
-	}
-}
-
 var clientTemplate = `
 type {{clientName}} struct {
 	Target string
@@ -171,16 +196,16 @@ func NewClient(target string) (*{{clientName}}, error) {
 }
 {{range .Model.Http}}
 func (client *{{clientName}}) {{methodSignature .}} {
-	url := client.Target + "{{methodPath .}}"
-	var args []string
+	path := "{{methodPath .}}"
+{{pathParams .}}	args := url.Values{}
 {{queryParams .}}	if len(args) > 0 {
-		url = url + "?" + strings.Join(args, "&")
+		path = path + "?" + args.Encode()
 	}
-	hreq, err := http.NewRequest("{{.Method}}", url, {{reqBodyReader .}})
+{{reqBody .}}	hreq, err := http.NewRequest("{{.Method}}", client.Target+path, {{reqBodyReader .}})
 	if err != nil {
 		return nil, err
 	}
-{{requestEntityContentType .}}
+{{headerParams .}}{{requestEntityContentType .}}
 	res, err := http.DefaultClient.Do(hreq)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 86a9413cc0c785da4a5916cb1566b2836a3d2301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:07 +0000
Subject: [PATCH 079/134] fix: go client reads headers of any type, and
 exceptions that have no body

---
 golang/golang_client.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index fbf7295..7c2cbfb 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -121,12 +121,9 @@ func (gen *Generator) EmitClient() {
 					s = s + "\t\tresponse." + name + " = entity\n"
 				} else {
 					i := "res.Header.Get(" + fmt.Sprintf("%q", out.Header) + ")" //fold header name consistently?
-					switch natType {
-					case "*Timestamp":
-						i = "TimestampFromString(" + i + ")"
-					default:
-					}
-					s = s + "\t\tresponse." + name + " = " + i + "\n"
+					s = s + "\t\tif val := " + i + "; val != \"\" {\n"
+					s = s + "\t\t\t" + gen.headerValue(out, natType, "response."+name, "val") + "\n"
+					s = s + "\t\t}\n"
 				}
 			}
 			s = s + "\t\treturn response, nil\n"
@@ -137,6 +134,10 @@ func (gen *Generator) EmitClient() {
 			for _, es := range hd.Exceptions {
 				natType := gen.nativeType(es.Type)
 				s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
+				if es.Status == 204 || es.Status == 304 { //these have no body
+					s = s + "\t\treturn nil, new(" + strings.TrimPrefix(natType, "*") + ")\n"
+					continue
+				}
 				s = s + "\t\tvar errEntity " + natType + "\n"
 				s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&errEntity)\n"
 				s = s + "\t\tif err != nil {\n"
@@ -150,6 +151,25 @@ func (gen *Generator) EmitClient() {
 	gen.EmitTemplate("client", clientTemplate, gen, funcMap)
 }
 
+// headerValue returns the statement that sets a field of the response to the value of a header
+func (gen *Generator) headerValue(out *sadl.HttpParamSpec, natType, field, val string) string {
+	switch gen.baseType(out.Type) {
+	case "String", "UUID":
+		return field + " = " + natType + "(" + val + ")"
+	case "UnitValue":
+		if !gen.runtime {
+			return field + " = " + val
+		}
+		gen.addImport("strconv")
+		return "_ = json.Unmarshal([]byte(strconv.Quote(" + val + ")), &" + field + ")"
+	case "Timestamp", "Enum":
+		gen.addImport("strconv")
+		return "_ = json.Unmarshal([]byte(strconv.Quote(" + val + ")), &" + field + ")"
+	default: //numbers and Bool
+		return "_ = json.Unmarshal([]byte(" + val + "), &" + field + ")"
+	}
+}
+
 // bodyName returns the name of the field of the request that is its body, if it has one
 func (gen *Generator) bodyName(hd *sadl.HttpDef) string {
 	switch hd.Method {
-- 
2.43.0


From 011f1bb75f446fa069dd9c08913441281686eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:27 +0000
Subject: [PATCH 080/134] fix: go client does not import the runtime for
 headers it reads without it

---
 golang/golang_client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 7c2cbfb..691fe70 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -110,9 +110,9 @@ func (gen *Generator) EmitClient() {
 			//			}
 			s = s + "\t\tresponse := &" + sadl.Capitalize(hd.Name) + "Response{}\n"
 			for _, out := range expectedOutputs(hd) {
-				natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
+					natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 					s = s + "\t\tvar entity " + natType + "\n"
 					s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&entity)\n"
 					s = s + "\t\tif err != nil {\n"
@@ -122,7 +122,7 @@ func (gen *Generator) EmitClient() {
 				} else {
 					i := "res.Header.Get(" + fmt.Sprintf("%q", out.Header) + ")" //fold header name consistently?
 					s = s + "\t\tif val := " + i + "; val != \"\" {\n"
-					s = s + "\t\t\t" + gen.headerValue(out, natType, "response."+name, "val") + "\n"
+					s = s + "\t\t\t" + gen.headerValue(out, "response."+name, "val") + "\n"
 					s = s + "\t\t}\n"
 				}
 			}
@@ -152,10 +152,10 @@ func (gen *Generator) EmitClient() {
 }
 
 // headerValue returns the statement that sets a field of the response to the value of a header
-func (gen *Generator) headerValue(out *sadl.HttpParamSpec, natType, field, val string) string {
+func (gen *Generator) headerValue(out *sadl.HttpParamSpec, field, val string) string {
 	switch gen.baseType(out.Type) {
 	case "String", "UUID":
-		return field + " = " + natType + "(" + val + ")"
+		return field + " = " + gen.nativeTypeName(&out.TypeSpec, out.Type) + "(" + val + ")"
 	case "UnitValue":
 		if !gen.runtime {
 			return field + " = " + val
-- 
2.43.0


From 589dacfe309e0679aa61d111660a83ff66a08e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:57 +0000
Subject: [PATCH 081/134] fix: go client imports encoding/json only if it uses
 it

---
 golang/golang_client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 691fe70..9d48de2 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -23,7 +23,6 @@ func (gen *Generator) CreateClient() {
 
 func (gen *Generator) EmitClient() {
 	gen.imports = nil
-	gen.addImport("encoding/json")
 	gen.addImport("fmt")
 	gen.addImport("net/http")
 	gen.addImport("net/url")
@@ -67,6 +66,7 @@ func (gen *Generator) EmitClient() {
 		},
 		"reqBody": func(hd *sadl.HttpDef) string {
 			if name := gen.bodyName(hd); name != "" {
+				gen.addImport("encoding/json")
 				return "\tentity, err := json.Marshal(req." + name + ")\n\tif err != nil {\n\t\treturn nil, err\n\t}\n"
 			}
 			return ""
@@ -112,6 +112,7 @@ func (gen *Generator) EmitClient() {
 			for _, out := range expectedOutputs(hd) {
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
+					gen.addImport("encoding/json")
 					natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 					s = s + "\t\tvar entity " + natType + "\n"
 					s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&entity)\n"
@@ -138,6 +139,7 @@ func (gen *Generator) EmitClient() {
 					s = s + "\t\treturn nil, new(" + strings.TrimPrefix(natType, "*") + ")\n"
 					continue
 				}
+				gen.addImport("encoding/json")
 				s = s + "\t\tvar errEntity " + natType + "\n"
 				s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&errEntity)\n"
 				s = s + "\t\tif err != nil {\n"
@@ -160,12 +162,15 @@ func (gen *Generator) headerValue(out *sadl.HttpParamSpec, field, val string) st
 		if !gen.runtime {
 			return field + " = " + val
 		}
+		gen.addImport("encoding/json")
 		gen.addImport("strconv")
 		return "_ = json.Unmarshal([]byte(strconv.Quote(" + val + ")), &" + field + ")"
 	case "Timestamp", "Enum":
+		gen.addImport("encoding/json")
 		gen.addImport("strconv")
 		return "_ = json.Unmarshal([]byte(strconv.Quote(" + val + ")), &" + field + ")"
 	default: //numbers and Bool
+		gen.addImport("encoding/json")
 		return "_ = json.Unmarshal([]byte(" + val + "), &" + field + ")"
 	}
 }
-- 
2.43.0


From 293df9ae04c4d166c6f8f1e259b50b986973b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:41 +0000
Subject: [PATCH 082/134] fix: http-trace reports bad examples as errors and
 takes exceptions of any type

---
 httptrace/export_http_examples.go | 32 ++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 1658685..4dfffef 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,7 +3,6 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
-	"os"
 	"strings"
 	"time"
 
@@ -14,8 +13,7 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 	for _, hdef := range model.Http {
 		snippet, err := generateHttpTrace(model, hdef)
 		if err != nil {
-			fmt.Println("*** Error:", err)
-			os.Exit(1)
+			return err
 		}
 		fmt.Println(snippet)
 	}
@@ -33,9 +31,11 @@ func stringExample(ex interface{}) string {
 }
 
 type exampleData struct {
-	req map[string]interface{}
-	exc *sadl.HttpExceptionSpec
-	res map[string]interface{}
+	req    map[string]interface{}
+	exc    *sadl.HttpExceptionSpec
+	excRes interface{}
+	res    map[string]interface{}
+	hasRes bool
 }
 
 func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
@@ -48,7 +48,10 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
-			tmp := ex.Example.(map[string]interface{})
+			tmp, ok := ex.Example.(map[string]interface{})
+			if !ok {
+				return "", fmt.Errorf("Example for %s must be a JSON object", ex.Target)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -56,12 +59,19 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		if ex.Target != reqType {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
-					data.res = ex.Example.(map[string]interface{})
+					tmp, ok := ex.Example.(map[string]interface{})
+					if !ok {
+						return "", fmt.Errorf("Example for %s must be a JSON object", ex.Target)
+					}
+					data.res = tmp
+					data.exc = nil
+					data.hasRes = true
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
-							data.res = ex.Example.(map[string]interface{})
+							data.excRes = ex.Example
 							data.exc = exc
+							data.hasRes = true
 						}
 					}
 				}
@@ -101,7 +111,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			s := method + " " + path + " HTTP/1.1\n" + headers + "\n" + bodyExample
 			body = body + "\n" + s + "\n"
 			
-			if resExample != nil {
+			if data.hasRes {
 				body = body + "#   Response:"
 				status := hdef.Expected.Status
 				bodyExample := ""
@@ -122,7 +132,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					}
 				} else {
 					status = data.exc.Status
-					bodyExample = sadl.Pretty(resExample)
+					bodyExample = sadl.Pretty(data.excRes)
 				}
 				headers = headers + "Date: " + dateHeader() + "\n"
 				headers = fmt.Sprintf("Content-Length: %d\n", len(bodyExample)) + headers
-- 
2.43.0


From b57ce85741f3089e3f1d1a3995be1237a41ed835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:42 +0000
Subject: [PATCH 083/134] fix: http-trace writes the examples in the order of
 the schema

---
 httptrace/export_http_examples.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 4dfffef..7068cb7 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -43,6 +43,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	reqType := sadl.Capitalize(hdef.Name) + "Request"
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
+	var names []string //in the order of the schema
 	var reqExample, resExample map[string]interface{}
 
 	//each named example should be a pair of req/res, or req/exc
@@ -52,6 +53,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			if !ok {
 				return "", fmt.Errorf("Example for %s must be a JSON object", ex.Target)
 			}
+			if _, ok := namedExamples[ex.Name]; !ok {
+				names = append(names, ex.Name)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -79,7 +83,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		}
 	}
 	body := ""
-	for exName, data := range namedExamples {
+	for _, exName := range names {
+		data := namedExamples[exName]
 		reqExample = data.req
 		resExample = data.res
 		body = body + "#\n# " + exName + " (action=" + hdef.Name + ")\n#\n"
-- 
2.43.0


From e9d52dc16765460e0770c94eb22edfaa6c6cc823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:43 +0000
Subject: [PATCH 084/134] fix: http-trace parameters of every type of value

---
 httptrace/export_http_examples.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 7068cb7..07e7dd6 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,6 +3,7 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
+	"strconv"
 	"strings"
 	"time"
 
@@ -22,12 +23,19 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 
 func stringExample(ex interface{}) string {
 	switch v := ex.(type) {
+	case nil:
+		return ""
 	case *string:
 		return *v
+	case *bool:
+		return fmt.Sprint(*v)
 	case *sadl.Decimal:
 		return v.String()
+	case float64:
+		return strconv.FormatFloat(v, 'f', -1, 64)
+	default: //strings, bools, and the things that know how to print
+		return fmt.Sprint(v)
 	}
-	return ""
 }
 
 type exampleData struct {
-- 
2.43.0


From 842a1dfb27fa7811ee5b34153870a6277296fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:44 +0000
Subject: [PATCH 085/134] fix: http-trace escapes parameters, leaves missing
 ones out, knows the base path

---
 httptrace/export_http_examples.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 07e7dd6..37beba0 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,6 +3,7 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
+	"net/url"
 	"strconv"
 	"strings"
 	"time"
@@ -100,18 +101,28 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			body = body + "#   Request:"
 			
 			method := hdef.Method
-			path := hdef.Path
+			path := strings.TrimSuffix(model.Base, "/") + hdef.Path
+			query := ""
+			if n := strings.Index(path, "?"); n >= 0 {
+				query = path[n+1:]
+				path = path[:n]
+			}
 			bodyExample := ""
 			headers := ""
 			
 			for _, in := range hdef.Inputs {
 				ex := reqExample[in.Name]
-				if in.Path || in.Query != "" {
-					sex := stringExample(ex)
-					if in.Path {
-						//inExample = urlEncode(inExample)
+				if in.Path {
+					path = strings.Replace(path, "{"+in.Name+"}", url.PathEscape(stringExample(ex)), -1)
+				} else if in.Query != "" {
+					sex := url.QueryEscape(stringExample(ex))
+					if strings.Contains(query, "{"+in.Name+"}") {
+						query = strings.Replace(query, "{"+in.Name+"}", sex, -1)
+					} else {
+						query = query + "&" + in.Query + "=" + sex
 					}
-					path = strings.Replace(path, "{" + in.Name + "}", sex, -1)
+				} else if ex == nil {
+					continue
 				} else if in.Header != "" {
 					sex := stringExample(ex)
 					headers = headers + in.Header + ": " + sex + "\n"
@@ -119,7 +130,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					bodyExample = sadl.Pretty(ex)
 				}
 			}
-			path = stripMissingOptionalQueryParams(path)
+			if query != "" {
+				path = stripMissingOptionalQueryParams(path + "?" + query)
+			}
 			headers = headers + "Accept: application/json\n"
 			s := method + " " + path + " HTTP/1.1\n" + headers + "\n" + bodyExample
 			body = body + "\n" + s + "\n"
@@ -173,7 +186,7 @@ func stripMissingOptionalQueryParams(uri string) string {
 	items := strings.Split(query, "&")
 	newItems := make([]string, 0)
 	for _, item := range items {
-		if !strings.HasSuffix(item, "=") {
+		if item != "" && !strings.HasSuffix(item, "=") {
 			newItems = append(newItems, item)
 		}
 	}
-- 
2.43.0


From 753df68a953ba30969969b698699e3d3de814c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:45 +0000
Subject: [PATCH 086/134] fix: http-trace responses without an expected status,
 and without content

---
 httptrace/export_http_examples.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 37beba0..71d5d89 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -139,27 +139,34 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			
 			if data.hasRes {
 				body = body + "#   Response:"
-				status := hdef.Expected.Status
+				status := int32(200)
+				if hdef.Expected != nil && hdef.Expected.Status != 0 {
+					status = hdef.Expected.Status
+				}
 				bodyExample := ""
 				headers := "Content-Type: application/json; charset=utf-8\n"
 
 
-				if data.exc == nil {
+				if data.exc == nil && hdef.Expected != nil {
 					for _, out := range hdef.Expected.Outputs {
 						ex := resExample[out.Name]
+						if ex == nil {
+							continue
+						}
 						if out.Header != "" {
 							sex := stringExample(ex)
 							headers = headers + out.Header + ": " + sex + "\n"
 						} else { //body
-							if status != 204 {
-								bodyExample = sadl.Pretty(ex)
-							}
+							bodyExample = sadl.Pretty(ex)
 						}
 					}
-				} else {
+				} else if data.exc != nil {
 					status = data.exc.Status
 					bodyExample = sadl.Pretty(data.excRes)
 				}
+				if status == 204 || status == 304 { //never with a body
+					bodyExample = ""
+				}
 				headers = headers + "Date: " + dateHeader() + "\n"
 				headers = fmt.Sprintf("Content-Length: %d\n", len(bodyExample)) + headers
 				respMessage := fmt.Sprintf("HTTP/1.1 %d %s\n", status, http.StatusText(int(status)))
-- 
2.43.0


From 3ced1bc11b76237962958bcffdf94d99519fb0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:46 +0000
Subject: [PATCH 087/134] fix: http-trace dates are GMT

---
 httptrace/export_http_examples.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 71d5d89..7ce1b69 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -179,8 +179,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 }
 
 func dateHeader() string {
-	t := time.Now()
-	return t.Format("Mon, 2 Jan 2006 15:04:05 GMT")
+	return time.Now().UTC().Format(http.TimeFormat)
 }
 
 func stripMissingOptionalQueryParams(uri string) string {
-- 
2.43.0


From ec3ecc9a355a961ea29e467c70fc2896ffa828a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:54 +0000
Subject: [PATCH 088/134] fix: java domain option

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index f760c26..58bfc52 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -97,7 +97,7 @@ func (gen *Generator) AddImport(fullReference string) {
 func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generator {
 	gen := &Generator{}
 	gen.Config = config
-	domain := gen.Config.GetString("domain", "-")
+	domain := gen.GetConfigString("domain", "")
 	if domain == "" {
 		if model.Namespace != "" {
 			domain = strings.Join(reverseStrings(strings.Split(model.Namespace, ".")), ".")
-- 
2.43.0


From 06790ed1f092f0e9c73fc5ebdb55e8afeecf50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:22 +0000
Subject: [PATCH 089/134] fix: java types of aliases, bytes, inline structs,
 collections and timestamps

---
 java/export_java.go | 278 +++++++++++++++++++++++++++-----------------
 1 file changed, 174 insertions(+), 104 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 58bfc52..7a76e3f 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -7,6 +7,7 @@ import (
 	"sort"
 	"strings"
 	"text/template"
+	"unicode/utf16"
 
 	"github.com/boynton/sadl"
 )
@@ -302,6 +303,9 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 			gen.Emit(indent + "    @JsonInclude(JsonInclude.Include.NON_EMPTY) /* Optional field */\n")
 		}
 		tn, tanno, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		if gen.Err != nil {
+			return
+		}
 		if anonymous != nil {
 			tn = gen.Capitalize(fname)
 			if tn == className {
@@ -353,7 +357,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSpec, indent string) {
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.fieldType(&fd.TypeSpec, fd.Name, fd.Required)
 		args = append(args, tn+" "+fd.Name)
 	}
 	gen.Emit(indent + "    public " + className + "(" + strings.Join(args, ", ") + ") {\n")
@@ -364,7 +368,7 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 }
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
-	tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	tn := gen.fieldType(&fd.TypeSpec, fd.Name, fd.Required)
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
@@ -381,7 +385,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "@JsonPOJOBuilder(withPrefix=\"\")\n")
 	gen.Emit(indent + "public static class " + builderClass + " {\n")
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.fieldType(&fd.TypeSpec, fd.Name, fd.Required)
 		gen.Emit(indent + "    private " + tn + " " + fd.Name + ";\n")
 	}
 	gen.Emit("\n")
@@ -394,12 +398,9 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "    }\n\n")
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
-		if fd.Type == "Timestamp" {
-			if gen.UseInstants {
-				gen.NeedUtil = true
-				gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
-			}
+		tn := gen.fieldType(&fd.TypeSpec, fd.Name, fd.Required)
+		if use := gen.instantUse(&fd.TypeSpec, fd.Type); use != "" {
+			gen.Emit(indent + "    " + gen.instantDeserialize(use) + "\n")
 		}
 		gen.Emit(indent + "    public " + builderClass + " " + fd.Name + "(" + tn + " " + fd.Name + ") {\n")
 		gen.Emit(indent + "        this." + fd.Name + " = " + fd.Name + ";\n")
@@ -504,6 +505,9 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 			gen.Emit(gen.FormatComment(indent1, vd.Comment, 100, false))
 		}
 		tn, tanno, anonymous := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		if gen.Err != nil {
+			return
+		}
 		if anonymous != nil {
 			tn = gen.Capitalize(vd.Name)
 			if tn == className {
@@ -528,8 +532,12 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 		if i == max-1 {
 			delim = ""
 		}
-		tn, _, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
-		gen.Emit("@JsonProperty(\"" + vd.Name + "\") " + tn + " " + vd.Name + delim)
+		tn := gen.fieldType(&vd.TypeSpec, vd.Name, false)
+		gen.Emit("@JsonProperty(\"" + vd.Name + "\") ")
+		if use := gen.instantUse(&vd.TypeSpec, vd.Type); use != "" {
+			gen.Emit(gen.instantDeserialize(use) + " ")
+		}
+		gen.Emit(tn + " " + vd.Name + delim)
 	}
 	gen.Emit(") {\n")
 	for _, vd := range td.Variants {
@@ -541,7 +549,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "}\n\n")
 
 	for _, vd := range td.Variants {
-		tn, _, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn := gen.fieldType(&vd.TypeSpec, vd.Name, false)
 		gen.Emit("\n" + indent1 + "public static " + className + " of" + gen.Capitalize(vd.Name) + "(" + tn + " v) {\n")
 		gen.Emit(indent2 + "return new " + className + "(")
 		delim = ", "
@@ -638,41 +646,41 @@ func (gen *Generator) EmitFluidSetter(className string, ts *sadl.TypeSpec, fd *s
 	if gen.Err != nil {
 		return
 	}
-	tn, _, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
 	//fixme: the annotations are getting ignored. Figure out if this is preferred or not
-	if anonymous != nil {
-		tn = gen.Capitalize(fd.Name)
-	}
+	tn := gen.fieldType(&fd.TypeSpec, fd.Name, fd.Required)
 	gen.Emit(indent + "    public " + className + " " + fd.Name + "(" + tn + " val) {\n")
 	gen.Emit(indent + "        this." + fd.Name + " = val;\n")
 	gen.Emit(indent + "        return this;\n")
 	gen.Emit(indent + "    }\n\n")
 }
 
+// TypeName returns the Java type for the named type, and the annotations for a field of it. The spec is that of the
+// type itself if it is a base type, and is ignored for other types. If the type is an anonymous struct, its spec is returned.
 func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (string, []string, *sadl.TypeSpec) {
-	primitiveName, isPrimitive := primitiveType(name)
 	var annotations []string
-	if required {
-		if isPrimitive {
-			return primitiveName, nil, nil
+	primitiveName, isPrimitive := primitiveType(name)
+	if isPrimitive {
+		if !required {
+			primitiveName = boxedType(primitiveName)
+		}
+		if ts != nil && name != "Bool" {
+			annotations = gen.limits(ts, name != "Float32" && name != "Float64")
 		}
+		return primitiveName, annotations, nil
+	}
+	if td := gen.Model.FindType(name); td != nil && !isBaseType(name) && gen.isAlias(td) {
+		return gen.TypeName(&td.TypeSpec, td.Type, required)
+	}
+	if required {
 		gen.AddImport("javax.validation.constraints.NotNull")
 		annotations = append(annotations, "@NotNull")
-	} else {
-		if isPrimitive {
-			if primitiveName == "int" {
-				name = "Integer"
-			} else {
-				name = gen.Capitalize(primitiveName)
-			}
-		}
 	}
 	switch name {
 	case "String":
 		if ts != nil {
 			if ts.Pattern != "" {
 				gen.AddImport("javax.validation.constraints.Pattern")
-				annotations = append(annotations, fmt.Sprintf("@Pattern(regexp=%q)", ts.Pattern))
+				annotations = append(annotations, "@Pattern(regexp="+javaString(ts.Pattern)+")")
 			} else if ts.Values != nil {
 				//?
 			}
@@ -693,108 +701,170 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			}
 		}
 		return "String", annotations, nil
-	case "Byte", "Short", "Integer", "Long", "Float", "Double":
-		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@Min(%s)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@Max(%s)", ts.Max.String()))
-			}
-		}
-		return name, annotations, nil
 	case "Decimal":
 		gen.AddImport("java.math.BigDecimal")
 		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String()))
-			}
+			annotations = append(annotations, gen.limits(ts, false)...)
 		}
 		return "BigDecimal", annotations, nil
 	case "Timestamp":
 		if gen.UseInstants {
 			gen.AddImport("java.time.Instant")
-			gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonSerialize")
-			gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonDeserialize")
-			annotations = append(annotations, fmt.Sprintf("@JsonSerialize(using = Util.InstantSerializer.class)"))
 			gen.NeedUtil = true
 			gen.NeedInstant = true
-			return "Instant", annotations, nil
+			return "Instant", append(annotations, gen.instantAnnotations("using")...), nil
 		}
 		gen.NeedTimestamp = true
 		return "Timestamp", annotations, nil
+	case "Bytes":
+		return "byte[]", annotations, nil
 	case "Array":
 		gen.AddImport("java.util.List")
-		if ts == nil {
-			return "List", annotations, nil
+		items := "Object"
+		if ts != nil && ts.Items != "" {
+			items, _, _ = gen.TypeName(nil, ts.Items, false)
 		}
-		td := gen.Model.FindType(ts.Items)
-		items, _, _ := gen.TypeName(&td.TypeSpec, ts.Items, false)
-		return "List<" + items + ">", annotations, nil
+		return "List<" + items + ">", append(annotations, gen.instantAnnotations(gen.instantUse(ts, name))...), nil
 	case "Map":
 		gen.AddImport("java.util.Map")
-		if ts == nil {
-			return "Map", annotations, nil
-		}
-		ktd := gen.Model.FindType(ts.Keys)
-		keys, _, _ := gen.TypeName(&ktd.TypeSpec, ts.Keys, false)
-		itd := gen.Model.FindType(ts.Items)
-		items, _, _ := gen.TypeName(&itd.TypeSpec, ts.Items, false)
-		return "Map<" + keys + "," + items + ">", annotations, nil
+		keys, items := "String", "Object"
+		if ts != nil && ts.Keys != "" {
+			keys, _, _ = gen.TypeName(nil, ts.Keys, false)
+		}
+		if ts != nil && ts.Items != "" {
+			items, _, _ = gen.TypeName(nil, ts.Items, false)
+		}
+		return "Map<" + keys + "," + items + ">", append(annotations, gen.instantAnnotations(gen.instantUse(ts, name))...), nil
 	case "UUID":
 		gen.AddImport("java.util.UUID")
 		return name, annotations, nil
 	case "Any":
 		return "Object", annotations, nil
+	case "Struct":
+		if ts != nil && len(ts.Fields) > 0 {
+			return name, annotations, ts
+		}
+		gen.AddImport("java.util.Map")
+		return "Map<String,Object>", annotations, nil
 	default:
-		//app-defined type. Parser will have already verified its existence
-		td := gen.Model.FindType(name)
-		if td != nil {
-			switch td.Type {
-			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Boolean":
-				return gen.TypeName(&td.TypeSpec, td.Type, required)
-			case "String":
-				return gen.TypeName(&td.TypeSpec, "String", required)
-			case "Array":
-				return gen.TypeName(&td.TypeSpec, "Array", false) //FIXME: the "required/optional" state of the field is lost
-			case "Map":
-				return gen.TypeName(&td.TypeSpec, "Map", false) //FIXME: the "required/optional" state of the field is lost
-			case "Struct":
-				if name == "Struct" {
-					return name, annotations, ts
-				}
-			case "UUID":
-				gen.AddImport("java.util.UUID")
-				return "UUID", annotations, nil
-			case "Decimal":
-				gen.AddImport("java.math.BigDecimal")
-				if td.Min != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", td.Min.String()))
-				}
-				if td.Max != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", td.Max.String()))
-				}
-				return "BigDecimal", annotations, nil
-			case "Timestamp":
-				if gen.UseInstants {
-					gen.AddImport("java.time.Instant")
-					gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonSerialize")
-					gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonDeserialize")
-					annotations = append(annotations, fmt.Sprintf("@JsonDeserialize(using = Util.InstantDeserializer.class)"))
-					annotations = append(annotations, fmt.Sprintf("@JsonSerialize(using = Util.InstantSerializer.class)"))
-					gen.NeedUtil = true
-					gen.NeedInstant = true
-					return "Instant", annotations, nil
-				}
-				gen.NeedTimestamp = true
-				return "Timestamp", annotations, nil
+		if gen.Model.FindType(name) == nil || isBaseType(name) {
+			//i.e. an Enum that has no name
+			if gen.Err == nil {
+				gen.Err = fmt.Errorf("Cannot refer to this type in Java: %q", name)
 			}
+			return "Object", annotations, nil
 		}
-		return name, annotations, nil
+		return gen.Capitalize(name), annotations, nil
+	}
+}
+
+// isAlias is true if no Java class is generated for the type
+func (gen *Generator) isAlias(td *sadl.TypeDef) bool {
+	switch td.Type {
+	case "Struct", "Enum", "Union", "UnitValue":
+		return false
+	}
+	return true
+}
+
+// fieldType is the type of a field or variant, which may be an inner class of the class that has it
+func (gen *Generator) fieldType(ts *sadl.TypeSpec, name string, required bool) string {
+	tn, _, anonymous := gen.TypeName(ts, ts.Type, required)
+	if anonymous != nil {
+		tn = gen.Capitalize(name)
+	}
+	return tn
+}
+
+func (gen *Generator) limits(ts *sadl.TypeSpec, integer bool) []string {
+	var annotations []string
+	add := func(anno string, limit *sadl.Decimal) {
+		if limit == nil {
+			return
+		}
+		if integer {
+			gen.AddImport("javax.validation.constraints." + anno)
+			annotations = append(annotations, fmt.Sprintf("@%s(%sL)", anno, limit.String()))
+		} else {
+			gen.AddImport("javax.validation.constraints.Decimal" + anno)
+			annotations = append(annotations, fmt.Sprintf("@Decimal%s(%q)", anno, limit.String()))
+		}
+	}
+	add("Min", ts.Min)
+	add("Max", ts.Max)
+	return annotations
+}
+
+// instantUse tells how a field of the type has instants: "using", "contentUsing", or "" for no instants
+func (gen *Generator) instantUse(ts *sadl.TypeSpec, name string) string {
+	if !gen.UseInstants {
+		return ""
+	}
+	for td := gen.Model.FindType(name); td != nil && !isBaseType(name) && gen.isAlias(td); td = gen.Model.FindType(name) {
+		ts = &td.TypeSpec
+		name = td.Type
+	}
+	switch name {
+	case "Timestamp":
+		return "using"
+	case "Array", "Map":
+		if ts != nil && ts.Items != "" && gen.instantUse(nil, ts.Items) == "using" {
+			return "contentUsing"
+		}
+	}
+	return ""
+}
+
+func (gen *Generator) instantDeserialize(use string) string {
+	gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonDeserialize")
+	return "@JsonDeserialize(" + use + " = Util.InstantDeserializer.class)"
+}
+
+func (gen *Generator) instantAnnotations(use string) []string {
+	if use == "" {
+		return nil
+	}
+	gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonSerialize")
+	return []string{gen.instantDeserialize(use), "@JsonSerialize(" + use + " = Util.InstantSerializer.class)"}
+}
+
+// javaString is a Java string literal
+func javaString(s string) string {
+	var b strings.Builder
+	b.WriteByte('"')
+	for _, c := range utf16.Encode([]rune(s)) {
+		switch {
+		case c == '"' || c == '\\':
+			b.WriteByte('\\')
+			b.WriteByte(byte(c))
+		case c == '\n':
+			b.WriteString("\\n")
+		case c == '\r':
+			b.WriteString("\\r")
+		case c < ' ' || c > '~':
+			fmt.Fprintf(&b, "\\u%04x", c)
+		default:
+			b.WriteByte(byte(c))
+		}
+	}
+	b.WriteByte('"')
+	return b.String()
+}
+
+func isBaseType(name string) bool {
+	for _, n := range sadl.BaseTypes {
+		if n == name {
+			return true
+		}
+	}
+	return false
+}
+
+func boxedType(primitiveName string) string {
+	if primitiveName == "int" {
+		return "Integer"
 	}
+	return sadl.Capitalize(primitiveName)
 }
 
 func javaPackageToPath(pkg string) string {
-- 
2.43.0


From 40b59a9ce761819e323e4caf5f6f67f3aeac0418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:55 +0000
Subject: [PATCH 090/134] fix: java inner classes in the order of the fields

---
 java/export_java.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 7a76e3f..0f89a34 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -290,7 +290,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	} else {
 		gen.Emit(indent + "public static class " + className + extends + " {\n")
 	}
-	nested := make(map[string]*sadl.TypeSpec, 0)
+	var nested []*sadl.StructFieldDef
 	for _, fd := range ts.Fields {
 		fname := fd.Name
 		if reservedKeyword(fname) {
@@ -312,7 +312,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 				gen.Err = fmt.Errorf("Cannot have identically named inner class with same name as containing class: %q", tn)
 				return
 			}
-			nested[tn] = anonymous
+			nested = append(nested, fd)
 		}
 		if tanno != nil {
 			for _, anno := range tanno {
@@ -345,10 +345,8 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
     }
 `)
 		}
-		if len(nested) > 0 {
-			for iname, ispec := range nested {
-				gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
-			}
+		for _, fd := range nested {
+			gen.CreateStructPojo(&fd.TypeSpec, gen.Capitalize(fd.Name), indent+"    ", nil)
 		}
 	}
 	gen.Emit("}\n")
@@ -497,7 +495,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "}\n\n")
 	gen.Emit(indent1 + "@JsonIgnore\n")
 	gen.Emit(indent1 + "public " + variantType + " variant;\n\n")
-	nested := make(map[string]*sadl.TypeSpec, 0)
+	var nested []*sadl.UnionVariantDef
 	for _, vd := range td.Variants {
 		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_EMPTY)\n")
 
@@ -514,7 +512,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 				gen.Err = fmt.Errorf("Cannot have identically named inner class with same name as containing class: %q", tn)
 				return
 			}
-			nested[tn] = anonymous
+			nested = append(nested, vd)
 		}
 		if tanno != nil {
 			for _, anno := range tanno {
@@ -575,10 +573,8 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
     }
 `)
 	}
-	if len(nested) > 0 {
-		for iname, ispec := range nested {
-			gen.CreateStructPojo(ispec, iname, indent1, nil)
-		}
+	for _, vd := range nested {
+		gen.CreateStructPojo(&vd.TypeSpec, gen.Capitalize(vd.Name), indent1, nil)
 	}
 	gen.Emit("}\n")
 }
-- 
2.43.0


From 9a50779849a30e4ceaebc51d9410c511393b203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:56 +0000
Subject: [PATCH 091/134] fix: java JSON names of fields that do not follow
 from the getter

---
 java/export_java.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index 0f89a34..e98a733 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -320,6 +320,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 			}
 		}
 		if gen.UseImmutable {
+			gen.emitJsonName(fname, indent)
 			gen.Emit(indent + "    private final " + tn + " " + fname + ";\n\n")
 		} else {
 			gen.Emit(indent + "    public " + tn + " " + fname + ";\n\n")
@@ -367,11 +368,27 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
 	tn := gen.fieldType(&fd.TypeSpec, fd.Name, fd.Required)
+	gen.emitJsonName(fd.Name, indent)
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
 }
 
+//emitJsonName annotates a field or its getter with its JSON name, if Jackson would infer another name from the getter
+func (gen *Generator) emitJsonName(name string, indent string) {
+	inferred := []byte(gen.Capitalize(name))
+	for i, c := range inferred {
+		if c < 'A' || c > 'Z' {
+			break
+		}
+		inferred[i] = c + 'a' - 'A'
+	}
+	if string(inferred) != name {
+		gen.AddImport("com.fasterxml.jackson.annotation.JsonProperty")
+		gen.Emit(indent + "    @JsonProperty(\"" + name + "\")\n")
+	}
+}
+
 func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent string) {
 	builderClass := className + "Builder"
 	gen.Emit(indent + "public " + builderClass + " toBuilder() {\n")
-- 
2.43.0


From 326a166ad1c021beb1460686be4ed4ec5c7286be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:34 +0000
Subject: [PATCH 092/134] fix: java exceptions: unions, properties of
 throwables, and types that cannot be thrown

---
 java/export_java.go | 25 ++++++++++++++++++-------
 java/java_server.go |  6 ++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index e98a733..e17643a 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -204,7 +204,7 @@ func (gen *Generator) CreatePojo(ts *sadl.TypeSpec, className, comment string, e
 	case "Enum":
 		gen.CreateEnumPojo(ts, className)
 	case "Union":
-		gen.CreateUnionPojo(ts, className)
+		gen.CreateUnionPojo(ts, className, exceptions)
 	default:
 		//do nothing, i.e. a String subclass
 		return
@@ -264,10 +264,8 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	if extends != "" {
 		var ignoreFields []string
 		for _, f := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
-			for _, fd := range ts.Fields {
-				if fd.Name != f {
-					ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
-				}
+			if !gen.Model.IsStructField(ts, f) {
+				ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
 			}
 		}
 		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
@@ -374,7 +372,7 @@ func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.S
 	gen.Emit(indent + "    }\n\n")
 }
 
-//emitJsonName annotates a field or its getter with its JSON name, if Jackson would infer another name from the getter
+// emitJsonName annotates a field or its getter with its JSON name, if Jackson would infer another name from the getter
 func (gen *Generator) emitJsonName(name string, indent string) {
 	inferred := []byte(gen.Capitalize(name))
 	for i, c := range inferred {
@@ -471,7 +469,7 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 	gen.Emit("}\n")
 }
 
-func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
+func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string, exceptions map[string]string) {
 	indent0 := ""
 	indent1 := indent0 + "    "
 	indent2 := indent1 + "    "
@@ -481,6 +479,11 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonCreator")
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonProperty")
 	extends := ""
+	if _, ok := exceptions[className]; ok {
+		extends = " extends RuntimeException"
+		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
+		gen.Emit("@JsonIgnoreProperties({\"message\", \"stackTrace\", \"cause\", \"localizedMessage\", \"suppressed\"})\n")
+	}
 	if indent0 == "" {
 		if gen.UseLombok {
 			gen.Emit("@Data\n")
@@ -771,6 +774,14 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+// realName is the name of the type that the named type is an alias of
+func (gen *Generator) realName(name string) string {
+	for td := gen.Model.FindType(name); td != nil && !isBaseType(name) && gen.isAlias(td); td = gen.Model.FindType(name) {
+		name = td.Type
+	}
+	return name
+}
+
 // isAlias is true if no Java class is generated for the type
 func (gen *Generator) isAlias(td *sadl.TypeDef) bool {
 	switch td.Type {
diff --git a/java/java_server.go b/java/java_server.go
index a63b750..8a6b1c0 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -57,6 +57,12 @@ func (gen *Generator) ExceptionTypes() map[string]string {
 	for _, hact := range gen.Model.Http {
 		for _, resp := range hact.Exceptions {
 			tn, _, _ := gen.TypeName(nil, resp.Type, true)
+			td := gen.Model.FindType(gen.realName(resp.Type))
+			if td == nil || (td.Type != "Struct" && td.Type != "Union") {
+				if gen.Err == nil {
+					gen.Err = fmt.Errorf("Cannot make an exception of this type in Java: %q", resp.Type)
+				}
+			}
 			exceptions[tn] = resp.Type
 		}
 	}
-- 
2.43.0


From 9c1d83453f52095490dc3fa565f539106ccc4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:35 +0000
Subject: [PATCH 093/134] fix: java unions whose value is empty

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index e17643a..5830d3c 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -517,7 +517,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string, excep
 	gen.Emit(indent1 + "public " + variantType + " variant;\n\n")
 	var nested []*sadl.UnionVariantDef
 	for _, vd := range td.Variants {
-		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_EMPTY)\n")
+		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_NULL)\n")
 
 		if vd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent1, vd.Comment, 100, false))
-- 
2.43.0


From a478ae55c359381745daa2f1680b8feb831ae74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:36 +0000
Subject: [PATCH 094/134] fix: java enums with special characters in values, or
 without elements

---
 java/export_java.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 5830d3c..2a32efe 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -448,7 +448,10 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 		if val == "" {
 			val = sym
 		}
-		gen.Emit("    " + sym + "(\"" + val + "\")" + delim + comment)
+		gen.Emit("    " + sym + "(" + javaString(val) + ")" + delim + comment)
+	}
+	if max == 0 {
+		gen.Emit("    ;\n")
 	}
 	gen.Emit("\n")
 	gen.Emit("    private String repr;\n\n")
-- 
2.43.0


From c0194697294db59ae3d3d3e28947ba0a1dcaf9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:38 +0000
Subject: [PATCH 095/134] fix: java unit values of aliased and bad types

---
 java/export_java.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 2a32efe..8ce4455 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -607,11 +607,12 @@ func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonValue")
 	gen.Emit("public class " + className + " {\n\n")
 
-	valueType, _, _ := gen.TypeName(ts, ts.Value, true) //this type must be  primitive numeric type
-	unitType, _, _ := gen.TypeName(ts, ts.Unit, true)
+	valueType, _, _ := gen.TypeName(nil, ts.Value, true) //this type must be  primitive numeric type
+	unitType, _, _ := gen.TypeName(nil, ts.Unit, true)
 	if gen.Err != nil {
 		return
 	}
+	gen.AddImport("com.fasterxml.jackson.annotation.JsonCreator")
 	gen.Emit("    public final " + valueType + " value;\n")
 	gen.Emit("    public final " + unitType + " unit;\n\n")
 
@@ -638,13 +639,15 @@ func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 		v = "new BigDecimal(tmp[0])"
 	}
 	u := "<bad unit type, must be enum or string>"
-	ut := gen.Model.FindType(unitType)
-	switch ut.Type {
-	case "String":
+	if unitType == "String" {
 		u = "tmp[1]"
-	case "Enum":
+	} else if ut := gen.Model.FindType(gen.realName(ts.Unit)); ut != nil && ut.Type == "Enum" {
 		u = unitType + ".fromString(tmp[1])"
 	}
+	if v[0] == '<' || u[0] == '<' {
+		gen.Err = fmt.Errorf("Bad value or unit type for %s: %q, %q", className, ts.Value, ts.Unit)
+		return
+	}
 	gen.Emit("    @JsonCreator\n")
 	gen.Emit("    public " + className + "(@NotNull String repr) {\n")
 	gen.Emit("        String[] tmp = repr.split(\" \");\n")
-- 
2.43.0


From 79e2d9cdb9fd2e2e84e5058749c72a691ad88b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:40 +0000
Subject: [PATCH 096/134] fix: java keywords as names are errors

---
 java/export_java.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 8ce4455..d964183 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -227,7 +227,11 @@ func (gen *Generator) CreatePojo(ts *sadl.TypeSpec, className, comment string, e
 
 func reservedKeyword(name string) bool {
 	switch name {
-	case "package":
+	case "abstract", "assert", "boolean", "break", "byte", "case", "catch", "char", "class", "const", "continue",
+		"default", "do", "double", "else", "enum", "extends", "final", "finally", "float", "for", "goto", "if",
+		"implements", "import", "instanceof", "int", "interface", "long", "native", "new", "package", "private",
+		"protected", "public", "return", "short", "static", "strictfp", "super", "switch", "synchronized", "this",
+		"throw", "throws", "transient", "try", "void", "volatile", "while", "true", "false", "null", "_":
 		return true
 	}
 	return false
@@ -292,7 +296,8 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	for _, fd := range ts.Fields {
 		fname := fd.Name
 		if reservedKeyword(fname) {
-			panic("bad field name, clashes with a keyword: " + fname)
+			gen.Err = fmt.Errorf("bad field name, clashes with a keyword: %s", fname)
+			return
 		}
 		if fd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent+"    ", fd.Comment, 100, false))
@@ -444,6 +449,10 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 			comment = gen.FormatComment(" ", el.Comment, 0, false)
 		}
 		sym := el.Symbol //strings.ToUpper(el.Symbol) ???
+		if reservedKeyword(sym) {
+			gen.Err = fmt.Errorf("bad enum symbol, clashes with a keyword: %s", sym)
+			return
+		}
 		val := sadl.GetAnnotation(el.Annotations, "x_enumValue")
 		if val == "" {
 			val = sym
@@ -510,6 +519,10 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string, excep
 	delim := ","
 	for i := 0; i < max; i++ {
 		vd := td.Variants[i]
+		if reservedKeyword(vd.Name) {
+			gen.Err = fmt.Errorf("bad variant name, clashes with a keyword: %s", vd.Name)
+			return
+		}
 		if i == max-1 {
 			delim = ""
 		}
-- 
2.43.0


From b6a209393450bb984256c8471c560ffa7abb0158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:41 +0000
Subject: [PATCH 097/134] fix: java Timestamp class belongs to the model

---
 java/java_timestamp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/java_timestamp.go b/java/java_timestamp.go
index ecfbb07..41048ea 100644
--- a/java/java_timestamp.go
+++ b/java/java_timestamp.go
@@ -50,7 +50,7 @@ func (gen *Generator) CreateTimestamp() {
 	gen.Emit(javaTimestamp)
 	result := gen.End()
 	if gen.Err == nil {
-		gen.WriteJavaFile("Timestamp", result, gen.Package)
+		gen.WriteJavaFile("Timestamp", result, gen.ModelPackage)
 	}
 }
 
-- 
2.43.0


From 2c28789e535378fbeccfeea0619d30069bc295e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:04 +0000
Subject: [PATCH 098/134] fix: java actions without an expected response or
 status

---
 java/java_client.go | 10 +++++-----
 java/java_model.go  | 16 +++++++++++++++-
 java/java_server.go | 16 ++++++++--------
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index a2fac2d..ca97eea 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -55,7 +55,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 		return gen.RequestType(name)
 	}
 	entityNameType := func(hact *sadl.HttpDef) (string, string) {
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range expectedOutputs(hact) {
 			if out.Header == "" {
 				tn, _, _ := gen.TypeName(nil, out.Type, true)
 				return out.Name, tn
@@ -122,15 +122,15 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				panic("fix me: method = " + hact.Method)
 			}
 			writer.WriteString("        switch (response.getStatus()) {\n")
-			writer.WriteString("        case " + fmt.Sprint(hact.Expected.Status) + ":\n")
-			if len(hact.Expected.Outputs) == 0 {
+			writer.WriteString("        case " + fmt.Sprint(expectedStatus(hact)) + ":\n")
+			if len(expectedOutputs(hact)) == 0 {
 				writer.WriteString("            return null; //shoudn't this be void?!\n") //?
 			} else {
 				ename, etype := entityNameType(hact)
 				if etype != "void" {
 					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + etype + ".class);\n")
 				}
-				for _, out := range hact.Expected.Outputs {
+				for _, out := range expectedOutputs(hact) {
 					if out.Header != "" {
 						tn, _, _ := gen.TypeName(nil, out.Type, true)
 						osrc := fromString(tn, "response.getHeaderString(\""+out.Header+"\")")
@@ -142,7 +142,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				if etype != "void" {
 					writer.WriteString("                ." + ename + "(" + ename + ")\n")
 				}
-				for _, out := range hact.Expected.Outputs {
+				for _, out := range expectedOutputs(hact) {
 					if out.Header != "" {
 						writer.WriteString("                ." + out.Name + "(" + out.Name + ")\n")
 					}
diff --git a/java/java_model.go b/java/java_model.go
index 3c33589..b4ccc66 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -30,8 +30,22 @@ func (gen *Generator) CreateModel() {
 	}
 }
 
+func expectedOutputs(hact *sadl.HttpDef) []*sadl.HttpParamSpec {
+	if hact.Expected == nil {
+		return nil
+	}
+	return hact.Expected.Outputs
+}
+
+func expectedStatus(hact *sadl.HttpDef) int32 {
+	if hact.Expected == nil || hact.Expected.Status == 0 {
+		return 200
+	}
+	return hact.Expected.Status
+}
+
 func (gen *Generator) entityNameType(hact *sadl.HttpDef) (string, string) {
-	for _, out := range hact.Expected.Outputs {
+	for _, out := range expectedOutputs(hact) {
 		if out.Header == "" {
 			tn, _, _ := gen.TypeName(nil, out.Type, true)
 			return out.Name, tn
diff --git a/java/java_server.go b/java/java_server.go
index 8a6b1c0..64a045e 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -105,7 +105,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	gen.ServerData.InterfaceClass = serviceName
 	gen.ServerData.ImplClass = serviceName + "Controller" //add version here?
 	entityNameType := func(hact *sadl.HttpDef) (string, string) {
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range expectedOutputs(hact) {
 			if out.Header == "" {
 				tn, _, _ := gen.TypeName(nil, out.Type, true)
 				return out.Name, tn
@@ -250,7 +250,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			}
 			writer.WriteString(";\n")
 			writer.WriteString("        try {\n")
-			if len(hact.Expected.Outputs) > 0 {
+			if len(expectedOutputs(hact)) > 0 {
 				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
@@ -260,8 +260,8 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 						wrappedResult = gen.jsonWrapper(etype, "res."+ename)
 					}
 				}
-				ret := fmt.Sprintf("Response.status(%d)", +hact.Expected.Status)
-				for _, out := range hact.Expected.Outputs {
+				ret := fmt.Sprintf("Response.status(%d)", expectedStatus(hact))
+				for _, out := range expectedOutputs(hact) {
 					if out.Header != "" {
 						ret = ret + ".header(\"" + out.Header + "\", res.get" + gen.Capitalize(out.Name) + "())"
 					}
@@ -272,7 +272,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("            return " + ret + ".build();\n")
 			} else {
 				writer.WriteString("            " + implName(iname) + "." + name + "(req);\n")
-				writer.WriteString(fmt.Sprintf("            return Response.status(%d).build();\n", hact.Expected.Status))
+				writer.WriteString(fmt.Sprintf("            return Response.status(%d).build();\n", expectedStatus(hact)))
 			}
 
 			if gen.Config.GetBool("service-exception") {
@@ -434,7 +434,7 @@ func (gen *Generator) CreateRequestPojo(hact *sadl.HttpDef) {
 }
 
 func (gen *Generator) responsePojoName(hact *sadl.HttpDef) (string, bool) {
-	for _, out := range hact.Expected.Outputs {
+	for _, out := range expectedOutputs(hact) {
 		if out.Header == "" {
 			tn, _, _ := gen.TypeName(nil, out.Type, true)
 			return tn, false
@@ -451,7 +451,7 @@ func (gen *Generator) CreateResponsePojo(hact *sadl.HttpDef) {
 	ts := &sadl.TypeSpec{
 		Type: "Struct",
 	}
-	for _, spec := range hact.Expected.Outputs {
+	for _, spec := range expectedOutputs(hact) {
 		ts.Fields = append(ts.Fields, &spec.StructFieldDef)
 	}
 	gen.CreatePojo(ts, className, "", nil)
@@ -466,7 +466,7 @@ func (gen *Generator) ActionInfo(hact *sadl.HttpDef) (string, string) {
 			}
 		}
 	default:
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range expectedOutputs(hact) {
 			if out.Header == "" {
 				return out.Name, out.Type
 			}
-- 
2.43.0


From d60b257d2e0b7fe06e55c1849c56a990834f36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:05 +0000
Subject: [PATCH 099/134] fix: java types of collections and inline structs in
 server and client

---
 java/java_client.go | 11 +----------
 java/java_model.go  | 12 ++++++++++--
 java/java_server.go | 13 ++-----------
 3 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index ca97eea..73f8db9 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -54,15 +54,6 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	reqType := func(name string) string {
 		return gen.RequestType(name)
 	}
-	entityNameType := func(hact *sadl.HttpDef) (string, string) {
-		for _, out := range expectedOutputs(hact) {
-			if out.Header == "" {
-				tn, _, _ := gen.TypeName(nil, out.Type, true)
-				return out.Name, tn
-			}
-		}
-		return "", "void"
-	}
 	fromString := func(typename, val string) string {
 		switch typename {
 		case "Instant":
@@ -126,7 +117,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			if len(expectedOutputs(hact)) == 0 {
 				writer.WriteString("            return null; //shoudn't this be void?!\n") //?
 			} else {
-				ename, etype := entityNameType(hact)
+				ename, etype := gen.entityNameType(hact)
 				if etype != "void" {
 					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + etype + ".class);\n")
 				}
diff --git a/java/java_model.go b/java/java_model.go
index b4ccc66..2804a67 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -44,11 +44,19 @@ func expectedStatus(hact *sadl.HttpDef) int32 {
 	return hact.Expected.Status
 }
 
+// paramType is the type of an input or output, which may be an inner class of the request or response
+func (gen *Generator) paramType(fd *sadl.StructFieldDef, owner string, required bool) string {
+	tn, _, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, required)
+	if anonymous != nil {
+		tn = owner + "." + gen.Capitalize(fd.Name)
+	}
+	return tn
+}
+
 func (gen *Generator) entityNameType(hact *sadl.HttpDef) (string, string) {
 	for _, out := range expectedOutputs(hact) {
 		if out.Header == "" {
-			tn, _, _ := gen.TypeName(nil, out.Type, true)
-			return out.Name, tn
+			return out.Name, gen.paramType(&out.StructFieldDef, gen.ResponseType(gen.ActionName(hact)), false)
 		}
 	}
 	return "", "void"
diff --git a/java/java_server.go b/java/java_server.go
index 64a045e..4dc7f3b 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -104,15 +104,6 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 
 	gen.ServerData.InterfaceClass = serviceName
 	gen.ServerData.ImplClass = serviceName + "Controller" //add version here?
-	entityNameType := func(hact *sadl.HttpDef) (string, string) {
-		for _, out := range expectedOutputs(hact) {
-			if out.Header == "" {
-				tn, _, _ := gen.TypeName(nil, out.Type, true)
-				return out.Name, tn
-			}
-		}
-		return "", "void"
-	}
 	reqType := func(name string) string {
 		return gen.RequestType(name)
 	}
@@ -197,7 +188,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			name := gen.ActionName(hact) //i.e. "getFoo"
 			var params []string
 			for _, in := range hact.Inputs {
-				tn, _, _ := gen.TypeName(nil, in.Type, false)
+				tn := gen.paramType(&in.StructFieldDef, reqType(name), false)
 				param := tn + " " + in.Name
 				if in.Query != "" {
 					param = `@QueryParam("` + in.Query + `") ` + param
@@ -234,7 +225,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			for _, in := range hact.Inputs {
 				params = append(params, in.Name)
 			}
-			ename, etype := entityNameType(hact)
+			ename, etype := gen.entityNameType(hact)
 			var b bytes.Buffer
 			writer := bufio.NewWriter(&b)
 			if gen.UseImmutable {
-- 
2.43.0


From ea4084cdbca9a609493272c6c7dcb0145ec22235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:43 +0000
Subject: [PATCH 100/134] fix: java exceptions that are not immutable write
 their message field

---
 java/export_java.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index d964183..14447df 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -339,6 +339,9 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 		} else {
 			for _, fd := range ts.Fields {
 				gen.EmitFluidSetter(className, ts, fd, indent)
+				if extends != "" && fd.Name == "message" {
+					gen.EmitGetter(className, ts, fd, indent)
+				}
 			}
 		}
 		if gen.UseJsonPretty {
-- 
2.43.0


From 2e5485cc89a220b5b524206343cd783cf642e5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:04 +0000
Subject: [PATCH 101/134] fix: java server and client take the name option, and
 need a name

---
 java/java_client.go |  9 ++++++++-
 java/java_server.go | 10 +++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 73f8db9..fa43da0 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -29,6 +29,9 @@ func (gen *Generator) CreateClient() {
 		return
 	}
 	gen.CreateClientDataAndFuncMap(src, rez)
+	if gen.Err != nil {
+		return
+	}
 	gen.CreateClientConfig()
 	gen.CreateJavaFileFromTemplate(gen.ClientData.Name, clientTemplate, gen.ClientData, gen.ClientData.Funcs, gen.ClientPackage)
 }
@@ -37,7 +40,11 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	if gen.Err != nil {
 		return
 	}
-	serviceName := gen.Capitalize(gen.Model.Name)
+	if gen.Name == "" {
+		gen.Err = fmt.Errorf("The service has no name: set one in the model, or with the name option")
+		return
+	}
+	serviceName := gen.Name
 	rootPath := gen.Model.Base
 	if rootPath == "" {
 		rootPath = "/"
diff --git a/java/java_server.go b/java/java_server.go
index 4dc7f3b..af36e7f 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -45,6 +45,9 @@ func (gen *Generator) CreateServer() {
 		return
 	}
 	gen.CreateServerDataAndFuncMap(src, rez)
+	if gen.Err != nil {
+		return
+	}
 	gen.CreateJavaFileFromTemplate(gen.ServerData.ResourcesClass, resourcesTemplate, gen.ServerData, gen.ServerData.Funcs, gen.ServerPackage)
 	if gen.ServerImpl {
 		gen.CreateJavaFileFromTemplate(gen.ServerData.MainClass, mainTemplate, gen.ServerData, gen.ServerData.Funcs, "")
@@ -83,10 +86,11 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	if gen.ServerData != nil {
 		return
 	}
-	if gen.Model.Name == "" {
-		panic("no model name!")
+	if gen.Name == "" {
+		gen.Err = fmt.Errorf("The service has no name: set one in the model, or with the name option")
+		return
 	}
-	serviceName := gen.Capitalize(gen.Model.Name)
+	serviceName := gen.Name
 	rootPath := gen.Model.Base
 	if rootPath == "" {
 		rootPath = "/"
-- 
2.43.0


From 9ff03152dd7300b94cfff69f695d6afe7ddda1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:04 +0000
Subject: [PATCH 102/134] fix: java server defaults of parameters of every type

---
 java/java_server.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/java/java_server.go b/java/java_server.go
index af36e7f..52608ad 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -202,17 +203,16 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					param = `@PathParam("` + in.Name + `") ` + param
 				}
 				if in.Default != nil {
+					text := fmt.Sprint(in.Default)
 					switch b := in.Default.(type) {
 					case *string:
-						param = fmt.Sprintf("@DefaultValue(%q)", *b) + " " + param
-					case *sadl.Decimal:
-						param = fmt.Sprintf("@DefaultValue(%q)", (*b).String()) + " " + param
-					case bool:
-						param = fmt.Sprintf("@DefaultValue(\"%v\")", b) + " " + param
-					default:
-						fmt.Println("Whoops:", sadl.Pretty(in.Default))
-						panic("HERE")
+						text = *b
+					case sadl.Decimal:
+						text = b.String()
+					case float64:
+						text = strconv.FormatFloat(b, 'f', -1, 64)
 					}
+					param = "@DefaultValue(" + javaString(text) + ") " + param
 				}
 				params = append(params, param)
 			}
-- 
2.43.0


From c01e8d883c7713e832a42ded2744ef4a7cbccf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:35 +0000
Subject: [PATCH 103/134] fix: java server header outputs when not immutable

---
 java/java_server.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/java/java_server.go b/java/java_server.go
index 52608ad..a4ad6e4 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -249,16 +249,12 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
-					if gen.UseImmutable {
-						wrappedResult = gen.jsonWrapper(etype, "res.get"+gen.Capitalize(ename)+"()")
-					} else {
-						wrappedResult = gen.jsonWrapper(etype, "res."+ename)
-					}
+					wrappedResult = gen.jsonWrapper(etype, gen.accessor("res", ename))
 				}
 				ret := fmt.Sprintf("Response.status(%d)", expectedStatus(hact))
 				for _, out := range expectedOutputs(hact) {
 					if out.Header != "" {
-						ret = ret + ".header(\"" + out.Header + "\", res.get" + gen.Capitalize(out.Name) + "())"
+						ret = ret + ".header(\"" + out.Header + "\", " + gen.accessor("res", out.Name) + ")"
 					}
 				}
 				if wrappedResult != "" {
@@ -490,6 +486,14 @@ func (gen *Generator) ResponseType(name string) string {
 	return gen.Capitalize(name) + "Response"
 }
 
+// accessor is the expression for a field of a request or response
+func (gen *Generator) accessor(obj string, field string) string {
+	if gen.UseImmutable {
+		return obj + ".get" + gen.Capitalize(field) + "()"
+	}
+	return obj + "." + field
+}
+
 func (gen *Generator) jsonWrapper(etype string, val string) string {
 	switch etype {
 	case "String":
-- 
2.43.0


From 6f11984824133da918710c67c207b1bb44511722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:01 +0000
Subject: [PATCH 104/134] fix: java server inputs that have the name of a local
 variable

---
 java/java_server.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/java/java_server.go b/java/java_server.go
index a4ad6e4..065c112 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -194,7 +194,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			var params []string
 			for _, in := range hact.Inputs {
 				tn := gen.paramType(&in.StructFieldDef, reqType(name), false)
-				param := tn + " " + in.Name
+				param := tn + " " + resourceParam(in.Name)
 				if in.Query != "" {
 					param = `@QueryParam("` + in.Query + `") ` + param
 				} else if in.Header != "" {
@@ -238,7 +238,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("        " + reqname + " req = new " + reqname + "()")
 			}
 			for _, p := range params {
-				writer.WriteString("." + p + "(" + p + ")")
+				writer.WriteString("." + p + "(" + resourceParam(p) + ")")
 			}
 			if gen.UseImmutable {
 				writer.WriteString(".build()")
@@ -486,6 +486,15 @@ func (gen *Generator) ResponseType(name string) string {
 	return gen.Capitalize(name) + "Response"
 }
 
+// resourceParam is the name of the parameter for an input, which must not be that of a local variable
+func resourceParam(name string) string {
+	switch name {
+	case "req", "res", "e", "th", "se", "entity", "status":
+		return name + "_"
+	}
+	return name
+}
+
 // accessor is the expression for a field of a request or response
 func (gen *Generator) accessor(obj string, field string) string {
 	if gen.UseImmutable {
-- 
2.43.0


From 18a46cf5409e88cf629b8b81e445635ff5f7f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:01 +0000
Subject: [PATCH 105/134] fix: java server actions that declare an exception
 type twice

---
 java/java_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/java/java_server.go b/java/java_server.go
index 065c112..c91747e 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -300,9 +300,14 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				}
 				writer.WriteString("            throw new WebApplicationException(Response.status(status).entity(entity).build());\n")
 			} else {
+				caught := make(map[string]bool)
 				for _, resp := range hact.Exceptions {
 					status := fmt.Sprint(resp.Status)
 					tn, _, _ := gen.TypeName(nil, resp.Type, true)
+					if caught[tn] {
+						continue
+					}
+					caught[tn] = true
 					writer.WriteString("        } catch (" + tn + " e) {\n")
 					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(e).build());\n")
 				}
-- 
2.43.0


From af84908a32b2761438e9bb85db39c00592c43d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:01 +0000
Subject: [PATCH 106/134] fix: java server inputs of type Decimal

---
 java/java_server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/java_server.go b/java/java_server.go
index c91747e..0a86541 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -375,6 +375,7 @@ public class {{.MainClass}} {
 const resourcesTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
 import java.util.*;
+import java.math.BigDecimal;
 import java.time.Instant;
 import javax.inject.Inject;
 import javax.ws.rs.*;
-- 
2.43.0


From 05e163313d4cf81c3808da93c147462cfafcd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:02 +0000
Subject: [PATCH 107/134] fix: java server request bodies that are strings are
 JSON

---
 java/java_model.go  |  2 +-
 java/java_server.go | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/java/java_model.go b/java/java_model.go
index 2804a67..924a35f 100644
--- a/java/java_model.go
+++ b/java/java_model.go
@@ -82,7 +82,7 @@ func (gen *Generator) CreateInterface() {
 		gen.CreateRequestPojo(hact)
 		gen.CreateResponsePojo(hact)
 		_, etype := gen.entityNameType(hact)
-		if etype == "String" {
+		if etype == "String" || gen.stringBody(hact) != "" {
 			gen.NeedUtil = true
 		}
 	}
diff --git a/java/java_server.go b/java/java_server.go
index 0a86541..ea51a68 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -226,6 +226,7 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			reqname := reqType(name)
 			resname := gen.ResponseType(gen.ActionName(hact))
 			var params []string
+			body := gen.stringBody(hact)
 			for _, in := range hact.Inputs {
 				params = append(params, in.Name)
 			}
@@ -238,7 +239,11 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("        " + reqname + " req = new " + reqname + "()")
 			}
 			for _, p := range params {
-				writer.WriteString("." + p + "(" + resourceParam(p) + ")")
+				if p == body {
+					writer.WriteString("." + p + "(Util.fromJson(" + resourceParam(p) + ", String.class))")
+				} else {
+					writer.WriteString("." + p + "(" + resourceParam(p) + ")")
+				}
 			}
 			if gen.UseImmutable {
 				writer.WriteString(".build()")
@@ -509,6 +514,18 @@ func (gen *Generator) accessor(obj string, field string) string {
 	return obj + "." + field
 }
 
+// stringBody is the name of the input that is the request body, if it is a string and so not JSON by itself
+func (gen *Generator) stringBody(hact *sadl.HttpDef) string {
+	for _, in := range hact.Inputs {
+		if in.Query == "" && in.Header == "" && !in.Path {
+			if gen.paramType(&in.StructFieldDef, gen.RequestType(gen.ActionName(hact)), false) == "String" {
+				return in.Name
+			}
+		}
+	}
+	return ""
+}
+
 func (gen *Generator) jsonWrapper(etype string, val string) string {
 	switch etype {
 	case "String":
-- 
2.43.0


From 2cb6d17162f6ab5013ef042957912690a4fa8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:40 +0000
Subject: [PATCH 108/134] fix: java client fields of requests when not
 immutable

---
 java/java_client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index fa43da0..f1d5309 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -95,7 +95,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			path := pq[0]
 			writer.WriteString("        WebTarget target = client.target(config.getTarget()).path(\"" + path + "\")")
 			for _, in := range hact.Inputs {
-				src := "req.get" + gen.Capitalize(in.Name) + "()"
+				src := gen.accessor("req", in.Name)
 				if in.Path {
 					writer.WriteString("\n            .resolveTemplate(\"" + in.Name + "\", " + src + ", true)")
 				} else if in.Query != "" {
@@ -105,14 +105,14 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			writer.WriteString(";\n        Invocation.Builder inv = target.request(MediaType.APPLICATION_JSON)")
 			for _, in := range hact.Inputs {
 				if in.Header != "" {
-					src := "req.get" + gen.Capitalize(in.Name) + "()"
+					src := gen.accessor("req", in.Name)
 					writer.WriteString("\n            .header(\"" + in.Header + "\", " + src + ")")
 				}
 			}
 			switch hact.Method {
 			case "PUT", "POST":
 				ename, _ := gen.ActionInfo(hact)
-				src := "Entity.entity(req.get" + gen.Capitalize(ename) + "(), MediaType.APPLICATION_JSON)"
+				src := "Entity.entity(" + gen.accessor("req", ename) + ", MediaType.APPLICATION_JSON)"
 				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "(" + src + ");\n")
 			case "GET", "DELETE":
 				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "();\n")
-- 
2.43.0


From afbf1309b3ee8de2fe295054db3163cb7550b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:40 +0000
Subject: [PATCH 109/134] fix: java client requests of every method, without a
 body, and with a string as body

---
 java/java_client.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index f1d5309..18a93d4 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -109,15 +109,24 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					writer.WriteString("\n            .header(\"" + in.Header + "\", " + src + ")")
 				}
 			}
+			body := ""
+			for _, in := range hact.Inputs {
+				if in.Query == "" && in.Header == "" && !in.Path {
+					body = gen.accessor("req", in.Name)
+					if in.Name == gen.stringBody(hact) {
+						body = "Util.toJson(" + body + ")"
+					}
+				}
+			}
 			switch hact.Method {
-			case "PUT", "POST":
-				ename, _ := gen.ActionInfo(hact)
-				src := "Entity.entity(" + gen.accessor("req", ename) + ", MediaType.APPLICATION_JSON)"
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "(" + src + ");\n")
-			case "GET", "DELETE":
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "();\n")
+			case "PUT", "POST", "PATCH":
+				if body == "" {
+					body = "\"\""
+				}
+				src := "Entity.entity(" + body + ", MediaType.APPLICATION_JSON)"
+				writer.WriteString(";\n        Response response = inv.method(\"" + hact.Method + "\", " + src + ");\n")
 			default:
-				panic("fix me: method = " + hact.Method)
+				writer.WriteString(";\n        Response response = inv.method(\"" + hact.Method + "\");\n")
 			}
 			writer.WriteString("        switch (response.getStatus()) {\n")
 			writer.WriteString("        case " + fmt.Sprint(expectedStatus(hact)) + ":\n")
-- 
2.43.0


From 4fc5bcf8e1f4042b123b2dc1d2a8cd4774703da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:40 +0000
Subject: [PATCH 110/134] fix: java client responses: collections, strings,
 headers of every type, and when not immutable

---
 java/java_client.go | 51 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 18a93d4..e89618f 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -65,9 +65,19 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 		switch typename {
 		case "Instant":
 			return "Instant.parse(" + val + ")"
-		default:
+		case "Boolean", "Byte", "Short", "Integer", "Long", "Float", "Double":
+			return typename + ".valueOf(" + val + ")"
+		case "UUID":
+			return "UUID.fromString(" + val + ")"
+		case "String":
 			return val
 		}
+		for _, td := range gen.Model.Types {
+			if td.Type == "Enum" && gen.Capitalize(td.Name) == typename {
+				return typename + ".fromString(" + val + ")"
+			}
+		}
+		return "new " + typename + "(" + val + ")" //Decimal, Timestamp, UnitValue
 	}
 
 	funcMap := template.FuncMap{
@@ -134,27 +144,35 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				writer.WriteString("            return null; //shoudn't this be void?!\n") //?
 			} else {
 				ename, etype := gen.entityNameType(hact)
-				if etype != "void" {
-					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + etype + ".class);\n")
+				responseType := gen.ResponseType(gen.ActionName(hact))
+				if gen.UseImmutable {
+					writer.WriteString("            " + responseType + "." + responseType + "Builder result = " + responseType + ".builder();\n")
+				} else {
+					writer.WriteString("            " + responseType + " result = new " + responseType + "();\n")
 				}
-				for _, out := range expectedOutputs(hact) {
-					if out.Header != "" {
-						tn, _, _ := gen.TypeName(nil, out.Type, true)
-						osrc := fromString(tn, "response.getHeaderString(\""+out.Header+"\")")
-						writer.WriteString("            " + tn + " " + out.Name + " = " + osrc + ";\n")
-					}
-				}
-				responseType := gen.ResponseType(hact.Name)
-				writer.WriteString("            return " + responseType + ".builder()\n")
 				if etype != "void" {
-					writer.WriteString("                ." + ename + "(" + ename + ")\n")
+					entity := "response.readEntity(" + etype + ".class)"
+					if etype == "String" {
+						entity = "Util.fromJson(" + entity + ", String.class)"
+					} else if strings.HasSuffix(etype, ">") {
+						entity = "response.readEntity(new GenericType<" + etype + ">() {})"
+					}
+					writer.WriteString("            result." + ename + "(" + entity + ");\n")
 				}
 				for _, out := range expectedOutputs(hact) {
 					if out.Header != "" {
-						writer.WriteString("                ." + out.Name + "(" + out.Name + ")\n")
+						tn := gen.paramType(&out.StructFieldDef, responseType, false)
+						header := "response.getHeaderString(\"" + out.Header + "\")"
+						writer.WriteString("            if (" + header + " != null) {\n")
+						writer.WriteString("                result." + out.Name + "(" + fromString(tn, header) + ");\n")
+						writer.WriteString("            }\n")
 					}
 				}
-				writer.WriteString("                .build();\n")
+				if gen.UseImmutable {
+					writer.WriteString("            return result.build();\n")
+				} else {
+					writer.WriteString("            return result;\n")
+				}
 			}
 			for _, exc := range hact.Exceptions {
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
@@ -190,12 +208,15 @@ public interface ClientConfig {
 
 const clientTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
+import java.math.BigDecimal;
 import java.time.Instant;
+import java.util.*;
 import javax.ws.rs.client.Client;
 import javax.ws.rs.client.ClientBuilder;
 import javax.ws.rs.client.Entity;
 import javax.ws.rs.client.WebTarget;
 import javax.ws.rs.client.Invocation;
+import javax.ws.rs.core.GenericType;
 import javax.ws.rs.core.MediaType;
 import javax.ws.rs.core.Response;
 import javax.ws.rs.WebApplicationException;
-- 
2.43.0


From 66c93f2ae3744d9245eaccba6ccc813c504c9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:40 +0000
Subject: [PATCH 111/134] fix: java client exceptions: by name, service
 exceptions, and several of one status

---
 java/java_client.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/java/java_client.go b/java/java_client.go
index e89618f..9d55730 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -174,9 +174,19 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					writer.WriteString("            return result;\n")
 				}
 			}
+			handled := map[int32]bool{expectedStatus(hact): true}
 			for _, exc := range hact.Exceptions {
+				if handled[exc.Status] {
+					continue
+				}
+				handled[exc.Status] = true
+				tn, _, _ := gen.TypeName(nil, exc.Type, true)
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
-				writer.WriteString("            throw response.readEntity(" + exc.Type + ".class);\n")
+				if gen.ServiceException && tn != "ServiceException" {
+					writer.WriteString("            throw new ServiceException().entity(response.readEntity(" + tn + ".class));\n")
+				} else {
+					writer.WriteString("            throw response.readEntity(" + tn + ".class);\n")
+				}
 			}
 			writer.WriteString("        default:\n")
 			writer.WriteString("            throw new RuntimeException(\"Unexpected service response status: \" + response.getStatus());\n")
-- 
2.43.0


From cf4111d5fd4f2517cbdad4d7e52838ef2676d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 112/134] fix: a source whose last definition ends at the end
 of the file

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index 1559f89..4810a79 100644
--- a/parser.go
+++ b/parser.go
@@ -66,6 +66,7 @@ type Parser struct {
 	lastToken      *scanner.Token
 	prevLastToken  *scanner.Token
 	ungottenToken  *scanner.Token
+	atEnd          bool
 	currentComment string
 	extensions     map[string]Extension
 }
@@ -105,6 +106,9 @@ func (p *Parser) Model() *Model {
 }
 
 func (p *Parser) UngetToken() {
+	if p.atEnd { //there was no token to unget
+		return
+	}
 	Debug("UngetToken() -> ", p.lastToken)
 	p.ungottenToken = p.lastToken
 	p.lastToken = p.prevLastToken
@@ -121,6 +125,7 @@ func (p *Parser) GetToken() *scanner.Token {
 	tok := p.scanner.Scan()
 	for {
 		if tok.Type == scanner.EOF {
+			p.atEnd = true
 			return nil //fixme
 		} else if tok.Type != scanner.BLOCK_COMMENT {
 			break
-- 
2.43.0


From 45f54bee237b4e41977d115a010e6cc2c3e7ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:57 +0000
Subject: [PATCH 113/134] fix: comments of struct fields: all lines, and each
 once

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 4810a79..5703222 100644
--- a/parser.go
+++ b/parser.go
@@ -1728,7 +1728,7 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 		if tok.Type == scanner.CLOSE_BRACE {
 			return nil, nil
 		} else if tok.Type == scanner.LINE_COMMENT {
-			comment = p.MergeComment("", tok.Text)
+			comment = p.MergeComment(comment, tok.Text)
 			tok = p.GetToken()
 			if tok == nil {
 				return nil, p.EndOfFileError()
@@ -1747,11 +1747,10 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 	if err != nil {
 		return nil, err
 	}
-	ts, foptions, fcomment, err := p.ParseTypeSpec(comment)
+	ts, foptions, comment, err := p.ParseTypeSpec(comment)
 	if err != nil {
 		return nil, err
 	}
-	comment = p.MergeComment(comment, fcomment)
 	field := &StructFieldDef{
 		Name:     fname,
 		Comment:  comment,
-- 
2.43.0


From ed4dba0399f96a3a38f997ae864e9561ec0b2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:57 +0000
Subject: [PATCH 114/134] fix: annotations of unions, and annotations and
 comments of their variants

---
 parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 5703222..7d23d56 100644
--- a/parser.go
+++ b/parser.go
@@ -945,6 +945,9 @@ func (p *Parser) parseTypeDirective(comment string) error {
 		td.Annotations = options.Annotations
 	case "Union":
 		err = p.parseUnionDef(td, params, fields)
+		if options.Annotations != nil {
+			td.Annotations = options.Annotations
+		}
 	default:
 		err = p.Error(fmt.Sprintf("Super type must be a base type: %v", superName))
 	}
@@ -1222,7 +1225,9 @@ func (p *Parser) parseUnionDef(td *TypeDef, params []string, fields []*StructFie
 			for _, v := range fields {
 				vd := &UnionVariantDef{}
 				vd.Name = v.Name
-				vd.Type = v.Type
+				vd.Comment = v.Comment
+				vd.Annotations = v.Annotations
+				vd.TypeSpec = v.TypeSpec
 				td.Variants = append(td.Variants, vd)
 			}
 		} else {
-- 
2.43.0


From 2d9f57dd73c4ce9ccb806d52fb69be746421a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:57 +0000
Subject: [PATCH 115/134] fix: operations: comments, bad options, and sources
 that end within them

---
 parser.go | 156 +++++++++++++++++++++---------------------------------
 1 file changed, 60 insertions(+), 96 deletions(-)

diff --git a/parser.go b/parser.go
index 7d23d56..9395fe3 100644
--- a/parser.go
+++ b/parser.go
@@ -368,7 +368,9 @@ func (p *Parser) parseOperationDirective(comment string) error {
 
 	//parse operation options here
 	options, err := p.ParseOptions("operation", []string{"http"})
-
+	if err != nil {
+		return err
+	}
 	err = p.expect(scanner.OPEN_BRACE)
 	if err != nil {
 		return err
@@ -414,118 +416,80 @@ func (p *Parser) parseOperationDirective(comment string) error {
 
 func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 	var inputs []*OperationInput
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
-	}
-	tok = p.GetToken()
-	for tok != nil {
-		if tok.Type == scanner.CLOSE_BRACE {
+	err := p.expect(scanner.OPEN_BRACE)
+	for err == nil {
+		done, comment, err := p.IsBlockDone("")
+		if err != nil {
+			return nil, err
+		}
+		if done {
 			return inputs, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			in := &OperationInput{}
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			in.Name = tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			in.Type = tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.OPEN_PAREN {
-				p.UngetToken()
-			} else {
-				for {
-					tok = p.GetToken()
-					if tok.Type == scanner.CLOSE_PAREN {
-						break
-					} else if tok.Type == scanner.SYMBOL {
-						switch tok.Text {
-						case "required":
-							in.Required = true
-						default:
-							return nil, p.SyntaxError()
-						}
-					}
-				}
-			}
-			inputs = append(inputs, in)
 		}
-		tok = p.GetToken()
+		in := &OperationInput{}
+		in.Name, err = p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		in.Type, err = p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		options, err := p.ParseOptions("operation input", []string{"required"})
+		if err != nil {
+			return nil, err
+		}
+		in.Required = options.Required
+		in.Annotations = options.Annotations
+		in.Comment = p.ParseTrailingComment(comment)
+		inputs = append(inputs, in)
 	}
-	return nil, nil
+	return nil, err
 }
 
 func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 	var outputs []*OperationOutput
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
-	}
-	tok = p.GetToken()
-	for tok != nil {
-		if tok.Type == scanner.CLOSE_BRACE {
+	err := p.expect(scanner.OPEN_BRACE)
+	for err == nil {
+		done, comment, err := p.IsBlockDone("")
+		if err != nil {
+			return nil, err
+		}
+		if done {
 			return outputs, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			outName := tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			outType := tok.Text
-			//options? comment?
-			out := &OperationOutput{}
-			out.Name = outName
-			out.Type = outType
-			outputs = append(outputs, out)
 		}
-		tok = p.GetToken()
+		out := &OperationOutput{}
+		out.Name, err = p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		out.Type, err = p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		out.Comment = p.ParseTrailingComment(comment)
+		outputs = append(outputs, out)
 	}
-	return nil, nil
+	return nil, err
 }
 
 func (p *Parser) parseOperationExceptions() ([]string, error) {
 	var exceptions []string
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
-	}
-	tok = p.GetToken()
-	for tok != nil {
-		if tok.Type == scanner.CLOSE_BRACE {
+	err := p.expect(scanner.OPEN_BRACE)
+	for err == nil {
+		done, _, err := p.IsBlockDone("")
+		if err != nil {
+			return nil, err
+		}
+		if done {
 			return exceptions, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			exceptions = append(exceptions, tok.Text)
 		}
-		tok = p.GetToken()
+		name, err := p.ExpectIdentifier()
+		if err != nil {
+			return nil, err
+		}
+		exceptions = append(exceptions, name)
 	}
-	return nil, nil
+	return nil, err
 }
 
 func (p *Parser) parseActionDirective(comment string) error {
-- 
2.43.0


From b1ef581f1eeed257efe7e90816e1462664e2ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:57 +0000
Subject: [PATCH 116/134] fix: a comment after the name, namespace, version, or
 base is the schema's

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 9395fe3..e915ecc 100644
--- a/parser.go
+++ b/parser.go
@@ -273,6 +273,7 @@ func (p *Parser) parseNamespaceDirective(comment string) error {
 		ns = ns + txt
 	}
 	p.schema.Namespace = ns
+	p.schema.Comment = p.ParseTrailingComment(p.schema.Comment)
 	return err
 }
 
@@ -281,6 +282,7 @@ func (p *Parser) parseNameDirective(comment string) error {
 	txt, err := p.expectText()
 	if err == nil {
 		p.schema.Name = txt
+		p.schema.Comment = p.ParseTrailingComment(p.schema.Comment)
 	}
 	return err
 }
@@ -294,6 +296,7 @@ func (p *Parser) parseVersionDirective(comment string) error {
 	switch tok.Type {
 	case scanner.NUMBER, scanner.SYMBOL, scanner.STRING:
 		p.schema.Version = tok.Text
+		p.schema.Comment = p.ParseTrailingComment(p.schema.Comment)
 		return nil
 	default:
 		return p.Error("Bad version value: " + tok.Text)
@@ -308,6 +311,7 @@ func (p *Parser) parseBaseDirective(comment string) error {
 		if base != "" && !strings.HasPrefix(base, "/") {
 			err = p.Error("Bad base path value: " + base)
 		}
+		p.schema.Comment = p.ParseTrailingComment(p.schema.Comment)
 	}
 	return err
 }
-- 
2.43.0


From da758a948fdc3328bf9041c86dbdfec51f0f10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:57 +0000
Subject: [PATCH 117/134] fix: the comment of an expected response without a
 block

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index e915ecc..4b60379 100644
--- a/parser.go
+++ b/parser.go
@@ -709,6 +709,7 @@ func (p *Parser) parseHttpExpectedSpec(op *HttpDef, comment string) error {
 	}
 	op.Expected = &HttpExpectedSpec{
 		Status:      estatus,
+		Comment:     comment,
 		Annotations: options.Annotations,
 	}
 	tok := p.GetToken()
-- 
2.43.0


From 97a04940ffecd3cec83a46b554e1c66d95f92dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:57 +0000
Subject: [PATCH 118/134] fix: required http parameters: the declared ones,
 those in the path, and the body

---
 parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 4b60379..9d745a1 100644
--- a/parser.go
+++ b/parser.go
@@ -592,7 +592,7 @@ func ensureResourceName(hact *HttpDef) error {
 
 func ensureRequiredParams(hact *HttpDef) {
 	for _, in := range hact.Inputs {
-		if in.Query == "" && in.Header != "" { //body or pathparam
+		if in.Query == "" && in.Header == "" { //body or pathparam
 			in.Required = true
 		}
 	}
@@ -668,6 +668,7 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 	spec := &HttpParamSpec{
 		StructFieldDef: StructFieldDef{
 			Name:        ename,
+			Required:    options.Required,
 			Annotations: options.Annotations,
 			Comment:     comment,
 			TypeSpec:    *ts,
-- 
2.43.0


From c1d567b47fb767c006d27b26925ebc5bc2242514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 119/134] fix: List without its items is an Array, and a source
 without a file has no name of its own

---
 parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 9d745a1..5eebb93 100644
--- a/parser.go
+++ b/parser.go
@@ -171,7 +171,7 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 	if name != "" {
 		p.schema.Name = name
 	}
-	if p.schema.Name == "" {
+	if p.schema.Name == "" && p.path != "" {
 		p.schema.Name = BaseFileName(p.path)
 	}
 	if p.schema.Namespace == "" {
@@ -970,6 +970,9 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 	if err != nil {
 		return "", nil, nil, nil, options, "", err
 	}
+	if typeName == "List" {
+		typeName = "Array"
+	}
 	tok := p.GetToken()
 	if tok == nil {
 		return typeName, nil, nil, nil, options, "", nil
@@ -978,9 +981,8 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 		var params []string
 		var expectedParams int
 		switch typeName {
-		case "Array", "List":
+		case "Array":
 			expectedParams = 1
-			typeName = "Array"
 		case "Map", "UnitValue":
 			expectedParams = 2
 		case "Union":
-- 
2.43.0


From 92090db778e98805de50228db8f04b4f21a0f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:46 +0000
Subject: [PATCH 120/134] fix: undefined types in union variants and operations
 are errors

---
 parser.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 5eebb93..b44e28c 100644
--- a/parser.go
+++ b/parser.go
@@ -2054,6 +2054,8 @@ func (p *Parser) Validate() (*Model, error) {
 			err = p.validateStringDef(td)
 		case "UUID":
 			err = p.validateReference(td)
+		case "Union":
+			err = p.validateUnion(td)
 		}
 		if err != nil {
 			return nil, err
@@ -2323,8 +2325,31 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 }
 */
 
-func (p *Parser) validateOperation(action *OperationDef) error {
-	//fix me
+func (p *Parser) validateOperation(op *OperationDef) error {
+	for _, in := range op.Inputs {
+		if p.model.FindType(in.Type) == nil {
+			return fmt.Errorf("Operation '%s' input type '%s' is not defined", op.Name, in.Type)
+		}
+	}
+	for _, out := range op.Outputs {
+		if p.model.FindType(out.Type) == nil {
+			return fmt.Errorf("Operation '%s' output type '%s' is not defined", op.Name, out.Type)
+		}
+	}
+	for _, etype := range op.Exceptions {
+		if p.model.FindType(etype) == nil {
+			return fmt.Errorf("Operation '%s' exception type '%s' is not defined", op.Name, etype)
+		}
+	}
+	return nil
+}
+
+func (p *Parser) validateUnion(td *TypeDef) error {
+	for _, v := range td.Variants {
+		if p.model.FindType(v.Type) == nil {
+			return fmt.Errorf("Undefined type '%s' in union variant '%s.%s'", v.Type, td.Name, v.Name)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 28487599f4e1e756d2eab834f5afe874e611c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:47 +0000
Subject: [PATCH 121/134] fix: what fields of inline structs, and map keys,
 unit values, and references of fields mention must be defined

---
 parser.go | 116 +++++++++++++++++++++++++++---------------------------
 1 file changed, 57 insertions(+), 59 deletions(-)

diff --git a/parser.go b/parser.go
index b44e28c..51dc021 100644
--- a/parser.go
+++ b/parser.go
@@ -2363,66 +2363,62 @@ func (p *Parser) validateStringDef(td *TypeDef) error {
 }
 
 func (p *Parser) validateReference(td *TypeDef) error {
-	if td.Reference != "" {
-		t := p.model.FindType(td.Reference)
+	return p.validateReferenceSpec(td.Name, &td.TypeSpec)
+}
+
+func (p *Parser) validateReferenceSpec(context string, ts *TypeSpec) error {
+	if ts.Reference != "" {
+		t := p.model.FindType(ts.Reference)
 		if t == nil {
-			return fmt.Errorf("Undefined type '%s' for %s reference", td.Reference, td.Name)
+			return fmt.Errorf("Undefined type '%s' for %s reference", ts.Reference, context)
 		}
 	}
 	return nil
 }
 
 func (p *Parser) validateUnitValue(td *TypeDef) error {
-	vt := p.model.FindType(td.Value)
+	return p.validateUnitValueSpec(td.Name, &td.TypeSpec)
+}
+
+func (p *Parser) validateUnitValueSpec(context string, ts *TypeSpec) error {
+	vt := p.model.FindType(ts.Value)
 	if vt == nil {
-		return fmt.Errorf("Undefined value type '%s' for %s UnitValue type", td.Value, td.Name)
+		return fmt.Errorf("Undefined value type '%s' for %s UnitValue type", ts.Value, context)
 	}
 	if !p.model.IsNumericType(&vt.TypeSpec) {
-		return fmt.Errorf("UnitValue value type of %s is not numeric: %s", td.Name, vt.Name)
+		return fmt.Errorf("UnitValue value type of %s is not numeric: %s", context, vt.Name)
 	}
-	ut := p.model.FindType(td.Unit)
+	ut := p.model.FindType(ts.Unit)
 	if ut == nil {
-		return fmt.Errorf("Undefined unit type '%s' for %s UnitValue unit", td.Unit, td.Name)
+		return fmt.Errorf("Undefined unit type '%s' for %s UnitValue unit", ts.Unit, context)
 	}
 	if ut.Type != "String" && ut.Type != "Enum" {
-		return fmt.Errorf("UnitValue value type of %s is not String or Enum: %s", td.Name, vt.Name)
+		return fmt.Errorf("UnitValue unit type of %s is not String or Enum: %s", context, ut.Name)
 	}
 	return nil
 }
 
 func (p *Parser) validateStruct(td *TypeDef) error {
+	return p.validateStructFields(td.Name, td.Fields)
+}
+
+func (p *Parser) validateStructFields(context string, fields []*StructFieldDef) error {
 	model := p.model
-	for _, field := range td.Fields {
-		ftd := model.FindType(field.Type)
-		if ftd == nil {
-			return fmt.Errorf("Undefined type '%s' in struct field '%s.%s'", field.Type, td.Name, field.Name)
+	for _, field := range fields {
+		fname := context + "." + field.Name
+		err := p.validateTypeSpec(fname, &field.TypeSpec)
+		if err != nil {
+			return err
 		}
-		switch field.Type {
-		case "Array":
-			if field.Items != "" && field.Items != "Any" {
-				fitd := model.FindType(field.Items)
-				if fitd == nil {
-					return fmt.Errorf("Undefined array item type '%s' in struct field '%s.%s'", field.Items, td.Name, field.Name)
-				}
-			}
-		case "Map":
-			if field.Keys != "" && field.Keys != "Any" {
-				fitd := model.FindType(field.Keys)
-				if fitd == nil {
-					return fmt.Errorf("Undefined map key type '%s' in struct field '%s.%s'", field.Keys, td.Name, field.Name)
-				}
-				//TODO: ensure the key type is stringable.
-			}
-			if field.Items != "" && field.Items != "Any" {
-				fitd := model.FindType(field.Items)
-				if fitd == nil {
-					return fmt.Errorf("Undefined map value '%s' in struct field '%s.%s'", field.Items, td.Name, field.Name)
-				}
+		if field.Type == "Struct" {
+			err = p.validateStructFields(fname, field.Fields)
+			if err != nil {
+				return err
 			}
 		}
 		if field.Default != nil {
 			if field.Required {
-				return fmt.Errorf("Cannot have a default value for required field: '%s.%s'", td.Name, field.Name)
+				return fmt.Errorf("Cannot have a default value for required field: '%s'", fname)
 			}
 			err := model.ValidateAgainstTypeSpec(field.Type, &field.TypeSpec, field.Default)
 			if err != nil {
@@ -2430,41 +2426,43 @@ func (p *Parser) validateStruct(td *TypeDef) error {
 			}
 		}
 		if field.Values != nil && field.Pattern != "" {
-			return fmt.Errorf("Cannot have both 'values' and 'pattern' constraints in one string field: '%s.%s'", td.Name, field.Name)
+			return fmt.Errorf("Cannot have both 'values' and 'pattern' constraints in one string field: '%s'", fname)
 		}
 	}
 	return nil
 }
 
-func (p *Parser) validateArray(td *TypeDef) error {
+// the types that a field or parameter mentions
+func (p *Parser) validateTypeSpec(context string, ts *TypeSpec) error {
 	model := p.model
-	if td.Items == "Any" {
-		return nil
+	if model.FindType(ts.Type) == nil {
+		return fmt.Errorf("Undefined type '%s' in '%s'", ts.Type, context)
 	}
-	itd := model.FindType(td.Items)
-	if itd == nil {
-		return fmt.Errorf("Undefined type '%s' for Array items '%s'", td.Items, td.Name)
+	switch ts.Type {
+	case "Array":
+		if ts.Items != "" && model.FindType(ts.Items) == nil {
+			return fmt.Errorf("Undefined array item type '%s' in '%s'", ts.Items, context)
+		}
+	case "Map":
+		//TODO: ensure the key type is stringable.
+		if ts.Keys != "" && model.FindType(ts.Keys) == nil {
+			return fmt.Errorf("Undefined map key type '%s' in '%s'", ts.Keys, context)
+		}
+		if ts.Items != "" && model.FindType(ts.Items) == nil {
+			return fmt.Errorf("Undefined map value '%s' in '%s'", ts.Items, context)
+		}
+	case "UnitValue":
+		return p.validateUnitValueSpec(context, ts)
 	}
-	return nil
+	return p.validateReferenceSpec(context, ts)
+}
+
+func (p *Parser) validateArray(td *TypeDef) error {
+	return p.validateTypeSpec(td.Name, &td.TypeSpec)
 }
 
 func (p *Parser) validateMap(td *TypeDef) error {
-	model := p.model
-	if td.Items == "Any" {
-		return nil
-	}
-	itd := model.FindType(td.Items)
-	if itd == nil {
-		return fmt.Errorf("Undefined type '%s' for Map items '%s'", td.Items, td.Name)
-	}
-	if td.Keys == "String" {
-		return nil
-	}
-	ktd := model.FindType(td.Keys)
-	if ktd == nil {
-		return fmt.Errorf("Undefined type '%s' for Map keys '%s'", td.Keys, td.Name)
-	}
-	return nil
+	return p.validateTypeSpec(td.Name, &td.TypeSpec)
 }
 
 func (p *Parser) registerExtension(handler Extension) error {
-- 
2.43.0


From ce0facfded687301459182a35d8860250fb6c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:47 +0000
Subject: [PATCH 122/134] fix: http parameters and exceptions: types they
 mention must be defined, and defaults conform

---
 parser.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/parser.go b/parser.go
index 51dc021..02aaee3 100644
--- a/parser.go
+++ b/parser.go
@@ -2254,9 +2254,9 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 	needsBody := hact.Method == "POST" || hact.Method == "PUT" || hact.Method == "PATCH"
 	bodyParam := ""
 	for _, in := range hact.Inputs {
-		t := p.model.FindType(in.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' input type '%s' is not defined", hact.Name, in.Type)
+		err = p.validateHttpParam(hact, in)
+		if err != nil {
+			return err
 		}
 		//paramType, paramName := p.parameterSource(hact.Path, in.Name)
 		if !in.Path && in.Query == "" && in.Header == "" {
@@ -2270,16 +2270,21 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
-	needsBody = false
+	for _, exc := range hact.Exceptions {
+		t := p.model.FindType(exc.Type)
+		if t == nil {
+			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
+		}
+	}
 	if hact.Expected == nil {
 		return nil
 	}
 	needsBody = hact.Expected.Status != 204 && hact.Expected.Status != 304
 	bodyParam = ""
 	for _, out := range hact.Expected.Outputs {
-		t := p.model.FindType(out.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' expected type '%s' is not defined", hact.Name, out.Type)
+		err = p.validateHttpParam(hact, out)
+		if err != nil {
+			return err
 		}
 		if out.Header == "" {
 			if needsBody {
@@ -2292,15 +2297,18 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
-	for _, exc := range hact.Exceptions {
-		t := p.model.FindType(exc.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
-		}
-	}
 	return nil
 }
 
+func (p *Parser) validateHttpParam(hact *HttpDef, param *HttpParamSpec) error {
+	context := hact.Name + "." + param.Name
+	err := p.validateTypeSpec(context, &param.TypeSpec)
+	if err == nil && param.Default != nil {
+		err = p.model.ValidateAgainstTypeSpec("default of "+context, &param.TypeSpec, param.Default)
+	}
+	return err
+}
+
 /*
    func (p *Parser) validateAction(action *ActionDef) error {
 	if action.Input != "" {
-- 
2.43.0


From 3cfd794b21881770e8ece2f00b587cddd8a52ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:47 +0000
Subject: [PATCH 123/134] fix: examples of http requests and responses:
 collections, undefined types, and no expected response

---
 parser.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/parser.go b/parser.go
index 02aaee3..6a90a11 100644
--- a/parser.go
+++ b/parser.go
@@ -2162,11 +2162,7 @@ func (p *Parser) validateExampleAgainstHttpRequest(hact *HttpDef, ex *ExampleDef
 	for k, v := range m {
 		for _, in := range hact.Inputs {
 			if in.Name == k {
-				td := p.model.FindType(in.Type)
-				if td == nil {
-					return fmt.Errorf("Type not found in example: %s", in.Type)
-				}
-				err := p.model.ValidateAgainstTypeSpec("example for "+ex.Target+"."+k, &td.TypeSpec, v)
+				err := p.model.ValidateAgainstTypeSpec("example for "+ex.Target+"."+k, &in.TypeSpec, v)
 				if err != nil {
 					return err
 				}
@@ -2190,14 +2186,14 @@ func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDe
 	if !ok {
 		return fmt.Errorf("Example for an HTTP response must be a JSON object")
 	}
+	var outputs []*HttpParamSpec
+	if hact.Expected != nil {
+		outputs = hact.Expected.Outputs
+	}
 	for k, v := range m {
-		for _, out := range hact.Expected.Outputs {
+		for _, out := range outputs {
 			if out.Name == k {
-				td := p.model.FindType(out.Type)
-				if td == nil {
-					return fmt.Errorf("Type not found in HTTP response example: %s", out.Type)
-				}
-				err := p.model.ValidateAgainstTypeSpec("HTTP response example for "+ex.Target+"."+k, &td.TypeSpec, v)
+				err := p.model.ValidateAgainstTypeSpec("HTTP response example for "+ex.Target+"."+k, &out.TypeSpec, v)
 				if err != nil {
 					return err
 				}
@@ -2205,7 +2201,7 @@ func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDe
 			}
 		}
 	}
-	for _, out := range hact.Expected.Outputs {
+	for _, out := range outputs {
 		if out.Required {
 			if _, ok := present[out.Name]; !ok {
 				return fmt.Errorf("Required output '%s' missing in example for %s", out.Name, ex.Target)
-- 
2.43.0


From f5bb5a483eefbbe522387722f764ed093e478c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:58 +0000
Subject: [PATCH 124/134] fix: an empty comment line adds nothing to a comment

---
 parser.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/parser.go b/parser.go
index 6a90a11..8c16384 100644
--- a/parser.go
+++ b/parser.go
@@ -2029,13 +2029,7 @@ func (p *Parser) ParseTrailingComment(comment string) string {
 }
 
 func (p *Parser) MergeComment(comment1 string, comment2 string) string {
-	if comment1 == "" {
-		return strings.TrimSpace(comment2)
-	}
-	if comment2 == "" {
-		return strings.TrimSpace(comment1)
-	}
-	return strings.TrimSpace(comment1) + " " + strings.TrimSpace(comment2)
+	return strings.TrimSpace(strings.TrimSpace(comment1) + " " + strings.TrimSpace(comment2))
 }
 
 func (p *Parser) Validate() (*Model, error) {
-- 
2.43.0


From 74206eee6d3870e16122b522f267fed372811af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:05 +0000
Subject: [PATCH 125/134] fix: the name of an http action with query parameters

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 8c16384..56c8c28 100644
--- a/parser.go
+++ b/parser.go
@@ -610,7 +610,11 @@ func ensureRequiredParams(hact *HttpDef) {
 }
 
 func resourceName(hact *HttpDef) string {
-	parts := strings.Split(hact.Path, "/")
+	path := hact.Path
+	if n := strings.Index(path, "?"); n >= 0 {
+		path = path[:n]
+	}
+	parts := strings.Split(path, "/")
 	for i := len(parts) - 1; i >= 0; i-- {
 		if strings.Index(parts[i], "{") < 0 {
 			return parts[i]
-- 
2.43.0


From 5b5bd9b89e7cf75a69bc3ad24c4dca7931693e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:05 +0000
Subject: [PATCH 126/134] fix: a struct without a block: its comment, and at
 the end of the file

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 56c8c28..7074700 100644
--- a/parser.go
+++ b/parser.go
@@ -1021,7 +1021,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 			}
 			tok = p.GetToken()
 			if tok == nil {
-				return typeName, nil, nil, nil, options, "", p.EndOfFileError()
+				return typeName, nil, nil, nil, options, "", nil
 			}
 		}
 		if tok.Type == scanner.OPEN_BRACE {
@@ -1178,6 +1178,9 @@ func (p *Parser) parseStructDef(td *TypeDef, fields []*StructFieldDef) error {
 	err := p.parseTypeOptions(td)
 	if err == nil {
 		td.Fields = fields
+		if fields == nil {
+			td.Comment, err = p.EndOfStatement(td.Comment)
+		}
 	}
 	return err
 }
-- 
2.43.0


From 48c2538bae0e2f079d28563e3359042b73ec3326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 127/134] fix: annotations are written to source in the same
 order every time

---
 misc.go     | 17 +++++++++++------
 unparser.go | 30 ++++++++++++------------------
 2 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/misc.go b/misc.go
index 608b482..e04677c 100644
--- a/misc.go
+++ b/misc.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 )
 
@@ -176,14 +177,18 @@ func GetAnnotation(annos map[string]string, key string) string {
 }
 
 func AnnotationsAsString(annos map[string]string) string {
-	var opts []string
-	if len(annos) > 0 {
-		for k, v := range annos {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
-	}
+	opts := annotationOptions(annos)
 	if len(opts) > 0 {
 		return " (" + strings.Join(opts, ", ") + ")"
 	}
 	return ""
 }
+
+func annotationOptions(annos map[string]string) []string {
+	var opts []string
+	for k, v := range annos {
+		opts = append(opts, fmt.Sprintf("%s=%q", k, v))
+	}
+	sort.Strings(opts)
+	return opts
+}
diff --git a/unparser.go b/unparser.go
index a243ffd..7686162 100644
--- a/unparser.go
+++ b/unparser.go
@@ -3,6 +3,7 @@ package sadl
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
 	"strings"
 	"text/template"
 )
@@ -45,7 +46,13 @@ func (g *SadlGenerator) Generate() string {
 			s := ""
 			if len(annos) > 0 {
 				s = "\n"
-				for k, v := range annos {
+				var names []string
+				for k := range annos {
+					names = append(names, k)
+				}
+				sort.Strings(names)
+				for _, k := range names {
+					v := annos[k]
 					if v == "" {
 						s += fmt.Sprintf("%s\n", k)
 					} else {
@@ -179,9 +186,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				if fd.Required {
 					fopts = append(fopts, "required")
 				}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
+				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
 			return s + indent + "}"
@@ -201,9 +206,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 					}
 				}
 				fopts := []string{}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
+				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
 			return s + "}"
@@ -227,12 +230,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 }
 
 func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
-	var opts []string
-	if len(op.Annotations) > 0 {
-		for k, v := range op.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
-	}
+	opts := annotationOptions(op.Annotations)
 	opt := ""
 	if len(opts) > 0 {
 		opt = " (" + strings.Join(opts, ", ") + ")"
@@ -300,11 +298,7 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 			opts = append(opts, "operation="+hact.Name)
 		}
 	}
-	if len(hact.Annotations) > 0 {
-		for k, v := range hact.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
-	}
+	opts = append(opts, annotationOptions(hact.Annotations)...)
 	opt := ""
 	if len(opts) > 0 {
 		opt = " (" + strings.Join(opts, ", ") + ")"
-- 
2.43.0


From 41fe453670cbd5d5f36e4896343dfa2485fbdaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 128/134] fix: source written for types keeps their
 annotations, defaults, sizes, units, and references

---
 unparser.go | 206 ++++++++++++++++++++++++----------------------------
 1 file changed, 93 insertions(+), 113 deletions(-)

diff --git a/unparser.go b/unparser.go
index 7686162..ed76166 100644
--- a/unparser.go
+++ b/unparser.go
@@ -63,7 +63,7 @@ func (g *SadlGenerator) Generate() string {
 			return s
 		},
 		"typedef": func(td *TypeDef) string {
-			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, nil, ""))
+			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, nil, td.Annotations, ""))
 		},
 		"operation": func(op *OperationDef) string {
 			return g.sadlOperationSpec(op)
@@ -93,38 +93,80 @@ func (g *SadlGenerator) CreateSadlSource() {
 	}
 }
 
-func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string) string {
+func sadlOptions(opts []string) string {
+	if len(opts) == 0 {
+		return ""
+	}
+	return " (" + strings.Join(opts, ", ") + ")"
+}
+
+func sizeOptions(ts *TypeSpec, opts []string) []string {
+	if ts.MinSize != nil {
+		opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
+	}
+	if ts.MaxSize != nil {
+		opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
+	}
+	return opts
+}
+
+// a comment at the end of a line, or else, when it is long, on the lines before it
+func (g *SadlGenerator) sadlComment(indent string, comment string, block bool) (string, string) {
+	if comment == "" {
+		return "", ""
+	}
+	if block || strings.Contains(comment, "\n") {
+		return g.FormatComment(indent, comment, 100, false), ""
+	}
+	return "", " // " + comment
+}
+
+// the opts go after the type, as do the annotations unless it has a block: they go before that
+func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, annos map[string]string, indent string) string {
+	indent2 := indent + indentAmount
 	switch ts.Type {
 	case "Enum":
-		//Q: what if this is a required field, defined inline in a struct?!
-		s := "Enum {\n"
+		s := "Enum" + AnnotationsAsString(annos) + " {\n"
 		for _, el := range ts.Elements {
-			com := ""
-			if el.Comment != "" {
-				com = " // " + el.Comment
+			bcom, com := g.sadlComment(indent2, el.Comment, false)
+			s += bcom + indent2 + el.Symbol + AnnotationsAsString(el.Annotations) + com + "\n"
+		}
+		return s + indent + "}" + sadlOptions(opts)
+	case "Struct":
+		s := "Struct" + AnnotationsAsString(annos) + " {\n"
+		block := false
+		for _, fd := range ts.Fields {
+			if len(fd.Comment) > 60 {
+				block = true
+				break
 			}
-			annos := AnnotationsAsString(el.Annotations)
-			s = s + indent + indentAmount + el.Symbol + annos + com + "\n"
 		}
-		return s + indent + "}"
+		for _, fd := range ts.Fields {
+			if block {
+				s += "\n"
+			}
+			bcom, com := g.sadlComment(indent2, fd.Comment, block)
+			s += bcom + indent2 + fd.Name + " " + g.sadlFieldSpec(fd, indent2) + com + "\n"
+		}
+		return s + indent + "}" + sadlOptions(opts)
+	case "Union":
+		s := "Union" + AnnotationsAsString(annos) + " {\n"
+		for _, vd := range ts.Variants {
+			bcom, com := g.sadlComment(indent2, vd.Comment, len(vd.Comment) > 100)
+			s += bcom + indent2 + vd.Name + " " + g.sadlTypeSpec(&vd.TypeSpec, nil, vd.Annotations, indent2) + com + "\n"
+		}
+		return s + indent + "}" + sadlOptions(opts)
+	}
+	t := ts.Type
+	switch ts.Type {
 	case "String":
 		if ts.Pattern != "" {
 			opts = append(opts, fmt.Sprintf("pattern=%q", ts.Pattern))
 		}
-		if ts.MinSize != nil {
-			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
-		}
-		if ts.MaxSize != nil {
-			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
-		}
+		opts = sizeOptions(ts, opts)
 		if ts.Values != nil {
 			opts = append(opts, fmt.Sprintf("values=%s", stringList(ts.Values)))
 		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("String%s", sopts)
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
 		if ts.Min != nil {
 			opts = append(opts, fmt.Sprintf("min=%v", ts.Min.String()))
@@ -132,101 +174,39 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 		if ts.Max != nil {
 			opts = append(opts, fmt.Sprintf("max=%v", ts.Max.String()))
 		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("%s%s", ts.Type, sopts)
+	case "Bytes":
+		opts = sizeOptions(ts, opts)
 	case "Array":
-		if ts.MinSize != nil {
-			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
+		t = "List"
+		if ts.Items != "" {
+			t = fmt.Sprintf("List<%s>", ts.Items)
 		}
-		if ts.MaxSize != nil {
-			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
-		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("List<%s>%s", ts.Items, sopts)
+		opts = sizeOptions(ts, opts)
 	case "Map":
-		if ts.MinSize != nil {
-			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
-		}
-		if ts.MaxSize != nil {
-			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
+		if ts.Keys != "" && ts.Items != "" {
+			t = fmt.Sprintf("Map<%s,%s>", ts.Keys, ts.Items)
 		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
+		opts = sizeOptions(ts, opts)
+	case "UnitValue":
+		if ts.Value != "" && ts.Unit != "" {
+			t = fmt.Sprintf("UnitValue<%s,%s>", ts.Value, ts.Unit)
 		}
-		return fmt.Sprintf("Map<%s,%s>%s", ts.Keys, ts.Items, sopts)
-	case "Struct":
-		sopt := ""
-		if len(ts.Fields) > 0 {
-			s := fmt.Sprintf("Struct%s {\n", sopt)
-			blockLine := ""
-			for _, fd := range ts.Fields {
-				if len(fd.Comment) > 60 {
-					blockLine = "\n"
-					break
-				}
-			}
-			for _, fd := range ts.Fields {
-				com := ""
-				bcom := ""
-				if fd.Comment != "" {
-					if blockLine != "" {
-						bcom = g.FormatComment(indent+indentAmount, fd.Comment, 100, false)
-					} else {
-						com = " // " + fd.Comment
-					}
-				}
-				fopts := []string{}
-				if fd.Required {
-					fopts = append(fopts, "required")
-				}
-				fopts = append(fopts, annotationOptions(fd.Annotations)...)
-				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
-			}
-			return s + indent + "}"
-		}
-		return fmt.Sprintf("Struct\n")
-	case "Union":
-		if true {
-			s := fmt.Sprintf("Union {\n")
-			for _, fd := range ts.Variants {
-				com := ""
-				bcom := ""
-				if fd.Comment != "" {
-					if len(fd.Comment) > 100 {
-						bcom = g.FormatComment(indentAmount, fd.Comment, 100, false)
-					} else {
-						com = " // " + fd.Comment
-					}
-				}
-				fopts := []string{}
-				fopts = append(fopts, annotationOptions(fd.Annotations)...)
-				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
-			}
-			return s + "}"
-		} else {
-			s := fmt.Sprintf("Union<")
-			for i, v := range ts.Variants {
-				if i != 0 {
-					s += ","
-				}
-				s += v.Type
-			}
-			return s + ">"
-		}
-	default:
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("%s%s", ts.Type, sopts)
 	}
+	if ts.Reference != "" {
+		opts = append(opts, "reference="+ts.Reference)
+	}
+	return t + sadlOptions(append(opts, annotationOptions(annos)...))
+}
+
+func (g *SadlGenerator) sadlFieldSpec(fd *StructFieldDef, indent string) string {
+	var opts []string
+	if fd.Required {
+		opts = append(opts, "required")
+	}
+	if fd.Default != nil {
+		opts = append(opts, "default="+ToString(fd.Default))
+	}
+	return g.sadlTypeSpec(&fd.TypeSpec, opts, fd.Annotations, indent)
 }
 
 func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
@@ -245,7 +225,7 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 			opt = ""
 			com := ""
 			bcom := ""
-			ts := g.sadlTypeSpec(&in.TypeSpec, nil, indentAmount)
+			ts := g.sadlTypeSpec(&in.TypeSpec, nil, nil, indentAmount)
 			if in.Required {
 				opts = append(opts, "required")
 			}
@@ -268,7 +248,7 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 		for _, out := range op.Outputs {
 			com := ""
 			bcom := ""
-			ts := g.sadlTypeSpec(&out.TypeSpec, nil, indentAmount)
+			ts := g.sadlTypeSpec(&out.TypeSpec, nil, nil, indentAmount)
 			if out.Comment != "" {
 				if (len(out.Comment) + len(out.Name) + len(ts) + len(opt)) > 100 {
 					bcom = g.FormatComment("   ", out.Comment, 100, false)[3:] + "   "
@@ -359,7 +339,7 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
 	}
 	com := ""
 	bcom := ""
-	ts := g.sadlTypeSpec(&ps.TypeSpec, nil, indentAmount)
+	ts := g.sadlTypeSpec(&ps.TypeSpec, nil, nil, indentAmount)
 	if ps.Comment != "" {
 		if (len(ps.Comment) + len(ps.Name) + len(ts) + len(opt)) > 100 {
 			bcom = g.FormatComment("   ", ps.Comment, 100, false)[3:] + "   "
-- 
2.43.0


From 52b9a903ddf47a6c07bbe460194b379cd1231670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:59 +0000
Subject: [PATCH 129/134] fix: source written for operations, http actions, and
 examples keeps what was declared

---
 unparser.go | 121 ++++++++++++++++------------------------------------
 1 file changed, 36 insertions(+), 85 deletions(-)

diff --git a/unparser.go b/unparser.go
index ed76166..7f5c8fc 100644
--- a/unparser.go
+++ b/unparser.go
@@ -72,7 +72,11 @@ func (g *SadlGenerator) Generate() string {
 			return g.sadlHttpSpec(hact)
 		},
 		"example": func(ed *ExampleDef) string {
-			return fmt.Sprintf("example %s (name=%s) %s\n", ed.Target, ed.Name, Pretty(ed.Example))
+			name := ""
+			if ed.Name != "" {
+				name = fmt.Sprintf(" (name=%s)", ed.Name)
+			}
+			return fmt.Sprintf("example %s%s %s\n", ed.Target, name, Pretty(ed.Example))
 		},
 	}
 	g.Begin()
@@ -210,60 +214,33 @@ func (g *SadlGenerator) sadlFieldSpec(fd *StructFieldDef, indent string) string
 }
 
 func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
-	opts := annotationOptions(op.Annotations)
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
-	}
-	var s string
-	s = fmt.Sprintf("operation %s %s {\n", op.Name, opt)
-	//s = fmt.Sprintf("action %s %s %q%s {\n", hact.Name, hact.Method, hact.Path, opt)
+	indent := indentAmount + indentAmount
+	s := fmt.Sprintf("operation %s%s {\n", op.Name, AnnotationsAsString(op.Annotations))
 	if len(op.Inputs) > 0 {
 		s += indentAmount + "inputs {\n"
 		for _, in := range op.Inputs {
-			opts = nil
-			opt = ""
-			com := ""
-			bcom := ""
-			ts := g.sadlTypeSpec(&in.TypeSpec, nil, nil, indentAmount)
+			var opts []string
 			if in.Required {
 				opts = append(opts, "required")
 			}
-			if in.Comment != "" {
-				if (len(in.Comment) + len(in.Name) + len(ts) + len(opt)) > 100 {
-					bcom = g.FormatComment("   ", in.Comment, 100, false)[3:] + "   "
-				} else {
-					com = " // " + in.Comment
-				}
-			}
-			if len(opts) > 0 {
-				opt = " (" + strings.Join(opts, ", ") + ")"
-			}
-			s += indentAmount + indentAmount + bcom + in.Name + " " + in.Type + opt + com + "\n"
+			opt := sadlOptions(append(opts, annotationOptions(in.Annotations)...))
+			bcom, com := g.sadlComment(indent, in.Comment, len(in.Comment)+len(in.Name)+len(in.Type)+len(opt) > 100)
+			s += bcom + indent + in.Name + " " + in.Type + opt + com + "\n"
 		}
 		s += indentAmount + "}\n"
 	}
 	if len(op.Outputs) > 0 {
 		s += indentAmount + "outputs {\n"
 		for _, out := range op.Outputs {
-			com := ""
-			bcom := ""
-			ts := g.sadlTypeSpec(&out.TypeSpec, nil, nil, indentAmount)
-			if out.Comment != "" {
-				if (len(out.Comment) + len(out.Name) + len(ts) + len(opt)) > 100 {
-					bcom = g.FormatComment("   ", out.Comment, 100, false)[3:] + "   "
-				} else {
-					com = " // " + out.Comment
-				}
-			}
-			s += indentAmount + indentAmount + bcom + out.Name + " " + out.Type + opt + com + "\n"
+			bcom, com := g.sadlComment(indent, out.Comment, len(out.Comment)+len(out.Name)+len(out.Type) > 100)
+			s += bcom + indent + out.Name + " " + out.Type + com + "\n"
 		}
 		s += indentAmount + "}\n"
 	}
 	if len(op.Exceptions) > 0 {
 		s += indentAmount + "exceptions {\n"
 		for _, exc := range op.Exceptions {
-			s += fmt.Sprintf("%s%s\n", indentAmount+indentAmount, exc)
+			s += fmt.Sprintf("%s%s\n", indent, exc)
 		}
 		s += indentAmount + "}\n"
 	}
@@ -273,56 +250,42 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 
 func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	var opts []string
-	if hact.Name != "" {
-		if hact.Name != actionName(hact) {
-			opts = append(opts, "operation="+hact.Name)
-		}
+	if hact.Name != "" && (hact.Resource == "" || hact.Name != actionName(hact)) {
+		opts = append(opts, "operation="+hact.Name)
 	}
-	opts = append(opts, annotationOptions(hact.Annotations)...)
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
+	if hact.Resource != "" && (hact.Resource != resourceName(hact) || hact.Name != actionName(hact)) {
+		opts = append(opts, "resource="+hact.Resource)
 	}
-	var s string
-	s = fmt.Sprintf("http %s %q%s {\n", hact.Method, hact.Path, opt)
-	//s = fmt.Sprintf("action %s %s %q%s {\n", hact.Name, hact.Method, hact.Path, opt)
+	opts = append(opts, annotationOptions(hact.Annotations)...)
+	s := fmt.Sprintf("http %s %q%s {\n", hact.Method, hact.Path, sadlOptions(opts))
 	for _, in := range hact.Inputs {
-		s += indentAmount + g.sadlParamSpec(in)
+		s += g.sadlParamSpec(in, indentAmount)
 	}
-	bcom := ""
-	if hact.Expected == nil {
-		hact.Expected = &HttpExpectedSpec{
-			Status: 200,
+	if hact.Expected != nil {
+		bcom, _ := g.sadlComment(indentAmount, hact.Expected.Comment, true)
+		s += fmt.Sprintf("\n%s%sexpect %d%s {\n", bcom, indentAmount, hact.Expected.Status, AnnotationsAsString(hact.Expected.Annotations))
+		for _, out := range hact.Expected.Outputs {
+			s += g.sadlParamSpec(out, indentAmount+indentAmount)
 		}
+		s += indentAmount + "}\n"
 	}
-	if hact.Expected.Comment != "" {
-		bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
-	}
-	s += fmt.Sprintf("\n%s%sexpect %d {\n", bcom, indentAmount, hact.Expected.Status)
-	for _, out := range hact.Expected.Outputs {
-		s += indentAmount + indentAmount + g.sadlParamSpec(out)
-	}
-	s += "   }\n"
 	if len(hact.Exceptions) > 0 {
 		s += "\n"
 		for _, exc := range hact.Exceptions {
-			bcom := ""
-			if exc.Comment != "" {
-				bcom = g.FormatComment(indentAmount, exc.Comment, 100, false)
-			}
-			if exc.Status == 0 {
-				s += fmt.Sprintf("%s%sexcept %s\n", bcom, indentAmount, exc.Type)
-			} else {
+			bcom, _ := g.sadlComment(indentAmount, exc.Comment, true)
+			status := ""
+			if exc.Status != 0 {
 				//todo: header outputs
-				s += fmt.Sprintf("%s%sexcept %d %s\n", bcom, indentAmount, exc.Status, exc.Type)
+				status = fmt.Sprintf("%d ", exc.Status)
 			}
+			s += fmt.Sprintf("%s%sexcept %s%s%s\n", bcom, indentAmount, status, exc.Type, AnnotationsAsString(exc.Annotations))
 		}
 	}
 	s += "}\n"
 	return s
 }
 
-func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
+func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec, indent string) string {
 	var opts []string
 	if ps.Required {
 		opts = append(opts, "required")
@@ -333,21 +296,9 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
 	if ps.Header != "" {
 		opts = append(opts, fmt.Sprintf("header=%q", ps.Header))
 	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
-	}
-	com := ""
-	bcom := ""
-	ts := g.sadlTypeSpec(&ps.TypeSpec, nil, nil, indentAmount)
-	if ps.Comment != "" {
-		if (len(ps.Comment) + len(ps.Name) + len(ts) + len(opt)) > 100 {
-			bcom = g.FormatComment("   ", ps.Comment, 100, false)[3:] + "   "
-		} else {
-			com = " // " + ps.Comment
-		}
-	}
-	return bcom + ps.Name + " " + ts + opt + com + "\n"
+	ts := g.sadlTypeSpec(&ps.TypeSpec, opts, ps.Annotations, indent)
+	bcom, com := g.sadlComment(indent, ps.Comment, len(ps.Comment)+len(ps.Name)+len(ts) > 100)
+	return bcom + indent + ps.Name + " " + ts + com + "\n"
 }
 
 func stringList(lst []string) string {
-- 
2.43.0


From 3396773e7f10f573fb146e103f3977b0e85ade82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:43 +0000
Subject: [PATCH 130/134] fix: an empty array in a source is an empty array,
 not null

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 7074700..bb4363c 100644
--- a/parser.go
+++ b/parser.go
@@ -1851,7 +1851,7 @@ func (p *Parser) parseLiteralNumber(tok *scanner.Token) (interface{}, error) {
 }
 
 func (p *Parser) parseLiteralArray() (interface{}, error) {
-	var ary []interface{}
+	ary := make([]interface{}, 0)
 	for {
 		tok := p.GetToken()
 		if tok == nil {
-- 
2.43.0


From f2ac32a7f17c79f551eb532a2e2c8276625f18f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:44 +0000
Subject: [PATCH 131/134] fix: a file that includes itself is an error

---
 parser.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/parser.go b/parser.go
index bb4363c..470e6d9 100644
--- a/parser.go
+++ b/parser.go
@@ -11,7 +11,7 @@ import (
 )
 
 func ParseSadlFile(path string, conf *Data, extensions ...Extension) (*Model, error) {
-	p, err := parseFileNoValidate(path, conf, extensions)
+	p, err := parseFileNoValidate(path, conf, extensions, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -67,6 +67,7 @@ type Parser struct {
 	prevLastToken  *scanner.Token
 	ungottenToken  *scanner.Token
 	atEnd          bool
+	includedFrom   []string
 	currentComment string
 	extensions     map[string]Extension
 }
@@ -78,17 +79,23 @@ type Extension interface {
 	Validate(p *Parser) error
 }
 
-func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Parser, error) {
+func parseFileNoValidate(path string, conf *Data, extensions []Extension, includedFrom []string) (*Parser, error) {
+	for _, from := range includedFrom {
+		if from == path {
+			return nil, fmt.Errorf("File includes itself: %q", path)
+		}
+	}
 	b, err := ioutil.ReadFile(path)
 	if err != nil {
 		return nil, err
 	}
 	src := string(b)
 	p := &Parser{
-		scanner: scanner.NewScanner(strings.NewReader(src)),
-		path:    path,
-		source:  src,
-		conf:    conf,
+		scanner:      scanner.NewScanner(strings.NewReader(src)),
+		path:         path,
+		source:       src,
+		conf:         conf,
+		includedFrom: append(includedFrom[:len(includedFrom):len(includedFrom)], path),
 	}
 	err = p.ParseNoValidate(extensions)
 	if err != nil {
@@ -337,7 +344,7 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 	fname, err := p.ExpectString()
 	if err == nil {
 		var incparser *Parser
-		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList())
+		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList(), p.includedFrom)
 		if err == nil {
 			inc := incparser.model
 			tmpModel, err := NewModel(p.schema)
-- 
2.43.0


From 3cfe345a6a2e34f17f62446910bb94b83fce9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:33 +0000
Subject: [PATCH 132/134] fix: java server defaults that are large numbers

---
 java/java_server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/java_server.go b/java/java_server.go
index ea51a68..2d21769 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -207,6 +207,8 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					switch b := in.Default.(type) {
 					case *string:
 						text = *b
+					case *sadl.Decimal:
+						text = b.String()
 					case sadl.Decimal:
 						text = b.String()
 					case float64:
-- 
2.43.0


From 79b65bf4e1e6b6ae34714419080691a0c3317984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:00 +0000
Subject: [PATCH 133/134] fix: a java server or client made without the model
 imports the model's package

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 14447df..341f3dd 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -127,9 +127,9 @@ func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generato
 	gen.Model = model
 	gen.OutDir = outdir
 	gen.EnsurePackageDir(gen.Package)
+	gen.ModelPackage = gen.GetConfigString("model-package", pkg+".model") //the server and client import it, also when made alone
 	if gen.GetConfigBool("model", true) {
 		gen.ModelCode = true
-		gen.ModelPackage = gen.GetConfigString("model-package", pkg+".model")
 		gen.EnsurePackageDir(gen.ModelPackage)
 	}
 	if gen.GetConfigBool("server", false) {
-- 
2.43.0


From eeaa7202c5c0e7700e1b3039382b1ffa6ef17752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:29 +0000
Subject: [PATCH 134/134] fix: a directive that there is none of is an error

---
 parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 470e6d9..a0c006e 100644
--- a/parser.go
+++ b/parser.go
@@ -218,11 +218,11 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 					p.schema.Annotations, comment, err = p.parseExtendedOptionTopLevel(p.schema.Annotations, tok.Text)
 					p.schema.Comment = p.MergeComment(p.schema.Comment, comment)
 				} else {
-					if p.extensions != nil {
-						if handler, ok := p.extensions[tok.Text]; ok {
-							p.currentComment = comment
-							err = handler.Parse(p)
-						}
+					if handler, ok := p.extensions[tok.Text]; ok {
+						p.currentComment = comment
+						err = handler.Parse(p)
+					} else {
+						err = p.expectedDirectiveError()
 					}
 				}
 			}
-- 
2.43.0

