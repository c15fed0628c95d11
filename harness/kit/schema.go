package kit

import (
	"encoding/json"
	"fmt"
	"sort"

	"github.com/boynton/sadl"
)

// The abstract schema of the specification (spec/Schema.tla) as JSON: every
// record has all its fields, an option is a list of at most one element, a map
// is a list of pairs.  ToSchema and FromSchema translate to and from sadl.Schema.

func opt64(in J, k string) *int64 {
	l := List(in, k)
	if len(l) == 0 {
		return nil
	}
	n := int64(l[0].(float64))
	return &n
}

func optDec(in J, k string) *sadl.Decimal {
	l := List(in, k)
	if len(l) == 0 {
		return nil
	}
	d, err := sadl.ParseDecimal(l[0].(string))
	if err != nil {
		panic("bad decimal in a case: " + err.Error())
	}
	return d
}

func annos(in J) map[string]string {
	l := List(in, "annos")
	if len(l) == 0 {
		return nil
	}
	m := map[string]string{}
	for _, e := range l {
		p := e.([]interface{})
		m[p[0].(string)] = p[1].(string)
	}
	return m
}

// Value turns an abstract value into what the parser produces (string
// pointers, Decimals); plain gives strings rather than pointers.
func Value(v J, plain bool) interface{} {
	switch Str(v, "k") {
	case "null":
		return nil
	case "str":
		s := Str(v, "s")
		if plain {
			return s
		}
		return &s
	case "num":
		d, err := sadl.ParseDecimal(Str(v, "n"))
		if err != nil {
			panic("bad number in a case: " + err.Error())
		}
		return d
	case "bool":
		return Bool(v, "b")
	case "arr":
		a := make([]interface{}, 0)
		for _, e := range List(v, "a") {
			a = append(a, Value(e.(J), plain))
		}
		return a
	case "obj":
		m := make(map[string]interface{}, 0)
		for _, e := range List(v, "o") {
			kv := e.(J)
			m[Str(kv, "n")] = Value(Sub(kv, "v"), plain)
		}
		return m
	}
	panic(fmt.Sprintf("bad value in a case: %v", v))
}

// AbsValue is the inverse, also for values that come from encoding/json.
func AbsValue(v interface{}) J {
	switch x := v.(type) {
	case nil:
		return J{"k": "null"}
	case string:
		return J{"k": "str", "s": x}
	case *string:
		return J{"k": "str", "s": *x}
	case bool:
		return J{"k": "bool", "b": x}
	case *bool:
		return J{"k": "bool", "b": *x}
	case *sadl.Decimal:
		if x == nil {
			return J{"k": "null"}
		}
		return J{"k": "num", "n": x.String()}
	case sadl.Decimal:
		return J{"k": "num", "n": x.String()}
	case float64:
		return J{"k": "num", "n": sadl.NewDecimal(x).String()}
	case json.Number:
		return J{"k": "num", "n": x.String()}
	case int, int64, int32, int16, int8, uint, uint64, uint32:
		return J{"k": "num", "n": fmt.Sprint(x)}
	case []interface{}:
		a := make([]interface{}, 0)
		for _, e := range x {
			a = append(a, AbsValue(e))
		}
		return J{"k": "arr", "a": a}
	case []string:
		a := make([]interface{}, 0)
		for _, e := range x {
			a = append(a, AbsValue(e))
		}
		return J{"k": "arr", "a": a}
	case map[string]interface{}:
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		o := make([]interface{}, 0)
		for _, k := range keys {
			o = append(o, J{"n": k, "v": AbsValue(x[k])})
		}
		return J{"k": "obj", "o": o}
	}
	return J{"k": "other", "t": fmt.Sprintf("%T", v)}
}

func ToTypeSpec(in J) sadl.TypeSpec {
	ts := sadl.TypeSpec{
		Type:      Str(in, "type"),
		Pattern:   Str(in, "pattern"),
		MinSize:   opt64(in, "minsize"),
		MaxSize:   opt64(in, "maxsize"),
		Min:       optDec(in, "min"),
		Max:       optDec(in, "max"),
		Items:     Str(in, "items"),
		Keys:      Str(in, "keys"),
		Unit:      Str(in, "unit"),
		Value:     Str(in, "value"),
		Reference: Str(in, "reference"),
	}
	if vs := Strs(in, "values"); len(vs) > 0 {
		ts.Values = vs
	}
	for _, f := range List(in, "fields") {
		fd := ToField(f.(J))
		ts.Fields = append(ts.Fields, &fd)
	}
	for _, e := range List(in, "elements") {
		el := e.(J)
		ts.Elements = append(ts.Elements, &sadl.EnumElementDef{Symbol: Str(el, "symbol"), Comment: Str(el, "comment"), Annotations: annos(el)})
	}
	for _, e := range List(in, "variants") {
		v := e.(J)
		ts.Variants = append(ts.Variants, &sadl.UnionVariantDef{Name: Str(v, "name"), Comment: Str(v, "comment"), Annotations: annos(v), TypeSpec: sadl.TypeSpec{Type: Str(v, "type")}})
	}
	return ts
}

func ToField(f J) sadl.StructFieldDef {
	fd := sadl.StructFieldDef{
		Name:        Str(f, "name"),
		Comment:     Str(f, "comment"),
		Annotations: annos(f),
		Required:    Bool(f, "required"),
		TypeSpec:    ToTypeSpec(Sub(f, "ts")),
	}
	if d := List(f, "default"); len(d) > 0 {
		fd.Default = Value(d[0].(J), false)
	}
	return fd
}

func toParam(p J) *sadl.HttpParamSpec {
	return &sadl.HttpParamSpec{Header: Str(p, "header"), Query: Str(p, "query"), Path: Bool(p, "path"), StructFieldDef: ToField(p)}
}

func ToTypeDef(t J) *sadl.TypeDef {
	return &sadl.TypeDef{Name: Str(t, "name"), Comment: Str(t, "comment"), Annotations: annos(t), TypeSpec: ToTypeSpec(Sub(t, "ts"))}
}

func ToHttp(h J) *sadl.HttpDef {
	hd := &sadl.HttpDef{Name: Str(h, "name"), Resource: Str(h, "resource"), Comment: Str(h, "comment"), Annotations: annos(h), Method: Str(h, "method"), Path: Str(h, "path")}
	for _, p := range List(h, "inputs") {
		hd.Inputs = append(hd.Inputs, toParam(p.(J)))
	}
	for _, e := range List(h, "expected") {
		ex := e.(J)
		hd.Expected = &sadl.HttpExpectedSpec{Status: int32(Int(ex, "status")), Comment: Str(ex, "comment"), Annotations: annos(ex)}
		for _, p := range List(ex, "outputs") {
			hd.Expected.Outputs = append(hd.Expected.Outputs, toParam(p.(J)))
		}
	}
	for _, e := range List(h, "exceptions") {
		ex := e.(J)
		hd.Exceptions = append(hd.Exceptions, &sadl.HttpExceptionSpec{Type: Str(ex, "type"), Status: int32(Int(ex, "status")), Comment: Str(ex, "comment"), Annotations: annos(ex)})
	}
	return hd
}

func ToSchema(s J) *sadl.Schema { return ToSchemaMode(s, false) }

// ToSchemaMode with plain values gives examples as a JSON file would (plain strings).
func ToSchemaMode(s J, plain bool) *sadl.Schema {
	r := &sadl.Schema{Sadl: sadl.Version, Name: Str(s, "name"), Namespace: Str(s, "namespace"), Version: Str(s, "version"), Comment: Str(s, "comment"), Base: Str(s, "base"), Annotations: annos(s)}
	for _, t := range List(s, "types") {
		r.Types = append(r.Types, ToTypeDef(t.(J)))
	}
	for _, h := range List(s, "http") {
		r.Http = append(r.Http, ToHttp(h.(J)))
	}
	for _, e := range List(s, "examples") {
		ex := e.(J)
		r.Examples = append(r.Examples, &sadl.ExampleDef{Target: Str(ex, "target"), Name: Str(ex, "name"), Comment: Str(ex, "comment"), Example: Value(Sub(ex, "example"), plain), Annotations: annos(ex)})
	}
	for _, e := range List(s, "operations") {
		op := e.(J)
		od := &sadl.OperationDef{Name: Str(op, "name"), Comment: Str(op, "comment"), Annotations: annos(op)}
		if l := Strs(op, "exceptions"); len(l) > 0 {
			od.Exceptions = l
		}
		for _, i := range List(op, "inputs") {
			od.Inputs = append(od.Inputs, &sadl.OperationInput{StructFieldDef: ToField(i.(J))})
		}
		for _, i := range List(op, "outputs") {
			f := ToField(i.(J))
			od.Outputs = append(od.Outputs, &sadl.OperationOutput{Name: f.Name, Comment: f.Comment, Annotations: f.Annotations, TypeSpec: f.TypeSpec})
		}
		r.Operations = append(r.Operations, od)
	}
	return r
}

func absAnnos(m map[string]string) []interface{} {
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r := []interface{}{}
	for _, k := range keys {
		r = append(r, []interface{}{k, m[k]})
	}
	return r
}

func abs64(p *int64) []interface{} {
	if p == nil {
		return []interface{}{}
	}
	if *p > 2000000000 || *p < -2000000000 { // beyond TLC's integers
		return []interface{}{2000000000}
	}
	return []interface{}{*p}
}

func absDec(p *sadl.Decimal) []interface{} {
	if p == nil {
		return []interface{}{}
	}
	return []interface{}{p.String()}
}

func strsOf(l []string) []interface{} {
	r := []interface{}{}
	for _, s := range l {
		r = append(r, s)
	}
	return r
}

func FromTypeSpec(ts *sadl.TypeSpec) J {
	fields := []interface{}{}
	for _, f := range ts.Fields {
		fields = append(fields, FromField(f))
	}
	elements := []interface{}{}
	for _, e := range ts.Elements {
		elements = append(elements, J{"symbol": e.Symbol, "comment": e.Comment, "annos": absAnnos(e.Annotations)})
	}
	variants := []interface{}{}
	for _, v := range ts.Variants {
		variants = append(variants, J{"name": v.Name, "comment": v.Comment, "annos": absAnnos(v.Annotations), "type": v.Type})
	}
	return J{"type": ts.Type, "pattern": ts.Pattern, "values": strsOf(ts.Values), "minsize": abs64(ts.MinSize), "maxsize": abs64(ts.MaxSize),
		"min": absDec(ts.Min), "max": absDec(ts.Max), "items": ts.Items, "keys": ts.Keys, "unit": ts.Unit, "value": ts.Value, "reference": ts.Reference,
		"fields": fields, "elements": elements, "variants": variants}
}

func FromField(f *sadl.StructFieldDef) J {
	def := []interface{}{}
	if f.Default != nil {
		def = append(def, AbsValue(f.Default))
	}
	return J{"name": f.Name, "comment": f.Comment, "annos": absAnnos(f.Annotations), "required": f.Required, "default": def, "ts": FromTypeSpec(&f.TypeSpec)}
}

func fromParam(p *sadl.HttpParamSpec) J {
	j := FromField(&p.StructFieldDef)
	j["header"], j["query"], j["path"] = p.Header, p.Query, p.Path
	return j
}

func FromTypeDef(t *sadl.TypeDef) J {
	return J{"name": t.Name, "comment": t.Comment, "annos": absAnnos(t.Annotations), "ts": FromTypeSpec(&t.TypeSpec)}
}

func FromHttp(h *sadl.HttpDef) J {
	ins := []interface{}{}
	for _, p := range h.Inputs {
		ins = append(ins, fromParam(p))
	}
	exp := []interface{}{}
	if h.Expected != nil {
		outs := []interface{}{}
		for _, p := range h.Expected.Outputs {
			outs = append(outs, fromParam(p))
		}
		exp = append(exp, J{"status": h.Expected.Status, "comment": h.Expected.Comment, "annos": absAnnos(h.Expected.Annotations), "outputs": outs})
	}
	exc := []interface{}{}
	for _, e := range h.Exceptions {
		exc = append(exc, J{"type": e.Type, "status": e.Status, "comment": e.Comment, "annos": absAnnos(e.Annotations)})
	}
	return J{"name": h.Name, "resource": h.Resource, "comment": h.Comment, "annos": absAnnos(h.Annotations), "method": h.Method, "path": h.Path, "inputs": ins, "expected": exp, "exceptions": exc}
}

func FromSchema(s *sadl.Schema) J {
	types := []interface{}{}
	for _, t := range s.Types {
		types = append(types, FromTypeDef(t))
	}
	http := []interface{}{}
	for _, h := range s.Http {
		http = append(http, FromHttp(h))
	}
	exs := []interface{}{}
	for _, e := range s.Examples {
		exs = append(exs, J{"target": e.Target, "name": e.Name, "comment": e.Comment, "annos": absAnnos(e.Annotations), "example": AbsValue(e.Example)})
	}
	ops := []interface{}{}
	for _, o := range s.Operations {
		ins := []interface{}{}
		for _, i := range o.Inputs {
			ins = append(ins, FromField(&i.StructFieldDef))
		}
		outs := []interface{}{}
		for _, i := range o.Outputs {
			outs = append(outs, FromField(&sadl.StructFieldDef{Name: i.Name, Comment: i.Comment, Annotations: i.Annotations, TypeSpec: i.TypeSpec}))
		}
		ops = append(ops, J{"name": o.Name, "comment": o.Comment, "annos": absAnnos(o.Annotations), "inputs": ins, "outputs": outs, "exceptions": strsOf(o.Exceptions)})
	}
	return J{"name": s.Name, "namespace": s.Namespace, "version": s.Version, "comment": s.Comment, "base": s.Base, "annos": absAnnos(s.Annotations),
		"types": types, "http": http, "examples": exs, "operations": ops}
}
