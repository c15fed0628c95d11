------------------------------ MODULE JavaGen -------------------------------
(* The Java code of a schema: its classes, what they require of their fields,
   and the JSON they read and write.  P25. *)
EXTENDS GoGen

Option(conf, k, d) == LET a == AnnoGet(conf, k) IN IF a = <<>> THEN d ELSE a[1] = "true"
Immutable(conf) == Option(conf, "immutable", TRUE)
Instants(conf) == Option(conf, "instants", TRUE)
Pretty(conf) == Option(conf, "json", FALSE)
ServiceExc(conf) == Option(conf, "service-exception", FALSE)

---------------------------------------------------------------------------
(* what can be generated *)
Keywords == {"abstract", "assert", "boolean", "break", "byte", "case", "catch", "char", "class", "const", "continue", "default", "do", "double", "else", "enum",
             "extends", "final", "finally", "float", "for", "goto", "if", "implements", "import", "instanceof", "int", "interface", "long", "native", "new",
             "package", "private", "protected", "public", "return", "short", "static", "strictfp", "super", "switch", "synchronized", "this", "throw", "throws",
             "transient", "try", "void", "volatile", "while", "true", "false", "null", "_"}
ClassKinds == {"Struct", "Enum", "Union", "UnitValue"}
InlineStruct(ts) == ts.type = "Struct" /\ ts.fields # <<>>
JUsable(S, n) == n \notin {"Enum", "Union", "UnitValue"} /\ (n = "" \/ Defined(S, n))
RECURSIVE JSpecOk(_, _, _, _)
JFieldsOk(S, cls, fs) == \A i \in 1..Len(fs) : fs[i].name \notin Keywords /\ JSpecOk(S, cls, fs[i].name, fs[i].ts)
JSpecOk(S, cls, name, ts) ==
    /\ JUsable(S, ts.type) /\ ts.type # ""
    /\ ts.type = "Array" => JUsable(S, ts.items)
    /\ ts.type = "Map" => JUsable(S, ts.items) /\ JUsable(S, ts.keys)
    /\ InlineStruct(ts) => Cap(name) # cls /\ JFieldsOk(S, Cap(name), ts.fields)
UnitOk(S, ts) == /\ ts.value # "" /\ ts.unit # "" /\ JUsable(S, ts.value) /\ JUsable(S, ts.unit)
                 /\ BaseOf(S, ts.value) \in NumericTypes /\ BaseOf(S, ts.unit) \in {"String", "Enum"}
JDefOk(S, td) ==
    LET ts == td.ts IN
    CASE ts.type = "Enum" -> \A i \in 1..Len(ts.elements) : ts.elements[i].symbol \notin Keywords
      [] ts.type = "Struct" -> JFieldsOk(S, Cap(td.name), ts.fields)
      [] ts.type = "Union" -> \A i \in 1..Len(ts.variants) : ts.variants[i].name \notin Keywords /\ JSpecOk(S, Cap(td.name), ts.variants[i].name, OfType(ts.variants[i].type))
      [] ts.type = "UnitValue" -> UnitOk(S, ts)
      [] OTHER -> TRUE      \* no class: what is used of it is looked at there
\* a name for a type that cannot be referred to
RECURSIVE AliasOk(_, _)
AliasOk(S, n) == IF ~Declared(S, n) THEN JUsable(S, n)
                 ELSE LET ts == TypeOf(S, n) IN
                      ts.type \in ClassKinds \/ (AliasOk(S, ts.type) /\ (ts.type \in {"Array", "Map"} => (ts.items = "" \/ AliasOk(S, ts.items)) /\ (ts.keys = "" \/ AliasOk(S, ts.keys))))
SpecAliasOk(S, ts) == ts.type \in ClassKinds \/ (AliasOk(S, ts.type) /\ (ts.type \in {"Array", "Map"} => (ts.items = "" \/ AliasOk(S, ts.items)) /\ (ts.keys = "" \/ AliasOk(S, ts.keys))))
Throwable(S, n) == Declared(S, n) /\ BaseOf(S, n) \in {"Struct", "Union"} /\ Declared(S, RealName(S, n)) /\ TypeOf(S, RealName(S, n)).type \in {"Struct", "Union"}
ParamsOk(S, cls, ps) == \A p \in SeqSet(ps) : p.name \notin Keywords /\ JSpecOk(S, cls, p.name, p.ts) /\ SpecAliasOk(S, p.ts)
JavaOk(S) ==
    /\ \A i \in 1..Len(S.types) : JDefOk(S, S.types[i])
    /\ \A i \in 1..Len(S.http) : LET h == S.http[i] c == Cap(h.name) IN
         ParamsOk(S, c \o "Request", h.inputs) /\ ParamsOk(S, c \o "Response", Outputs(h)) /\ \A j \in 1..Len(h.exceptions) : Throwable(S, h.exceptions[j].type)

---------------------------------------------------------------------------
(* types of fields *)
Prims == {"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64"}
Primitive(t) == CASE t = "Bool" -> "boolean" [] t = "Int8" -> "byte" [] t = "Int16" -> "short" [] t = "Int32" -> "int" [] t = "Int64" -> "long" [] t = "Float32" -> "float" [] t = "Float64" -> "double"
Boxed(t) == CASE t = "Int32" -> "Integer" [] OTHER -> Cap(Primitive(t))
\* the type that a name stands for: <<>> for a class, else its definition
JClass(S, n) == Declared(S, n) /\ TypeOf(S, n).type \in ClassKinds
RECURSIVE JEnd(_, _)
JEnd(S, ts) == IF Declared(S, ts.type) /\ ~JClass(S, ts.type) THEN JEnd(S, TypeOf(S, ts.type)) ELSE ts
RECURSIVE JavaRef(_, _, _, _, _)
JavaRef(S, cls, name, ts0, req) == \* req, as the times too: <<required, instants>>
    LET ts == JEnd(S, ts0)
        of(n, d) == IF n = "" THEN d ELSE JavaRef(S, "", "", OfType(n), <<FALSE, req[2]>>) IN
    CASE ts.type \in Prims -> IF req[1] THEN Primitive(ts.type) ELSE Boxed(ts.type)
      [] ts.type = "String" -> "String"
      [] ts.type = "Decimal" -> "BigDecimal"
      [] ts.type = "Timestamp" -> IF req[2] THEN "Instant" ELSE "Timestamp"
      [] ts.type = "UUID" -> "UUID"
      [] ts.type = "Bytes" -> "byte[]"
      [] ts.type = "Any" -> "Object"
      [] ts.type = "Array" -> "List<" \o of(ts.items, "Object") \o ">"
      [] ts.type = "Map" -> "Map<" \o of(ts.keys, "String") \o "," \o of(ts.items, "Object") \o ">"
      [] ts.type = "Struct" -> IF ts.fields = <<>> THEN "Map<String,Object>" ELSE cls \o "." \o Cap(name)
      [] OTHER -> Cap(ts.type)
JRules(S, ts0, req) ==
    LET ts == JEnd(S, ts0) IN
    (IF req /\ ts.type \notin Prims THEN {"notnull"} ELSE {})
    \cup (IF ts.type # "String" THEN {}
          ELSE (IF ts.pattern = "" THEN {} ELSE {"pattern " \o ts.pattern})
               \cup (IF ts.minsize = <<>> \/ ts.minsize[1] = 0 THEN {} ELSE {"minsize " \o NatStr(ts.minsize[1])})
               \cup (IF ts.maxsize = <<>> THEN {} ELSE {"maxsize " \o NatStr(ts.maxsize[1])}))
    \cup (IF ts.type \notin NumericTypes THEN {}
          ELSE (IF ts.min = <<>> THEN {} ELSE {"min " \o Plain(ts.min[1])}) \cup (IF ts.max = <<>> THEN {} ELSE {"max " \o Plain(ts.max[1])}))

---------------------------------------------------------------------------
(* classes *)
JClass0 == [name |-> "", kind |-> "class", exc |-> FALSE, fields |-> <<>>, consts |-> <<>>, methods |-> {}]
JField(n, t, acc, rules) == [n |-> n, t |-> t, acc |-> acc, rules |-> rules]
JFields(S, cls, fs, conf) == SeqMap(fs, LAMBDA f : JField(f.name, JavaRef(S, cls, f.name, f.ts, <<f.required, Instants(conf)>>), IF Immutable(conf) THEN "private final" ELSE "public", JRules(S, f.ts, f.required)))
JRaised(S) == { RealName(S, n) : n \in Raised(S) }
JDecl(S, td, conf) ==
    LET ts == td.ts
        c == [JClass0 EXCEPT !.name = Cap(td.name), !.exc = td.name \in JRaised(S) /\ ~ServiceExc(conf)] IN
    CASE ts.type = "Struct" -> [c EXCEPT !.fields = JFields(S, Cap(td.name), ts.fields, conf)]
      [] ts.type = "Enum" -> [c EXCEPT !.kind = "enum", !.consts = SeqMap(ts.elements, LAMBDA e : <<e.symbol, EnumText(e), e.symbol>>)]
      [] ts.type = "Union" -> [c EXCEPT !.consts = SeqMap(ts.variants, LAMBDA v : <<v.name>>),
                                 !.fields = <<JField("variant", Cap(td.name) \o ".Variant", "public", {})>>
                                            \o SeqMap(ts.variants, LAMBDA v : JField(v.name, JavaRef(S, Cap(td.name), v.name, OfType(v.type), <<FALSE, Instants(conf)>>), "public final", JRules(S, OfType(v.type), FALSE)))]
      [] ts.type = "UnitValue" -> [c EXCEPT !.fields = <<JField("value", JavaRef(S, "", "", OfType(ts.value), <<TRUE, TRUE>>), "public final", {}),
                                                         JField("unit", JavaRef(S, "", "", OfType(ts.unit), <<TRUE, TRUE>>), "public final", {})>>]
JTypes(S, conf) ==
    { JDecl(S, S.types[i], conf) : i \in { k \in 1..Len(S.types) : S.types[k].ts.type \in ClassKinds } }
    \cup UNION { LET h == S.http[i] c == Cap(h.name) IN
                 { [JClass0 EXCEPT !.name = c \o "Request", !.fields = JFields(S, c \o "Request", h.inputs, conf)],
                   [JClass0 EXCEPT !.name = c \o "Response", !.fields = JFields(S, c \o "Response", Outputs(h), conf)] } : i \in 1..Len(S.http) }
    \cup { [JClass0 EXCEPT !.name = GoService(S, conf), !.kind = "interface",
              !.methods = { LET c == Cap(S.http[i].name) IN [n |-> Uncap(c), in |-> <<c \o "Request">>, out |-> c \o "Response"] : i \in 1..Len(S.http) }] }
\* files
JPkg(S, conf) ==
    LET p == Opt(AnnoGet(conf, "package"), "")
        d == Opt(AnnoGet(conf, "domain"), "")
        rev(s) == LET q == Split(s, ".") IN Join([i \in 1..Len(q) |-> q[Len(q) + 1 - i]], ".") IN
    IF p # "" THEN p ELSE IF d # "" THEN rev(d) ELSE IF S.namespace # "" THEN S.namespace ELSE "example.vf"
JModelPkg(S, conf) == Opt(AnnoGet(conf, "model-package"), JPkg(S, conf) \o ".model")
JSource(conf) == Opt(AnnoGet(conf, "source"), "src/main/java")
JPath(conf, pkg, n) == JSource(conf) \o "/" \o (IF pkg = "" THEN "" ELSE Replace(pkg, ".", "/") \o "/") \o n \o ".java"
JModelFiles(S, conf) == { JPath(conf, JModelPkg(S, conf), c.name) : c \in JTypes(S, conf) } \cup (IF ServiceExc(conf) THEN {JPath(conf, JModelPkg(S, conf), "ServiceException")} ELSE {})
JHelpers(S, conf) == { JPath(conf, JModelPkg(S, conf), n) : n \in {"Util", "Timestamp"} }

---------------------------------------------------------------------------
(* values: what is written of a value of the type that was read *)
JEmpty(v) == (v.k = "str" /\ v.s = "") \/ (v.k = "arr" /\ v.a = <<>>) \/ (v.k = "obj" /\ v.o = <<>>)
\* an optional field that holds nothing is left out; objects of a class are never nothing, nor are texts of one
JLeft(S, ts0, v) == LET ts == JEnd(S, ts0) IN ts.type \in {"String", "Bytes", "Array", "Map", "Any"} \cup (IF InlineStruct(ts) THEN {} ELSE {"Struct"}) /\ JEmpty(v)
RECURSIVE JKeep(_, _, _)
JMembers(S, fs, v) == \* fs: [n, ts, opt]
    LET there == Filter(fs, LAMBDA f : f.n \in ObjKeys(v) /\ ~(f.opt /\ JLeft(S, f.ts, ObjGet(v, f.n)))) IN
    VObj(SeqMap(there, LAMBDA f : Pair(f.n, JKeep(S, f.ts, ObjGet(v, f.n)))))
JKeep(S, ts0, v) ==
    LET ts == JEnd(S, ts0) IN
    CASE ts.type = "Array" -> VArr(SeqMap(v.a, LAMBDA e : JKeep(S, OfType(IF ts.items = "" THEN "Any" ELSE ts.items), e)))
      [] ts.type = "Map" -> VObj(SeqMap(v.o, LAMBDA e : Pair(e.n, JKeep(S, OfType(IF ts.items = "" THEN "Any" ELSE ts.items), e.v))))
      [] InlineStruct(ts) -> JMembers(S, SeqMap(ts.fields, LAMBDA f : [n |-> f.name, ts |-> f.ts, opt |-> ~f.required]), v)
      [] JClass(S, ts.type) -> LET d == TypeOf(S, ts.type) IN
           CASE d.type = "Struct" -> JMembers(S, SeqMap(d.fields, LAMBDA f : [n |-> f.name, ts |-> f.ts, opt |-> ~f.required]), v)
             [] d.type = "Union" -> JMembers(S, SeqMap(d.variants, LAMBDA f : [n |-> f.name, ts |-> OfType(f.type), opt |-> FALSE]), v)
             [] OTHER -> v
      [] OTHER -> v
=============================================================================
