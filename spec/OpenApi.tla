------------------------------ MODULE OpenApi -------------------------------
(* OpenAPI 3 and Swagger 2 documents, and what the conversions to and from SADL
   are:  ToOas (P13, P14), FromOas (P15, P16), V3 (P17), and the round trip (P18).
   A reference is the bare name of the schema it refers to. *)
EXTENDS Model, Lists

OS0 == [ref |-> "", type |-> "", format |-> "", desc |-> "", enum |-> <<>>, example |-> <<>>, min |-> <<>>, max |-> <<>>,
        minlen |-> 0, maxlen |-> <<>>, pattern |-> "", minitems |-> 0, maxitems |-> <<>>, items |-> <<>>, required |-> <<>>,
        props |-> <<>>, minprops |-> 0, maxprops |-> <<>>, addl |-> <<>>, oneof |-> <<>>]
Prop(n, s) == [n |-> n, s |-> s]
RefTo(n) == [OS0 EXCEPT !.ref = n]
OsType(t) == [OS0 EXCEPT !.type = t]
OParam0 == [name |-> "", in |-> "query", desc |-> "", required |-> FALSE, schema |-> <<>>, example |-> <<>>, examples |-> <<>>]
OMedia0 == [mt |-> "application/json", schema |-> <<>>, example |-> <<>>, examples |-> <<>>]
OBody0 == [desc |-> "", required |-> FALSE, content |-> <<>>]
OResp0 == [status |-> "200", desc |-> "", headers |-> <<>>, content |-> <<>>]
OOp0 == [id |-> "", summary |-> "", tags |-> <<>>, params |-> <<>>, body |-> <<>>, resps |-> <<>>]
Doc0 == [openapi |-> "3.0.0", title |-> "", desc |-> "", version |-> "", license |-> <<>>, terms |-> "", contact |-> <<>>, docs |-> <<>>, servers |-> <<>>, schemas |-> <<>>, paths |-> <<>>, nopaths |-> FALSE]

---------------------------------------------------------------------------
(* P13: a SADL type as a schema *)
NumOas(t) == CASE t \in {"Int8", "Int16", "Int32"} -> <<"integer", "int32">>
               [] t = "Int64" -> <<"integer", "int64">>
               [] t = "Float32" -> <<"number", "float">>
               [] t = "Float64" -> <<"number", "double">>
               [] t = "Decimal" -> <<"number", "">>
RECURSIVE Os(_, _, _)
\* base types have no schema of their own to refer to
ItemOs(S, it) == IF it = "" THEN OS0
                 ELSE IF Declared(S, it) THEN Os(S, TypeOf(S, it), it) ELSE Os(S, OfType(it), "")
PropsOs(S, ts) == SeqMap(Sorted(FieldNames(ts)), LAMBDA n : Prop(n, Os(S, FieldOf(ts, n).ts, "")))
RequiredOs(ts) == SeqMap(Filter(ts.fields, LAMBDA f : f.required), LAMBDA f : f.name)
Os(S, ts, name) ==
    LET t == ts.type IN
    CASE t = "Bool" -> OsType("boolean")
      [] t \in NumericTypes -> [OsType(NumOas(t)[1]) EXCEPT !.format = NumOas(t)[2], !.min = ts.min, !.max = ts.max]
      [] t = "Bytes" -> [OsType("string") EXCEPT !.format = "byte"]
      [] t = "String" -> [OsType("string") EXCEPT !.pattern = ts.pattern, !.minlen = Opt(ts.minsize, 0), !.maxlen = ts.maxsize, !.enum = ts.values]
      [] t = "Timestamp" -> [OsType("string") EXCEPT !.format = "date-time"]
      [] t \in {"UnitValue", "UUID"} -> OsType("string")
      [] t = "Any" -> OS0
      [] t \in {"Enum", "Union", "Struct"} /\ name # "" -> RefTo(name)
      [] t = "Enum" -> [OsType("string") EXCEPT !.enum = SeqMap(ts.elements, LAMBDA e : e.symbol)]
      [] t = "Union" -> [OS0 EXCEPT !.oneof = SeqMap(ts.variants, LAMBDA v : Os(S, OfType(v.type), ""))]
      [] t = "Struct" -> [OsType("object") EXCEPT !.props = PropsOs(S, ts), !.required = RequiredOs(ts)]
      [] t = "Array" -> [OsType("array") EXCEPT !.items = <<ItemOs(S, ts.items)>>, !.minitems = Opt(ts.minsize, 0), !.maxitems = ts.maxsize]
      [] t = "Map" -> [OsType("object") EXCEPT !.addl = <<ItemOs(S, ts.items)>>, !.minprops = Opt(ts.minsize, 0), !.maxprops = ts.maxsize]
      [] OTHER -> RefTo(t)
\* a declared type: written out, with its comment and its (last) example
TypeExample(S, n) ==
    LET I == { i \in 1..Len(S.examples) : S.examples[i].target = n } IN
    IF I = {} \/ S.examples[LastIx(I)].example.k = "null" THEN <<>> ELSE <<S.examples[LastIx(I)].example>>
TypeOs(S, td) ==
    LET s == Os(S, td.ts, "") IN
    [s EXCEPT !.desc = IF s.ref = "" THEN td.comment ELSE "", !.format = IF td.ts.type = "UUID" THEN "uuid" ELSE @, !.example = TypeExample(S, td.name)]
SchemasOs(S) == SeqMap(Sorted(TypeNames(S)), LAMBDA n : Prop(n, TypeOs(S, S.types[CHOOSE i \in 1..Len(S.types) : S.types[i].name = n])))

\* the same schema; descriptions below the top (field comments and the like) are left open, and the one of a type with no comment
RECURSIVE SameOs(_, _, _)
SameOs(a, b, top) ==
    /\ a.ref = b.ref /\ a.type = b.type /\ a.format = b.format /\ a.enum = b.enum /\ SameOptVal(a.example, b.example)
    /\ (top /\ b.desc # "" => a.desc = b.desc)
    /\ SameDec(a.min, b.min) /\ SameDec(a.max, b.max) /\ a.minlen = b.minlen /\ a.maxlen = b.maxlen /\ a.pattern = b.pattern
    /\ a.minitems = b.minitems /\ a.maxitems = b.maxitems /\ a.minprops = b.minprops /\ a.maxprops = b.maxprops
    /\ Len(a.required) = Len(b.required) /\ SeqSet(a.required) = SeqSet(b.required)
    /\ Len(a.items) = Len(b.items) /\ (a.items # <<>> => SameOs(a.items[1], b.items[1], FALSE))
    /\ Len(a.addl) = Len(b.addl) /\ (a.addl # <<>> => SameOs(a.addl[1], b.addl[1], FALSE))
    /\ Len(a.oneof) = Len(b.oneof) /\ \A i \in 1..Len(a.oneof) : SameOs(a.oneof[i], b.oneof[i], FALSE)
    /\ Len(a.props) = Len(b.props) /\ \A i \in 1..Len(a.props) : a.props[i].n = b.props[i].n /\ SameOs(a.props[i].s, b.props[i].s, FALSE)
SameNamed(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].n = b[i].n /\ SameOs(a[i].s, b[i].s, TRUE)

\* every reference of a document leads to a schema
RECURSIVE Refs(_)
Refs(s) == (IF s.ref = "" THEN {} ELSE {s.ref})
           \cup UNION { Refs(s.items[i]) : i \in 1..Len(s.items) } \cup UNION { Refs(s.addl[i]) : i \in 1..Len(s.addl) }
           \cup UNION { Refs(s.oneof[i]) : i \in 1..Len(s.oneof) } \cup UNION { Refs(s.props[i].s) : i \in 1..Len(s.props) }
OptRefs(o) == IF o = <<>> THEN {} ELSE Refs(o[1])
ContentRefs(c) == UNION { OptRefs(c[i].schema) : i \in 1..Len(c) }
OpRefs(op) == UNION { OptRefs(op.params[i].schema) : i \in 1..Len(op.params) }
              \cup UNION { ContentRefs(op.body[i].content) : i \in 1..Len(op.body) }
              \cup UNION { ContentRefs(op.resps[i].content) : i \in 1..Len(op.resps) }
              \cup UNION { UNION { OptRefs(op.resps[i].headers[j].schema) : j \in 1..Len(op.resps[i].headers) } : i \in 1..Len(op.resps) }
DocRefs(d) == UNION { Refs(d.schemas[i].s) : i \in 1..Len(d.schemas) }
              \cup UNION { UNION { OpRefs(d.paths[i].ops[j].op) : j \in 1..Len(d.paths[i].ops) } : i \in 1..Len(d.paths) }
Closed(d) == \A r \in DocRefs(d) : HasN(d.schemas, r)

---------------------------------------------------------------------------
(* P14: http actions as operations *)
ExportMethods == <<"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS">>
NoQuery(p) == LET i == Pos(p, "?") IN IF i = 0 THEN p ELSE UpTo(p, i - 1)
ActionPath(S, h) == S.base \o NoQuery(h.path)
Place(p) == IF p.path THEN "path" ELSE IF p.query # "" THEN "query" ELSE IF p.header # "" THEN "header" ELSE "body"
WireName(p) == CASE Place(p) = "query" -> p.query [] Place(p) = "header" -> p.header [] OTHER -> p.name
\* the examples given for an input or output: a map of the named ones, and the (last) unnamed one
ExamplesFor(S, target, pname) ==
    LET has(i) == S.examples[i].target = target /\ ~Declared(S, target) /\ S.examples[i].example.k = "obj" /\ pname \in ObjKeys(S.examples[i].example)
        I == { i \in 1..Len(S.examples) : has(i) }
        val(i) == ObjGet(S.examples[i].example, pname)
        names == { S.examples[i].name : i \in I } \ {""}
        of(n) == { i \in I : S.examples[i].name = n } IN
    [example |-> IF of("") = {} \/ val(LastIx(of(""))).k = "null" THEN <<>> ELSE <<val(LastIx(of("")))>>,
     examples |-> SeqMap(Sorted(names), LAMBDA n : Pair(n, val(LastIx(of(n)))))]
ReqTarget(h) == Cap(h.name) \o "Request"
RespTarget(h) == Cap(h.name) \o "Response"
ParamOs(S, h, p) ==
    LET x == ExamplesFor(S, ReqTarget(h), p.name) IN
    [name |-> WireName(p), in |-> Place(p), desc |-> p.comment, required |-> p.path \/ p.required, schema |-> <<Os(S, p.ts, "")>>,
     example |-> x.example, examples |-> x.examples]
MediaOs(S, target, p) ==
    LET x == ExamplesFor(S, target, p.name) IN
    [mt |-> "application/json", schema |-> <<Os(S, p.ts, "")>>, example |-> x.example, examples |-> x.examples]
BodyOs(S, h) ==
    LET bs == Filter(h.inputs, LAMBDA p : Place(p) = "body") IN
    IF bs = <<>> THEN <<>> ELSE <<[desc |-> bs[Len(bs)].comment, required |-> TRUE, content |-> <<MediaOs(S, ReqTarget(h), bs[Len(bs)])>>]>>
OrText(c, d) == IF c = "" THEN d ELSE c
ExpectedOs(S, h) ==
    IF h.expected = <<>> THEN [OResp0 EXCEPT !.desc = "Expected response"]
    ELSE LET e == h.expected[1]
             heads == Filter(e.outputs, LAMBDA p : p.header # "")
             bodies == Filter(e.outputs, LAMBDA p : p.header = "")
             hnames == { heads[i].header : i \in 1..Len(heads) }
             hof(n) == heads[LastIx({ i \in 1..Len(heads) : heads[i].header = n })] IN
         [status |-> NatStr(e.status), desc |-> OrText(e.comment, "Expected response"),
          headers |-> SeqMap(Sorted(hnames), LAMBDA n : [n |-> n, desc |-> hof(n).comment, schema |-> <<Os(S, hof(n).ts, "")>>]),
          content |-> IF bodies = <<>> THEN <<>> ELSE <<MediaOs(S, RespTarget(h), bodies[Len(bodies)])>>]
ExceptionOs(S, x) ==
    [status |-> IF x.status = 0 THEN "default" ELSE NatStr(x.status), desc |-> OrText(x.comment, "Exceptional response"), headers |-> <<>>,
     content |-> IF x.type = "" THEN <<>> ELSE <<[OMedia0 EXCEPT !.schema = <<Os(S, OfType(x.type), "")>>]>>]
RespsOs(S, h) ==
    LET all == <<ExpectedOs(S, h)>> \o SeqMap(h.exceptions, LAMBDA x : ExceptionOs(S, x))
        keys == { all[i].status : i \in 1..Len(all) } IN
    SeqMap(Sorted(keys), LAMBDA k : all[LastIx({ i \in 1..Len(all) : all[i].status = k })])
OpOs(S, h) ==
    [id |-> h.name, summary |-> h.comment,
     tags |-> (IF h.resource = "" THEN <<>> ELSE <<h.resource>>) \o (IF AnnoGet(h.annos, "x_tags") = <<>> THEN <<>> ELSE Split(AnnoGet(h.annos, "x_tags")[1], ",")),
     params |-> SeqMap(Filter(h.inputs, LAMBDA p : Place(p) # "body"), LAMBDA p : ParamOs(S, h, p)),
     body |-> BodyOs(S, h), resps |-> RespsOs(S, h)]
PathsOs(S) ==
    LET ps == { ActionPath(S, S.http[i]) : i \in 1..Len(S.http) }
        at(p, m) == { i \in 1..Len(S.http) : ActionPath(S, S.http[i]) = p /\ S.http[i].method = m } IN
    SeqMap(Sorted(ps), LAMBDA p : [p |-> p, shared |-> <<>>,
        ops |-> Concat(SeqMap(ExportMethods, LAMBDA m : IF at(p, m) = {} THEN <<>> ELSE <<[m |-> m, op |-> OpOs(S, S.http[LastIx(at(p, m))])]>>))])
\* an action with another method, or two for one method and path, cannot be exported
ExportOk(S) ==
    /\ \A i \in 1..Len(S.http) : S.http[i].method \in SeqSet(ExportMethods)
    /\ \A i, j \in 1..Len(S.http) : i # j => <<ActionPath(S, S.http[i]), S.http[i].method>> # <<ActionPath(S, S.http[j]), S.http[j].method>>
Exported(S) ==
    LET an(k) == AnnoGet(S.annos, k) IN
    [Doc0 EXCEPT !.title = S.name, !.desc = S.comment, !.version = OrText(S.version, "dev"),
       !.license = IF Opt(an("x_license_name"), "") = "" /\ Opt(an("x_license_url"), "") = "" THEN <<>>
                   ELSE <<[name |-> Opt(an("x_license_name"), ""), url |-> Opt(an("x_license_url"), "")]>>,
       !.servers = <<"http://localhost:8000">> \o an("x_server"),
       !.schemas = SchemasOs(S), !.paths = PathsOs(S)]

SameOptOs(a, b) == Len(a) = Len(b) /\ (a # <<>> => SameOs(a[1], b[1], FALSE))
SameExamples(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].n = b[i].n /\ SameVal(a[i].v, b[i].v)
SameParam(a, b) == /\ a.name = b.name /\ a.in = b.in /\ a.desc = b.desc /\ a.required = b.required /\ SameOptOs(a.schema, b.schema)
                   /\ SameOptVal(a.example, b.example) /\ SameExamples(a.examples, b.examples)
SameContent(a, b) == /\ Len(a) = Len(b)
                     /\ \A i \in 1..Len(a) : a[i].mt = b[i].mt /\ SameOptOs(a[i].schema, b[i].schema)
                                             /\ SameOptVal(a[i].example, b[i].example) /\ SameExamples(a[i].examples, b[i].examples)
SameResp(a, b) == /\ a.status = b.status /\ a.desc = b.desc /\ SameContent(a.content, b.content)
                  /\ Len(a.headers) = Len(b.headers)
                  /\ \A i \in 1..Len(a.headers) : a.headers[i].n = b.headers[i].n /\ a.headers[i].desc = b.headers[i].desc /\ SameOptOs(a.headers[i].schema, b.headers[i].schema)
SameOp(a, b) == /\ a.id = b.id /\ a.summary = b.summary /\ a.tags = b.tags
                /\ Len(a.params) = Len(b.params) /\ \A i \in 1..Len(a.params) : SameParam(a.params[i], b.params[i])
                /\ Len(a.body) = Len(b.body)
                /\ (a.body # <<>> => a.body[1].desc = b.body[1].desc /\ a.body[1].required = b.body[1].required /\ SameContent(a.body[1].content, b.body[1].content))
                /\ Len(a.resps) = Len(b.resps) /\ \A i \in 1..Len(a.resps) : SameResp(a.resps[i], b.resps[i])
SamePath(x, y) == /\ x.p = y.p /\ Len(x.ops) = Len(y.ops)
                  /\ Len(x.shared) = Len(y.shared) /\ \A j \in 1..Len(x.shared) : SameParam(x.shared[j], y.shared[j])
                  /\ \A j \in 1..Len(x.ops) : x.ops[j].m = y.ops[j].m /\ SameOp(x.ops[j].op, y.ops[j].op)
SamePaths(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : SamePath(a[i], b[j])

---------------------------------------------------------------------------
(* What a schema of a document admits; used to relate it to what the SADL type admits *)
RECURSIVE Admits(_, _, _)
Admits(d, s, v) ==
    IF s.ref # "" THEN HasN(d.schemas, s.ref) /\ Admits(d, GetN(d.schemas, s.ref).s, v)
    ELSE /\ (s.enum # <<>> => v.k = "str" /\ v.s \in SeqSet(s.enum))
         /\ (s.oneof # <<>> => \E i \in 1..Len(s.oneof) : Admits(d, s.oneof[i], v))
         /\ CASE s.type = "" -> TRUE
              [] s.type = "boolean" -> v.k = "bool"
              [] s.type \in {"integer", "number"} ->
                   /\ v.k = "num"
                   /\ (s.type = "integer" => IsIntNum(Dec(v.n)))
                   /\ (s.format = "int32" => InRange(Dec(v.n), "Int32")) /\ (s.format = "int64" => InRange(Dec(v.n), "Int64"))
                   /\ (s.min # <<>> => Leq(Dec(s.min[1]), Dec(v.n))) /\ (s.max # <<>> => Leq(Dec(v.n), Dec(s.max[1])))
              [] s.type = "string" ->
                   /\ v.k = "str"
                   /\ Len(v.s) >= s.minlen /\ (s.maxlen # <<>> => Len(v.s) <= s.maxlen[1])
                   /\ (s.pattern # "" => Match(s.pattern, v.s))
                   /\ (s.format = "uuid" => IsUUIDText(v.s)) /\ (s.format = "date-time" => IsTimestampText(v.s))
              [] s.type = "array" ->
                   /\ v.k = "arr" /\ Len(v.a) >= s.minitems /\ (s.maxitems # <<>> => Len(v.a) <= s.maxitems[1])
                   /\ (s.items # <<>> => \A i \in 1..Len(v.a) : Admits(d, s.items[1], v.a[i]))
              [] s.type = "object" ->
                   /\ v.k = "obj" /\ Len(v.o) >= s.minprops /\ (s.maxprops # <<>> => Len(v.o) <= s.maxprops[1])
                   /\ SeqSet(s.required) \subseteq ObjKeys(v)
                   /\ \A n \in ObjKeys(v) : IF HasN(s.props, n) THEN Admits(d, GetN(s.props, n).s, ObjGet(v, n))
                                            ELSE s.addl # <<>> => Admits(d, s.addl[1], ObjGet(v, n))

---------------------------------------------------------------------------
(* P15: a schema of a document as a SADL type.  [ok, ts, ex]: ex are the examples met, as <<target, value>> *)
IsSymbolText(s) == s # "" /\ At(s, 1) \in LowerSet \cup UpperSet /\ AllIn(From(s, 2), Alnum \cup {"_"})
NoType == [ok |-> FALSE, ts |-> TS0, ex |-> <<>>]
OptSize(n) == IF n = 0 THEN <<>> ELSE <<n>>
RECURSIVE FromOs(_, _)
\* in an enum, a text that begins with # stands for something that is not a text
Odd(enum) == \E i \in 1..Len(enum) : HasPrefix(enum[i], "#")
FromOs(name, s) ==
    LET own == IF s.example = <<>> THEN <<>> ELSE <<<<name, s.example[1]>>>>
        ok(ts) == [ok |-> TRUE, ts |-> ts, ex |-> own]
        t == s.type IN
    CASE t = "boolean" -> ok(OfType("Bool"))
      [] t = "string" /\ Odd(s.enum) -> NoType
      [] t = "string" ->
           IF s.enum # <<>> /\ (\A i \in 1..Len(s.enum) : IsSymbolText(s.enum[i]))
           THEN ok([OfType("Enum") EXCEPT !.elements = SeqMap(s.enum, LAMBDA e : Elem(e))])
           ELSE IF s.format = "uuid" THEN ok([OfType("UUID") EXCEPT !.values = s.enum])
           ELSE IF s.format = "date-time" THEN ok([OfType("Timestamp") EXCEPT !.values = s.enum])
           ELSE ok([OfType("String") EXCEPT !.values = s.enum, !.pattern = s.pattern, !.minsize = OptSize(s.minlen), !.maxsize = s.maxlen])
      [] t = "array" ->
           LET sized == [OfType("Array") EXCEPT !.minsize = OptSize(s.minitems), !.maxsize = s.maxitems] IN
           IF s.items = <<>> THEN ok(sized)
           ELSE IF s.items[1].ref # "" THEN ok([sized EXCEPT !.items = s.items[1].ref])
           ELSE LET it == FromOs(name \o ".Items", s.items[1]) IN
                IF it.ok THEN [ok |-> TRUE, ts |-> [sized EXCEPT !.items = it.ts.type], ex |-> own \o it.ex] ELSE NoType
      [] t = "number" -> ok([OfType("Decimal") EXCEPT !.min = s.min, !.max = s.max])
      [] t = "integer" -> ok([OfType(CASE s.format = "int8" -> "Int8" [] s.format = "int16" -> "Int16" [] s.format = "int32" -> "Int32" [] OTHER -> "Int64")
                                EXCEPT !.min = s.min, !.max = s.max])
      [] t \in {"", "object"} ->
           LET names == Sorted({ s.props[i].n : i \in 1..Len(s.props) })
               fs == SeqMap(names, LAMBDA n :
                        LET p == GetN(s.props, n).s IN
                        IF p.ref # "" THEN [ok |-> TRUE, ts |-> OfType(p.ref), ex |-> <<>>] ELSE FromOs(name \o "." \o n, p)) IN
           IF \E i \in 1..Len(fs) : ~fs[i].ok THEN NoType
           ELSE [ok |-> TRUE, ex |-> own \o Concat(SeqMap(fs, LAMBDA f : f.ex)),
                 ts |-> [OfType("Struct") EXCEPT !.fields =
                           [i \in 1..Len(names) |-> [Field(names[i], fs[i].ts) EXCEPT !.comment = GetN(s.props, names[i]).s.desc,
                                                                                    !.required = names[i] \in SeqSet(s.required)]]]]
      [] OTHER -> NoType
\* references to references are followed to what they mean
RECURSIVE Resolve(_, _, _)
Resolve(d, n, k) == IF ~HasN(d.schemas, n) \/ k = 0 THEN <<>>
                    ELSE IF GetN(d.schemas, n).s.ref = "" THEN <<n>> ELSE Resolve(d, GetN(d.schemas, n).s.ref, k - 1)
\* Timestamp and Decimal are base types of SADL already
Builtin(x) == (x.n = "Timestamp" /\ x.s.type = "string") \/ x.n = "Decimal"
TypeFrom(d, x) ==
    IF x.s.ref = "" THEN LET r == FromOs(x.n, x.s) IN [ok |-> r.ok, td |-> [TypeDef(x.n, r.ts) EXCEPT !.comment = x.s.desc], ex |-> r.ex]
    ELSE LET n == Resolve(d, x.s.ref, Len(d.schemas) + 1) IN
         IF n = <<>> THEN [ok |-> FALSE, td |-> TD0, ex |-> <<>>]
         ELSE LET r == FromOs(n[1], GetN(d.schemas, n[1]).s) IN [ok |-> r.ok, td |-> TypeDef(x.n, r.ts), ex |-> r.ex]
TypesFromDoc(d) == SeqMap(Sorted({ d.schemas[i].n : i \in { j \in 1..Len(d.schemas) : ~Builtin(d.schemas[j]) } }), LAMBDA n : TypeFrom(d, GetN(d.schemas, n)))

---------------------------------------------------------------------------
(* P16: operations as http actions *)
IdChars == LowerSet \cup UpperSet \cup {"_"}
RECURSIVE Ident(_)
IdentTail(s) == LET RECURSIVE go(_)
                    go(u) == IF u = "" THEN "" ELSE (IF At(u, 1) \in IdChars \cup Digit THEN At(u, 1) ELSE "") \o go(From(u, 2))
                IN go(s)
Ident(s) == IF s = "" THEN "" ELSE IF At(s, 1) \in IdChars THEN IdentTail(s) ELSE Ident(From(s, 2))
BadOp == [ok |-> FALSE, h |-> Http0, ex |-> <<>>]
ParamFrom(opid, path, p) ==
    LET name == Ident(p.name)
        base == [Param0 EXCEPT !.name = name, !.comment = p.desc, !.required = p.required,
                               !.query = IF p.in = "query" THEN p.name ELSE "", !.header = IF p.in = "header" THEN p.name ELSE "", !.path = (p.in = "path")]
        bad == [ok |-> FALSE, p |-> base] IN
    IF p.in = "cookie" \/ (p.in = "path" /\ ~Contains(path, "{" \o p.name \o "}")) \/ p.schema = <<>> \/ Odd(p.schema[1].enum) THEN bad
    ELSE IF p.schema[1].ref # "" THEN [ok |-> TRUE, p |-> [base EXCEPT !.ts = OfType(p.schema[1].ref)]]
    ELSE LET s == [p.schema[1] EXCEPT !.enum = <<>>, !.example = <<>>, !.format = IF p.schema[1].type = "integer" /\ @ = "" THEN "int32" ELSE @]
             r == FromOs(opid, s)
             ts == [r.ts EXCEPT !.values = p.schema[1].enum, !.items = IF r.ts.type = "Array" /\ @ = "" THEN "Any" ELSE @] IN
         IF ~r.ok \/ r.ts.type = "Struct" THEN bad ELSE [ok |-> TRUE, p |-> [base EXCEPT !.ts = ts]]
\* the parameters of the path come first, unless the operation has its own
AllParams(shared, own) ==
    Filter(shared, LAMBDA p : ~\E i \in 1..Len(own) : own[i].name = p.name /\ own[i].in = p.in) \o own
RECURSIVE PathNames(_, _)
PathNames(path, ps) == IF ps = <<>> THEN path
                       ELSE PathNames(IF ps[1].in = "path" THEN Replace(path, "{" \o ps[1].name \o "}", "{" \o Ident(ps[1].name) \o "}") ELSE path, Tail(ps))
JsonSchema(content) == LET I == { i \in 1..Len(content) : content[i].mt = "application/json" } IN
                       IF I = {} THEN <<>> ELSE content[CHOOSE i \in I : TRUE].schema
PlainFrom(name, s) == IF s.ref # "" THEN [ok |-> TRUE, ts |-> OfType(s.ref), ex |-> <<>>] ELSE FromOs(name, s)
Success(st) == HasPrefix(st, "2") \/ HasPrefix(st, "3")
ExpectedKey(op) ==
    LET keys == { op.resps[i].status : i \in 1..Len(op.resps) }
        good == Sorted({ k \in keys : Success(k) }) IN
    IF good # <<>> THEN good[1] ELSE "default"
RespOf(op, k) == op.resps[CHOOSE i \in 1..Len(op.resps) : op.resps[i].status = k]
IsCode(s) == s # "" /\ AllIn(s, Digit)
\* the status of an expected response ("2XX" and default are 200)
ExpectedCode(k) == IF k = "default" \/ Contains(k, "X") THEN 200 ELSE NatOf(k)
HeaderVar(n) == Ident(IF HasPrefix(n, "x-") \/ HasPrefix(n, "X-") THEN From(n, 3) ELSE n)
OpFrom(path, method, shared, op) ==
    LET ps == AllParams(shared, op.params)
        ins == SeqMap(ps, LAMBDA p : ParamFrom(op.id, path, p))
        queries == Filter(ps, LAMBDA p : p.in = "query")
        bodySchema == IF method \in {"POST", "PUT", "PATCH"} /\ op.body # <<>> THEN JsonSchema(op.body[1].content) ELSE <<>>
        body == IF bodySchema = <<>> THEN <<>> ELSE <<PlainFrom("b", bodySchema[1])>>
        ek == ExpectedKey(op)
        keys == { op.resps[i].status : i \in 1..Len(op.resps) }
        e == RespOf(op, ek)
        heads == LET q == Filter(e.headers, LAMBDA h : h.schema # <<>>) IN SeqMap(Sorted({ q[i].n : i \in 1..Len(q) }), LAMBDA n : GetN(q, n))
        hs == SeqMap(heads, LAMBDA h : PlainFrom("h", h.schema[1]))
        outSchema == JsonSchema(e.content)
        out == IF outSchema = <<>> THEN <<>> ELSE <<PlainFrom("o", outSchema[1])>>
        others == Sorted(keys \ {ek})
        excSchema(k) == JsonSchema(RespOf(op, k).content)
        tags == op.tags IN
    IF \/ \E i \in 1..Len(ins) : ~ins[i].ok
       \/ (body # <<>> /\ ~body[1].ok)
       \/ ek \notin keys
       \/ (ek # "default" /\ ~Contains(ek, "X") /\ ~IsCode(ek))
    THEN BadOp
    ELSE IF \/ \E i \in 1..Len(hs) : ~hs[i].ok
            \/ (out # <<>> /\ ~out[1].ok)
            \/ \E k \in keys \ {ek} : (k # "default" /\ ~IsCode(k)) \/ (excSchema(k) # <<>> /\ excSchema(k)[1].ref = "")
    THEN BadOp
    ELSE [ok |-> TRUE,
          h |-> [Http0 EXCEPT !.name = op.id, !.method = method, !.comment = op.summary,
                   !.path = PathNames(path, ps) \o (IF queries = <<>> THEN "" ELSE "?" \o Join(SeqMap(queries, LAMBDA p : p.name \o "={" \o Ident(p.name) \o "}"), "&")),
                   !.resource = IF tags = <<>> THEN "" ELSE tags[1],
                   !.annos = IF Len(tags) < 2 THEN <<>> ELSE <<<<"x_tags", Join(Tail(tags), ",")>>>>,
                   !.inputs = SeqMap(ins, LAMBDA r : r.p) \o
                              (IF body = <<>> THEN <<>> ELSE <<[Param0 EXCEPT !.name = "body", !.comment = op.body[1].desc, !.required = op.body[1].required, !.ts = body[1].ts]>>),
                   !.expected = <<[Expect0 EXCEPT !.status = ExpectedCode(ek), !.comment = e.desc,
                                     !.outputs = [i \in 1..Len(heads) |-> [Param0 EXCEPT !.name = HeaderVar(heads[i].n), !.header = heads[i].n, !.comment = heads[i].desc, !.ts = hs[i].ts]]
                                                 \o (IF out = <<>> THEN <<>> ELSE <<[Param0 EXCEPT !.name = "body", !.ts = out[1].ts]>>)]>>,
                   !.exceptions = SeqMap(others, LAMBDA k : [Exc0 EXCEPT !.status = IF k = "default" THEN 0 ELSE NatOf(k), !.comment = RespOf(op, k).desc,
                                                               !.type = IF excSchema(k) = <<>> THEN "" ELSE excSchema(k)[1].ref])],
          ex |-> <<>>]
PathOf(d, p) == d.paths[CHOOSE i \in 1..Len(d.paths) : d.paths[i].p = p]
OpsFromDoc(d) ==
    Concat(SeqMap(Sorted({ d.paths[i].p : i \in 1..Len(d.paths) }), LAMBDA p :
       LET x == PathOf(d, p) IN
       Concat(SeqMap(ExportMethods, LAMBDA m :
          LET I == { i \in 1..Len(x.ops) : x.ops[i].m = m } IN
          IF I = {} THEN <<>> ELSE <<OpFrom(p, m, x.shared, x.ops[CHOOSE i \in I : TRUE].op)>>))))

\* a document that says what it has to
DocOk(d) == /\ d.openapi # "" /\ d.title # "" /\ d.version # "" /\ ~d.nopaths
            /\ (d.license # <<>> => d.license[1].name # "")
            /\ \A i \in 1..Len(d.paths) : HasPrefix(d.paths[i].p, "/")
\* the name of the model that the name of a file gives
RECURSIVE LastDot(_)
LastDot(s) == IF s = "" THEN 0 ELSE IF At(s, Len(s)) = "." THEN Len(s) ELSE LastDot(UpTo(s, Len(s) - 1))
FileName(f) == LET i == LastDot(f) IN IF i = 0 THEN f ELSE Replace(UpTo(f, i - 1), ".", "_")
Converted(d, name) ==
    LET ts == TypesFromDoc(d)
        hs == OpsFromDoc(d)
        sym == IsSymbolText(d.title)
        lic(f) == IF d.license = <<>> THEN "" ELSE IF f = "name" THEN d.license[1].name ELSE d.license[1].url
        S == [Schema0 EXCEPT !.name = IF sym THEN d.title ELSE name,
                !.comment = IF sym \/ d.title = "" THEN d.desc ELSE d.title \o " - " \o d.desc,
                !.version = d.version,
                !.types = SeqMap(ts, LAMBDA t : t.td), !.http = SeqMap(hs, LAMBDA h : h.h),
                !.annos = (IF lic("name") = "" THEN <<>> ELSE <<<<"x_license_name", lic("name")>>>>)
                          \o (IF lic("url") = "" THEN <<>> ELSE <<<<"x_license_url", lic("url")>>>>)
                          \o <<<<"x_openapi_version", d.openapi>>>>
                          \o (IF d.servers = <<>> THEN <<>> ELSE <<<<"x_server", d.servers[Len(d.servers)]>>>>)]
        ok == (\A i \in 1..Len(ts) : ts[i].ok) /\ (\A i \in 1..Len(hs) : hs[i].ok) IN
    [ok |-> ok /\ ModelOk(S), S |-> S, ex |-> Concat(SeqMap(ts, LAMBDA t : t.ex))]
Imported(d, fname) == LET c == Converted(d, FileName(fname)) IN [c EXCEPT !.ok = DocOk(d) /\ c.ok]

\* the same schema, limits compared as numbers
RECURSIVE SameTs(_, _)
SameTs(a, b) ==
    /\ [a EXCEPT !.min = <<>>, !.max = <<>>, !.fields = <<>>] = [b EXCEPT !.min = <<>>, !.max = <<>>, !.fields = <<>>]
    /\ SameDec(a.min, b.min) /\ SameDec(a.max, b.max)
    /\ Len(a.fields) = Len(b.fields)
    /\ \A i \in 1..Len(a.fields) : [a.fields[i] EXCEPT !.ts = TS0] = [b.fields[i] EXCEPT !.ts = TS0] /\ SameTs(a.fields[i].ts, b.fields[i].ts)
SameParams(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : [a[i] EXCEPT !.ts = TS0] = [b[i] EXCEPT !.ts = TS0] /\ SameTs(a[i].ts, b[i].ts)
SameHttp(a, b) ==
    /\ [a EXCEPT !.inputs = <<>>, !.expected = <<>>] = [b EXCEPT !.inputs = <<>>, !.expected = <<>>]
    /\ SameParams(a.inputs, b.inputs)
    /\ Len(a.expected) = Len(b.expected)
    /\ (a.expected # <<>> => /\ [a.expected[1] EXCEPT !.outputs = <<>>] = [b.expected[1] EXCEPT !.outputs = <<>>]
                             /\ SameParams(a.expected[1].outputs, b.expected[1].outputs))
SameTypes(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : [a[i] EXCEPT !.ts = TS0] = [b[i] EXCEPT !.ts = TS0] /\ SameTs(a[i].ts, b[i].ts)
SameHttps(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameHttp(a[i], b[i])
\* the examples of the schema are the ones met, as a bag
SameExs(exs, want) ==
    /\ Len(exs) = Len(want)
    /\ \A i \in 1..Len(want) : \E j \in 1..Len(exs) : exs[j].target = want[i][1] /\ exs[j].name = "" /\ SameVal(exs[j].example, want[i][2])
    /\ \A j \in 1..Len(exs) : \E i \in 1..Len(want) : exs[j].target = want[i][1] /\ SameVal(exs[j].example, want[i][2])

---------------------------------------------------------------------------
(* P17: a Swagger 2 document as an OpenAPI 3 one *)
Sw0 == [swagger |-> "2.0", title |-> "", desc |-> "", version |-> "", license |-> <<>>, terms |-> "", contact |-> <<>>, docs |-> <<>>, host |-> "", basepath |-> "", schemes |-> <<>>,
        consumes |-> <<>>, produces |-> <<>>, schemas |-> <<>>, paths |-> <<>>]
SwOp0 == [id |-> "", summary |-> "", tags |-> <<>>, params |-> <<>>, resps |-> <<>>, consumes |-> <<>>, produces |-> <<>>]
SwResp0 == [status |-> "200", desc |-> "", headers |-> <<>>, schema |-> <<>>]
Media(own, def) == IF own # <<>> THEN own ELSE IF def # <<>> THEN def ELSE <<"application/json">>
V3Content(mts, schema) == IF schema = <<>> THEN <<>> ELSE SeqMap(Sorted(SeqSet(mts)), LAMBDA m : [OMedia0 EXCEPT !.mt = m, !.schema = schema])
V3Resp(mts, r) == [status |-> r.status, desc |-> r.desc, headers |-> r.headers, content |-> V3Content(mts, r.schema)]
V3Op(w, shared, op) ==
    LET ps == AllParams(shared, op.params)
        bodies == Filter(ps, LAMBDA p : p.in = "body") IN
    [id |-> op.id, summary |-> op.summary, tags |-> op.tags,
     params |-> Filter(ps, LAMBDA p : p.in # "body"),
     body |-> IF bodies = <<>> THEN <<>>
              ELSE LET b == bodies[Len(bodies)] IN <<[desc |-> b.desc, required |-> b.required, content |-> V3Content(Media(op.consumes, w.consumes), b.schema)]>>,
     resps |-> SeqMap(op.resps, LAMBDA r : V3Resp(Media(op.produces, w.produces), r))]
V3(w) ==
    [Doc0 EXCEPT !.title = w.title, !.desc = w.desc, !.version = w.version, !.license = w.license, !.terms = w.terms, !.contact = w.contact, !.docs = w.docs, !.schemas = w.schemas,
       !.servers = IF w.host = "" THEN IF w.basepath = "" THEN <<>> ELSE <<w.basepath>>
                   ELSE <<(IF w.schemes = <<>> \/ "https" \in SeqSet(w.schemes) THEN "https" ELSE w.schemes[1]) \o "://" \o w.host \o w.basepath>>,
       !.paths = SeqMap(w.paths, LAMBDA x : [p |-> x.p, shared |-> <<>>, ops |-> SeqMap(x.ops, LAMBDA o : [m |-> o.m, op |-> V3Op(w, x.shared, o.op)])])]
SwName(f) == Replace(FileName(f), "-", "_")

---------------------------------------------------------------------------
(* P18: what survives a trip through OpenAPI.  Portable types: those OpenAPI can say all of. *)
PortTs(S, ts) ==
    CASE ts.type \in {"Bool", "Int32", "Int64", "Decimal", "Timestamp"} -> TRUE
      [] ts.type = "String" -> ts.minsize # <<0>> /\ (ts.values = <<>> \/ \E i \in 1..Len(ts.values) : ~IsSymbolText(ts.values[i]))
      [] ts.type = "Enum" -> TRUE
      [] ts.type = "Array" -> /\ ts.minsize # <<0>>
                              /\ (ts.items \in {"Bool", "String", "Int32", "Int64", "Decimal", "Timestamp"}
                                  \/ (Declared(S, ts.items) /\ TypeOf(S, ts.items).type \in {"Struct", "Enum"}))
      [] OTHER -> Declared(S, ts.type)
PortType(S, ts) ==
    CASE ts.type = "Struct" -> \A i \in 1..Len(ts.fields) : PortTs(S, ts.fields[i].ts)
      [] ts.type = "UUID" -> TRUE
      [] OTHER -> PortTs(S, ts) /\ ~Declared(S, ts.type)
PortParam(S, p) == p.ts.type # "" /\ PortTs(S, p.ts) /\ p.ts.type # "Enum"
PortHttp(S, h) ==
    /\ \A i \in 1..Len(h.inputs) : PortParam(S, h.inputs[i])
    /\ h.expected # <<>>
    /\ \A i \in 1..Len(h.expected[1].outputs) : PortParam(S, h.expected[1].outputs[i])
    /\ \A i \in 1..Len(h.exceptions) : Declared(S, h.exceptions[i].type)
Portable(S) == (\A i \in 1..Len(S.types) : PortType(S, S.types[i].ts)) /\ (\A i \in 1..Len(S.http) : PortHttp(S, S.http[i]))
\* the schema has the same types, up to the order of fields and symbols' comments
SortFields(ts) == IF ts.type # "Struct" THEN ts
                  ELSE [ts EXCEPT !.fields = SeqMap(Sorted(FieldNames(ts)), LAMBDA n : FieldOf(ts, n))]
SameTypeBack(S, T) ==
    /\ TypeNames(S) = TypeNames(T) /\ Len(T.types) = Len(S.types)
    /\ \A n \in TypeNames(S) : Equiv(S, SortFields(TypeOf(S, n)), SortFields(TypeOf(T, n)))
\* and the same actions: place and wire name, type and need of each input, the outputs, statuses and exceptions
InputShape(p) == <<Place(p), WireName(p), Place(p) = "path" \/ Place(p) = "body" \/ p.required>>
OutputShape(p) == <<p.header, p.header = "">>
SameParamTypes(S, a, b, Key(_)) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : Key(a[i]) = Key(b[j]) /\ Equiv(S, a[i].ts, b[j].ts)
BodyName(p) == IF Place(p) = "body" THEN [p EXCEPT !.name = "body"] ELSE p
SameActionBack(S, a, b) ==
    /\ b.method = a.method /\ NoQuery(b.path) = S.base \o NoQuery(a.path) /\ b.resource = a.resource
    /\ SameParamTypes(S, SeqMap(a.inputs, BodyName), SeqMap(b.inputs, BodyName), InputShape)
    /\ b.expected[1].status = a.expected[1].status
    /\ SameParamTypes(S, a.expected[1].outputs, b.expected[1].outputs, OutputShape)
    /\ { <<a.exceptions[i].status, a.exceptions[i].type>> : i \in 1..Len(a.exceptions) } = { <<b.exceptions[i].status, b.exceptions[i].type>> : i \in 1..Len(b.exceptions) }
SameBack(S, T) ==
    /\ SameTypeBack(S, T)
    /\ HttpNames(S) = HttpNames(T)
    /\ \A n \in HttpNames(S) : SameActionBack(S, HttpOf(S, n), HttpOf(T, n))
=============================================================================
