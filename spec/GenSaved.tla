------------------------------ MODULE GenSaved ------------------------------
(* Schemas with something of everything, to save and to load (P32). *)
EXTENDS GenSchema, Saved, Json
VARIABLE x
None == [op |-> "none", in |-> [z |-> 0]]

SText(u) == R({"", "", "one", "two words", "a \"quoted\" <b>&c</b>", "café ☕", "tab\there", "back\\slash", "line\nbreak", "{}", "[1]", "true", "null", "0"})
Annos(u) == R(AnnoPool \cup {<<<<"x_html", "<a>&'b'">>>>, <<<<"x_1", "a">>, <<"x_2", "b">>, <<"x_3", "a">>>>, <<<<"x_u", "é\"q\"">>>>})
\* what a JSON reader that holds numbers as floating point keeps
SaveNum(u) == R({"0", "1", "-1", "10", "0.5", "-0.001", "100", "2.25", "123456", "1000000", "9007199254740991", "0.1", "-99.99", "1e2", "5.0"})
RECURSIVE SaveVal(_)
SaveVal(d) == LET k == R(IF d = 0 THEN {"str", "num", "bool"} ELSE {"str", "num", "bool", "arr", "obj", "obj"}) IN
    CASE k = "str" -> VStr(SText(0)) [] k = "num" -> VNum(SaveNum(0)) [] k = "bool" -> VBool(Chance(2))
      [] k = "arr" -> VArr(SeqOf(R(0..3), LAMBDA i : SaveVal(d - 1)))
      [] OTHER -> LET q == Some(R(0..3), {"a", "b", "type", "name", "k 1", "é"}) IN VObj(SeqOf(Len(q), LAMBDA i : Pair(q[i], SaveVal(d - 1))))
FineBounds == {"0", "-1.5", "1e2", "100", "9223372036854775807", "-9223372036854775808", "0.1234567890123456789", "1000000000000000000001", "-0.001", "5.0"}
\* every part may be there: on a field or parameter, of a type
RECURSIVE Deck(_, _)
FullField(f, d) == [f EXCEPT !.comment = SText(0), !.annos = Annos(0), !.required = Chance(2), !.default = IF Chance(3) THEN <<SaveVal(1)>> ELSE <<>>, !.ts = Deck(f.ts, d)]
Deck(ts, d) ==
    [ts EXCEPT !.pattern = IF Chance(8) THEN R({"^[a-z]+$", "a\\d\"<>", "é*"}) ELSE @,
               !.values = IF Chance(8) THEN SeqOf(R(1..3), LAMBDA i : SText(0)) ELSE @,
               !.minsize = IF Chance(8) THEN <<R({0, 1, 7, 1000000})>> ELSE @, !.maxsize = IF Chance(8) THEN <<R({0, 1, 7, 1000000})>> ELSE @,
               !.min = IF Chance(8) THEN <<R(FineBounds)>> ELSE @, !.max = IF Chance(8) THEN <<R(FineBounds)>> ELSE @,
               !.items = IF Chance(9) THEN "Aa" ELSE @, !.keys = IF Chance(9) THEN "String" ELSE @, !.unit = IF Chance(9) THEN "Kind" ELSE @,
               !.value = IF Chance(9) THEN "Int32" ELSE @, !.reference = IF Chance(9) THEN R({"Aa", "Other.thing"}) ELSE @,
               !.fields = IF d = 0 THEN @ ELSE SeqOf(Len(@), LAMBDA i : FullField(ts.fields[i], d - 1)),
               !.elements = SeqOf(Len(@), LAMBDA i : [ts.elements[i] EXCEPT !.comment = SText(0), !.annos = Annos(0)]),
               !.variants = SeqOf(Len(@), LAMBDA i : [ts.variants[i] EXCEPT !.comment = SText(0), !.annos = Annos(0)])]
FullParam(p) == LET k == R({"path", "query", "header", "body", "any"}) f == FullField(p, 1) IN
    [f EXCEPT !.path = (k = "path" \/ (k = "any" /\ Chance(2))), !.query = IF k \in {"query", "any"} THEN R({"q", "a b", "Q"}) ELSE "",
              !.header = IF k \in {"header", "any"} THEN R({"X-A", "content-type"}) ELSE ""]
Params(names, n) == LET q == ParamsOf(names, n) IN SeqOf(Len(q), LAMBDA i : FullParam(q[i]))
FullHttp(h, names) ==
    [h EXCEPT !.name = IF Chance(8) THEN "" ELSE @, !.resource = R({"", "Item", "two words"}), !.comment = SText(0), !.annos = Annos(0), !.path = R({"/", "/a/{b}", "/a?x={q}&y=<z>"}),
              !.inputs = Params(names, R(0..3)),
              !.expected = IF Chance(6) THEN <<>> ELSE <<[Expect0 EXCEPT !.status = R({200, 204, 0, 304}), !.comment = SText(0), !.annos = Annos(0), !.outputs = Params(names, R(0..2))]>>,
              !.exceptions = SeqOf(R(0..2), LAMBDA i : [Exc0 EXCEPT !.type = R(names \cup {"String"}), !.status = R({0, 400, 404, 500}), !.comment = SText(0), !.annos = Annos(0)])]
PlainField(n, names) == FullField(Field(n, LeafSpec(names)), 1)
FullOp(n, names) ==
    [name |-> n, comment |-> SText(0), annos |-> Annos(0),
     inputs |-> SeqOf(R(0..2), LAMBDA i : PlainField(R({"a", "b", "c"}), names)),
     outputs |-> SeqOf(R(0..2), LAMBDA i : [PlainField(R({"a", "b", "c"}), names) EXCEPT !.required = FALSE, !.default = <<>>]),
     exceptions |-> SeqOf(R(0..2), LAMBDA i : R({"Aa", "NotFound", "Bb"}))]
SaveSchema(u) ==
    LET S == RandSchema(R(0..4), R(0..3)) names == TypeNames(S) \cup {"Int32"} IN
    [S EXCEPT !.name = R({"s", "", "Some Name"}), !.namespace = R({"", "a.b"}), !.version = R({"", "1", "v 2"}), !.comment = SText(0), !.base = R({"", "/base"}), !.annos = Annos(0),
              !.types = SeqOf(Len(@), LAMBDA i : [S.types[i] EXCEPT !.comment = SText(0), !.annos = Annos(0), !.ts = Deck(S.types[i].ts, 1)]),
              !.http = SeqOf(Len(@), LAMBDA i : FullHttp(S.http[i], names)),
              !.examples = SeqOf(R(0..3), LAMBDA i : [target |-> R({"Aa", "Aa.b", "GetAaRequest"}), name |-> SText(0), comment |-> SText(0), annos |-> Annos(0), example |-> SaveVal(2)]),
              !.operations = SeqOf(R(0..2), LAMBDA i : FullOp(R({"op1", "op2", ""}), names))]
\* a document of it as another writer might leave it: keys in another order, keys that it does not know, keys that say nothing
RECURSIVE Shuffled(_)
Shuffled(o) == IF o = <<>> THEN <<>> ELSE LET i == R(1..Len(o)) IN <<o[i]>> \o Shuffled([j \in 1..(Len(o) - 1) |-> IF j < i THEN o[j] ELSE o[j + 1]])
Foreign(S, v) ==
    LET d == SchemaDoc(S, v)
        nothing == Some(R(0..4), {Pair("comment", VStr("")), Pair("x-other", VObj(<<Pair("types", VNum("1"))>>)), Pair("types", VNull), Pair("http", VNull), Pair("namespace", VStr("")),
                                  Pair("operations", VArr(<<>>)), Pair("examples", VArr(<<>>)), Pair("annotations", VObj(<<>>)), Pair("base", VNull), Pair("version", VNull)})
        extra == SelectSeq(nothing, LAMBDA p : p.n \notin ObjKeys(d)) IN
    VObj(Shuffled(d.o \o extra))

SaveCase(u) == [op |-> "schema.save", in |-> [schema |-> SaveSchema(0), version |-> R({"1.5.0", "1", ""})]]
LoadCase(u) == LET S == SaveSchema(0) IN [op |-> "schema.load", in |-> [schema |-> S, doc |-> Foreign(S, "1.5")]]
Case(u) == IF Chance(3) THEN LoadCase(0) ELSE SaveCase(0)
Init == x = None
Next == x' = Case(x)
Emit == x.op # "none" => PrintT("CASE " \o ToJson(x))
\* what is saved says one thing: each key once
RECURSIVE OneKeyEach(_)
OneKeyEach(v) == CASE v.k = "obj" -> Cardinality(ObjKeys(v)) = Len(v.o) /\ \A i \in 1..Len(v.o) : OneKeyEach(v.o[i].v)
                   [] v.k = "arr" -> \A i \in 1..Len(v.a) : OneKeyEach(v.a[i]) [] OTHER -> TRUE
DesignSaved == x.op # "none" => /\ SameSchema(x.in.schema, x.in.schema)
                                /\ LET d == SchemaDoc(x.in.schema, "1") IN OneKeyEach(VObj(SelectSeq(d.o, LAMBDA p : p.n # "examples")))
=============================================================================
