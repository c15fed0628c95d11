----------------------------- MODULE GenOasDoc ------------------------------
(* OpenAPI documents with something of everything, to load and write again. *)
EXTENDS OasDoc, TLC, Json
VARIABLE x
None == [op |-> "none", in |-> [z |-> 0]]
R(S) == RandomElement(S)
Chance(n) == RandomElement(1..n) = 1
SeqOf(n, G(_)) == LET RECURSIVE upto(_)
                     upto(i) == IF i = 0 THEN <<>> ELSE Append(upto(i - 1), G(i))
                 IN upto(n)
RECURSIVE Some(_, _)
Some(n, S) == IF n = 0 \/ S = {} THEN <<>> ELSE LET e == RandomElement(S) IN <<e>> \o Some(n - 1, S \ {e})
DText(u) == R({"", "one", "two words", "a \"quoted\" <b>&c</b>", "café ☕", "line\nbreak", "yes", "true", "null", "1.0", "2019-01-02", "a: b", "- x", "#/components/schemas/Aa", "object", "string", "~"})
DNum(u) == R({"0", "1", "-1", "0.5", "100", "-2.25", "123456", "1e2", "9007199254740991"})
DCount(u) == R({"0", "1", "7", "1000000"})
MapKeys == {"a", "b c", "x-thing", "200", "default", "application/json", "Aa", "é", "schema"}
RECURSIVE AnyVal(_)
AnyVal(d) == LET k == R(IF d = 0 THEN {"str", "num", "bool"} ELSE {"str", "num", "bool", "arr", "obj", "null"}) IN
    CASE k = "str" -> VStr(DText(0)) [] k = "num" -> VNum(DNum(0)) [] k = "bool" -> VBool(Chance(2)) [] k = "null" -> VNull
      [] k = "arr" -> VArr(SeqOf(R(0..2), LAMBDA i : AnyVal(d - 1)))
      [] OTHER -> LET q == Some(R(0..2), MapKeys) IN VObj(SeqOf(Len(q), LAMBDA i : Pair(q[i], AnyVal(d - 1))))
RECURSIVE Thing(_, _)
RECURSIVE Pairs(_, _, _, _)
Pairs(kind, q, d, odds) == IF q = <<>> THEN <<>>
                           ELSE (IF Always(kind, q[1][1]) \/ (Chance(IF Leaf(q[1][2]) THEN odds ELSE odds + R({1, 2, 4})) /\ (d > 0 \/ Leaf(q[1][2]) \/ q[1][2] \in {"[text", "{text", "[any", "[{[text"})) THEN <<Pair(q[1][1], Thing(q[1][2], d - 1))>> ELSE <<>>)
                                \o Pairs(kind, Tail(q), d, odds)
Thing(kind, d) ==
    CASE kind = "text" -> VStr(DText(0)) [] kind \in {"flag", "bool"} -> VBool(Chance(2)) [] kind = "num" -> VNum(DNum(0)) [] kind \in {"count", "size"} -> VNum(DCount(0))
      [] kind = "any" -> (LET v == AnyVal(1) IN IF v.k = "null" THEN VStr("v") ELSE v)
      [] At(kind, 1) = "[" -> VArr(SeqOf(R(0..2), LAMBDA i : Thing(From(kind, 2), d)))
      [] At(kind, 1) = "{" -> LET q == Some(R(0..2), MapKeys) IN VObj(SeqOf(Len(q), LAMBDA i : Pair(q[i], Thing(From(kind, 2), d))))
      [] OTHER -> LET q == Pairs(kind, Keys(kind), d, IF kind = "Schema" THEN 5 ELSE 2) IN
                  VObj(IF Chance(10) THEN Append(q, Pair(R({"x-vendor", "unknown"}), AnyVal(1))) ELSE q)
Put(v, key, w) == VObj(Append(SelectSeq(v.o, LAMBDA p : p.n # key), Pair(key, w)))
Drop(v, key) == VObj(SelectSeq(v.o, LAMBDA p : p.n # key))
RandDoc(u) ==
    LET info == Put(Put(Thing("Info", 2), "title", VStr(R({"T", "Two words"}))), "version", VStr(R({"1", "1.0", "v2"})))
        info2 == IF "license" \in ObjKeys(info) /\ ~Chance(12) THEN Put(info, "license", Put(ObjGet(info, "license"), "name", VStr("MIT"))) ELSE info
        ps == Some(R(0..2), {"/", "/a", "/a/{b}", "/x?y=1"})
        deep == R({1, 2, 3, 4, 6})
        m == Thing("Model", 1)
        paths == VObj(SeqOf(Len(ps), LAMBDA i : Pair(ps[i], Thing("PathItem", deep))))
        d == Put(Put(Put(m, "openapi", VStr(R({"3.0.0", "3.0.3", "3.1.0"}))), "info", info2), "paths", paths)
        d1 == IF Chance(2) THEN Put(d, "components", Thing("Components", deep)) ELSE Drop(d, "components")
        d2 == IF Chance(2) THEN Put(d1, "servers", VArr(SeqOf(R(0..2), LAMBDA i : Thing("Server", 3)))) ELSE Drop(d1, "servers") IN
    IF Chance(2) THEN Drop(d2, "security") ELSE d2
\* something missing or wrong that no document may lack
Spoiled(d) ==
    LET k == R(1..8) IN
    CASE k = 1 -> Drop(d, "openapi") [] k = 2 -> Put(d, "openapi", VStr("")) [] k = 3 -> Drop(d, "info") [] k = 4 -> Drop(d, "paths") [] k = 5 -> Put(d, "paths", VNull)
      [] k = 6 -> Put(d, "info", R({Drop(ObjGet(d, "info"), "title"), Drop(ObjGet(d, "info"), "version"), Put(ObjGet(d, "info"), "title", VStr("")), Put(ObjGet(d, "info"), "version", VStr("")), VObj(<<>>), VNull}))
      [] k = 7 -> Put(d, "info", Put(ObjGet(d, "info"), "license", R({VObj(<<>>), VObj(<<Pair("url", VStr("u"))>>), VObj(<<Pair("name", VStr(""))>>)})))
      [] OTHER -> Put(d, "paths", VObj(ObjGet(d, "paths").o \o <<Pair(R({"a", "", "x-a", " /b", "{b}/"}), VObj(<<>>))>>))
Case(u) == LET d == RandDoc(0) IN [op |-> "oas.document", in |-> [doc |-> IF Chance(6) THEN Spoiled(d) ELSE d, fname |-> R({"d.json", "d.yaml", "d.txt", "a.yaml.json"})]]
Init == x = None
Next == x' = Case(0)
Emit == x.op # "none" => PrintT("CASE " \o ToJson(x))
\* nothing more is lost by doing it again
DesignKept == x.op # "none" /\ GoodDoc(x.in.doc) => LET v == Kept("Model", x.in.doc) IN GoodDoc(v) /\ SameVal(Kept("Model", v), v)
=============================================================================
