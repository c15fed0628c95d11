---------------------------- MODULE GenJavaHttp -----------------------------
(* Services, requests and answers, for the Java server and client: P26, P27 *)
EXTENDS GenJavaGen, JavaHttp
Server == Mode = "P26"
BodyMethods == {"PUT", "POST", "PATCH"}
JHttpFields == FieldPool \cup {"req", "res", "e", "status", "entity", "URL", "xY", "response", "target", "result"}
TextSimple == {"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "String", "Timestamp", "UUID"}
TextNames(S) == { n \in TypeNames(S) : JTextSpec(S, OfType(n)) }
TextSpec(S) == IF TextNames(S) # {} /\ Chance(3) THEN OfType(R(TextNames(S))) ELSE OfType(R(TextSimple))
\* types of bodies: not what has no JSON of its own
Timely(S, n) == n # "" /\ JBase(S, OfType(n)) \in {"Timestamp", "Array", "Map"}
BodyOk(S, ts) == LET b == JBase(S, ts) e == JEnd(S, ts) IN b \notin {"Any", "Bytes", "Timestamp"} /\ (b \in {"Array", "Map"} => ~Timely(S, e.items))
BodySpec(S, n) == LET q == SeqOf(3, LAMBDA i : JSpec(S, TypeNames(S)))
                   ok == { i \in 1..3 : BodyOk(S, q[i]) } IN
               IF Chance(8) /\ Cap(n) \notin TypePool THEN InlineFor(S, TypeNames(S)) ELSE IF ok = {} THEN OfType(R({"String", "Int32", "Bool"})) ELSE q[FirstIx(ok)]
JDefaultOf(S, ts) ==
    LET b == JBase(S, ts) IN
    CASE b = "String" -> VStr(R({"dflt", "a b", "quo\"te", "back\\slash", "100%", " a ", "café"}))
      [] b = "UUID" -> VStr("1ce437b0-1dd2-11b2-bc26-003ee1be85f9")
      [] b \in IntTypes -> VNum(R({"5", "-7", "100", "0"} \cup (IF b = "Int64" THEN {"5000000000", "-9223372036854775808", "9223372036854775807"} ELSE IF b = "Int32" THEN {"2147483647", "-40000"} ELSE {})))
      [] b \in {"Float32", "Float64"} -> VNum(R({"2.5", "-1", "100"}))
      [] b = "Bool" -> VBool(Chance(2))
      [] b = "Decimal" -> VNum(R({"1.25", "0", "98765432109876543210.0123456789"}))
      [] b = "Timestamp" -> VStr("2019-01-02T03:04:05.678Z")
      [] b = "Enum" -> VStr(EnumText(Pick(JClassDef(S, ts).elements)))
InHeaders == {"X-One", "x-two", "If-None-Match", "X-THREE"}
OutHeaders == {"X-Out", "Last-Modified", "ETag", "x-low"}
MkInput(S, n, where, hdr, i) ==
    LET ts == IF where = "body" THEN BodySpec(S, n) ELSE TextSpec(S) IN
    [Param0 EXCEPT !.name = n, !.ts = ts, !.required = where = "path" \/ Chance(3), !.path = where = "path",
       !.query = IF where = "query" THEN R({n, n \o "Q", "q" \o NatStr(i)}) ELSE "", !.header = IF where = "header" THEN hdr ELSE "",
       !.default = IF where \in {"query", "header"} /\ JBase(S, ts) # "UnitValue" /\ Chance(3) THEN <<JDefaultOf(S, ts)>> ELSE <<>>]
HttpAction(S, name, k) ==
    LET m == R({"GET", "PUT", "POST", "PATCH", "DELETE", "HEAD", "OPTIONS"})
        names == Some(R(0..5), JHttpFields)
        hdrs == Some(5, InHeaders)
        inp == SeqOf(Len(names), LAMBDA i : MkInput(S, names[i], IF i = 1 /\ m \in BodyMethods /\ ~Chance(4) THEN "body" ELSE R({"path", "query", IF i <= 4 THEN "header" ELSE "query"}), IF i <= Len(hdrs) THEN hdrs[i] ELSE "", i))
        paths == Filter(inp, LAMBDA p : p.path)
        qs == Filter(inp, LAMBDA p : p.query # "")
        tail == Concat(SeqMap(paths, LAMBDA p : (IF Chance(3) THEN <<"of">> ELSE <<>>) \o <<"{" \o p.name \o "}">>))
        st == R({200, 200, 201, 202, 204, 304, 0})
        onames == Some(R(0..3), JHttpFields)
        oh == Some(3, OutHeaders)
        outs == SeqOf(Len(onames), LAMBDA i : IF i = 1 /\ st \notin NoContent /\ ~Chance(4)
                  THEN [Param0 EXCEPT !.name = onames[i], !.ts = BodySpec(S, onames[i]), !.required = Chance(2)]
                  ELSE [Param0 EXCEPT !.name = onames[i], !.header = oh[i], !.required = Chance(4), !.ts = TextSpec(S)])
        ex == SeqOf(R(0..3), LAMBDA i : IF JRaisable(S) = {} THEN "" ELSE R(JRaisable(S)))
        es == SeqOf(3, LAMBDA i : R({400, 404, 409, 422, 500, 503} \cup (IF st = 304 THEN {} ELSE {304}))) IN
    [Http0 EXCEPT !.name = name, !.method = m, !.inputs = inp,
       !.path = "/" \o Join(<<R({name, "things", "a-b"})>> \o tail, "/") \o (IF qs # <<>> /\ Chance(2) THEN "?" \o Join(SeqMap(qs, LAMBDA p : p.query \o "={" \o p.name \o "}"), "&") ELSE ""),
       !.expected = IF onames = <<>> /\ Chance(4) THEN <<>> ELSE <<[Expect0 EXCEPT !.status = st, !.outputs = outs]>>,
       !.exceptions = Filter(SeqOf(Len(ex), LAMBDA j : [Exc0 EXCEPT !.type = ex[j], !.status = es[j]]), LAMBDA z : z.type # "")]
HttpSchema(u) ==
    LET S == JChained(JTypesFrom(Some(R(1..5), TypePool), 1, [Schema0 EXCEPT !.name = IF Chance(30) THEN "" ELSE R({"s", "svc", "Thing"}), !.namespace = R({"", "n", "a.b"})]))
        q == Some(R(1..3), ActionPool) IN
    [S EXCEPT !.http = SeqOf(Len(q), LAMBDA i : HttpAction(S, q[i], i))]
Whole(S, ts) == LET v == JVal(S, ts, 3) IN IF JFits(S, ts, v) THEN <<v>> ELSE <<>>
Some3(S, ts) == LET a == Whole(S, ts) b == IF a = <<>> THEN Whole(S, ts) ELSE a IN IF b = <<>> THEN Whole(S, ts) ELSE b

\* text that a request gives a parameter
GoodText(S, ts) ==
    LET b == JBase(S, ts) IN
    CASE b = "String" -> R({"a", "abc", "x y", "50", "a&b=c", "a+b", "#1", "<b>", "q?x", "a;b", "3 kg", "café", "日本"})
      [] b \in IntTypes -> R(JInts(b))
      [] b \in {"Float32", "Float64"} -> R({"0", "1.5", "-2", "1e2", "100", "0.5", "0.03125", "abc"})
      [] b = "Bool" -> R({"true", "false", "TRUE", "True", "no"})
      [] b = "Decimal" -> R(JDecs \cup {"1e2"})
      [] OTHER -> JVal(S, ts, 1).s
SomeText(S, ts) == IF Chance(10) /\ JBase(S, ts) \notin {"Float32", "Float64"} THEN R({"abc", "12", "-1", "true", "2.5", "300", "99999999999999999999", "2019-13-02T03:04:05Z"}) ELSE GoodText(S, ts)
SubstSegs(S, h) == SeqMap(PathSegs(h.path), LAMBDA s : IF IsVar(s) THEN SomeText(S, (CHOOSE p \in SeqSet(h.inputs) : p.name = VarName(s)).ts) ELSE s)
HeaderSafe == {"a", "abc", "x y", "W/\"1\""}
\* values of fields
ParamValue(S, p) == \* of what goes as text
    IF JBase(S, p.ts) = "String" THEN <<VStr(IF p.header # "" THEN R(HeaderSafe) ELSE R({"a", "abc", "x y", "a/b", "q?x", "#1", "a+b", "a;b", "a&b=c", "<b>", "café", "日本", "a=b", "a,b", "(x)", "~a!"}))>> ELSE Some3(S, p.ts)
OutFields(S, h) == Concat(SeqOf(Len(Outputs(h)), LAMBDA i :
    LET p == Outputs(h)[i] v == IF p.header # "" THEN ParamValue(S, p) ELSE Some3(S, p.ts) IN
    IF v = <<>> \/ (p.header # "" /\ Chance(4)) THEN <<>> ELSE <<Pair(p.name, v[1])>>))
Answer0 == [kind |-> "ok", fields |-> <<>>, type |-> "", v |-> VObj(<<>>), msg |-> ""]
ServerAnswer(S, h) ==
    LET k == R(1..5)
        t == IF h.exceptions # <<>> /\ ~Chance(5) THEN h.exceptions[R(1..Len(h.exceptions))].type ELSE IF Raised(S) # {} THEN R(Raised(S)) ELSE ""
        v == IF t = "" THEN <<>> ELSE Some3(S, OfType(t)) IN
    IF k = 1 THEN [Answer0 EXCEPT !.kind = "err", !.msg = "boom"]
    ELSE IF k <= 3 /\ v # <<>> THEN [Answer0 EXCEPT !.kind = "exc", !.type = t, !.v = v[1]]
    ELSE [Answer0 EXCEPT !.fields = OutFields(S, h)]
ServerCallOf(S, base, i) ==
    LET h == Pick(S.http)
        b == BodyOf(h.inputs)
        qs == Filter(h.inputs, LAMBDA p : p.query # "" /\ (~Chance(3)))
        hs == Filter(h.inputs, LAMBDA p : p.header # "" /\ (~Chance(3)))
        v == IF b = <<>> THEN <<>> ELSE Some3(S, b[1].ts)
        hq == SeqOf(Len(hs), LAMBDA j : <<hs[j].header, SomeText(S, hs[j].ts)>>)
        qq == SeqOf(Len(qs), LAMBDA j : <<qs[j].query, SomeText(S, qs[j].ts)>>)
        body == IF b = <<>> THEN <<>> ELSE IF v = <<>> \/ Chance(10) THEN (IF Chance(2) THEN <<>> ELSE <<[k |-> "raw"]>>) ELSE v
        s == SubstSegs(S, h) IN
    [method |-> h.method, segs |-> BaseSegs(base) \o (IF Chance(15) THEN s \o <<"no", "such", "thing", "is", "there", "at", "all", "really">> ELSE s), query |-> qq, headers |-> hq, body |-> body, answer |-> ServerAnswer(S, h)]
InFields(S, h) == Concat(SeqOf(Len(h.inputs), LAMBDA i :
    LET p == h.inputs[i] v == IF IsBody(p) THEN Some3(S, p.ts) ELSE ParamValue(S, p) IN
    IF v = <<>> \/ ((p.query # "" \/ p.header # "") /\ Chance(4)) THEN <<>> ELSE <<Pair(p.name, v[1])>>))
ClientAnswer(S, h) ==
    LET k == R(1..6)
        e == h.exceptions
        xi == IF e = <<>> THEN 0 ELSE R(1..Len(e))
        st == IF k <= 3 THEN ExpectedStatus(h) ELSE IF k <= 5 /\ xi # 0 THEN e[xi].status ELSE R({500, 404, 418, 200})
        b == IF st = ExpectedStatus(h) THEN BodyOf(Outputs(h)) ELSE <<>>
        which == { i \in 1..Len(e) : e[i].status = st }
        ts == IF b # <<>> THEN b[1].ts ELSE IF which # {} THEN OfType(e[FirstIx(which)].type) ELSE TS0
        v == IF ts = TS0 THEN <<>> ELSE Some3(S, ts)
        hs == Filter(HeadersOf(Outputs(h)), LAMBDA p : ~Chance(4)) IN
    [status |-> NatStr(st),
     headers |-> SeqOf(Len(hs), LAMBDA j : <<hs[j].header, SomeText(S, hs[j].ts)>>),
     body |-> IF st \in NoContent THEN <<>> ELSE IF ts = TS0 THEN <<>> ELSE IF v = <<>> \/ Chance(10) THEN (IF Chance(2) THEN <<>> ELSE <<[k |-> "raw"]>>) ELSE v]
ClientCallOf(S, i) == LET h == Pick(S.http) IN [action |-> h.name, fields |-> InFields(S, h), answer |-> ClientAnswer(S, h)]
\* what is given is whole; no two actions are at one path
AtPath(S, base, c) == { i \in 1..Len(S.http) : Matches(BaseSegs(base) \o PathSegs(S.http[i].path), c.segs) }
CallFits(S, base, c) ==
    IF Server THEN LET r == Routes(S, base, c) IN
                   /\ Cardinality(AtPath(S, base, c)) <= 1
                   /\ (r # {} /\ c.answer.kind = "ok") => /\ \A p \in SeqSet(BodyOf(Outputs(S.http[FirstIx(r)]))) : HasN(c.answer.fields, p.name)
                                                        /\ \A f \in SeqSet(c.answer.fields) : \E p \in SeqSet(Outputs(S.http[FirstIx(r)])) : p.name = f.n
    ELSE \A p \in SeqSet(HttpOf(S, c.action).inputs) : (IsBody(p) \/ p.path) => HasN(c.fields, p.name)
JHttpConf(u) == <<<<IF Server THEN "server" ELSE "client", "true">>>>
                \o (IF Chance(3) THEN <<<<IF Server THEN "client" ELSE "server", "true">>>> ELSE <<>>)
                \o Sometimes(4, "name", {"other", "Big"}) \o Sometimes(3, "immutable", {"false", "false", "true"}) \o Sometimes(4, "instants", {"false"})
                \o Sometimes(5, "service-exception", {"true"}) \o Sometimes(6, "package", {"qq", "x.y.zz"}) \o Sometimes(6, "model-package", {"mm"})
                \o (IF Server THEN Sometimes(4, "example-implementation", {"true"}) \o Sometimes(8, "server-package", {"ss"}) ELSE Sometimes(8, "client-package", {"cc"}))
HttpCase(u) ==
    LET S0 == HttpSchema(0)
        base == R({"", "", "/v1", "/api/v2"} \cup (IF Server THEN {"/", "/api/v2/"} ELSE {}))
        S == [S0 EXCEPT !.base = base]
        conf == JHttpConf(0)
        calls == IF JHttpOk(S, conf) THEN Filter(SeqOf(10, LAMBDA i : IF Server THEN ServerCallOf(S, base, i) ELSE ClientCallOf(S, i)), LAMBDA c : CallFits(S, base, c)) ELSE <<>> IN
    [op |-> "java.http", in |-> [side |-> IF Server THEN "server" ELSE "client", schema |-> S, conf |-> conf, base |-> base, calls |-> calls]]
HttpNext == x' = HttpCase(0)
\* what a client sends, a server reads as the same
DesignThrough == x.op = "java.http" /\ x.in.side = "client" =>
    LET S == x.in.schema IN
    \A i \in 1..Len(x.in.calls) : \A p \in SeqSet(HttpOf(S, x.in.calls[i].action).inputs) :
      ~IsBody(p) /\ HasN(x.in.calls[i].fields, p.name) =>
        LET t == JSent(S, p, x.in.calls[i].fields) v == JReadText(S, p.ts, t[1], TRUE) IN v # <<>> /\ SameVal(v[1], GetN(x.in.calls[i].fields, p.name).v)
=============================================================================
