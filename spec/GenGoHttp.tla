----------------------------- MODULE GenGoHttp ------------------------------
(* Services, requests and answers, for the Go server and client: P22, P23 *)
EXTENDS GenGoGen, GoHttp
Server == Mode = "P22"
BodyMethods == {"PUT", "POST", "PATCH"}
TextSimple == {"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "String", "Timestamp", "UUID", "UnitValue"}
TextNames(S, rt) == { n \in TypeNames(S) : AsText(S, n, rt) }
TextSpec(S, rt) == IF TextNames(S, rt) # {} /\ Chance(3) THEN OfType(R(TextNames(S, rt))) ELSE OfType(R(TextSimple \ (IF rt THEN {"UnitValue"} ELSE {})))
DefaultOf(S, n) ==
    LET b == BaseOf(S, n) IN
    CASE b \in {"String", "UUID"} -> VStr(R({"dflt", "a b", "quo\"te", "back\\slash"}))
      [] b = "UnitValue" -> VStr("1 kg")
      [] b \in IntTypes -> VNum(R({"5", "-7", "100", "0"} \cup (IF b = "Int64" THEN {"5000000000", "-9223372036854775808", "9223372036854775807"} ELSE IF b = "Int32" THEN {"2147483647", "-40000"} ELSE {})))
      [] b \in {"Float32", "Float64"} -> VNum(R({"2.5", "-1", "100"}))
      [] b = "Bool" -> VBool(Chance(2))
      [] b = "Decimal" -> VNum(R({"1.25", "0", "98765432109876543210.0123456789"}))
      [] b = "Timestamp" -> VStr("2019-01-02T03:04:05.678Z")
      [] b = "Enum" -> VStr(EnumText(Pick(TypeOf(S, RealName(S, n)).elements)))
InHeaders == {"X-One", "x-two", "If-None-Match", "X-THREE"}
OutHeaders == {"X-Out", "Last-Modified", "Expires", "Date", "ETag", "x-low"}
QueryNames(n) == {n, n \o "Q", "q"}
MkInput(S, rt, n, where, hdr, i) ==
    LET ts == IF Server /\ where # "body" /\ Chance(60) THEN OfType(R({"Any", "Struct", "Bytes"})) ELSE IF where = "body" THEN GoSpec(S, TypeNames(S)) ELSE TextSpec(S, rt) IN
    [Param0 EXCEPT !.name = n, !.ts = ts, !.required = Chance(3), !.path = where = "path",
       !.query = IF where = "query" THEN R({n, n \o "Q", "q" \o NatStr(i)}) ELSE "", !.header = IF where = "header" THEN hdr ELSE "",
       !.default = IF where \in {"query", "header"} /\ AsText(S, ts.type, rt) /\ Chance(3) THEN <<DefaultOf(S, ts.type)>> ELSE <<>>]
HttpAction(S, rt, name, k) ==
    LET m == R({"GET", "PUT", "POST", "PATCH", "DELETE"})
        names == Some(R(0..5), FieldPool)
        hdrs == Some(5, InHeaders)
        inp == SeqOf(Len(names), LAMBDA i : MkInput(S, rt, names[i], IF i = 1 /\ m \in BodyMethods /\ ~Chance(4) THEN "body" ELSE IF i > 5 THEN "query" ELSE R({"path", "query", IF i <= 4 THEN "header" ELSE "query"}), IF i <= Len(hdrs) THEN hdrs[i] ELSE "", i))
        paths == Filter(inp, LAMBDA p : p.path)
        qs == Filter(inp, LAMBDA p : p.query # "")
        tail == Concat(SeqMap(paths, LAMBDA p : (IF Chance(3) THEN <<"of">> ELSE <<>>) \o <<"{" \o p.name \o "}">>))
        st == R({200, 200, 201, 202, 204, 304, 0})
        onames == Some(R(0..3), FieldPool)
        oh == Some(3, OutHeaders)
        outs == SeqOf(Len(onames), LAMBDA i : IF i = 1 /\ st \notin NoContent /\ ~Chance(4)
                  THEN [Param0 EXCEPT !.name = onames[i], !.ts = GoSpec(S, TypeNames(S)), !.required = Chance(2)]
                  ELSE [Param0 EXCEPT !.name = onames[i], !.header = oh[i], !.ts = IF LowStr(oh[i]) \in DateHeaders /\ ~(LowStr(oh[i]) # "date" /\ Chance(3)) THEN OfType("Timestamp") ELSE TextSpec(S, rt)])
        ex == Some(R(0..2), Raisable(S))
        es == Some(2, {400, 401, 404, 409, 410, 422, 429, 500, 503} \cup (IF st = 304 THEN {} ELSE {304})) IN
    [Http0 EXCEPT !.name = name, !.method = m, !.inputs = inp,
       !.path = "/" \o Join(<<R({name, "things", "a-b"})>> \o tail, "/") \o (IF qs # <<>> /\ Chance(2) THEN "?" \o Join(SeqMap(qs, LAMBDA p : p.query \o "={" \o p.name \o "}"), "&") ELSE ""),
       !.expected = IF onames = <<>> /\ Chance(4) THEN <<>> ELSE <<[Expect0 EXCEPT !.status = st, !.outputs = outs]>>,
       !.exceptions = SeqOf(Len(ex), LAMBDA j : [Exc0 EXCEPT !.type = ex[j], !.status = es[j]])]
HttpSchema(rt) ==
    LET S == MaybeChained(GoTypesFrom(Some(R(1..5), TypePool), 1, [Schema0 EXCEPT !.name = R({"s", "svc", "Thing"}), !.namespace = R({"", "n", "a.b"})]))
        q == Some(R(1..3), ActionPool) IN
    [S EXCEPT !.http = SeqOf(Len(q), LAMBDA i : HttpAction(S, rt, q[i], i))]
\* a value of the type that is whole
Whole(S, ts, flaw) == LET v == GoVal(S, ts, 3, flaw) IN IF Full(S, ts, v) THEN <<v>> ELSE <<>>
Some3(S, ts) == LET a == Whole(S, ts, FALSE) b == IF a = <<>> THEN Whole(S, ts, FALSE) ELSE a IN IF b = <<>> THEN Whole(S, ts, FALSE) ELSE b

\* text that a request gives a parameter
SomeText(S, n) ==
    LET b == BaseOf(S, n) IN
    IF Chance(6) THEN R({"abc", "12", "-1", "true", "x y", "2.5"})
    ELSE CASE b \in {"String", "UUID", "UnitValue"} -> R({"a", "abc", "x y", "50%", "a&b=c", "a+b", "#1", "<b>", "q?x", "a;b", "3 kg", "café", "日本"})
      [] b \in IntTypes -> R({"0", "12", "-5", "127", "128", "-129", "32768", "2147483648", "9223372036854775807", "9223372036854775808", "99999999999999999999", "2.5", "0x10", "1_0", "0b1", "12abc"} \cup (IF Server THEN {"010", "-08"} ELSE {}))
      [] b \in {"Float32", "Float64"} -> R({"0", "1.5", "-2", "1e2", "100", "0.5"})
      [] b = "Bool" -> R(TrueTexts \cup FalseTexts \cup {"yes", "TrUe"})
      [] b = "Decimal" -> R(GoDecs \cup {"1e2", "zz"})
      [] b = "Timestamp" -> R(GoTimes \cup {"Wed, 02 Jan 2019 03:04:05 GMT", "Sat, 29 Feb 2020 23:59:59 GMT", "2019-13-02T03:04:05Z"})
      [] b = "Enum" -> EnumText(Pick(TypeOf(S, RealName(S, n)).elements))
      [] OTHER -> "zz"
Edges(s) == s # TrimSp(s)
SubstSegs(S, h) == SeqMap(PathSegs(h.path), LAMBDA s : IF IsVar(s) THEN SomeText(S, (CHOOSE p \in SeqSet(h.inputs) : p.name = VarName(s)).ts.type) ELSE s)
\* what an implementation answers
OutFields(S, h) == Concat(SeqOf(Len(Outputs(h)), LAMBDA i :
    LET p == Outputs(h)[i] v == Some3(S, p.ts) IN
    IF p.header # "" /\ LowStr(p.header) # "date" /\ Chance(4) THEN <<>>
    ELSE IF p.header # "" /\ BaseOf(S, p.ts.type) \in {"String", "UUID"} THEN <<Pair(p.name, VStr(R({"a", "abc", "x y", "W/\"1\""})))>>
    ELSE IF v = <<>> THEN <<Pair(p.name, VObj(<<>>))>> ELSE <<Pair(p.name, v[1])>>))
Answer0 == [kind |-> "ok", fields |-> <<>>, type |-> "", v |-> VObj(<<>>), msg |-> ""]
RaisedNames(S) == Raised(S)
ServerAnswer(S, h) ==
    LET k == R(1..5)
        t == IF h.exceptions # <<>> /\ ~Chance(5) THEN h.exceptions[R(1..Len(h.exceptions))].type ELSE IF Raised(S) # {} THEN R(Raised(S)) ELSE ""
        v == IF t = "" THEN <<>> ELSE Some3(S, OfType(t)) IN
    IF k = 1 THEN [Answer0 EXCEPT !.kind = "err", !.msg = R({"boom", "no \"such\" thing", "<oops> & more", "100%"})]
    ELSE IF k <= 3 /\ v # <<>> THEN [Answer0 EXCEPT !.kind = "exc", !.type = t, !.v = v[1]]
    ELSE [Answer0 EXCEPT !.fields = OutFields(S, h)]
ServerCallOf(S, base, i) ==
    LET h == Pick(S.http)
        b == BodyOf(h.inputs)
        qs == Filter(h.inputs, LAMBDA p : p.query # "" /\ ~Chance(3))
        hs == Filter(h.inputs, LAMBDA p : p.header # "" /\ ~Chance(3))
        v == IF b = <<>> THEN <<>> ELSE IF Chance(5) THEN Whole(S, b[1].ts, TRUE) ELSE Some3(S, b[1].ts)
        hq == SeqOf(Len(hs), LAMBDA j : <<hs[j].header, SomeText(S, hs[j].ts.type)>>)
        qq == SeqOf(Len(qs), LAMBDA j : <<qs[j].query, IF Chance(8) THEN "" ELSE SomeText(S, qs[j].ts.type)>>)
        body == IF b = <<>> THEN <<>> ELSE IF v = <<>> \/ Chance(10) THEN (IF Chance(2) THEN <<>> ELSE <<[k |-> "raw"]>>) ELSE v
        extra == Chance(15)
        segs == LET s == SubstSegs(S, h) IN BaseSegs(base) \o (IF extra THEN s \o <<"no", "such", "thing", "is", "there", "at", "all", "really">> ELSE s) IN
    [method |-> h.method, segs |-> segs, query |-> qq, headers |-> hq, body |-> body, answer |-> ServerAnswer(S, h)]
\* what the client is given
InFields(S, h) == Concat(SeqOf(Len(h.inputs), LAMBDA i :
    LET p == h.inputs[i] v == Some3(S, p.ts) IN
    IF p.path /\ BaseOf(S, p.ts.type) \in {"String", "UUID", "UnitValue"} THEN <<Pair(p.name, VStr(R({"a", "abc", "x y", "50%", "a/b", "q?x", "#1", "a+b", "a;b", "café", "日本", "a=b", "a,b", "(x)", "~a!"})))>>
    ELSE IF p.header # "" /\ BaseOf(S, p.ts.type) \in {"String", "UUID", "UnitValue"} THEN (IF Chance(4) THEN <<>> ELSE <<Pair(p.name, VStr(R({"a", "abc", "x y", "W/\"1\""})))>>)
    ELSE IF (p.query # "" \/ p.header # "") /\ Chance(4) THEN <<>>
    ELSE IF v = <<>> THEN <<Pair(p.name, VObj(<<>>))>> ELSE <<Pair(p.name, v[1])>>))
\* an enum in the path has to be set
OutHeaderText(S, p) == IF LowStr(p.header) = "date" THEN R({"2019-01-02T03:04:05.678Z"} \cup {"Wed, 02 Jan 2019 03:04:05 GMT"})
                       ELSE SomeText(S, p.ts.type)
ClientAnswer(S, h, rt) ==
    LET k == R(1..6)
        e == h.exceptions
        xi == IF e = <<>> THEN 0 ELSE R(1..Len(e))
        st == IF k <= 3 THEN ExpectedStatus(h) ELSE IF k <= 5 /\ xi # 0 THEN e[xi].status ELSE R({500, 404, 418, 200})
        b == IF st = ExpectedStatus(h) THEN BodyOf(Outputs(h)) ELSE <<>>
        ts == IF b # <<>> THEN b[1].ts ELSE IF xi # 0 /\ st = e[xi].status THEN OfType(e[xi].type) ELSE TS0
        v == IF ts = TS0 THEN <<>> ELSE IF Chance(6) THEN Whole(S, ts, TRUE) ELSE Some3(S, ts)
        hs == Filter(HeadersOf(Outputs(h)), LAMBDA p : LowStr(p.header) = "date" \/ ~Chance(4)) IN
    [status |-> NatStr(st),
     headers |-> SeqOf(Len(hs), LAMBDA j : <<hs[j].header, OutHeaderText(S, hs[j])>>),
     body |-> IF st \in NoContent THEN <<>> ELSE IF ts = TS0 THEN <<>> ELSE IF v = <<>> \/ Chance(10) THEN (IF Chance(2) THEN <<>> ELSE <<[k |-> "raw"]>>) ELSE v]
ClientCallOf(S, rt, i) == LET h == Pick(S.http) IN [action |-> h.name, fields |-> InFields(S, h), answer |-> ClientAnswer(S, h, rt)]
\* the fields given can be read: checked, since a type without whole values has none
Given(S, ps, fs, rt) == \A p \in SeqSet(ps) : HasN(fs, p.name) => GoRead(S, p.ts, GetN(fs, p.name).v, rt) # <<>> /\ Full(S, p.ts, GetN(fs, p.name).v)
CallFits(S, base, c, rt) ==
    IF Server THEN LET r == Routes(S, base, c) IN
                   /\ r # {} => /\ c.answer.kind = "ok" => Given(S, Outputs(S.http[FirstIx(r)]), c.answer.fields, rt) /\ \A p \in SeqSet(BodyOf(Outputs(S.http[FirstIx(r)]))) : HasN(c.answer.fields, p.name)
                                /\ c.answer.kind = "ok" => \A f \in SeqSet(c.answer.fields) : \E p \in SeqSet(Outputs(S.http[FirstIx(r)])) : p.name = f.n
                                /\ c.answer.kind = "exc" => GoRead(S, OfType(c.answer.type), c.answer.v, rt) # <<>>
                                /\ \A p \in SeqSet(BodyOf(S.http[FirstIx(r)].inputs)) : c.body = <<>> \/ c.body[1].k = "raw" \/ Full(S, p.ts, c.body[1])
    ELSE Given(S, HttpOf(S, c.action).inputs, c.fields, rt)
HttpConf(rt) == <<<<IF Server THEN "server" ELSE "client", "true">>>>
                \o (IF Chance(3) THEN <<<<IF Server THEN "client" ELSE "server", "true">>>> ELSE <<>>)
                \o (IF Chance(4) THEN <<<<"name", R({"other", "Big"})>>>> ELSE <<>>)
                \o (IF rt THEN <<<<"runtime", "true">>>> ELSE <<>>)
HttpCase(u) ==
    LET rt == Chance(6)
        S == HttpSchema(rt)
        base == R({"", "", "/v1"} \cup (IF Server THEN {"/", "/api/v2/"} ELSE {"/api/v2"}))
        calls == IF ServerOk(S, rt) THEN Filter(SeqOf(10, LAMBDA i : IF Server THEN ServerCallOf(S, base, i) ELSE ClientCallOf(S, rt, i)), LAMBDA c : CallFits(S, base, c, rt)) ELSE <<>> IN
    [op |-> "go.http", in |-> [side |-> IF Server THEN "server" ELSE "client", schema |-> S, conf |-> HttpConf(rt), base |-> base, calls |-> calls]]
HttpNext == x' = HttpCase(0)
\* what a client sends, a server reads as the same
DesignThrough == x.op = "go.http" /\ x.in.side = "client" =>
    LET S == x.in.schema rt == Flag(x.in.conf, "runtime") IN
    \A i \in 1..Len(x.in.calls) : \A p \in SeqSet(HttpOf(S, x.in.calls[i].action).inputs) :
      ~IsBody(p) => LET t == Sent(S, p, x.in.calls[i].fields, rt) IN
                    t # <<>> => LET v == ParamVal(S, p, t[1], rt) IN v # <<>> /\ SameVal(v[1], Held(S, p.ts, x.in.calls[i].fields, p.name, rt)[1])
=============================================================================
