------------------------------- MODULE GoHttp -------------------------------
(* The Go server and the Go client of a schema: what an implementation of the
   service is called with and what goes over HTTP.  P22, P23. *)
EXTENDS GoGen

Flag(conf, k) == AnnoGet(conf, k) = <<"true">>
IsBody(p) == ~p.path /\ p.query = "" /\ p.header = ""
BodyOf(ps) == Filter(ps, IsBody)
HeadersOf(ps) == Filter(ps, LAMBDA p : p.header # "")
TextTypes == {"String", "UUID", "Timestamp", "Bool", "Decimal", "Enum", "UnitValue", "Float32", "Float64"} \cup IntTypes
AsText(S, n, rt) == BaseOf(S, n) \in TextTypes \ (IF rt THEN {"UnitValue"} ELSE {})
\* a server can be generated when every parameter can be read from text
ServerOk(S, rt) == GoOk(S) /\ \A i \in 1..Len(S.http) : \A p \in SeqSet(S.http[i].inputs) : IsBody(p) \/ AsText(S, p.ts.type, rt)
ExpectedStatus(h) == IF h.expected = <<>> \/ h.expected[1].status = 0 THEN 200 ELSE h.expected[1].status

---------------------------------------------------------------------------
(* dates in HTTP headers *)
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
WeekDays == <<"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed">>
WeekDay(f) == WeekDays[((DayNum(f.y, f.mo, f.d) - DayNum(1970, 1, 1)) % 7) + 1]
HttpDate(f) == WeekDay(f) \o ", " \o Pad(f.d, 2) \o " " \o Months[f.mo] \o " " \o Pad(f.y, 4) \o " " \o Pad(f.h, 2) \o ":" \o Pad(f.mi, 2) \o ":" \o Pad(f.s, 2) \o " GMT"
IsHttpDate(s) == Len(s) = 29 /\ SubSeq(s, 4, 5) = ", " /\ HasSuffix(s, " GMT") /\ \E m \in 1..12 : Months[m] = SubSeq(s, 9, 11)
HttpDateAgain(s) == LET m == CHOOSE k \in 1..12 : Months[k] = SubSeq(s, 9, 11) IN
                    SubSeq(s, 13, 16) \o "-" \o Pad(m, 2) \o "-" \o SubSeq(s, 6, 7) \o "T" \o SubSeq(s, 18, 25) \o ".000Z"
DateHeaders == {"last-modified", "date", "expires"}

---------------------------------------------------------------------------
(* text of a parameter -> value: <<>> not set, <<v>> otherwise *)
TimeOf(s, rt) == IF GoTime(s) THEN <<VStr(TimeAgain(s))>> ELSE IF ~rt /\ IsHttpDate(s) THEN <<VStr(HttpDateAgain(s))>> ELSE <<>>
TrueTexts == {"1", "t", "T", "true", "TRUE", "True"}
FalseTexts == {"0", "f", "F", "false", "FALSE", "False"}
SymbolOf(S, n, s) == LET q == TypeOf(S, RealName(S, n)).elements IN IF \E i \in 1..Len(q) : EnumText(q[i]) = s THEN <<VStr(s)>> ELSE <<>>
DecVal(s, rt) == IF rt THEN VNum(Plain(s)) ELSE VStr(Plain(s))
ParamVal(S, p, s, rt) ==
    LET b == BaseOf(S, p.ts.type)
        t == IF s # "" THEN s ELSE IF p.default = <<>> THEN "" ELSE IF p.default[1].k = "str" THEN p.default[1].s ELSE "" IN
    CASE b \in {"String", "UUID", "UnitValue"} -> IF t = "" THEN <<>> ELSE <<VStr(t)>>
      [] b \in IntTypes -> IF IsIntText(s) /\ InRange(Dec(s), b) THEN <<VNum(s)>> ELSE p.default
      [] b \in {"Float32", "Float64"} -> IF IsDecText(s) THEN <<VNum(Plain(s))>> ELSE p.default
      [] b = "Bool" -> IF s \in TrueTexts THEN <<VBool(TRUE)>> ELSE IF s \in FalseTexts THEN <<>> ELSE p.default
      [] b = "Decimal" -> IF s = "" THEN (IF p.default = <<>> THEN <<>> ELSE <<DecVal(p.default[1].n, rt)>>) ELSE IF IsDecText(s) THEN <<DecVal(s, rt)>> ELSE <<>>
      [] b = "Timestamp" -> LET v == TimeOf(s, rt) IN IF v # <<>> THEN v ELSE IF p.default = <<>> THEN <<>> ELSE <<VStr(TimeAgain(p.default[1].s))>>
      [] b = "Enum" -> SymbolOf(S, p.ts.type, t)
\* a field of a request or response, as observed
SameField(S, ts, want, got) ==
    IF got.z THEN want = <<>> \/ Zero(S, ts, want[1]) ELSE want # <<>> /\ SameVal(want[1], got.v)
FieldAt(q, name) == q[CHOOSE i \in 1..Len(q) : q[i].n = Cap(name)]
HasField(q, name) == \E i \in 1..Len(q) : q[i].n = Cap(name)

---------------------------------------------------------------------------
(* value -> text *)
TextOf(v) == CASE v.k = "str" -> v.s [] v.k = "num" -> Plain(v.n) [] v.k = "bool" -> IF v.b THEN "true" ELSE "false"
\* of what the implementation gave a field: <<>> or <<the value as the type holds it>>
Held(S, ts, fs, name, rt) == IF HasN(fs, name) THEN GoRead(S, ts, GetN(fs, name).v, rt) ELSE <<>>
Pointer(S, n, rt) == BaseOf(S, n) \in {"Decimal", "Timestamp"} \cup (IF rt THEN {"UnitValue"} ELSE {})
ZeroText(S, n) == LET b == BaseOf(S, n) IN IF b \in IntTypes \cup {"Float32", "Float64"} THEN "0" ELSE IF b = "Bool" THEN "false" ELSE ""
\* the text of a header of the response; <<>> for no header
HeaderText(S, p, fs, rt) ==
    LET v == Held(S, p.ts, fs, p.name, rt) IN
    IF v = <<>> THEN (IF Pointer(S, p.ts.type, rt) THEN <<>> ELSE <<ZeroText(S, p.ts.type)>>)
    ELSE IF BaseOf(S, p.ts.type) = "Timestamp" /\ LowStr(p.header) \in DateHeaders THEN <<HttpDate(Fields(LocalText(v[1].s)))>>
    ELSE <<TextOf(v[1])>>
\* numbers may be written in any way
SameParam(S, p, want, got) == want = got \/ (BaseOf(S, p.ts.type) \in NumericTypes /\ IsDecText(got) /\ SameNum(Dec(want), Dec(got)))
HasHeader(hs, n) == \E i \in 1..Len(hs) : hs[i][1] = LowStr(n)
Header(hs, n) == IF HasHeader(hs, n) THEN hs[CHOOSE i \in 1..Len(hs) : hs[i][1] = LowStr(n)][2] ELSE ""
PairGet(q, n) == LET r == AnnoGet(q, n) IN Opt(r, "")

---------------------------------------------------------------------------
(* the server *)
PathSegs(p) == LET q == Pos(p, "?") b == IF q = 0 THEN p ELSE UpTo(p, q - 1) IN Split(From(b, 2), "/")
BaseSegs(base) == LET b == StripRight(base, "/") IN IF b = "" THEN <<>> ELSE Split(From(b, 2), "/")
IsVar(s) == s # "" /\ At(s, 1) = "{"
VarName(s) == SubSeq(s, 2, Len(s) - 1)
Matches(tmpl, segs) == Len(tmpl) = Len(segs) /\ \A i \in 1..Len(segs) : IF IsVar(tmpl[i]) THEN segs[i] # "" ELSE tmpl[i] = segs[i]
Routes(S, base, c) == { i \in 1..Len(S.http) : S.http[i].method = c.method /\ Matches(BaseSegs(base) \o PathSegs(S.http[i].path), c.segs) }
PathArg(base, h, c, name) == LET t == BaseSegs(base) \o PathSegs(h.path) IN c.segs[CHOOSE i \in 1..Len(t) : t[i] = "{" \o name \o "}"]
ArgText(base, h, c, p) == IF p.query # "" THEN PairGet(c.query, p.query)
                          ELSE IF p.header # "" THEN PairGet(c.headers, p.header)
                          ELSE PathArg(base, h, c, p.name)
BodyRead(S, ts, body, rt) == IF body = <<>> \/ body[1].k = "raw" THEN <<>> ELSE GoRead(S, ts, body[1], rt)
BadBody(S, h, c, rt) == \E p \in SeqSet(BodyOf(h.inputs)) : BodyRead(S, p.ts, c.body, rt) = <<>>
\* what the implementation sees of an input
InputSeen(S, base, h, c, p, rt, got) ==
    IF IsBody(p) THEN SameField(S, p.ts, BodyRead(S, p.ts, c.body, rt), got)
    ELSE LET s == ArgText(base, h, c, p) IN
         \/ BaseOf(S, p.ts.type) = "Decimal" /\ s # "" /\ ~IsDecText(s)      \* open
         \/ BaseOf(S, p.ts.type) \in {"Float32", "Float64"} /\ IsDecText(s) /\ SigDigits(s) > 6   \* rounded
         \/ SameField(S, p.ts, ParamVal(S, p, s, rt), got)
NoContent == {204, 304}
ServerBody(S, ts, v, body, rt) == body # <<>> /\ SameVal(GoRead(S, ts, v, rt)[1], body[1])
ServerCall(S, base, c, o, rt) ==
    LET r == Routes(S, base, c) IN
    IF r = {} THEN o.status = "404" /\ o.seen = <<>>
    ELSE LET h == S.http[FirstIx(r)]
             a == c.answer IN
         IF BadBody(S, h, c, rt) THEN o.status = "400" /\ o.seen = <<>>
         ELSE /\ Len(o.seen) = 1 /\ o.seen[1].action = Cap(h.name)
              /\ \A p \in SeqSet(h.inputs) : HasField(o.seen[1].fields, p.name) /\ InputSeen(S, base, h, c, p, rt, FieldAt(o.seen[1].fields, p.name))
              /\ CASE a.kind = "err" -> o.status = "500" /\ o.body # <<>> /\ o.body[1].k = "obj" /\ "message" \in ObjKeys(o.body[1]) /\ ObjGet(o.body[1], "message") = VStr(a.msg)
                   [] a.kind = "exc" ->
                      LET e == { i \in 1..Len(h.exceptions) : h.exceptions[i].type = a.type } IN
                      IF e = {} THEN o.status = "500"
                      ELSE LET st == h.exceptions[FirstIx(e)].status IN
                           /\ o.status = NatStr(st)
                           /\ st \in NoContent \/ ServerBody(S, OfType(a.type), a.v, o.body, rt)
                   [] a.kind = "ok" ->
                      /\ o.status = NatStr(ExpectedStatus(h))
                      /\ \A p \in SeqSet(HeadersOf(Outputs(h))) :
                           \/ BaseOf(S, p.ts.type) = "Enum" /\ ~HasN(a.fields, p.name)      \* open: an enum that is not set
                           \/ LET t == HeaderText(S, p, a.fields, rt) IN
                              IF t = <<>> THEN LowStr(p.header) = "date" \/ ~HasHeader(o.headers, p.header) ELSE SameParam(S, p, t[1], Header(o.headers, p.header))
                      /\ \A p \in SeqSet(BodyOf(Outputs(h))) : ServerBody(S, p.ts, GetN(a.fields, p.name).v, o.body, rt)
                      /\ BodyOf(Outputs(h)) # <<>> => Header(o.headers, "content-type") = "application/json"

---------------------------------------------------------------------------
(* the client *)
Sent(S, p, fs, rt) == LET v == Held(S, p.ts, fs, p.name, rt) IN
                      IF v = <<>> \/ Zero(S, p.ts, v[1]) THEN <<>> ELSE <<TextOf(v[1])>>
PathText(S, p, fs, rt) == TextOf(Held(S, p.ts, fs, p.name, rt)[1])
ClientRequest(S, base, h, c, q, rt) ==
    LET queries == Filter(h.inputs, LAMBDA p : p.query # "" /\ Sent(S, p, c.fields, rt) # <<>>) IN
    /\ q.method = h.method
    /\ LET t == BaseSegs(base) \o PathSegs(h.path)
           arg(i) == CHOOSE z \in SeqSet(h.inputs) : z.name = VarName(t[i]) IN
       /\ Len(t) = Len(q.segs)
       /\ \A i \in 1..Len(t) : IF IsVar(t[i]) THEN SameParam(S, arg(i), PathText(S, arg(i), c.fields, rt), q.segs[i]) ELSE t[i] = q.segs[i]
    /\ Len(q.query) = Len(queries)
    /\ \A p \in SeqSet(queries) : \E i \in 1..Len(q.query) : q.query[i][1] = p.query /\ SameParam(S, p, Sent(S, p, c.fields, rt)[1], q.query[i][2])
    /\ \A p \in SeqSet(HeadersOf(h.inputs)) : LET t == Sent(S, p, c.fields, rt) IN
         IF t = <<>> THEN ~HasHeader(q.headers, p.header) ELSE HasHeader(q.headers, p.header) /\ SameParam(S, p, t[1], Header(q.headers, p.header))
    /\ LET b == BodyOf(h.inputs) IN
       IF b = <<>> THEN q.body = <<>>
       ELSE /\ q.body # <<>> /\ SameVal(Held(S, b[1].ts, c.fields, b[1].name, rt)[1], q.body[1])
            /\ Header(q.headers, "content-type") = "application/json"
\* what a header of the response sets
HeaderVal(S, p, s, rt) ==
    LET b == BaseOf(S, p.ts.type) IN
    CASE s = "" -> <<>>
      [] b \in {"String", "UUID"} -> <<VStr(s)>>
      [] b = "UnitValue" -> IF ~rt \/ IsUVText(s) THEN <<VStr(s)>> ELSE <<>>
      [] b \in IntTypes -> IF IsIntText(s) /\ InRange(Dec(s), b) THEN <<VNum(s)>> ELSE <<>>
      [] b \in {"Float32", "Float64"} -> IF IsDecText(s) THEN <<VNum(Plain(s))>> ELSE <<>>
      [] b = "Decimal" -> IF IsDecText(s) THEN <<DecVal(s, rt)>> ELSE <<>>
      [] b = "Bool" -> IF s \in {"true", "false"} THEN <<VBool(s = "true")>> ELSE <<>>
      [] b = "Timestamp" -> TimeOf(s, rt)
      [] b = "Enum" -> SymbolOf(S, p.ts.type, s)
\* an alias of a pointer type is unset when its header cannot be read
ClientResult(S, h, c, r, rt) ==
    LET a == c.answer
        st == NatOf(a.status)
        e == { i \in 1..Len(h.exceptions) : h.exceptions[i].status = st }
        out == Outputs(h) IN
    IF st = ExpectedStatus(h) THEN
       IF \E p \in SeqSet(BodyOf(out)) : BodyRead(S, p.ts, a.body, rt) = <<>> THEN r.kind = "err"
       ELSE /\ r.kind = "ok"
            /\ \A p \in SeqSet(out) : /\ HasField(r.fields, p.name)
                 /\ \/ p.header # "" /\ BaseOf(S, p.ts.type) \in {"Decimal", "Timestamp", "UnitValue"} /\ PairGet(a.headers, p.header) # ""
                          /\ HeaderVal(S, p, PairGet(a.headers, p.header), rt) = <<>>      \* open
                    \/ SameField(S, p.ts, IF p.header # "" THEN HeaderVal(S, p, PairGet(a.headers, p.header), rt) ELSE BodyRead(S, p.ts, a.body, rt),
                                 FieldAt(r.fields, p.name))
    ELSE IF e # {} THEN
       LET t == h.exceptions[FirstIx(e)].type IN
       IF st \in NoContent THEN r.kind = "exc" /\ r.type = t
       ELSE LET v == BodyRead(S, OfType(t), a.body, rt) IN
            IF v = <<>> THEN r.kind = "err" ELSE r.kind = "exc" /\ r.type = t /\ SameVal(v[1], r.v)
    ELSE r.kind = "err"
ClientCall(S, base, c, o, rt) ==
    LET h == HttpOf(S, c.action) IN
    /\ Len(o.reqs) = 1 /\ ClientRequest(S, base, h, c, o.reqs[1], rt)
    /\ ClientResult(S, h, c, o.res, rt)
=============================================================================
