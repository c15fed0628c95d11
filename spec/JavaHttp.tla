------------------------------ MODULE JavaHttp ------------------------------
(* The Java server and the Java client of a schema: what an implementation of
   the service is called with and what goes over HTTP.  P26, P27. *)
EXTENDS JavaGen, GoHttp

JNamed(S, conf) == Opt(AnnoGet(conf, "name"), S.name) # ""
JHttpOk(S, conf) == JavaOk(S) /\ JNamed(S, conf)
\* an input or output that can go as text
JTextSpec(S, ts) == LET e == JEnd(S, ts) IN IF JClass(S, e.type) THEN TypeOf(S, e.type).type \in {"Enum", "UnitValue"} ELSE e.type \in TextTypes \ {"Enum", "UnitValue"}
JBase(S, ts) == LET e == JEnd(S, ts) IN IF JClass(S, e.type) THEN TypeOf(S, e.type).type ELSE e.type
JClassDef(S, ts) == TypeOf(S, JEnd(S, ts).type)

---------------------------------------------------------------------------
(* text of a parameter -> <<v>>, or <<>> when it cannot be read *)
JEnumVal(S, ts, s) == LET q == JClassDef(S, ts).elements IN IF \E i \in 1..Len(q) : EnumText(q[i]) = s THEN <<VStr(s)>> ELSE <<>>
JReadNum(b, s) ==
    CASE b \in IntTypes -> IF IsIntText(s) /\ InRange(Dec(s), b) THEN <<VNum(s)>> ELSE <<>>
      [] OTHER -> IF IsDecText(s) THEN <<VNum(Plain(s))>> ELSE <<>>
JUnitVal(S, ts, s) ==
    LET d == JClassDef(S, ts) q == Split(s, " ") IN
    IF Len(q) < 2 THEN <<>>
    ELSE IF JReadNum(BaseOf(S, d.value), q[1]) = <<>> THEN <<>>
    ELSE IF BaseOf(S, d.unit) = "Enum" /\ JEnumVal(S, OfType(d.unit), q[2]) = <<>> THEN <<>> ELSE <<VStr(s)>>
JReadText(S, ts, s, instants) ==
    LET b == JBase(S, ts) IN
    CASE b = "String" -> <<VStr(s)>>
      [] b = "Bool" -> <<VBool(LowStr(s) = "true")>>
      [] b \in NumericTypes -> JReadNum(b, s)
      [] b = "UUID" -> IF IsUUIDText(s) THEN <<VStr(LowStr(s))>> ELSE <<>>
      [] b = "Timestamp" -> IF ~instants \/ GoTime(s) THEN <<VStr(s)>> ELSE <<>>
      [] b = "Enum" -> JEnumVal(S, ts, s)
      [] b = "UnitValue" -> JUnitVal(S, ts, s)
\* the text of a default
DefaultText(p) == LET d == p.default[1] IN CASE d.k = "str" -> d.s [] d.k = "num" -> d.n [] d.k = "bool" -> IF d.b THEN "true" ELSE "false"
\* a field of a request or response, as observed
JSameField(want, got) == IF got.z THEN want = <<>> ELSE want # <<>> /\ SameVal(want[1], got.v)
JHasField(q, name) == \E i \in 1..Len(q) : q[i].n = name
JFieldAt(q, name) == q[CHOOSE i \in 1..Len(q) : q[i].n = name]

---------------------------------------------------------------------------
(* value -> text: what toString() writes of it *)
JWritten(S, ts, v) == TextOf(v)
JSameText(S, p, want, got) == want = got \/ (JBase(S, p.ts) \in NumericTypes /\ IsDecText(got) /\ SameNum(Dec(want), Dec(got)))
JGiven(fs, name) == IF HasN(fs, name) THEN <<GetN(fs, name).v>> ELSE <<>>

---------------------------------------------------------------------------
(* the server *)
Primitive0(S, ts) == JEnd(S, ts).type \in Prims
JArg(base, h, c, p) == \* <<text>> or <<>>
    IF p.query # "" THEN AnnoGet(c.query, p.query) ELSE IF p.header # "" THEN AnnoGet(c.headers, p.header) ELSE <<PathArg(base, h, c, p.name)>>
JArgText(base, h, c, p) == LET a == JArg(base, h, c, p) IN IF a = <<>> /\ p.default # <<>> THEN <<DefaultText(p)>> ELSE a
JBadArg(S, base, h, c, p, inst) == ~IsBody(p) /\ LET t == JArgText(base, h, c, p) IN t # <<>> /\ JReadText(S, p.ts, t[1], inst) = <<>>
\* a required parameter of a primitive type that is not there (open)
JMissing(S, base, h, c, p) == ~IsBody(p) /\ p.required /\ Primitive0(S, p.ts) /\ JArgText(base, h, c, p) = <<>>
\* Strings as bodies that cannot be read are open
JStringBody(S, h) == \E p \in SeqSet(BodyOf(h.inputs)) : JBase(S, p.ts) = "String"
JBadBody(h, c) == BodyOf(h.inputs) # <<>> /\ (c.body = <<>> \/ c.body[1].k = "raw")
JInputSeen(S, base, h, c, p, inst, got) ==
    IF IsBody(p) THEN JSameField(<<JKeep(S, p.ts, c.body[1])>>, got)
    ELSE LET t == JArgText(base, h, c, p) IN JSameField(IF t = <<>> THEN <<>> ELSE JReadText(S, p.ts, t[1], inst), got)
JServerBody(S, ts, v, body) == body # <<>> /\ SameVal(JKeep(S, ts, v), body[1])
JServerCall(S, base, c, o, inst) ==
    LET r == Routes(S, base, c) IN
    IF r = {} THEN o.status \in {"404", "405"} /\ o.seen = <<>>
    ELSE LET h == S.http[FirstIx(r)]
             a == c.answer
             badp == { p \in SeqSet(h.inputs) : JBadArg(S, base, h, c, p, inst) } IN
         IF \E p \in SeqSet(h.inputs) : JMissing(S, base, h, c, p) THEN TRUE
         ELSE IF badp # {} \/ (JBadBody(h, c) /\ ~JStringBody(S, h))
         THEN /\ o.seen = <<>>
              /\ o.status \in (IF \E p \in badp : p.header = "" THEN {"404"} ELSE {}) \cup (IF JBadBody(h, c) \/ \E p \in badp : p.header # "" THEN {"400"} ELSE {})
         ELSE IF JBadBody(h, c) THEN TRUE
         ELSE /\ Len(o.seen) = 1 /\ o.seen[1].action = Uncap(h.name)
              /\ \A p \in SeqSet(h.inputs) : JHasField(o.seen[1].fields, p.name) /\ JInputSeen(S, base, h, c, p, inst, JFieldAt(o.seen[1].fields, p.name))
              /\ CASE a.kind = "err" -> o.status = "500"
                   [] a.kind = "exc" ->
                      LET e == { i \in 1..Len(h.exceptions) : RealName(S, h.exceptions[i].type) = RealName(S, a.type) } IN
                      IF e = {} THEN o.status = "500"
                      ELSE LET st == h.exceptions[FirstIx(e)].status IN
                           o.status = NatStr(st) /\ (st \in NoContent \/ JServerBody(S, OfType(a.type), a.v, o.body))
                   [] a.kind = "ok" ->
                      /\ o.status = NatStr(ExpectedStatus(h))
                      /\ \A p \in SeqSet(HeadersOf(Outputs(h))) : LET v == JGiven(a.fields, p.name) IN
                           IF v = <<>> THEN Primitive0(S, p.ts) \/ ~HasHeader(o.headers, p.header)
                           ELSE HasHeader(o.headers, p.header) /\ JSameText(S, p, TextOf(v[1]), Header(o.headers, p.header))
                      /\ \A p \in SeqSet(BodyOf(Outputs(h))) : JServerBody(S, p.ts, GetN(a.fields, p.name).v, o.body)

---------------------------------------------------------------------------
(* the client *)
\* what is sent of an input: of a primitive that is not given, its zero
JSent(S, p, fs) == LET v == JGiven(fs, p.name) IN
    IF v # <<>> THEN <<TextOf(v[1])>> ELSE IF p.required /\ Primitive0(S, p.ts) THEN <<IF JBase(S, p.ts) = "Bool" THEN "false" ELSE "0">> ELSE <<>>
JClientRequest(S, base, h, c, q) ==
    LET queries == Filter(h.inputs, LAMBDA p : p.query # "" /\ JSent(S, p, c.fields) # <<>>)
        t == BaseSegs(base) \o PathSegs(h.path)
        arg(i) == CHOOSE z \in SeqSet(h.inputs) : z.name = VarName(t[i])
        b == BodyOf(h.inputs) IN
    /\ q.method = h.method
    /\ Len(t) = Len(q.segs)
    /\ \A i \in 1..Len(t) : IF IsVar(t[i]) THEN JSameText(S, arg(i), JSent(S, arg(i), c.fields)[1], q.segs[i]) ELSE t[i] = q.segs[i]
    /\ Len(q.query) = Len(queries)
    /\ \A p \in SeqSet(queries) : \E i \in 1..Len(q.query) : q.query[i][1] = p.query /\ JSameText(S, p, JSent(S, p, c.fields)[1], q.query[i][2])
    /\ \A p \in SeqSet(HeadersOf(h.inputs)) : LET s == JSent(S, p, c.fields) IN
         IF s = <<>> THEN ~HasHeader(q.headers, p.header) ELSE HasHeader(q.headers, p.header) /\ JSameText(S, p, s[1], Header(q.headers, p.header))
    /\ IF b = <<>> THEN q.body = <<>>
       ELSE q.body # <<>> /\ SameVal(JKeep(S, b[1].ts, GetN(c.fields, b[1].name).v), q.body[1]) /\ Header(q.headers, "content-type") = "application/json"
JHeaderVal(S, p, a, inst) == LET s == AnnoGet(a.headers, p.header) IN IF s = <<>> THEN <<>> ELSE JReadText(S, p.ts, s[1], inst)
JClientResult(S, h, c, r, inst) ==
    LET a == c.answer
        st == NatOf(a.status)
        e == { i \in 1..Len(h.exceptions) : h.exceptions[i].status = st }
        out == Outputs(h)
        badBody == BodyOf(out) # <<>> /\ (a.body = <<>> \/ a.body[1].k = "raw")
        badHeader == \E p \in SeqSet(HeadersOf(out)) : AnnoGet(a.headers, p.header) # <<>> /\ JHeaderVal(S, p, a, inst) = <<>> IN
    IF st = ExpectedStatus(h) THEN
       IF out = <<>> THEN r.kind \in {"ok", "nothing"}
       ELSE IF badBody /\ JBase(S, BodyOf(out)[1].ts) = "String" THEN TRUE      \* open
       ELSE IF badBody \/ badHeader THEN r.kind = "err"
       ELSE /\ r.kind = "ok"
            /\ \A p \in SeqSet(out) : /\ JHasField(r.fields, p.name)
                 /\ LET want == IF p.header # "" THEN JHeaderVal(S, p, a, inst) ELSE <<JKeep(S, p.ts, a.body[1])>> IN
                    (want = <<>> /\ p.required /\ Primitive0(S, p.ts)) \/ JSameField(want, JFieldAt(r.fields, p.name))
    ELSE IF e # {} THEN
       LET t == RealName(S, h.exceptions[FirstIx(e)].type) IN
       IF st \in NoContent THEN r.kind \in {"exc", "err"}
       ELSE IF a.body = <<>> \/ a.body[1].k = "raw" THEN r.kind = "err"
       ELSE r.kind = "exc" /\ r.type = Cap(t) /\ SameVal(JKeep(S, OfType(t), a.body[1]), r.v)
    ELSE r.kind = "err"
JClientCall(S, base, c, o, inst) ==
    LET h == HttpOf(S, c.action) IN
    /\ Len(o.reqs) = 1 /\ JClientRequest(S, base, h, c, o.reqs[1])
    /\ JClientResult(S, h, c, o.res, inst)
\* files
JHttpFiles(S, conf) ==
    LET n == GoService(S, conf) pkg(k) == Opt(AnnoGet(conf, k \o "-package"), JPkg(S, conf) \o "." \o k) IN
    JModelFiles(S, conf)
    \cup (IF Flag(conf, "server") THEN {JPath(conf, pkg("server"), n \o "Resources")} \cup (IF Flag(conf, "example-implementation") THEN {JPath(conf, "", "Main"), JPath(conf, "", n \o "Controller")} ELSE {}) ELSE {})
    \cup (IF Flag(conf, "client") THEN {JPath(conf, pkg("client"), n \o "Client"), JPath(conf, pkg("client"), "ClientConfig")} ELSE {})
=============================================================================
