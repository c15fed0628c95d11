---------------------------- MODULE GenHttpTrace ----------------------------
(* Schemas with examples of requests and answers: P24 *)
EXTENDS GenGoHttp, HttpTrace
TrText(S, n) ==
    LET b == BaseOf(S, n) IN
    CASE b \in {"String", "UUID", "UnitValue"} -> VStr(R({"a", "abc", "x y", "50%", "a/b", "q?x", "#1", "a+b", "a;b", "a&b=c", "3 kg", "{a}", "café", "日本", "1ce437b0-1dd2-11b2-bc26-003ee1be85f9"}))
      [] b \in {"Float32", "Float64"} -> VNum(R({"0", "1.5", "-2", "100", "0.5", "12345.678"}))
      [] b = "Decimal" -> VNum(R(GoDecs))
      [] b = "Timestamp" -> VStr(R(GoTimes))
      [] b \in IntTypes -> VNum(R({"0", "12", "-5", "127", "9223372036854775807"}))
      [] b = "Bool" -> VBool(Chance(2))
      [] OTHER -> DefaultOf(S, n)
TrVal(S, p) == IF IsBody(p) THEN LET v == Some3(S, p.ts) IN IF v = <<>> THEN VObj(<<>>) ELSE v[1]
               ELSE IF p.header # "" /\ BaseOf(S, p.ts.type) \in {"String", "UUID", "UnitValue"} THEN VStr(R({"a", "abc", "x y", "W/\"1\""}))
               ELSE TrText(S, p.ts.type)
TrObj(S, ps) == LET q == Filter(ps, LAMBDA p : p.path \/ ~Chance(4)) IN
                VObj(SeqOf(Len(q), LAMBDA i : Pair(q[i].name, IF ~q[i].path /\ q[i].query # "" /\ Chance(12) THEN VStr("") ELSE TrVal(S, q[i]))) \o (IF Chance(6) THEN <<Pair("nosuch", VNum("1"))>> ELSE <<>>))
Ex0 == [target |-> "", name |-> "", comment |-> "", annos |-> <<>>, example |-> VNull]
TrExamples(S) ==
    LET names == Some(R(0..4), {"", "one", "two", "the third", "zap", "five"})
        one(h, n) == <<[Ex0 EXCEPT !.target = ReqEx(h), !.name = n, !.example = IF Chance(30) THEN R(Junk) ELSE TrObj(S, h.inputs)]>>
                     \o (IF Chance(3) THEN <<>>
                         ELSE IF h.exceptions # <<>> /\ Chance(2)
                              THEN LET t == Pick(h.exceptions).type v == Some3(S, OfType(t)) IN <<[Ex0 EXCEPT !.target = t, !.name = n, !.example = IF v = <<>> THEN VObj(<<>>) ELSE v[1]]>>
                              ELSE <<[Ex0 EXCEPT !.target = RespEx(h), !.name = n, !.example = IF Chance(30) THEN R(Junk) ELSE TrObj(S, Outputs(h))]>>)
        all == Concat(SeqOf(Len(names), LAMBDA i : one(Pick(S.http), names[i])))
        extra == IF Chance(4) THEN <<[Ex0 EXCEPT !.target = Pick(S.types).name, !.name = R({"one", "two", "lone"}), !.example = R(Junk)],
                                     [Ex0 EXCEPT !.target = RespEx(Pick(S.http)), !.name = "lone", !.example = R(Junk)]>> ELSE <<>>
        more == all \o extra
        ord == Some(Len(more), 1..Len(more)) IN
    IF Chance(2) THEN more ELSE SeqOf(Len(ord), LAMBDA i : more[ord[i]])
\* different wire names: two parameters of one name cannot be told apart
Apart(h) == Distinct(SeqMap(Filter(h.inputs, LAMBDA p : p.query # ""), LAMBDA p : p.query))
TraceCase(u) ==
    LET S0 == HttpSchema(FALSE)
        dated(h) == [h EXCEPT !.expected = [i \in 1..Len(h.expected) |-> [h.expected[i] EXCEPT !.outputs =
                       [j \in 1..Len(@) |-> IF @[j].header = "Date" THEN [@[j] EXCEPT !.header = "X-When"] ELSE @[j]]]]]
        st(h) == IF h.expected = <<>> \/ ~Chance(6) \/ h.expected[1].status \in NoContent THEN h ELSE [h EXCEPT !.expected[1].status = R({203, 205, 206, 301})]
        S == [S0 EXCEPT !.base = R({"", "", "/v1", "/api/v2", "/"}), !.http = LET q == SeqMap(Filter(@, Apart), dated) IN SeqOf(Len(q), LAMBDA i : st(q[i]))]
        T == IF S.http = <<>> THEN S ELSE [S EXCEPT !.examples = TrExamples(S)] IN
    [op |-> "http.trace", in |-> [schema |-> T, plain |-> Chance(2)]]
TraceNext == x' = TraceCase(0)
\* no two examples of one target and name
DesignNames == x.op = "http.trace" => \A i \in 1..Len(x.in.schema.http) : LET q == ReqExamples(x.in.schema, x.in.schema.http[i]) IN Distinct(SeqMap(q, LAMBDA z : z.name))
=============================================================================
