------------------------------ MODULE GenSadl -------------------------------
(* Sources: random schemas, flawed ones, in random layouts: P28 to P31 *)
EXTENDS GenSchema, Sadl, Json
CONSTANT Mode
VARIABLE x

---------------------------------------------------------------------------
(* schemas as written *)
SComments == {"", "", "", "hello", "one two", "a longer comment, of several words: and more", "see also a/b {x} (y) = 1;",
              "this one is so long that it does not fit on a line of a hundred columns when it is written out again by anyone, ever"}
SAnnos == { <<>>, <<>>, <<>>, <<<<"x_a", "1">>>>, <<<<"x_b", "two words">>, <<"x_a", "">>>>, <<<<"x_Long_name", "a, b">>>> }
RECURSIVE SNames(_)
SNames(q) == IF q = <<>> THEN {} ELSE {q[1]} \cup SNames(Tail(q))
Dressed(f) == [f EXCEPT !.comment = R(SComments), !.annos = R(SAnnos)]
STexts == {"a", "abc", "x y", "", "RED", "^[a-z]+$"}
\* a field's type: leaf, inline struct, unit value, bare collections
SFieldSpec(S, names, d) ==
    LET k == R(1..14) IN
    CASE k = 1 /\ d > 0 -> [OfType("Struct") EXCEPT !.fields =
                              LET q == Some(R(0..3), FieldPool) IN SeqOf(Len(q), LAMBDA i : [Dressed(Field(q[i], LeafSpec(names))) EXCEPT !.required = Chance(3)])]
      [] k = 2 -> [OfType("UnitValue") EXCEPT !.value = R({"Decimal", "Int32"}), !.unit = "String"]
      [] k = 3 -> OfType(R({"Array", "Map", "UnitValue"}))
      [] k = 4 -> [OfType(R({"String", "UUID"})) EXCEPT !.reference = IF names = {} THEN "String" ELSE R(names)]
      [] OTHER -> LeafSpec(names)
SField(S, names, n, d) ==
    LET ts == SFieldSpec(S, names, d)
        v == ValueOf(S, SaidTs(ts), 2)
        req == Chance(3) IN
    [Dressed(Field(n, ts)) EXCEPT !.required = req,
       !.default = IF ~req /\ Chance(4) /\ v.k # "null" /\ Defined(S, SaidTs(ts).type) /\ (\A m \in {SaidTs(ts).items, SaidTs(ts).keys} : m = "" \/ Defined(S, m)) /\ Conforms(S, SaidTs(ts), v) THEN <<v>> ELSE <<>>]
SDefSpec(S, names) ==
    LET k == R({"Struct", "Struct", "Struct", "Leaf", "Leaf", "Leaf", "Leaf", "Union", "UnitValue", "Bare", "Ref"})
        ts == SpecOf(S, names) IN
    CASE k = "Struct" -> [OfType("Struct") EXCEPT !.fields = LET q == Some(R(0..4), FieldPool) IN SeqOf(Len(q), LAMBDA i : SField(S, names, q[i], 1))]
      [] k = "Union" -> [OfType("Union") EXCEPT !.variants = IF Chance(3) THEN LET q == Some(R(1..3), {"Int32", "String", "Bool"} \cup names) IN SeqOf(Len(q), LAMBDA i : Variant(q[i], q[i]))
                                                             ELSE LET q == Some(R(1..3), {"v1", "v2", "other", "AA"}) IN SeqOf(Len(q), LAMBDA i : Dressed(Variant(q[i], RefName(names))))]
      [] k = "Bare" -> OfType(R({"Array", "Map", "UnitValue", "Struct"}))
      [] k = "Ref" -> IF Chance(3) THEN [OfType("String") EXCEPT !.pattern = RegExUUID]
                      ELSE [OfType(R({"String", "UUID"})) EXCEPT !.reference = IF names = {} THEN "String" ELSE R(names)]
      [] k = "UnitValue" -> IF ts.type = "UnitValue" THEN ts ELSE OfType("UnitValue")
      [] OTHER -> LET l == LeafSpec(names) IN IF l.type \in BaseTypes THEN l ELSE OfType("Bool")
RECURSIVE STypes(_, _, _)
STypes(q, i, S) ==
    IF i > Len(q) THEN S
    ELSE STypes(q, i + 1, [S EXCEPT !.types = Append(@, Dressed(TypeDef(q[i], SDefSpec(Said(S), IF Chance(3) THEN SeqSet(q) ELSE TypeNames(S)))))])
SParam(S, n) == LET t == IF Chance(6) THEN [OfType("Array") EXCEPT !.items = RefName(TypeNames(S))] ELSE OfType(RefName(TypeNames(S)))
                    v == ValueOf(S, SaidTs(t), 1) IN
                [Dressed([Param0 EXCEPT !.name = n, !.ts = t]) EXCEPT !.required = Chance(5),
                   !.default = IF Chance(5) /\ v.k # "null" /\ Conforms(S, t, v) THEN <<v>> ELSE <<>>]
Headers == {"X-One", "ETag", "If-Modified-Since", "X-two"}
SAct(S, name, i) ==
    LET q == Some(R(0..4), FieldPool)
        meth == R({"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"})
        place == SeqOf(Len(q), LAMBDA j : IF j = 1 /\ meth \in {"PUT", "POST", "PATCH"} /\ ~Chance(3) THEN "body" ELSE R({"path", "query", "query", "header"}))
        ps == SeqOf(Len(q), LAMBDA j : LET p == SParam(S, q[j]) IN IF place[j] = "header" THEN [p EXCEPT !.header = R(Headers)] ELSE p)
        pp == Filter([j \in 1..Len(q) |-> <<q[j], place[j]>>], LAMBDA z : z[2] = "path")
        qq == Filter([j \in 1..Len(q) |-> <<q[j], place[j]>>], LAMBDA z : z[2] = "query")
        path == "/" \o R({"items", "a/b", "my-things", "x"}) \o NatStr(i) \o Join([j \in 1..Len(pp) |-> "/{" \o pp[j][1] \o "}"], "") \o R({"", "", "/tail"})
        query == IF qq = <<>> THEN "" ELSE "?" \o Join([j \in 1..Len(qq) |-> (IF Chance(2) THEN qq[j][1] ELSE "q-" \o NatStr(j)) \o "={" \o qq[j][1] \o "}"], "&")
        st == R({200, 200, 201, 204, 304})
        oq == Some(R(0..3), {"out", "tag", "when", "entity"})
        outs == SeqOf(Len(oq), LAMBDA j : LET p == SParam(S, oq[j]) IN IF j = 1 /\ ~NoContent(st) /\ ~Chance(3) THEN p ELSE [p EXCEPT !.header = R(Headers)])
        eq == Some(R(0..2), TypeNames(S)) IN
    Dressed([Http0 EXCEPT !.name = name, !.resource = IF Chance(4) THEN R({"Thing", "stuff"}) ELSE "", !.method = meth, !.path = path \o query, !.inputs = ps,
       !.expected = IF Chance(5) THEN <<>> ELSE <<Dressed([Expect0 EXCEPT !.status = st, !.outputs =
                       IF ~NoContent(st) /\ Chance(6) THEN <<[Param0 EXCEPT !.name = "entity", !.ts = OfType(RefName(TypeNames(S)))]>> ELSE outs])>>,
       !.exceptions = SeqOf(Len(eq), LAMBDA j : Dressed([Exc0 EXCEPT !.type = eq[j], !.status = R({0, 400, 404, 500})]))])
SActs(S, n) == LET q == Some(n, ActionPool) IN SeqOf(Len(q), LAMBDA i : SAct(S, IF Chance(4) THEN "" ELSE q[i], i))
OpField(S, n) == [Field(n, OfType(RefName(TypeNames(S)))) EXCEPT !.comment = R(SComments)]
SOp(S, n) == [name |-> n, comment |-> R(SComments), annos |-> R(SAnnos),
              inputs |-> LET q == Some(R(0..2), FieldPool) IN SeqOf(Len(q), LAMBDA i : [OpField(S, q[i]) EXCEPT !.required = Chance(2)]),
              outputs |-> LET q == Some(R(0..2), FieldPool) IN SeqOf(Len(q), LAMBDA i : OpField(S, q[i])),
              exceptions |-> Some(R(0..2), TypeNames(S))]
\* examples that conform
ObjOfParams(S, ps) == LET q == Filter(ps, LAMBDA p : p.required \/ Chance(2)) IN VObj(SeqOf(Len(q), LAMBDA i : Pair(q[i].name, ValueOf(S, q[i].ts, 2))))
SExample(M, u) ==      \* M: as said
    LET k == R(1..4)
        t == Pick(M.types)
        sfx == R({"Request", "Response"}) IN
    CASE k = 1 /\ t.ts.type = "Struct" /\ t.ts.fields # <<>> -> LET f == Pick(t.ts.fields) IN [target |-> t.name \o "." \o f.name, example |-> ValueOf(M, f.ts, 2)]
      [] k \in {2, 3} /\ M.http # <<>> -> LET h == Pick(M.http) IN
              [target |-> Cap(h.name) \o sfx, example |-> ObjOfParams(M, IF sfx = "Request" THEN h.inputs ELSE IF h.expected = <<>> THEN <<>> ELSE h.expected[1].outputs)]
      [] OTHER -> [target |-> t.name, example |-> ValueOf(M, t.ts, 3)]
IdentLike(s) == s # "" /\ AllIn(s, Alnum \cup {"_", "."}) /\ At(s, 1) \notin Digit
SExamples(S) ==
    LET M == Said(S) IN
    IF M.types = <<>> \/ ~SaidOk(M) THEN <<>>
    ELSE LET q == SeqOf(R(0..4), LAMBDA i : SExample(M, i)) IN
         Filter(SeqOf(Len(q), LAMBDA i : [target |-> q[i].target, name |-> R({"", "one", "two"}), comment |-> R(SComments), annos |-> <<>>, example |-> q[i].example]),
                LAMBDA e : IdentLike(e.target) /\ ExampleOk(M, e))
Whole(nt, nh) ==
    LET H == [Schema0 EXCEPT !.name = R({"", "svc", "Big_1"}), !.namespace = R({"", "a", "com.ex.v1"}), !.version = R({"", "1", "1.0.0", "v2"}),
                             !.base = R({"", "", "/api", "/v1/x"}), !.annos = R(SAnnos)]
        S0 == STypes(Some(nt, TypePool), 1, H)
        S1 == [S0 EXCEPT !.http = SActs(Said(S0), nh)]
        oq == Some(R(0..2), {"doIt", "Undo"})
        S2 == [S1 EXCEPT !.operations = IF Chance(2) THEN <<>> ELSE SeqOf(Len(oq), LAMBDA i : SOp(S1, oq[i]))] IN
    [S2 EXCEPT !.examples = SExamples(S2),
               !.comment = IF S2.name = "" /\ S2.namespace = "" /\ S2.version = "" /\ S2.base = "" /\ S2.annos = <<>> THEN "" ELSE R(SComments)]

---------------------------------------------------------------------------
(* tokens *)
NL == "\n"
Q(s) == "\"" \o s \o "\""
Words(c) == IF c = "" THEN <<>> ELSE Split(c, " ")
RECURSIVE Chunks(_, _)
Chunks(ws, n) == IF n = 1 THEN <<ws>> ELSE LET k == IF Chance(2) THEN Len(ws) ELSE R(0..Len(ws)) IN <<SubSeq(ws, 1, k)>> \o Chunks(SubSeq(ws, k + 1, Len(ws)), n - 1)
ComText(ws) == "//" \o R({"", " ", "  "}) \o Join(ws, " ") \o R({"", "", " "})
LeadT(ws) == IF ws = <<>> THEN IF Chance(12) THEN <<"//", NL>> ELSE <<>>
             ELSE LET k == IF Chance(3) THEN R(1..Len(ws)) ELSE Len(ws) IN
                  (IF Chance(6) THEN <<"//", NL>> ELSE <<>>) \o <<ComText(SubSeq(ws, 1, k)), NL>>
                  \o (IF k < Len(ws) THEN <<ComText(SubSeq(ws, k + 1, Len(ws))), NL>> ELSE <<>>)
TrailT(ws) == IF ws = <<>> THEN <<>> ELSE <<ComText(ws)>>
Blank(u) == IF Chance(6) THEN <<NL>> ELSE <<>>
EolT(ws) == (IF Chance(6) THEN <<";">> ELSE <<>>) \o TrailT(ws) \o <<NL>> \o Blank(0)
AnnoT(a) == IF a[2] = "" /\ Chance(2) THEN <<a[1]>> ELSE <<a[1], "=", Q(a[2])>>
RECURSIVE ValT(_)
ValT(v) ==
    CASE v.k = "str" -> <<Q(v.s)>>
      [] v.k = "num" -> <<v.n>>
      [] v.k = "bool" -> IF v.b THEN <<"true">> ELSE <<"false">>
      [] v.k = "null" -> <<"null">>
      [] v.k = "arr" -> <<"[">> \o Concat([i \in 1..Len(v.a) |-> Blank(0) \o ValT(v.a[i]) \o (IF i < Len(v.a) THEN <<",">> ELSE <<>>)]) \o Blank(0) \o <<"]">>
      [] v.k = "obj" -> <<"{">> \o Concat([i \in 1..Len(v.o) |-> Blank(0) \o <<Q(v.o[i].n), ":">> \o ValT(v.o[i].v) \o (IF i < Len(v.o) THEN <<",">> ELSE <<>>)]) \o Blank(0) \o <<"}">>
Cased(s) == IF Chance(6) THEN UpStr(s) ELSE s
LimitOpts(ts) ==
    (IF ts.min # <<>> THEN <<<<Cased("min"), "=", ts.min[1]>>>> ELSE <<>>) \o (IF ts.max # <<>> THEN <<<<"max", "=", ts.max[1]>>>> ELSE <<>>)
    \o (IF ts.minsize # <<>> THEN <<<<R({"minsize", "minSize"}), "=", NatStr(ts.minsize[1])>>>> ELSE <<>>)
    \o (IF ts.maxsize # <<>> THEN <<<<R({"maxsize", "MAXSIZE", "maxSize"}), "=", NatStr(ts.maxsize[1])>>>> ELSE <<>>)
    \o (IF ts.pattern # "" THEN <<<<"pattern", "=", Q(ts.pattern)>>>> ELSE <<>>)
    \o (IF ts.values # <<>> THEN <<<<"values", "=">> \o ValT(VArr([i \in 1..Len(ts.values) |-> VStr(ts.values[i])]))>> ELSE <<>>)
    \o (IF ts.reference # "" THEN <<<<"reference", "=", ts.reference>>>> ELSE <<>>)
AnnoOpts(a) == [i \in 1..Len(a) |-> AnnoT(a[i])]
Shuffled(q) == IF Chance(3) THEN q ELSE LET o == Some(Len(q), 1..Len(q)) IN SeqOf(Len(q), LAMBDA i : q[o[i]])
OptsT(os) == IF os = <<>> THEN IF Chance(20) THEN <<"(", ")">> ELSE <<>>
             ELSE LET q == Shuffled(os) IN
                  <<"(">> \o q[1] \o Concat([i \in 1..(Len(q) - 1) |-> (IF Chance(5) THEN <<>> ELSE <<",">>) \o q[i + 1]]) \o <<")">>
Comma(u) == IF Chance(8) THEN <<>> ELSE <<",">>
\* a type in line, with the options before its body, and the comment after its brace
Opened(com, nl, q) == <<"{">> \o TrailT(com) \o (IF com # <<>> \/ nl \/ (q # <<>> /\ HasPrefix(q[1], "//")) THEN <<NL>> ELSE <<>>) \o q \o <<"}">>
RECURSIVE FieldT(_), TypeT(_, _, _)
ElemT(e, sep) == LET c == Chunks(Words(e.comment), 2) IN
                 LeadT(c[1]) \o <<e.symbol>> \o OptsT(AnnoOpts(e.annos)) \o
                 (IF c[2] # <<>> THEN TrailT(c[2]) \o <<NL>> ELSE sep)
TypeT(ts, opts, com) ==
    CASE ts.type = "Array" -> IF ts.items = "" THEN <<R({"Array", "List"})>> ELSE <<R({"Array", "List"}), "<", ts.items, ">">>
      [] ts.type = "Map" -> IF ts.keys = "" /\ ts.items = "" THEN <<"Map">> ELSE <<"Map", "<", ts.keys>> \o Comma(0) \o <<ts.items, ">">>
      [] ts.type = "UnitValue" -> IF ts.value = "" THEN <<"UnitValue">> ELSE <<"UnitValue", "<", ts.value>> \o Comma(0) \o <<ts.unit, ">">>
      [] ts.type = "Enum" -> <<"Enum">> \o OptsT(opts) \o Opened(com, Chance(2),
                                Concat([i \in 1..Len(ts.elements) |-> ElemT(ts.elements[i], IF i < Len(ts.elements) /\ ts.elements[i + 1].comment = "" THEN R({<<NL>>, <<NL>>, <<",">>, <<",", NL>>}) ELSE <<NL>>)]))
      [] ts.type = "Struct" -> IF ts.fields = <<>> /\ com = <<>> /\ Chance(3) THEN <<"Struct">> \o OptsT(opts)
                               ELSE <<"Struct">> \o OptsT(opts) \o Opened(com, ~Chance(4), Concat([i \in 1..Len(ts.fields) |-> FieldT(ts.fields[i])]))
      [] ts.type = "Union" -> IF opts = <<>> /\ com = <<>> /\ Chance(2) /\ (\A i \in 1..Len(ts.variants) : ts.variants[i] = Variant(ts.variants[i].type, ts.variants[i].type))
                              THEN <<"Union", "<">> \o Concat([i \in 1..Len(ts.variants) |-> (IF i = 1 THEN <<>> ELSE Comma(0)) \o <<ts.variants[i].type>>]) \o <<">">>
                              ELSE <<"Union">> \o OptsT(opts) \o <<"{">> \o TrailT(com) \o <<NL>>
                                   \o Concat([i \in 1..Len(ts.variants) |-> LET v == ts.variants[i] IN
                                          FieldT([Field(v.name, OfType(v.type)) EXCEPT !.comment = v.comment, !.annos = v.annos])]) \o <<"}">>
      [] OTHER -> <<ts.type>>
Braced(ts) == ts.type \in {"Enum", "Struct", "Union"}
FieldT(f) ==
    LET c == Chunks(Words(f.comment), 3)
        mid == IF Braced(f.ts) /\ ~(f.ts.type = "Struct" /\ f.ts.fields = <<>>) THEN c[2] ELSE <<>>
        last == IF mid = <<>> /\ c[2] # <<>> THEN c[2] \o c[3] ELSE c[3]
        pre == Braced(f.ts) /\ Chance(2)
        post == (IF f.required THEN <<<<Cased("required")>>>> ELSE <<>>) \o (IF f.default # <<>> THEN <<<<"default", "=">> \o ValT(f.default[1])>> ELSE <<>>)
                \o LimitOpts(f.ts) \o (IF pre THEN <<>> ELSE AnnoOpts(f.annos)) IN
    LeadT(c[1]) \o <<f.name>> \o (IF f.ts.type = "Struct" /\ f.ts.fields = <<>> THEN <<"Struct">> \o OptsT(IF pre THEN AnnoOpts(f.annos) ELSE <<>>) \o <<"{", "}">>
                                ELSE TypeT(f.ts, IF pre THEN AnnoOpts(f.annos) ELSE <<>>, mid)) \o OptsT(post) \o EolT(last)
DefT(td) ==
    LET c == Chunks(Words(td.comment), 3)
        b == Braced(td.ts)
        mid == IF b /\ ~(td.ts.type = "Struct" /\ td.ts.fields = <<>>) /\ ~(td.ts.type = "Union") THEN c[2] ELSE <<>>
        last == IF mid = <<>> /\ c[2] # <<>> THEN c[2] \o c[3] ELSE c[3] IN
    LeadT(c[1]) \o <<"type", td.name>> \o TypeT(td.ts, IF b THEN AnnoOpts(td.annos) ELSE <<>>, mid)
    \o (IF b THEN <<>> ELSE OptsT(LimitOpts(td.ts) \o AnnoOpts(td.annos))) \o EolT(last)
ParamT(p) ==
    LET c == Chunks(Words(p.comment), 2)
        os == (IF p.required THEN <<<<"required">>>> ELSE <<>>) \o (IF p.default # <<>> THEN <<<<"default", "=">> \o ValT(p.default[1])>> ELSE <<>>)
              \o (IF p.header # "" THEN <<<<"header", "=", Q(p.header)>>>> ELSE <<>>) \o AnnoOpts(p.annos) IN
    LeadT(c[1]) \o <<p.name>> \o TypeT(p.ts, <<>>, <<>>) \o OptsT(os) \o EolT(c[2])
ExpectT(e) ==
    LET c == Chunks(Words(e.comment), 3)
        plain == Len(e.outputs) = 1 /\ e.outputs[1] = [Param0 EXCEPT !.name = "entity", !.ts = OfType(e.outputs[1].ts.type)]
        all == c[2] \o c[3] IN
    LeadT(c[1]) \o <<"expect", NatStr(e.status)>> \o OptsT(AnnoOpts(e.annos)) \o
    (IF plain /\ Chance(2) THEN <<e.outputs[1].ts.type>> \o EolT(all)
     ELSE IF e.outputs = <<>> /\ Chance(2) THEN EolT(all)
     ELSE Opened(c[2], Chance(2), Concat([i \in 1..Len(e.outputs) |-> ParamT(e.outputs[i])])) \o EolT(c[3]))
ExcT(e) == LET c == Chunks(Words(e.comment), 2) IN
           LeadT(c[1]) \o <<"except">> \o (IF e.status = 0 THEN <<>> ELSE <<NatStr(e.status)>>) \o <<e.type>> \o OptsT(AnnoOpts(e.annos)) \o EolT(c[2])
HttpT(h) ==
    LET c == Chunks(Words(h.comment), 3)
        os == (IF h.name # "" THEN <<<<R({"action", "operation"}), "=", h.name>>>> ELSE <<>>) \o (IF h.resource # "" THEN <<<<"resource", "=", h.resource>>>> ELSE <<>>) \o AnnoOpts(h.annos)
        ex == Concat([i \in 1..Len(h.expected) |-> ExpectT(h.expected[i])])
        xs == Concat([i \in 1..Len(h.exceptions) |-> ExcT(h.exceptions[i])])
        ins == Concat([i \in 1..Len(h.inputs) |-> ParamT(h.inputs[i])]) IN
    LeadT(c[1]) \o <<"http", IF Chance(4) THEN LowStr(h.method) ELSE h.method, Q(h.path)>> \o OptsT(os)
    \o Opened(c[2], ~Chance(4), IF Chance(5) THEN ex \o ins \o xs ELSE IF Chance(5) THEN ins \o xs \o ex ELSE ins \o ex \o xs) \o EolT(c[3])
OpItemT(f, opts) == LET c == Chunks(Words(f.comment), 2) IN LeadT(c[1]) \o <<f.name, f.ts.type>> \o opts \o TrailT(c[2]) \o <<NL>>
OpT(o) ==
    LET blk(n, q) == IF q = <<>> /\ Chance(2) THEN <<>> ELSE <<n, "{">> \o <<NL>> \o Concat(q) \o <<"}", NL>> IN
    LeadT(Words(o.comment)) \o <<"operation", o.name>> \o OptsT(AnnoOpts(o.annos)) \o <<"{", NL>>
    \o blk("inputs", [i \in 1..Len(o.inputs) |-> OpItemT(o.inputs[i], IF o.inputs[i].required THEN <<"(", "required", ")">> ELSE <<>>)])
    \o blk("outputs", [i \in 1..Len(o.outputs) |-> OpItemT(o.outputs[i], <<>>)])
    \o blk("exceptions", [i \in 1..Len(o.exceptions) |-> <<o.exceptions[i], NL>>]) \o <<"}", NL>>
ExampleT(e) == LeadT(Words(e.comment)) \o <<"example", e.target>> \o OptsT(IF e.name = "" THEN <<>> ELSE <<<<"name", "=", e.name>>>>) \o ValT(e.example) \o <<NL>> \o Blank(0)
\* the head: the schema's comment is spread over it
HeadOf(S) ==
    Shuffled((IF S.name # "" THEN <<<<"name", IF Chance(5) THEN Q(S.name) ELSE S.name>>>> ELSE <<>>)
          \o (IF S.namespace # "" THEN <<<<"namespace", S.namespace>>>> ELSE <<>>)
          \o (IF S.version # "" THEN <<<<"version", IF S.version \in {"1", "v2"} /\ Chance(2) THEN S.version ELSE Q(S.version)>>>> ELSE <<>>)
          \o (IF S.base # "" THEN <<<<"base", Q(S.base)>>>> ELSE <<>>)
          \o [i \in 1..Len(S.annos) |-> IF S.annos[i][2] = "" THEN <<S.annos[i][1]>> ELSE <<S.annos[i][1]>> \o R({<<>>, <<"=">>}) \o <<Q(S.annos[i][2])>>])
HeadT(S) ==
    LET q == HeadOf(S) c == Chunks(Words(S.comment), 2 * (IF q = <<>> THEN 1 ELSE Len(q))) IN
    [i \in 1..Len(q) |-> LeadT(c[2 * i - 1]) \o q[i] \o TrailT(c[2 * i]) \o <<NL>> \o Blank(0)]
\* several lists, each in its order, merged
RECURSIVE Merged(_)
Merged(qs) == LET I == { i \in 1..Len(qs) : qs[i] # <<>> } IN
              IF I = {} THEN <<>>
              ELSE LET i == R(I) IN <<qs[i][1]>> \o Merged([qs EXCEPT ![i] = Tail(@)])
SourceT(S) ==
    LET ts == [i \in 1..Len(S.types) |-> DefT(S.types[i])]
        hs == [i \in 1..Len(S.http) |-> HttpT(S.http[i])]
        es == [i \in 1..Len(S.examples) |-> ExampleT(S.examples[i])]
        os == [i \in 1..Len(S.operations) |-> OpT(S.operations[i])]
        hd == HeadT(S) IN
    Concat(IF Chance(3) THEN Merged(<<hd, ts, hs, es, os>>) ELSE hd \o ts \o os \o hs \o es)
Punct == {"{", "}", "(", ")", "<", ">", "[", "]", ",", "=", ":", ";"}
IsCom(t) == HasPrefix(t, "//")
Gap(a, b) == IF a = NL THEN R({"", "", "    ", "\t"}) ELSE IF b = NL THEN R({"", "", " "})
             ELSE IF IsCom(b) THEN R({"", " "})
             ELSE IF Chance(60) THEN R({" /* not this */ ", "/**/ ", " /* nor\n this { */ "})
             ELSE IF (a \in Punct \/ b \in Punct) THEN R({"", " "}) ELSE R({" ", " ", "  ", "\t"})
RECURSIVE Glue(_, _, _)      \* halves, so that it is not deep
Glue(q, i, j) == IF i > j THEN "" ELSE IF i = j THEN q[i] \o (IF i < Len(q) THEN Gap(q[i], q[i + 1]) ELSE "")
                 ELSE LET m == (i + j) \div 2 IN Glue(q, i, m) \o Glue(q, m + 1, j)
TextOf(q) == Glue(q, 1, Len(q))
\* the last newline may be missing
Ended(q) == IF q # <<>> /\ q[Len(q)] = NL /\ Chance(3) THEN SubSeq(q, 1, Len(q) - 1) ELSE q

---------------------------------------------------------------------------
(* flaws of a schema: one rule broken *)
Flawed(S, u) ==
    LET k == R(1..22)
        ti(P(_)) == { i \in 1..Len(S.types) : P(S.types[i].ts) }
        bad == "Nosuch"
        inField(f(_)) == LET I == ti(LAMBDA t : t.type = "Struct" /\ t.fields # <<>>) IN
                         IF I = {} THEN S ELSE LET i == R(I) j == R(1..Len(S.types[i].ts.fields)) IN
                         [S EXCEPT !.types[i].ts.fields[j] = f(@)]
        inHttp(f(_)) == IF S.http = <<>> THEN S ELSE LET i == R(1..Len(S.http)) IN [S EXCEPT !.http[i] = f(@)]
        newType(td) == [S EXCEPT !.types = Append(@, td)] IN
    CASE k = 1 -> inField(LAMBDA f : [f EXCEPT !.ts = OfType(bad), !.default = <<>>])
      [] k = 2 -> inField(LAMBDA f : [f EXCEPT !.ts = [OfType("Array") EXCEPT !.items = bad], !.default = <<>>])
      [] k = 3 -> inField(LAMBDA f : [f EXCEPT !.ts = [OfType("Map") EXCEPT !.items = R({"Any", bad, "String"}), !.keys = bad], !.default = <<>>])
      [] k = 4 -> newType(TypeDef("Zz", [OfType("Array") EXCEPT !.items = bad]))
      [] k = 5 -> newType(TypeDef("Zz", [OfType("Map") EXCEPT !.keys = R({"String", bad}), !.items = R({"Any", bad})]))
      [] k = 6 -> newType(TypeDef("Zz", [OfType("UnitValue") EXCEPT !.value = R({"Decimal", bad, "String"}), !.unit = R({"String", bad, "Int32"})]))
      [] k = 7 -> newType(TypeDef("Zz", [OfType(R({"String", "UUID"})) EXCEPT !.reference = bad]))
      [] k = 8 -> newType(TypeDef("Zz", [OfType("Union") EXCEPT !.variants = <<Variant("a", "String"), Variant("b", bad)>>]))
      [] k = 9 -> newType(TypeDef(IF S.types = <<>> THEN "Int32" ELSE R(TypeNames(S) \cup {"String"}), OfType("Bool")))
      [] k = 10 -> newType(TypeDef("Zz", OfType(IF S.types = <<>> THEN bad ELSE R(TypeNames(S) \cup {bad}))))
      [] k = 11 -> inField(LAMBDA f : [f EXCEPT !.ts = OfType("String"), !.required = TRUE, !.default = <<VStr("a")>>])
      [] k = 12 -> inField(LAMBDA f : [f EXCEPT !.ts = OfType(R({"Int32", "Bool", "Timestamp"})), !.required = FALSE, !.default = <<VStr("a")>>])
      [] k = 13 -> IF Chance(2) THEN newType(TypeDef("Zz", [OfType("String") EXCEPT !.pattern = "^a", !.values = <<"a">>]))
                   ELSE inField(LAMBDA f : [f EXCEPT !.default = <<>>, !.ts = [OfType("String") EXCEPT !.pattern = "^a", !.values = <<"a">>]])
      [] k = 14 -> inHttp(LAMBDA h : [h EXCEPT !.path = @ \o R({"{", "}", "/{a/b}", "/{{a}}"})])
      [] k = 15 -> inHttp(LAMBDA h : [h EXCEPT !.inputs = Append(@, [Param0 EXCEPT !.name = "zbody", !.ts = OfType("String")]),
                                              !.method = R({"GET", "DELETE", "HEAD", "OPTIONS", "PUT"})])
      [] k = 16 -> inHttp(LAMBDA h : [h EXCEPT !.inputs = Append(@, [Param0 EXCEPT !.name = "zz", !.header = "X-Z", !.ts = R({OfType(bad), [OfType("Array") EXCEPT !.items = bad]})])])
      [] k = 17 -> inHttp(LAMBDA h : [h EXCEPT !.expected = <<[Expect0 EXCEPT !.status = R({200, 204, 304}), !.outputs = <<[Param0 EXCEPT !.name = "b1", !.ts = OfType("String")]>>
                                                            \o (IF Chance(2) THEN <<[Param0 EXCEPT !.name = "b2", !.ts = OfType("String")]>> ELSE <<>>)]>>, !.inputs = @])
      [] k = 18 -> inHttp(LAMBDA h : [h EXCEPT !.exceptions = Append(@, [Exc0 EXCEPT !.type = bad]), !.expected = IF Chance(2) THEN <<>> ELSE @])
      [] k = 19 -> inHttp(LAMBDA h : IF h.exceptions = <<>> THEN [h EXCEPT !.exceptions = <<[Exc0 EXCEPT !.type = "String"], [Exc0 EXCEPT !.type = "String", !.status = 404]>>]
                                     ELSE [h EXCEPT !.exceptions = Append(@, [h.exceptions[1] EXCEPT !.status = 409])])
      [] k = 20 -> IF S.types = <<>> THEN S
                   ELSE LET M == Said(S) e == SExample(M, 0) IN
                        IF ~IdentLike(e.target) THEN S
                        ELSE [S EXCEPT !.examples = Append(@, [target |-> IF Chance(3) THEN "Nosuch" \o R({"", ".a", "Request", "Response"}) ELSE e.target, name |-> "bad", comment |-> "", annos |-> <<>>,
                                                        example |-> IF Chance(2) THEN R(Junk) ELSE e.example])]
      [] k = 21 -> LET o == [SOp(S, "zap") EXCEPT !.inputs = Append(@, Field("zz", OfType(R({"String", bad})))), !.outputs = Append(@, Field("zz", OfType(R({"String", bad})))), !.exceptions = Append(@, bad)] IN
                   [S EXCEPT !.operations = Append(@, o)]
      [] k = 22 -> R({[S EXCEPT !.base = "api"], [S EXCEPT !.http = IF @ = <<>> THEN @ ELSE Append(@, [S.http[1] EXCEPT !.name = SaidName(S.http[1]), !.path = "/dup", !.inputs = <<>>])]})
\* sources that are not in the language, whatever they say: tokens put at the end of a source
NotTokens == { <<"type", "Zz">>, <<"type", "Zz", "String", "(", "min", "=", "1", ")">>, <<"type", "Zz", "Int32", "(", "pattern", "=", "\"a\"", ")">>,
               <<"type", "Zz", "Map", "<", "String", ">">>, <<"type", "Zz", "Array", "<", "String", ",", "Int32", ">">>, <<"type", "Zz", "String", "<", "Int32", ">">>,
               <<"type", "Zz", "String", "(", "nosuch", ")">>, <<"type", "Zz", "String", "junk">>, <<"type", "1">>, <<"type", "Zz", "Union">>,
               <<"http", "TRACE", "\"/zz\"", "{", "}">>, <<"http", "GET", "zz", "{", "}">>, <<"http", "GET", "\"/zz\"">>, <<"http", "GET", "\"/zz\"", ";">>,
               <<"http", "GET", "\"/zz\"", "{", NL, "expect", "200", NL, "expect", "201", NL, "}">>, <<"http", "GET", "\"/zz\"", "{", NL, "expect", "ok", NL, "}">>,
               <<"http", "GET", "\"/zz\"", "{", NL, "expect", "200", "{", NL, "except", "404", "String", NL, "}", NL, "}">>,
               <<"http", "GET", "\"/zz\"", "(", "header", "=", "\"x\"", ")", "{", "}">>,
               <<"type", "Zz", "Struct", "{", NL, "a", "String", "(", "min", "=", "1", ")", NL, "}">>, <<"type", "Zz", "Struct", "{", NL, "a", NL, "}">>,
               <<"type", "Zz", "Struct", "{", NL, "1", "String", NL, "}">>, <<"type", "Zz", "Enum", "{", NL, "\"a\"", NL, "}">>,
               <<"example", "String", "nosuch">>, <<"example", "String", "{", "a", ":", "1", "}">>, <<"example", "String">>, <<"example", "(", "name", "=", "a", ")", "\"x\"">>,
               <<"tpye", "Zz", "String">>, <<"Type", "Zz", "String">>, <<"junk">>, <<"import", "\"a.sadl\"">>, <<"resource", "Zz">>, <<"junk", ";">>, <<"Zz", "Struct">>, <<"annotation", "x_a">>, <<"examples", "String", "\"x\"">>,
               <<"version", "{">>, <<"base", "api">>, <<"name", "=">>, <<"{", "}">>, <<"\"type\"">>, <<"=">>,
               <<"operation", "zz", "{", NL, "nosuch", "{", NL, "}", NL, "}">>, <<"operation", "{", "}">>, <<"operation", "zz", "(", "1", ")", "{", "}">>, <<"operation", "zz", "(", "1", "{", "}">>,
               <<"operation", "zz", "{", NL, "inputs", "{", NL, "a", NL, "}", NL, "}">>, <<"operation", "zz", "{", NL, "inputs", "{", NL, "a", "String", "(", "nosuch", ")", NL, "}", NL, "}">> }
ParseCase(u) == LET S == Whole(R(0..4), R(0..2)) IN [op |-> "sadl.parse", in |-> [src |-> TextOf(Ended(SourceT(S))), schema |-> S, bad |-> FALSE]]
\* two files, one including the other
Part(q, k, first) == IF first THEN SubSeq(q, 1, k) ELSE SubSeq(q, k + 1, Len(q))
FileCase(u) ==
    LET W == Whole(R(1..4), R(0..2))
        kt == R(0..Len(W.types)) kh == R(0..Len(W.http)) ko == R(0..Len(W.operations))
        of(f) == [W EXCEPT !.types = Part(@, kt, f), !.http = Part(@, kh, f), !.operations = Part(@, ko, f)]
        first == Chance(2)
        loop == Chance(10)
        S == IF first THEN of(FALSE) ELSE of(TRUE)
        T0 == IF first THEN of(TRUE) ELSE of(FALSE)
        T == [T0 EXCEPT !.name = R({"", "other"}), !.base = R({"", "/other"}), !.version = "", !.annos = <<>>, !.comment = "", !.namespace = R({"", "elsewhere"}), !.examples = <<>>,
                        !.types = IF Chance(10) /\ S.types # <<>> THEN Append(@, R(SeqSet(S.types))) ELSE @]
        inc == <<"include", "\"INC\"", NL>> IN
    [op |-> "sadl.file", in |-> [main |-> IF first THEN TextOf(Concat(HeadT(S)) \o inc \o SourceT([S EXCEPT !.name = "", !.namespace = "", !.version = "", !.base = "", !.annos = <<>>, !.comment = ""]))
                                          ELSE TextOf(SourceT(S) \o inc),
                                 inc |-> TextOf(Ended(SourceT(T) \o (IF loop THEN <<"include", R({"\"INC\"", "\"MAIN\""}), NL>> ELSE <<>>))),
                                 schema |-> S, included |-> T, first |-> first, loop |-> loop]]
FlawCase(u) ==
    LET S == Whole(R(1..4), R(0..2)) IN
    IF Chance(4) THEN [op |-> "sadl.parse", in |-> [src |-> TextOf(SourceT(S) \o R(NotTokens) \o R({<<>>, <<NL>>})), schema |-> S, bad |-> TRUE]]
    ELSE LET T == Flawed(S, 0) IN [op |-> "sadl.parse", in |-> [src |-> TextOf(Ended(SourceT(T))), schema |-> T, bad |-> FALSE]]
\* any sequence of tokens: a source with tokens changed, or cut short
TokPool == Punct \cup {NL, "// c", "type", "http", "expect", "except", "operation", "inputs", "example", "x_a", "name", "1", "-2.5", "\"s\"", "\"", "String", "Struct", "Enum", "Union", "Array", "Map",
                       "a", "Aa", "required", "default", "true", "@", "-", "\"a", "/*", ".", "200", "99999999999", "include", "1e", "Bytes", "List", "UnitValue"}
RECURSIVE Worn(_, _)
Worn(q, n) == IF n = 0 \/ q = <<>> THEN q
              ELSE LET i == R(1..Len(q)) k == R(1..4) IN
                   Worn(CASE k = 1 -> SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
                          [] k = 2 -> [q EXCEPT ![i] = R(TokPool)]
                          [] k = 3 -> SubSeq(q, 1, i) \o <<R(TokPool)>> \o SubSeq(q, i + 1, Len(q))
                          [] k = 4 -> LET j == R(1..Len(q)) IN [q EXCEPT ![i] = q[j], ![j] = q[i]], n - 1)
WearCase(u) ==
    LET q == SourceT(Whole(R(0..2), R(0..2)))
        k == R(1..4)
        cut == IF q = <<>> THEN q ELSE SubSeq(q, 1, R(1..Len(q)))
        w == CASE k = 1 -> cut
               [] k = 2 -> SeqOf(R(0..12), LAMBDA i : R(TokPool))
               [] OTHER -> Worn(q, R(1..3)) IN
    [op |-> "sadl.any", in |-> [src |-> TextOf(w), open |-> k = 1 /\ OpenAt(w) > 0]]
\* no two examples under one name and target, names that the language can say
BackCase(u) == LET S == Whole(R(0..4), R(0..2)) IN [op |-> "sadl.back", in |-> [src |-> TextOf(SourceT(S)), schema |-> S]]
SadlInit == x = [op |-> "none"]
SadlNext == x' = CASE Mode = "P28" -> (IF Chance(6) THEN FileCase(0) ELSE ParseCase(0)) [] Mode = "P29" -> FlawCase(0) [] Mode = "P30" -> WearCase(0) [] Mode = "P31" -> BackCase(0)
SEmit == x.op # "none" => PrintT("CASE " \o ToJson(x))
\* what is said, said again, is the same
DesignSaid == x.op = "sadl.parse" /\ Mode = "P28" => LET M == Said(x.in.schema) IN SameSchema(Said([M EXCEPT !.http = [i \in 1..Len(@) |-> [@[i] EXCEPT !.name = M.http[i].name]]]), M)
=============================================================================
