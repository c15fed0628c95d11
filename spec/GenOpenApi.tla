----------------------------- MODULE GenOpenApi -----------------------------
(* Schemas to export, documents to import: P13 - P18 *)
EXTENDS GenSchema, OpenApi, Json
CONSTANTS Mode
VARIABLE x
None == [op |-> "none", in |-> [z |-> 0]]

\* limits that a JSON number holds exactly
CleanBound(b) == IF b # <<>> /\ Len(b[1]) > 12 THEN <<"2.5">> ELSE b
RECURSIVE Clean(_)
Clean(ts) == [ts EXCEPT !.min = CleanBound(@), !.max = CleanBound(@), !.fields = [i \in 1..Len(ts.fields) |-> [ts.fields[i] EXCEPT !.ts = Clean(@)]]]
CleanS(S) == [S EXCEPT !.types = [i \in 1..Len(S.types) |-> [S.types[i] EXCEPT !.ts = Clean(@)]]]

---------------------------------------------------------------------------
\* actions with inputs in every place
Templates == { <<"/things", <<>>>>, <<"/things/{id}", <<"id">>>>, <<"/things/{id}/parts/{partNo}", <<"id", "partNo">>>>, <<"/x_1", <<>>>>, <<"/", <<>>>> }
HeadPool == {"X-Request-Id", "If-None-Match", "x-tok", "Etag"}
InTs(names) == LET k == R(1..6) IN
               CASE k = 1 /\ names # {} -> OfType(R(names)) [] k = 2 -> Clean(LeafSpec(names)) [] OTHER -> OfType(R({"String", "Int32", "Bool", "Int64", "Timestamp", "UUID", "Float64"}))
BodyTs(names) == IF Chance(3) \/ names = {} THEN Clean(LeafSpec(names)) ELSE OfType(R(names))
InDefault(u) == IF Chance(4) THEN <<R({VStr("dflt"), VNum("0"), VNum("25"), VBool(TRUE)})>> ELSE <<>>   \* not written to OpenAPI
MkParam(n, ts) == [Param0 EXCEPT !.name = n, !.ts = ts, !.required = Chance(3), !.comment = R(Comments)]
ActionX(name, names, methods) ==
    LET t == R(Templates)
        ins == SeqOf(Len(t[2]), LAMBDA i : [MkParam(t[2][i], InTs(names)) EXCEPT !.path = TRUE, !.required = Chance(2)])
        qn == Some(R(0..2), {"limit", "skip", "q1"})
        qs == SeqOf(Len(qn), LAMBDA i : [MkParam(qn[i], InTs(names)) EXCEPT !.query = IF Chance(3) THEN "the_" \o qn[i] ELSE qn[i], !.default = InDefault(0)])
        hn == Some(R(0..1), HeadPool)
        hs == SeqOf(Len(hn), LAMBDA i : [MkParam("head" \o NatStr(i), InTs(names)) EXCEPT !.header = hn[i], !.default = InDefault(0)])
        m == R(methods)
        bs == IF (m \in {"GET", "DELETE", "HEAD"} /\ ~Chance(8)) \/ Chance(4) THEN <<>> ELSE <<MkParam(R({"body", "item", "thing"}), BodyTs(names))>>
        on == Some(R(0..2), HeadPool)
        outs == SeqOf(Len(on), LAMBDA i : [MkParam("out" \o NatStr(i), InTs(names)) EXCEPT !.header = on[i]])
        out == IF Chance(4) THEN <<>> ELSE <<MkParam(R({"body", "item", "result"}), BodyTs(names))>>
        st == Some(R(0..2), {400, 404, 409, 500, 0})
        all == ins \o qs \o hs \o bs
        ord == Some(Len(all), 1..Len(all)) IN
    [Http0 EXCEPT !.name = name, !.method = m, !.path = t[1] \o (IF qs = <<>> THEN "" ELSE "?" \o Join(SeqMap(qs, LAMBDA p : p.query \o "={" \o p.name \o "}"), "&")),
                  !.comment = R(Comments), !.resource = R({"", "", "Thing", "thing"}),
                  !.annos = R({<<>>, <<>>, <<<<"x_tags", "one">>>>, <<<<"x_a", "1">>, <<"x_tags", "one,two words">>>>, <<<<"x_tags", "Thing,on,one">>>>, <<<<"x_tags", "thing">>>>}),
                  !.inputs = IF Chance(2) THEN all ELSE SeqOf(Len(ord), LAMBDA i : all[ord[i]]),
                  !.expected = IF Chance(8) THEN <<>> ELSE <<[Expect0 EXCEPT !.status = R({200, 201, 204, 304}), !.comment = R(Comments), !.outputs = outs \o out]>>,
                  !.exceptions = SeqOf(Len(st), LAMBDA i : [Exc0 EXCEPT !.status = st[i], !.comment = R(Comments), !.type = IF names = {} \/ Chance(6) THEN R({"String", "Struct", "Any", ""}) ELSE R(names)])]
\* examples: of types, requests and responses, with and without names
ValuesFor(S, ps) == LET q == Some(R(0..Len(ps)), 1..Len(ps)) IN
                    VObj(SeqOf(Len(q), LAMBDA i : Pair(ps[q[i]].name, ValueOf(S, ps[q[i]].ts, 2))) \o (IF Chance(5) THEN <<Pair("nosuch", VNum("1"))>> ELSE <<>>))
ExampleOf(S, names) ==
    LET k == R(1..6)
        h == Pick(S.http)
        t == Pick(S.types)
        e0 == [target |-> "", name |-> R({"", "", "one", "two"}), comment |-> "", annos |-> <<>>, example |-> VNull] IN
    CASE k = 1 \/ (S.http = <<>> /\ S.types # <<>>) -> IF S.types = <<>> THEN [e0 EXCEPT !.target = "Nosuch"] ELSE [e0 EXCEPT !.target = t.name, !.example = ValueOf(S, t.ts, 2)]
      [] k \in {2, 3} /\ S.http # <<>> -> [e0 EXCEPT !.target = ReqTarget(h), !.example = IF Chance(15) THEN R(Junk) ELSE ValuesFor(S, h.inputs)]
      [] k \in {4, 5} /\ S.http # <<>> -> [e0 EXCEPT !.target = RespTarget(h), !.example = IF Chance(15) \/ h.expected = <<>> THEN R(Junk) ELSE ValuesFor(S, h.expected[1].outputs)]
      [] OTHER -> [e0 EXCEPT !.target = R({"Nosuch", "NosuchRequest", "NosuchResponse", "Request", "Response"}), !.example = R(Junk)]
WithExamples(S, n) == [S EXCEPT !.examples = SeqOf(n, LAMBDA i : ExampleOf(S, TypeNames(S)))]
Top(S) == [S EXCEPT !.version = R({"", "1.2.3"}), !.comment = R(Comments), !.base = R({"", "", "/v1", "/api/v2"}),
                    !.annos = R({<<>>, <<>>, <<<<"x_license_name", "MIT">>, <<"x_server", "https://a.b/c">>>>, <<<<"x_license_url", "http://l">>>>, <<<<"x_a", "1">>>>})]
TypesCase(u) == [op |-> "oas.types", in |-> [schema |-> WithExamples(Top(CleanS(RandSchema(R(1..6), 0))), R(0..2))]]
OpsCase(u) ==
    LET S == CleanS(RandSchema(R(0..4), 0))
        q == Some(R(1..4), ActionPool)
        ms == {"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}
        T == [S EXCEPT !.http = SeqOf(Len(q), LAMBDA i : ActionX(q[i], TypeNames(S), IF Chance(60) THEN {"TRACE", "CONNECT"} ELSE ms))]
        \* mostly different paths
        U == IF Chance(8) THEN T ELSE [T EXCEPT !.http = [i \in 1..Len(T.http) |-> [T.http[i] EXCEPT !.path = IF i = 1 THEN @ ELSE IF i % 2 = 0 THEN "/p" \o NatStr(i) \o @ ELSE "/q" \o @]]] IN
    [op |-> "oas.ops", in |-> [schema |-> WithExamples(Top(U), R(0..3))]]

---------------------------------------------------------------------------
\* documents
OsNames == {"Aa", "Bb", "Cc", "Dd", "Timestamp", "Decimal", "a1", "Zz_9"}
PropNames == {"a", "b", "kind", "x1", "bb", "Cap", "z_z", "type", "A", "KIND"}
DescPool == {"", "", "hello there", "two, words: \"quoted\"", "a < b & c > d", "# not: [yaml]", "café ☕, naïve"}
Lim(S) == IF Chance(2) THEN <<R(S)>> ELSE <<>>
RECURSIVE RandOs(_, _)
RandOs(names, d) ==
    LET k == R(1..16)
        s == CASE k \in {1, 2} /\ names # {} -> RefTo(R(names))
               [] k = 3 -> OsType("boolean")
               [] k \in {4, 5} -> [OsType("string") EXCEPT !.pattern = IF Chance(3) THEN R(Patterns) ELSE "", !.minlen = R(0..2), !.maxlen = Lim(0..5), !.format = R({"", "", "byte", "password"})]
               [] k = 6 -> [OsType("string") EXCEPT !.enum = Some(R(1..3), SymPool)]
               [] k = 7 -> [OsType("string") EXCEPT !.enum = Some(R(1..3), {"x y", "RED", "1st", "a-b", ""}), !.pattern = IF Chance(4) THEN "^a" ELSE ""]
               [] k = 8 -> [OsType("string") EXCEPT !.format = R({"uuid", "date-time"})]
               [] k = 9 -> [OsType("number") EXCEPT !.format = R({"", "float", "double"}), !.min = Lim({"0", "-1.5", "0.1"}), !.max = Lim({"10", "2.5", "1000000"})]
               [] k \in {10, 11} -> [OsType("integer") EXCEPT !.format = R({"", "int32", "int64", "int8", "int16"}), !.min = Lim({"0", "-5", "1"}), !.max = Lim({"10", "100", "2147483648"})]
               [] k = 12 -> [OsType("array") EXCEPT !.items = IF Chance(6) THEN <<>> ELSE <<RandOs(names, IF d = 0 THEN 0 ELSE d - 1)>>, !.minitems = R(0..2), !.maxitems = Lim(0..4)]
               [] k = 13 /\ Chance(6) -> OsType(R({"file", "null", "any"}))
               [] OTHER -> IF d = 0 THEN OsType("boolean")
                           ELSE LET q == Sorted(SeqSet(Some(R(0..4), PropNames))) IN
                                [OsType(IF Chance(6) THEN "" ELSE "object") EXCEPT
                                   !.props = SeqOf(Len(q), LAMBDA i : Prop(q[i], RandOs(names, d - 1))),
                                   !.required = LET r == Some(R(0..Len(q)), 1..Len(q)) IN SeqOf(Len(r), LAMBDA i : q[r[i]]) \o (IF Chance(12) THEN <<"ghost">> ELSE <<>>)] IN
    IF s.ref # "" THEN s ELSE [s EXCEPT !.desc = R(DescPool)]
\* examples on types and properties
RECURSIVE Exemplify(_, _)
Exemplify(s, d) == IF s.ref # "" THEN s
                   ELSE LET t == IF Chance(6) THEN [s EXCEPT !.example = <<R(Junk \ {VNull})>>] ELSE s IN
                        IF d = 0 THEN t ELSE [t EXCEPT !.props = SeqOf(Len(t.props), LAMBDA i : [t.props[i] EXCEPT !.s = Exemplify(@, d - 1)])]
\* a schema that is a reference to one that is a reference to ...
RefChain(ns, last) == SeqOf(Len(ns), LAMBDA i : Prop(ns[i], IF i = last THEN RandOs({}, 1) ELSE RefTo(ns[IF i < last THEN i + 1 ELSE i - 1])))
RandSchemas(n) == IF n >= 3 /\ Chance(8) THEN LET ns == Sorted(SeqSet(Some(n, OsNames \ {"Timestamp", "Decimal"}))) IN RefChain(ns, R(1..Len(ns)))
                  ELSE
                  LET ns == Sorted(SeqSet(Some(n, OsNames)))
                      names == SeqSet(ns) \cup (IF Chance(10) THEN {"Nosuch"} ELSE {}) IN
                  SeqOf(Len(ns), LAMBDA i : Prop(ns[i], Exemplify(RandOs(names, 2), 1)))
TopDoc(d) == [d EXCEPT !.title = IF Chance(25) THEN "" ELSE R({"Things", "thing_1", "The Thing API", "9lives", "_x"}), !.desc = R(DescPool),
                       !.version = IF Chance(25) THEN "" ELSE R({"1.0", "2019-01-01"}), !.openapi = IF Chance(40) THEN "" ELSE R({"3.0.0", "3.0.3"}),
                       !.terms = R({"", "", "https://a.b/terms", "be nice"}),
                       !.contact = R({<<>>, <<>>, <<[name |-> "Ann", url |-> "", email |-> ""]>>, <<[name |-> "Ann O'Neill", url |-> "http://c", email |-> "ann@c"]>>, <<[name |-> "", url |-> "", email |-> "x@y"]>>}),
                       !.docs = R({<<>>, <<>>, <<[desc |-> "", url |-> "http://d"]>>, <<[desc |-> "more \"of\" it", url |-> "http://d/?a=1&b"]>>}),
                       !.license = R({<<>>, <<>>, <<>>, <<[name |-> "MIT", url |-> ""]>>, <<[name |-> "MIT", url |-> "http://l"]>>}),
                       !.servers = R({<<>>, <<"http://a">>, <<"http://a", "https://b/c">>})]
FileNames == {"things.json", "my.api.json", "other.yaml", "a.b.c.yaml", "noext", "a-b.c-d.json", "v1.2.3.json"}
\* an enum with something in it that is not a text, somewhere
RECURSIVE Oddly(_)
Oddly(s) == IF s.ref # "" THEN s
            ELSE LET t == [s EXCEPT !.enum = IF s.type \in {"string", "integer"} /\ Chance(2) THEN <<"RED", R({"#1", "#true", "#null", "#[]"})>> ELSE @] IN
                 [t EXCEPT !.props = SeqOf(Len(t.props), LAMBDA i : [t.props[i] EXCEPT !.s = Oddly(@)]), !.items = SeqOf(Len(t.items), LAMBDA i : Oddly(t.items[i]))]
OddSchemas(q) == SeqOf(Len(q), LAMBDA i : [q[i] EXCEPT !.s = Oddly(@)])
OddParams(q) == SeqOf(Len(q), LAMBDA i : [q[i] EXCEPT !.schema = SeqOf(Len(@), LAMBDA j : Oddly(q[i].schema[j]))])
OddPaths(q) == SeqOf(Len(q), LAMBDA i : [q[i] EXCEPT !.ops = SeqOf(Len(@), LAMBDA j : [q[i].ops[j] EXCEPT !.op.params = OddParams(@)])])
SchemasCase(u) ==
    LET d == TopDoc([Doc0 EXCEPT !.schemas = RandSchemas(R(0..5))])
        d2 == IF Chance(40) THEN [d EXCEPT !.nopaths = TRUE] ELSE IF Chance(40) THEN [d EXCEPT !.license = <<[name |-> "", url |-> "http://l"]>>] ELSE d IN
    [op |-> "oas.import", in |-> [doc |-> IF Chance(15) THEN [d2 EXCEPT !.schemas = OddSchemas(@)] ELSE d2, fname |-> R(FileNames), files |-> IF Chance(60) THEN R({0, 2, 3}) ELSE 1]]
\* operations
OParamOf(n, in, names) ==
    [OParam0 EXCEPT !.name = n, !.in = in, !.desc = R(DescPool), !.required = (in = "path" \/ Chance(3)),
       !.schema = IF Chance(50) THEN <<>>
                  ELSE LET s == RandOs(names, 0) IN <<IF s.type \in {"file", "null", "any"} THEN s ELSE s>>]
OTemplates == { <<"/things", <<>>>>, <<"/things/{id}", <<"id">>>>, <<"/things/{thing-id}/parts/{part2}", <<"thing-id", "part2">>>>, <<"/a/{_x}", <<"_x">>>>, <<"/b/{2nd}", <<"2nd">>>> }
ContentOf(names, refOnly) ==
    IF Chance(5) THEN <<>>
    ELSE LET mts == Sorted(SeqSet(IF Chance(5) THEN Some(R(1..2), {"application/xml", "application/json", "text/plain", "application/json; charset=utf-8", "application/json-patch+json", "Application/JSON"}) ELSE <<"application/json">>)) IN
         SeqOf(Len(mts), LAMBDA i : [OMedia0 EXCEPT !.mt = mts[i], !.schema = IF Chance(25) THEN <<>> ELSE IF names # {} /\ (refOnly \/ Chance(2)) THEN <<RefTo(R(names))>> ELSE <<RandOs(names, 1)>>])
RespHeaders(names, n) ==
    LET q == Sorted(SeqSet(Some(n, {"X-Rate-Limit", "x-next", "Etag", "Last-Modified", "X-2"}))) IN
    SeqOf(Len(q), LAMBDA i : [n |-> q[i], desc |-> R(DescPool), schema |-> IF Chance(15) THEN <<>> ELSE <<RandOs(names, 0)>>])
Statuses(u) == LET good == IF Chance(15) THEN <<>> ELSE Some(R(1..2), {"200", "201", "204", "304", "302"})
                   good2 == IF Chance(20) THEN <<R({"2XX", "3XX", "2xx", "20x", "2"})>> ELSE good
                   bad == IF Chance(25) THEN <<R({"4XX", "5xx", "abc", "XXX", "40O", "default "})>> ELSE Some(R(0..2), {"400", "404", "500", "default"}) IN
               Sorted(SeqSet(good2) \cup SeqSet(bad))
RandOp(id, params, method, names) ==
    LET sts == Statuses(0)
        tags == Some(R(0..4), {"Thing", "two", "tag3", "tag", "wo", "thing"}) IN
    [OOp0 EXCEPT !.id = id, !.summary = R(DescPool), !.tags = tags, !.params = params,
       !.body = IF method \in {"POST", "PUT", "PATCH"} \/ Chance(8) THEN IF Chance(4) THEN <<>> ELSE <<[OBody0 EXCEPT !.desc = R(DescPool), !.required = Chance(2), !.content = ContentOf(names, FALSE)]>> ELSE <<>>,
       !.resps = SeqOf(Len(sts), LAMBDA i : [OResp0 EXCEPT !.status = sts[i], !.desc = R(DescPool), !.headers = RespHeaders(names, IF Chance(2) THEN 0 ELSE R(1..2)), !.content = ContentOf(names, ~Success(sts[i]) /\ ~Chance(25))])]
\* operations of one path
RandPath(t, ids, names) ==
    LET ms == Some(Len(ids), {"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"})
        order == Filter(ExportMethods, LAMBDA m : m \in SeqSet(ms))
        atPath == t[2] # <<>> /\ Chance(3)                     \* path parameters shared by the operations
        pps == SeqOf(Len(t[2]), LAMBDA i : OParamOf(t[2][i], "path", names))
        shared == (IF atPath THEN pps ELSE <<>>) \o (IF Chance(5) THEN <<OParamOf("common", R({"query", "header"}), names)>> ELSE <<>>)
        qs(u) == LET q == Some(R(0..2), {"limit", "page-size", "q1", "common", "Common", "$top"}) IN SeqOf(Len(q), LAMBDA i : OParamOf(q[i], "query", names))
        hs(u) == LET q == Some(R(0..1), {"X-Tok", "If-Match"}) IN SeqOf(Len(q), LAMBDA i : OParamOf(q[i], "header", names))
        own(u) == (IF atPath THEN <<>> ELSE pps) \o qs(0) \o hs(0) \o (IF Chance(60) THEN <<OParamOf("c", "cookie", names)>> ELSE <<>>) \o (IF Chance(60) THEN <<OParamOf("ghost", "path", names)>> ELSE <<>>) IN
    [p |-> t[1], shared |-> shared, ops |-> SeqOf(Len(order), LAMBDA i : [m |-> order[i], op |-> RandOp(ids[i], own(0), order[i], names)])]
RECURSIVE RandPaths(_, _, _)
RandPaths(ts, ids, names) ==
    IF ts = <<>> THEN <<>>
    ELSE LET n == IF Len(ts) = 1 THEN Len(ids) ELSE R(0..Len(ids))
             k == IF n > 3 THEN 3 ELSE n IN
         <<RandPath(ts[1], UpTo(ids, k), names)>> \o RandPaths(Tail(ts), SubSeq(ids, k + 1, Len(ids)), names)
SomeTemplates(n) == LET q == Some(n, OTemplates)
                        ps == Sorted({ q[i][1] : i \in 1..Len(q) }) IN
                    SeqMap(ps, LAMBDA p : CHOOSE t \in OTemplates : t[1] = p)
OpIds(u) == LET q == Some(R(1..4), {"getThing", "putThing", "list", "op_4", "op5"}) IN IF Chance(30) THEN Append(q, q[1]) ELSE q
SimpleSchemas == <<Prop("Aa", [OsType("object") EXCEPT !.props = <<Prop("a", OsType("string"))>>]), Prop("Bb", [OsType("string") EXCEPT !.enum = <<"RED", "GREEN">>]), Prop("Err", [OsType("object") EXCEPT !.props = <<Prop("message", OsType("string"))>>])>>
PathsCase(u) ==
    LET d == TopDoc([Doc0 EXCEPT !.schemas = SimpleSchemas, !.paths = RandPaths(SomeTemplates(R(1..3)), OpIds(0), {"Aa", "Bb", "Err"})])
        d2 == IF Chance(60) /\ d.paths # <<>> THEN [d EXCEPT !.paths[1].p = "things"] ELSE d IN
    [op |-> "oas.import", in |-> [doc |-> d2, fname |-> R(FileNames), files |-> IF Chance(60) THEN R({0, 2, 3}) ELSE 1]]

---------------------------------------------------------------------------
\* Swagger 2: no examples below the top of a definition, bodies are parameters, one schema per response
RECURSIVE SwOs(_)
SwOs(s) == [s EXCEPT !.format = IF s.type \in {"string", "integer", "number"} THEN @ ELSE "", !.items = [i \in 1..Len(s.items) |-> SwOs(s.items[i])],
                     !.props = [i \in 1..Len(s.props) |-> [s.props[i] EXCEPT !.s = SwOs(@)]]]
\* in parameters and headers a schema is written in place, so it is not a reference, and its description is the parameter's
Flat(s) == IF s.ref # "" THEN OsType("string") ELSE [s EXCEPT !.desc = ""]
SwParam(p) == [p EXCEPT !.schema = IF @ = <<>> THEN <<OsType("string")>> ELSE <<Flat(@[1])>>]
SwBody(names) == [OParam0 EXCEPT !.name = "body", !.in = "body", !.desc = R(DescPool), !.required = Chance(2), !.schema = <<IF Chance(2) THEN RefTo(R(names)) ELSE RandOs(names, 1)>>]
SwResp(r) == [status |-> r.status, desc |-> r.desc, headers |-> [i \in 1..Len(r.headers) |-> [r.headers[i] EXCEPT !.schema = IF @ = <<>> THEN <<OsType("string")>> ELSE <<Flat(@[1])>>]],
              schema |-> IF r.content = <<>> THEN <<>> ELSE r.content[1].schema]
MediaPool == {<<>>, <<>>, <<"application/json">>, <<"application/json">>, <<"application/xml", "application/json">>, <<"text/plain">>}
SwOp(op, m, names) ==
    [SwOp0 EXCEPT !.id = op.id, !.summary = op.summary, !.tags = op.tags,
       !.params = SeqMap(op.params, SwParam) \o (IF m \in {"PUT", "POST", "PATCH"} /\ Chance(2) THEN <<SwBody(names)>> ELSE <<>>),
       !.resps = SeqMap(op.resps, SwResp), !.consumes = R(MediaPool), !.produces = R(MediaPool)]
SwaggerCase(u) ==
    LET d == PathsCase(0).in.doc
        names == {"Aa", "Bb", "Err"}
        w == [Sw0 EXCEPT !.swagger = IF Chance(40) THEN R({"", "1.2"}) ELSE "2.0", !.title = d.title, !.desc = d.desc, !.version = d.version, !.license = d.license, !.terms = d.terms, !.contact = d.contact, !.docs = d.docs,
                !.host = R({"", "a.b.com", "a.b.com:8080"}), !.basepath = R({"", "/v1"}), !.schemes = R({<<>>, <<"http">>, <<"http", "https">>, <<"https", "http">>, <<"wss">>, <<"ws", "http">>, <<"http", "ws", "wss">>}),
                !.consumes = R(MediaPool), !.produces = R(MediaPool),
                !.schemas = IF Chance(2) THEN RandSchemas(R(0..4)) ELSE SimpleSchemas,
                !.paths = SeqOf(Len(d.paths), LAMBDA i : [p |-> d.paths[i].p, shared |-> SeqMap(d.paths[i].shared, SwParam),
                             ops |-> SeqOf(Len(d.paths[i].ops), LAMBDA j : [m |-> d.paths[i].ops[j].m, op |-> SwOp(d.paths[i].ops[j].op, d.paths[i].ops[j].m, names)])])] IN
    [op |-> "swagger.import", in |-> [doc |-> w, fname |-> R({"things.json", "my-api.json", "a.b-c.yaml", "a.b.c.json", "one-two-three.yaml", "v1.2-a.b-c.json"}), files |-> IF Chance(60) THEN R({0, 2, 3}) ELSE 1]]

---------------------------------------------------------------------------
\* portable schemas
PortLeaf(S, names) ==
    LET k == R(1..8) IN
    CASE k = 1 -> OfType(R({"Bool", "Int32", "Int64", "Decimal", "Timestamp"}))
      [] k = 2 -> LET b == Bounds("Int32") IN [OfType(R({"Int32", "Int64"})) EXCEPT !.min = b.lo, !.max = b.hi]
      [] k = 3 -> LET b == Bounds("Decimal") IN Clean([OfType("Decimal") EXCEPT !.min = b.lo, !.max = b.hi])
      [] k = 4 -> [OfType("String") EXCEPT !.pattern = IF Chance(2) THEN R(Patterns) ELSE "", !.minsize = Lim(1..2), !.maxsize = Lim(2..4)]
      [] k = 5 -> [OfType("String") EXCEPT !.values = Some(R(1..2), {"x y", "a-b", "1st"})]
      [] k = 6 -> IF Chance(2) THEN [OfType("Enum") EXCEPT !.elements = LET q == Some(R(1..3), SymPool) IN SeqOf(Len(q), LAMBDA i : Elem(q[i]))] ELSE OfType("String")
      [] k = 7 -> [OfType("Array") EXCEPT !.items = R({"Bool", "String", "Int32", "Int64", "Decimal", "Timestamp"} \cup { n \in names : TypeOf(S, n).type \in {"Struct", "Enum"} }), !.minsize = Lim(1..2), !.maxsize = Lim(2..4)]
      [] OTHER -> IF names = {} THEN OfType("String") ELSE OfType(R(names))
PortSpec(S, names) ==
    LET k == R(1..4) IN
    IF k <= 2 THEN LET q == Some(R(1..4), FieldPool) IN
                   [OfType("Struct") EXCEPT !.fields = SeqOf(Len(q), LAMBDA i : [Field(q[i], PortLeaf(S, names)) EXCEPT !.required = Chance(2), !.comment = R(Comments)])]
    ELSE IF k = 3 /\ Chance(4) THEN OfType("UUID")
    ELSE LET s == PortLeaf(S, names) IN IF Declared(S, s.type) THEN OfType("Bool") ELSE s
RECURSIVE PortTypes(_, _, _)
PortTypes(names, i, S) == IF i > Len(names) THEN S
                          ELSE PortTypes(names, i + 1, [S EXCEPT !.types = Append(@, [TypeDef(names[i], PortSpec(S, TypeNames(S))) EXCEPT !.comment = R(Comments)])])
PortIn(S) == LET s == PortLeaf(S, TypeNames(S)) IN IF s.type = "Enum" THEN OfType("Int64") ELSE s
PortAction(S, name, i) ==
    LET h == ActionX(name, TypeNames(S), {"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"})
        fix(p) == [p EXCEPT !.ts = IF PortTs(S, @) /\ @.type # "Enum" THEN @ ELSE PortIn(S)] IN
    [h EXCEPT !.path = "/p" \o NatStr(i) \o @, !.annos = <<>>, !.resource = "Thing",
              !.inputs = LET q == Filter(h.inputs, LAMBDA p : Place(p) # "body" \/ h.method \in {"PUT", "POST", "PATCH"}) IN SeqOf(Len(q), LAMBDA j : fix(q[j])),
              !.expected = <<LET e == IF @ = <<>> THEN Expect0 ELSE @[1] IN [e EXCEPT !.outputs = SeqOf(Len(e.outputs), LAMBDA j : fix(e.outputs[j]))]>>,
              !.exceptions = LET q == Filter(h.exceptions, LAMBDA z : z.status \in {400, 404, 409, 500}) IN SeqOf(Len(q), LAMBDA j : [q[j] EXCEPT !.type = Pick(S.types).name])]
RoundCase(u) ==
    LET S == PortTypes(Some(R(1..5), TypePool \ {"Kind"}), 1, [Schema0 EXCEPT !.name = "s", !.version = R({"", "1"}), !.base = R({"", "/v1"})])
        q == Some(R(0..3), ActionPool) IN
    [op |-> "oas.roundtrip", in |-> [schema |-> [S EXCEPT !.http = SeqOf(Len(q), LAMBDA i : PortAction(S, q[i], i))], fname |-> R({"s.json", "s.yaml"})]]

---------------------------------------------------------------------------
Init == x = None
Next == x' = CASE Mode = "P13" -> TypesCase(0)
               [] Mode = "P14" -> OpsCase(0)
               [] Mode = "P15" -> SchemasCase(0)
               [] Mode = "P16" -> (LET c == PathsCase(0) IN IF Chance(20) THEN [c EXCEPT !.in.doc.paths = OddPaths(@)] ELSE c)
               [] Mode = "P17" -> SwaggerCase(0)
               [] Mode = "P18" -> RoundCase(0)
Emit == x.op = "none" \/ PrintT("CASE " \o ToJson(x))

\* the specification itself: what is exported is closed, and admits what the type does
\* (exactly, for types that OpenAPI can say all of but for undeclared fields; at least, for the others but unions)
Sample == Junk \cup { VStr(s) : s \in {"abc", "RED", "x y", "2019-01-02T03:04:05.678Z", "1ce437b0-1dd2-11b2-bc26-003ee1be85f9"} } \cup { VNum(n) : n \in {"-2", "0", "3", "11", "2.5", "0.05", "2147483648"} }
\* (a union is tagged in SADL, not in OpenAPI; any value passes as Bytes)
PlainTs(ts) == ts.type \notin {"Union", "Bytes"} /\ ts.items \notin {"Union", "Bytes"} /\ ~(ts.values # <<>> /\ ts.pattern # "")
Tagless(S) == \A i \in 1..Len(S.types) : PlainTs(S.types[i].ts) /\ (\A j \in 1..Len(S.types[i].ts.fields) : PlainTs(S.types[i].ts.fields[j].ts))
DesignExport == x.op \in {"oas.types", "oas.ops"} /\ ExportOk(x.in.schema) =>
    LET S == x.in.schema d == Exported(S) IN
    /\ Closed(d)
    /\ Tagless(S) => \A i \in 1..Len(S.types) : \A v \in Sample :
         /\ Conforms(S, S.types[i].ts, v) => Admits(d, RefTo(S.types[i].name), v)
         /\ (Admits(d, RefTo(S.types[i].name), v) /\ PortType(S, S.types[i].ts) /\ ~(S.types[i].ts.type = "Struct")
               /\ ~(S.types[i].ts.type = "Array" /\ Declared(S, S.types[i].ts.items))) => Conforms(S, S.types[i].ts, v)
\* and a portable schema comes back from the specified import of the specified export
DesignRound == x.op = "oas.roundtrip" =>
    LET S == x.in.schema c == Imported(Exported(S), x.in.fname) IN
    Portable(S) /\ ExportOk(S) /\ c.ok /\ SameBack(S, c.S)
=============================================================================
