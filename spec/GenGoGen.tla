------------------------------ MODULE GenGoGen ------------------------------
(* Schemas, and JSON values of their types, for the Go generator: P21 *)
EXTENDS GenSchema, GoGen, Json
CONSTANTS Mode
VARIABLE x
None == [op |-> "none", in |-> [z |-> 0]]

GoSimple == {"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any", "UnitValue"}
KeyNames(S, names) == {"String", "UUID", ""} \cup { n \in names : Declared(S, n) /\ TypeOf(S, n).type = "String" }
ItemName(names) == IF names # {} /\ Chance(2) THEN R(names) ELSE R(GoSimple \cup {"", "Struct", "Array", "Map"})
GoSpec(S, names) ==
    LET k == R(1..9) IN
    CASE k \in 4..5 /\ names # {} -> OfType(R(names))
      [] k = 6 -> [OfType("Array") EXCEPT !.items = ItemName(names)]
      [] k = 7 -> [OfType("Map") EXCEPT !.items = ItemName(names), !.keys = R(KeyNames(S, names))]
      [] k = 8 -> OfType(R({"Struct", "Any", "Array", "Map"}))
      [] k = 9 -> [OfType("String") EXCEPT !.pattern = "^a", !.maxsize = <<5>>]
      [] OTHER -> OfType(R(GoSimple))
FieldsFor(S, names, n) == LET q == Some(n, FieldPool) IN
    SeqOf(Len(q), LAMBDA i : [Field(q[i], GoSpec(S, names)) EXCEPT !.required = Chance(2), !.comment = R(Comments)])
GoEnum(i) == LET q == Some(R(1..4), SymPool) IN
    [OfType("Enum") EXCEPT !.elements = SeqOf(Len(q), LAMBDA j : [Elem(q[j] \o "_" \o NatStr(i)) EXCEPT !.annos = IF Chance(3) THEN <<<<"x_enumValue", "v-" \o LowStr(q[j]) \o NatStr(j)>>>> ELSE <<>>])]
RECURSIVE GoTypesFrom(_, _, _)
GoTypesFrom(names, i, S) ==
    IF i > Len(names) THEN S
    ELSE LET before == TypeNames(S)
             k == R(1..9)
             ts == CASE k \in 1..3 -> [OfType("Struct") EXCEPT !.fields = FieldsFor(S, IF Chance(2) THEN SeqSet(names) ELSE before, R(0..5))]
                     [] k = 4 -> GoEnum(i)
                     [] k = 5 -> LET q == Some(R(1..3), {"v1", "v2", "other", "AA"}) IN
                                 [OfType("Union") EXCEPT !.variants = SeqOf(Len(q), LAMBDA j : Variant(q[j], IF before # {} /\ Chance(2) THEN R(before) ELSE R(GoSimple)))]
                     [] OTHER -> GoSpec(S, before) IN
         GoTypesFrom(names, i + 1, [S EXCEPT !.types = Append(@, TypeDef(names[i], IF ts.type = "Struct" /\ k > 3 THEN OfType("Any") ELSE ts))])
Raisable(S) == { n \in TypeNames(S) : TypeOf(S, n).type \in {"Struct", "Union"} }
GoParams(S, n) == LET q == Some(n, FieldPool) IN
    SeqOf(Len(q), LAMBDA i : [Param0 EXCEPT !.name = q[i], !.ts = GoSpec(S, TypeNames(S)), !.required = Chance(3), !.query = R({"", "q"})])
GoActions(S) == LET q == Some(R(0..2), ActionPool) IN
    SeqOf(Len(q), LAMBDA i :
      [Http0 EXCEPT !.name = q[i], !.path = "/" \o q[i], !.inputs = GoParams(S, R(0..3)),
                    !.expected = IF Chance(5) THEN <<>> ELSE <<[Expect0 EXCEPT !.outputs = GoParams(S, R(0..2))]>>,
                    !.exceptions = LET e == Some(R(0..2), Raisable(S)) IN SeqOf(Len(e), LAMBDA j : [Exc0 EXCEPT !.type = e[j], !.status = 400 + j])])
\* sometimes with something that cannot be generated
Spoil(S) ==
    IF ~Chance(12) \/ S.types = <<>> THEN S
    ELSE LET i == R(1..Len(S.types))
             bad == R({ [OfType("Enum") EXCEPT !.elements = <<Elem("ONE")>>], OfType("Nosuch"), [OfType("Array") EXCEPT !.items = "Enum"],
                        [OfType("Array") EXCEPT !.items = "Nosuch"], OfType("Union") }) IN
         IF S.types[i].ts.type = "Struct" THEN [S EXCEPT !.types[i].ts.fields = Append(@, Field("zz", bad))]
         ELSE IF S.http # <<>> THEN [S EXCEPT !.http[1].inputs = Append(@, [Param0 EXCEPT !.name = "zz", !.ts = bad])] ELSE S
MaybeChained(S) == IF Chance(8) THEN Chained(S, {"Decimal", "Timestamp", "Int32", "String"}) ELSE S
GoSchema(u) ==
    LET S == MaybeChained(GoTypesFrom(Some(R(1..6), TypePool), 1, [Schema0 EXCEPT !.name = R({"s", "svc", "Thing"}), !.namespace = R({"", "n", "a.b"})])) IN
    Spoil([S EXCEPT !.http = GoActions(S)])
GoConf(u) == (IF Chance(3) THEN <<<<"package", R({"qq", "x.y.zz"})>>>> ELSE <<>>)
             \o (IF Chance(4) THEN <<<<"name", R({"other", "Big"})>>>> ELSE <<>>)
             \o (IF Chance(4) THEN <<<<"runtime", "true">>>> ELSE <<>>)

---------------------------------------------------------------------------
GoInts(t) == { y \in Nums : IsIntText(y) /\ InRange(Dec(y), t) }
GoFloats == {"0", "1", "-1", "0.5", "2.5", "-1.5", "100", "1000", "0.1", "12345"}
GoDecs == {"0", "1", "-1.5", "0.1", "123456789012345.678", "100", "0.000001", "98765432109876543210.0123456789", "1000"}
GoTimes == {"2019-01-02T03:04:05.678Z", "2020-02-29T23:59:59.999Z", "2019-01-02T03:04:05Z", "2019-01-02T03:04:05.6Z", "2019-01-02T03:04:05.120+00:00",
            "1969-12-31T00:00:00.001Z", "2019-01-02T03:04:05.9996Z", "2019-12-31T23:59:59.99951Z", "2020-02-28T23:59:59.123456789Z", "1969-12-31T23:59:59.9999Z", "0999-01-01T00:00:00.000Z", "9999-12-31T23:59:59.999Z"}
GoTexts == {"", "a", "abc", "x y", "RED", "v-red1", "<b>&", "quo\"te", "back\\slash", "café", "日本 ☕"}
GoJunk == { VBool(TRUE), VStr("a"), VNum("1"), VNum("2.5"), VNum("300"), VArr(<<>>), VObj(<<>>), VArr(<<VNum("1")>>), VObj(<<Pair("a", VNum("1"))>>), VStr("nope!"), VStr("12.5") }
RECURSIVE GoVal(_, _, _, _)
GoVal(S, ts, d, flaw) ==
    IF flaw /\ Chance(12) THEN R(GoJunk)
    ELSE CASE ts.type = "Bool" -> VBool(Chance(2))
      [] ts.type \in IntTypes -> VNum(R(GoInts(ts.type)))
      [] ts.type \in {"Float32", "Float64"} -> VNum(R(GoFloats))
      [] ts.type = "Decimal" -> IF Chance(3) THEN VStr(R(GoDecs)) ELSE VNum(R(GoDecs))
      [] ts.type \in {"String", "UUID"} -> VStr(R(GoTexts))
      [] ts.type = "Bytes" -> VStr(R({"", "AAEC", "aGVsbG8=", "/+8="}))
      [] ts.type = "Timestamp" -> VStr(R(GoTimes))
      [] ts.type = "UnitValue" -> VStr(R({"3 RED", "1.5 kg", "100 USD"}))
      [] ts.type \in {"Any", ""} -> R(GoJunk)
      [] ts.type = "Enum" -> IF ts.elements = <<>> THEN VStr("") ELSE VStr(EnumText(Pick(ts.elements)))
      [] ts.type = "Array" -> VArr(SeqOf(IF d = 0 THEN 0 ELSE R(0..2), LAMBDA i : GoVal(S, OfType(ts.items), d - 1, flaw)))
      [] ts.type = "Map" -> LET q == Some(IF d = 0 THEN 0 ELSE R(0..2), {"a", "k1", "x y", "RED"}) IN
                            VObj(SeqOf(Len(q), LAMBDA i : Pair(q[i], GoVal(S, OfType(ts.items), d - 1, flaw))))
      [] ts.type = "Struct" ->
           LET there == { i \in 1..Len(ts.fields) : ts.fields[i].required \/ (d > 0 /\ Chance(2)) }
               q == Some(Cardinality(there), there) IN
           IF d < 0 THEN VObj(<<>>) ELSE VObj(SeqOf(Len(q), LAMBDA i : Pair(ts.fields[q[i]].name, GoVal(S, ts.fields[q[i]].ts, d - 1, flaw))))
      [] ts.type = "Union" -> IF ts.variants = <<>> THEN VObj(<<>>) ELSE LET v == Pick(ts.variants) IN VObj(<<Pair(v.name, GoVal(S, OfType(v.type), d - 1, flaw))>>)
      [] Declared(S, ts.type) -> IF d < -3 THEN VStr("deep") ELSE GoVal(S, TypeOf(S, ts.type), d, flaw)
      [] OTHER -> VNum("1")
\* every required member of every struct in the value is there: else what is written says more than what was read
RECURSIVE Full(_, _, _)
Full(S, ts, v) ==
    CASE ts.type = "Struct" /\ v.k = "obj" -> \A i \in 1..Len(ts.fields) : LET f == ts.fields[i] IN
                               IF f.name \in ObjKeys(v) THEN Full(S, f.ts, ObjGet(v, f.name)) ELSE ~f.required
      [] ts.type = "Union" /\ v.k = "obj" -> \A i \in 1..Len(ts.variants) : ts.variants[i].name \in ObjKeys(v) => Full(S, OfType(ts.variants[i].type), ObjGet(v, ts.variants[i].name))
      [] ts.type = "Array" /\ v.k = "arr" -> \A i \in 1..Len(v.a) : Full(S, OfType(ts.items), v.a[i])
      [] ts.type = "Map" /\ v.k = "obj" -> \A i \in 1..Len(v.o) : Full(S, OfType(ts.items), v.o[i].v)
      [] ts.type = "Bytes" -> v.k # "arr"          \* Go takes a list of numbers too
      [] Declared(S, ts.type) -> Full(S, TypeOf(S, ts.type), v)
      [] OTHER -> TRUE
Probe(S, i) == LET td == Pick(S.types) v == GoVal(S, OfType(td.name), 3, Chance(3)) IN [type |-> td.name, v |-> v]
GoTextPool == {"0", "12", "-5", "127", "128", "2.5", "abc", "", "1e2", "010", "2019-01-02T03:04:05.678Z", "123456789012345", "-1.25"}
ModelCase(u) ==
    LET S == GoSchema(0)
        pr == SeqOf(10, LAMBDA i : Probe(S, i)) IN
    [op |-> "go.model", in |-> [schema |-> S, conf |-> GoConf(0), probes |-> Filter(pr, LAMBDA z : GoOk(S) => Full(S, OfType(z.type), z.v)),
                                texts |-> Some(3, GoTextPool)]]
Init == x = None
Next == x' = ModelCase(0)
Emit == x.op = "none" \/ PrintT("CASE " \o ToJson(x))
\* what is written is read again as the same
DesignAgain == x.op = "go.model" /\ GoOk(x.in.schema) =>
    \A i \in 1..Len(x.in.probes) :
      LET S == x.in.schema p == x.in.probes[i] r == GoRead(S, OfType(p.type), p.v, FALSE) IN
      r # <<>> => LET r2 == GoRead(S, OfType(p.type), r[1], FALSE) IN r2 # <<>> /\ SameVal(r2[1], r[1])
=============================================================================
