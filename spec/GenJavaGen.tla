----------------------------- MODULE GenJavaGen -----------------------------
(* Schemas, and JSON values of their types, for the Java generator: P25 *)
EXTENDS GenSchema, JavaGen, Json
CONSTANTS Mode
VARIABLE x
None == [op |-> "none", in |-> [z |-> 0]]

JSimple == {"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any"}
JFieldPool == FieldPool \cup {"message", "URL", "aURL", "xY", "size", "extra"}
\* a collection of collections of times has no JSON (open)
HasTime(S, n) == LET e == JEnd(S, OfType(n)) IN e.type \in {"Array", "Map"} /\ e.items # "" /\ JEnd(S, OfType(e.items)).type \in {"Timestamp", "Array", "Map"}
JItem(S, names) == LET ok == { n \in names : JClass(S, n) \/ ~HasTime(S, n) } IN IF ok # {} /\ Chance(2) THEN R(ok) ELSE R(JSimple \cup {"", "Struct", "Array", "Map"})
JKeys(S, names) == {"String", ""} \cup { n \in names : Declared(S, n) /\ BaseOf(S, n) = "String" }
JLimited(t) == LET b == Bounds(t) IN
    IF t = "Int64" /\ Chance(2) THEN [OfType(t) EXCEPT !.min = IF Chance(2) THEN <<R({"-5000000000", "-9223372036854775808", "2147483648"})>> ELSE b.lo, !.max = IF Chance(2) THEN <<R({"5000000000", "9223372036854775807"})>> ELSE b.hi]
    ELSE [OfType(t) EXCEPT !.min = b.lo, !.max = b.hi]
JText(u) == LET z == Sizes(0) IN [OfType("String") EXCEPT !.pattern = R({"", "", "^a+$", "[a-z]*", "\\d+", "a\"b", "a\tb", "a\r\nb", "[^\\s]"}), !.minsize = z.lo, !.maxsize = z.hi]
JSpec(S, names) ==
    LET k == R(1..11) IN
    CASE k \in 4..5 /\ names # {} -> OfType(R(names))
      [] k = 6 -> [OfType("Array") EXCEPT !.items = JItem(S, names)]
      [] k = 7 -> [OfType("Map") EXCEPT !.items = JItem(S, names), !.keys = R(JKeys(S, names))]
      [] k = 8 -> OfType(R({"Struct", "Any", "Array", "Map"}))
      [] k = 9 -> JText(0)
      [] k = 10 -> JLimited(R(NumericTypes))
      [] OTHER -> OfType(R(JSimple))
\* a struct in a field: the class in the class must not have the name of another
InlineFor(S, names) == LET q == Some(R(1..2), {"p", "q", "zed"}) IN
    [OfType("Struct") EXCEPT !.fields = SeqOf(Len(q), LAMBDA i : [Field(q[i], JSpec(S, names)) EXCEPT !.required = Chance(2)])]
JMember(S, all, names, f) == [Field(f, IF f = "message" THEN JText(0) ELSE IF f \in {"x1", "xY", "extra", "name_"} /\ Chance(3) THEN InlineFor(S, names) ELSE JSpec(S, names)) EXCEPT !.required = Chance(2), !.comment = R(Comments)]
JFieldsFor(S, all, names, n) == LET q == Some(n, JFieldPool) IN SeqOf(Len(q), LAMBDA i : JMember(S, all, names, q[i]))
JEnum(i) == LET q == Some(R(1..4), SymPool) IN
    [OfType("Enum") EXCEPT !.elements = SeqOf(Len(q), LAMBDA j : [Elem(q[j]) EXCEPT !.comment = R(Comments), !.annos = IF Chance(3) THEN <<<<"x_enumValue", R({"v-", "two words ", "quo\"te", "back\\slash", "café", "日本 ☕"}) \o NatStr(j)>>>> ELSE <<>>])]
\* units are texts without blanks in them
UnitNames(S, names) == {"String"} \cup { n \in names : Declared(S, n) /\ (BaseOf(S, n) = "String" \/ (BaseOf(S, n) = "Enum" /\ \A i \in 1..Len(TypeOf(S, RealName(S, n)).elements) : ~Contains(EnumText(TypeOf(S, RealName(S, n)).elements[i]), " "))) }
ValueNames(S, names) == {"Decimal", "Int32", "Int64", "Int8", "Int16", "Float64", "Float32"} \cup { n \in names : Declared(S, n) /\ BaseOf(S, n) \in NumericTypes }
JUnit(S, names) == [OfType("UnitValue") EXCEPT !.value = R(ValueNames(S, names)), !.unit = R(UnitNames(S, names))]
RECURSIVE JTypesFrom(_, _, _)
JTypesFrom(names, i, S) ==
    IF i > Len(names) THEN S
    ELSE LET before == TypeNames(S)
             k == R(1..10)
             ts == CASE k \in 1..4 -> [OfType("Struct") EXCEPT !.fields = JFieldsFor(S, SeqSet(names), IF Chance(2) THEN SeqSet(names) ELSE before, R(0..5))]
                     [] k = 5 -> JEnum(i)
                     [] k = 6 -> LET q == Some(R(1..3), {"v1", "v2", "other", "AA", "aa"}) IN
                                 [OfType("Union") EXCEPT !.variants = SeqOf(Len(q), LAMBDA j : Variant(q[j], IF before # {} /\ Chance(2) THEN R(before) ELSE R(JSimple)))]
                     [] k = 7 -> JUnit(S, before)
                     [] OTHER -> JSpec(S, before) IN
         JTypesFrom(names, i + 1, [S EXCEPT !.types = Append(@, TypeDef(names[i], IF ts.type = "Struct" /\ k > 4 THEN OfType("Any") ELSE ts))])
JRaisable(S) == { n \in TypeNames(S) : Throwable(S, n) }
JParams(S, n) == LET q == Some(n, JFieldPool) IN
    SeqOf(Len(q), LAMBDA i : [Param0 EXCEPT !.name = q[i], !.ts = JMember(S, {}, TypeNames(S), q[i]).ts, !.required = Chance(3), !.query = R({"", "q"})])
JActions(S) == LET q == Some(R(0..2), ActionPool) IN
    SeqOf(Len(q), LAMBDA i :
      [Http0 EXCEPT !.name = q[i], !.path = "/" \o q[i], !.inputs = JParams(S, R(0..3)),
                    !.expected = IF Chance(5) THEN <<>> ELSE <<[Expect0 EXCEPT !.outputs = JParams(S, R(0..2))]>>,
                    !.exceptions = LET e == Some(R(0..2), JRaisable(S)) IN SeqOf(Len(e), LAMBDA j : [Exc0 EXCEPT !.type = e[j], !.status = 400 + j])])
JSpoil(S) ==
    IF ~Chance(8) \/ S.types = <<>> THEN S
    ELSE LET i == R(1..Len(S.types))
             bad == R({ [OfType("Enum") EXCEPT !.elements = <<Elem("ONE")>>], OfType("Nosuch"), [OfType("Array") EXCEPT !.items = "Enum"], [OfType("Map") EXCEPT !.keys = "Nosuch"],
                        [OfType("Array") EXCEPT !.items = "Nosuch"], OfType("Union"), OfType("UnitValue") })
             f == IF Chance(3) THEN Field(R(Keywords), OfType("String")) ELSE Field("zz", bad) IN
         CASE S.types[i].ts.type = "Struct" -> [S EXCEPT !.types[i].ts.fields = Append(@, f)]
           [] S.types[i].ts.type = "UnitValue" -> IF Chance(2) THEN [S EXCEPT !.types[i].ts.unit = R({"", "Int32", "Nosuch", "Bool"})] ELSE [S EXCEPT !.types[i].ts.value = R({"", "String", "Nosuch", "Bool"})]
           [] S.types[i].ts.type = "Union" -> [S EXCEPT !.types[i].ts.variants = Append(@, IF Chance(2) THEN Variant("zz", R({"Nosuch", "Enum"})) ELSE Variant(R(Keywords), "String"))]
           [] S.types[i].ts.type = "Enum" -> [S EXCEPT !.types[i].ts.elements = Append(@, Elem(R(Keywords)))]
           [] OTHER -> IF S.http # <<>> THEN [S EXCEPT !.http[1].inputs = Append(@, [Param0 EXCEPT !.name = "zz", !.ts = bad])] ELSE S
JChained(S) == IF Chance(8) THEN ChainedOf(S, { n \in TypeNames(S) : ~HasTime(S, n) } \cup {"Decimal", "Int32", "String"}) ELSE S
JSchema(u) ==
    LET S == JChained(JTypesFrom(Some(R(1..6), TypePool), 1, [Schema0 EXCEPT !.name = R({"s", "svc", "Thing"}), !.namespace = R({"", "n", "a.b"})])) IN
    JSpoil([S EXCEPT !.http = JActions(S)])
Sometimes(n, k, vals) == IF Chance(n) THEN <<<<k, R(vals)>>>> ELSE <<>>
JConf(u) == Sometimes(5, "package", {"qq", "x.y.zz"}) \o Sometimes(4, "domain", {"d.org", "one"}) \o Sometimes(6, "name", {"other", "Big"})
            \o Sometimes(3, "immutable", {"false", "false", "true"}) \o Sometimes(4, "instants", {"false"}) \o Sometimes(4, "json", {"true"})
            \o Sometimes(8, "service-exception", {"true"}) \o Sometimes(8, "model-package", {"mm", "mm.nn"}) \o Sometimes(8, "source", {"src", "a/b"})

---------------------------------------------------------------------------
JInts(t) == { y \in Nums : IsIntText(y) /\ InRange(Dec(y), t) }
JFloats == {"0", "1", "-1", "0.5", "2.5", "-1.5", "100", "1000", "0.1", "12345"}
JDecs == {"0", "1", "-1.5", "0.1", "123456789012345.678", "100", "0.000001", "98765432109876543210.0123456789", "1000"}
JTimes == {"2019-01-02T03:04:05.678Z", "2020-02-29T23:59:59.999Z", "2019-01-02T03:04:05Z", "2019-01-02T03:04:05.600Z", "1969-12-31T00:00:00.001Z", "0999-01-01T00:00:00Z", "9999-12-31T23:59:59.999Z"}
JUuids == {"1ce437b0-1dd2-11b2-bc26-003ee1be85f9", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-4fff-bfff-ffffffffffff"}
JTexts == {"", "a", "abc", "x y", "RED", "v-red1", "<b>&", "quo\"te", "back\\slash", "café", "日本 ☕"}
JAny == { VBool(TRUE), VStr("a"), VStr(""), VNum("1"), VNum("2.5"), VNum("300"), VNum("3000000000"), VArr(<<>>), VObj(<<>>), VArr(<<VNum("1"), VStr("")>>), VObj(<<Pair("a", VNum("1"))>>) }
RECURSIVE JVal(_, _, _)
JVal(S, ts, d) ==
    CASE ts.type = "Bool" -> VBool(Chance(2))
      [] ts.type \in IntTypes -> VNum(R(JInts(ts.type)))
      [] ts.type \in {"Float32", "Float64"} -> VNum(R(JFloats))
      [] ts.type = "Decimal" -> VNum(R(JDecs))
      [] ts.type = "String" -> VStr(R(JTexts))
      [] ts.type = "UUID" -> VStr(R(JUuids))
      [] ts.type = "Bytes" -> VStr(R({"", "AAEC", "aGVsbG8=", "/+8="}))
      [] ts.type = "Timestamp" -> VStr(R(JTimes))
      [] ts.type \in {"Any", ""} -> R(JAny)
      [] ts.type = "Enum" -> VStr(EnumText(Pick(ts.elements)))
      [] ts.type = "UnitValue" -> LET u == BaseOf(S, ts.unit) v == JVal(S, OfType(BaseOf(S, ts.value)), d) IN
            VStr((IF BaseOf(S, ts.value) \in {"Float32", "Float64"} THEN R({"2.5", "-1.5", "100.0"}) ELSE v.n) \o " " \o (IF u = "String" THEN R({"kg", "m/s"}) ELSE EnumText(Pick(TypeOf(S, RealName(S, ts.unit)).elements))))
      [] ts.type = "Array" -> VArr(SeqOf(IF d <= 0 THEN 0 ELSE R(0..2), LAMBDA i : JVal(S, OfType(ts.items), d - 1)))
      [] ts.type = "Map" -> LET q == Some(IF d <= 0 THEN 0 ELSE R(0..2), {"a", "k1", "x y", "RED"}) IN
                            VObj(SeqOf(Len(q), LAMBDA i : Pair(q[i], JVal(S, OfType(ts.items), d - 1))))
      [] ts.type = "Struct" ->
           LET there == { i \in 1..Len(ts.fields) : ts.fields[i].required \/ (d > 0 /\ Chance(2)) }
               q == Some(Cardinality(there), there) IN
           IF d < -1 THEN VStr("deep") ELSE IF ts.fields = <<>> THEN VObj(<<>>) ELSE VObj(SeqOf(Len(q), LAMBDA i : Pair(ts.fields[q[i]].name, JVal(S, ts.fields[q[i]].ts, d - 1))))
      [] ts.type = "Union" -> IF d < -1 THEN VStr("deep") ELSE LET v == Pick(ts.variants) IN VObj(<<Pair(v.name, JVal(S, OfType(v.type), d - 1))>>)
      [] OTHER -> JVal(S, TypeOf(S, ts.type), d)
\* the value is one of the type: not when it had to end somewhere
RECURSIVE JFits(_, _, _)
JFits(S, ts, v) ==
    CASE ts.type = "Struct" -> v.k = "obj" /\ \A i \in 1..Len(ts.fields) : LET f == ts.fields[i] IN IF f.name \in ObjKeys(v) THEN JFits(S, f.ts, ObjGet(v, f.name)) ELSE ~f.required
      [] ts.type = "Union" -> v.k = "obj" /\ Len(v.o) = 1 /\ \A i \in 1..Len(ts.variants) : ts.variants[i].name \in ObjKeys(v) => JFits(S, OfType(ts.variants[i].type), ObjGet(v, ts.variants[i].name))
      [] ts.type = "Array" -> \A i \in 1..Len(v.a) : JFits(S, OfType(ts.items), v.a[i])
      [] ts.type = "Map" -> \A i \in 1..Len(v.o) : JFits(S, OfType(ts.items), v.o[i].v)
      [] Declared(S, ts.type) -> JFits(S, TypeOf(S, ts.type), v)
      [] OTHER -> TRUE
JProbeTypes(S) == { n \in TypeNames(S) : RealName(S, n) \in TypeNames(S) /\ JClass(S, RealName(S, n)) }
JProbe(S, i) == LET n == R(JProbeTypes(S)) IN [type |-> n, v |-> JVal(S, OfType(n), 3)]
ModelCase(u) ==
    LET S == JSchema(0)
        pr == IF JavaOk(S) /\ JProbeTypes(S) # {} THEN SeqOf(10, LAMBDA i : JProbe(S, i)) ELSE <<>> IN
    [op |-> "java.model", in |-> [schema |-> S, conf |-> JConf(0), probes |-> Filter(pr, LAMBDA z : JFits(S, OfType(z.type), z.v))]]
Init == x = None
Next == x' = ModelCase(0)
Emit == x.op = "none" \/ PrintT("CASE " \o ToJson(x))
\* what is written is written again as the same
DesignAgain == x.op = "java.model" /\ JavaOk(x.in.schema) =>
    \A i \in 1..Len(x.in.probes) : LET p == x.in.probes[i] w == JKeep(x.in.schema, OfType(p.type), p.v) IN SameVal(JKeep(x.in.schema, OfType(p.type), w), w)
=============================================================================
