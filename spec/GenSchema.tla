----------------------------- MODULE GenSchema ------------------------------
(* Random schemas and values, for TLC to walk over (-simulate).  Every operator
   takes a dummy argument so that TLC evaluates it anew; sequences are built
   with Append so that a choice, once made, stays. *)
EXTENDS Model, TLC

R(S) == RandomElement(S)
Chance(n) == RandomElement(1..n) = 1
Pick(q) == q[RandomElement(1..Len(q))]
SeqOf(n, G(_)) == LET RECURSIVE upto(_)
                     upto(i) == IF i = 0 THEN <<>> ELSE Append(upto(i - 1), G(i))
                 IN upto(n)
\* a random sequence of distinct elements of a set
RECURSIVE Some(_, _)
Some(n, S) == IF n = 0 \/ S = {} THEN <<>> ELSE LET e == RandomElement(S) IN <<e>> \o Some(n - 1, S \ {e})

TypePool == {"Aa", "Bb", "Cc", "Dd", "Ee", "AaB", "Kind", "BbKind", "Item1"}
FieldPool == {"a", "b", "kind", "x1", "aKind", "bb", "aa", "name_", "Cap"}
SymPool == {"RED", "GREEN", "BLUE", "red", "Q1", "Z_Z"}
ActionPool == {"getAa", "putAa", "listBb", "zap", "bbKind"}
Comments == {"", "", "hello there", "a comment.", "café ☕"}
AnnoPool == { <<>>, <<>>, <<>>, <<<<"x_a", "1">>>>, <<<<"x_a", "">>, <<"x_b", "two words">>>> }
IntBounds == {"-1", "0", "1", "5", "10", "100", "-100"}
DecBounds == {"-1.5", "0", "0.1", "2.5", "10", "-0.001", "1000", "123456789012345.678"}

Simple == (BaseTypes \ {"Array", "Map", "Struct", "Enum", "Union", "UnitValue"})
Sizes(u) == IF Chance(2) THEN [lo |-> <<>>, hi |-> <<>>]
            ELSE LET lo == R(0..3) IN
                 [lo |-> IF Chance(2) THEN <<lo>> ELSE <<>>, hi |-> IF Chance(2) THEN <<lo + R(0..3)>> ELSE <<>>]
Bounds(t) == IF t \in IntTypes
             THEN [lo |-> IF Chance(2) THEN <<R(IntBounds)>> ELSE <<>>, hi |-> IF Chance(2) THEN <<R(IntBounds)>> ELSE <<>>]
             ELSE [lo |-> IF Chance(2) THEN <<R(DecBounds)>> ELSE <<>>, hi |-> IF Chance(2) THEN <<R(DecBounds)>> ELSE <<>>]
EnumSpec(u) == LET q == Some(R(1..4), SymPool) IN
               [OfType("Enum") EXCEPT !.elements = SeqOf(Len(q), LAMBDA i : [Elem(q[i]) EXCEPT !.comment = R(Comments), !.annos = R(AnnoPool)])]
\* a constrained base type (the names are the types declared)
RefName(names) == IF names # {} /\ Chance(2) THEN R(names) ELSE R(Simple)
LeafSpec(names) ==
    LET t == R({"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "String", "String",
                "Timestamp", "UUID", "Array", "Array", "Map", "Enum", "Any", "Array", "Ref"}) IN
    CASE t = "Ref" -> IF names = {} THEN OfType("String") ELSE OfType(R(names))
      [] t \in NumericTypes -> LET b == Bounds(t) IN [OfType(t) EXCEPT !.min = b.lo, !.max = b.hi]
      [] t = "String" -> LET z == Sizes(0) IN
                         IF Chance(3) THEN [OfType(t) EXCEPT !.pattern = R(Patterns)]
                         ELSE IF Chance(4) THEN [OfType(t) EXCEPT !.values = Some(R(1..3), {"a", "bc", "x y", "RED"})]
                         ELSE IF Chance(5) THEN [OfType(t) EXCEPT !.values = Some(R(1..3), {"a", "bc", "x y", "RED"}), !.pattern = IF Chance(3) THEN R(Patterns) ELSE "", !.minsize = z.lo, !.maxsize = z.hi]
                         ELSE IF Chance(5) THEN [OfType(t) EXCEPT !.pattern = R(Patterns), !.minsize = z.lo, !.maxsize = z.hi]
                         ELSE [OfType(t) EXCEPT !.minsize = z.lo, !.maxsize = z.hi]
      [] t = "Bytes" -> LET z == Sizes(0) IN [OfType(t) EXCEPT !.minsize = z.lo, !.maxsize = z.hi]
      [] t = "Array" -> LET z == Sizes(0) IN [OfType(t) EXCEPT !.items = RefName(names), !.minsize = z.lo, !.maxsize = z.hi]
      [] t = "Map" -> LET z == Sizes(0) IN [OfType(t) EXCEPT !.items = RefName(names), !.keys = "String", !.minsize = z.lo, !.maxsize = z.hi]
      [] t = "Enum" -> EnumSpec(0)
      [] OTHER -> OfType(t)
FieldsOf(names, n) ==
    LET q == Some(n, FieldPool) IN
    SeqOf(Len(q), LAMBDA i : [Field(q[i], LeafSpec(names)) EXCEPT !.required = Chance(2), !.comment = R(Comments), !.annos = R(AnnoPool)])
VariantsOf(names, n) ==
    LET q == Some(n, {"v1", "v2", "other", "AA"}) IN
    SeqOf(Len(q), LAMBDA i : [Variant(q[i], RefName(names)) EXCEPT !.comment = R(Comments)])
\* unit and value types of a UnitValue have to be declared or base ones of the right kind
SpecOf(S, names) ==
    LET k == R({"Struct", "Struct", "Leaf", "Leaf", "Leaf", "Union", "UnitValue"})
        units == {"String"} \cup { n \in TypeNames(S) : TypeOf(S, n).type \in {"Enum", "String"} }
        vals == {"Decimal", "Int32", "Float64"} \cup { n \in TypeNames(S) : TypeOf(S, n).type \in NumericTypes } IN
    CASE k = "Struct" -> [OfType("Struct") EXCEPT !.fields = FieldsOf(names, R(0..4))]
      [] k = "Leaf" -> LeafSpec(names)
      [] k = "Union" -> [OfType("Union") EXCEPT !.variants = VariantsOf(names, R(1..3))]
      [] k = "UnitValue" -> [OfType("UnitValue") EXCEPT !.unit = R(units), !.value = R(vals)]
\* a type may refer to the ones before it, and (inside a struct only) to itself or any other
RECURSIVE TypesFrom(_, _, _)
TypesFrom(names, i, S) ==
    IF i > Len(names) THEN S
    ELSE LET ts == SpecOf(S, TypeNames(S))
             sp == IF ts.type = "Struct" /\ Chance(3) THEN [ts EXCEPT !.fields = FieldsOf(SeqSet(names), R(1..3))] ELSE ts
             td == [TypeDef(names[i], sp) EXCEPT !.comment = R(Comments), !.annos = R(AnnoPool)] IN
         TypesFrom(names, i + 1, [S EXCEPT !.types = Append(@, td)])
ParamsOf(names, n) ==
    LET q == Some(n, FieldPool) IN
    SeqOf(Len(q), LAMBDA i : [Param0 EXCEPT !.name = q[i], !.ts = OfType(RefName(names)), !.required = Chance(3), !.comment = R(Comments),
                                !.query = IF Chance(3) THEN "q" ELSE "", !.header = IF Chance(4) THEN "X-" \o q[i] ELSE ""])
ActionOf(name, names) ==
    [Http0 EXCEPT !.name = name, !.method = R({"GET", "PUT", "POST", "DELETE"}), !.path = "/" \o name, !.comment = R(Comments),
                  !.inputs = ParamsOf(names, R(0..3)),
                  !.expected = IF Chance(5) THEN <<>> ELSE <<[Expect0 EXCEPT !.status = R({200, 201, 204}), !.outputs = ParamsOf(names, R(0..2))]>>,
                  !.exceptions = IF Chance(3) /\ names # {} THEN <<[Exc0 EXCEPT !.type = R(names), !.status = R({400, 404})]>> ELSE <<>>]
ActionsOf(names, n) == LET q == Some(n, ActionPool) IN SeqOf(Len(q), LAMBDA i : ActionOf(q[i], names))
RandSchema(nt, nh) ==
    LET S == TypesFrom(Some(nt, TypePool), 1, [Schema0 EXCEPT !.name = "s", !.namespace = "n"]) IN
    [S EXCEPT !.http = ActionsOf(TypeNames(S), nh)]

\* a type under a name, under a name, ...: four deep, used by a struct
ChainedOf(S, names) ==
    LET n == R(names)
        q == SeqOf(4, LAMBDA i : TypeDef("Ch" \o NatStr(i), OfType(IF i = 1 THEN n ELSE "Ch" \o NatStr(i - 1))))
        st == TypeDef("ChS", [OfType("Struct") EXCEPT !.fields = <<[Field("deep", OfType("Ch4")) EXCEPT !.required = Chance(2)], Field("many", [OfType("Array") EXCEPT !.items = R({"Ch3", "Ch4"})])>>]) IN
    IF S.types = <<>> THEN S ELSE [S EXCEPT !.types = @ \o q \o <<st>>]
Chained(S, extra) == ChainedOf(S, TypeNames(S) \cup extra)
---------------------------------------------------------------------------
(* values: of a type, mostly conforming; sometimes just beyond a limit, sometimes of another kind *)
Texts == {"", "a", "b", "ab", "abc", "abcd", "abcdef", "x y", "RED", "red", "GREEN", "bc", "Abc1", "A", "cdx", "xzy", "xy", "555-1234", "5551234",
          "7", "3 RED", "1.5 red", "-2 Q1", " RED", "x RED", "0.05 a", "10 bc", "3  RED"}
Uuids == {"1ce437b0-1dd2-11b2-bc26-003ee1be85f9", "1ce437b0-1dd2-11b2-bc26-003ee1be85f", "1ce437b0-1dd2-11b2-bc26-003ee1be85fg",
          "1CE437B0-1dd2-11b2-bc26-003ee1be85f9", "1ce437b0a1dd2-11b2-bc26-003ee1be85f9", "not-a-uuid"}
Times == {"2019-01-02T03:04:05.678Z", "2019-01-02T03:04:05Z", "2019-02-30T00:00:00.000Z", "2020-02-29T23:59:59.999Z", "yesterday", "2019-01-02"}
Nums == {"-100", "-99", "-101", "-1", "-2", "0", "1", "2", "4", "5", "6", "9", "10", "11", "99", "100", "101", "0.5", "-0.5", "0.1", "0.11", "0.099",
         "2.5", "2.51", "2.49", "-1.5", "-1.51", "-0.001", "-0.0011", "1000", "1000.001", "999.999", "127", "128", "-128", "-129", "32767", "32768", "-32768",
         "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
         "-9223372036854775809", "123456789012345.678", "123456789012345.6781", "1e2", "1e40", "127.5", "5.0", "1e-3", "-1e-3"}
Junk == { VNull, VBool(TRUE), VStr("a"), VStr("RED"), VNum("1"), VNum("2.5"), VArr(<<>>), VObj(<<>>), VArr(<<VNum("1")>>),
          VObj(<<Pair("a", VNum("1"))>>), VStr("") }
RECURSIVE ValueOf(_, _, _)
ValueOf(S, ts, d) ==
    IF Chance(25) THEN R(Junk)
    ELSE CASE ts.type = "Bool" -> VBool(Chance(2))
      [] ts.type \in NumericTypes -> LET good == { x \in Nums : NumOk(ts, x) } IN IF good # {} /\ ~Chance(6) THEN VNum(R(good)) ELSE VNum(R(Nums))
      [] ts.type = "String" -> LET good == { x \in Texts : StrOk(ts, x) } IN IF good # {} /\ ~Chance(6) THEN VStr(R(good)) ELSE VStr(R(Texts))
      [] ts.type = "UUID" -> IF Chance(6) THEN VStr(R(Uuids)) ELSE VStr("1ce437b0-1dd2-11b2-bc26-003ee1be85f9")
      [] ts.type = "Timestamp" -> IF Chance(6) THEN VStr(R(Times)) ELSE VStr("2019-01-02T03:04:05.678Z")
      [] ts.type = "Enum" -> IF Chance(8) \/ ts.elements = <<>> THEN VStr(R(Texts)) ELSE VStr(Pick(ts.elements).symbol)
      [] ts.type = "UnitValue" -> LET good == { x \in Texts : IsUVText(x) /\ Conforms(S, ts, VStr(x)) } IN
                                  IF good # {} /\ ~Chance(3) THEN VStr(R(good)) ELSE VStr(R(Texts))
      [] ts.type \in {"Any", "Bytes"} -> R(Junk)
      [] ts.type = "Array" ->
           LET lo == Opt(ts.minsize, 0) hi == Opt(ts.maxsize, 3)
               n == IF d = 0 THEN lo ELSE IF Chance(8) THEN IF Chance(2) /\ lo > 0 THEN lo - 1 ELSE hi + 1 ELSE R(lo..(IF hi < lo THEN lo ELSE hi))
               it == IF ts.items = "" THEN "Any" ELSE ts.items IN
           VArr(SeqOf(n, LAMBDA i : IF d = 0 /\ TypeOf(S, it).type \in {"Array", "Map"} THEN R(Junk) ELSE ValueOf(S, TypeOf(S, it), IF d = 0 THEN 0 ELSE d - 1)))
      [] ts.type = "Map" ->
           LET lo == Opt(ts.minsize, 0) hi == Opt(ts.maxsize, 3)
               n == IF d = 0 THEN lo ELSE IF Chance(8) THEN IF Chance(2) /\ lo > 0 THEN lo - 1 ELSE hi + 1 ELSE R(lo..(IF hi < lo THEN lo ELSE hi))
               it == IF ts.items = "" THEN "Any" ELSE ts.items
               q == Some(n, {"a", "k1", "k2", "kk3", "x y", "RED", "zz"}) IN
           VObj(SeqOf(Len(q), LAMBDA i : Pair(q[i], IF d = 0 /\ TypeOf(S, it).type \in {"Array", "Map"} THEN R(Junk) ELSE ValueOf(S, TypeOf(S, it), IF d = 0 THEN 0 ELSE d - 1))))
      [] ts.type = "Struct" ->
           IF d = 0 THEN VObj(<<>>)
           ELSE LET present == { i \in 1..Len(ts.fields) : IF ts.fields[i].required THEN ~Chance(15) ELSE (d > 0 /\ Chance(2)) }
                    q == Some(Cardinality(present), present)
                    fs == SeqOf(Len(q), LAMBDA i : Pair(ts.fields[q[i]].name, ValueOf(S, ts.fields[q[i]].ts, d - 1))) IN
                VObj(IF Chance(15) /\ "zip" \notin FieldNames(ts) THEN Append(fs, Pair("zip", R(Junk))) ELSE fs)
      [] ts.type = "Union" ->
           IF d = 0 \/ ts.variants = <<>> THEN VObj(<<>>)
           ELSE LET q == Some(IF Chance(10) THEN R({0, 2}) ELSE 1, 1..Len(ts.variants)) IN
                IF Chance(12) THEN VObj(<<Pair("nosuch", R(Junk))>>)
                ELSE VObj(SeqOf(Len(q), LAMBDA i : Pair(ts.variants[q[i]].name, ValueOf(S, OfType(ts.variants[q[i]].type), d - 1))))
      [] Declared(S, ts.type) -> IF d = 0 THEN R(Junk) ELSE ValueOf(S, TypeOf(S, ts.type), d)
      [] OTHER -> R(Junk)
=============================================================================
