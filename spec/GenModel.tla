------------------------------ MODULE GenModel ------------------------------
(* Cases of the model judgements (P05 - P09), as walks of a machine whose every
   step asks the model something; and, in the "scope" mode, every constrained
   base type with every value of a small scope. *)
EXTENDS GenSchema, Lists, Json
CONSTANTS Mode
VARIABLE x

None == [op |-> "none", in |-> [z |-> 0]]

\* P05: schemas whose names may clash
NearNames == {"AA", "aa", "aA", "Aa_", "Aa2", "string", "int32", "STRING", "any", "bbkind", "BBKIND"}      \* near to other names, but not them
ClashName(u) == IF Chance(25) THEN R(BaseTypes) ELSE IF Chance(3) THEN R(NearNames) ELSE R(TypePool)
RECURSIVE Rename(_, _)
Rename(S, i) == IF i > Len(S.types) THEN S
                ELSE Rename(IF Chance(8) THEN [S EXCEPT !.types[i].name = ClashName(0)] ELSE S, i + 1)
RECURSIVE RenameH(_, _)
RenameH(S, i) == IF i > Len(S.http) THEN S
                 ELSE RenameH(IF Chance(6) THEN [S EXCEPT !.http[i].name = R(ActionPool \cup {"getAA", "GetAa", "getaa", "ZAP"})] ELSE S, i + 1)
NewCase(u) == [op |-> "model.new",
               in |-> [schema |-> RenameH(Rename(RandSchema(R(0..6), R(0..4)), 1), 1),
                       names |-> <<"Aa", "Bb", "Cc", "Dd", "Ee", "AaB", "Kind", "BbKind", "Item1", "getAa", "putAa", "listBb", "zap", "bbKind",
                                   "Int32", "Struct", "Any", "UnitValue", "nosuch", "", "AA", "aa", "aA", "Aa_", "Aa2", "string", "int32", "STRING", "any", "bbkind", "BBKIND",
                                   "getAA", "GetAa", "getaa", "ZAP", "Zap", "Aa ", "AaRequest">>]]
\* P06
ValidateCase(u) ==
    LET S == RandSchema(R(1..5), 0)
        n == IF Chance(20) THEN "Nosuch" ELSE S.types[R(1..Len(S.types))].name IN
    [op |-> "model.validate", in |-> [schema |-> S, type |-> n, plain |-> Chance(2), context |-> IF Chance(2) THEN "" ELSE "ctx",
                                      value |-> IF n = "Nosuch" THEN R(Junk) ELSE ValueOf(S, TypeOf(S, n), 3)]]
SpecCase(u) ==
    LET S == RandSchema(R(1..4), 0)
        ts == IF Chance(4) THEN OfType(R(TypeNames(S) \cup {"Nosuch"})) ELSE SpecOf(S, TypeNames(S)) IN
    [op |-> "model.validatespec", in |-> [schema |-> S, ts |-> ts, plain |-> Chance(2), context |-> "", value |-> ValueOf(S, ts, 3)]]
\* bounds and values that only differ far from the leading digit, or only in their spelling
FineInts == {"9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740992", "-9007199254740993", "9223372036854775806", "9223372036854775807",
             "-9223372036854775807", "-9223372036854775808", "127", "128", "32767", "32768", "2147483647", "2147483648", "16777216", "16777217", "-128", "-129"}
FineDecs == FineInts \cup {"0.1", "0.10", "0.10000000000000001", "0.1234567890123456789", "0.1234567890123456788", "1e2", "100", "100.0", "100.00000000000001",
             "-0.1", "-0.10000000000000001", "1000000000000000000000", "1000000000000000000001", "0", "0.0", "0.00000000000000000001", "3.4028235e38", "3.4028236e38"}
FineSpec(u) ==
    LET t == R({"Int8", "Int16", "Int32", "Int64", "Int64", "Float32", "Float64", "Decimal", "Decimal"})
        pool == IF t \in IntTypes THEN { m \in FineInts : InRange(Dec(m), t) } ELSE FineDecs
        k == R(1..5) IN
    [OfType(t) EXCEPT !.min = IF k \in {1, 3} THEN <<R(pool)>> ELSE <<>>, !.max = IF k \in {2, 3} THEN <<R(pool)>> ELSE <<>>]
FineCase(u) ==
    LET ts == FineSpec(0)
        ends == { m \in FineDecs : (ts.min # <<>> /\ m = ts.min[1]) \/ (ts.max # <<>> /\ m = ts.max[1]) }
        S == [Schema0 EXCEPT !.name = "s", !.types = <<TypeDef("N", ts), TypeDef("L", [OfType("Array") EXCEPT !.items = "N"]),
                TypeDef("D", [OfType("Map") EXCEPT !.keys = "String", !.items = "N"]),
                TypeDef("T", [OfType("Struct") EXCEPT !.fields = <<Field("p", ts), Field("q", OfType("N"))>>]),
                TypeDef("V", [OfType("Union") EXCEPT !.variants = <<Variant("p", "N"), Variant("q", "Int8")>>]),
                TypeDef("W", [OfType("UnitValue") EXCEPT !.unit = "String", !.value = "N"])>>]
        n == R({"N", "N", "L", "D", "T", "V", "W"})
        num == IF ends # {} /\ Chance(3) THEN R(ends) ELSE R(FineDecs)
        v == VNum(num) IN
    [op |-> "model.validate", in |-> [schema |-> S, type |-> n, plain |-> FALSE, context |-> "",
        value |-> CASE n = "N" -> v [] n = "L" -> VArr(<<v, v>>) [] n = "W" -> VStr(num \o " a")
                    [] OTHER -> VObj(<<Pair(R({"p", "q"}), v)>>)]]
\* many of everything, and deep: one flaw at most, anywhere
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
BigSchema(lo, hi) ==
    [Schema0 EXCEPT !.name = "s", !.types =
      <<TypeDef("N", [OfType("Int32") EXCEPT !.min = <<"-5">>, !.max = <<"50">>]),
        TypeDef("Text", [OfType("String") EXCEPT !.minsize = <<lo>>, !.maxsize = <<hi>>]),
        TypeDef("Many", [OfType("Array") EXCEPT !.items = "N", !.minsize = <<lo>>, !.maxsize = <<hi>>]),
        TypeDef("Dict", [OfType("Map") EXCEPT !.keys = "String", !.items = "N", !.minsize = <<lo>>, !.maxsize = <<hi>>]),
        TypeDef("Big", [OfType("Struct") EXCEPT !.fields = SeqOf(12, LAMBDA i : [Field("f" \o NatStr(i), OfType("N")) EXCEPT !.required = i % 2 = 0])]),
        TypeDef("Syms", [OfType("Enum") EXCEPT !.elements = SeqOf(12, LAMBDA i : Elem("S" \o NatStr(i)))]),
        TypeDef("Vals", [OfType("String") EXCEPT !.values = SeqOf(12, LAMBDA i : "S" \o NatStr(i))]),
        TypeDef("Alts", [OfType("Union") EXCEPT !.variants = SeqOf(12, LAMBDA i : Variant("f" \o NatStr(i), IF i % 2 = 0 THEN "N" ELSE "Syms"))]),
        TypeDef("Nest", [OfType("Struct") EXCEPT !.fields = <<Field("next", OfType("Nest")), [Field("n", OfType("N")) EXCEPT !.required = TRUE], Field("kids", OfType("Nests")), Field("by", OfType("NestMap")), Field("alt", OfType("NestAlt"))>>]),
        TypeDef("Nests", [OfType("Array") EXCEPT !.items = "Nest"]), TypeDef("NestMap", [OfType("Map") EXCEPT !.keys = "String", !.items = "Nest"]),
        TypeDef("NestAlt", [OfType("Union") EXCEPT !.variants = <<Variant("one", "Nest"), Variant("num", "N")>>]),
        TypeDef("Ch1", OfType(R({"Nest", "Many", "N", "Syms", "Text"}))), TypeDef("Ch2", OfType("Ch1")), TypeDef("Ch3", OfType("Ch2")), TypeDef("Ch4", OfType("Ch3"))>>]
RECURSIVE NestVal(_, _)
NestVal(d, n) == IF d = 0 THEN VObj(<<Pair("n", n)>>)
                 ELSE LET k == R({"next", "kids", "by", "alt"}) v == NestVal(d - 1, n) IN
                      VObj(<<Pair("n", VNum("1")), Pair(k, CASE k = "next" -> v [] k = "kids" -> VArr(<<VObj(<<Pair("n", VNum("2"))>>), v>>) [] k = "by" -> VObj(<<Pair("k", v)>>) [] k = "alt" -> VObj(<<Pair("one", v)>>))>>)
BigVal(n, len, at, bad) ==
    LET item(i) == IF i = at THEN bad ELSE VNum(NatStr(i)) IN
    CASE n = "N" -> bad
      [] n = "Text" -> VStr(Rep("x", len))
      [] n = "Many" -> VArr(SeqOf(len, item))
      [] n = "Dict" -> VObj(SeqOf(len, LAMBDA i : Pair("k" \o NatStr(i), item(i))))
      [] n = "Big" -> VObj(Filter(SeqOf(12, LAMBDA i : Pair("f" \o NatStr(IF i = at /\ Chance(3) THEN i + 12 ELSE i), item(i))), LAMBDA q : q.n # "f" \o NatStr(at) \/ ~Chance(4)))
      [] n = "Syms" -> VStr("S" \o NatStr(at)) [] n = "Vals" -> VStr("S" \o NatStr(at))
      [] n = "Alts" -> VObj(<<Pair("f" \o NatStr(at), IF Chance(2) THEN bad ELSE VStr("S" \o NatStr(at)))>>)
      [] OTHER -> NestVal(IF len > 12 THEN 12 ELSE len, bad)
BigCase(u) ==
    LET lo == R(0..12) hi == lo + R(0..20)
        S == BigSchema(lo, hi)
        n == R({"Text", "Many", "Many", "Dict", "Big", "Syms", "Vals", "Alts", "Nest", "Nest", "Ch3", "Ch4"})
        real == IF n \in {"Ch3", "Ch4"} THEN S.types[13].ts.type ELSE n
        len == CASE Chance(6) -> hi + 1 [] Chance(6) /\ lo > 0 -> lo - 1 [] Chance(3) -> hi [] OTHER -> R(lo..hi)
        at == R(1..(IF real \in {"Many", "Dict"} /\ len > 0 THEN len ELSE 13))
        bad == R({VNum("1"), VNum("1"), VNum("50"), VNum("51"), VNum("-6"), VStr("S3"), VNum("2.5"), VBool(TRUE)}) IN
    [op |-> "model.validate", in |-> [schema |-> S, type |-> n, plain |-> FALSE, context |-> IF Chance(2) THEN "" ELSE "a.b.c", value |-> BigVal(real, len, at, bad)]]
\* P07: big types, the same but for one part at any place
BigType(k, n) ==
    CASE k = 1 -> [OfType("Struct") EXCEPT !.fields = SeqOf(n, LAMBDA i : [Field("f" \o NatStr(i), OfType(R({"Int32", "Aa", "String"}))) EXCEPT !.required = Chance(2), !.default = IF Chance(3) THEN <<VNum("1")>> ELSE <<>>, !.comment = R(Comments)])]
      [] k = 2 -> [OfType("Union") EXCEPT !.variants = SeqOf(n, LAMBDA i : Variant("f" \o NatStr(i), R({"Int32", "Aa", "String"})))]
      [] k = 3 -> [OfType("Enum") EXCEPT !.elements = SeqOf(n, LAMBDA i : Elem("S" \o NatStr(i)))]
      [] k = 4 -> [OfType("String") EXCEPT !.values = SeqOf(n, LAMBDA i : "S" \o NatStr(i))]
BigPairCase(u) ==
    LET k == R(1..4) n == R(1..12) i == R(1..n) j == R(1..n)
        a == BigType(k, n)
        b == CASE k = 1 -> (CASE Chance(6) -> [a EXCEPT !.fields[i].required = ~@] [] Chance(5) -> [a EXCEPT !.fields[i].ts = OfType(R({"Aa", "Int32"}))] [] Chance(4) -> [a EXCEPT !.fields[i].default = <<VNum("2")>>]
                              [] Chance(3) -> [a EXCEPT !.fields[i].name = "g"] [] Chance(2) -> [a EXCEPT !.fields[i] = a.fields[j], !.fields[j] = a.fields[i]] [] OTHER -> [a EXCEPT !.fields = SubSeq(@, 1, i)])
               [] k = 2 -> (CASE Chance(4) -> [a EXCEPT !.variants[i].type = R({"Aa", "Int32"})] [] Chance(3) -> [a EXCEPT !.variants[i].name = "g"]
                              [] Chance(2) -> [a EXCEPT !.variants[i] = a.variants[j], !.variants[j] = a.variants[i]] [] OTHER -> [a EXCEPT !.variants[i].type = a.variants[j].type, !.variants[j].type = a.variants[i].type])
               [] k = 3 -> (CASE Chance(3) -> [a EXCEPT !.elements[i].symbol = R({"T", "s" \o NatStr(i)})] [] Chance(2) -> [a EXCEPT !.elements[i] = a.elements[j], !.elements[j] = a.elements[i]] [] OTHER -> [a EXCEPT !.elements = SubSeq(@, 1, i)])
               [] k = 4 -> (CASE Chance(3) -> [a EXCEPT !.values[i] = R({"T", "s" \o NatStr(i)})] [] Chance(2) -> [a EXCEPT !.values[i] = a.values[j], !.values[j] = a.values[i]] [] OTHER -> [a EXCEPT !.values = SubSeq(@, 1, i)])
        S == [Schema0 EXCEPT !.name = "s", !.types = <<TypeDef("Aa", OfType("Int32")), TypeDef("X1", a), TypeDef("Y1", b)>>
                 \o SeqOf(6, LAMBDA d : TypeDef("X" \o NatStr(d + 1), [OfType(IF d % 2 = 0 THEN "Map" ELSE "Array") EXCEPT !.items = "X" \o NatStr(d), !.keys = IF d % 2 = 0 THEN "String" ELSE ""]))
                 \o SeqOf(6, LAMBDA d : TypeDef("Y" \o NatStr(d + 1), [OfType(IF d % 2 = 0 THEN "Map" ELSE "Array") EXCEPT !.items = "Y" \o NatStr(d), !.keys = IF d % 2 = 0 THEN "String" ELSE ""]))]
        d == NatStr(R(1..7)) IN
    IF Chance(2) THEN [op |-> "model.equiv", in |-> [schema |-> S, a |-> a, b |-> b]]
    ELSE [op |-> "model.equivname", in |-> [schema |-> S, a |-> "X" \o d, b |-> "Y" \o d]]
\* P07: a type and a variation of it
OptInt(u) == IF Chance(3) THEN <<>> ELSE <<R(0..3)>>
Vary(S, ts, names) ==
    LET k == R(1..14) IN
    CASE k = 1 -> [ts EXCEPT !.minsize = OptInt(0)]
      [] k = 2 -> [ts EXCEPT !.maxsize = OptInt(0)]
      [] k = 3 -> [ts EXCEPT !.pattern = R(Patterns)]
      [] k = 4 -> IF ts.type \in NumericTypes THEN [ts EXCEPT !.min = <<R(IntBounds)>>] ELSE ts
      [] k = 5 -> IF ts.type \in NumericTypes THEN [ts EXCEPT !.max = <<R({"1", "1.0", "10", "10.00", "1e1"})>>] ELSE ts
      [] k = 6 -> IF ts.type \in {"Array", "Map"} THEN [ts EXCEPT !.items = RefName(names)] ELSE ts
      [] k = 7 -> IF ts.type = "Map" THEN [ts EXCEPT !.keys = RefName(names)] ELSE ts
      [] k = 8 -> IF ts.elements # <<>> THEN [ts EXCEPT !.elements = LET q == Some(Len(ts.elements), 1..Len(ts.elements)) IN SeqOf(Len(q), LAMBDA i : ts.elements[q[i]])] ELSE ts
      [] k = 9 -> IF ts.elements # <<>> THEN LET y == R(SymPool) IN IF y \in Symbols(ts) THEN [ts EXCEPT !.elements = Tail(@)] ELSE [ts EXCEPT !.elements[1].symbol = y] ELSE ts
      [] k = 10 -> IF ts.variants # <<>>
                   THEN CASE Chance(3) -> [ts EXCEPT !.variants = Tail(@)]
                          [] Chance(2) -> [ts EXCEPT !.variants[1].type = RefName(names)]
                          [] OTHER -> [ts EXCEPT !.variants[1].name = "fresh"]
                   ELSE ts
      [] k = 11 -> IF ts.fields # <<>>
                   THEN LET i == R(1..Len(ts.fields)) IN
                        CASE Chance(5) -> [ts EXCEPT !.fields[i].required = ~@]
                          [] Chance(4) -> [ts EXCEPT !.fields[i].name = "fresh"]
                          [] Chance(3) -> [ts EXCEPT !.fields[i].ts = LeafSpec(names)]
                          [] Chance(2) -> [ts EXCEPT !.fields[i].comment = "another comment", !.fields[i].annos = <<<<"x_z", "z">>>>]
                          [] OTHER -> [ts EXCEPT !.fields = Tail(@)]
                   ELSE ts
      [] k = 12 -> IF ts.values # <<>> THEN IF Chance(2) THEN [ts EXCEPT !.values = Tail(@)]
                                            ELSE LET q == Some(Len(ts.values), 1..Len(ts.values)) IN [ts EXCEPT !.values = SeqOf(Len(q), LAMBDA i : ts.values[q[i]])] ELSE ts
      [] k = 13 -> IF ts.type \in {"String", "UUID"} THEN [ts EXCEPT !.reference = R(names \cup {""})] ELSE ts
      [] k = 14 -> IF ts.type = "UnitValue" THEN IF Chance(2) THEN [ts EXCEPT !.unit = "String"] ELSE [ts EXCEPT !.value = "Decimal"] ELSE ts
EquivCase(u) ==
    LET S == RandSchema(R(1..5), 0)
        a == SpecOf(S, TypeNames(S))
        b == IF Chance(6) THEN SpecOf(S, TypeNames(S)) ELSE IF Chance(6) THEN a ELSE Vary(S, a, TypeNames(S)) IN
    [op |-> "model.equiv", in |-> [schema |-> S, a |-> a, b |-> b]]
\* two declared types of which one is a variation of the other, maybe at one remove (arrays of them)
EquivNameCase(u) ==
    LET S0 == RandSchema(R(1..4), 0)
        i == R(1..Len(S0.types))
        t1 == TypeDef("V1", Vary(S0, S0.types[i].ts, TypeNames(S0)))
        arr(n) == [OfType("Array") EXCEPT !.items = n]
        S == [S0 EXCEPT !.types = @ \o <<t1, TypeDef("V2", arr(S0.types[i].name)), TypeDef("V3", arr("V1")),
                                         TypeDef("V4", [OfType("Map") EXCEPT !.keys = "String", !.items = "V2"]),
                                         TypeDef("V5", [OfType("Map") EXCEPT !.keys = "String", !.items = "V3"])>>]
        pair == R({ <<S0.types[i].name, "V1">>, <<"V2", "V3">>, <<"V4", "V5">>, <<R(TypeNames(S)), R(TypeNames(S))>>, <<"Nosuch", "V1">>, <<"Nosuch", "Nosuch">>,
                    <<"Int32", R(TypeNames(S))>> }) IN
    [op |-> "model.equivname", in |-> [schema |-> S, a |-> pair[1], b |-> pair[2]]]
\* small pools, so that the parts of two types often are the same, or the same but for one part: all pairs that differ in one part at most
TinySchema == [Schema0 EXCEPT !.name = "s", !.types =
    <<TypeDef("Aa", [OfType("Int32") EXCEPT !.min = <<"1">>]), TypeDef("Bb", [OfType("Int32") EXCEPT !.min = <<"1.0">>]), TypeDef("Cc", [OfType("Int32") EXCEPT !.min = <<"2">>]),
      TypeDef("Ss", OfType("String")), TypeDef("E1", [OfType("Enum") EXCEPT !.elements = <<Elem("P"), Elem("Q")>>]), TypeDef("E2", [OfType("Enum") EXCEPT !.elements = <<Elem("Q"), Elem("P")>>]),
      TypeDef("L1", [OfType("Array") EXCEPT !.items = "Aa"]), TypeDef("L2", [OfType("Array") EXCEPT !.items = "Bb"]), TypeDef("L3", [OfType("Array") EXCEPT !.items = "Cc"])>>]
TinyNames == {"Aa", "Bb", "Cc", "Any", "Int32"}
TinyMap == { [OfType("Map") EXCEPT !.keys = k, !.items = it, !.minsize = a, !.maxsize = b] : k \in {"String", "Ss", "E1", "E2", "UUID"}, it \in TinyNames \cup {"L1", "L2"}, a \in {<<>>, <<0>>, <<1>>}, b \in {<<>>, <<1>>, <<2>>} }
TinyArr == { [OfType("Array") EXCEPT !.items = it, !.minsize = a, !.maxsize = b] : it \in TinyNames \cup {"L1", "L2", "L3", "E1", "E2", "Nosuch"}, a \in {<<>>, <<0>>, <<1>>}, b \in {<<>>, <<1>>, <<2>>} }
TinyStr == { [OfType("String") EXCEPT !.pattern = p, !.minsize = a, !.maxsize = b, !.values = q, !.reference = f] :
                p \in {"", "^a", "b$"}, a \in {<<>>, <<0>>, <<1>>}, b \in {<<>>, <<1>>}, q \in {<<>>, <<"a">>, <<"a", "b">>, <<"b", "a">>, <<"a", "c">>}, f \in {"", "Aa", "Bb"} }
TinyOther == { [OfType("Bytes") EXCEPT !.minsize = a, !.maxsize = b] : a \in {<<>>, <<0>>, <<1>>}, b \in {<<>>, <<0>>, <<1>>} }
        \cup { [OfType("UUID") EXCEPT !.reference = f] : f \in {"", "Aa", "Bb"} }
        \cup { [OfType("UnitValue") EXCEPT !.unit = a, !.value = b] : a \in {"E1", "E2", "Ss", "String"}, b \in {"Aa", "Bb", "Cc", "Int32", "Decimal"} }
        \cup { [OfType("Enum") EXCEPT !.elements = q] : q \in {<<Elem("P")>>, <<Elem("Q")>>, <<Elem("p")>>, <<Elem("P"), Elem("Q")>>, <<Elem("Q"), Elem("P")>>, <<Elem("P"), Elem("q")>>, <<Elem("P"), Elem("Q"), Elem("Z")>>, <<Elem("Z"), Elem("P"), Elem("Q")>>} }
        \cup { [OfType("Union") EXCEPT !.variants = q] : q \in { <<Variant(a, t)>> : a \in {"v", "w"}, t \in TinyNames }
                                                     \cup { <<Variant(a, t), Variant(b, u)>> : a \in {"v"}, b \in {"w", "y"}, t, u \in TinyNames }
                                                     \cup { <<Variant("w", t), Variant("v", u)>> : t, u \in TinyNames } }
        \cup { OfType(t) : t \in BaseTypes \cup {"Aa", "Bb", "Cc", "Nosuch"} }
TinyNum == { [OfType(t) EXCEPT !.min = a, !.max = b] : t \in NumericTypes, a \in {<<>>, <<"1">>, <<"1.0">>, <<"0">>, <<"-1">>}, b \in {<<>>, <<"10">>, <<"1e1">>, <<"11">>, <<"10.00">>} }
TinyBig == { [OfType(t) EXCEPT !.min = a, !.max = b] : t \in {"Int64", "Float64", "Decimal"}, a \in {<<>>, <<"-9007199254740992">>, <<"-9007199254740993">>}, b \in {<<>>, <<"9007199254740992">>, <<"9007199254740993">>, <<"9007199254740993.0">>} }
TinyAttrs == {"type", "minsize", "maxsize", "pattern", "values", "items", "keys", "min", "max", "elements", "variants", "unit", "value", "reference", "fields"}
OneApart(P) == { pr \in P \X P : Cardinality({ at \in TinyAttrs : pr[1][at] # pr[2][at] }) <= 1 }
TinyFields == { [Field(f, ts) EXCEPT !.required = q] : f \in {"a", "b"}, q \in BOOLEAN, ts \in
                  { OfType(t) : t \in TinyNames } \cup { [OfType("Array") EXCEPT !.items = t] : t \in TinyNames } \cup { [OfType("String") EXCEPT !.maxsize = b] : b \in {<<>>, <<1>>, <<2>>} }
                  \cup { [OfType("Struct") EXCEPT !.fields = <<Field("a", OfType(t))>>] : t \in {"Aa", "Bb", "Cc"} } }
TinyStructs == { <<[OfType("Struct") EXCEPT !.fields = <<f, h>>], [OfType("Struct") EXCEPT !.fields = <<f, g>>]>> : f \in { e \in TinyFields : e.name = "a" /\ ~e.required /\ e.ts.type # "Any" /\ e.ts.type # "Struct" },
                                                                                    h \in { e \in TinyFields : e.name = "b" /\ e.required }, g \in TinyFields }
TinyPairs == OneApart(TinyMap) \cup OneApart(TinyArr) \cup OneApart(TinyStr) \cup OneApart(TinyOther) \cup OneApart(TinyNum) \cup OneApart(TinyBig)
             \cup { pr \in TinyStructs : pr[2].fields[1].name # pr[2].fields[2].name }
TinyInit == x \in { [op |-> "model.equiv", in |-> [schema |-> TinySchema, a |-> pr[1], b |-> pr[2]]] : pr \in TinyPairs }
\* P08
RECURSIVE WalkPath(_, _, _)
WalkPath(S, ts, d) ==
    LET r == IF ts.type # "Struct" /\ Declared(S, ts.type) THEN TypeOf(S, ts.type) ELSE ts IN
    IF d = 0 \/ r.type # "Struct" \/ r.fields = <<>> \/ Chance(4) THEN IF Chance(8) THEN ".nosuch" ELSE ""
    ELSE LET f == Pick(r.fields) IN "." \o f.name \o WalkPath(S, f.ts, d - 1)
\* a chain of structs is likely
Deep(S) == [S EXCEPT !.types = @ \o <<TypeDef("T1", [OfType("Struct") EXCEPT !.fields = <<Field("t2", OfType("T2")), Field("s", OfType("String"))>>]),
                                      TypeDef("T2", [OfType("Struct") EXCEPT !.fields = <<Field("t1", OfType("T1")), Field("e", EnumSpec(0)), Field("aa", OfType(R(TypeNames(S) \cup {"Int32"})))>>]),
                                      TypeDef("T3", OfType("T1"))>>]
TargetCase(u) ==
    LET S0 == RandSchema(R(1..4), R(1..3))
        S == IF Chance(2) THEN Deep(S0) ELSE S0
        h == Pick(S.http)
        t == Pick(S.types)
        k == R(1..8)
        ps == IF k = 1 THEN h.inputs ELSE IF h.expected = <<>> THEN <<>> ELSE h.expected[1].outputs
        target == CASE k = 1 -> Cap(h.name) \o "Request" \o (IF ps = <<>> \/ Chance(4) THEN R({"", ".nosuch"}) ELSE LET p == Pick(ps) IN "." \o p.name \o WalkPath(S, p.ts, 3))
                    [] k = 2 -> Cap(h.name) \o "Response" \o (IF ps = <<>> \/ Chance(4) THEN R({"", ".nosuch"}) ELSE LET p == Pick(ps) IN "." \o p.name \o WalkPath(S, p.ts, 3))
                    [] k = 3 -> R({"Nosuch", "", ".", "NosuchRequest", "NosuchResponse.a", "Request", "Response", "Int32", "Int32.a", "Struct", "Struct.a", h.name, h.name \o "Request"})
                    [] OTHER -> t.name \o WalkPath(S, t.ts, 4) IN
    [op |-> "model.target", in |-> [schema |-> S, target |-> target]]
\* structs that refer to one another by fields of few names, so that a step, or a name, comes again along the way
Again(u) ==
    LET F == {"next", "a", "b"}
        ty(d) == LET k == R(1..9) IN CASE k <= 5 -> OfType(R({"T1", "T2", "T3"})) [] k = 6 -> OfType(R({"Int32", "E", "T4"}))
                                       [] k = 7 -> [OfType("Struct") EXCEPT !.fields = LET q == Some(R(1..3), F) IN SeqOf(Len(q), LAMBDA i : Field(q[i], OfType(R({"T1", "T2", "String"}))))]
                                       [] k = 8 -> [OfType("Array") EXCEPT !.items = "T1"] [] k = 9 -> EnumSpec(0)
        fields(v) == LET q == Some(R(1..3), F) IN SeqOf(Len(q), LAMBDA i : [Field(q[i], ty(0)) EXCEPT !.required = Chance(2)])
        params(v) == LET q == Some(R(1..3), F) IN SeqOf(Len(q), LAMBDA i : [Param0 EXCEPT !.name = q[i], !.ts = OfType(R({"T1", "T2", "T3", "T4", "Int32"}))]) IN
    [Schema0 EXCEPT !.name = "s",
        !.types = <<TypeDef("T1", [OfType("Struct") EXCEPT !.fields = fields(1)]), TypeDef("T2", [OfType("Struct") EXCEPT !.fields = fields(2)]),
                    TypeDef("T3", [OfType("Struct") EXCEPT !.fields = fields(3)]), TypeDef("T4", OfType(R({"T1", "T2"}))), TypeDef("E", EnumSpec(0)),
                    TypeDef("GetT1Request", [OfType("Struct") EXCEPT !.fields = fields(4)]), TypeDef("Response", [OfType("Struct") EXCEPT !.fields = fields(5)])>>,
        !.http = <<[Http0 EXCEPT !.name = "getT1", !.method = "GET", !.path = "/t1", !.inputs = params(1), !.expected = <<[Expect0 EXCEPT !.status = 200, !.outputs = params(2)]>>],
                   [Http0 EXCEPT !.name = "next", !.method = "PUT", !.path = "/t1", !.inputs = params(3), !.expected = <<[Expect0 EXCEPT !.status = 200, !.outputs = params(4)]>>],
                   [Http0 EXCEPT !.name = "postRequest", !.method = "POST", !.path = "/t1", !.inputs = params(5), !.expected = <<>>]>>]
RECURSIVE Steps(_)
Steps(n) == IF n = 0 THEN "" ELSE "." \o R({"next", "next", "a", "b"}) \o Steps(n - 1)
AgainCase(u) ==
    LET S == Again(0)
        k == R(1..6)
        h == Pick(S.http)
        ps == IF k = 1 THEN h.inputs ELSE IF h.expected = <<>> THEN <<>> ELSE h.expected[1].outputs
        t == Pick(S.types)
        suf == IF k = 1 THEN "Request" ELSE "Response"
        target == CASE k <= 2 -> Cap(h.name) \o suf \o (IF ps = <<>> \/ Chance(3) THEN Steps(R(0..3)) ELSE LET p == Pick(ps) IN "." \o p.name \o WalkPath(S, p.ts, 4))
                    [] k = 3 -> t.name \o Steps(R(0..9))
                    [] OTHER -> t.name \o WalkPath(S, t.ts, 12) IN
    [op |-> "model.target", in |-> [schema |-> S, target |-> target]]
\* P09: a schema with many inline enums of names that meet
EnumFields(n) ==
    LET q == Some(n, {"kind", "aa", "b", "aaB", "AaKind", "Kind", "bbKind", "x"}) IN
    SeqOf(Len(q), LAMBDA i : [Field(q[i], IF Chance(3) THEN OfType("String") ELSE [OfType("Enum") EXCEPT !.elements = R({<<Elem("P"), Elem("Q")>>, <<Elem("Q"), Elem("P")>>, <<Elem("P"), Elem("Q")>>, <<Elem("P")>>})])
                                EXCEPT !.required = Chance(2), !.comment = R(Comments)])
InlineCase(u) ==
    LET names == Some(R(1..4), {"Aa", "Bb", "AaB", "A", "Kind", "AaKind", "BbKind"})
        S == [Schema0 EXCEPT !.name = "s",
                !.types = SeqOf(Len(names), LAMBDA i : IF Chance(4) THEN TypeDef(names[i], [OfType("Enum") EXCEPT !.elements = <<Elem("Q"), Elem("P")>>])
                                                       ELSE TypeDef(names[i], [OfType("Struct") EXCEPT !.fields = EnumFields(R(1..3))]))] IN
    [op |-> "model.inline", in |-> [schema |-> IF Chance(4) THEN RandSchema(R(1..5), 0) ELSE S]]

\* several questions of one model, those of one property mostly
Ask(S, kind) ==
    CASE kind = "P06" -> LET n == S.types[R(1..Len(S.types))].name IN
                         [op |-> "model.validate", in |-> [type |-> n, plain |-> FALSE, context |-> "", value |-> ValueOf(S, TypeOf(S, n), 3)]]
      [] kind = "P07" -> IF Chance(2) THEN [op |-> "model.equivname", in |-> [a |-> R(TypeNames(S)), b |-> R(TypeNames(S))]]
                         ELSE LET a == R(TypeNames(S)) IN [op |-> "model.equiv", in |-> [a |-> TypeOf(S, a), b |-> Vary(S, TypeOf(S, a), TypeNames(S))]]
      [] kind = "P08" -> LET t == Pick(S.types) IN [op |-> "model.target", in |-> [target |-> t.name \o WalkPath(S, t.ts, 4)]]
SessionCase(kind) ==
    LET S == IF Chance(2) THEN [Again(0) EXCEPT !.http = <<>>] ELSE RandSchema(R(1..4), 0) IN
    [op |-> "model.session", in |-> [schema |-> S, steps |-> SeqOf(R(2..5), LAMBDA i : Ask(S, IF Chance(4) THEN R({"P06", "P07", "P08"}) ELSE kind))]]
---------------------------------------------------------------------------
\* the exhaustive scope of P06: every constrained base type with every value
Opts(S) == {<<>>} \cup { <<e>> : e \in S }
ScopeSpecs ==
    { [OfType(t) EXCEPT !.min = a, !.max = b] : t \in NumericTypes, a \in Opts({"-1", "0", "5"}), b \in Opts({"5", "100"}) }
    \cup { [OfType(t) EXCEPT !.min = a, !.max = b] : t \in {"Float32", "Float64", "Decimal"}, a \in Opts({"-1.5", "0.1"}), b \in Opts({"2.5"}) }
    \cup { [OfType("String") EXCEPT !.minsize = a, !.maxsize = b, !.pattern = p] : a \in Opts({0, 1, 3}), b \in Opts({0, 3}), p \in Patterns \cup {"", "("} }
    \cup { [OfType("String") EXCEPT !.values = q, !.maxsize = b] : q \in {<<"a", "x y">>, <<"RED">>}, b \in Opts({2}) }
    \cup { [OfType(t) EXCEPT !.items = it, !.keys = "String", !.minsize = a, !.maxsize = b] : t \in {"Array", "Map"}, it \in {"", "Any", "Int8", "String", "Nosuch", "E"}, a \in Opts({0, 1, 2}), b \in Opts({0, 1}) }
    \cup { OfType(t) : t \in {"Bool", "UUID", "Timestamp", "Any", "Bytes", "Nosuch", "E", "U", "S", "UV"} }
    \cup { [OfType("UnitValue") EXCEPT !.unit = a, !.value = b] : a \in {"E", "String"}, b \in {"Int8", "Decimal", "N"} }
ScopeValues == { VStr(s) : s \in Texts \cup Uuids \cup Times } \cup { VNum(s) : s \in Nums } \cup Junk \cup
    { VArr(<<a, b>>) : a, b \in {VNum("1"), VNum("200"), VStr("RED")} } \cup { VObj(<<Pair(a, v)>>) : a \in {"p", "q"}, v \in {VNum("1"), VNum("200"), VStr("RED"), VNull} }
    \cup { VObj(<<Pair("p", a), Pair("q", b)>>) : a, b \in {VNum("1"), VStr("RED")} }
ScopeSchema == [Schema0 EXCEPT !.types =
    <<TypeDef("E", [OfType("Enum") EXCEPT !.elements = <<Elem("RED"), Elem("Q1")>>]),
      TypeDef("N", [OfType("Decimal") EXCEPT !.min = <<"0">>, !.max = <<"3">>]),
      TypeDef("S", [OfType("Struct") EXCEPT !.fields = <<[Field("p", OfType("Int8")) EXCEPT !.required = TRUE], Field("q", OfType("E"))>>]),
      TypeDef("U", [OfType("Union") EXCEPT !.variants = <<Variant("p", "Int8"), Variant("q", "E")>>]),
      TypeDef("UV", [OfType("UnitValue") EXCEPT !.unit = "E", !.value = "N"])>>]
ScopeInit == x \in { [op |-> "model.validatespec", in |-> [schema |-> ScopeSchema, ts |-> t, plain |-> FALSE, context |-> "", value |-> v]] : t \in ScopeSpecs, v \in ScopeValues }

Init == CASE Mode = "scope" -> ScopeInit [] Mode = "tiny" -> TinyInit [] OTHER -> x = None
Next == /\ Mode \notin {"scope", "tiny"}
        /\ x' = CASE Mode \in {"P06", "P07", "P08"} /\ Chance(12) -> SessionCase(Mode)
                  [] Mode = "P05" -> NewCase(0)
                  [] Mode = "P06" -> IF Chance(4) THEN SpecCase(0) ELSE IF Chance(4) THEN FineCase(0) ELSE IF Chance(5) THEN BigCase(0) ELSE ValidateCase(0)
                  [] Mode = "P07" -> IF Chance(3) THEN EquivNameCase(0) ELSE IF Chance(4) THEN BigPairCase(0) ELSE EquivCase(0)
                  [] Mode = "P08" -> IF Chance(2) THEN AgainCase(0) ELSE TargetCase(0)
                  [] Mode = "P09" -> InlineCase(0)
Emit == x.op = "none" \/ PrintT("CASE " \o ToJson(x))

---------------------------------------------------------------------------
\* properties of the specification itself, on every state of the walks
\* equivalence is reflexive and symmetric, and types that are equivalent admit the same values
DesignEquiv == Mode = "P07" /\ x.op = "model.equiv" =>
    LET S == x.in.schema a == x.in.a b == x.in.b IN
    /\ Equiv(S, a, a) /\ (Equiv(S, a, b) <=> Equiv(S, b, a))
    /\ Equiv(S, a, b) => \A v \in Junk : Conforms(S, a, v) <=> Conforms(S, b, v)
\* refactoring changes no judgement: what conformed still does
DesignInline == Mode = "P09" /\ x.op = "model.inline" =>
    LET S == x.in.schema r == Refactored(S) IN
    r.ok => /\ ModelOk(r.S) /\ Inline(r.S) = <<>> /\ Refactored(r.S).S = r.S
            /\ \A i \in 1..Len(S.types) : \A v \in Junk \cup {VObj(<<Pair("kind", VStr("P"))>>), VObj(<<Pair("x", VStr("Q"))>>)} :
                 Conforms(S, S.types[i].ts, v) <=> Conforms(r.S, r.S.types[i].ts, v)
=============================================================================
