------------------------------- MODULE GoGen --------------------------------
(* The Go code of a schema: which types it declares, and what they read and
   write as JSON.  P21.  rt: with the sadl runtime library. *)
EXTENDS Model, Lists

---------------------------------------------------------------------------
(* what can be generated: every type that is used is a base type or declared, enums and unions by name *)
Usable(S, n) == n \notin {"Enum", "Union"} /\ (n = "" \/ Defined(S, n))
UsableSpec(S, ts) == Usable(S, ts.type) /\ (ts.type = "Array" => Usable(S, ts.items)) /\ (ts.type = "Map" => Usable(S, ts.items) /\ Usable(S, ts.keys))
UsableDef(S, ts) ==
    CASE ts.type = "Enum" -> TRUE
      [] ts.type = "Struct" -> \A i \in 1..Len(ts.fields) : UsableSpec(S, ts.fields[i].ts)
      [] ts.type = "Union" -> \A i \in 1..Len(ts.variants) : UsableSpec(S, OfType(ts.variants[i].type))
      [] OTHER -> UsableSpec(S, ts)
Outputs(h) == IF h.expected = <<>> THEN <<>> ELSE h.expected[1].outputs
GoOk(S) == /\ \A i \in 1..Len(S.types) : UsableDef(S, S.types[i].ts)
           /\ \A i \in 1..Len(S.http) : \A p \in SeqSet(S.http[i].inputs) \cup SeqSet(Outputs(S.http[i])) : UsableSpec(S, p.ts)

---------------------------------------------------------------------------
(* declarations *)
\* a type that is just another name for one: what it is in the end
RECURSIVE BaseOf(_, _)
BaseOf(S, n) == IF ~Declared(S, n) THEN n ELSE LET t == TypeOf(S, n).type IN IF Declared(S, t) THEN BaseOf(S, t) ELSE t
RECURSIVE RealName(_, _)
RealName(S, n) == LET t == TypeOf(S, n).type IN IF Declared(S, t) THEN RealName(S, t) ELSE n
Lib(n, rt) == IF rt THEN "sadl." \o n ELSE n
RECURSIVE GoRef(_, _, _)
GoName(S, n, rt) == GoRef(S, IF n = "" THEN OfType("Any") ELSE OfType(n), rt)
GoRef(S, ts, rt) ==
    CASE ts.type \in {"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "String"} -> Uncap(ts.type)
      [] ts.type = "UUID" -> "string"
      [] ts.type = "Bytes" -> "[]byte"
      [] ts.type \in {"Any", ""} -> "any"
      [] ts.type = "Struct" -> "map[string]any"
      [] ts.type \in {"Decimal", "Timestamp"} -> "*" \o Lib(ts.type, rt)
      [] ts.type = "UnitValue" -> IF rt THEN "*sadl.UnitValue" ELSE "string"
      [] ts.type = "Array" -> "[]" \o GoName(S, ts.items, rt)
      [] ts.type = "Map" -> "map[" \o (IF ts.keys = "" THEN "string" ELSE GoName(S, ts.keys, rt)) \o "]" \o GoName(S, ts.items, rt)
      [] OTHER -> LET b == BaseOf(S, ts.type) IN
                  IF b \in {"Struct", "Union"} THEN "*" \o RealName(S, ts.type)
                  ELSE IF b \in {"Decimal", "Timestamp", "UnitValue"} THEN GoRef(S, OfType(b), rt)
                  ELSE RealName(S, ts.type)
GoField(S, name, ts, omit, rt) == [n |-> Cap(name), t |-> GoRef(S, ts, rt), tag |-> name \o (IF omit THEN ",omitempty" ELSE "")]
GoFields(S, fs, rt) == SeqMap(fs, LAMBDA f : GoField(S, f.name, f.ts, ~f.required, rt))
Struct0 == [name |-> "", is |-> "", under |-> "struct", fields |-> <<>>, methods |-> <<>>, error |-> FALSE]
Raised(S) == UNION { { S.http[i].exceptions[j].type : j \in 1..Len(S.http[i].exceptions) } : i \in 1..Len(S.http) }
\* of a declared type: [is, under, fields]; is: the name by which the type goes
GoDecl(S, td, rt) ==
    LET n == td.name
        ts == td.ts IN
    CASE ts.type = "Struct" -> [Struct0 EXCEPT !.name = n, !.is = n, !.fields = GoFields(S, ts.fields, rt), !.error = n \in Raised(S)]
      [] ts.type = "Union" -> [Struct0 EXCEPT !.name = n, !.is = n, !.error = n \in Raised(S),
                                 !.fields = <<[n |-> "Variant", t |-> n \o "VariantTag", tag |-> "-"]>>
                                            \o SeqMap(ts.variants, LAMBDA v : GoField(S, v.name, OfType(v.type), TRUE, rt))]
      [] ts.type = "Enum" -> [Struct0 EXCEPT !.name = n, !.is = n, !.under = "int"]
      [] ts.type \in {"Decimal", "Timestamp"} -> [Struct0 EXCEPT !.name = n, !.is = Lib(ts.type, rt)]
      [] ts.type = "UnitValue" -> IF rt THEN [Struct0 EXCEPT !.name = n, !.is = "sadl.UnitValue"] ELSE [Struct0 EXCEPT !.name = n, !.is = "string", !.under = "string"]
      [] OTHER -> [Struct0 EXCEPT !.name = n, !.is = n, !.under = GoRef(S, ts, rt)]
GoDeclOf(S, td, rt) == LET r == RealName(S, td.name) IN
                       [GoDecl(S, TypeDef(r, TypeOf(S, r)), rt) EXCEPT !.name = td.name, !.fields = IF r = td.name THEN @ ELSE <<>>]
GoService(S, conf) == Cap(Opt(AnnoGet(conf, "name"), S.name))
GoTypes(S, conf, rt) ==
    { GoDeclOf(S, S.types[i], rt) : i \in 1..Len(S.types) }
    \cup UNION { LET h == S.http[i] c == Cap(h.name) IN
                 { [Struct0 EXCEPT !.name = c \o "Request", !.is = c \o "Request", !.fields = GoFields(S, h.inputs, rt)],
                   [Struct0 EXCEPT !.name = c \o "Response", !.is = c \o "Response", !.fields = GoFields(S, Outputs(h), rt)] } : i \in 1..Len(S.http) }
GoMethods(S) == { LET c == Cap(S.http[i].name) IN
                  [n |-> c, sig |-> <<"*" \o c \o "Request", "->", "*" \o c \o "Response", "error">>] : i \in 1..Len(S.http) }
EnumText(e) == LET v == Opt(AnnoGet(e.annos, "x_enumValue"), "") IN IF v = "" THEN e.symbol ELSE v
GoConsts(S) ==
    UNION { LET td == S.types[i] IN
            IF td.ts.type = "Enum" THEN { <<td.ts.elements[j].symbol, EnumText(td.ts.elements[j])>> : j \in 1..Len(td.ts.elements) }
            ELSE IF td.ts.type = "Union" THEN { <<td.name \o "VariantTag" \o Cap(td.ts.variants[j].name), NatStr(j)>> : j \in 1..Len(td.ts.variants) }
            ELSE {} : i \in 1..Len(S.types) }
\* where the file goes
GoPkg(S, conf) == LET p == Opt(AnnoGet(conf, "package"), "") IN IF p # "" THEN p ELSE IF S.namespace # "" THEN S.namespace ELSE "main"
GoFile(S, conf, what) == Replace(GoPkg(S, conf), ".", "/") \o "/" \o Uncap(GoService(S, conf)) \o "_" \o what \o ".go"
GoPkgName(S, conf) == LET q == Split(GoPkg(S, conf), ".") IN q[Len(q)]

---------------------------------------------------------------------------
(* values: what the declared type makes of JSON, <<>> when it refuses it, else <<what it writes again>> *)
B64 == LowerSet \cup UpperSet \cup Digit \cup {"+", "/"}
IsB64(s) == LET b == StripRight(s, "=") IN Len(s) % 4 = 0 /\ AllIn(b, B64) /\ Len(s) - Len(b) <= 2
IsIntText(s) == s # "" /\ AllIn(IF At(s, 1) = "-" THEN From(s, 2) ELSE s, Digit) /\ s # "-"
GoTime(s) == IsTimestampText(s)
TimeAgain(s) == IF Instant(Fields(LocalText(s)), 0) = ZeroInstant THEN "" ELSE TsText(Fields(LocalText(s)))
RECURSIVE GoRead(_, _, _, _)
\* values that an optional field leaves out
Zero(S, ts, v) == LET b == BaseOf(S, ts.type) IN
    CASE b = "Bool" -> ~v.b
      [] b \in NumericTypes \ {"Decimal"} -> IsZero(Dec(v.n))
      [] b \in {"String", "UUID", "Bytes"} -> v.s = ""
      [] b = "UnitValue" -> v.s = ""
      [] b \in {"Array"} -> v.a = <<>>
      [] b \in {"Map"} -> v.o = <<>>
      [] b = "Struct" /\ ts.type = "Struct" -> v.o = <<>>      \* a struct without a name is a map
      [] OTHER -> FALSE
\* the pairs of an object, each read as said; <<>> if one cannot be
RECURSIVE Pairs(_)
Pairs(q) == IF q = <<>> THEN <<<<>>>>
            ELSE LET r == Pairs(Tail(q)) IN
                 IF q[1].r = <<>> \/ r = <<>> THEN <<>> ELSE <<(IF q[1].omit THEN <<>> ELSE <<Pair(q[1].n, q[1].r[1])>>) \o r[1]>>
Members(S, fs, v, rt) == \* fs: [n, ts, omit]
    LET there == Filter(fs, LAMBDA f : f.n \in ObjKeys(v))
        q == SeqMap(there, LAMBDA f : LET r == GoRead(S, f.ts, ObjGet(v, f.n), rt) IN
                                      [n |-> f.n, r |-> r, omit |-> f.omit /\ r # <<>> /\ Zero(S, f.ts, r[1])])
        p == Pairs(q) IN
    IF p = <<>> THEN <<>> ELSE <<VObj(p[1])>>
GoRead(S, ts, v, rt) ==
    CASE ts.type = "Bool" -> IF v.k = "bool" THEN <<v>> ELSE <<>>
      [] ts.type \in IntTypes -> IF v.k = "num" /\ IsIntText(v.n) /\ InRange(Dec(v.n), ts.type) THEN <<v>> ELSE <<>>
      [] ts.type \in {"Float32", "Float64"} -> IF v.k = "num" THEN <<v>> ELSE <<>>
      [] ts.type = "Decimal" -> IF v.k = "num" \/ (v.k = "str" /\ IsDecText(v.s) /\ ~rt)
                                THEN LET t == Plain(IF v.k = "num" THEN v.n ELSE v.s) IN <<IF rt THEN VNum(t) ELSE VStr(t)>> ELSE <<>>
      [] ts.type \in {"String", "UUID"} -> IF v.k = "str" THEN <<v>> ELSE <<>>
      [] ts.type = "Bytes" -> IF v.k = "str" /\ IsB64(v.s) THEN <<v>> ELSE <<>>
      [] ts.type = "Timestamp" -> IF v.k = "str" /\ GoTime(v.s) THEN <<VStr(TimeAgain(v.s))>> ELSE <<>>
      [] ts.type = "UnitValue" -> IF v.k = "str" /\ (~rt \/ IsUVText(v.s)) THEN <<v>> ELSE <<>>
      [] ts.type \in {"Any", ""} -> <<v>>
      [] ts.type = "Struct" /\ ts.fields = <<>> /\ v.k = "obj" -> <<v>>
      [] ts.type = "Enum" -> IF v.k = "str" /\ \E i \in 1..Len(ts.elements) : EnumText(ts.elements[i]) = v.s THEN <<v>> ELSE <<>>
      [] ts.type = "Array" -> IF v.k # "arr" THEN <<>>
                              ELSE LET q == SeqMap(v.a, LAMBDA e : [n |-> "", omit |-> FALSE, r |-> GoRead(S, IF ts.items = "" THEN OfType("Any") ELSE OfType(ts.items), e, rt)])
                                       p == Pairs(q) IN IF p = <<>> THEN <<>> ELSE <<VArr(SeqMap(p[1], LAMBDA z : z.v))>>
      [] ts.type = "Map" -> IF v.k # "obj" THEN <<>>
                            ELSE LET q == SeqMap(v.o, LAMBDA e : [n |-> e.n, omit |-> FALSE, r |-> GoRead(S, IF ts.items = "" THEN OfType("Any") ELSE OfType(ts.items), e.v, rt)])
                                     p == Pairs(q) IN IF p = <<>> THEN <<>> ELSE <<VObj(p[1])>>
      [] ts.type = "Struct" -> IF v.k # "obj" THEN <<>> ELSE Members(S, SeqMap(ts.fields, LAMBDA f : [n |-> f.name, ts |-> f.ts, omit |-> ~f.required]), v, rt)
      [] ts.type = "Union" -> IF v.k # "obj" THEN <<>> ELSE Members(S, SeqMap(ts.variants, LAMBDA f : [n |-> f.name, ts |-> OfType(f.type), omit |-> TRUE]), v, rt)
      [] OTHER -> \* a struct that is declared without fields is one, not a map
                  LET t == TypeOf(S, ts.type) IN
                  IF t.type = "Struct" /\ t.fields = <<>> THEN (IF v.k = "obj" THEN <<VObj(<<>>)>> ELSE <<>>) ELSE GoRead(S, t, v, rt)
\* text as a number type reads it
FromText(S, f, s) ==
    LET ts == IF f \in {"Decimal", "Timestamp"} THEN OfType(f) ELSE TypeOf(S, f) IN
    CASE ts.type \in IntTypes -> IF IsIntText(s) /\ InRange(Dec(s), ts.type) THEN TruncText(Dec(s)) ELSE "0"
      [] ts.type \in {"Float32", "Float64"} -> IF IsDecText(s) THEN Plain(s) ELSE "0"
      [] ts.type = "Decimal" -> IF IsDecText(s) THEN Plain(s) ELSE "nil"
      [] ts.type = "Timestamp" -> IF GoTime(s) THEN TimeAgain(s) ELSE "nil"
=============================================================================
