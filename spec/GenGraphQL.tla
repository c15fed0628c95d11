----------------------------- MODULE GenGraphQL -----------------------------
(* Schemas to export and documents to import: P19, P20 *)
EXTENDS GenSchema, GraphQL, Json
CONSTANTS Mode
VARIABLE x
None == [op |-> "none", in |-> [z |-> 0]]

---------------------------------------------------------------------------
\* schemas that can mostly be said in GraphQL
GComments == {"", "", "hello there", "a comment.", "two\nlines", "a # sign", "100% of it", "three\nlines\nhere", "café ☕"}
GLeaf(names, any) ==
    LET ok == {"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "String", "Timestamp", "UUID", "UnitValue"}
        k == R(1..8) IN
    IF any THEN LeafSpec(names)
    ELSE CASE k \in 1..3 -> OfType(R(ok))
           [] k \in {4, 5} /\ names # {} -> OfType(R(names))
           [] k \in {6, 7} -> [OfType("Array") EXCEPT !.items = IF names = {} \/ Chance(2) THEN R(ok) ELSE R(names)]
           [] OTHER -> OfType("String")
GFields(names, any) == LET q == Some(R(0..5), FieldPool) IN
    SeqOf(Len(q), LAMBDA i : [Field(q[i], GLeaf(names, any)) EXCEPT !.required = Chance(2), !.comment = R(GComments)])
RECURSIVE GTypesFrom(_, _, _, _)
GTypesFrom(names, i, S, any) ==
    IF i > Len(names) THEN S
    ELSE LET before == TypeNames(S)
             structs == { n \in before : TypeOf(S, n).type = "Struct" }
             k == R(1..10)
             all == IF Chance(3) THEN SeqSet(names) ELSE before
             ts == CASE k \in 1..4 -> [OfType("Struct") EXCEPT !.fields = GFields(all, any)]
                     [] k \in {5, 6} -> EnumSpec(0)
                     [] k = 7 /\ structs # {} -> LET q == Some(R(1..3), structs) odd == IF Chance(8) THEN R(1..3) ELSE 0 IN [OfType("Union") EXCEPT !.variants = SeqOf(Len(q), LAMBDA j : Variant("v" \o NatStr(j), IF j = odd THEN R(before \cup {"String", "Struct", "Nosuch"}) ELSE q[j]))]
                     [] k = 8 /\ any -> SpecOf(S, before)
                     [] OTHER -> GLeaf(before, any) IN
         GTypesFrom(names, i + 1, [S EXCEPT !.types = Append(@, [TypeDef(names[i], ts) EXCEPT !.comment = R(GComments)])], any)
ScalarMaps == { <<>>, <<>>, <<<<"UUID", "UUID">>, <<"Timestamp", "Timestamp">>, <<"Decimal", "Decimal">>, <<"Int64", "Long">>>>,
                <<<<"Decimal", "Number">>, <<"Int64", "Number">>>>, <<<<"Timestamp", "DateTime">>>>, <<<<"Int32", "Small">>, <<"UUID", "">>, <<"Int64", "Long">>>>,
                <<<<"Int8", "Tiny">>, <<"Int16", "Short">>, <<"Bool", "Flag">>, <<"String", "Text">>, <<"Float32", "Real">>, <<"Float64", "Real">>, <<"Bytes", "Blob">>, <<"UnitValue", "Qty">>, <<"Aa", "Zz">>>> }
\* lists of lists, deep; and some that are made of themselves
Lists5(S) == LET q == SeqOf(5, LAMBDA i : TypeDef("L" \o NatStr(i), [OfType("Array") EXCEPT !.items = IF i = 1 THEN R(TypeNames(S) \cup {"Int32", "Timestamp"}) ELSE "L" \o NatStr(i - 1)]))
                 loop == IF Chance(6) THEN [q EXCEPT ![R(1..2)].ts.items = "L" \o NatStr(R(2..5))] ELSE q
                 st == TypeDef("LS", [OfType("Struct") EXCEPT !.fields = <<Field("p", OfType("L" \o NatStr(R(2..5)))), [Field("q", [OfType("Array") EXCEPT !.items = "L" \o NatStr(R(1..5))]) EXCEPT !.required = TRUE]>>]) IN
             [S EXCEPT !.types = IF Chance(2) THEN @ \o loop \o <<st>> ELSE <<st>> \o loop \o @]
Deeper(S) == IF Chance(6) THEN Lists5(S) ELSE IF Chance(8) THEN Chained(S, {"Decimal", "Timestamp", "Int32", "String"}) ELSE S
ExportCase(u) == LET any == Chance(4) IN
    [op |-> "gql.export", in |-> [schema |-> Deeper(GTypesFrom(Some(R(1..6), TypePool), 1, [Schema0 EXCEPT !.name = "s", !.namespace = "n"], any)), scalars |-> R(ScalarMaps)]]

---------------------------------------------------------------------------
\* documents
GTypePool == {"Aa", "Bb", "Cc", "Query", "Mutation", "query", "aa", "Thing_1", "x", "_u", "Timestamp", "UUID"}
GDescs == {"", "", "hello there", "two\nlines", "say \"hi\"", "back\\slash", "# not a comment", "three\nlines\nhere", "two  spaces  here"}
GTypeRef(names) == [n |-> IF Chance(2) THEN R({"Int", "Float", "String", "Boolean", "ID"}) ELSE R(names \cup {"Timestamp", "UUID"}), lst |-> R({0, 0, 0, 1, 1, 2}), nn |-> Chance(2), inn |-> Chance(2)]
GDefCase(n, names) ==
    LET k == R(1..20)
        fs == Some(R(1..4), FieldPool \cup {"type", "_id"})
        d0 == [GDef0 EXCEPT !.n = n, !.desc = R(GDescs)] IN
    CASE k \in 1..9 -> [d0 EXCEPT !.fields = SeqOf(Len(fs), LAMBDA i : [n |-> fs[i], desc |-> R(GDescs), t |-> GTypeRef(names)])]
      [] k \in 10..12 -> LET q == Some(R(1..4), SymPool) IN [d0 EXCEPT !.k = "enum", !.syms = SeqOf(Len(q), LAMBDA i : [n |-> q[i], desc |-> R(GDescs)])]
      [] k \in {13, 14} -> [d0 EXCEPT !.k = "union", !.members = Some(R(1..3), names)]
      [] k \in {15, 16} -> [d0 EXCEPT !.k = "scalar", !.n = IF Chance(5) THEN R({n, "Decimal", "Any", "Int64", "Date", "JSON", "String"}) ELSE R({"Timestamp", "UUID"})]
      [] k = 17 -> [d0 EXCEPT !.k = "schema", !.desc = "", !.members = Some(R(1..3), {"Query", "Mutation", "query", "Aa", "Bb"})]
      [] k = 18 -> [d0 EXCEPT !.k = "interface", !.fields = SeqOf(Len(fs), LAMBDA i : [n |-> fs[i], desc |-> "", t |-> GTypeRef(names)])]
      [] k = 19 -> [d0 EXCEPT !.k = "input", !.fields = SeqOf(Len(fs), LAMBDA i : [n |-> fs[i], desc |-> "", t |-> GTypeRef(names)])]
      [] OTHER -> IF Chance(3) THEN [d0 EXCEPT !.k = R({"extend", "directive", "query"})] ELSE [d0 EXCEPT !.k = "schema", !.desc = "", !.members = <<"Query">>]
ImportCase(u) ==
    LET q == Some(R(1..6), IF Chance(6) THEN GTypePool \cup {"ID", "Struct", "Int32"} ELSE GTypePool \ {"Timestamp", "UUID"})
        names == SeqSet(q)
        dup == IF Chance(12) THEN <<q[1]>> ELSE <<>> IN
    [op |-> "gql.import", in |-> [defs |-> SeqOf(Len(q \o dup), LAMBDA i : GDefCase((q \o dup)[i], names)), name |-> R({"", "svc"}), namespace |-> R({"", "a.b"}), style |-> R(0..3), files |-> IF Chance(80) THEN R({0, 2}) ELSE 1]]

Init == x = None
Next == x' = IF Mode = "P19" THEN ExportCase(0) ELSE ImportCase(0)
Emit == x.op = "none" \/ PrintT("CASE " \o ToJson(x))
\* what the export writes is closed, and comes back through the import with the same names, kinds, symbols and fields
Back(d) == LET t(s) == LET b == IF HasSuffix(s, "!") THEN UpTo(s, Len(s) - 1) ELSE s
                           l == HasPrefix(b, "[")
                           it == IF l THEN SubSeq(b, 2, Len(b) - 2) ELSE b IN
                       [n |-> Bare(it), lst |-> IF ~l THEN 0 ELSE IF HasPrefix(it, "[") THEN 2 ELSE 1, nn |-> HasSuffix(s, "!"), inn |-> l] IN
           [d EXCEPT !.fields = SeqMap(@, LAMBDA f : [f EXCEPT !.t = t(@)])]
DesignExport == x.op = "gql.export" /\ GExportOk(x.in.schema, x.in.scalars) =>
    LET S == x.in.schema cs == x.in.scalars
        d == GDefs(S, cs)
        sc == UsedInFields(S, cs) IN
    /\ GNames(d) \subseteq GBuiltin \cup sc \cup { d[i].n : i \in 1..Len(d) }
    /\ LET c == GImported(SeqMap(d, Back), "s", "n") IN
       /\ c.ok
       /\ \A i \in 1..Len(d) : LET a == TypeOf(S, d[i].n) b == TypeOf(c.S, d[i].n) IN
            /\ a.type = b.type
            /\ SeqMap(a.elements, LAMBDA e : e.symbol) = SeqMap(b.elements, LAMBDA e : e.symbol)
            /\ SeqMap(a.variants, LAMBDA v : v.type) = SeqMap(b.variants, LAMBDA v : v.type)
            /\ SeqMap(a.fields, LAMBDA f : <<f.name, f.required>>) = SeqMap(b.fields, LAMBDA f : <<f.name, f.required>>)
=============================================================================
