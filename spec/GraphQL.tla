------------------------------ MODULE GraphQL -------------------------------
(* GraphQL documents, and what the conversions to and from SADL are (P19, P20).
   A type reference is its text, like "[Int!]!". *)
EXTENDS Model, Lists

\* a definition of a document; which of the lists is used depends on the kind
GDef0 == [k |-> "type", n |-> "", desc |-> "", fields |-> <<>>, syms |-> <<>>, members |-> <<>>]

---------------------------------------------------------------------------
(* P19: export.  cs is the map of custom scalars, a list of pairs. *)
Custom(cs, t, def) == LET c == AnnoGet(cs, t) IN IF c = <<>> \/ c[1] = "" THEN def ELSE c[1]
GScalar(cs, t) ==
    CASE t = "Bool" -> <<"Boolean">>
      [] t \in {"String", "Bytes", "UnitValue"} -> <<"String">>
      [] t \in {"UUID", "Timestamp"} -> <<Custom(cs, t, "String")>>
      [] t \in {"Int8", "Int16", "Int32"} -> <<"Int">>
      [] t \in {"Float32", "Float64"} -> <<"Float">>
      [] t \in {"Int64", "Decimal"} -> <<Custom(cs, t, "Float")>>
      [] OTHER -> <<>>
\* the text for a type, when GraphQL has one: base types are scalars, arrays are lists of
\* things that are there, types made of either are replaced by what they are made of
RECURSIVE GRef(_, _, _, _)
RECURSIVE GName(_, _, _, _)
GRef(S, cs, ts, k) ==
    IF ts.type = "Array" THEN LET it == GName(S, cs, ts.items, k) IN IF it = <<>> THEN <<>> ELSE <<"[" \o it[1] \o "!]">>
    ELSE IF ts.type \in {"Struct", "Enum", "Union", "Map", "Any", ""} THEN <<>> ELSE GName(S, cs, ts.type, k)
GName(S, cs, n, k) ==
    IF GScalar(cs, n) # <<>> THEN GScalar(cs, n)
    ELSE IF ~Declared(S, n) \/ k = 0 THEN <<>>
    ELSE IF TypeOf(S, n).type \in {"Struct", "Enum", "Union"} THEN <<n>> ELSE GRef(S, cs, TypeOf(S, n), k - 1)
Ref(S, cs, ts) == GRef(S, cs, ts, Len(S.types) + 1)
\* what cannot be said in GraphQL is refused
Sayable(S, cs, td) ==
    CASE td.ts.type = "Enum" -> TRUE
      [] td.ts.type = "Struct" -> \A i \in 1..Len(td.ts.fields) : Ref(S, cs, td.ts.fields[i].ts) # <<>>
      [] td.ts.type = "Union" -> \A i \in 1..Len(td.ts.variants) : Declared(S, td.ts.variants[i].type) /\ TypeOf(S, td.ts.variants[i].type).type = "Struct"
      [] OTHER -> Ref(S, cs, td.ts) # <<>>
GExportOk(S, cs) == \A i \in 1..Len(S.types) : Sayable(S, cs, S.types[i])
GDefOf(S, cs, td) ==
    CASE td.ts.type = "Enum" -> <<[GDef0 EXCEPT !.k = "enum", !.n = td.name, !.syms = SeqMap(td.ts.elements, LAMBDA e : [n |-> e.symbol, desc |-> ""])]>>
      [] td.ts.type = "Struct" ->
           <<[GDef0 EXCEPT !.n = td.name,
                !.fields = SeqMap(td.ts.fields, LAMBDA f : [n |-> f.name, desc |-> f.comment, t |-> Ref(S, cs, f.ts)[1] \o (IF f.required THEN "!" ELSE "")])]>>
      [] td.ts.type = "Union" -> <<[GDef0 EXCEPT !.k = "union", !.n = td.name, !.members = SeqMap(td.ts.variants, LAMBDA v : v.type)]>>
      [] OTHER -> <<>>
GDefs(S, cs) == Concat(SeqMap(S.types, LAMBDA td : GDefOf(S, cs, td)))
\* the custom scalars met in a type
RECURSIVE Bare(_)
Bare(t) == IF t = "" THEN "" ELSE (IF At(t, 1) \in {"[", "]", "!"} THEN "" ELSE At(t, 1)) \o Bare(From(t, 2))
CustomNames(cs) == { cs[i][2] : i \in { j \in 1..Len(cs) : cs[j][1] \in {"UUID", "Timestamp", "Int64", "Decimal"} } } \ {""}
UsedInFields(S, cs) == LET d == GDefs(S, cs) IN
    UNION { { Bare(d[i].fields[j].t) : j \in 1..Len(d[i].fields) } : i \in 1..Len(d) } \cap CustomNames(cs)
UsedInTypes(S, cs) == { Bare(Ref(S, cs, S.types[i].ts)[1]) : i \in { j \in 1..Len(S.types) : S.types[j].ts.type \notin {"Struct", "Enum", "Union"} } } \cap CustomNames(cs)
\* every name of the document is defined in it
GBuiltin == {"Int", "Float", "String", "Boolean", "ID"}
GNames(defs) == UNION { { Bare(defs[i].fields[j].t) : j \in 1..Len(defs[i].fields) } \cup SeqSet(defs[i].members) : i \in 1..Len(defs) }
GClosed(defs) == /\ GNames(defs) \subseteq GBuiltin \cup { defs[i].n : i \in 1..Len(defs) }
                 /\ \A i, j \in 1..Len(defs) : i # j => defs[i].n # defs[j].n

---------------------------------------------------------------------------
(* P20: import.  A field's type is [n, lst, nn, inn]: the name, how deep a list of it, non null, items non null *)
GConv(n) == CASE n = "Int" -> "Int32" [] n = "Float" -> "Float64" [] n = "Boolean" -> "Bool" [] OTHER -> n
OneLine(s) == Replace(s, "\n", " ")
FieldFromG(f) ==
    [Field0 EXCEPT !.name = f.n, !.comment = OneLine(f.desc), !.required = f.t.nn,
       !.ts = IF f.t.lst = 0 THEN OfType(GConv(f.t.n))
              ELSE [OfType("Array") EXCEPT !.items = IF f.t.lst = 1 THEN GConv(f.t.n) ELSE "Array"]]
GRoots(defs) == UNION { SeqSet(defs[i].members) : i \in { j \in 1..Len(defs) : defs[j].k = "schema" } }
TypeFromG(defs, d) ==
    CASE d.k = "type" -> IF d.n \in GRoots(defs) THEN <<>>
                         ELSE <<[TypeDef(d.n, [OfType("Struct") EXCEPT !.fields = SeqMap(d.fields, FieldFromG)]) EXCEPT !.comment = OneLine(d.desc)]>>
      [] d.k = "enum" -> <<[TypeDef(d.n, [OfType("Enum") EXCEPT !.elements = SeqMap(d.syms, LAMBDA s : [Elem(s.n) EXCEPT !.comment = OneLine(s.desc)])]) EXCEPT !.comment = OneLine(d.desc)]>>
      [] d.k = "union" -> <<[TypeDef(d.n, [OfType("Union") EXCEPT !.variants = SeqMap(d.members, LAMBDA m : Variant(m, m))]) EXCEPT !.comment = OneLine(d.desc)]>>
      [] OTHER -> <<>>            \* the schema, interfaces, inputs, and scalars that SADL has
IdType == [TypeDef("ID", OfType("String")) EXCEPT !.comment = "The GraphQL 'ID' type"]
GTypes(defs) == <<IdType>> \o Concat(SeqMap(defs, LAMBDA d : TypeFromG(defs, d)))
GImported(defs, name, namespace) ==
    LET S == [Schema0 EXCEPT !.name = IF name = "" THEN "generatedFromGraphQL" ELSE name, !.namespace = namespace, !.types = GTypes(defs)]
        ok == \A i \in 1..Len(defs) : /\ defs[i].k \in {"type", "enum", "union", "schema", "interface", "input", "scalar"}
                                      /\ (defs[i].k = "scalar" => defs[i].n \in {"Timestamp", "UUID"}) IN
    [ok |-> ok /\ ModelOk(S), S |-> S]
=============================================================================
