------------------------------- MODULE Model --------------------------------
(* The model: a schema with its names indexed, and the judgements made over it.
   P05 index, P06 validation, P07 equivalence, P08 example targets, P09 inline enums. *)
EXTENDS Schema, Values

---------------------------------------------------------------------------
(* P05: a schema is a model iff no name is declared twice (base type names are taken) *)
ModelOk(S) == /\ \A i, j \in 1..Len(S.types) : i # j => S.types[i].name # S.types[j].name
              /\ \A i \in 1..Len(S.types) : S.types[i].name \notin BaseTypes
              /\ \A i, j \in 1..Len(S.http) : i # j => S.http[i].name # S.http[j].name

---------------------------------------------------------------------------
(* P06: a value conforms to a type *)
\* the patterns the generated schemas use, and what they match (regular expressions search: they are not anchored)
Alnum == LowerSet \cup UpperSet \cup Digit
Match(p, s) ==
    CASE p = "^[a-z]+$" -> s # "" /\ AllIn(s, LowerSet)
      [] p = "[0-9]" -> \E i \in 1..Len(s) : At(s, i) \in Digit
      [] p = "^a" -> HasPrefix(s, "a")
      [] p = "b$" -> HasSuffix(s, "b")
      [] p = "^[A-Z][a-z0-9]*$" -> s # "" /\ At(s, 1) \in UpperSet /\ AllIn(From(s, 2), LowerSet \cup Digit)
      [] p = "ab|cd" -> Contains(s, "ab") \/ Contains(s, "cd")
      [] p = "^$" -> s = ""
      [] p = "^x.*y$" -> Len(s) >= 2 /\ HasPrefix(s, "x") /\ HasSuffix(s, "y")
      [] p = "^[0-9]{3}-[0-9]{4}$" -> Len(s) = 8 /\ AllIn(UpTo(s, 3), Digit) /\ At(s, 4) = "-" /\ AllIn(From(s, 5), Digit)
      [] p = "(" -> FALSE      \* not a regular expression: nothing conforms
Patterns == {"^[a-z]+$", "[0-9]", "^a", "b$", "^[A-Z][a-z0-9]*$", "ab|cd", "^$", "^x.*y$", "^[0-9]{3}-[0-9]{4}$"}

SizeOk(ts, n) == /\ ts.minsize # <<>> => n >= ts.minsize[1]
                 /\ ts.maxsize # <<>> => n <= ts.maxsize[1]
NumOk(ts, num) ==
    LET d == Dec(num) IN
    /\ ts.min # <<>> => Leq(Dec(ts.min[1]), d)
    /\ ts.max # <<>> => Leq(d, Dec(ts.max[1]))
    /\ ts.type \in IntTypes => InRange(d, ts.type) /\ IsIntNum(d)
StrOk(ts, s) == /\ SizeOk(ts, Len(s))
                /\ IF ts.values # <<>> THEN s \in SeqSet(ts.values)
                   ELSE ts.pattern # "" => Match(ts.pattern, s)

RECURSIVE Conforms(_, _, _)
Conforms(S, ts, v) ==
    CASE ts.type = "Bool" -> v.k = "bool"
      [] ts.type \in NumericTypes -> v.k = "num" /\ NumOk(ts, v.n)
      [] ts.type = "String" -> v.k = "str" /\ StrOk(ts, v.s)
      [] ts.type = "UUID" -> v.k = "str" /\ IsUUIDText(v.s)
      [] ts.type = "Timestamp" -> v.k = "str" /\ IsTimestampText(v.s)
      [] ts.type = "UnitValue" -> v.k = "str" /\ IsUVText(v.s)
                                  /\ Conforms(S, TypeOf(S, ts.value), VNum(UvNum(v.s)))
                                  /\ Conforms(S, TypeOf(S, ts.unit), VStr(UvUnit(v.s)))
      [] ts.type = "Enum" -> v.k = "str" /\ v.s \in Symbols(ts)
      [] ts.type \in {"Any", "Bytes"} -> TRUE
      [] ts.type = "Array" -> /\ v.k = "arr" /\ SizeOk(ts, Len(v.a))
                              /\ ts.items \notin {"", "Any"} =>
                                   /\ Defined(S, ts.items)
                                   /\ \A i \in 1..Len(v.a) : Conforms(S, TypeOf(S, ts.items), v.a[i])
      [] ts.type = "Map" -> /\ v.k = "obj" /\ SizeOk(ts, Len(v.o))
                            /\ ts.items \notin {"", "Any"} =>
                                 /\ Defined(S, ts.items)
                                 /\ \A i \in 1..Len(v.o) : Conforms(S, TypeOf(S, ts.items), v.o[i].v)
      [] ts.type = "Struct" -> /\ v.k = "obj"
                               /\ ObjKeys(v) \subseteq FieldNames(ts)
                               /\ \A i \in 1..Len(ts.fields) :
                                    LET f == ts.fields[i] IN
                                    IF f.name \in ObjKeys(v) THEN Conforms(S, f.ts, ObjGet(v, f.name)) ELSE ~f.required
      [] ts.type = "Union" -> /\ v.k = "obj" /\ Len(v.o) = 1
                              /\ \E i \in 1..Len(ts.variants) :
                                   ts.variants[i].name = v.o[1].n /\ Conforms(S, OfType(ts.variants[i].type), v.o[1].v)
      [] OTHER -> Declared(S, ts.type) /\ Conforms(S, TypeOf(S, ts.type), v)

ConformsByName(S, n, v) == Defined(S, n) /\ Conforms(S, TypeOf(S, n), v)

---------------------------------------------------------------------------
(* P07: type equivalence, ignoring comments, annotations and defaults *)
SameDec(a, b) == IF a = <<>> \/ b = <<>> THEN a = b ELSE SameNum(Dec(a[1]), Dec(b[1]))
RECURSIVE Equiv(_, _, _)
EquivByName(S, a, b) == a = b \/ (Defined(S, a) /\ Defined(S, b) /\ Equiv(S, TypeOf(S, a), TypeOf(S, b)))
Equiv(S, a, b) ==
    /\ a.type = b.type
    /\ CASE a.type = "String" -> /\ a.pattern = b.pattern /\ a.minsize = b.minsize /\ a.maxsize = b.maxsize
                                 /\ Len(a.values) = Len(b.values) /\ SeqSet(a.values) = SeqSet(b.values)
                                 /\ a.reference = b.reference
         [] a.type = "UUID" -> a.reference = b.reference
         [] a.type = "Bytes" -> a.minsize = b.minsize /\ a.maxsize = b.maxsize
         [] a.type = "UnitValue" -> EquivByName(S, a.unit, b.unit) /\ EquivByName(S, a.value, b.value)
         [] a.type \in {"Array", "Map"} -> /\ a.minsize = b.minsize /\ a.maxsize = b.maxsize
                                           /\ EquivByName(S, a.items, b.items) /\ EquivByName(S, a.keys, b.keys)
         [] a.type \in NumericTypes -> SameDec(a.min, b.min) /\ SameDec(a.max, b.max)
         [] a.type = "Enum" -> Len(a.elements) = Len(b.elements) /\ Symbols(a) = Symbols(b)
         [] a.type = "Union" -> /\ Len(a.variants) = Len(b.variants)
                                /\ { <<a.variants[i].name, a.variants[i].type>> : i \in 1..Len(a.variants) }
                                     = { <<b.variants[i].name, b.variants[i].type>> : i \in 1..Len(b.variants) }
         [] a.type = "Struct" -> /\ Len(a.fields) = Len(b.fields)
                                 /\ \A i \in 1..Len(a.fields) :
                                      /\ a.fields[i].name = b.fields[i].name
                                      /\ a.fields[i].required = b.fields[i].required
                                      /\ Equiv(S, a.fields[i].ts, b.fields[i].ts)
         [] OTHER -> TRUE

---------------------------------------------------------------------------
(* P08: what the target of an example denotes: <<ts>>, or <<>> for an error; "whole" for a request or response *)
RECURSIVE Follow(_, _, _)
Follow(S, ts, path) ==
    IF path = <<>> THEN [st |-> "ok", ts |-> ts]
    ELSE LET r == IF ts.type # "Struct" /\ Defined(S, ts.type) THEN TypeOf(S, ts.type) ELSE ts IN
         IF r.type # "Struct" \/ path[1] \notin FieldNames(r) THEN [st |-> "err"]
         ELSE Follow(S, FieldOf(r, path[1]).ts, Tail(path))
ParamNames(ps) == { ps[i].name : i \in 1..Len(ps) }
ParamOf(ps, n) == ps[CHOOSE i \in 1..Len(ps) : ps[i].name = n /\ \A j \in 1..(i-1) : ps[j].name # n]
ViaParams(S, ps, path) ==
    IF path = <<>> THEN [st |-> "whole"]
    ELSE IF path[1] \in ParamNames(ps) THEN Follow(S, ParamOf(ps, path[1]).ts, Tail(path)) ELSE [st |-> "err"]
Target(S, target) ==
    LET q == Split(target, ".") h == q[1] path == Tail(q) IN
    IF Defined(S, h) THEN Follow(S, TypeOf(S, h), path)
    ELSE IF HasSuffix(h, "Request") /\ Uncap(UpTo(h, Len(h) - 7)) \in HttpNames(S)
         THEN ViaParams(S, HttpOf(S, Uncap(UpTo(h, Len(h) - 7))).inputs, path)
    ELSE IF HasSuffix(h, "Response") /\ Uncap(UpTo(h, Len(h) - 8)) \in HttpNames(S)
              /\ HttpOf(S, Uncap(UpTo(h, Len(h) - 8))).expected # <<>>
         THEN ViaParams(S, HttpOf(S, Uncap(UpTo(h, Len(h) - 8))).expected[1].outputs, path)
    ELSE [st |-> "err"]

---------------------------------------------------------------------------
(* P09: inline enums of struct fields become declared types; all or nothing *)
EnumName(tn, fn) == LET c == Cap(fn) IN IF HasPrefix(c, tn) THEN c ELSE tn \o c
\* the inline enums, in order of declaration: <<type index, field index>>
RECURSIVE InlineFrom(_, _, _)
InlineFrom(S, i, j) ==
    IF i > Len(S.types) THEN <<>>
    ELSE IF S.types[i].ts.type # "Struct" \/ j > Len(S.types[i].ts.fields) THEN InlineFrom(S, i + 1, 1)
    ELSE IF S.types[i].ts.fields[j].ts.type = "Enum" THEN <<<<i, j>>>> \o InlineFrom(S, i, j + 1)
    ELSE InlineFrom(S, i, j + 1)
Inline(S) == InlineFrom(S, 1, 1)
InlineName(S, p) == EnumName(S.types[p[1]].name, S.types[p[1]].ts.fields[p[2]].name)
InlineSpec(S, p) == S.types[p[1]].ts.fields[p[2]].ts
\* declare one inline enum: [ok, types] 
RECURSIVE Declare(_, _, _)
Declare(S, ps, new) ==
    IF ps = <<>> THEN [ok |-> TRUE, new |-> new]
    ELSE LET n == InlineName(S, ps[1])
             e == InlineSpec(S, ps[1])
             T == [S EXCEPT !.types = @ \o new] IN
         IF Defined(T, n) THEN IF Equiv(T, TypeOf(T, n), e) THEN Declare(S, Tail(ps), new) ELSE [ok |-> FALSE, new |-> <<>>]
         ELSE Declare(S, Tail(ps), Append(new, TypeDef(n, e)))
Refactored(S) ==
    LET ps == Inline(S) d == Declare(S, ps, <<>>) IN
    [ok |-> d.ok,
     S |-> IF ~d.ok THEN S
           ELSE [S EXCEPT !.types =
                   [i \in 1..Len(S.types) |->
                      [S.types[i] EXCEPT !.ts.fields =
                         [j \in 1..Len(S.types[i].ts.fields) |->
                            IF <<i, j>> \in SeqSet(ps)
                            THEN [S.types[i].ts.fields[j] EXCEPT !.ts = OfType(InlineName(S, <<i, j>>))]
                            ELSE S.types[i].ts.fields[j]]]] \o d.new]]

=============================================================================
