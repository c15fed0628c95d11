------------------------------- MODULE Lists --------------------------------
(* Lists, keyed lists, the order of keys, and sameness of JSON values *)
EXTENDS Schema

\* order of keys
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Rank == [c \in CharSet(Printable) |-> Pos(Printable, c)]
RECURSIVE StrLess(_, _)
StrLess(a, b) == IF b = "" THEN FALSE
                 ELSE IF a = "" THEN TRUE
                 ELSE IF At(a, 1) = At(b, 1) THEN StrLess(From(a, 2), From(b, 2))
                 ELSE Rank[At(a, 1)] < Rank[At(b, 1)]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : y = x \/ StrLess(x, y) IN <<m>> \o Sorted(S \ {m})
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(Tail(q))
RECURSIVE Keep(_, _)          \* the elements of a sequence at the given positions
Keep(q, I) == LET RECURSIVE go(_)
                  go(i) == IF i > Len(q) THEN <<>> ELSE (IF i \in I THEN <<q[i]>> ELSE <<>>) \o go(i + 1)
              IN go(1)
Filter(q, P(_)) == Keep(q, { i \in 1..Len(q) : P(q[i]) })
\* lookups in lists of records with a key
HasN(q, n) == \E i \in 1..Len(q) : q[i].n = n
GetN(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n]
LastIx(I) == CHOOSE i \in I : \A j \in I : j <= i
FirstIx(I) == CHOOSE i \in I : \A j \in I : i <= j

\* values that are the same JSON
RECURSIVE SameVal(_, _)
SameVal(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "str" -> a.s = b.s
         [] a.k = "num" -> SameNum(Dec(a.n), Dec(b.n))
         [] a.k = "bool" -> a.b = b.b
         [] a.k = "arr" -> Len(a.a) = Len(b.a) /\ \A i \in 1..Len(a.a) : SameVal(a.a[i], b.a[i])
         [] a.k = "obj" -> /\ Len(a.o) = Len(b.o) /\ ObjKeys(a) = ObjKeys(b)
                           /\ \A n \in ObjKeys(a) : SameVal(ObjGet(a, n), ObjGet(b, n))
         [] OTHER -> TRUE
SameOptVal(a, b) == Len(a) = Len(b) /\ (a # <<>> => SameVal(a[1], b[1]))
=============================================================================
