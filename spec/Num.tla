-------------------------------- MODULE Num ---------------------------------
(* Decimal numbers, as text and as what the text denotes.

   A number is [neg, digs, pt]: its digits without leading or trailing zeros
   ("" for zero), and the position of the decimal point relative to the first
   digit, so the value is 0.digs * 10^pt.  Everything is done on the text, so
   there is no bound on magnitude or precision. *)
EXTENDS Strs

\* index of the exponent mark, 0 if none
EMark(s) == LET a == Pos(s, "e") b == Pos(s, "E") IN
            IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a < b THEN a ELSE b

Sign(s) == s # "" /\ At(s, 1) \in {"+", "-"}
Unsigned(s) == IF Sign(s) THEN From(s, 2) ELSE s
MantOf(s) == LET u == Unsigned(s) e == EMark(u) IN IF e = 0 THEN u ELSE UpTo(u, e - 1)
HasExp(s) == EMark(Unsigned(s)) # 0
ExpOf(s) == LET u == Unsigned(s) IN From(u, EMark(u) + 1)
IntPart(m) == LET p == Pos(m, ".") IN IF p = 0 THEN m ELSE UpTo(m, p - 1)
FracPart(m) == LET p == Pos(m, ".") IN IF p = 0 THEN "" ELSE From(m, p + 1)

\* the grammar of decimal text:  [sign] digits [. digits] [(e|E) [sign] digits], a digit at least in the mantissa
IsDecText(s) ==
    LET m == MantOf(s) IN
    /\ AllIn(IntPart(m), Digit) /\ AllIn(FracPart(m), Digit)
    /\ Len(IntPart(m)) + Len(FracPart(m)) > 0
    /\ HasExp(s) => /\ Unsigned(ExpOf(s)) # ""
                    /\ AllIn(Unsigned(ExpOf(s)), Digit)

\* the (smaller) grammar of JSON numbers
IsJsonNumber(s) ==
    LET m == MantOf(s) IN
    /\ IsDecText(s)
    /\ s # "" /\ At(s, 1) # "+"
    /\ IntPart(m) # ""
    /\ Len(IntPart(m)) > 1 => At(IntPart(m), 1) # "0"
    /\ Pos(m, ".") # 0 => FracPart(m) # ""

\* what text of the grammar denotes
Dec(s) ==
    LET m == MantOf(s)
        i == StripLeft(IntPart(m), "0")
        all == i \o FracPart(m)
        lead == Len(all) - Len(StripLeft(all, "0"))
        d == StripRight(StripLeft(all, "0"), "0")
        es == ExpOf(s)
        e == IF ~HasExp(s) THEN 0
             ELSE LET k == NatOf(StripLeft(Unsigned(es), "0")) IN IF At(es, 1) = "-" THEN 0 - k ELSE k
    IN [neg |-> s # "" /\ At(s, 1) = "-", digs |-> d, pt |-> IF d = "" THEN 0 ELSE Len(i) - lead + e]

\* (when i is not empty it starts with a nonzero digit, so lead is 0; when it is empty lead counts the zeros after the point)

SigDigits(s) == Len(Dec(s).digs)

\* the canonical text: plain notation, nothing redundant
PlainOf(n) ==
    LET L == Len(n.digs) IN
    (IF n.neg THEN "-" ELSE "") \o
    (IF L = 0 THEN "0"
     ELSE IF n.pt >= L THEN n.digs \o Zeros(n.pt - L)
     ELSE IF n.pt > 0 THEN UpTo(n.digs, n.pt) \o "." \o From(n.digs, n.pt + 1)
     ELSE "0." \o Zeros(0 - n.pt) \o n.digs)
Plain(s) == PlainOf(Dec(s))

IsZero(n) == n.digs = ""
\* the same number (signed zeros are the same number)
SameNum(a, b) == \/ IsZero(a) /\ IsZero(b)
                 \/ a = b
IsIntNum(n) == IsZero(n) \/ n.pt >= Len(n.digs)

\* order of two strings of digits, as fractions 0.a and 0.b
RECURSIVE FracCmp(_, _)
FracCmp(a, b) == IF a = "" /\ b = "" THEN 0
                 ELSE IF a = "" THEN -1 ELSE IF b = "" THEN 1
                 ELSE LET x == DigitVal[At(a, 1)] y == DigitVal[At(b, 1)] IN
                      IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE FracCmp(From(a, 2), From(b, 2))
AbsCmp(a, b) == IF IsZero(a) /\ IsZero(b) THEN 0 ELSE IF IsZero(a) THEN -1 ELSE IF IsZero(b) THEN 1
                ELSE IF a.pt < b.pt THEN -1 ELSE IF a.pt > b.pt THEN 1 ELSE FracCmp(a.digs, b.digs)
IsNeg(n) == n.neg /\ ~IsZero(n)
NumCmp(a, b) == IF IsNeg(a) /\ ~IsNeg(b) THEN -1
                ELSE IF ~IsNeg(a) /\ IsNeg(b) THEN 1
                ELSE IF IsNeg(a) THEN 0 - AbsCmp(a, b) ELSE AbsCmp(a, b)
Leq(a, b) == NumCmp(a, b) <= 0

\* the integer part, toward zero
Trunc(n) == IF n.pt <= 0 THEN [neg |-> FALSE, digs |-> "", pt |-> 0]
            ELSE IF n.pt >= Len(n.digs) THEN n
            ELSE LET d == StripRight(UpTo(n.digs, n.pt), "0") IN [n EXCEPT !.digs = d]
TruncText(n) == LET t == Trunc(n) IN IF IsZero(t) THEN "0" ELSE PlainOf(t)

MinOf(ty) == CASE ty = "Int8" -> Dec("-128") [] ty = "Int16" -> Dec("-32768")
               [] ty = "Int32" -> Dec("-2147483648") [] ty = "Int64" -> Dec("-9223372036854775808")
MaxOf(ty) == CASE ty = "Int8" -> Dec("127") [] ty = "Int16" -> Dec("32767")
               [] ty = "Int32" -> Dec("2147483647") [] ty = "Int64" -> Dec("9223372036854775807")
IntTypes == {"Int8", "Int16", "Int32", "Int64"}
InRange(n, ty) == Leq(MinOf(ty), n) /\ Leq(n, MaxOf(ty))
=============================================================================
