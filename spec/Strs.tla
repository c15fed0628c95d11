-------------------------------- MODULE Strs --------------------------------
(* Character level operators on strings.  TLC treats a string as a sequence of
   characters for Len, SubSeq and \o, which is all that is used here. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

At(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
UpTo(s, i) == SubSeq(s, 1, i)
CharSet(s) == { At(s, i) : i \in 1..Len(s) }
AllIn(s, S) == \A i \in 1..Len(s) : At(s, i) \in S

Digit == {"0","1","2","3","4","5","6","7","8","9"}
DigitSeq == "0123456789"
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerSet == CharSet(Lower)
UpperSet == CharSet(Upper)
HexDigit == Digit \cup CharSet("abcdefABCDEF")

\* position of a character in a string, 0 when absent
Pos(s, c) == IF \E i \in 1..Len(s) : At(s, i) = c
             THEN CHOOSE i \in 1..Len(s) : At(s, i) = c /\ \A j \in 1..(i-1) : At(s, j) # c
             ELSE 0
DigitVal == [c \in Digit |-> Pos(DigitSeq, c) - 1]
DigitChar == [n \in 0..9 |-> At(DigitSeq, n + 1)]

ToUpper1 == [c \in LowerSet |-> At(Upper, Pos(Lower, c))]
ToLower1 == [c \in UpperSet |-> At(Lower, Pos(Upper, c))]
UpChar(c) == IF c \in LowerSet THEN ToUpper1[c] ELSE c
LowChar(c) == IF c \in UpperSet THEN ToLower1[c] ELSE c
Cap(s) == IF s = "" THEN s ELSE UpChar(At(s, 1)) \o From(s, 2)
Uncap(s) == IF s = "" THEN s ELSE LowChar(At(s, 1)) \o From(s, 2)

RECURSIVE UpStr(_)
UpStr(s) == IF s = "" THEN "" ELSE UpChar(At(s, 1)) \o UpStr(From(s, 2))
RECURSIVE LowStr(_)
LowStr(s) == IF s = "" THEN "" ELSE LowChar(At(s, 1)) \o LowStr(From(s, 2))

HasPrefix(s, p) == Len(s) >= Len(p) /\ UpTo(s, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Contains(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
Index(s, p) == IF Contains(s, p)
               THEN CHOOSE i \in 0..(Len(s) - Len(p)) :
                      /\ SubSeq(s, i + 1, i + Len(p)) = p
                      /\ \A j \in 0..(i - 1) : SubSeq(s, j + 1, j + Len(p)) # p
               ELSE -1

\* the number written by a string of digits (small ones only: TLC's integers are 32 bit)
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(UpTo(s, Len(s) - 1)) + DigitVal[At(s, Len(s))]
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN DigitChar[n] ELSE NatStr(n \div 10) \o DigitChar[n % 10]
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
Pad(n, w) == LET s == NatStr(n) IN Zeros(w - Len(s)) \o s

RECURSIVE StripLeft(_, _)
StripLeft(s, c) == IF s # "" /\ At(s, 1) = c THEN StripLeft(From(s, 2), c) ELSE s
RECURSIVE StripRight(_, _)
StripRight(s, c) == IF s # "" /\ At(s, Len(s)) = c THEN StripRight(UpTo(s, Len(s) - 1), c) ELSE s

TrimSp(s) == StripRight(StripLeft(s, " "), " ")

\* split at every occurrence of the one character string c
RECURSIVE Split(_, _)
Split(s, c) == LET i == Pos(s, c) IN
               IF i = 0 THEN <<s>> ELSE <<UpTo(s, i - 1)>> \o Split(From(s, i + 1), c)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN ""
                ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
RECURSIVE Replace(_, _, _)
Replace(s, a, b) == LET i == Index(s, a) IN
                    IF i < 0 \/ a = "" THEN s
                    ELSE UpTo(s, i) \o b \o Replace(From(s, i + Len(a) + 1), a, b)

SeqSet(q) == { q[i] : i \in 1..Len(q) }
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
SeqMap(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
=============================================================================
