------------------------------- MODULE Values -------------------------------
(* The textual value types of SADL: Decimal, Timestamp, UUID, UnitValue.
   For each: which text is a value, which value it denotes, and the text that a
   value prints as.  P01..P04. *)
EXTENDS Num

---------------------------------------------------------------------------
(* P01 Decimal *)
Precision == 70      \* significant decimal digits the 250 bit mantissa always holds

\* text whose treatment is left open: binary exponents (1p3), and exponents too large to write out
DecOpen(t) == Contains(t, "p") \/ Contains(t, "P")
              \/ (HasExp(t) /\ IsDecText(t) /\ Len(StripLeft(Unsigned(ExpOf(t)), "0")) > 4)

\* numbers of more digits than are kept agree on those that are
Agree(t, out) ==
    /\ Dec(out).neg = Dec(t).neg
    /\ LET k == 60 a == Dec(t).digs b == Dec(out).digs IN
       LET mid == SubSeq(a, k + 1, k + 8) IN
       (AllIn(mid, {"9"}) \/ AllIn(mid, {"0"}))
         \/ (Dec(out).pt = Dec(t).pt /\ Len(b) >= k /\ UpTo(b, k) = UpTo(a, k))

\* what the printed form of text t must be (zero may keep a sign)
PrintsAs(t, out) ==
    IF IsZero(Dec(t)) THEN out \in {"0", "-0"}
    ELSE IF SigDigits(t) <= Precision THEN out = Plain(t)
    ELSE IsDecText(out) /\ ~HasExp(out) /\ Agree(t, out)

\* the observations every decimal value must give: one text, in JSON too, which reads back as the value
DecObserved(t, o) ==
    /\ o.st = "ok"
    /\ PrintsAs(t, o.text)
    /\ o.json = o.text /\ o.again = o.text /\ o.jagain = o.text
    /\ LET n == Dec(t) IN
       /\ InRange(Trunc(n), "Int64") => o.i64 = TruncText(n)
       /\ InRange(Trunc(n), "Int32") => o.i32 = TruncText(n)
       /\ (SigDigits(t) <= 15 /\ n.pt < 300 /\ n.pt > -300) => o.f64 \in {Plain(t)} \cup (IF IsZero(n) THEN {"0", "-0"} ELSE {})

---------------------------------------------------------------------------
(* P02 Timestamp: a point in time to the nanosecond, [day, sec, ns]; day 0 is 0000-03-01 *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31
DayNum(y, m, d) == \* days since 0000-03-01, proleptic Gregorian
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        mm == IF m <= 2 THEN m + 9 ELSE m - 3
        \* floor division also for yy = -1
        f(a, b) == IF a >= 0 THEN a \div b ELSE 0 - ((b - 1 - a) \div b)
    IN 365 * yy + f(yy, 4) - f(yy, 100) + f(yy, 400) + ((153 * mm + 2) \div 5) + d - 1

Num2(s, i) == NatOf(SubSeq(s, i, i + 1))
\* the zone at the end of the text, "" if it is none of those that say UTC
ZoneOf(s) == IF HasSuffix(s, "Z") THEN "Z"
             ELSE IF HasSuffix(s, "+00:00") THEN "+00:00" ELSE IF HasSuffix(s, "-00:00") THEN "-00:00"
             ELSE IF HasSuffix(s, "+0000") THEN "+0000" ELSE IF HasSuffix(s, "-0000") THEN "-0000" ELSE ""
DigitsAt(s, i, j) == AllIn(SubSeq(s, i, j), Digit)
\* date and time without the zone: yyyy-mm-ddThh:mm:ss[.f+]
IsLocal(s) ==
    /\ Len(s) >= 19
    /\ DigitsAt(s, 1, 4) /\ At(s, 5) = "-" /\ DigitsAt(s, 6, 7) /\ At(s, 8) = "-" /\ DigitsAt(s, 9, 10)
    /\ At(s, 11) = "T"
    /\ DigitsAt(s, 12, 13) /\ At(s, 14) = ":" /\ DigitsAt(s, 15, 16) /\ At(s, 17) = ":" /\ DigitsAt(s, 18, 19)
    /\ Len(s) = 19 \/ (Len(s) >= 21 /\ At(s, 20) = "." /\ DigitsAt(s, 21, Len(s)))
LocalOk(s) ==
    /\ Num2(s, 6) \in 1..12
    /\ Num2(s, 9) \in 1..MonthDays(NatOf(UpTo(s, 4)), Num2(s, 6))
    /\ Num2(s, 12) <= 23 /\ Num2(s, 15) <= 59 /\ Num2(s, 18) <= 59
LocalText(s) == UpTo(s, Len(s) - Len(ZoneOf(s)))
IsTimestampText(s) == ZoneOf(s) # "" /\ IsLocal(LocalText(s)) /\ LocalOk(LocalText(s))
\* text left open: hours of one digit, a comma for the point, other zones of RFC 3339, fractions beyond nanoseconds
TsOpen(s) == \/ Contains(s, ",")
             \/ (Len(s) > 13 /\ At(s, 13) = ":")
             \/ (Len(s) >= 25 /\ At(s, Len(s) - 2) = ":" /\ At(s, Len(s) - 5) \in {"+", "-"} /\ ZoneOf(s) = "")
             \/ (IsTimestampText(s) /\ Len(LocalText(s)) > 29)
FracNanos(s) == IF Len(s) = 19 THEN 0 ELSE NatOf(UpTo(From(s, 21) \o "000000000", 9))
Fields(s) == [y |-> NatOf(UpTo(s, 4)), mo |-> Num2(s, 6), d |-> Num2(s, 9),
              h |-> Num2(s, 12), mi |-> Num2(s, 15), s |-> Num2(s, 18), ns |-> FracNanos(s)]
Instant(f, off) == \* off: minutes east of UTC
    LET m == f.h * 60 + f.mi - off
        dd == IF m < 0 THEN -1 ELSE IF m >= 1440 THEN 1 ELSE 0
    IN [day |-> DayNum(f.y, f.mo, f.d) + dd, sec |-> (m - 1440 * dd) * 60 + f.s, ns |-> f.ns]
ToMilli(t) == [t EXCEPT !.ns = (t.ns \div 1000000) * 1000000]
ZeroInstant == [day |-> DayNum(1, 1, 1), sec |-> 0, ns |-> 0]
TsText(f) == Pad(f.y, 4) \o "-" \o Pad(f.mo, 2) \o "-" \o Pad(f.d, 2) \o "T" \o
             Pad(f.h, 2) \o ":" \o Pad(f.mi, 2) \o ":" \o Pad(f.s, 2) \o "." \o Pad(f.ns \div 1000000, 3) \o "Z"
\* the observation of a timestamp that is the instant t
TsObserved(t, o) ==
    /\ o.st = "ok"
    /\ Instant(o, 0) = t
    /\ IF t = ZeroInstant THEN o.text = "" /\ o.json = "\"\""
       ELSE /\ o.text = TsText(o)
            /\ o.json = "\"" \o o.text \o "\""
            \* the text is a timestamp, of that instant to the millisecond, and reads back as such
            /\ IsTimestampText(o.text) /\ Instant(Fields(LocalText(o.text)), 0) = ToMilli(t)
            /\ ToMilli(t) # ZeroInstant => (o.again = o.text /\ o.jagain = o.text)

---------------------------------------------------------------------------
(* P03 UUID *)
IsUUIDText(s) == /\ Len(s) = 36
                 /\ \A i \in 1..36 : IF i \in {9, 14, 19, 24} THEN At(s, i) = "-" ELSE At(s, i) \in HexDigit

---------------------------------------------------------------------------
(* P04 UnitValue: a decimal, a space, a unit *)
UvSpace(s) == Pos(s, " ")
UvNum(s) == UpTo(s, UvSpace(s) - 1)
UvUnit(s) == From(s, UvSpace(s) + 1)
IsUVText(s) == UvSpace(s) > 1 /\ IsDecText(UvNum(s)) /\ UvUnit(s) # ""
SameText(t, out) == IsDecText(out) /\ (IF SigDigits(t) <= Precision THEN SameNum(Dec(t), Dec(out)) ELSE Agree(t, out))
UvObserved(num, unit, o) ==
    /\ o.st = "ok"
    /\ SameText(num, o.value) /\ o.unit = unit
    /\ UvSpace(o.text) > 1 /\ SameText(num, UvNum(o.text)) /\ UvUnit(o.text) = unit
    /\ o.json = o.text
    /\ SameText(num, o.av) /\ o.au = unit

=============================================================================
