----------------------------- MODULE GenValues ------------------------------
(* Behaviours of the value types, for the driver to perform: a machine that
   writes text one character at a time visits every text of a small scope, and
   machines that walk the fields of a timestamp or the positions of a UUID.
   The invariants are the properties of the specification itself. *)
EXTENDS Values, TLC, Json
CONSTANTS Mode, Depth

VARIABLE x   \* the text written, or the fields chosen

Alpha == CASE Mode = "dec" -> {"0", "1", "9", ".", "-", "+", "e"}
           [] Mode = "uv" -> {"1", ".", "-", " ", "x", "\""}
           [] OTHER -> {}

TsSeed == [y |-> 0, mo |-> 0, d |-> 0, h |-> 0, mi |-> 0, s |-> 0, f |-> "", z |-> ""]
Years == {"0000", "0004", "0100", "0400", "1900", "1999", "2000", "2019", "2024", "2100", "9999"}
Months == {"00", "01", "02", "04", "06", "09", "11", "12", "13"}
Days == {"00", "01", "28", "29", "30", "31", "32"}
Times == {"00:00:00", "23:59:59", "24:00:00", "12:60:00", "12:00:60", "09:05:07", "1:00:00"}
Fracs == {"", ".0", ".5", ".12", ".123", ".1239", ".000000001", ".999999999"}
Zones == {"Z", "+00:00", "-00:00", "+0000", "-0000", "", "z", "+01:00"}

UuidSeed == "1ce437b0-1Dd2-11b2-bC26-003ee1be85f9"
UuidChars == {"0", "a", "f", "g", "A", "F", "G", "-", " ", "z", ":", "{"}

Init == CASE Mode \in {"dec", "uv"} -> x = ""
          [] Mode = "ts" -> x \in { y \o "-" \o m \o "-" \o d \o "T" \o t \o "Z" : y \in Years, m \in Months, d \in Days, t \in {"00:00:00", "23:59:59"} }
                            \cup { "2020-02-29T" \o t \o f \o z : t \in Times, f \in Fracs, z \in Zones }
          [] Mode = "uuid" -> x \in { UpTo(UuidSeed, i - 1) \o c \o From(UuidSeed, i + 1) : i \in 1..36, c \in UuidChars }
                              \cup { UpTo(UuidSeed, i) : i \in 0..36 } \cup { UuidSeed \o c : c \in UuidChars }
                              \cup { UpTo(UuidSeed, i - 1) \o From(UuidSeed, i + 1) \o "0" : i \in 1..36 }
Next == Mode \in {"dec", "uv"} /\ Len(x) < Depth /\ \E c \in Alpha : x' = x \o c

Ops == CASE Mode = "dec" -> {"dec.parse", "dec.json"} [] Mode = "uv" -> {"uv.parse", "uv.json"}
         [] Mode = "ts" -> {"ts.parse", "ts.json"} [] Mode = "uuid" -> {"uuid.parse", "uuid.json"}
Emit == \A op \in Ops : PrintT("CASE " \o ToJson([op |-> op, in |-> [t |-> x]]))

\* properties of the specification: canonical text is a normal form that denotes the same number; order is antisymmetric ...
DesignDec == (Mode = "dec" /\ IsDecText(x)) =>
    /\ IsDecText(Plain(x)) /\ SameNum(Dec(Plain(x)), Dec(x)) /\ Plain(Plain(x)) = Plain(x)
    /\ NumCmp(Dec(x), Dec(x)) = 0
    /\ Leq(Trunc(Dec(x)), Dec(x)) \/ IsNeg(Dec(x))
    /\ IsIntNum(Trunc(Dec(x)))
    /\ IsJsonNumber(Plain(x))
DesignTs == (Mode = "ts" /\ IsTimestampText(x)) =>
    LET f == Fields(LocalText(x)) IN
    /\ IsTimestampText(TsText(f)) /\ Instant(Fields(LocalText(TsText(f))), 0) = ToMilli(Instant(f, 0))
    /\ Instant(f, 0).sec \in 0..86399
DesignUv == (Mode = "uv" /\ IsUVText(x)) => IsUVText(UvNum(x) \o " " \o UvUnit(x))
=============================================================================
