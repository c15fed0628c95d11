---------------------------- MODULE ValuesTrace -----------------------------
EXTENDS Values
(* What each observed call may do *)
Allowed(e) ==
    LET t == e.in.t o == e.out IN
    CASE e.op = "dec.parse" -> DecOpen(t) \/ (IF IsDecText(t) THEN DecObserved(t, o) ELSE o.st = "err")
      [] e.op = "dec.json" -> DecOpen(t) \/ (IF IsJsonNumber(TrimSp(t)) THEN DecObserved(TrimSp(t), o) ELSE o.st = "err")
      [] e.op = "dec.field" -> DecOpen(t) \/
             (IF IsJsonNumber(TrimSp(t)) THEN /\ o.st = "ok"
                                      /\ \/ SigDigits(TrimSp(t)) > Precision
                                         \/ \E z \in IF IsZero(Dec(TrimSp(t))) THEN {"0", "-0"} ELSE {Plain(TrimSp(t))} :
                                              o.json = "{\"a\":" \o z \o ",\"b\":[" \o z \o ",1]}"
              ELSE o.st = "err")
      [] e.op = "dec.value" -> IF e.in.v # "" THEN DecObserved(e.in.v, o)
                               ELSE IF e.in.as = "nil" THEN o.st = "nil"
                               ELSE DecObserved(t, o)
      [] e.op = "dec.new" -> DecObserved(t, o)
      [] e.op \in {"ts.parse", "ts.json"} ->
             IF TsOpen(t) THEN o.st \in {"ok", "err"}
             ELSE IF IsTimestampText(t) THEN TsObserved(Instant(Fields(LocalText(t)), 0), o)
             ELSE o.st = "err"
      [] e.op = "ts.print" -> TsObserved(Instant(e.in, e.in.off), o)
      [] e.op \in {"ts.rawjson", "uuid.rawjson", "uv.rawjson"} -> o.st = "err"    \* JSON that is not such text
      [] e.op \in {"uuid.parse", "uuid.json"} ->
             IF IsUUIDText(t) THEN o.st = "ok" /\ o.text = t ELSE o.st = "err"
      [] e.op \in {"uv.parse", "uv.json"} ->
             DecOpen(UvNum(t)) \/ (IF IsUVText(t) THEN UvObserved(UvNum(t), UvUnit(t), o) ELSE o.st = "err")
      [] e.op = "uv.new" -> UvObserved(t, e.in.u, o)

\* for the report of a rejected event
Why(e) == IF e.op \in {"dec.parse", "dec.json"} /\ IsDecText(e.in.t) THEN Plain(e.in.t) ELSE "see the specification of " \o e.op
=============================================================================
