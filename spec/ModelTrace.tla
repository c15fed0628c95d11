---------------------------- MODULE ModelTrace ------------------------------
EXTENDS Model
\* what a model answers
Answer(S, op, in, o) ==
    CASE op = "model.validate" -> o.st = IF ConformsByName(S, in.type, in.value) THEN "ok" ELSE "err"
      [] op = "model.validatespec" -> o.st = IF Conforms(S, in.ts, in.value) THEN "ok" ELSE "err"
      [] op = "model.equiv" -> /\ o.st = "ok" /\ o.ab = Equiv(S, in.a, in.b)
                                 /\ o.ba = o.ab /\ o.aa = TRUE
      [] op = "model.equivname" -> o.st = "ok" /\ o.ab = EquivByName(S, in.a, in.b) /\ o.ba = o.ab
      [] op = "model.target" ->
             LET t == Target(S, in.target) IN
             /\ o.st = t.st
             /\ t.st = "ok" => o.ts = t.ts
(* What each observed call may do *)
Allowed(e) ==
    LET S == e.in.schema o == e.out IN
    CASE e.op = "model.new" ->
             IF ModelOk(S)
             THEN /\ o.st = "ok"
                  /\ \A i \in 1..Len(e.in.names) :      \* every name asked for is found iff it is defined, and is what was declared
                       LET n == e.in.names[i] r == o.types[i] IN
                       IF Defined(S, n) THEN r.found /\ r.name = n /\ r.ts = TypeOf(S, n) ELSE ~r.found
                  /\ \A i \in 1..Len(e.in.names) :
                       LET n == e.in.names[i] r == o.http[i] IN
                       IF n \in HttpNames(S) THEN r.found /\ r.def = HttpOf(S, n) ELSE ~r.found
                  /\ o.schema = S                        \* and the model still is the schema
             ELSE o.st = "err"
      [] e.op = "model.session" ->             \* no answer depends on the ones before, and the model stays what it was
             /\ o.st = "ok" /\ o.schema = S
             /\ Len(o.outs) = Len(e.in.steps)
             /\ \A i \in 1..Len(e.in.steps) : Answer(S, e.in.steps[i].op, e.in.steps[i].in, o.outs[i])
      [] e.op = "model.inline" ->
             LET r == Refactored(S) IN
             /\ o.st = IF r.ok THEN "ok" ELSE "err"
             /\ o.schema = r.S
             /\ r.ok => /\ o.index = [i \in 1..Len(r.S.types) |-> r.S.types[i].ts]    \* the index has the new types too
                        /\ Inline(r.S) = <<>>
      [] OTHER -> Answer(S, e.op, e.in, o)
Why(e) == CASE e.op = "model.target" -> Target(e.in.schema, e.in.target).st
            [] e.op = "model.inline" -> IF Refactored(e.in.schema).ok THEN "should refactor" ELSE "should refuse"
            [] OTHER -> "the specification decides otherwise"
=============================================================================
