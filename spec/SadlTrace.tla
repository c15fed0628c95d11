----------------------------- MODULE SadlTrace ------------------------------
EXTENDS Sadl
\* a model that was accepted keeps the rules (those about values only where the patterns are the ones known here)
Known(ts) == ts.pattern \in Patterns \cup {""} /\ \A i \in 1..Len(ts.fields) : ts.fields[i].ts.pattern \in Patterns \cup {""}
Kept(S) == /\ ModelOk(S)
           /\ \A i \in 1..Len(S.types) : DefOk(S, [S.types[i] EXCEPT !.ts = [@ EXCEPT !.fields = [j \in 1..Len(@) |-> [@[j] EXCEPT !.default = <<>>]]]])
           /\ \A i \in 1..Len(S.http) : HttpOk(S, [S.http[i] EXCEPT !.inputs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.default = <<>>]],
                                             !.expected = [k \in 1..Len(@) |-> [@[k] EXCEPT !.outputs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.default = <<>>]]]]])
           /\ \A i \in 1..Len(S.operations) : OpOk(S, S.operations[i])
Why(e) ==
    CASE e.op = "sadl.parse" ->
           IF e.in.bad \/ ~SadlOk(e.in.schema) THEN IF e.out.st = "err" THEN "" ELSE "should be refused: " \o e.out.st
           ELSE IF e.out.st # "ok" THEN "should be accepted: " \o e.out.st
           ELSE IF ~e.out.same THEN "not the same again"
           ELSE IF SameSchema(Said(e.in.schema), e.out.schema) THEN "" ELSE "differs: " \o Differ(Said(e.in.schema), e.out.schema)
      [] e.op = "sadl.file" ->
           LET S == OfFile(Including(e.in.schema, e.in.included, "INC", e.in.first), "main") IN
           IF e.in.loop \/ ~SadlOk(S) THEN IF e.out.st = "err" THEN "" ELSE "should be refused: " \o e.out.st
           ELSE IF e.out.st # "ok" THEN "should be accepted: " \o e.out.st
           ELSE IF ~e.out.same THEN "not the same again"
           ELSE IF SameSchema(Said(S), e.out.schema) THEN "" ELSE "differs: " \o Differ(Said(S), e.out.schema)
      [] e.op = "sadl.any" ->
           IF e.out.st = "err" THEN ""
           ELSE IF e.out.st # "ok" THEN "neither a model nor an error: " \o e.out.st
           ELSE IF e.in.open THEN "accepted although it ends within a block"
           ELSE IF ~e.out.same THEN "not the same again"
           ELSE IF Kept(Said(e.out.schema)) THEN "" ELSE "accepted, but the model breaks a rule"
      [] e.op = "sadl.back" ->
           IF ~SadlOk(e.in.schema) THEN ""
           ELSE IF e.out.st # "ok" THEN "not written or not read back: " \o e.out.st
           ELSE IF ~e.out.same THEN "not the same again"
           ELSE IF ~e.out.kept THEN "the model is changed"
           ELSE IF SameSchema(Said(e.in.schema), e.out.schema) THEN "" ELSE "differs: " \o Differ(Said(e.in.schema), e.out.schema)
Allowed(e) == Why(e) = ""
=============================================================================
