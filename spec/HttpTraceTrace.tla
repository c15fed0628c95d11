--------------------------- MODULE HttpTraceTrace ---------------------------
EXTENDS HttpTrace
Allowed(e) ==
    IF ~TraceOk(e.in.schema) THEN e.out.st = "err"
    ELSE /\ e.out.st = "ok" /\ e.out.same
         /\ LET w == Shown(e.in.schema) IN
            /\ Len(e.out.entries) = Len(w)
            /\ \A i \in 1..Len(w) : TraceEntry(e.in.schema, w[i], e.out.entries[i])
Why(e) ==
    IF ~TraceOk(e.in.schema) THEN "should be an error: " \o e.out.st
    ELSE IF e.out.st # "ok" THEN "should be written: " \o e.out.st
    ELSE IF ~e.out.same THEN "not the same again"
    ELSE LET w == Shown(e.in.schema) IN
         IF Len(e.out.entries) # Len(w) THEN "entries " \o NatStr(Len(e.out.entries)) \o " of " \o NatStr(Len(w))
         ELSE LET i == CHOOSE i \in 1..Len(w) : ~TraceEntry(e.in.schema, w[i], e.out.entries[i]) IN
              "entry " \o NatStr(i) \o " " \o w[i].z.name \o " of " \o w[i].h.name \o
              (IF e.out.entries[i].name # w[i].z.name \/ e.out.entries[i].action # w[i].h.name THEN ": order" ELSE
               IF TraceRequest(e.in.schema, w[i].h, w[i].z, e.out.entries[i].req) THEN ": response" ELSE ": request")
=============================================================================
