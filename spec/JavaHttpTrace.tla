--------------------------- MODULE JavaHttpTrace ----------------------------
EXTENDS JavaHttp
JInst(e) == Instants(e.in.conf)
JFilesFit(e) == LET f == SeqSet(e.out.files) want == JHttpFiles(e.in.schema, e.in.conf) IN want \subseteq f /\ f \ want \subseteq JHelpers(e.in.schema, e.in.conf)
JCallOk(e, i) == LET S == e.in.schema IN
    IF e.in.side = "server" THEN JServerCall(S, e.in.base, e.in.calls[i], e.out.calls[i], JInst(e))
    ELSE JClientCall(S, e.in.base, e.in.calls[i], e.out.calls[i], JInst(e))
Allowed(e) == IF ~JHttpOk(e.in.schema, e.in.conf) THEN e.out.st = "err"
              ELSE e.out.st = "ok" /\ JFilesFit(e) /\ \A i \in 1..Len(e.in.calls) : JCallOk(e, i)
JCallWhy(e, i) ==
    LET S == e.in.schema c == e.in.calls[i] o == e.out.calls[i] IN
    IF e.in.side = "server"
    THEN LET r == Routes(S, e.in.base, c) IN
         IF r = {} THEN "call " \o NatStr(i) \o ": not found, " \o o.status
         ELSE LET h == S.http[FirstIx(r)] IN
              "call " \o NatStr(i) \o " of " \o h.name \o ", answer " \o c.answer.kind \o ", status " \o o.status \o
              (IF o.seen = <<>> THEN ": not seen" ELSE
               LET bad == { p \in SeqSet(h.inputs) : ~(JHasField(o.seen[1].fields, p.name) /\ JInputSeen(S, e.in.base, h, c, p, JInst(e), JFieldAt(o.seen[1].fields, p.name))) } IN
               IF bad = {} THEN ": response" ELSE ": input " \o (CHOOSE p \in bad : TRUE).name)
    ELSE LET h == HttpOf(S, c.action) IN
         "call " \o NatStr(i) \o " of " \o h.name \o
         (IF Len(o.reqs) = 1 /\ JClientRequest(S, e.in.base, h, c, o.reqs[1]) THEN ": result for status " \o c.answer.status \o " is " \o o.res.kind ELSE ": request")
Why(e) == IF ~JHttpOk(e.in.schema, e.in.conf) THEN "should be refused: " \o e.out.st
          ELSE IF e.out.st # "ok" THEN "should be generated: " \o e.out.st
          ELSE IF ~JFilesFit(e) THEN "files"
          ELSE JCallWhy(e, CHOOSE i \in 1..Len(e.in.calls) : ~JCallOk(e, i))
=============================================================================
