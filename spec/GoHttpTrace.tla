---------------------------- MODULE GoHttpTrace -----------------------------
EXTENDS GoHttp
HttpFiles(e) == SeqSet(e.out.files) = { GoFile(e.in.schema, e.in.conf, w) : w \in {"model"} \cup (IF Flag(e.in.conf, "server") THEN {"server"} ELSE {})
                                                                         \cup (IF Flag(e.in.conf, "client") THEN {"client"} ELSE {}) }
HttpOk(e) == IF Flag(e.in.conf, "server") THEN ServerOk(e.in.schema, Flag(e.in.conf, "runtime")) ELSE GoOk(e.in.schema)
CallOk(e, i) == LET S == e.in.schema rt == Flag(e.in.conf, "runtime") IN
    IF e.in.side = "server" THEN ServerCall(S, e.in.base, e.in.calls[i], e.out.calls[i], rt)
    ELSE ClientCall(S, e.in.base, e.in.calls[i], e.out.calls[i], rt)
Allowed(e) ==
    IF ~HttpOk(e) THEN e.out.st = "err"
    ELSE e.out.st = "ok" /\ HttpFiles(e) /\ \A i \in 1..Len(e.in.calls) : CallOk(e, i)
CallWhy(e, i) ==
    LET S == e.in.schema rt == Flag(e.in.conf, "runtime") c == e.in.calls[i] o == e.out.calls[i] IN
    IF e.in.side = "server"
    THEN LET r == Routes(S, e.in.base, c) IN
         IF r = {} THEN "call " \o NatStr(i) \o ": not found, " \o o.status
         ELSE LET h == S.http[FirstIx(r)] IN
              "call " \o NatStr(i) \o " of " \o h.name \o ", answer " \o c.answer.kind \o ", status " \o o.status \o
              (IF o.seen = <<>> THEN ": not seen" ELSE
               LET bad == { p \in SeqSet(h.inputs) : ~(HasField(o.seen[1].fields, p.name) /\ InputSeen(S, e.in.base, h, c, p, rt, FieldAt(o.seen[1].fields, p.name))) } IN
               IF bad = {} THEN ": response" ELSE ": input " \o (CHOOSE p \in bad : TRUE).name)
    ELSE LET h == HttpOf(S, c.action) IN
         "call " \o NatStr(i) \o " of " \o h.name \o
         (IF Len(o.reqs) = 1 /\ ClientRequest(S, e.in.base, h, c, o.reqs[1], rt) THEN ": result for status " \o c.answer.status \o " is " \o o.res.kind ELSE ": request")
Why(e) == IF ~HttpOk(e) THEN "should be refused: " \o e.out.st
          ELSE IF e.out.st # "ok" THEN "should be generated: " \o e.out.st
          ELSE IF ~HttpFiles(e) THEN "files"
          ELSE CallWhy(e, CHOOSE i \in 1..Len(e.in.calls) : ~CallOk(e, i))
=============================================================================
