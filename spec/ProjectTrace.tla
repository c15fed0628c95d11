---------------------------- MODULE ProjectTrace ----------------------------
EXTENDS Project
DirBefore(e, i) == SeqSet(IF i = 1 THEN e.out.before ELSE e.out.steps[i - 1].dir)
SchemaAt(e, i) == e.in.schemas[e.in.steps[i].which]
FilesOk(e, i) ==
    LET f == Paths(SeqSet(e.out.steps[i].fresh)) S == SchemaAt(e, i) c == e.in.steps[i].conf
        want == PFiles(e.in.lang, S, c, e.in.env) IN
    want \subseteq f /\ f \ want \subseteq PHelpers(e.in.lang, S, c, e.in.env)
\* each says the package of its place, after what it has to begin with
HeadsOk(e, i) ==
    LET S == SchemaAt(e, i) c == e.in.steps[i].conf h == e.out.steps[i].heads IN
    \A k \in 1..Len(h) : h[k].path = "pom.xml" \/ (h[k].headed /\ h[k].pkg = PkgSaid(e.in.lang, S, c, h[k].path))
PomsOk(e, i) == LET p == e.out.steps[i].pom IN p = <<>> \/ PomOk(p[1], SchemaAt(e, i), e.in.steps[i].conf, e.in.env)
DirOk(e, i) ==
    LET o == e.out.steps[i] c == e.in.steps[i].conf d == DirBefore(e, i) f == SeqSet(o.fresh) d2 == SeqSet(o.dir) force == PForce(c) IN
    IF o.freshst # "ok" \/ Blocked(d, f, PDirs(e.in.lang, SchemaAt(e, i), c, e.in.env), force)
    THEN o.st = "err" /\ o.freshst \in {"ok", "err"} /\ Between(d, f, force, d2)
    ELSE o.st = "ok" /\ d2 = After(d, f, force) /\ SeqSet(o.kept) = Kept(d, f, force)
\* the parts made one at a time are those made at once
Parts == {"model", "server", "client", "maven", "force-overwrite"}
Rest(c) == Filter(c, LAMBDA p : p[1] \notin Parts)
\* the Go model has a Timestamp for the server that is made with it
ForServer(e, i, j, path) ==
    e.in.lang = "go" /\ path = GoFile(SchemaAt(e, i), e.in.steps[i].conf, "model") /\ Ask(e.in.steps[i].conf, "server", FALSE) # Ask(e.in.steps[j].conf, "server", FALSE)
SameParts(e, i) ==
    \A j \in 1..i - 1 :
       e.in.steps[j].which = e.in.steps[i].which /\ Rest(e.in.steps[j].conf) = Rest(e.in.steps[i].conf) /\ e.out.steps[j].freshst = "ok" /\ e.out.steps[i].freshst = "ok"
       => LET a == SeqSet(e.out.steps[j].fresh) b == SeqSet(e.out.steps[i].fresh) IN \A f \in a : f[1] \in Paths(b) => f \in b \/ ForServer(e, i, j, f[1])
StepWhy(e, i) ==
    LET ok == e.out.steps[i].freshst = "ok" IN
    IF ok /\ ~FilesOk(e, i) THEN "files" ELSE IF ok /\ ~HeadsOk(e, i) THEN "package or header" ELSE IF ok /\ ~PomsOk(e, i) THEN "pom"
    ELSE IF ~DirOk(e, i) THEN "directory" ELSE IF ~SameParts(e, i) THEN "parts" ELSE ""
Bad(e) == { i \in 1..Len(e.out.steps) : StepWhy(e, i) # "" }
Allowed(e) == Len(e.out.steps) = Len(e.in.steps) /\ Bad(e) = {}
Why(e) == IF Bad(e) = {} THEN "steps" ELSE LET i == FirstIx(Bad(e)) IN "step " \o NatStr(i) \o ": " \o StepWhy(e, i)
=============================================================================
