----------------------------- MODULE GoGenTrace -----------------------------
EXTENDS GoGen
Flag(conf, k) == AnnoGet(conf, k) = <<"true">>
SameDecl(a, b) == \* a observed, b specified; types of a library show no fields
    /\ a.name = b.name /\ a.is = b.is /\ a.under = b.under
    /\ a.fields = b.fields
    /\ b.error => a.error
SameDecls(S, conf, rt, got) ==
    LET want == GoTypes(S, conf, rt) svc == GoService(S, conf) IN
    /\ \A w \in want : \E i \in 1..Len(got) : SameDecl(got[i], w)
    /\ \E i \in 1..Len(got) : got[i].name = svc /\ got[i].under = (IF S.http = <<>> THEN "any" ELSE "interface") /\ SeqSet(got[i].methods) = GoMethods(S)
GoResult(S, pr, o, rt) ==
    LET r == GoRead(S, OfType(pr.type), pr.v, rt) IN
    IF r = <<>> THEN o.st = "err" ELSE o.st = "ok" /\ SameVal(r[1], o.v)
GoText(S, o) ==
    \/ Declared(S, o.f) /\ TypeOf(S, o.f).type = "Float32" /\ IsDecText(o.s) /\ SigDigits(o.s) > 6     \* rounded
    \/ LET w == FromText(S, o.f, o.s) IN
       IF w = "nil" THEN o.st = "nil" ELSE o.st = "ok" /\ (o.text = w \/ (IsDecText(w) /\ IsDecText(o.text) /\ SameNum(Dec(w), Dec(o.text))))
FilesOk(e) == SeqSet(e.out.files) = { GoFile(e.in.schema, e.in.conf, "model") }
ModelAllowed(e) ==
    LET S == e.in.schema conf == e.in.conf rt == Flag(conf, "runtime") o == e.out IN
    IF ~GoOk(S) THEN o.st = "err"
    ELSE /\ o.st = "ok"
         /\ FilesOk(e) /\ o.pkg = GoPkgName(S, conf)
         /\ SameDecls(S, conf, rt, o.types)
         /\ SeqSet(o.consts) = GoConsts(S)
         /\ \A i \in 1..Len(e.in.probes) : GoResult(S, e.in.probes[i], o.results[i], rt)
         /\ \A i \in 1..Len(o.strs) : GoText(S, o.strs[i])
Allowed(e) == CASE e.op = "go.model" -> ModelAllowed(e)
ModelWhy(e) ==
    LET S == e.in.schema conf == e.in.conf rt == Flag(conf, "runtime") o == e.out IN
    IF ~GoOk(S) THEN "should be refused: " \o o.st
    ELSE IF o.st # "ok" THEN "should be generated: " \o o.st
    ELSE IF ~(FilesOk(e) /\ o.pkg = GoPkgName(S, conf)) THEN "files"
    ELSE IF ~SameDecls(S, conf, rt, o.types) THEN
         LET bad == { w \in GoTypes(S, conf, rt) : ~\E i \in 1..Len(o.types) : SameDecl(o.types[i], w) } IN
         IF bad = {} THEN "interface" ELSE "type " \o (CHOOSE w \in bad : TRUE).name
    ELSE IF SeqSet(o.consts) # GoConsts(S) THEN "constants"
    ELSE IF \E i \in 1..Len(e.in.probes) : ~GoResult(S, e.in.probes[i], o.results[i], rt)
         THEN "value " \o NatStr(CHOOSE i \in 1..Len(e.in.probes) : ~GoResult(S, e.in.probes[i], o.results[i], rt))
    ELSE "text " \o NatStr(CHOOSE i \in 1..Len(o.strs) : ~GoText(S, o.strs[i]))
Why(e) == CASE e.op = "go.model" -> ModelWhy(e)
=============================================================================
