---------------------------- MODULE JavaGenTrace ----------------------------
EXTENDS JavaGen
SameJField(a, b) == a.n = b.n /\ a.t = b.t /\ a.acc = b.acc /\ SeqSet(a.rules) = b.rules
SameJDecl(a, b) == /\ a.name = b.name /\ a.kind = b.kind /\ a.exc = b.exc /\ a.consts = b.consts /\ SeqSet(a.methods) = b.methods
                   /\ Len(a.fields) = Len(b.fields) /\ \A i \in 1..Len(a.fields) : SameJField(a.fields[i], b.fields[i])
JDecls(e) == \A w \in JTypes(e.in.schema, e.in.conf) : \E i \in 1..Len(e.out.classes) : SameJDecl(e.out.classes[i], w)
JFilesOk(e) == LET f == SeqSet(e.out.files) want == JModelFiles(e.in.schema, e.in.conf) IN want \subseteq f /\ f \ want \subseteq JHelpers(e.in.schema, e.in.conf)
VariantName(v) == v.o[1].n
JResult(e, i) ==
    LET S == e.in.schema p == e.in.probes[i] o == e.out.results[i]
        k == TypeOf(S, RealName(S, p.type)).type
        w == JKeep(S, OfType(p.type), p.v) IN
    /\ o.st = "ok" /\ SameVal(w, o.v)
    /\ o.copies = IF k = "Struct" /\ ~Immutable(e.in.conf) THEN "same, no builder" ELSE "same"
    /\ k = "Union" => o.variant = VariantName(p.v)
    /\ k \in {"Struct", "Union"} /\ Pretty(e.in.conf) => SameVal(w, o.tv)
Allowed(e) == IF ~JavaOk(e.in.schema) THEN e.out.st = "err"
              ELSE e.out.st = "ok" /\ JFilesOk(e) /\ JDecls(e) /\ \A i \in 1..Len(e.in.probes) : JResult(e, i)
Why(e) ==
    IF ~JavaOk(e.in.schema) THEN "should be refused: " \o e.out.st
    ELSE IF e.out.st # "ok" THEN "should be generated: " \o e.out.st
    ELSE IF ~JFilesOk(e) THEN "files"
    ELSE IF ~JDecls(e) THEN "class " \o (CHOOSE w \in JTypes(e.in.schema, e.in.conf) : ~\E i \in 1..Len(e.out.classes) : SameJDecl(e.out.classes[i], w)).name
    ELSE LET i == CHOOSE k \in 1..Len(e.in.probes) : ~JResult(e, k) IN "value " \o NatStr(i) \o ": " \o e.out.results[i].st
=============================================================================
