---------------------------- MODULE OasDocTrace -----------------------------
EXTENDS OasDoc
Allowed(e) ==
    LET d == e.in.doc o == e.out IN
    IF ~GoodDoc(d) THEN o.st = "err" /\ ~o.valid
    ELSE /\ o.st = "ok" /\ o.valid
         /\ SameVal(Kept("Model", d), o.doc)
         /\ SameVal(o.doc, o.again)
RECURSIVE Diff(_, _, _)
Diff(at, a, b) ==
    IF SameVal(a, b) THEN ""
    ELSE IF a.k = "obj" /\ b.k = "obj"
    THEN IF ObjKeys(a) # ObjKeys(b) THEN at \o ": other keys"
         ELSE LET n == CHOOSE k \in ObjKeys(a) : ~SameVal(ObjGet(a, k), ObjGet(b, k)) IN Diff(at \o "/" \o n, ObjGet(a, n), ObjGet(b, n))
    ELSE IF a.k = "arr" /\ b.k = "arr" /\ Len(a.a) = Len(b.a) THEN LET i == CHOOSE j \in 1..Len(a.a) : ~SameVal(a.a[j], b.a[j]) IN Diff(at \o "/" \o NatStr(i), a.a[i], b.a[i])
    ELSE at
Why(e) == IF ~GoodDoc(e.in.doc) THEN "should be refused" ELSE IF e.out.st # "ok" THEN "should be loaded" ELSE Diff("", Kept("Model", e.in.doc), e.out.doc)
=============================================================================
