---------------------------- MODULE SupportTrace ----------------------------
EXTENDS Support
Allowed(e) ==
    CASE e.op = "store.run" -> e.out.st = "ok" /\ Len(e.out.seen) = Len(e.in.steps) /\ StoreRun(VNull, e.in.steps, e.out.seen, 1) = 0
      [] e.op = "gen.run" -> e.out.st = "ok" /\ Len(e.out.seen) = Len(e.in.steps) /\ GenRun_(Gen0(e.in.force), e.in.steps, e.out.seen, 1) = 0
      [] e.op = "comment.layout" -> e.out.st = "ok" /\ Laid(e)
Why(e) == IF e.out.st # "ok" THEN "should succeed"
          ELSE CASE e.op = "store.run" -> "step " \o NatStr(StoreRun(VNull, e.in.steps, e.out.seen, 1))
                 [] e.op = "gen.run" -> "step " \o NatStr(GenRun_(Gen0(e.in.force), e.in.steps, e.out.seen, 1))
                 [] OTHER -> "layout"
=============================================================================
