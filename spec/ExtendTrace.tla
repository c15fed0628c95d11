---------------------------- MODULE ExtendTrace -----------------------------
EXTENDS Extend
Names(in) == { in.exts[i].name : i \in 1..Len(in.exts) }
\* each validation is of one extension, once, and sees every type
SeesAll(st, v) == \A i \in 1..Len(v) : v[i].types = [j \in 1..Len(st.types) |-> st.types[j].name]
Once(v) == Cardinality({ v[i].name : i \in 1..Len(v) }) = Len(v)
Allowed(e) ==
    LET st == Outcome(e.in) o == e.out IN
    /\ o.calls = st.calls
    /\ IF st.err THEN o.st = "err" /\ o.validated = <<>>
       ELSE /\ SeesAll(st, o.validated) /\ Once(o.validated)
            /\ IF Invalid(e.in) # {} THEN o.st = "err" /\ (\E i \in 1..Len(o.validated) : o.validated[i].name \in Invalid(e.in))
               ELSE /\ o.st = "ok" /\ { o.validated[i].name : i \in 1..Len(o.validated) } = Names(e.in)
                    /\ o.types = st.types /\ o.about = st.about
                    /\ { o.results[i][1] : i \in 1..Len(o.results) } = Names(e.in) /\ Len(o.results) = Len(e.in.exts)
                    /\ \A i \in 1..Len(o.results) : o.results[i][2] = ResultOf(st, o.results[i][1])
Why(e) == LET st == Outcome(e.in) o == e.out IN
    IF o.calls # st.calls THEN "called otherwise" ELSE IF st.err /\ o.st # "err" THEN "should be refused" ELSE IF ~st.err /\ Invalid(e.in) = {} /\ o.st # "ok" THEN "should be accepted" ELSE "results"
=============================================================================
