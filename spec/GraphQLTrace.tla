---------------------------- MODULE GraphQLTrace ----------------------------
EXTENDS GraphQL
NotScalar(d) == d.k # "scalar"
SameGField(a, b) == a.n = b.n /\ a.t = b.t /\ a.desc = b.desc
SameGDef(a, b) == /\ a.k = b.k /\ a.n = b.n /\ a.members = b.members
                  /\ SeqMap(a.syms, LAMBDA s : s.n) = SeqMap(b.syms, LAMBDA s : s.n)
                  /\ Len(a.fields) = Len(b.fields) /\ \A i \in 1..Len(a.fields) : SameGField(a.fields[i], b.fields[i])
ExportAllowed(S, cs, o) ==
    IF ~GExportOk(S, cs) THEN o.st = "err"
    ELSE /\ o.st = "ok"
         /\ LET got == Filter(o.defs, NotScalar)
                want == GDefs(S, cs)
                sc == Filter(o.defs, LAMBDA d : d.k = "scalar")
                names == { sc[i].n : i \in 1..Len(sc) } IN
            /\ Len(got) = Len(want) /\ \A i \in 1..Len(got) : SameGDef(got[i], want[i])
            /\ UsedInFields(S, cs) \subseteq names /\ names \subseteq UsedInFields(S, cs) \cup UsedInTypes(S, cs)
            /\ Len(sc) = Cardinality(names)
            /\ GClosed(o.defs)
GImportAllowed(e, o) ==
    LET c == GImported(e.in.defs, e.in.name, e.in.namespace) IN
    IF ~c.ok \/ e.in.files # 1 THEN o.st = "err" ELSE o.st = "ok" /\ o.schema = c.S
Allowed(e) ==
    CASE e.op = "gql.export" -> ExportAllowed(e.in.schema, e.in.scalars, e.out)
      [] e.op = "gql.import" -> GImportAllowed(e, e.out)
Why(e) ==
    CASE e.op = "gql.export" ->
           IF ~GExportOk(e.in.schema, e.in.scalars) THEN "should be refused" ELSE IF e.out.st # "ok" THEN "should be exported: " \o e.out.st
           ELSE IF ~GClosed(e.out.defs) THEN "names that are not defined" ELSE "definitions"
      [] e.op = "gql.import" ->
           LET c == GImported(e.in.defs, e.in.name, e.in.namespace) IN
           IF ~c.ok \/ e.in.files # 1 THEN "should be refused" ELSE IF e.out.st # "ok" THEN "should be accepted: " \o e.out.st ELSE "schema"
=============================================================================
