----------------------------- MODULE SavedTrace -----------------------------
EXTENDS Saved
Allowed(e) ==
    LET S == e.in.schema o == e.out IN
    CASE e.op = "schema.save" ->
             /\ o.st = "ok"
             /\ SameVal(SchemaDoc(S, e.in.version), o.doc)          \* what is saved says all of the schema, and nothing else
             /\ SameVal(SchemaDoc(S, e.in.version), o.pretty) /\ o.plain  \* <, > and & are as they are
             /\ SameSchema(S, o.schema) /\ o.version = e.in.version \* and is loaded as the same schema
             /\ o.stable                                            \* saved again, what was loaded gives the same document
      [] e.op = "schema.load" -> o.st = "ok" /\ SameSchema(S, o.schema)
      [] OTHER -> FALSE
Why(e) == IF e.out.st # "ok" THEN "failed" ELSE IF e.op = "schema.save" /\ ~SameVal(SchemaDoc(e.in.schema, e.in.version), e.out.doc) THEN "saved as something else" ELSE "loaded as something else"
=============================================================================
