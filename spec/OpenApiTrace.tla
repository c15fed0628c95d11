---------------------------- MODULE OpenApiTrace ----------------------------
EXTENDS OpenApi
Has(o, f) == f \in DOMAIN o
TypesAllowed(S, o) ==
    IF ~ExportOk(S) THEN o.st = "err"
    ELSE /\ o.st = "ok" /\ o.doc.extra = <<>>
         /\ SameNamed(o.doc.schemas, SchemasOs(S))
         /\ Closed(o.doc)
DocAllowed(o, d) ==
    /\ o.openapi = "3.0.0" /\ o.title = d.title /\ o.desc = d.desc /\ o.version = d.version /\ o.license = d.license /\ o.terms = d.terms /\ o.contact = d.contact /\ o.docs = d.docs /\ o.servers = d.servers
    /\ o.extra = <<>>
ImportAllowed(c, o) ==
    IF ~c.ok THEN o.st = "err"
    ELSE /\ o.st = "ok"
         /\ [o.schema EXCEPT !.types = <<>>, !.http = <<>>, !.examples = <<>>] = [c.S EXCEPT !.types = <<>>, !.http = <<>>, !.examples = <<>>]
         /\ SameTypes(o.schema.types, c.S.types) /\ SameHttps(o.schema.http, c.S.http) /\ SameExs(o.schema.examples, c.ex)
Allowed(e) ==
    LET o == e.out IN
    CASE e.op = "oas.types" -> TypesAllowed(e.in.schema, o)
      [] e.op = "oas.ops" ->
             LET S == e.in.schema IN
             IF ~ExportOk(S) THEN o.st = "err"
             ELSE /\ o.st = "ok"
                  /\ DocAllowed(o.doc, Exported(S))
                  /\ SamePaths(o.doc.paths, PathsOs(S))
                  /\ Closed(o.doc)
      [] e.op = "oas.import" -> (IF e.in.files # 1 THEN o.st = "err" ELSE ImportAllowed(Imported(e.in.doc, e.in.fname), o))
      [] e.op = "swagger.import" ->
             IF e.in.doc.swagger # "2.0" THEN o.st = "err" /\ o.load = "err" /\ ~o.valid /\ ~o.v3
             ELSE /\ o.load = "ok" /\ o.valid /\ ~o.v3
                  /\ LET d == V3(e.in.doc) IN
                     /\ DocAllowed(o.doc, d)
                     /\ SameNamed(o.doc.schemas, d.schemas) /\ SamePaths(o.doc.paths, d.paths)
                     /\ (IF e.in.files # 1 THEN o.st = "err" ELSE ImportAllowed(Converted(d, SwName(e.in.fname)), o))
      [] e.op = "oas.roundtrip" -> o.st = "ok" /\ SameBack(e.in.schema, o.schema)
\* what differs, for the report
DocWhy(o, d) == IF ~DocAllowed(o, d) THEN "document" ELSE IF ~SameNamed(o.schemas, d.schemas) THEN "schemas"
                ELSE IF ~SamePaths(o.paths, d.paths) THEN "operations" ELSE "references"
ImportWhy(c, o) == IF ~c.ok THEN "should be refused"
                   ELSE IF o.st # "ok" THEN "should be accepted"
                   ELSE IF ~SameTypes(o.schema.types, c.S.types) THEN "types"
                   ELSE IF ~SameHttps(o.schema.http, c.S.http) THEN "actions"
                   ELSE IF ~SameExs(o.schema.examples, c.ex) THEN "examples" ELSE "schema"
Why(e) ==
    LET o == e.out IN
    CASE e.op \in {"oas.types", "oas.ops"} -> IF ~ExportOk(e.in.schema) THEN "should be refused" ELSE IF o.st # "ok" THEN "should be exported" ELSE DocWhy(o.doc, Exported(e.in.schema))
      [] e.op = "oas.import" -> ImportWhy(Imported(e.in.doc, e.in.fname), o)
      [] e.op = "swagger.import" -> IF ~Has(o, "doc") THEN "load" ELSE IF ~(DocAllowed(o.doc, V3(e.in.doc)) /\ SameNamed(o.doc.schemas, V3(e.in.doc).schemas) /\ SamePaths(o.doc.paths, V3(e.in.doc).paths))
                                    THEN DocWhy(o.doc, V3(e.in.doc)) ELSE ImportWhy(Converted(V3(e.in.doc), SwName(e.in.fname)), o)
      [] e.op = "oas.roundtrip" -> IF o.st # "ok" THEN "should survive" ELSE IF ~SameTypeBack(e.in.schema, o.schema) THEN "types" ELSE "actions"
=============================================================================
