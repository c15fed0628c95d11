------------------------------- MODULE OasDoc -------------------------------
(* An OpenAPI 3 document as a tree: which keys an object of each kind has, what
   kind of thing each is, and what of it says something.  (P33) *)
EXTENDS Schema, Lists
\* kinds: text, flag, count (0 says nothing), any (a JSON value), "[k" a list and "{k" a map of kind k, else an object
Ky(k, t) == <<k, t>>
Keys(kind) ==
    CASE kind = "Model" -> <<Ky("openapi", "text"), Ky("info", "Info"), Ky("servers", "[Server"), Ky("paths", "{PathItem"), Ky("components", "Components"), Ky("security", "[{[text"), Ky("externalDocs", "ExternalDocs")>>
      [] kind = "Info" -> <<Ky("title", "text"), Ky("description", "text"), Ky("termsOfService", "text"), Ky("contact", "Contact"), Ky("license", "License"), Ky("version", "text")>>
      [] kind = "Contact" -> <<Ky("name", "text"), Ky("url", "text"), Ky("email", "text")>>
      [] kind = "License" -> <<Ky("name", "text"), Ky("url", "text")>>
      [] kind = "Server" -> <<Ky("url", "text"), Ky("description", "text"), Ky("variables", "{ServerVariable")>>
      [] kind = "ServerVariable" -> <<Ky("enum", "[any"), Ky("default", "any"), Ky("description", "text")>>
      [] kind = "PathItem" -> <<Ky("summary", "text"), Ky("description", "text"), Ky("get", "Operation"), Ky("put", "Operation"), Ky("post", "Operation"), Ky("delete", "Operation"),
                                Ky("head", "Operation"), Ky("options", "Operation"), Ky("patch", "Operation"), Ky("trace", "Operation"), Ky("connect", "Operation"), Ky("servers", "[Server"), Ky("parameters", "[Parameter")>>
      [] kind = "Operation" -> <<Ky("tags", "[text"), Ky("summary", "text"), Ky("description", "text"), Ky("operationId", "text"), Ky("parameters", "[Parameter"), Ky("requestBody", "RequestBody"),
                                 Ky("responses", "{Response"), Ky("callbacks", "{{PathItem"), Ky("deprecated", "flag"), Ky("security", "[{[text"), Ky("servers", "[Server")>>
      [] kind = "Parameter" -> <<Ky("name", "text"), Ky("in", "text"), Ky("description", "text"), Ky("style", "text"), Ky("explode", "bool"), Ky("allowEmptyValue", "flag"), Ky("allowReserved", "flag"),
                                 Ky("deprecated", "flag"), Ky("required", "flag"), Ky("schema", "Schema"), Ky("example", "any"), Ky("examples", "{Example"), Ky("content", "{MediaType")>>
      [] kind = "Response" -> <<Ky("description", "text"), Ky("headers", "{Header"), Ky("content", "{MediaType"), Ky("links", "{Link")>>
      [] kind = "Link" -> <<Ky("description", "text"), Ky("href", "text"), Ky("operationId", "text"), Ky("parameters", "{any"), Ky("headers", "{Schema")>>
      [] kind = "MediaType" -> <<Ky("schema", "Schema"), Ky("example", "any"), Ky("examples", "{Example"), Ky("encoding", "{Encoding")>>
      [] kind = "Example" -> <<Ky("summary", "text"), Ky("description", "text"), Ky("value", "any"), Ky("externalValue", "text")>>
      [] kind = "Encoding" -> <<Ky("contentType", "text"), Ky("headers", "{Header"), Ky("style", "text"), Ky("explode", "flag"), Ky("allowReserved", "flag")>>
      [] kind = "Header" -> <<Ky("description", "text"), Ky("schema", "Schema")>>
      [] kind = "Schema" -> <<Ky("$ref", "text"), Ky("oneOf", "[Schema"), Ky("anyOf", "[Schema"), Ky("allOf", "[Schema"), Ky("not", "Schema"), Ky("type", "text"), Ky("format", "text"), Ky("description", "text"),
                              Ky("enum", "[any"), Ky("default", "any"), Ky("example", "any"), Ky("externalDocs", "any"), Ky("uniqueItems", "flag"), Ky("exclusiveMinimum", "flag"), Ky("exclusiveMaximum", "flag"),
                              Ky("nullable", "flag"), Ky("readOnly", "flag"), Ky("writeOnly", "flag"), Ky("xml", "any"), Ky("minimum", "num"), Ky("maximum", "num"), Ky("multipleOf", "num"),
                              Ky("minLength", "count"), Ky("maxLength", "size"), Ky("pattern", "text"), Ky("minItems", "count"), Ky("maxItems", "size"), Ky("items", "Schema"), Ky("required", "[text"),
                              Ky("properties", "{Schema"), Ky("minProperties", "count"), Ky("maxProperties", "size"), Ky("additionalProperties", "any"), Ky("discriminator", "Discriminator"), Ky("patternProperties", "text")>>
      [] kind = "Discriminator" -> <<Ky("propertyName", "text"), Ky("mapping", "{text")>>
      [] kind = "Components" -> <<Ky("schemas", "{Schema"), Ky("parameters", "{Parameter"), Ky("headers", "{Header"), Ky("requestBodies", "{RequestBody"), Ky("responses", "{Response"),
                                  Ky("securitySchemes", "{SecurityScheme"), Ky("examples", "{Example"), Ky("tags", "[Tag"), Ky("links", "{Link"), Ky("callbacks", "{{PathItem")>>
      [] kind = "SecurityScheme" -> <<Ky("type", "text"), Ky("description", "text"), Ky("name", "text"), Ky("in", "text"), Ky("scheme", "text"), Ky("bearerFormat", "text"), Ky("flows", "OAuthFlows")>>
      [] kind = "OAuthFlows" -> <<Ky("implicit", "OAuthFlow"), Ky("password", "OAuthFlow"), Ky("clientCredentials", "OAuthFlow"), Ky("authorizationCode", "OAuthFlow")>>
      [] kind = "OAuthFlow" -> <<Ky("authorizationUrl", "text"), Ky("tokenUrl", "text"), Ky("refreshUrl", "text"), Ky("scopes", "{text")>>
      [] kind = "RequestBody" -> <<Ky("description", "text"), Ky("required", "flag"), Ky("content", "{MediaType")>>
      [] kind = "Tag" -> <<Ky("name", "text"), Ky("description", "text"), Ky("externalDocs", "ExternalDocs")>>
      [] kind = "ExternalDocs" -> <<Ky("description", "text"), Ky("url", "text")>>
Leaf(kind) == kind \in {"text", "flag", "bool", "any", "num", "count", "size"}
\* keys that are written whatever they say
Always(kind, key) == <<kind, key>> \in {<<"Model", "openapi">>, <<"Model", "info">>, <<"Model", "servers">>, <<"Model", "paths">>, <<"Model", "security">>,
                                        <<"Discriminator", "propertyName">>, <<"OAuthFlow", "scopes">>}
Says(kind, v) == CASE v.k = "null" -> FALSE
                   [] kind = "text" -> v.s # "" [] kind = "flag" -> v.b [] kind = "count" -> ~SameNum(Dec(v.n), Dec("0"))
                   [] At(kind, 1) = "[" -> v.a # <<>> [] At(kind, 1) = "{" -> v.o # <<>> [] OTHER -> TRUE
KindOf(kind, key) == LET q == Keys(kind) I == { i \in 1..Len(q) : q[i][1] = key } IN IF I = {} THEN "" ELSE q[CHOOSE i \in I : TRUE][2]
\* what is kept of a thing of a kind: the keys of its kind that say something
RECURSIVE Kept(_, _)
Kept(kind, v) ==
    IF Leaf(kind) \/ v.k = "null" THEN v
    ELSE IF At(kind, 1) = "[" THEN VArr([i \in 1..Len(v.a) |-> Kept(From(kind, 2), v.a[i])])
    ELSE IF At(kind, 1) = "{" THEN VObj([i \in 1..Len(v.o) |-> Pair(v.o[i].n, Kept(From(kind, 2), v.o[i].v))])
    ELSE LET q == SelectSeq(v.o, LAMBDA p : KindOf(kind, p.n) # "" /\ (Says(KindOf(kind, p.n), p.v) \/ Always(kind, p.n))) IN
         VObj([i \in 1..Len(q) |-> Pair(q[i].n, Kept(KindOf(kind, q[i].n), q[i].v))])
\* what a document has to say to be one
TextOf(v, key) == IF key \in ObjKeys(v) /\ ObjGet(v, key).k = "str" THEN ObjGet(v, key).s ELSE ""
GoodDoc(d) ==
    /\ TextOf(d, "openapi") # "" /\ {"info", "paths"} \subseteq ObjKeys(d) /\ ObjGet(d, "info").k = "obj" /\ ObjGet(d, "paths").k = "obj"
    /\ LET i == ObjGet(d, "info") IN TextOf(i, "title") # "" /\ TextOf(i, "version") # "" /\ ("license" \in ObjKeys(i) => TextOf(ObjGet(i, "license"), "name") # "")
    /\ \A p \in ObjKeys(ObjGet(d, "paths")) : HasPrefix(p, "/")
=============================================================================
