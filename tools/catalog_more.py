EXP = [("Export", "openapi/export_openapi.go"), ("NewGenerator/ExportSadlType", "openapi/export_openapi.go")]
p("P13", "OpenAPI export writes every type with its constraints and no dangling ref",
  "Every model that can be exported gives a document whose component schemas are exactly the declared types, by name, with the type's comment as description and its example: numeric types with format and min/max; strings with pattern, sizes and values; Bytes (byte), Timestamp (date-time), UUID types (uuid); enums with their symbols in order; arrays and maps with item schema and size limits; structs with every field's schema and the required list; unions as oneOf; Any as the empty schema; any other named type as a reference. Every reference anywhere in the document leads to a schema of the document, exporting twice gives the same document, which is what Export prints, and the model is not changed.",
  ["inputs", "programs"], "for every schema", "The repository's test exports one petstore file and looks at nothing; types in combination are out of reach.",
  ["openapi/export_openapi.go", "openapi/model.go"], EXP)
p("P14", "OpenAPI export says every action: inputs, responses, errors, examples",
  "Export writes each http action as the operation of its method at base plus path (without the query part), with name, comment, resource and x_tags tags; every path, query and header input as a parameter with wire name, place, comment, schema and required (path always); the remaining input as a required JSON body; the expected status with comment, header outputs and body; every exception under its status (0 is default) with comment and schema; request and response examples at the parameter or body they name, by example name. Title, description, version (dev if none), license and servers come from the model. An action with a method OpenAPI lacks here, or two for one path and method, is an error.",
  ["inputs", "programs"], "for every schema with http actions and examples", "No test looks at an exported operation.",
  ["openapi/export_openapi.go", "openapi/model.go"], EXP)
IMP = [("Import", "openapi/import_openapi.go"), ("Model.ToSadl", "openapi/import_openapi.go"), ("convertOasType", "openapi/import_openapi.go")]
p("P15", "OpenAPI import gives each schema the SADL type that it says",
  "Importing an OpenAPI 3 document, from JSON or YAML alike and the same every time, declares exactly one type per component schema (but Timestamp strings and Decimal), with its description as comment and examples: booleans; strings with pattern, sizes and values, enums when every value is a symbol, uuid and date-time formats as UUID and Timestamp; integers by format (Int64 when none) and numbers (Decimal) with limits; arrays with items and size limits; objects as structs with each property, its comment and whether it is required; references by name, and a schema that is a reference as what it refers to. A reference to nothing, a type that is not supported, a missing version, title or paths, or more or less than one file, is an error, never a panic or a type left out.",
  ["inputs"], "for every document", "No test imports a document other than one sample.",
  ["openapi/import_openapi.go", "openapi/model.go"], IMP)
p("P16", "OpenAPI import gives each operation as the http action that it says",
  "Each GET, PUT, POST, DELETE, HEAD, PATCH and OPTIONS operation becomes the http action of its operationId with method, summary, tags (first as resource, the others as x_tags) and its path, with query parameters appended; parameters (those shared by the path first unless overridden) keep place, wire name, description, required, type and limits under an identifier made of their name; the JSON body of POST, PUT and PATCH is the input body; the lowest 2xx or 3xx response, else default, is the expected one with its headers and body; all other responses are exceptions with status and type. Cookie parameters, path parameters not in the path, parameters without usable schema, inline exception schemas and operations without expected response are errors.",
  ["inputs"], "for every document", "No test imports an operation with headers, several responses or shared parameters.",
  ["openapi/import_openapi.go", "openapi/model.go"], IMP + [("convertOasPath", "openapi/import_openapi.go")])
p("P17", "A Swagger 2 document means the same after conversion to OpenAPI 3",
  "LoadSwagger of a Swagger 2.0 document gives the OpenAPI 3 document with the same title, description, version, license, contact, terms of service and external documentation, a server of scheme, host and basePath (https preferred), the same schemas with all their limits, and for each operation the same parameters (body as request body), and responses with headers and a body under each media type that the operation, else the document, else JSON produces or consumes. Import of it declares what importing that OpenAPI document does. Documents that are not 2.0 are refused, and not taken for Swagger files; more or less than one file is an error.",
  ["inputs"], "for every Swagger document", "No test imports a Swagger document.",
  ["openapi/import_swagger.go", "openapi/import_openapi.go"], [("LoadSwagger/ConvertFromSwagger", "openapi/import_swagger.go"), ("Import", "openapi/import_openapi.go")])
p("P18", "A schema that OpenAPI can express survives export and import",
  "For schemas of Bool, Int32, Int64, Decimal, String, Timestamp, UUID types, enums, arrays of those or of declared structs and enums, and structs of those and of declared types: exporting to OpenAPI and importing the result gives the same types by name, equivalent up to the order of fields, and the same http actions: method, full path, resource, the place, wire name, need and type of every input, the expected status and outputs, and the exceptions.",
  ["inputs", "programs"], "for every schema of that kind", "No test does the round trip.",
  ["openapi/export_openapi.go", "openapi/import_openapi.go"], [("Export", "openapi/export_openapi.go"), ("Import", "openapi/import_openapi.go")])
p("P19", "GraphQL export defines everything it mentions, and says what the model says",
  "Export writes, in order, an enum for each enum with its symbols, an object type for each struct with its fields in order (comment, type, ! when required), and a union for each union of structs. Base types are Boolean, Int, Float, String or the configured custom scalar, arrays are lists of non-null items at any depth, and types made of either are replaced by what they are made of wherever they are used. Every name the document mentions is defined in it (custom scalars declared once, in a fixed order) or built in; a model that uses what GraphQL cannot say (maps, Any, inline types, unions of other things) is an error. The result is the same every time and the model is not changed.",
  ["inputs", "programs"], "for every schema and custom scalar map", "No test exports to GraphQL.",
  ["graphql/export_graphql.go"], [("FromSadl", "graphql/export_graphql.go"), ("GraphqlWriter.typeRef", "graphql/export_graphql.go")])
p("P20", "GraphQL import declares each type that the document defines",
  "Import declares, after ID (a String), in order, each object type as a struct with its fields (name, description as one-line comment, required when non-null, Int, Float and Boolean as Int32, Float64 and Bool, lists as arrays of their item type, lists of lists as arrays of Array), each enum with its symbols and each union with its members; the operation types named by a schema definition, wherever it is, interfaces, inputs, and the scalars Timestamp and UUID declare nothing. Other scalars, other definitions, and names that are defined twice or are base types of SADL, and more or less than one file, are errors, never a panic. Schema name and namespace come from the configuration.",
  ["inputs"], "for every GraphQL document", "No test imports GraphQL.",
  ["graphql/import_graphql.go"], [("Import", "graphql/import_graphql.go"), ("gqlStruct/gqlEnum/gqlUnion", "graphql/import_graphql.go")])
p("P21", "Generated Go models compile, declare what the schema says, and keep its JSON",
  "For every schema whose types are all declared (enums and unions by name), golang.Export writes one file, named after the service, in the directory of the configured package or else the namespace, and it compiles. It declares: each type under its name (structs with a field per field, named with a capital, its JSON name, omitted when empty iff optional; unions with one optional field per variant and a tag constant for each; enums with a constant per symbol that reads and writes the symbol, or its x_enumValue, and refuses others; strings, numbers, arrays and maps as the Go type; decimals, timestamps, structs and unions held by pointer), a request and a response struct for each http action, an interface with one method per action, and Error() for the types raised as exceptions. Reading JSON of a type and writing it gives the same value, with decimals exact and timestamps in UTC to the millisecond; values of the wrong kind or range are refused. With the runtime option the decimals, timestamps and unit values are those of the sadl package. Other schemas are refused with an error, never a panic; the result is the same every time and the model is not changed.",
  ["inputs", "programs"], "for every schema and value", "No test generates Go code.",
  ["golang/golang_model.go", "golang/export_golang.go"], [("Export", "golang/export_golang.go"), ("Generator.EmitTypeDefs", "golang/golang_model.go"), ("Generator.nativeTypeName", "golang/export_golang.go")])
p("P22", "A generated Go server calls the service and answers HTTP as the schema says",
  "For every schema with http actions whose parameters are of base types other than Any, Bytes and collections, or declared types and enums of those (else Export returns an error), the server that golang.Export writes compiles, and serves each action at the path of the base URL plus its own, by its method, first declared first. The implementation is called once, with every path, query and header parameter read from its text by its type - its default, else nothing, when it is missing or (numbers, booleans, timestamps) cannot be read or is out of range - and the body as the JSON says; a missing or unreadable body is answered 400, an unknown path 404, without a call. What it returns is answered with the expected status (200 if none), the body as JSON, and each header output as text (HTTP dates in Last-Modified, Date and Expires, nothing for values that are not set); an exception of the action with its status and JSON, and any other error with 500 and its message.",
  ["inputs", "programs"], "for every schema, request and answer", "No test generates or runs a server.",
  ["golang/golang_server.go"], [("Generator.CreateServer", "golang/golang_server.go"), ("paramAccessor", "golang/golang_server.go"), ("serverTemplate", "golang/golang_server.go")])
p("P23", "A generated Go client says the request, and reads the answer, as the schema says",
  "For every schema with http actions the client that golang.Export writes compiles, also next to the server, and each call sends one request: the method of the action, target plus path with every path parameter escaped, each query and header parameter that is set, escaped, under its wire name and no other, and for PUT, POST and PATCH the body as JSON. The expected status gives the response with its body and its header outputs read by their types; the status of an exception gives that exception as error, with its content; any other status, and a body that cannot be read, gives an error.",
  ["inputs", "programs"], "for every schema, request and answer", "No test generates or runs a client.",
  ["golang/golang_client.go"], [("Generator.CreateClient", "golang/golang_client.go"), ("clientTemplate", "golang/golang_client.go")])
p("P24", "The HTTP trace shows each example as the messages it would be",
  "For every schema, httptrace.Export writes, action by action in order, each request example as a request - the method, base path and path with its parameters, escaped, each query and header parameter that the example gives under its wire name and no other, the body as JSON - followed by the response when there is an example of the response or of an exception by the same name: the expected status (200 if none) or the exception's, its header outputs, Content-Length, a current Date in GMT, and the body as JSON, or none for 204 and 304. The result is the same every time; examples of requests and responses that are not objects are errors, never a panic or an exit.",
  ["inputs"], "for every schema with examples", "No test writes a trace.",
  ["httptrace/export_http_examples.go"], [("Export", "httptrace/export_http_examples.go"), ("generateHttpTrace", "httptrace/export_http_examples.go")])
p("P25", "Generated Java model code compiles and keeps every value of the schema",
  "For every schema java.Export writes a model that compiles - Lombok aside - in the files of the source folder and package asked for (package, else domain reversed, else namespace), or returns an error when a type is unknown, is a bare Enum, Union or UnitValue, is a keyword, or cannot be thrown. Each struct, enum, union, unit value, and each request, response and the service has its class: a field per field, in order and of the Java type of its type (primitive only if required, Instant or Timestamp as asked), private final with getter and builder when immutable, else public; with NotNull, Pattern, Size and Min/Max as declared; exceptions are RuntimeExceptions. JSON of a conforming value is read into the class and written as the same JSON, optional fields that hold nothing left out; the union knows its variant; builder copies are equal; pretty toString is the JSON.",
  ["inputs", "programs"], "for every schema, configuration and conforming value", "No test generates Java.",
  ["java/export_java.go", "java/java_model.go", "java/java_timestamp.go", "java/java_util.go"], [("Export", "java/export_java.go"), ("Generator.CreateStructPojo", "java/export_java.go"), ("Generator.TypeName", "java/export_java.go"), ("Generator.CreateUnionPojo", "java/export_java.go"), ("Generator.EmitBuilder", "java/export_java.go")])
p("P26", "A generated Java server calls the service and answers HTTP as the schema says",
  "For every schema with http actions whose parameters are text types, the server that java.Export writes compiles next to the model, and serves each action at the base path plus its own by its method. The service is called once, with each path, query and header parameter read from its text by its type (its default, else nothing, when it is missing) and the body as the JSON says; text that cannot be read is answered 404 in the path or query and 400 in a header, a missing or unreadable body 400, an unknown path 404 or method 405, without a call. What it returns is answered with the expected status (200 if none), the body as JSON and each header output as text, nothing for those not set; an exception of the action with its status and JSON, anything else with 500.",
  ["inputs", "programs"], "for every schema, configuration, request and answer", "No test generates or runs a Java server.",
  ["java/java_server.go", "java/export_java.go"], [("Generator.CreateServer", "java/java_server.go"), ("Generator.CreateServerDataAndFuncMap", "java/java_server.go")])
p("P27", "A generated Java client says requests and reads answers as the schema says",
  "For every schema with http actions whose parameters are text types the client that java.Export writes compiles, also next to the server, and each call sends one request: the method of the action, target plus path with every path parameter escaped, each query and header parameter that is set under its wire name and no other, and the body as JSON. The expected status gives the response with its body and its header outputs read by their types; the status of an exception of the action gives that exception, with its content; any other status, and a body that cannot be read, is thrown as an error.",
  ["inputs", "programs"], "for every schema, configuration, request and answer", "No test generates or runs a Java client.",
  ["java/java_client.go", "java/export_java.go"], [("Generator.CreateClient", "java/java_client.go"), ("Generator.CreateClientDataAndFuncMap", "java/java_client.go")])
p("P28", "The parser builds the model that the source says, in every layout",
  "For every source that keeps the rules of the language, however it is laid out - white space, blank lines, semicolons, block comments, order of directives and of options, case of options and methods, comments before, within or after what they describe, or no newline at the end - parsing gives the model it declares: name, namespace, version, base and annotations, the types, operations, http actions and examples in order, with every option, default, annotation and comment. What is left out has its meaning: items and keys of collections, value and unit of unit values, the name and resource of an action, where a parameter is, and which ones are required. A file is named after itself unless it says another name; what a file includes is added and marked with its name; a file that includes itself is an error. Parsing again gives the same.",
  ["inputs"], "for every source", "Tests parse a handful of examples.",
  ["parser.go"], [("ParseSadlString", "parser.go"), ("ParseSadlFile", "parser.go"), ("Parser.parseHttpDirective", "parser.go"), ("Parser.ParseTypeSpecElements", "parser.go"), ("Parser.parseStructFieldDef", "parser.go")])
p("P29", "The parser refuses every source that breaks a rule of the language",
  "A source is refused with an error, never a panic, and only then, when: it mentions a type that is not defined (in a field, also of an inline struct, an item, a key, a unit value, a reference, a union, an operation, an http parameter or exception); it defines a type or action twice or a type over a base type, or from a type that is not a base type; a unit value is not of a numeric value and a text unit; a field is both required and has a default, or a string has both pattern and values; a default or example does not conform to its type, or an example is of nothing; the path's braces do not match; an action has more than one body, or one where its method or status allows none; an exception is declared twice; base is not an absolute path; or it is not in the grammar: options a type does not have, missing names, values and blocks, methods that do not exist, two expected responses.",
  ["inputs"], "for every source", "Tests refuse two or three.",
  ["parser.go"], [("Parser.Validate", "parser.go"), ("Parser.validateHttp", "parser.go"), ("Parser.validateExample", "parser.go"), ("Parser.ParseOptions", "parser.go")])
p("P30", "Any text whatever gives a model that keeps the rules, or an error",
  "For every sequence of tokens - sources cut short anywhere, with tokens missing, repeated, replaced or exchanged, or made up - the parser returns, with either an error or a model in which everything mentioned is defined and the rules of types, actions and operations hold; never a panic or an endless loop. A source that ends within a block, option list or type parameters is an error.",
  ["inputs"], "for every sequence of tokens", "Tests cannot enumerate broken sources.",
  ["parser.go"], [("Parser.ParseNoValidate", "parser.go"), ("Parser.GetToken", "parser.go"), ("Parser.parseOperationDirective", "parser.go")])
p("P31", "Source written for a model parses back to the same model",
  "For every model that the parser builds, DecompileSadl writes source that the parser accepts and that gives the same model: types with all their options, defaults, annotations and comments, operations, http actions with their names, resources, parameters, expected responses and exceptions, and examples, in order. The text is the same every time, and the model is not changed.",
  ["inputs"], "for every model that can be parsed", "No test writes source.",
  ["unparser.go"], [("DecompileSadl", "unparser.go"), ("SadlGenerator.sadlTypeSpec", "unparser.go"), ("SadlGenerator.sadlHttpSpec", "unparser.go")])
p("P32", "A schema saved as JSON says all of it, and loads as the same schema",
  "The JSON of a schema has, for every part that is there - names, comments, annotations, types with all their limits, fields, symbols and variants, defaults, http actions with parameters, expected response and exceptions, operations, examples - its key with its value, each once, nothing else, and leaves out what is empty. Pretty writes the same document with <, > and & as they are. Loading it gives the same schema, and saving that the same document. A document with keys in any other order, unknown keys, or keys that are null or empty loads as the same. Numbers in defaults and examples are those that floating point holds.",
  ["inputs"], "for every schema", "No test saves or loads a schema.",
  ["schema.go", "decimal.go", "misc.go"], [("Schema", "schema.go"), ("TypeSpec", "schema.go"), ("HttpDef", "schema.go"), ("Pretty", "misc.go")])
p("P33", "An OpenAPI document that is loaded and written again loses nothing",
  "A JSON or YAML file with an OpenAPI 3 document loads when it has a version, an info with title and version, paths that start with a slash and, when there is a license, its name, and is refused with an error otherwise, never a panic. Loading keeps every member that version 3.0 of the model has in this package, at every depth - parameters, bodies, responses, headers, links, callbacks, schemas with all their limits, components, security, examples, tags - with its value, and written as JSON it is there again under the same key, with nothing added; members the model does not know, and empty ones, are left out. Writing it again gives the same document. Deciding whether a file is such a document agrees with loading it.",
  ["inputs"], "for every document", "No test loads more than one or two documents.",
  ["openapi/model.go", "openapi/import_openapi.go"], [("Load", "openapi/import_openapi.go"), ("Validate", "openapi/model.go"), ("IsValidFile", "openapi/import_openapi.go")])
p("P34", "Repeated exports write what was asked for and touch nothing else there",
  "An export of Go or Java code writes a file for each part that its options ask for (model, server, client, the example implementation, the Maven project), each at the place and in the package that the options, the namespace of the model and the environment give, Java files after the header that is set. Into a directory where something is already: files that exist keep what they hold, also when they are empty, and are reported, unless force-overwrite is set, which replaces them; what the export does not name is never touched; something in the way of a directory or of a file to be replaced is an error, never a panic, and leaves each file as it was or as it is to be. Exporting again changes nothing. Parts of the Java code, or of the Go server and client, that are made one at a time, hold what they hold when they are made at once. The Maven project is of the domain and the name of the service, and all that it depends on has a version.",
  ["histories", "configurations"], "for every history of exports, every configuration and every content of the directory", "No test exports twice, or into a directory that holds something.",
  ["golang/export_golang.go", "java/export_java.go", "java/java_pom.go", "generator.go"], [("WriteFile", "generator.go"), ("NewGenerator", "java/export_java.go"), ("NewGenerator", "golang/export_golang.go"), ("CreatePom", "java/java_pom.go")])
p("P35", "Extensions of the language get their directives, and no others",
  "When parsers are given extensions, no two by one name: each directive that an extension is named after is handed to it, once, in the order of the source, whether it is in the file or in one that it includes, with the comment before it; parsing goes on where the extension stopped reading, and neither comments nor types around it are lost. An error of an extension, or a second extension of the same name, is an error of the parse, and nothing more is handed out; a directive of no extension is refused. Once everything is read, each extension validates once at most, and sees every type; an error of it is an error of the parse. What the extensions made is in the model under their names.",
  ["inputs", "configurations"], "for every source and every set of extensions", "No test has an extension.",
  ["parser.go"], [("Parser.registerExtension", "parser.go"), ("Parser.ParseNoValidate", "parser.go"), ("Parser.expectedDirectiveError", "parser.go"), ("Parser.IsBlockDone", "parser.go")])
