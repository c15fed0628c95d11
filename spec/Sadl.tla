------------------------------- MODULE Sadl ---------------------------------
(* The language: what a source says (P28), which sources are refused (P29, P30),
   and sources written for a model (P31).
   A source is a schema S as written (what is left out is empty) in some layout;
   Said(S) is the model that it declares. *)
EXTENDS Model, Lists

RegExUUID == "([a-f0-9]{8}(-[a-f0-9]{4}){4}[a-f0-9]{8})"

---------------------------------------------------------------------------
(* what is said *)
RECURSIVE SaidTs(_)
SaidTs(ts) ==
    CASE ts.type = "Array" -> [ts EXCEPT !.items = IF @ = "" THEN "Any" ELSE @]
      [] ts.type = "Map" -> [ts EXCEPT !.keys = IF @ = "" THEN "String" ELSE @, !.items = IF @ = "" THEN "Any" ELSE @]
      [] ts.type = "UnitValue" -> [ts EXCEPT !.value = IF @ = "" THEN "Decimal" ELSE @, !.unit = IF @ = "" THEN "String" ELSE @]
      [] ts.type = "Struct" -> [ts EXCEPT !.fields = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ts = SaidTs(@)]]]
      [] OTHER -> ts
SaidDef(td) == IF td.ts.type = "String" /\ td.ts.pattern = RegExUUID
               THEN [td EXCEPT !.ts = [@ EXCEPT !.type = "UUID", !.pattern = ""]]
               ELSE [td EXCEPT !.ts = SaidTs(@)]
\* an action without a name is named after its method and resource; the resource is then the last constant part of its path
PathOnly(p) == IF Pos(p, "?") = 0 THEN p ELSE UpTo(p, Pos(p, "?") - 1)
QueryOnly(p) == IF Pos(p, "?") = 0 THEN "" ELSE From(p, Pos(p, "?") + 1)
PathResource(p) == LET q == Split(PathOnly(p), "/")
                       I == { i \in 1..Len(q) : Pos(q[i], "{") = 0 } IN
                   IF I = {} THEN "" ELSE q[LastIx(I)]
SaidResource(h) == IF h.name # "" \/ h.resource # "" THEN h.resource ELSE PathResource(h.path)
SaidName(h) == IF h.name # "" THEN h.name ELSE LowStr(h.method) \o Cap(SaidResource(h))
\* where a parameter is: in the header it names, in the path, in the query, else it is the body
QueryOf(h, n) == LET q == Split(QueryOnly(h.path), "&")
                     I == { i \in 1..Len(q) : HasSuffix(q[i], "={" \o n \o "}") } IN
                 IF I = {} THEN "" ELSE LET z == q[FirstIx(I)] IN UpTo(z, Pos(z, "=") - 1)
Placed(h, p) == IF p.header # "" THEN [p EXCEPT !.path = FALSE, !.query = ""]
                ELSE IF Contains(PathOnly(h.path), "{" \o p.name \o "}") THEN [p EXCEPT !.path = TRUE, !.query = ""]
                ELSE [p EXCEPT !.path = FALSE, !.query = QueryOf(h, p.name)]
IsBodyParam(p) == ~p.path /\ p.query = "" /\ p.header = ""
NoContent(st) == st \in {204, 304}
SaidInput(h, p) == LET z == Placed(h, p) IN [z EXCEPT !.ts = SaidTs(@), !.required = @ \/ (z.header = "" /\ z.query = "")]
SaidOutput(h, st, p) == LET z == Placed(h, p) IN [z EXCEPT !.ts = SaidTs(@), !.required = @ \/ (z.header = "" /\ ~NoContent(st))]
SaidHttp(h) == [h EXCEPT !.name = SaidName(h), !.resource = SaidResource(h),
                         !.inputs = [i \in 1..Len(@) |-> SaidInput(h, @[i])],
                         !.expected = [i \in 1..Len(@) |-> LET e == @[i] IN [e EXCEPT !.outputs = [j \in 1..Len(@) |-> SaidOutput(h, e.status, @[j])]]]]
SaidOp(o) == [o EXCEPT !.inputs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ts = SaidTs(@)]], !.outputs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.ts = SaidTs(@)]]]
Said(S) == [S EXCEPT !.types = [i \in 1..Len(@) |-> SaidDef(@[i])], !.http = [i \in 1..Len(@) |-> SaidHttp(@[i])],
                     !.operations = [i \in 1..Len(@) |-> SaidOp(@[i])]]

\* a file's name is its schema's unless it says another; what an included file defines is added, marked, before or after the rest;
\* its head and its examples are its own
Marked(q, f) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.annos = Append(Filter(@, LAMBDA a : a[1] # "x_include"), <<"x_include", f>>)]]
Including(S, T, f, first) ==
    LET both(a, b) == IF first THEN Marked(b, f) \o a ELSE a \o Marked(b, f) IN
    [S EXCEPT !.types = both(@, T.types), !.http = both(@, T.http), !.operations = both(@, T.operations)]
OfFile(S, f) == [S EXCEPT !.name = IF @ = "" THEN f ELSE @]

---------------------------------------------------------------------------
(* the rules of the language, on what is said *)
RefsOk(S, ts) ==           \* what a type or a field's type mentions is defined
    CASE ts.type = "Array" -> Defined(S, ts.items)
      [] ts.type = "Map" -> Defined(S, ts.items) /\ Defined(S, ts.keys)
      [] ts.type = "UnitValue" -> /\ Defined(S, ts.value) /\ TypeOf(S, ts.value).type \in NumericTypes
                                  /\ Defined(S, ts.unit) /\ TypeOf(S, ts.unit).type \in {"String", "Enum"}
      [] OTHER -> Defined(S, ts.type)
RefOk(S, ts) == ts.reference # "" => Defined(S, ts.reference)
RECURSIVE FieldsOk(_, _)
FieldsOk(S, fs) ==
    \A i \in 1..Len(fs) :
       LET f == fs[i] IN
       /\ RefsOk(S, f.ts) /\ RefOk(S, f.ts)
       /\ f.default # <<>> => ~f.required /\ Conforms(S, f.ts, f.default[1])
       /\ ~(f.ts.values # <<>> /\ f.ts.pattern # "")
       /\ f.ts.type = "Struct" => FieldsOk(S, f.ts.fields)
DefOk(S, td) ==
    LET ts == td.ts IN
    /\ ts.type \in BaseTypes
    /\ RefsOk(S, ts) /\ RefOk(S, ts)
    /\ ts.type = "Struct" => FieldsOk(S, ts.fields)
    /\ ts.type = "Union" => \A i \in 1..Len(ts.variants) : Defined(S, ts.variants[i].type)
    /\ ts.type = "String" => ~(ts.values # <<>> /\ ts.pattern # "")
RECURSIVE BracesOk(_, _)
BracesOk(s, in) ==
    IF s = "" THEN ~in
    ELSE LET c == At(s, 1) IN
         CASE c = "{" -> ~in /\ BracesOk(From(s, 2), TRUE)
           [] c = "}" -> in /\ BracesOk(From(s, 2), FALSE)
           [] c = "/" -> ~in /\ BracesOk(From(s, 2), in)
           [] OTHER -> BracesOk(From(s, 2), in)
ParamsOk(S, ps) == \A i \in 1..Len(ps) : RefsOk(S, ps[i].ts) /\ (ps[i].default # <<>> => Conforms(S, ps[i].ts, ps[i].default[1]))
Bodies(ps) == Cardinality({ i \in 1..Len(ps) : IsBodyParam(ps[i]) })
OutBodies(ps) == Cardinality({ i \in 1..Len(ps) : ps[i].header = "" })
HttpOk(S, h) ==
    /\ BracesOk(PathOnly(h.path), FALSE)
    /\ ParamsOk(S, h.inputs)
    /\ Bodies(h.inputs) <= (IF h.method \in {"POST", "PUT", "PATCH"} THEN 1 ELSE 0)
    /\ \A i \in 1..Len(h.expected) : LET e == h.expected[i] IN ParamsOk(S, e.outputs) /\ OutBodies(e.outputs) <= (IF NoContent(e.status) THEN 0 ELSE 1)
    /\ \A i \in 1..Len(h.exceptions) : Defined(S, h.exceptions[i].type) /\ \A j \in 1..(i - 1) : h.exceptions[j].type # h.exceptions[i].type
OpOk(S, o) == /\ \A i \in 1..Len(o.inputs) : Defined(S, o.inputs[i].ts.type)
              /\ \A i \in 1..Len(o.outputs) : Defined(S, o.outputs[i].ts.type)
              /\ \A i \in 1..Len(o.exceptions) : Defined(S, o.exceptions[i])
ParamsConform(S, ps, v) ==
    /\ v.k = "obj"
    /\ \A i \in 1..Len(ps) : IF ps[i].name \in ObjKeys(v) THEN Conforms(S, ps[i].ts, ObjGet(v, ps[i].name)) ELSE ~ps[i].required
ExampleOk(S, e) ==
    LET q == Split(e.target, ".")
        act(suf) == Uncap(UpTo(e.target, Len(e.target) - Len(suf))) IN
    IF Defined(S, e.target) THEN Conforms(S, TypeOf(S, e.target), e.example)
    ELSE IF Len(q) = 2 /\ Declared(S, q[1]) /\ TypeOf(S, q[1]).type = "Struct" /\ q[2] \in FieldNames(TypeOf(S, q[1]))
         THEN Conforms(S, FieldOf(TypeOf(S, q[1]), q[2]).ts, e.example)
    ELSE IF HasSuffix(e.target, "Request") THEN act("Request") \in HttpNames(S) /\ ParamsConform(S, HttpOf(S, act("Request")).inputs, e.example)
    ELSE IF HasSuffix(e.target, "Response")
         THEN /\ act("Response") \in HttpNames(S)
              /\ LET h == HttpOf(S, act("Response")) IN ParamsConform(S, IF h.expected = <<>> THEN <<>> ELSE h.expected[1].outputs, e.example)
    ELSE FALSE
SaidOk(S) == /\ ModelOk(S)
             /\ S.base # "" => HasPrefix(S.base, "/")
             /\ \A i \in 1..Len(S.types) : DefOk(S, S.types[i])
             /\ \A i \in 1..Len(S.http) : HttpOk(S, S.http[i])
             /\ \A i \in 1..Len(S.operations) : OpOk(S, S.operations[i])
             /\ \A i \in 1..Len(S.examples) : ExampleOk(S, S.examples[i])
SadlOk(S) == SaidOk(Said(S))

---------------------------------------------------------------------------
(* the same schema (numbers by value, annotations as maps) *)
SameAnnos(a, b) == Len(a) = Len(b) /\ SeqSet(a) = SeqSet(b)
RECURSIVE SameSpec(_, _)
SameFld(a, b) == /\ a.name = b.name /\ a.comment = b.comment /\ SameAnnos(a.annos, b.annos) /\ a.required = b.required
                 /\ SameOptVal(a.default, b.default) /\ SameSpec(a.ts, b.ts)
SameSpec(a, b) ==
    /\ a.type = b.type /\ a.pattern = b.pattern /\ a.values = b.values /\ a.minsize = b.minsize /\ a.maxsize = b.maxsize
    /\ SameDec(a.min, b.min) /\ SameDec(a.max, b.max)
    /\ a.items = b.items /\ a.keys = b.keys /\ a.unit = b.unit /\ a.value = b.value /\ a.reference = b.reference
    /\ Len(a.fields) = Len(b.fields) /\ \A i \in 1..Len(a.fields) : SameFld(a.fields[i], b.fields[i])
    /\ Len(a.elements) = Len(b.elements)
    /\ \A i \in 1..Len(a.elements) : a.elements[i].symbol = b.elements[i].symbol /\ a.elements[i].comment = b.elements[i].comment /\ SameAnnos(a.elements[i].annos, b.elements[i].annos)
    /\ Len(a.variants) = Len(b.variants)
    /\ \A i \in 1..Len(a.variants) : a.variants[i].name = b.variants[i].name /\ a.variants[i].type = b.variants[i].type
                                     /\ a.variants[i].comment = b.variants[i].comment /\ SameAnnos(a.variants[i].annos, b.variants[i].annos)
SameDef(a, b) == a.name = b.name /\ a.comment = b.comment /\ SameAnnos(a.annos, b.annos) /\ SameSpec(a.ts, b.ts)
SamePrm(a, b) == SameFld(a, b) /\ a.header = b.header /\ a.query = b.query /\ a.path = b.path
SameSeq(a, b, P(_, _)) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : P(a[i], b[i])
SameExpect(a, b) == a.status = b.status /\ a.comment = b.comment /\ SameAnnos(a.annos, b.annos) /\ SameSeq(a.outputs, b.outputs, SamePrm)
SameExc(a, b) == a.type = b.type /\ a.status = b.status /\ a.comment = b.comment /\ SameAnnos(a.annos, b.annos)
SameHttp(a, b) == /\ a.name = b.name /\ a.resource = b.resource /\ a.comment = b.comment /\ SameAnnos(a.annos, b.annos) /\ a.method = b.method /\ a.path = b.path
                  /\ SameSeq(a.inputs, b.inputs, SamePrm) /\ SameSeq(a.expected, b.expected, SameExpect) /\ SameSeq(a.exceptions, b.exceptions, SameExc)
SameOp(a, b) == a.name = b.name /\ a.comment = b.comment /\ SameAnnos(a.annos, b.annos) /\ SameSeq(a.inputs, b.inputs, SameFld)
                /\ SameSeq(a.outputs, b.outputs, SameFld) /\ a.exceptions = b.exceptions
SameEx(a, b) == a.target = b.target /\ a.name = b.name /\ a.comment = b.comment /\ SameVal(a.example, b.example)
SameSchema(a, b) == /\ a.name = b.name /\ a.namespace = b.namespace /\ a.version = b.version /\ a.comment = b.comment /\ a.base = b.base
                    /\ SameAnnos(a.annos, b.annos)
                    /\ SameSeq(a.types, b.types, SameDef) /\ SameSeq(a.http, b.http, SameHttp)
                    /\ SameSeq(a.examples, b.examples, SameEx) /\ SameSeq(a.operations, b.operations, SameOp)
FirstNot(a, b, P(_, _)) == IF Len(a) # Len(b) THEN "number " \o NatStr(Len(b)) \o " of " \o NatStr(Len(a))
                           ELSE LET i == CHOOSE i \in 1..Len(a) : ~P(a[i], b[i]) IN NatStr(i)
Differ(a, b) ==      \* where two schemas differ
    IF ~SameSeq(a.types, b.types, SameDef) THEN "type " \o FirstNot(a.types, b.types, SameDef)
    ELSE IF ~SameSeq(a.http, b.http, SameHttp) THEN "http " \o FirstNot(a.http, b.http, SameHttp)
    ELSE IF ~SameSeq(a.examples, b.examples, SameEx) THEN "example " \o FirstNot(a.examples, b.examples, SameEx)
    ELSE IF ~SameSeq(a.operations, b.operations, SameOp) THEN "operation " \o FirstNot(a.operations, b.operations, SameOp)
    ELSE "head"

---------------------------------------------------------------------------
(* layout: a source is a list of tokens; what is open at its end *)
Opens == {"{", "(", "[", "<"}
Closes == {"}", ")", "]", ">"}
OpenAt(q) == Cardinality({ i \in 1..Len(q) : q[i] \in Opens }) - Cardinality({ i \in 1..Len(q) : q[i] \in Closes })
=============================================================================
