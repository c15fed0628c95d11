------------------------------- MODULE Saved --------------------------------
(* A schema as the JSON document that it is saved as: which keys say what.
   Keys that would say nothing are left out; the order of keys does not matter. *)
EXTENDS Schema, Lists

Key(k, there, v) == IF there THEN <<Pair(k, v)>> ELSE <<>>
TextKey(k, s) == Key(k, s # "", VStr(s))
IntKey(k, o) == Key(k, o # <<>>, VNum(IF o = <<>> THEN "" ELSE NatStr(o[1])))
NumKey(k, o) == Key(k, o # <<>>, VNum(IF o = <<>> THEN "" ELSE o[1]))
ListKey(k, q, D(_)) == Key(k, q # <<>>, VArr([i \in 1..Len(q) |-> D(q[i])]))
AnnosKey(a) == Key("annotations", a # <<>>, VObj([i \in 1..Len(a) |-> Pair(a[i][1], VStr(a[i][2]))]))
About(x) == TextKey("comment", x.comment) \o AnnosKey(x.annos)

LeafKeys(ts) ==
    <<Pair("type", VStr(ts.type))>> \o TextKey("pattern", ts.pattern) \o ListKey("values", ts.values, VStr)
    \o IntKey("minSize", ts.minsize) \o IntKey("maxSize", ts.maxsize) \o NumKey("min", ts.min) \o NumKey("max", ts.max)
    \o TextKey("items", ts.items) \o TextKey("keys", ts.keys) \o TextKey("unit", ts.unit) \o TextKey("value", ts.value) \o TextKey("reference", ts.reference)
ElemDoc(e) == VObj(<<Pair("symbol", VStr(e.symbol))>> \o About(e))
VariantDoc(v) == VObj(<<Pair("name", VStr(v.name)), Pair("type", VStr(v.type))>> \o About(v))
RECURSIVE SpecKeys(_)
FieldKeys(f) == <<Pair("name", VStr(f.name))>> \o About(f) \o Key("required", f.required, VBool(TRUE))
                \o Key("default", f.default # <<>>, IF f.default = <<>> THEN VNull ELSE f.default[1])
SpecKeys(ts) == LeafKeys(ts)
                \o Key("fields", ts.fields # <<>>, VArr([i \in 1..Len(ts.fields) |-> VObj(FieldKeys(ts.fields[i]) \o SpecKeys(ts.fields[i].ts))]))
                \o ListKey("elements", ts.elements, ElemDoc) \o ListKey("variants", ts.variants, VariantDoc)
FieldDoc(f) == VObj(FieldKeys(f) \o SpecKeys(f.ts))
OutDoc(f) == VObj(<<Pair("name", VStr(f.name))>> \o About(f) \o SpecKeys(f.ts))
TypeDoc(t) == VObj(<<Pair("name", VStr(t.name))>> \o About(t) \o SpecKeys(t.ts))
ParamDoc(p) == VObj(TextKey("header", p.header) \o TextKey("query", p.query) \o Key("path", p.path, VBool(TRUE)) \o FieldKeys(p) \o SpecKeys(p.ts))
ExcDoc(e) == VObj(<<Pair("type", VStr(e.type)), Pair("status", VNum(NatStr(e.status)))>> \o About(e))
ExpectDoc(e) == VObj(ListKey("outputs", e.outputs, ParamDoc) \o <<Pair("status", VNum(NatStr(e.status)))>> \o About(e))
HttpDoc(h) == VObj(TextKey("name", h.name) \o TextKey("resource", h.resource) \o About(h) \o <<Pair("method", VStr(h.method)), Pair("path", VStr(h.path))>>
                   \o ListKey("inputs", h.inputs, ParamDoc) \o Key("expected", h.expected # <<>>, IF h.expected = <<>> THEN VNull ELSE ExpectDoc(h.expected[1]))
                   \o ListKey("exceptions", h.exceptions, ExcDoc))
ExampleDoc(e) == VObj(<<Pair("target", VStr(e.target))>> \o TextKey("name", e.name) \o Key("example", e.example.k # "null", e.example) \o About(e))
OpDoc(o) == VObj(TextKey("name", o.name) \o About(o) \o ListKey("inputs", o.inputs, FieldDoc) \o ListKey("outputs", o.outputs, OutDoc)
                 \o ListKey("exceptions", o.exceptions, VStr))
SchemaDoc(S, version) ==
    VObj(<<Pair("sadl", VStr(version)), Pair("name", VStr(S.name))>> \o TextKey("namespace", S.namespace) \o TextKey("version", S.version)
         \o About(S) \o TextKey("base", S.base) \o ListKey("types", S.types, TypeDoc) \o ListKey("examples", S.examples, ExampleDoc)
         \o ListKey("operations", S.operations, OpDoc) \o ListKey("http", S.http, HttpDoc))
SameSchema(A, B) == SameVal(SchemaDoc(A, ""), SchemaDoc(B, ""))
=============================================================================
