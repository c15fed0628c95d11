"""What each check explores.  tiers(tier, seed) -> design / generate / random jobs."""
HOOKS = None


def n(tier, quick, thorough):
    return quick if tier == "quick" else thorough


PROPS = {}


def prop(pid, **kw):
    kw.setdefault("driver", "core")
    kw.setdefault("level", "model_checking")
    kw.setdefault("assumptions", [])
    PROPS[pid] = kw


def cfg(consts, invs, init="Init", nxt="Next", **kw):
    s = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (init, nxt)
    for k, v in consts.items():
        s += "CONSTANT %s = %s\n" % (k, v)
    for i in invs:
        s += "INVARIANT %s\n" % i
    return s


for pid, mode, what, dq, dt in [("P01", "dec", "decimal", 5, 6), ("P02", "ts", "timestamp", 0, 0), ("P03", "uuid", "UUID", 0, 0), ("P04", "uv", "unit value", 5, 6)]:
    prop(pid, module="ValuesTrace",
         tiers=lambda tier, seed, pid=pid, mode=mode, dq=dq, dt=dt: {
             "generate": [{"module": "GenValues", "cfg": cfg({"Mode": '"%s"' % mode, "Depth": n(tier, dq, dt)}, ["DesignDec", "DesignTs", "DesignUv", "Emit"])}],
             "random": [(pid, n(tier, 12000, 200000))]},
         coverage_note="calls of the %s codec on every text of a small scope (written by the specification) and on random and mutated text; TLC decides each call from the text grammar and denotation in spec/Values.tla" % what)

prop("P32", module="SavedTrace",
     tiers=lambda tier, seed: {
         "generate": [{"module": "GenSaved", "cfg": cfg({}, ["Emit", "DesignSaved"]), "simulate": (1, n(tier, 3000, 40000)), "split": 4}]},
     coverage_note="schemas with something of everything, saved as JSON and loaded, and documents as another writer might leave them; generated by TLC walks of spec/GenSaved.tla, performed on the real types, decided by spec/Saved.tla")

prop("P33", module="OasDocTrace",
     tiers=lambda tier, seed: {
         "generate": [{"module": "GenOasDoc", "cfg": cfg({}, ["Emit", "DesignKept"]), "simulate": (1, n(tier, 3000, 40000)), "split": 4}]},
     coverage_note="OpenAPI 3 documents with something of everything, and documents that lack what they must say, loaded from JSON and YAML and written again; generated by TLC walks of spec/GenOasDoc.tla, performed on the real code, decided by spec/OasDoc.tla")

prop("P34", module="ProjectTrace",
     tiers=lambda tier, seed: {
         "generate": [{"module": "GenProject", "cfg": cfg({"Mode": '"P26"'}, ["Emit", "DesignSafe"], nxt="ProjNext"), "simulate": (1, n(tier, 2000, 25000)), "split": 4}]},
     coverage_note="histories of exports of Go and Java code into one directory that may hold files of the user, or something in the way; generated by TLC walks of spec/GenProject.tla, performed on the real generators in a scratch directory, decided by spec/Project.tla")

for pid, what, nq, nt in [
        ("P05", "schemas with and without clashing names, looked up by every name", 1500, 20000),
        ("P06", "types and values, mostly conforming with one flaw", 5000, 80000),
        ("P07", "types and variations of them", 5000, 80000),
        ("P08", "example targets: walks over the types and actions of a schema", 4000, 60000),
        ("P09", "schemas with inline enums whose names meet", 4000, 60000)]:
    prop(pid, module="ModelTrace",
         tiers=lambda tier, seed, pid=pid, nq=nq, nt=nt: {
             "generate": [{"module": "GenModel", "cfg": cfg({"Mode": '"%s"' % pid}, ["Emit", "DesignEquiv", "DesignInline"]), "simulate": (1, n(tier, nq, nt)), "split": 4}]
             + ([{"module": "GenModel", "cfg": cfg({"Mode": '"scope"'}, ["Emit"])}] if pid == "P06" else [])
             + ([{"module": "GenModel", "cfg": cfg({"Mode": '"tiny"'}, ["Emit"])}] if pid == "P07" else [])},
         coverage_note=what + "; generated by TLC walks of spec/GenModel.tla, performed on the real model, decided by spec/Model.tla")

for pid, what, nq, nt, dq, dt in [
        ("P10", "histories of the option store: puts (also through parts of it), loads, and every kind of read", 5000, 60000, 0, 0),
        ("P11", "histories of a file generator, with template errors, missing directories and a device that is full", 3000, 40000, 3, 4),
        ("P12", "comments laid out at every width", 8000, 120000, 0, 0)]:
    prop(pid, module="SupportTrace",
         tiers=lambda tier, seed, pid=pid, nq=nq, nt=nt, dq=dq, dt=dt: {
             "generate": [{"module": "GenSupport", "cfg": cfg({"Mode": '"%s"' % pid, "Depth": 0}, ["Emit"]), "simulate": (1, n(tier, nq, nt)), "split": 4}]
             + ([{"module": "GenSupport", "cfg": cfg({"Mode": '"P11x"', "Depth": n(tier, dq, dt)}, ["Emit"]) + "PROPERTY Sticky\nPROPERTY NoOverwrite\n"}] if pid == "P11" else [])},
         coverage_note=what + "; generated by TLC from spec/GenSupport.tla, performed on the real code, decided step by step by spec/Support.tla")

for pid, what, nq, nt in [
        ("P13", "schemas with every kind of type, exported to OpenAPI", 4000, 60000),
        ("P14", "http actions with inputs in every place, responses, exceptions and examples, exported to OpenAPI", 3000, 40000),
        ("P15", "OpenAPI documents of schemas, imported from JSON and YAML files", 4000, 50000),
        ("P16", "OpenAPI documents of operations, imported from JSON and YAML files", 3000, 40000),
        ("P17", "Swagger 2 documents, converted to OpenAPI 3 and imported", 3000, 40000),
        ("P18", "portable schemas, exported to OpenAPI and imported again", 3000, 40000)]:
    prop(pid, module="OpenApiTrace",
         tiers=lambda tier, seed, pid=pid, nq=nq, nt=nt: {
             "generate": [{"module": "GenOpenApi", "cfg": cfg({"Mode": '"%s"' % pid}, ["Emit", "DesignExport", "DesignRound"]), "simulate": (1, n(tier, nq, nt)), "split": 4}]},
         coverage_note=what + "; generated by TLC walks of spec/GenOpenApi.tla, performed on the real converters, decided by the conversions as functions in spec/OpenApi.tla")

for pid, what, nq, nt in [
        ("P19", "schemas, mostly of what GraphQL can say, exported with and without custom scalars", 6000, 80000),
        ("P20", "GraphQL documents with definitions of every kind, imported", 6000, 80000)]:
    prop(pid, module="GraphQLTrace",
         tiers=lambda tier, seed, pid=pid, nq=nq, nt=nt: {
             "generate": [{"module": "GenGraphQL", "cfg": cfg({"Mode": '"%s"' % pid}, ["Emit", "DesignExport"]), "simulate": (1, n(tier, nq, nt)), "split": 4}]},
         coverage_note=what + "; generated by TLC walks of spec/GenGraphQL.tla, performed on the real converters, decided by the conversions as functions in spec/GraphQL.tla")

for pid, what, nq, nt in [
        ("P21", "schemas whose generated Go is built, described by reflection, and given JSON values of its types", 800, 8000)]:
    prop(pid, module="GoGenTrace",
         tiers=lambda tier, seed, pid=pid, nq=nq, nt=nt: {
             "generate": [{"module": "GenGoGen", "cfg": cfg({"Mode": '"%s"' % pid}, ["Emit", "DesignAgain"]), "simulate": (1, n(tier, nq, nt)), "split": 4}]},
         coverage_note=what + "; generated by TLC walks of spec/GenGoGen.tla, performed on the real generator and its code, decided by spec/GoGen.tla")

for pid, what, nq, nt in [
        ("P22", "services whose generated Go server is built and given HTTP requests over loopback", 500, 6000),
        ("P23", "services whose generated Go client is built and calls an HTTP server over loopback", 500, 6000)]:
    prop(pid, module="GoHttpTrace",
         tiers=lambda tier, seed, pid=pid, nq=nq, nt=nt: {
             "generate": [{"module": "GenGoHttp", "cfg": cfg({"Mode": '"%s"' % pid}, ["Emit", "DesignThrough"], nxt="HttpNext"), "simulate": (1, n(tier, nq, nt)), "split": 4}]},
         coverage_note=what + "; generated by TLC walks of spec/GenGoHttp.tla, performed on the real generator and its code, decided by spec/GoHttp.tla")

prop("P24", module="HttpTraceTrace",
     tiers=lambda tier, seed: {
         "generate": [{"module": "GenHttpTrace", "cfg": cfg({"Mode": '"P24"'}, ["Emit", "DesignNames"], nxt="TraceNext"), "simulate": (1, n(tier, 3000, 40000)), "split": 4}]},
     coverage_note="actions with examples of requests, responses and exceptions, written as HTTP messages and read back; generated by TLC walks of spec/GenHttpTrace.tla, decided by spec/HttpTrace.tla")

prop("P25", module="JavaGenTrace",
     tiers=lambda tier, seed: {
         "generate": [{"module": "GenJavaGen", "cfg": cfg({"Mode": '"P25"'}, ["Emit", "DesignAgain"]), "simulate": (1, n(tier, 800, 8000)), "split": 4}]},
     coverage_note="schemas whose generated Java is compiled, described by reflection, and given JSON values of its types; generated by TLC walks of spec/GenJavaGen.tla, performed on the real generator and its code with stand-ins of Jackson and JAX-RS, decided by spec/JavaGen.tla")

for pid, what, nq, nt in [
        ("P26", "services whose generated Java server is compiled and given HTTP requests", 700, 7000),
        ("P27", "services whose generated Java client is compiled and calls an HTTP server", 700, 7000)]:
    prop(pid, module="JavaHttpTrace",
         tiers=lambda tier, seed, pid=pid, nq=nq, nt=nt: {
             "generate": [{"module": "GenJavaHttp", "cfg": cfg({"Mode": '"%s"' % pid}, ["Emit", "DesignThrough"], nxt="HttpNext"), "simulate": (1, n(tier, nq, nt)), "split": 4}]},
         coverage_note=what + "; generated by TLC walks of spec/GenJavaHttp.tla, performed on the real generator and its code with stand-ins of Jackson and JAX-RS, decided by spec/JavaHttp.tla")

for pid, what, nq, nt in [
        ("P28", "sources of random schemas in random layouts, parsed", 2000, 20000),
        ("P29", "sources that break one rule of the language, and some that break none", 3000, 30000),
        ("P30", "sources cut short or with tokens changed, and token sequences", 6000, 80000),
        ("P31", "parsed models written as source and parsed again", 2000, 20000)]:
    prop(pid, module="SadlTrace", driver="lang",
         tiers=lambda tier, seed, pid=pid, nq=nq, nt=nt: {
             "generate": [{"module": "GenSadl", "cfg": cfg({"Mode": '"%s"' % pid}, ["SEmit", "DesignSaid"], init="SadlInit", nxt="SadlNext"), "simulate": (1, n(tier, nq, nt)), "split": 4}]},
         coverage_note=what + "; written by TLC walks of spec/GenSadl.tla, performed on the real parser over a stand-in of the scanner module, decided by spec/Sadl.tla")

prop("P35", module="ExtendTrace", driver="lang",
     tiers=lambda tier, seed: {
         "generate": [{"module": "GenExtend", "cfg": cfg({}, ["Emit", "DesignStops"]), "simulate": (1, n(tier, 6000, 80000)), "split": 4}]},
     coverage_note="sources with directives of extensions between those of the language, in one file or two; written by TLC walks of spec/GenExtend.tla, performed on the real parser with extensions of the harness over a stand-in of the scanner module, decided by spec/Extend.tla")
