#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: python3 tools/catalog.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, note=None, level="model_checking", technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, note=note, level=level, technique=technique))


p("P01", "Decimal text and JSON denote the same number, exactly",
  "Every decimal numeral of up to 70 significant digits parses to a Decimal whose String and JSON forms are the same plain positional numeral of exactly that number (a JSON number, no exponent, no rounding), and which reads back as itself; text that is not a decimal numeral (including infinities) is an error and never a value. AsInt64, AsInt32 and AsFloat64 give the number truncated or the nearest float, and DecimalValue gives its first argument, or the default of any integer or float type, unchanged.",
  ["inputs"], "for every text, JSON number and default value",
  "The tests parse two or three numerals; the property is over all numerals, signs, exponents and lengths.",
  ["decimal.go"], [("ParseDecimal", "decimal.go"), ("Decimal.MarshalJSON/UnmarshalJSON", "decimal.go"), ("DecimalValue", "decimal.go")])
p("P02", "Timestamps keep the instant, to the millisecond, through text and JSON",
  "Text is accepted as a Timestamp exactly when it is a real calendar date and time yyyy-mm-ddThh:mm:ss with optional fraction and a zone that says UTC (Z, +00:00, -00:00, +0000, -0000), and then denotes that instant. A Timestamp of any zone prints, in String and in JSON, as the same instant in UTC with four digit year and exactly three fraction digits (truncated), which reads back as that instant; the zero time prints as the empty string.",
  ["inputs"], "for every text, and every instant of the years 0 to 9999 in every zone",
  "The tests parse a few fixed stamps; leap days, zones, fraction lengths and field ranges are unbounded.",
  ["timestamp.go"], [("ParseTimestamp", "timestamp.go"), ("Timestamp.String/MarshalJSON/UnmarshalJSON", "timestamp.go")])
p("P03", "Only canonical 8-4-4-4-12 hexadecimal text is a UUID",
  "ParseUUID and decoding JSON accept a text exactly when it has 36 characters with hyphens at the four standard positions and hexadecimal digits (either case) everywhere else, and then return it unchanged; everything else, and JSON that is not a string, is refused.",
  ["inputs"], "for every text", "The tests use one good UUID; the property is over every position and character.",
  ["uuid.go"], [("ParseUUID", "uuid.go"), ("UUID.UnmarshalJSON", "uuid.go")])
p("P04", "A UnitValue is a number, a space and a unit, kept intact",
  "Text is a UnitValue exactly when it is a decimal numeral, one space, and a nonempty unit (everything after that first space); value and unit are then what was written. String gives text of the same number and unit, the JSON form is one valid JSON string of exactly that text whatever characters the unit has, and both read back as the same number and unit.",
  ["inputs"], "for every number and unit text", "The tests use one or two unit values; quoting, signs, exponents and units with spaces are never tried.",
  ["unitvalue.go"], [("ParseUnitValue", "unitvalue.go"), ("UnitValue.String/MarshalJSON/UnmarshalJSON", "unitvalue.go")])
p("P05", "A model indexes exactly what its schema declares",
  "NewModel succeeds exactly when no two types have the same name, no type has the name of a base type, and no two http actions have the same name. FindType of a declared or base type name, and FindHttp of a declared action name, then give that declaration unchanged, every other name gives nothing, and the model's schema is the schema it was made from.",
  ["inputs"], "for every schema and every name looked up", "The tests build a handful of schemas without clashes.",
  ["model.go"], [("NewModel", "model.go"), ("Model.FindType/FindHttp", "model.go")])
p("P06", "A value validates exactly when it conforms to the type",
  "Validate and ValidateAgainstTypeSpec accept a value if and only if it conforms: the right kind of value; numbers within the declared min and max and within the range of the integer type, without fraction for integer types; strings within minsize and maxsize, among the declared values, else matching the pattern; symbols of enums; well formed UUIDs and Timestamps; UnitValues whose number and unit conform to their types; arrays and maps within their sizes with all items conforming; structs with every required field, no undeclared field, and conforming fields; unions as an object with exactly one key naming a variant and a conforming value. Types named but not declared conform to nothing; Any and Bytes accept everything.",
  ["inputs", "programs"], "for every schema, type and value", "The tests validate about a dozen fixed values; every limit of every type at every nesting is out of reach.",
  ["model.go"], [("Model.Validate", "model.go"), ("Model.ValidateAgainstTypeSpec", "model.go"), ("Model.ValidateStruct/Union/Array/Map/String/Number/UnitValue", "model.go")])
p("P07", "Equivalent types are those with the same constraints and structure",
  "EquivalentTypes holds between two type specs exactly when they have the same base type, the same limits (sizes and numeric bounds compared by value), pattern, set of string values, reference, items and keys equivalent by name, the same set of enum symbols, the same set of variant names and types, and the same fields (name, required, equivalent type) in order; comments, annotations and defaults do not matter. It is reflexive and symmetric, and by name it is true of a name and itself and false when either of two different names is undefined.",
  ["inputs"], "for every schema and pair of types", "No test compares types other than equal or differing in one way.",
  ["model.go"], [("Model.EquivalentTypes", "model.go"), ("Model.EquivalentTypesByName", "model.go")])
p("P08", "An example target denotes the field it names",
  "FindExampleType resolves a dotted target by following struct fields, through declared struct types, from a type, or from the inputs of action 'x' for 'XRequest' and its expected outputs for 'XResponse', to exactly the type of the last field named; a bare request or response gives no type and no error. A target whose first name is unknown, that names a field or parameter that does not exist, or that passes through something that is not a struct is an error.",
  ["inputs", "programs"], "for every schema and target path", "The tests have one or two targets of depth one.",
  ["model.go"], [("Model.FindExampleType", "model.go")])
p("P09", "Inline enums become declared types without changing the model",
  "ConvertInlineEnums replaces every struct field with an inline enum by a reference to a declared enum of the same symbols named after the type and field (field name capitalised, prefixed by the type name unless it already starts with it), declaring each name once, in order, findable by name, and leaves everything else as it was. When a name is already taken by a type that is not equivalent it is an error and the schema is unchanged.",
  ["inputs", "programs"], "for every schema", "One test refactors one schema.",
  ["model.go"], [("Model.ConvertInlineEnums", "model.go")])
p("P10", "The option store gives back what was put, along every path",
  "After any history of puts, puts through a part of the store, and loads, Get of a path of keys gives exactly the value last put there or nothing when any key on the way is missing; Has, the typed getters (strings, booleans, integers, floats, arrays, string arrays, maps, parts) and the generator's configuration lookups with a default give the conversion of that value, or the zero value or default when there is none. The store's JSON reads back as what it holds.",
  ["histories"], "for every sequence of operations", "No test of the repository puts more than one option, or looks up a path.",
  ["data.go", "struct_helpers.go", "generator.go"], [("Data.Put/Get/Has", "data.go"), ("AsString/AsBool/AsInt...", "struct_helpers.go"), ("Generator.GetConfigString/Bool/Int", "generator.go")])
p("P11", "A generator's errors stick and it never overwrites unasked",
  "Text emitted, directly or by template, since Begin is exactly what End returns, in order; a template that fails adds nothing and sets the error; once the error is set it stays set and End returns nothing. WriteFile writes exactly the content to a new file, leaves an existing file as it is unless force-overwrite is set (then replaces all of it), and a file that cannot be created or written sets the error.",
  ["histories", "fault_sequences"], "for every sequence of operations, with failing templates, missing directories and full devices",
  "No test exercises a failed write, an existing file or a failed template.",
  ["generator.go"], [("Generator.Begin/Emit/End", "generator.go"), ("Generator.EmitTemplate", "generator.go"), ("Generator.WriteFile", "generator.go")])
p("P12", "Comments are wrapped without losing or changing a word",
  "FormatComment gives lines that all start with the indent and prefix and whose texts, joined by single spaces, are exactly the comment; no line is longer than the width unless it is a single word, and none is broken before it has to be. A comment with line breaks gives exactly a line for each of its lines, and one with no room to wrap gives one line; padding adds one bare prefix line before and after.",
  ["inputs"], "for every comment, indent, prefix and width", "No test lays out a comment.",
  ["misc.go"], [("FormatComment", "misc.go")])

EXTRA = os.path.join(HERE, "tools", "catalog_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

TECH = "TLA+ specification; TLC generates behaviours, the real code performs them, TLC validates the recorded events"
NOTE = "Every recorded call of the real code is decided by TLC against the specification; exhaustive over a small scope where one is given, sampled beyond it (seeded TLC walks)."
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        assert len(x["title"]) <= 80, x["id"]
man = {"version": 1, "setup_cmd": "python3 check.py setup",
       "hooks": {"guard": "none", "enable": "no hooks: the drivers use the public API only", "source_commits": []},
       "checks": [{"property": x["id"], "quick_cmd": "python3 check.py %s" % x["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % x["id"],
                   "technique": x["technique"] or TECH, "level": x["level"], "level_note": x["note"] or NOTE} for x in P],
       "not_applicable": globals().get("NOT_APPLICABLE", []),
       "notes": "See DESIGN.md. Known findings and fixes: known_findings.jsonl."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
