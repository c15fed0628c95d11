#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.jsonl from /repo's fix: commits (run by hand after a commit)."""
import subprocess, re, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("Timestamp.String", "P02"), ("ParseUUID", "P03"), ("UnitValue.Marshal", "P04"), ("ParseDecimal", "P01"), ("DecimalValue", "P06"), ("fraction", "P06"),
       ("Union value", "P06"), ("ValidateUnitValue", "P06"), ("ValidateTimestamp", "P06"), ("bare Array", "P06"), ("Data.Get", "P10"), ("options can be put", "P10"),
       ("WriteFile", "P11"), ("EquivalentTypes", "P07"), ("ConvertInlineEnums", "P09"), ("FindExampleType", "P08")]
MAP = [(k, v) for k, v in MAP]
extra = os.path.join(HERE, "tools", "fixed_more.txt")
if os.path.exists(extra):
    MAP = [tuple(l.rstrip("\n").split("\t")) for l in open(extra) if l.strip()] + MAP
p = os.path.join(HERE, "known_findings.jsonl")
keep = [l for l in open(p)] if os.path.exists(p) else []
keep = [l for l in keep if not l.startswith("fixed:")]
out = []
for line in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    pid = next((v for k, v in MAP if k in s), None)
    if pid is None:
        raise SystemExit("which property? " + s)
    out.append("fixed: property=%s %s %s\n" % (pid, h, s[5:]))
open(p, "w").writelines(out + keep)
