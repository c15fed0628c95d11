"""stubs.txt -> one file per class: python3 split.py OUTDIR"""
import os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
for block in re.split(r"^//// ", open(os.path.join(here, "stubs.txt")).read(), flags=re.M)[1:]:
    name, text = block.split("\n", 1)
    pkg, cls = name.strip().rsplit(".", 1)
    d = os.path.join(sys.argv[1], *pkg.split("."))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, cls + ".java"), "w") as f:
        f.write("package %s;\n%s" % (pkg, text))
