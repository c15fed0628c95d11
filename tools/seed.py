#!/usr/bin/env python3
"""seed.py ID PROPERTY PKG: makes seeded/ID from a patched scratch copy /tmp/seed/repo and /tmp/seed/demo_test.go,
after confirming that it builds, passes the stable tests, and that the demo tells the difference.
   reads /tmp/seed/needs and /tmp/seed/breaks"""
import sys, os, subprocess, json, shutil
ID, PROP, PKG = sys.argv[1:4]
W = "/tmp/seed/repo"
D = "/verif/seeded/" + ID


def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


diff = sh("git diff HEAD", W).stdout
assert diff.strip(), "no change"
os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(diff)
shutil.copy("/tmp/seed/demo_test.go", D + "/demo_test.go")
open(D + "/pkg", "w").write(PKG + "\n")
shutil.copy("/verif/tools/demo.sh", D + "/demo.sh")
json.dump({"property": PROP, "needs": open("/tmp/seed/needs").read().strip(), "what_it_breaks": open("/tmp/seed/breaks").read().strip()}, open(D + "/meta.json", "w"), indent=1)
ok = sh("bash %s/demo.sh" % D, "/repo")
bad = sh("bash %s/demo.sh" % D, W)
print("clean:", ok.returncode, "patched:", bad.returncode)
if ok.returncode != 0:
    print(ok.stdout[-1500:], ok.stderr[-1500:])
if bad.returncode == 0 or "build failed" in bad.stdout:
    print(bad.stdout[-1500:])
print(bad.stdout[:400])
assert sh("git apply --check %s/patch.diff" % D, "/repo").returncode == 0
assert sh("git apply %s/patch.diff" % D, "/repo").returncode == 0
try:
    b = sh("bash /opt/vp/build.sh", "/repo")
    t = sh("bash /opt/vp/test.sh /tmp/seed/t.json", "/repo")
    base = json.load(open("/opt/vp/BASELINE.json"))
    print("build:", b.returncode, b.stdout[-300:], "tests:", t.returncode, open("/tmp/seed/t.json").read()[:400].replace("\n", " "))
    c = sh("python3 check.py " + PROP, "/verif")
    print("CHECK", ID, PROP, "exit", c.returncode, [l for l in c.stdout.splitlines()][-2:], c.stderr[-1500:] if c.returncode not in (0, 1) else "")
finally:
    sh("git checkout -- .", "/repo")
