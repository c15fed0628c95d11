#!/usr/bin/env python3
"""Tries small changes of /repo (made by ./main.go) against the checks; run by hand, never by a check.
   run.py LANE LANES N OUT FILE=P01,P02 ...  - in a private mount namespace (unshare -Urm), copies of /repo and /verif
   bound over the real ones; N changes per file at most, taken evenly."""
import json, os, re, subprocess, sys, shutil, time
LANE, LANES, N, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
FILES = [a.split("=") for a in sys.argv[5:]]
if os.environ.get("IN_NS") != "1":
    base = "/tmp/lane%d" % LANE
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
    subprocess.run(["cp", "-a", "/verif", base + "/verif"], check=True)
    os.environ["IN_NS"] = "1"
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && exec python3 /verif/tools/mutate/run.py "$@"' % (base, base), "x"] + sys.argv[1:])
    shutil.rmtree(base, ignore_errors=True)
    sys.exit(r.returncode)
def sh(c, t=900):
    try:
        return subprocess.run(c, shell=True, executable="/bin/bash", capture_output=True, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired:
        return None
env = "cd /repo; . /opt/vp/env.sh; pkgs=$(packages); "
job = 0
for f, props in FILES:
    muts = [json.loads(l) for l in sh("cd /verif/tools/mutate && go run . /repo/" + f).stdout.splitlines()]
    if len(muts) > N:
        muts = [muts[i * len(muts) // N] for i in range(N)]
    src = open("/repo/" + f, "rb").read()
    for m in muts:
        job += 1
        if job % LANES != LANE:
            continue
        open("/repo/" + f, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
        line = src[:m["start"]].count(b"\n")
        what = "%s:%d %s | %s" % (f, m["line"], m["what"], src.split(b"\n")[line].decode().strip()[:110])
        res = "SURVIVED"
        try:
            r = sh(env + 'go build -overlay "$OVERLAY" $(grep -v "/sadl/test$" <<< "$pkgs") && go test -vet=off -overlay "$OVERLAY" $pkgs', 300)
            base = set()
            if r is None or "build failed" in r.stdout or "build failed" in r.stderr or (r.returncode and not r.stdout):
                res = "nobuild"
            elif "--- FAIL" in r.stdout or "panic:" in r.stdout:
                fails = {l.split()[2] for l in r.stdout.splitlines() if l.startswith("--- FAIL")}
                res = "tests" if fails else "SURVIVED"
            if res == "SURVIVED":
                for p in props.split(","):
                    c = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py " + p)
                    if c is None or c.returncode not in (0, 1):
                        res = "NOANSWER %s %s" % (p, "" if c is None else (c.stdout + c.stderr)[-300:].replace("\n", " / "))
                        break
                    if c.returncode == 1:
                        n = re.search(r"rejected=(\d+)", c.stdout)
                        res = "caught %s by %s" % (p, n.group(1) if n else "?")
                        break
        finally:
            open("/repo/" + f, "wb").write(src)
        with open(OUT, "a") as o:
            o.write("%s\t%s\n" % (res, what))
