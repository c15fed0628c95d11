#!/usr/bin/env python3
"""Decide one property of boynton/sadl:  python3 check.py P01

1. build the driver from /repo's working tree (scratch directory, removed at the end)
2. TLC checks the specification itself (design models), counting states
3. cases: behaviours generated by TLC from the specification (exhaustive small scope
   and -simulate walks), and random ones of the driver's generators
4. the driver performs the cases on the real code, recording events
5. TLC validates every recorded event against the specification
Exit 0: all events are behaviours of the specification.  Exit 1: VIOLATION line(s).
Anything else (build failure, TLC failure) is an error of the check: exit 2.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(HERE, "spec")
EVID = os.path.join(HERE, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from props import PROPS, HOOKS  # noqa: E402


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def go_env():
    e = dict(os.environ)
    root = "/opt/veriftools/go1.27.3"
    if os.path.isdir(root):
        e["PATH"] = root + "/bin:" + e.get("PATH", "")
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="0", GO111MODULE="on", GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    return e


def build(driver, scratch):
    """the driver, from /repo's working tree"""
    src = os.path.join(scratch, "harness")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(HERE, "harness"), src)
        shutil.copytree(os.path.join(HERE, "standin"), os.path.join(scratch, "standin"))
    out = os.path.join(scratch, driver)
    attempts = [[]]
    if driver == "core":
        attempts.append(["-overlay", os.path.join(src, "overlay_core.json")])
    errs = []
    for extra in attempts:
        r = subprocess.run(["go", "build"] + extra + ["-o", out, "./" + driver], cwd=src, env=go_env(), capture_output=True, text=True)
        if r.returncode == 0:
            return out
        errs.append(r.stderr)
    raise CheckError("cannot build the driver:\n" + "\n".join(errs))


def tlc(scratch, name, module_text, cfg, args=(), env=None, workers="8", timeout=800, heap="4g"):
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    with open(os.path.join(d, name + ".tla"), "w") as f:
        f.write(module_text)
    with open(os.path.join(d, name + ".cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + d, "-Dtlc2.TLC.ide=vf",
           "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", JAR, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-workers", workers, "-config", name + ".cfg"] + list(args) + [name + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + name)
    finally:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return r


def counts(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states", out)
    if m:
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))
    m = re.findall(r"The number of states generated: (\d+)", out)
    if m:
        return int(m[-1]), int(m[-1])
    return 0, 0


def tla_unescape(s):
    return json.loads('"' + s + '"')


def spec_cases(scratch, job, seed):
    """cases written by the specification: PrintT("CASE " \\o ToJson(...)) lines"""
    args = list(job.get("args", []))
    if "simulate" in job:
        num, depth = job["simulate"]
        args += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    mod = job["module"]
    text = "---- MODULE GenRun ----\nEXTENDS %s\n====\n" % mod
    r = tlc(scratch, "GenRun", text, job["cfg"], args, env=job.get("env"), workers="1" if "simulate" in job else job.get("workers", "1"), timeout=job.get("timeout", 600))
    cases, seen = [], set()
    for m in re.finditer(r'^"CASE (.*)"$', r.stdout, re.M):
        c = tla_unescape(m.group(1))
        if c not in seen:
            seen.add(c)
            cases.append(c)
    if r.returncode not in (0,) or (not cases and not job.get("maybe_empty")):
        raise CheckError("TLC generation from %s failed (%s):\n%s" % (mod, r.returncode, tail(r.stdout)))
    g, d = counts(r.stdout)
    return cases, g, d


def parts(job):
    """a long walk as several shorter ones, side by side"""
    k = job.get("split", 1)
    if "simulate" not in job or k == 1:
        return [job]
    num, depth = job["simulate"]
    return [dict(job, simulate=(num, max(depth // k, 2))) for _ in range(k)]


def tail(s, n=60):
    lines = [l for l in s.splitlines() if not re.match(r"(Parsing|Semantic|Linting|\"CASE)", l)]
    at = next((i for i, l in enumerate(lines) if "rror" in l), 0)
    return "\n".join(lines[at:at + 25])[:2500] + "\n...\n" + "\n".join(lines)[-1500:]


def design(scratch, job):
    mod = job["module"]
    text = "---- MODULE DesignRun ----\nEXTENDS %s\n====\n" % mod
    r = tlc(scratch, "DesignRun", text, job["cfg"], job.get("args", []), workers=job.get("workers", "4"), timeout=job.get("timeout", 600))
    if r.returncode != 0:
        raise CheckError("the specification does not satisfy its own design model %s (%s):\n%s" % (mod, r.returncode, tail(r.stdout)))
    return counts(r.stdout)


def perform(binary, scratch, cases_path, n):
    """run the driver over all cases; a case that kills it is an observation"""
    out = os.path.join(scratch, "events.ndjson")
    start, crashes = 0, 0
    if os.path.exists(out):
        os.remove(out)
    env = go_env()
    env["VF_HARNESS"] = os.path.join(scratch, "harness")
    env["TMPDIR"] = os.path.join(scratch, "tmp")
    os.makedirs(env["TMPDIR"], exist_ok=True)
    env["GOMAXPROCS"] = "4"
    env["VF_JAVA"] = "1"
    while start < n:
        r = subprocess.run([binary, "-cases", cases_path, "-out", out, "-from", str(start)], capture_output=True, text=True, errors="replace", env=env, cwd=env["TMPDIR"])
        done = sum(1 for _ in open(out)) if os.path.exists(out) else 0
        if r.returncode == 0:
            if done != n:
                raise CheckError("driver finished early: %d of %d events\n%s" % (done, n, r.stderr[-2000:]))
            break
        if r.returncode == 98 and done:  # so much output that something is wrong: judge what there is
            with open(cases_path) as f:
                lines = f.readlines()[:done]
            with open(cases_path, "w") as f:
                f.writelines(lines)
            log("stopped after %d cases: too much output" % done)
            break
        if r.returncode == 3 or (done >= n):
            raise CheckError("driver failed: " + r.stderr[-3000:])
        with open(cases_path) as f:
            for i, line in enumerate(f):
                if i == done:
                    c = json.loads(line)
                    break
        kind = "hang" if r.returncode == 97 else "crash"
        ev = {"id": done, "op": c["op"], "in": c["in"], "out": {"st": kind, "msg": ascii_only(r.stderr[:300])}}
        with open(out, "a") as f:
            f.write(json.dumps(ev) + "\n")
        start = done + 1
        crashes += 1
        if crashes > 12:  # enough of them
            with open(cases_path) as f:
                lines = f.readlines()[:start]
            with open(cases_path, "w") as f:
                f.writelines(lines)
            break
    return out


def ascii_only(s):
    return "".join(ch if 32 <= ord(ch) < 127 else "?" for ch in s)


TRACE = """---- MODULE TraceRun ----
EXTENDS %s, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VF_TRACE)
K == %d
VARIABLE l
Init == l \\in (1 - K)..0
Next == /\\ l + K <= Len(Trace)
        /\\ l' = l + K
        /\\ IF Allowed(Trace[l']) THEN TRUE ELSE PrintT("REJECT " \\o ToString(l') \\o " " \\o Why(Trace[l']))
====
"""


def validate(scratch, module, events_path, k=8):
    """indices (0 based) of the events that are not behaviours of the specification"""
    with open(events_path) as f:
        lines = f.readlines()
    bad = {}
    index = list(range(len(lines)))
    states = 0
    for attempt in range(12):
        p = os.path.join(scratch, "trace-%s.ndjson" % module)
        with open(p, "w") as f:
            f.writelines(lines[i] for i in index)
        if not index:
            return bad, states
        kk = min(k, len(index))
        r = tlc(scratch, "TraceRun", TRACE % (module, kk), "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", env={"VF_TRACE": p}, heap="12g")
        for m in re.finditer(r'^"REJECT (\d+) (.*)"$', r.stdout, re.M):
            bad[index[int(m.group(1)) - 1]] = m.group(2)
        g, d = counts(r.stdout)
        if r.returncode == 0:
            states += d
            if d != len(index) + kk:
                raise CheckError("trace not fully consumed: %d states for %d events\n%s" % (d, len(index), tail(r.stdout)))
            return bad, states
        # an event the specification cannot even evaluate: its shape is not one the specification knows
        m = re.findall(r"^(?:/\\ )?l = (-?\d+)", r.stdout, re.M)
        if not m or "rror" not in r.stdout or "evaluat" not in r.stdout:
            raise CheckError("TLC failed on the trace of %s (%s)\n%s\n%s" % (module, r.returncode, tail(r.stdout), r.stderr[-1000:]))
        at = int(m[-1]) + kk
        if os.environ.get("VF_DEBUG"):
            log(tail(r.stdout))
        bad[index[at - 1]] = "outside the types of the specification: " + ascii_only(tail(r.stdout))[:600]
        del index[at - 1]
    return bad, states


def short(v):
    """without the empty parts, for reading"""
    if isinstance(v, dict):
        return {k: short(x) for k, x in v.items() if x not in ("", [], False)}
    if isinstance(v, list):
        return [short(x) for x in v]
    return v


def known_findings():
    p = os.path.join(HERE, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                res.append(json.loads(line))
    return res


def matches(finding, ev):
    """a finding names the operation and a predicate on the event"""
    if finding["op"] != ev["op"]:
        return False
    if "in" in finding:
        return finding["in"] == ev["in"]
    return False


def run(pid):
    t0 = time.time()
    prop = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVID, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    try:
        return run_in(pid, prop, tier, seed, scratch, t0)
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            log("kept", scratch)


def run_in(pid, prop, tier, seed, scratch, t0):
    binary = build(prop["driver"], scratch)
    log("built %.1fs" % (time.time() - t0))
    t = prop["tiers"](tier, seed)
    t["generate"] = [p for j in t.get("generate", []) for p in parts(j)]
    states = trans = 0
    samples = []
    cases = []
    origin = []
    with cf.ThreadPoolExecutor(6) as ex:
        dj = [ex.submit(design, scratch, j) for j in t.get("design", [])]
        gj = [(j, ex.submit(spec_cases, scratch, j, seed * 1000 + i)) for i, j in enumerate(t["generate"])]
        for f in dj:
            g, d = f.result()
            states += d
            trans += g
        for j, f in gj:
            cs, g, d = f.result()
            states += d
            trans += g
            for c in cs:
                cases.append(c)
            origin.append({"source": "TLC behaviours of " + j["module"], "cases": len(cs)})
    nspec = len(cases)
    log("spec: %d states, %d cases %.1fs" % (states, nspec, time.time() - t0))
    for name, n in t.get("random", []):
        p = os.path.join(scratch, "gen.ndjson")
        if os.path.exists(p):
            os.remove(p)
        r = subprocess.run([binary, "-gen", name, "-n", str(n), "-seed", str(seed), "-out", p], capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("generator failed: " + r.stderr)
        with open(p) as f:
            cs = [l.strip() for l in f]
        cases += cs
        origin.append({"source": "random histories (%s, seed %d)" % (name, seed), "cases": len(cs)})
    cp = os.path.join(scratch, "cases.ndjson")
    with open(cp, "w") as f:
        for c in cases:
            f.write(c + "\n")
    events = perform(binary, scratch, cp, len(cases))
    log("performed %d cases %.1fs" % (len(cases), time.time() - t0))
    with open(events) as f:
        evs = [json.loads(l) for l in f]
    bad, tstates = validate(scratch, prop["module"], events)
    log("validated, %d rejected %.1fs" % (len(bad), time.time() - t0))
    states += tstates
    trans += tstates
    known, viol = [], []
    if bad:
        order = sorted(bad)[:200]
        rp = os.path.join(scratch, "again.ndjson")
        with open(rp, "w") as f:
            for i in order:
                f.write(json.dumps({"op": evs[i]["op"], "in": evs[i]["in"]}) + "\n")
        again = set()
        for attempt in range(6):  # a rejection counts only if the real code does it again, in a fresh process
            ev2 = perform(binary, scratch, rp, len(order))
            bad2, _ = validate(scratch, prop["module"], ev2)
            again |= set(bad2)
            if len(again) >= min(len(order), 5):
                break
        if not again:  # it may take what came before: all of it again, in a fresh process
            hp = os.path.join(scratch, "history.ndjson")
            with open(hp, "w") as f:
                for e in evs[:order[-1] + 1]:
                    f.write(json.dumps({"op": e["op"], "in": e["in"]}) + "\n")
            bad2, _ = validate(scratch, prop["module"], perform(binary, scratch, hp, order[-1] + 1))
            again = {j for j, i in enumerate(order) if i in bad2}
        if not again:
            raise CheckError("events were rejected but are not reproduced: %s" % json.dumps(evs[order[0]])[:2000])
        kf = [k for k in known_findings() if k["property"] == pid]
        for j, i in enumerate(order):
            if j not in again:
                continue
            hit = [k for k in kf if matches(k, evs[i])]
            if hit:
                known.append(hit[0])
            else:
                viol.append(i)
    for k in {json.dumps(k, sort_keys=True) for k in known}:
        k = json.loads(k)
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        sums = {}
        for i in viol:
            sums[bad[i][:70]] = sums.get(bad[i][:70], 0) + 1
        log(json.dumps(sums, indent=1))
    for i in viol[:5]:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        rp = os.path.join(EVID, "replay", "%s-%d.json" % (pid, i))
        with open(rp, "w") as f:
            json.dump({"property": pid, "driver": prop["driver"], "op": evs[i]["op"], "in": evs[i]["in"], "observed": evs[i]["out"], "why": bad[i]}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        log(json.dumps(short(evs[i]))[:1500], "\n  why:", bad[i][:600])
    ops = {}
    for e in evs:
        k = e["op"] + ":" + str(e["out"].get("st"))
        ops[k] = ops.get(k, 0) + 1
    for k in sorted(ops):
        for e in evs:
            if e["op"] + ":" + str(e["out"].get("st")) == k and len(json.dumps(e)) < 3000:
                samples.append(e)
                break
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": prop["level"],
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": len(evs),
            "spec_generated_cases": nspec, "random_cases": len(evs) - nspec if len(evs) > nspec else 0,
            "cases_by_origin": origin, "events_by_operation_and_outcome": ops, "samples": samples[:8],
            "distinct_cases": len(set(cases)),
            "explanation": prop["coverage_note"],
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("property=%s tier=%s seed=%d states=%d events=%d rejected=%d known=%d wall=%.1fs" % (pid, tier, seed, states, len(evs), len(viol), len(known), time.time() - t0))
    return 1 if viol else 0


def replay(path):
    """run one recorded case again and say whether it is still rejected"""
    c = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        b = build(c["driver"], scratch)
        p = os.path.join(scratch, "c.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps({"op": c["op"], "in": c["in"]}) + "\n")
        ev = perform(b, scratch, p, 1)
        bad, _ = validate(scratch, PROPS[c["property"]]["module"], ev)
        print(open(ev).read())
        print("rejected: " + bad[0] if bad else "accepted")
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    try:
        if sys.argv[1] == "setup":  # warm the build cache, and see that the tools are there
            scratch = tempfile.mkdtemp(prefix="vf-setup-")
            try:
                for d in sorted({p["driver"] for p in PROPS.values()}):
                    build(d, scratch)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            subprocess.run(["java", "-version"], check=True, capture_output=True)
            sys.exit(0)
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(run(sys.argv[1]))
    except CheckError as e:
        log("CHECK ERROR:", e)
        sys.exit(2)


if __name__ == "__main__":
    main()
