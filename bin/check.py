#!/usr/bin/env python3
"""check.py ID: decides one property.

Builds the driver from /repo's working tree, checks the property's design models with TLC, lets the driver
record executions of the real code, and has TLC validate each recorded trace against the specification.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself failed."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, checks

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
EXE = os.path.join(build.WORK, "vdrive")


class Broken(Exception):
    pass


def tlc(spec, cfg, tmp, env, workers=1, timeout=800, heap="2g"):
    md = tempfile.mkdtemp(dir=tmp, prefix="md")
    jt = os.path.join(md, "tmp")
    os.makedirs(jt)
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + jt, "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, "-config", cfg, spec]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on %s" % spec)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return out


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def run_model(m, tmp):
    """A design-level model: every reachable state of a bounded instance satisfies its invariants."""
    out = tlc(m["spec"] + ".tla", m.get("cfg", m["spec"]) + ".cfg", tmp, {}, workers=m.get("workers", 4), timeout=m.get("timeout", 700), heap="4g")
    if "Model checking completed. No error has been found" not in out:
        raise Broken("the model %s does not satisfy its invariants:\n%s" % (m["spec"], out[-3000:]))
    return counts(out)


def run_job(j, tmp, n):
    """One recorded execution (several histories) and its validation."""
    d = os.path.join(tmp, "j%d" % n)
    os.makedirs(os.path.join(d, "scratch"))
    tr = os.path.join(d, "trace.ndjson")
    cmd = [EXE, j["cmd"]] + ["%s=%s" % kv for kv in j["args"].items()]
    full = cmd + ["scratch=" + os.path.join(d, "scratch"), "out=" + tr]
    r = {"job": j, "cmd": cmd, "trace": tr, "events": 0, "hists": 0, "ok": False, "states": 0, "why": "", "line": 0, "find": []}
    try:
        p = subprocess.run(full, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=j.get("timeout", 400))
        rc, err = p.returncode, p.stderr.decode("utf-8", "replace")[-3000:]
    except subprocess.TimeoutExpired:
        rc, err = -99, "the driver did not finish: a call hangs"
    lines = open(tr, errors="replace").read().split("\n") if os.path.exists(tr) else []
    lines = [x for x in lines if x]
    r["events"] = len(lines)
    r["hists"] = max(1, sum(1 for x in lines if x.startswith('{"op":"Reset"')))
    shutil.rmtree(os.path.join(d, "scratch"), ignore_errors=True)
    if rc == 2:
        raise Broken("driver error: %s\n%s" % (" ".join(cmd), err))
    if rc != 0:
        r["why"] = "driver ended with status %d: %s" % (rc, err[-1500:])
        r["line"] = len(lines)
        return r
    if not lines:
        raise Broken("no events recorded: " + " ".join(cmd))
    for x in lines:
        if x.startswith('{"op":"Finding"'):
            r["find"].append(json.loads(x))
    if j.get("spec"):
        out = tlc(j["spec"] + ".tla", j.get("cfg", j["spec"]) + ".cfg", tmp, {"TRACE": tr}, timeout=j.get("tlctimeout", 800), heap=j.get("heap", "2g"))
        r["states"] = counts(out)[0]
        if '<<"CONSUMED", %d>>' % len(lines) in out and "Error:" not in out:
            r["ok"] = True
        else:
            m = re.search(r"MISMATCH .*", out)
            s = re.search(r'<<"STUCK", (\d+), (\d+)>>', out)
            if not m and not s:
                if j.get("spec") and "Error: " in out and "MISMATCH" not in out:
                    raise Broken("TLC failed on %s\n%s\n%s" % (tr, " ".join(cmd), out[-2500:]))
            r["why"] = (m.group(0) if m else out[-800:])[:1500]
            r["line"] = int(s.group(1)) if s else 0
    else:
        r["ok"] = True
    return r


def save_replay(pid, r, k):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%d.json" % k)
    lines = open(r["trace"], errors="replace").read().split("\n") if os.path.exists(r["trace"]) else []
    end = r["line"] or len(lines)
    beg = end
    while beg > 1 and not lines[min(beg, len(lines)) - 1].startswith('{"op":"Reset"'):
        beg -= 1
    json.dump({"property": pid, "why": r["why"], "driver": r["cmd"], "spec": r["job"].get("spec"), "event": end,
               "how": "python3 bin/build.py; run the driver command with scratch=<new dir> out=<trace>; TRACE=<trace> tlc -config spec/<spec>.cfg spec/<spec>.tla",
               "history": lines[max(0, beg - 1):end][-400:]}, open(f, "w"), indent=1)
    return f


def known():
    f = os.path.join(VERIF, "known_findings.txt")
    res = {}
    if os.path.exists(f):
        for x in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", x)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ok, log = build.build()
    if not ok:
        print("the harness does not build from /repo:\n" + log[-4000:])
        return 2
    tb = time.time() - t0
    c = checks.get(pid, tier, seed)
    tmp = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=build.WORK)
    shutil.rmtree(os.path.join(VERIF, "replays", pid), ignore_errors=True)
    results, models, bad = [], [], None
    try:
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            fm = [(m, ex.submit(run_model, m, tmp)) for m in c.get("models", [])]
            fj = [ex.submit(run_job, j, tmp, n) for n, j in enumerate(c["jobs"])]
            try:
                for f in concurrent.futures.as_completed(fj):
                    r = f.result()
                    results.append(r)
                    kf = known()
                    for x in r["find"]:
                        if x["fails"] and (pid, x["key"]) not in kf:
                            r["ok"], r["why"] = False, "finding %s: %s" % (x["key"], x.get("what", ""))
                    if not r["ok"]:
                        bad = r
                        break
                    if os.path.exists(r["trace"]) and len(results) > 3:
                        shutil.rmtree(os.path.dirname(r["trace"]), ignore_errors=True)
                if bad is None:
                    models = [(m, f.result()) for m, f in fm]
            finally:
                for f in fj:
                    f.cancel()
                for _, f in fm:
                    f.cancel()
        viol = None
        if bad:
            viol = save_replay(pid, bad, 1)
            print("%s" % bad["why"])
            print("driver: %s" % " ".join(bad["cmd"]))
        shown = set()
        for r in results:
            for x in r["find"]:
                if x["fails"] and (pid, x["key"]) in known() and x["key"] not in shown:
                    shown.add(x["key"])
                    print("KNOWN-FINDING: property=%s %s: %s" % (pid, x["key"], known()[(pid, x["key"])]))
        samples = []
        for r in results[:3]:
            if os.path.exists(r["trace"]):
                samples.append({"driver": " ".join(["vdrive"] + r["cmd"][1:]), "events": [x[:300] for x in open(r["trace"], errors="replace").read().split("\n")[:6] if x]})
        cov = {"states": sum(m[1][0] for m in models) + sum(r["states"] for r in results),
               "transitions": sum(m[1][1] for m in models) + sum(r["events"] for r in results),
               "traces_validated_against_impl": sum(r["hists"] for r in results if r["ok"]),
               "trace_events": sum(r["events"] for r in results),
               "models": [{"spec": m["spec"], "cfg": m.get("cfg", m["spec"]), "states_generated": s[0], "distinct_states": s[1]} for m, s in models],
               "jobs": len(results), "build_s": round(tb, 1), "samples": samples}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "violation": bad["why"] if bad else None, "wall_s": round(time.time() - t0, 1)},
                  open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        if viol:
            print("VIOLATION property=%s replay=%s" % (pid, viol))
            return 1
        print("%s held: %d traces, %d events, %d model states, %.0f s (build %.0f s)" %
              (pid, cov["traces_validated_against_impl"], cov["trace_events"], sum(m[1][1] for m in models), time.time() - t0, tb))
        return 0
    except Broken as e:
        print("CHECK BROKEN: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
