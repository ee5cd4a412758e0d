#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--survey]

Decides one property: model-checks the specification modules behind it (exhaustively, within the constants of
their configurations), runs the driver of the property against the code in /repo, and has TLC decide whether the
recorded histories are behaviours of the specification.  Exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import argparse, concurrent.futures as cf, itertools, json, os, re, shutil, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib.registry import CHECKS
from lib import gen

SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MAX_VIOL = 3


class ToolError(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "", "timeout"


def cargo_env():
    return {"CARGO_TARGET_DIR": os.path.join(BUILD, "target"), "CARGO_NET_OFFLINE": "true", "PROJ_NETWORK": "OFF",
            "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
            "RUSTFLAGS": "-Awarnings"}


def build(crate, bin_, features=(), env=None, profile="dev"):
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", profile, "--bin", bin_] + (["--features", ",".join(features)] if features else [])
    rc, out, err = sh(cmd, 850, dict(cargo_env(), **(env or {})), crate)
    if rc != 0:
        raise ToolError("cargo build failed in %s (rc %s)\n%s" % (crate, rc, err[-6000:]))


_meta = itertools.count(1)   # next() is atomic


def tlc(module, cfg, work, timeout, env=None, workers=1, heap="3g", extra=()):
    meta = os.path.join(work, "meta%d_%d" % (os.getpid(), next(_meta)))
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra, "-config", cfg, module + ".tla"]
    tmp = meta + "t"
    os.makedirs(tmp)
    cmd.insert(1, "-Djava.io.tmpdir=" + tmp)
    rc, out, err = sh(cmd, timeout, env, SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    return rc, out + err


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace("generated ", "generated, ") if False else out)
    ms = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    g, s = (int(ms[-1][0]), int(ms[-1][1])) if ms else (0, 0)
    return g, s, int(d.group(1)) if d else 0


def validate(args):
    """Validates one trace file; returns (states, transitions, [(line, reason)])."""
    spec, path, work, timeout, maxv = args
    lines = open(path).read().split("\n")[:-1]
    starts = [i for i, x in enumerate(lines) if '"e":"new"' in x or '"new":true' in x]
    start, bad, st, tr = 1, [], 0, 0
    while start <= len(lines):
        rc, out = tlc(spec, spec + ".cfg", work, timeout, {"TRACE": path, "START": str(start)})
        g, s, depth = stats(out)
        st += s
        tr += max(g - 1, 0)
        if rc == 0:
            break
        if rc is None:
            raise ToolError("TLC timed out on %s" % path)
        if "Accepted" in out and "is false" in out and depth:
            line, why = start + depth - 1, "no action of the specification accepts this event"
        elif "Invariant" in out and "is violated" in out:
            m = re.findall(r"/\\ l = (\d+)", out)
            line, why = int(m[-1]) - 1 if m else start, re.search(r"Invariant (\w+) is violated", out).group(0)
        elif re.search(r"Error: (Attempted to|The error occurred when TLC was evaluating|Evaluating|In evaluation|TLC threw)", out) and "StackOverflow" not in out and "OutOfMemory" not in out and re.search(r"/\\ l = (\d+)", out):
            # values of a kind that the specification has no meaning for (a history the real code must not produce)
            line, why = int(re.findall(r"/\\ l = (\d+)", out)[-1]), "the specification is not defined for this event"
        else:
            raise ToolError("TLC failed on %s (rc %s)\n%s" % (path, rc, out[-3000:]))
        bad.append((line, why))
        if len(bad) >= maxv:
            break
        nxt = [i + 1 for i in starts if i + 1 > line]
        if not nxt:
            break
        start = nxt[0]
    return path, st, tr, bad, len(lines)


def scenario_of(path, line):
    lines = open(path).read().split("\n")
    k = line - 1
    while k > 0 and '"e":"new"' not in lines[k] and '"new":true' not in lines[k]:
        k -= 1
    return lines[k:line]


def modelcheck(args):
    m, work, tier = args
    rc, out = tlc(m["module"], m.get("cfg", m["module"] + ".cfg"), work, 800, {"TIER": tier}, workers=m.get("workers", 2), heap=m.get("heap", "4g"))
    g, s, d = stats(out)
    if rc != 0:
        raise ToolError("model %s: TLC rc %s (the specification itself fails)\n%s" % (m["module"], rc, out[-3000:]))
    return {"model": m["module"], "cfg": m.get("cfg"), "distinct_states": s, "transitions": g, "depth": d}


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def match_known(prop, scen):
    ev = json.loads(scen[-1])
    for k in known():
        if k.get("property") == prop and k.get("kind") == "finding" and all(ev.get(f) == v for f, v in k["match"].items()):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--survey", action="store_true", help="report every violation, for triage")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier, seed = a.property, a.tier, a.seed
    c = CHECKS[prop]
    work = os.path.join(BUILD, "work", os.environ.get("PV_TAG", "") + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "assumptions": c.get("assumptions", []), "violations": 0}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0, "models": [], "samples": []}
    viol = []   # (what, replay lines)

    ctx = {"prop": prop, "tier": tier, "seed": seed, "work": work, "here": HERE, "build": build, "sh": sh, "tlc": tlc,
           "cargo_env": cargo_env, "ToolError": ToolError, "cov": cov, "validate": validate}
    pool = cf.ThreadPoolExecutor(max_workers=8)
    # the models are independent of the code: start them while the harness builds
    mcs = [pool.submit(modelcheck, (m, work, tier)) for m in c.get("models", []) if tier == "thorough" or not m.get("thorough")]
    cases = None
    if "cases" in c:  # behaviours enumerated by TLC, to be replayed into the code
        cases = gen.cases(ctx, c["cases"])
    crate = os.path.join(HERE, c.get("crate", "harness"))
    benv = getattr(gen, c["prepare"])(ctx) if "prepare" in c else None
    exe = os.path.join(BUILD, "target", "debug", c["bin"])
    try:
        build(crate, c["bin"], c.get("features", ()), benv)
    except ToolError as e:
        # programs generated for the check that the code under test must accept
        if not benv or not all(m in str(e) for m in ("-->", "could not compile `pvderive` (bin \"%s\")" % c["bin"])) or list(benv.values())[0] not in str(e):
            raise
        print("VIOLATION property=%s replay=%s" % (prop, report(prop, seed, tier, 0, "a valid program is not accepted", c.get("trace"), [json.dumps({"compiler": str(e)[:3000]})])))
        print("  a valid program is not accepted: %s" % str(e)[:1500])
        return 1
    tdir = os.path.join(work, "traces")
    os.makedirs(tdir)
    cmd = [exe, c.get("driver", prop), str(seed), tier, tdir] + ([cases] if cases else [])
    rc, out, err = sh(cmd, 600, cargo_env())
    runs = [(seed, tdir, rc, out, err)]
    if rc == 0 and (tier == "thorough" or c.get("optimized")) and not benv:
        # once more with other choices, and without overflow checks and debug assertions: what must not depend on them
        build(crate, c["bin"], c.get("features", ()), benv, "fast")
        tdir = os.path.join(work, "traces_fast")
        os.makedirs(tdir)
        cmd = [os.path.join(BUILD, "target", "fast", c["bin"]), c.get("driver", prop), str(seed + 1000), tier, tdir] + ([cases] if cases else [])
        runs.append((seed + 1000, tdir) + sh(cmd, 600, cargo_env()))
        cov["optimized_build"] = True
    traces, summary = [], {}
    for seed_, tdir, rc, out, err in runs:
        collect(prop, seed_, tdir, rc, out, err, traces, summary, viol)
    maxv = 1000 if a.survey else 20
    futs = [pool.submit(validate, (c.get("trace", "TraceBuffer"), t, work, 800, maxv)) for t in traces]
    seen_known = {}
    for f in futs:
        path, st, tr, bad, n = f.result()
        cov["states"] += st
        cov["transitions"] += tr
        cov["events_validated"] += n
        for line, why in bad:
            sc = scenario_of(path, line)
            k = match_known(prop, sc)
            if k:
                seen_known[k["id"]] = k
            else:
                viol.append((why, sc))
    for f in mcs:
        r = f.result()
        cov["models"].append(r)
        cov["states"] += r["distinct_states"]
        cov["transitions"] += r["transitions"]
    cov["traces_validated_against_impl"] = summary.get("scenarios", len(traces))
    cov["driver_summary"] = {k: v for k, v in summary.items() if k not in ("files",)}
    for t in traces[:1]:
        with open(t) as fh:
            cov["samples"] = [json.loads(x) for x in [fh.readline() for _ in range(4)] if x.strip()]
    if all(r[2] == 0 for r in runs) and not cov["events_validated"]:
        raise ToolError("no events recorded")
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev["violations"] = len(viol)
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for i, (why, sc) in enumerate(viol[: (60 if a.survey else MAX_VIOL)]):
        rp = report(prop, seed, tier, i, why, c.get("trace"), sc)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  %s: %s" % (why, (sc[-1] if sc else "")[:600]))
    if not viol:
        print("OK property=%s events=%d scenarios=%d models=%s wall=%.0fs" % (prop, cov["events_validated"], cov["traces_validated_against_impl"], [(m["model"], m["distinct_states"]) for m in cov["models"]], ev["wall_s"]))
    sys.stdout.flush()
    return 1 if viol else 0


def collect(prop, seed, tdir, rc, out, err, traces, summary, viol):
    """The traces of one run of a driver, and what its end says."""
    new = sorted(os.path.join(tdir, f) for f in os.listdir(tdir) if f.endswith(".ndjson"))
    if rc is None or rc == 97:
        viol.append(("a call of the code under test did not return (driver %s, seed %d)" % (prop, seed), tail_scen(new)))
    elif rc < 0:
        viol.append(("the code under test killed the process with signal %d (driver %s, seed %d)" % (-rc, prop, seed), tail_scen(new)))
    elif rc == 101 and "os error" not in err:
        # a panic where every call is one that must succeed (setting up valid layouts, buffers, points)
        m = re.search(r"panicked at [^\n]*\n[^\n]*", err)
        viol.append(("a call that must succeed panicked: %s (driver %s, seed %d)" % (m.group(0).replace("\n", " ") if m else "", prop, seed), tail_scen(new)))
    elif rc != 0:
        raise ToolError("driver rc %s\n%s" % (rc, err[-4000:]))
    if new and rc != 0:
        cut_tail(new[-1])
    if rc == 0:
        for k, v in json.loads(out.strip().split("\n")[-1]).items():
            summary[k] = summary[k] + v if k in summary and isinstance(v, (int, list)) else v
    traces += new


def report(prop, seed, tier, i, why, spec, sc):
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, "%s_%d.json" % (prop, i))
    with open(rp, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "why": why, "spec": spec, "scenario": [json.loads(x) for x in sc if x.strip()]}, f, indent=1)
    return rp


def tail_scen(traces):
    if not traces:
        return []
    cut = open(traces[-1]).read().split("\n")
    return scenario_of(traces[-1], max(1, len(cut) - 1))


def cut_tail(path):
    """Drops an incomplete last line."""
    s = open(path).read()
    k = s.rfind("\n")
    open(path, "w").write(s[: k + 1])


if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        print("CHECK-ERROR: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
