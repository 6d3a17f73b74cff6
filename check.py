#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [quick|thorough].
  1. mirror /repo's working tree, build the driver of the area against it
  2. the driver exercises the real code and records a trace (ndjson, one event per line)
  3. TLC validates the trace against the specification (specs/Trace_*.tla) and model-checks the
     design (specs/MC_*.tla), concurrently
  4. verdict, evidence, replay file
Exit 0 held / 1 VIOLATION / 2 the check itself failed."""
import sys, os, subprocess, json, time, re, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from registry import CHECKS
import mirror
BUILD = os.path.join(ROOT, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception): pass

def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e

def build(driver):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror.main()
        p = subprocess.run(["cargo", "build", "-q", "--offline", "--workspace", "--bin", driver], cwd=os.path.join(ROOT, "harness"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=850)
        if p.returncode != 0:
            errs = [l for l in p.stdout.splitlines() if l.startswith("error")]
            raise ToolError("build of %s failed: %s\n%s" % (driver, "; ".join(errs[:5]), p.stdout[-3000:]))
        return os.path.join(BUILD, "target", "debug", driver)

def tlc(module, cfg, meta, extra_env=None, workers="1", timeout=600, heap="3g", args=()):
    shutil.rmtree(meta, ignore_errors=True); os.makedirs(meta)
    e = env(); e.update(extra_env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-workers", workers, "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.join(ROOT, "specs"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")), -1
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r = dict(module=module, cfg=cfg, rc=rc, out=out, secs=round(time.time() - t0, 1), generated=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0,
             clean="Model checking completed. No error has been found." in out)
    shutil.rmtree(meta, ignore_errors=True)
    return r

def findings(pid):
    res = {}
    p = os.path.join(ROOT, "known-findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid: res[m.group(2)] = m.group(3).strip()
    return res

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    t0 = time.time()
    run = os.path.join(BUILD, "run", pid)
    shutil.rmtree(run, ignore_errors=True); os.makedirs(run)
    big = tier == "thorough"
    ex = ThreadPoolExecutor(8)
    # design models, while the driver builds and runs
    designs = []
    for m in c["design"]:
        cfg = m + ".cfg"
        if big and os.path.exists(os.path.join(ROOT, "specs", m + "_big.cfg")): cfg = m + "_big.cfg"
        designs.append(ex.submit(tlc, m + ".tla", cfg, os.path.join(run, "meta-" + m), None, "4", 850 if not big else 3 * 3600, "6g" if big else "3g"))
    drivers = c["driver"] if isinstance(c["driver"], list) else [c["driver"]]
    drvs = [build(d) for d in drivers]
    t_build = time.time() - t0
    problems = []       # (what, detail dict)
    for drv in drvs:
        try:
            p = subprocess.run([drv, pid, str(seed), tier, run], cwd=run, env=dict(env(), RUST_BACKTRACE="0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600 if not big else 2 * 3600, errors="replace")
            drc, dout = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            drc, dout = "timeout", str(x.stdout)[-2000:]
        if drc == 2: raise ToolError("driver: " + dout[-2000:])
        if drc != 0: problems.append(("the code under test stopped the driver (%s)" % drc, dict(output=dout[-3000:])))
    t_drv = time.time() - t0
    # trace validation
    jobs = []
    for spec, pat in c["traces"]:
        for f in sorted(glob.glob(os.path.join(run, pat))):
            jobs.append((spec, f, ex.submit(tlc, spec + ".tla", spec + ".cfg", os.path.join(run, "meta-" + os.path.basename(f)), {"TRACE": f}, "1", 800 if not big else 3 * 3600, "4g")))
        if not glob.glob(os.path.join(run, pat)): problems.append(("no trace recorded for " + spec, {}))
    known, lines, samples, states, trans, nfiles = {}, 0, [], 0, 0, 0
    table = findings(pid)
    for spec, f, j in jobs:
        r = j.result()
        tl = open(f).read().splitlines(); lines += len(tl); nfiles += 1
        if tl: samples.append(json.loads(tl[min(len(tl) - 1, seed % max(1, len(tl)))]))
        states += r["distinct"]; trans += r["generated"]
        bad = {}
        for m in re.finditer(r'<<"BADLINE", (\d+), (.*?)>>', r["out"], re.S): bad.setdefault(int(m.group(1)), m.group(2).strip())
        for m in re.finditer(r'<<"KNOWN", "([^"]+)", (\d+)', r["out"]):
            k, i = m.group(1), int(m.group(2))
            known.setdefault(k, []).append(i)
            if k not in table: bad.setdefault(i, "deviation " + k)
        for i, why in sorted(bad.items())[:20]:
            ctx = []
            for q in range(i - 1, max(-1, i - 400), -1):
                if q < len(tl): ctx.append(tl[q])
                if q < len(tl) and '"reset"' in tl[q]: break
                if q < i - 1 and c.get("table"): break
            problems.append(("trace line %d rejected by %s: %s" % (i, spec, why), dict(line=tl[i - 1] if i <= len(tl) else "", context=[x[:2000] for x in reversed(ctx)][-60:])))
        if not r["clean"] and not bad:
            err = "\n".join(l for l in r["out"].splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))
            if r["rc"] == -1 or "OutOfMemory" in err or "Parse Error" in err or "Semantic errors" in err or "Could not find" in err: raise ToolError("TLC on %s: %s" % (spec, err[-3000:]))
            problems.append(("trace not explained by %s" % spec, dict(tlc=err[-3000:])))
    dres = [d.result() for d in designs]
    for d in dres:
        if not d["clean"]:
            raise ToolError("design model %s: %s" % (d["module"], d["out"][-3000:]))
        states += d["distinct"]; trans += d["generated"]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=nfiles, trace_events_validated=lines,
                            design_models=[dict(model=d["module"], cfg=d["cfg"], distinct=d["distinct"], generated=d["generated"]) for d in dres],
                            known_findings_seen={k: len(v) for k, v in known.items()}, samples=samples[:6]),
              wall_s=round(time.time() - t0, 1), violations=len(problems), assumptions=c.get("assumptions", []))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(known):
        if k in table: print("KNOWN-FINDING: property=%s %s [%s, seen %d times]" % (pid, table[k], k, len(known[k])))
    print("%s %s: %d events in %d traces, %d distinct states, build %.1fs drive %.1fs total %.1fs" % (pid, tier, lines, nfiles, states, t_build, t_drv - t_build, time.time() - t0))
    if problems:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        rp = os.path.join(ROOT, "replays", pid + ".json")
        json.dump(dict(property=pid, seed=seed, tier=tier, rerun="VERIF_SEED=%d python3 /verif/check.py %s %s" % (seed, pid, tier), problems=[dict(what=w, **d) for w, d in problems]), open(rp, "w"), indent=1)
        for w, d in problems[:8]: print("  " + w[:600]); print("    " + str(d.get("line", d.get("output", d.get("tlc", ""))))[:600])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except ToolError as x:
        print("TOOL ERROR:", x); sys.exit(2)
    except subprocess.TimeoutExpired as x:
        print("TOOL ERROR: timeout", x); sys.exit(2)
