#!/usr/bin/env python3
"""Decides one property: symbolic execution of /repo's current code, replay of every
counterexample against the native build of the same code."""
import os, sys, json, time, subprocess, glob, shutil, re, resource, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from spec import SPEC

T0 = time.time()
VERIF = build.VERIF

def say(*a):
    print(*a, flush=True)

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def native(binary, entry, model_file, timeout=60):
    """(verdict, message, observations, output)"""
    try:
        p = subprocess.run([binary, entry, model_file], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, preexec_fn=limits, text=True, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return "timeout", "", [], out
    obs = [tuple(l[8:].split("\t")) for l in out.splitlines() if l.startswith("VRT-OBS ")]
    obs = [(o[0], o[1] if len(o) > 1 else "") for o in obs]
    msg = "; ".join(l for l in out.splitlines() if l.startswith(("VRT-VIOLATION", "VRT-PANIC", "VRT-DIVERGED")))
    v = {0: "ok", 3: "violation", 4: "assume", 6: "diverged"}.get(rc, "died" if rc < 0 or rc >= 128 else "rc%d" % rc)
    return v, msg, obs, out

def model_text(model):
    return "".join("%s\t%s\n" % (n, h) for n, h in model)

# set once a violation is confirmed: the remaining harnesses cannot change the verdict
STOP = {"now": False, "running": []}

def settled(r, kn, binary):
    """Does a native run confirm an unlisted violation?"""
    name = r["entry"]["name"]
    for k, v in enumerate(r.get("violations", [])):
        if v["kind"] == "hang" or (name, "%s: %s" % (v["kind"], v["msg"])) in kn:
            continue
        mf = os.path.join(build.BUILD, "first-%s-%d.model" % (name, k))
        with open(mf, "w") as f:
            f.write(model_text(v["model"]))
        if native(binary, name, mf)[0] in ("violation", "died"):
            return True
    return False

def stop_others():
    STOP["now"] = True
    for p in list(STOP["running"]):
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass

def run_entry(eng, bc, e, tier, seed, budget, workers):
    out = os.path.join(build.BUILD, "out-%s-%s" % (tier, e["name"]))
    for f in glob.glob(out + ".*"):
        os.remove(f)
    t = time.time()
    limit = min(e.get("timeout", 300) if tier == "quick" else e.get("thorough_timeout", 3 * e.get("timeout", 300)), budget)
    cmd = [eng, "--bc", bc, "--entry", e["name"], "--out", out, "--timeout", "%.0f" % limit, "--solver-ms", str(e.get("solver_ms", 60000)),
           "--workers", str(workers), "--max-steps", str(e.get("steps", 100_000_000)), "--max-viol", "4", "--samples", str(e.get("samples", 4)),
           "--seed", str(seed)]
    if STOP["now"]:
        return None
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    STOP["running"].append(p)
    log = p.communicate()[0]
    STOP["running"].remove(p)
    if STOP["now"]:
        return None
    parts = []
    for f in sorted(glob.glob(out + ".*")):
        try:
            parts.append(json.load(open(f)))
        except Exception as x:
            return {"entry": e, "error": "unreadable engine output %s: %s" % (f, x)}
    r = {"entry": e, "rc": p.returncode, "log": log[-2000:], "wall": time.time() - t}
    if p.returncode != 0 or not parts:
        r["error"] = "the engine failed (%s): %s" % (p.returncode, log[-1500:])
    for k in ("paths", "infeasible", "forks", "decisions", "steps", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_s"):
        r[k] = sum(x[k] for x in parts)
    for k in ("maxdepth", "max_query_s"):
        r[k] = max([x[k] for x in parts] or [0])
    for k in ("violations", "samples", "incomplete"):
        r[k] = [y for x in parts for y in x[k]]
    for k in ("reached", "functions"):
        r[k] = sorted({y for x in parts for y in x[k]})
    return r

def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names) + "\n", stdout=subprocess.PIPE, text=True)
        names = p.stdout.split("\n")
    except OSError:
        pass
    out = set()
    for n in names:
        n = re.sub(r"\[[0-9a-f]+\]", "", n)
        if re.match(r"^<*app::", n):
            out.add(n)
    return sorted(out)

def known(pid):
    k = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) what=(.*)$", l.strip())
            if m and m.group(1) == pid:
                k.append((m.group(2), m.group(3)))
    return k

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sp = SPEC[pid]
    total = 780 if tier == "quick" else sp.get("thorough_total", 7200)
    feature = sp["feature"]
    feats = feature + (",thorough" if tier == "thorough" else "")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    try:
        os.makedirs(build.BUILD, exist_ok=True)
        build.app_source()
        with cf.ThreadPoolExecutor(3) as ex:
            a, b, c = ex.submit(build.engine), ex.submit(build.harness, "sym", feats), ex.submit(build.harness, "native", feats)
            eng, bc, binary = a.result(), b.result(), c.result()
    except build.BuildError as x:
        say("error: " + str(x))
        return 2
    tb = time.time() - T0
    entries = [e for e in sp["entries"] if tier in e.get("tiers", ("quick", "thorough")) and (not only or e["name"] in only)]
    par = sp.get("parallel", max(1, min(4, len(entries))))
    workers = sp.get("workers", max(2, 9 // par))
    results = []
    kn = known(pid)
    with cf.ThreadPoolExecutor(par) as ex:
        def job(e):
            r = run_entry(eng, bc, e, tier, seed, max(20, total - (time.time() - T0)), workers)
            if r and settled(r, kn, binary):
                stop_others()
            return r
        results = [r for r in ex.map(job, entries) if r]
    # ---- verdict ---------------------------------------------------------
    problems, confirmed, findings, validated, mismatched = [], [], [], 0, 0
    samples_out = []
    shutil.rmtree(os.path.join(VERIF, "evidence", "replay-" + pid), ignore_errors=True)
    rdir = os.path.join(VERIF, "evidence", "replay-" + pid)
    for r in results:
        e = r["entry"]
        name = e["name"]
        if "error" in r:
            problems.append("%s: %s" % (name, r["error"]))
            if "violations" not in r:
                continue
        vs = sorted(r["violations"], key=lambda v: v["kind"] == "hang")
        for k, v in enumerate(vs[:8]):
            os.makedirs(rdir, exist_ok=True)
            mf = os.path.join(rdir, "%s-%d.model" % (name, k))
            with open(mf, "w") as f:
                f.write(model_text(v["model"]))
            verdict, msg, _, out = native(binary, name, mf, 30 if v["kind"] == "hang" else 60)
            ok = verdict == "violation" or verdict == "died" or verdict == "timeout"
            what = "%s: %s" % (v["kind"], v["msg"])
            with open(os.path.join(rdir, "%s-%d.txt" % (name, k)), "w") as f:
                f.write("property %s, harness %s\n%s\n\ninputs (name, bytes):\n%s\nreplay: %s %s %s\nnative verdict: %s %s\n\nstack:\n%s\n\nnative output:\n%s\n" % (
                    pid, name, what, model_text(v["model"]), binary, name, mf, verdict, msg, "\n".join(v["stack"]), out[-4000:]))
            if ok:
                hit = [x for x in kn if x[0] == name and x[1] == what]
                if hit:
                    findings.append("%s %s" % (name, what))
                else:
                    confirmed.append((name, what, msg or verdict, mf))
            else:
                problems.append("%s: counterexample did not reproduce natively (%s %s): %s" % (name, verdict, msg, what))
        inc = [x for x in r["incomplete"] if x != "stopped after violations"]
        if inc:
            problems.append("%s: not complete: %s" % (name, "; ".join(sorted(set(inc)))[:1200]))
        if r["paths"] == 0:
            problems.append("%s: no path was completed" % name)
        if not r["violations"]:
            for tag in e.get("reach", []):
                if tag not in r["reached"]:
                    problems.append("%s: never reached '%s'" % (name, tag))
        # the same paths natively: the observations have to agree
        n = 0
        for k, s in enumerate(r["samples"][: e.get("validate", 6)]):
            mf = os.path.join(build.BUILD, "sample-%s-%d.model" % (name, k))
            with open(mf, "w") as f:
                f.write(model_text(s["model"]))
            verdict, msg, obs, out = native(binary, name, mf)
            if verdict == "ok" and obs == [tuple(o) for o in s["obs"]]:
                validated += 1
            elif not r["violations"]:
                mismatched += 1
                problems.append("%s: native run of a sample differs: %s %s model=%s engine=%s native=%s" % (name, verdict, msg, s["model"], s["obs"][:20], obs[:20]))
            if n < 2 and s["model"]:
                n += 1
                samples_out.append({"harness": name, "inputs": s["model"], "observed": s["obs"][:12]})
    wall = time.time() - T0
    good = [r for r in results if "paths" in r]
    sm = lambda k: sum(r[k] for r in good)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": sp.get("level", "model_checking"),
        "coverage": {
            "states": sm("paths"), "transitions": sm("decisions"), "traces_validated_against_impl": validated,
            "samples": samples_out or [{"harness": r["entry"]["name"], "inputs": [], "observed": r["reached"]} for r in good],
            "exhaustive": not problems and not confirmed,
            "explanation": "states = feasible paths of the harnesses over the compiled code, transitions = solver-decided branches; every path is decided for all values of its symbolic inputs",
            "functions_encoded": demangle(sorted({f for r in good for f in r["functions"]})),
            "bounds": sp["bounds"], "outside": sp.get("outside", ""),
            "queries": sm("queries"), "queries_sat": sm("sat"), "queries_unsat": sm("unsat"), "queries_unknown": sm("unknown"), "query_cache_hits": sm("cache_hits"),
            "solver_s": round(sm("solver_s"), 3), "max_query_s": max([r["max_query_s"] for r in good] or [0]),
            "instructions": sm("steps"), "infeasible_paths": sm("infeasible"), "build_s": round(tb, 1),
            "harnesses": [{"name": r["entry"]["name"], "what": r["entry"].get("what", ""), "paths": r["paths"], "forks": r["forks"], "queries": r["queries"],
                           "solver_s": round(r["solver_s"], 3), "wall_s": round(r["wall"], 1), "reached": r["reached"], "maxdepth": r["maxdepth"]} for r in good],
            "native_mismatches": mismatched, "known_findings": findings, "problems": problems,
        },
        "assumptions": sp.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": len(confirmed),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for r in good:
        say("%-28s paths %d, forks %d, queries %d (%.1f s solver), %.1f s; reached %s" % (r["entry"]["name"], r["paths"], r["forks"], r["queries"], r["solver_s"], r["wall"], ",".join(r["reached"])))
    for f in sorted(set(findings)):
        say("KNOWN-FINDING: property=%s %s" % (pid, f))
    for p in problems:
        say("problem: " + p)
    for name, what, msg, mf in confirmed:
        say("%s: %s (native: %s)" % (name, what, msg))
    if confirmed:
        say("VIOLATION property=%s replay=%s" % (pid, confirmed[0][3]))
        return 1
    if problems:
        return 2
    say("property %s held on everything explored (%.0f s, build %.0f s)" % (pid, wall, tb))
    return 0

if __name__ == "__main__":
    sys.exit(main())
