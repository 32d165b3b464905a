#!/usr/bin/env python3
"""mutate.py SCRATCH [--tests] [--seeds|--refactors] [name...]: tries the changes of mutants.py (or the planted bugs of seeds.py) in a scratch copy and says which checks notice.
The checks are run from a copy of /verif made at the start, so that editing can go on."""
import os, shutil, subprocess, sys, time
T = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, T)
V = os.path.dirname(T)
if len(sys.argv) < 2 or sys.argv[1].startswith("-"):
    sys.exit(__doc__)
W = os.path.abspath(sys.argv[1])
names = sys.argv[2:]
tests, seeds, refactors = "--tests" in names, "--seeds" in names, "--refactors" in names
names = [n for n in names if not n.startswith("--")]
if seeds:
    from seeds import S
    M = [(s["id"], s["property"], s["edits"]) for s in S]
elif refactors:
    from refactors import R
    from refactors2 import R2
    M = R + R2
else:
    from mutants import M as MM
    from mutants2 import M2
    M = [(n, props, [(f, old, new)]) for n, props, f, old, new in MM] + M2
os.makedirs(W, exist_ok=True)
if not os.path.exists(W + "/build"):
    subprocess.run(["cp", "-a", V + "/.build", W + "/build"], check=True)
C = W + "/verif"
shutil.rmtree(C, ignore_errors=True)
shutil.copytree(V, C, ignore=lambda d, fs: [f for f in fs if f in (".git", ".build", "seeded", "__pycache__")], symlinks=True)
for n, props, edits in M:
    if names and not any(n == x or (x.endswith("*") and n.startswith(x[:-1])) for x in names):
        continue
    shutil.rmtree(W + "/repo", ignore_errors=True)
    os.makedirs(W + "/repo")
    shutil.copytree("/repo/src", W + "/repo/src")
    for x in ("Cargo.toml", "Cargo.lock"):
        shutil.copy("/repo/" + x, W + "/repo/" + x)
    bad = False
    for f, old, new in edits:
        p = W + "/repo/src/" + f
        t = open(p).read()
        if isinstance(old, tuple):  # from the first text up to, without, the second; (): the whole file
            a = t.index(old[0]) if old else 0
            old = t[a:t.index(old[1], a) if old[1] else None] if old else t
        if t.count(old) != 1:
            print(n, "DOES NOT APPLY", t.count(old), flush=True)
            bad = True
            break
        open(p, "w").write(t.replace(old, new))
    if bad:
        continue
    if tests:
        r = subprocess.run(["cargo", "test", "--offline", "-q"], cwd=W + "/repo", env=dict(os.environ, CARGO_TARGET_DIR=W + "/tt"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(n, "TESTS FAIL\n", r.stdout[-1500:], flush=True)
            continue
    for pid in props.split(","):
        s = time.time()
        r = subprocess.run([sys.executable, C + "/checks/run.py", pid], env=dict(os.environ, VERIF_REPO=W + "/repo", VERIF_BUILD=W + "/build"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        open("%s/out-%s-%s.txt" % (W, n.replace(":", "_"), pid), "w").write(r.stdout)
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "error"))]
        good = (r.returncode == 0) if n.startswith(("b:", "r-", "r2-")) else (r.returncode == 1)
        print("%-4s %-24s %s rc=%d %.0fs %s" % ("" if good else "!!", n, pid, r.returncode, time.time() - s, (v or [""])[0][:150]), flush=True)
