#!/usr/bin/env python3
"""seed.py SCRATCH [id...]: makes /verif/seeded/<id> from seeds.py and seeds/, keeping those that build, pass the tests and are told apart by their demonstration."""
import glob, json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import S
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
W = os.path.abspath(sys.argv[1])
names = sys.argv[2:]
os.makedirs(W, exist_ok=True)
R = W + "/repo"
if not os.path.exists(R):
    subprocess.run(["cp", "-a", "/repo", R], check=True)
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=R, env=dict(os.environ, CARGO_TARGET_DIR=R + "/target", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only"), **kw)
for s in S:
    if names and not any(s["id"] == n or (n.endswith("*") and s["id"].startswith(n[:-1])) for n in names):
        continue
    sh("git checkout -q -- . && git clean -fdq")
    d = W + "/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(T + "/seeds/" + s["id"] + ".rs", d + "/demo.rs")
    shutil.copy(T + "/seeds/support.rs", d + "/support.rs")
    shutil.copy(T + "/seeds/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d)
    if r0.returncode:
        print(s["id"], "DEMO FAILS UNCHANGED\n", r0.stdout[-3000:], flush=True)
        continue
    for f, old, new in s["edits"]:
        p = R + "/src/" + f
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f)
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    r = sh("cargo build --workspace --bins --tests --offline -q && cargo test --offline -q")
    if r.returncode:
        print(s["id"], "TESTS FAIL\n", r.stdout[-3000:], flush=True)
        continue
    r1 = sh("bash %s/demo.sh" % d)
    if r1.returncode == 0 or r1.returncode in (98, 99):
        print(s["id"], "DEMO DOES NOT FAIL", r1.returncode, r1.stdout[-1500:], flush=True)
        continue
    o = V + "/seeded/" + s["id"]
    shutil.rmtree(o, ignore_errors=True)
    shutil.copytree(d, o)
    print(s["id"], "ok", r1.returncode, flush=True)
