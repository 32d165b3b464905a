"""Builds the program under test twice from /repo's current source: as LLVM bitcode for the
symbolic executor and as a native program for replays."""
import os, re, shutil, subprocess, sys, glob, json, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

class BuildError(Exception):
    pass

def run(cmd, cwd=None, env=None, what="command"):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path, errors="replace") as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)

def engine():
    out = os.path.join(BUILD, "llsym")
    srcs = glob.glob(os.path.join(VERIF, "engine", "src", "*.rs"))
    if not os.path.exists(out) or any(os.path.getmtime(s) > os.path.getmtime(out) for s in srcs):
        run(["bash", os.path.join(VERIF, "engine", "build.sh"), BUILD], what="building the engine")
    return out

def app_source():
    """Copy of /repo/src as a library: modules public, std replaced by vstd (which re-exports std
    except for hash maps, threads and blocking synchronisation). Nothing else is changed. The regex
    crate is built without its "perf" feature (hand-written SIMD, same results)."""
    dst = os.path.join(BUILD, "app", "src")
    src = os.path.join(REPO, "src")
    keep = set()
    for root, _, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            with open(p, "rb") as fh:
                data = fh.read()
            if f.endswith(".rs"):
                t = data.decode()
                t = re.sub(r"(?<![A-Za-z0-9_])std(?=\s*::)", "vstd", t)
                t = re.sub(r"(?m)^\s*(?:pub(?:\([a-z]+\))?\s+)?mod\s+(\w+)\s*;", r"pub mod \1;", t)
                if rel == "main.rs":
                    rel = "lib.rs"
                    t = "#![allow(warnings)]\n" + t + "\n#[allow(unused_must_use)]\npub fn vh_main() { let _ = main(); }\n"
                write(os.path.join(dst, rel), t)
            else:
                os.makedirs(os.path.dirname(os.path.join(dst, rel)), exist_ok=True)
                with open(os.path.join(dst, rel), "wb") as fh:
                    fh.write(data)
            keep.add(rel)
    for root, _, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), dst)
            if rel not in keep:
                os.remove(os.path.join(root, f))
    rt = os.path.join(VERIF, "rt")
    write(os.path.join(BUILD, "app", "Cargo.toml"), f"""[package]
name = "app"
version = "0.1.0"
edition = "2021"
[lib]
path = "src/lib.rs"
[dependencies]
vstd = {{ path = "{rt}/vstd" }}
sha2 = "0.9.2"
hyper = {{ version = "0.14.20", features = ["client", "http1", "tcp", "server"] }}
regex = {{ version = "1.6.0", features = ["std"], default-features = false }}
tokio = {{ version = "1.20.1", features = ["rt-multi-thread", "net", "io-util", "sync"] }}
serde = {{ version = "1.0.142", features = ["derive"] }}
serde_json = "1.0.83"
""")

def manifest(kind):
    rt = os.path.join(VERIF, "rt")
    feats = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(VERIF, "harness", "src", "c[0-9]*.rs"))) + ["idioms"]
    lib = f"""[lib]
path = "{VERIF}/harness/src/lib.rs"
crate-type = ["{'staticlib' if kind == 'sym' else 'rlib'}"]
"""
    binp = "" if kind == "sym" else f"""[[bin]]
name = "replay"
path = "{VERIF}/harness/src/main.rs"
"""
    return f"""[package]
name = "vh"
version = "0.1.0"
edition = "2021"
autobins = false
{lib}
{binp}
[features]
thorough = []
{chr(10).join(f + " = []" for f in feats)}
[dependencies]
app = {{ path = "{BUILD}/app" }}
vrt = {{ path = "{rt}/vrt" }}
vstd = {{ path = "{rt}/vstd" }}
tokio = "1.20.1"
hyper = "0.14.20"
serde_json = "1.0.83"
[patch.crates-io]
sha2 = {{ path = "{rt}/sha2" }}
hyper = {{ path = "{rt}/hyper" }}
tokio = {{ path = "{rt}/tokio" }}
ryu = {{ path = "{rt}/ryu" }}
[profile.release]
opt-level = {2 if kind == "sym" else 1}
codegen-units = {1 if kind == "sym" else 16}
lto = "{"fat" if kind == "sym" else "off"}"
overflow-checks = {"true"}
debug = {"1" if kind == "sym" else "0"}
debug-assertions = false
panic = "unwind"
incremental = false
[workspace]
"""

def harness(kind, feature):
    d = os.path.join(BUILD, "h-" + kind)
    write(os.path.join(d, "Cargo.toml"), manifest(kind))
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock):
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "t-" + kind), "CARGO_NET_OFFLINE": "true",
           "RUSTFLAGS": "-A warnings" + (" --cfg vrt_sym" if kind == "sym" else ""), "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "0"}
    if kind == "sym":
        for f in glob.glob(os.path.join(BUILD, "t-sym", "release", "**", "vh*.bc"), recursive=True):
            os.remove(f)
        cmd = ["cargo", "+nightly", "rustc", "--release", "--offline", "--lib", "--features", feature, "--",
               "--emit=llvm-bc", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "debuginfo=1", "-C", "relocation-model=static"]
        run(cmd, cwd=d, env=env, what="building the symbolic program")
        c = [f for f in glob.glob(os.path.join(BUILD, "t-sym", "release", "**", "*vh*.bc"), recursive=True)]
        if not c:
            # nothing was rebuilt: force it
            os.utime(os.path.join(d, "Cargo.toml"))
            for f in glob.glob(os.path.join(BUILD, "t-sym", "release", ".fingerprint", "vh-*")):
                shutil.rmtree(f)
            for f in glob.glob(os.path.join(BUILD, "t-sym", "release", "build", "vh")):
                shutil.rmtree(f)
            run(cmd, cwd=d, env=env, what="building the symbolic program")
            c = [f for f in glob.glob(os.path.join(BUILD, "t-sym", "release", "**", "*vh*.bc"), recursive=True)]
        if len(c) != 1:
            raise BuildError("expected one bitcode file, found %r" % c)
        out = os.path.join(BUILD, feature + ".bc")
        shutil.copy(c[0], out)
        return out
    cmd = ["cargo", "+nightly", "build", "--release", "--offline", "--bin", "replay", "--features", feature]
    run(cmd, cwd=d, env=env, what="building the native program")
    out = os.path.join(BUILD, "replay-" + feature)
    shutil.copy(os.path.join(BUILD, "t-native", "release", "replay"), out)
    return out

if __name__ == "__main__":
    t = time.time()
    engine()
    app_source()
    for k in sys.argv[2:] or ["sym", "native"]:
        try:
            print(harness(k, sys.argv[1]), "%.1fs" % (time.time() - t))
        except BuildError as e:
            print(e)
            sys.exit(1)
