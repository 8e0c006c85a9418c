"""Build and verify planted bugs.  Definitions live in tools/seeds_*.py.

  python3 tools/seedlib.py write            write /verif/seeded/<id>/ for every definition
  python3 tools/seedlib.py try ID...        build, stable tests, demo with and without (scratch copies)
  python3 tools/seedlib.py check ID...      apply to /repo, run the property's quick check, undo
"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as it should; anything else: broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=--cap-lints=allow CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$tmp/target
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
serde_yaml = { path = "$repo" }
serde = "1"
serde_derive = "1"
[workspace]
TOML
cd "$tmp" || exit 3
cargo build --offline -q || exit 3
ulimit -c 0
timeout 120 "$tmp/target/debug/demo"
'''
PRELUDE = "#![allow(unused)]\nuse serde::{de, ser, Deserialize, Serialize};\nuse serde_derive::{Deserialize, Serialize};\nuse serde_yaml::{Mapping, Number, Value};\nuse std::collections::BTreeMap;\n"

def seeds():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds_*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def apply_edits(root, s):
    for f, old, new in s["edits"]:
        p = os.path.join(root, f); t = open(p).read()
        n = t.count(old)
        assert n == 1, f"{s['id']}: {f}: {n} matches of {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))

def write(only=None):
    for i, s in seeds().items():
        if only and i not in only: continue
        d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
        a = "/tmp/seed-a"; shutil.rmtree(a, ignore_errors=True); os.makedirs(a)
        sh(f"git -C {REPO} archive HEAD | tar x", a)
        sh("git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", a)
        apply_edits(a, s)
        _, diff = sh("git diff --no-color", a)
        assert diff, i
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(PRELUDE + s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "meta.json"), "a").write("\n")
        shutil.rmtree(a)

ENV = dict(HOME="/root", RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
def passing(out):
    return sorted(re.findall(r"^test (.*?) \.\.\. ok$", out, re.M))

def run_tests(root):
    sh("rm -rf target/debug/.fingerprint/serde_yaml-*", root)
    rc, out = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", root, ENV)
    rc2, out2 = sh("cargo check -q --offline --manifest-path fuzz/Cargo.toml", root, ENV)
    return rc or rc2, out + (out2 if rc2 else ""), passing(out)

def try_(ids):
    base = "/tmp/seed-base"; shutil.rmtree(base, ignore_errors=True)
    sh(f"cp -a {REPO} {base}", "/tmp")
    ok = []
    for i in ids:
        d = os.path.join(V, "seeded", i)
        w = "/tmp/seed-work"; shutil.rmtree(w, ignore_errors=True); sh(f"cp -a {REPO} {w}", "/tmp")
        rc, out = sh(f"git apply {d}/patch.diff", w)
        if rc: print(i, "APPLY FAILED", out); continue
        rc, out, p = run_tests(w)
        if rc:
            bad = re.findall(r"^test .* FAILED$", out, re.M)
            print(i, "TESTS FAIL:", bad or out[-1500:]); continue
        rc0, out0 = sh(f"bash {d}/demo.sh", base); rc1, out1 = sh(f"bash {d}/demo.sh", w)
        good = rc0 == 0 and rc1 not in (0, 3)
        print(i, "OK" if good else "DEMO BAD", f"tests={len(p)} base={rc0} patched={rc1}", "" if good else out0[-800:] + "\n--\n" + out1[-800:], flush=True)
        if good: ok.append(i)
    shutil.rmtree(base, ignore_errors=True); shutil.rmtree("/tmp/seed-work", ignore_errors=True)
    return ok

def check(ids, env=None):
    allseeds = seeds()
    for i in ids:
        prop = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
        props = sys.argv[sys.argv.index("--with") + 1].split(",") if "--with" in sys.argv else [prop]
        rc, out = sh(f"git apply {V}/seeded/{i}/patch.diff", REPO)
        if rc: print(i, "APPLY FAILED", out); continue
        try:
            for p in props:
                t = time.time(); rc, out = sh(f"./check.sh {p} quick", V, env)
                vio = [l for l in out.splitlines() if "VIOLATION" in l]
                print(i, p, "CAUGHT" if rc == 1 and vio else f"MISSED rc={rc}", f"{time.time()-t:.0f}s", (vio[:1] or [""])[0][:200], flush=True)
                m = [l for l in out.splitlines() if l.strip()]
                if rc == 1: print("     ", " | ".join(l for l in m if "VIOLATION" not in l)[:300])
        finally:
            sh("git checkout -- .", REPO)

if __name__ == "__main__":
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--") and "," not in a and not re.fullmatch(r"C\d\d", a)]
    if not ids: ids = list(seeds())
    {"write": lambda: write(ids), "try": lambda: try_(ids), "check": lambda: check(ids)}[cmd]()
