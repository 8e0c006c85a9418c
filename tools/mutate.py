"""Mutation of /repo/src in scratch copies: which mutants that still pass the
existing tests do the checks miss?   python3 tools/mutate.py OUT.jsonl WORKERS SECONDS [SEED] [FILE-REGEX]
Everything happens under /tmp/mutw, which is removed at the end."""
import json, os, random, re, shutil, subprocess, sys, threading, time
OUT, NW, LIMIT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1
ONLY = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
SECS = os.environ.get("MUT_SECS", "4")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mutw"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="--cap-lints=allow")

RULES = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= 1", " += 2"), (r" -= 1", " -= 0"), (r" \+= 1", " += 0"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"), (r"\bis_empty\(\)", "is_empty() == false"),
    (r"\bstarts_with\b", "ends_with"), (r"\bstrip_prefix\b", "strip_suffix"), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"),
    (r"\bif (?!let)([^{]+) \{$", r"if false && (\1) {"), (r"\bif (?!let)([^{]+) \{$", r"if true || (\1) {"),
    (r"\bif (?!let)([^{]+) =>", r"if false && (\1) =>"), (r"\bif (?!let)([^{]+) =>", r"if true || (\1) =>"),
    (r"\bNone\b(?! =>)(?!\))", "Some(Default::default())"), (r"return None;", "return Some(Default::default());"),
    (r"\bOk\(\(\)\)", "Ok(Default::default())"),
    (r"(\W)0(\W)", r"\g<1>1\2"), (r"(\W)1(\W)", r"\g<1>0\2"), (r"(\W)1(\W)", r"\g<1>2\2"), (r"(\W)(\d\d+)(\W)", r"\g<1>(\2 + 1)\3"), (r"(\W)(\d\d+)(\W)", r"\g<1>(\2 - 1)\3"),
    (r"\bi64\b", "i32"), (r"\bu64\b", "u32"), (r"\bi128\b", "i64"), (r"\bu128\b", "u64"), (r"\bf64\b", "f32"),
    (r"Less", "Greater"), (r"Greater", "Equal"), (r"PosInt", "NegInt"), (r"\bvisit_u64\b", "visit_i64"), (r"\bvisit_borrowed_str\b", "visit_str"),
    (r"\bvisit_none\b", "visit_unit"), (r"\bvisit_some\b", "visit_newtype_struct"), (r"\.take\(\)", ".clone()"), (r"\.rev\(\)", ""), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
    (r"\.untag(_ref|_mut)?\(\)", ""), (r"\bswap_remove\b", "shift_remove"), (r"\bshift_remove\b", "swap_remove"), (r"\bcmp\((\w+), (\w+)\)", r"cmp(\2, \1)"),
    (r"\?;$", ".ok();"), (r"'(.)'", "'\x7f'"), (r'b"(\w)(\w*)"', r'b"\2"'), (r'"(\w)(\w*)"', r'"\2"'),
    (r"Style::Plain", "Style::DoubleQuoted"), (r"Style::SingleQuoted", "Style::Plain"), (r"Style::Literal", "Style::Plain"), (r"\bno\b", "yes"),
    (r"\.or_else\(", ".map(|x| x).or_else("), (r"State::\w+", "State::NothingInParticular"), (r"saturating_sub", "wrapping_sub"), (r"checked_sub", "checked_add"),
]
def lines_of(path):
    out, depth = [], 0
    src = open(path).read().split("\n")
    intest = False
    for k, l in enumerate(src):
        st = l.strip()
        if st.startswith("#[cfg(test)]"): intest = True
        if intest or not st or st.startswith("//") or st.startswith("#") or st.startswith("use ") or st.startswith("pub use"): continue
        out.append((k, l))
    return src, out

def mutants():
    ms = []
    for d, _, fs in os.walk("/repo/src"):
        for f in fs:
            p = os.path.join(d, f); rel = os.path.relpath(p, "/repo")
            if not ONLY.search(rel): continue
            src, ls = lines_of(p)
            for k, l in ls:
                st = l.strip()
                for pat, rep in RULES:
                    for m in re.finditer(pat, l):
                        new = l[:m.start()] + m.expand(rep) + l[m.end():]
                        if new != l: ms.append((rel, k, l, new))
                if re.match(r"^(self|\*|[a-z_]+)[\w.\[\]]* [-+]?= .*;$", st) or re.match(r"^[a-z_:.*]+[\w.:]*\(.*\)\??;$", st):
                    ms.append((rel, k, l, ""))
                if re.match(r"^[^=]+ => .*,$", st): ms.append((rel, k, l, ""))
                if re.match(r"^\.\w+\(.*\)$", st): ms.append((rel, k, l, ""))
    # one random mutation per line at most, so that the sample spreads
    rng = random.Random(SEED); rng.shuffle(ms)
    seen, out = {}, []
    for m in ms:
        n = seen.get((m[0], m[1]), 0)
        if n < 2: seen[(m[0], m[1])] = n + 1; out.append(m)
    return out

done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
queue = [m for m in mutants() if (m[0], m[1] + 1, m[3].strip()) not in done]
print(len(queue), "mutants queued", flush=True)
lock = threading.Lock(); stop = time.time() + LIMIT
def sh(cmd, cwd, timeout, env):
    p = subprocess.Popen(["bash", "-c", cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 124, "timeout"

ORDER = {"ser.rs": ["C02", "C01", "C03", "C12"], "mapping.rs": ["C14", "C15"], "number.rs": ["C15", "C11"], "with.rs": ["C12"], "value/de.rs": ["C11", "C12", "C18"], "value/ser.rs": ["C11"], "value/index.rs": ["C17"],
    "value/mod.rs": ["C16", "C15", "C17"], "loader.rs": ["C09", "C06"], "error.rs": ["C13", "C10"], "path.rs": ["C13"], "de.rs": ["C04", "C05", "C13", "C08"]}
ALL = ["C%02d" % i for i in range(1, 23)]
def worker(w):
    base = f"{ROOT}/{w}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base + "/verif")
    sh(f"cp -a /repo {base}/repo && cp -a {V}/harness {V}/known-findings.txt {V}/env.sh {V}/tools {base}/verif/", "/", 300, ENV)
    env = dict(ENV, CARGO_INCREMENTAL="0", REPO_SRC=base + "/repo/src", VERIF_DIR=base + "/verif", HARNESS_SECS=SECS, HARNESS_THREADS="3", VERIF_SEED="1", VERIF_TIER="quick")
    env.pop("CARGO_TARGET_DIR", None)
    tenv = dict(env, CARGO_TARGET_DIR=base + "/ttarget", CARGO_INCREMENTAL="1")
    henv = dict(env, CARGO_TARGET_DIR=base + "/verif/target/main")
    while time.time() < stop:
        with lock:
            if not queue: break
            f, k, old, new = queue.pop()
        p = f"{base}/repo/{f}"; orig = open(p).read(); src = orig.split("\n"); assert src[k] == old
        src[k] = new; open(p, "w").write("\n".join(src))
        res = {"file": f, "line": k + 1, "old": old.strip(), "new": new.strip()}
        t0 = time.time()
        rc, o = sh("cargo build --offline -q", base + "/repo", 200, tenv)
        if rc: res["status"] = "nocompile"
        else:
            rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 3", base + "/repo", 240, tenv)
            if rc: res["status"] = "tests"
            else:
                rc, o = sh("cargo build --offline -q", base + "/verif/harness", 400, henv)
                if rc: res["status"] = "harness-build"; res["out"] = o[-600:]
                else:
                    order = next((v for s, v in ORDER.items() if f.endswith("/" + s)), [])
                    order = order + [c for c in ALL if c not in order]
                    res["status"] = "survived"
                    for c in order:
                        rc, o = sh(f"./target/main/debug/harness {c} quick", base + "/verif", 200, henv)
                        if rc == 1: res["status"] = "caught"; res["by"] = c; break
                        if rc not in (0, 1): res.setdefault("odd", []).append([c, rc, o[-300:]])
        res["secs"] = round(time.time() - t0, 1)
        open(p, "w").write(orig)
        with lock: open(OUT, "a").write(json.dumps(res) + "\n")
    shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(NW)]
for t in ts: t.start()
for t in ts: t.join()
