#!/usr/bin/env python3
"""Plants bugs: reads a spec file (python, list S of dicts), confirms each bug in a scratch copy of
/repo and stores it under /verif/seeded.

usage: plant.py SPEC.py [id...]        make and confirm
       plant.py --check id[:PROP]...   run the checks against stored bugs (all if none named)
spec keys: id, property, edits=[(file, old, new)...], needs, breaks, demo (rust, after the preamble)
"""
import json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
C = W + "/repo"
BASE = "d45ac81"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never",
           DEMO_TARGET=W + "/demotarget")
DEMO_SH = '''#!/bin/bash
# builds demo.rs against the crate in the current directory (/repo) and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/gptdemo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat >"$tmp/Cargo.toml" <<T
[package]
name = "gptdemo"
version = "0.1.0"
edition = "2021"
[dependencies]
gpt = { path = "$repo"%s }
uuid = "1"%s
[workspace]
T
cd "$tmp" || exit 3
export CARGO_NET_OFFLINE=true
if ! CARGO_TARGET_DIR=${DEMO_TARGET:-$tmp/target} cargo build --offline -q >"$tmp/log" 2>&1; then
  tail -30 "$tmp/log"
  exit 3
fi
export DEMO_DIR="$tmp"
timeout 120 "${DEMO_TARGET:-$tmp/target}/debug/gptdemo"
'''
PRE = open(V + "/tools/demo_preamble.rs").read()

def sh(cmd, cwd=C, env=ENV, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)

def fresh():
    if not os.path.isdir(C):
        os.makedirs(W, exist_ok=True)
        subprocess.run(f"cp -a /repo {C}", shell=True, check=True)
        shutil.rmtree(C + "/target", ignore_errors=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD 2>&1")
    assert sh("git status --short src").stdout == ""

def touch():
    sh("find src tests -name '*.rs' -exec touch {} +")

def tests():
    touch()
    e = dict(ENV, CARGO_TARGET_DIR=W + "/target")
    ok = set(); bad = set()
    for extra in ("", "--all-features"):
        r = sh(f"cargo test --workspace --no-fail-fast --offline {extra} -- --test-threads 8", env=e, t=900)
        if "could not compile" in r.stderr: return None, r.stderr[-1500:]
        for m in re.finditer(r"^test (.+?) \.\.\. (\w+)", r.stdout, re.M):
            (ok if m.group(2) == "ok" else bad).add(m.group(1))
    return ok - bad, sorted(bad)

def make(s):
    fresh()
    d = f"{V}/seeded/{s['id']}"
    base_lines = {}
    for f, old, new in s["edits"]:
        p = f"{C}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "REJECT: pattern occurs", t.count(old), "times in", f, repr(old[:60])); return False
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff").stdout
    orig = {f: set(sh(f"git show {BASE}:{f}").stdout.splitlines()) for f in {e[0] for e in s["edits"]}}
    rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    o = set().union(*orig.values())
    if not any(l.strip() and l in o for l in rem):
        print(s["id"], "REJECT: no original line changed"); return False
    notorig = [l for l in rem if l not in o]
    if notorig: print(s["id"], "note: also changes lines of fix commits:", notorig[:3])
    os.makedirs(d, exist_ok=True)
    feat = s.get("features")
    sh_txt = DEMO_SH % (f', features = {json.dumps(feat)}' if feat else "",
                        "".join("\n" + x for x in s.get("deps", [])))
    open(d + "/demo.sh", "w").write(sh_txt); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write((PRE if not s.get("raw") else "") + s["demo"])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1); open(d + "/meta.json", "a").write("\n")
    ok, bad = tests()
    if ok is None: print(s["id"], "REJECT: does not build", bad); drop(d); return False
    if bad: print(s["id"], "REJECT: tests fail", bad); drop(d); return False
    touch()
    r1 = sh(f"bash {d}/demo.sh", t=400)
    sh("git checkout -q -- ."); touch()
    r0 = sh(f"bash {d}/demo.sh", t=400)
    if r0.returncode != 0 or r1.returncode in (0, 3):
        print(s["id"], "REJECT: demo", r0.returncode, r1.returncode, (r0.stdout + r0.stderr)[-1200:], "| patched:", (r1.stdout + r1.stderr)[-800:]); drop(d); return False
    print(s["id"], "OK", s["property"], "| patched demo:", (r1.stdout + r1.stderr).strip().replace("\n", " / ")[-160:], flush=True)
    return True

def drop(d):
    if os.path.basename(d) and d.startswith(V + "/seeded/"):
        if "--keep" not in sys.argv: shutil.rmtree(d)

def check(i, prop=None):
    d = f"{V}/seeded/{i}"
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    assert sh("git status --short", cwd="/repo").stdout == ""
    r = sh(f"git apply {d}/patch.diff", cwd="/repo"); assert r.returncode == 0, r.stderr
    try:
        e = dict(os.environ, GPTV_DIR="/tmp/gv", VERIF_SEED="1", VERIF_TIER="quick")
        r = sh(f"{V}/run.sh {prop} quick", cwd=V, env=e, t=1000)
    finally:
        sh("git checkout -q -- .", cwd="/repo")
    hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    msg = r.stdout.splitlines()[0] if r.stdout else r.stderr[-300:]
    print(i, prop, "CAUGHT" if r.returncode == 1 and hit else f"MISSED rc={r.returncode}", "|", msg[:220], flush=True)
    return r.returncode == 1

if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if x != "--keep"]
    if a[0] == "--check":
        ids = a[1:] or sorted(os.listdir(V + "/seeded"))
        n = sum(check(*x.split(":")) for x in ids)
        print(f"{n} of {len(ids)} caught")
    else:
        S = runpy.run_path(a[0])["S"]
        for s in S:
            if a[1:] and s["id"] not in a[1:]: continue
            make(s)
