#!/usr/bin/env python3
"""Systematic mutation of /repo's sources: which mutants that pass the repository's tests do the
checks miss? Works on copies under /tmp/mut only.

usage: mutate.py list            number of mutants per file and operator
       mutate.py run WORKERS [SHARD/OF] results go to /tmp/mut/results.jsonl (resumes)
       mutate.py show            survivors
"""
import json, os, re, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
FILES = ["src/lib.rs", "src/header/mod.rs", "src/header/builder.rs", "src/partition.rs", "src/mbr.rs",
         "src/disk.rs", "src/macros.rs"]
ORDER = {
 "src/lib.rs": "C05 C06 C08 C09 C29 C01 C02 C23 C25 C26 C04 C15 C28 C07 C27 C30 C10 C12 C13 C22 C03 C11 C14 C16 C24 C31 C21 C19 C20 C17 C18 C33 C34 C35 C36 C32",
 "src/header/mod.rs": "C31 C11 C30 C10 C02 C23 C13 C14 C22 C16 C12 C01 C03 C27 C08 C09 C04 C15 C05 C06 C07 C21 C24 C25 C26 C28 C29 C19 C20 C17 C18 C33 C34 C35 C36 C32",
 "src/header/builder.rs": "C21 C30 C27 C02 C31 C08 C01 C03 C23 C10 C15 C05 C06 C07 C09 C11 C12 C13 C14 C16 C22 C24 C25 C26 C28 C29 C04 C19 C20 C17 C18 C33 C34 C35 C36 C32",
 "src/partition.rs": "C24 C19 C01 C11 C16 C14 C13 C27 C02 C03 C10 C22 C23 C20 C05 C06 C07 C08 C09 C12 C15 C21 C25 C26 C28 C29 C30 C31 C04 C17 C18 C33 C34 C35 C36 C32",
 "src/mbr.rs": "C17 C18 C14 C13 C16 C22 C33 C34 C35 C36 C32",
 "src/disk.rs": "C19 C22 C16 C01 C30 C33 C34 C35 C36 C32",
 "src/macros.rs": "C20 C24 C01 C23 C02 C33 C34 C35 C36 C32",
}
REPL = [
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
 (r" < ", " > "), (r" > ", " < "),
 (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" % ", " / "), (r" / ", " % "), (r" && ", " || "), (r" \|\| ", " && "),
 (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+ 1\b", "+ 2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"if !", "if "), (r"filter\(\|p\| p", "filter(|p| !p"), (r"\(\|p\| ", "(|p| !"),
 (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"_le_u", "_u"), (r"\.\.=", ".."), (r"read_exact\(&mut (\w+)\)", r"read(&mut \1)"),
 (r"read_exact\(bytes\.as_mut\(\)\)", "read(bytes.as_mut())"), (r"write_all\(", "write("),
 (r"is_some\(\)", "is_none()"), (r"is_ok\(\)", "is_err()"), (r"is_err\(\)", "is_ok()"),
 (r"first_lba", "last_lba"), (r"last_lba", "first_lba"), (r"first_usable", "last_usable"), (r"last_usable", "first_usable"),
 (r"current_lba", "backup_lba"), (r"backup_lba", "current_lba"), (r"primary_lba", "backup_lba"), (r"backup_lba", "primary_lba"),
 (r"primary_header", "backup_header"), (r"backup_header", "primary_header"), (r"num_parts", "part_size"),
 (r"part_size", "num_parts"), (r"part_start", "current_lba"), (r"crc32_parts", "crc32"), (r"\.or\(", ".and("),
 (r"checked_add", "wrapping_add_X"), (r"Lb512", "Lb4096"), (r"Lb4096", "Lb512"), (r"next_back", "next"),
 (r"to_le_bytes", "to_be_bytes"), (r"start_head", "end_head"), (r"end_track", "start_track"), (r"lb_start", "lb_size"), (r"lb_size\b", "lb_start"),
 (r"\.find\(", ".rfind("), (r"saturating_sub", "wrapping_sub"), (r"saturating_add", "wrapping_add"),
 (r"\.is_used\(\)", ".name.is_empty()"), (r"h1\b", "h2"), (r"h2\b", "h1"), (r"len < ", "len != "),
 (r"SeekFrom::Start\(cur\)", "SeekFrom::Start(0)"), (r"SeekFrom::Start\(", "SeekFrom::Current("), (r"from_utf16_lossy", "from_utf16_x"),
 (r"self\.writable = writable", "self.writable |= writable"), (r"writable = writable", "writable &= writable"),
]
def numbers(line):
    for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f_]+|\d[\d_]*)(?=(_u64|_u8|u8|u16|u32|u64)?\b)", line):
        t = m.group(1).replace("_", "")
        v = int(t, 16) if t.startswith("0x") else int(t)
        for n in {v + 1, v - 1 if v > 0 else v + 2, 0}:
            if n != v: yield line[:m.start()] + str(n) + line[m.end(1):], f"num {v}->{n}"

def mutants():
    out = []
    for f in FILES:
        text = subprocess.run(["git", "show", f"HEAD:{f}"], cwd="/repo", capture_output=True, text=True).stdout
        lines = text.split("\n")
        end = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
        inlog = False
        for i in range(end):
            l = lines[i]; s = l.strip()
            if re.match(r"(trace|debug)!\(", s): inlog = True
            if inlog:
                if s.endswith(");"): inlog = False
                continue
            if not s or s.startswith(("//", "#", "use ", "pub use", "///", "!")): continue
            code = l.split(" // ")[0]
            seen = set()
            def add(new, what):
                new2 = new + l[len(code):]
                if new2 != l and new2 not in seen:
                    seen.add(new2); out.append((f, i, l, new2, what))
            for a, b in REPL:
                for m in re.finditer(a, code):
                    add(code[:m.start()] + m.expand(b) + code[m.end():], f"{a}=>{b}")
            if not s.startswith(("pub const fn", "pub fn", "fn ")):
                for n, w in numbers(code): add(n, w)
            if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "}", ")", "const", "use", "type", "mod", "macro")) and s.count("(") == s.count(")") and s[0] not in ".":
                ind = l[:len(l) - len(l.lstrip())]
                add(ind + "();", "delete statement")
                if s.endswith("?;"): add(ind + "let _ = " + s[:-2] + ";", "ignore error")
            if s.startswith("let _ = ") and s.endswith("?;"): add(code.replace("?;", ";"), "ignore error")
            m = re.match(r"(\s*)(\} else )?if (?!let)(.+) \{$", code)
            if m:
                for c in ("true", "false"): add(f"{m.group(1)}{m.group(2) or ''}if {c} {{", f"if {c}")
            m = re.match(r"(\s*)(\w+): (.+),$", code)
            if m and "fn " not in code and m.group(3) in ("0",): pass
    return out

def key(m): return json.dumps(m[:4])

def sh(cmd, cwd, env=None, t=300):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        subprocess.run(f"pkill -f {cwd}", shell=True)
        return 124, "", "timeout"

def setup(n):
    d = f"{W}/w{n}"
    if not os.path.isdir(d):
        os.makedirs(d)
        sh(f"git clone -q /repo {d}/repo && mkdir -p {d}/verif && cp -a {V}/harness {V}/known_findings.jsonl {d}/verif/", "/")
    sh(f"git fetch -q && git reset -q --hard origin/HEAD", d + "/repo")
    sh(f"rm -rf {d}/verif/harness/src && cp -a {V}/harness/src {d}/verif/harness/ && cp {V}/known_findings.jsonl {d}/verif/", "/")
    return d

def trial(d, m):
    f, i, old, new, what = m
    p = f"{d}/repo/{f}"
    text = open(p).read(); lines = text.split("\n")
    assert lines[i] == old, (lines[i], old)
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d + "/rt", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="0", CARGO_BUILD_JOBS="3")
    try:
        rc, o, er = sh("cargo build --offline -q", d + "/repo", e)
        if rc: return "nobuild", ""
        rc, o, er = sh("cargo test --offline -q --lib --tests -- --test-threads 4", d + "/repo", e, 120)
        if rc: return "tests", ""
        e2 = dict(e, CARGO_TARGET_DIR=d + "/ht", GPTV_DIR=d + "/out", GPTV_SCALE="0.1", VERIF_SEED="1", RUST_MIN_STACK="67108864",
                  CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_INCREMENTAL="true")
        rc, o, er = sh("cargo build --offline -q", d + "/verif/harness", e2, 600)
        if rc: return "nobuild-harness", er[-300:]
        odd = []
        for c in ORDER[f].split():
            if c == "C32": continue
            rc, o, er = sh(f"timeout 250 {d}/ht/debug/gptverify check {c} quick", d, e2, 300)
            if rc == 1 and "VIOLATION" in o: return "caught", c + " " + " ".join(odd)
            if rc: odd.append(f"{c}:rc{rc}:{(er or '')[:150]}")
        return "MISSED", " ".join(odd)
    finally:
        open(p, "w").write(text)

def main():
    ms = mutants()
    if sys.argv[1] == "list":
        from collections import Counter
        print(len(ms), Counter(m[0] for m in ms)); return
    res = f"{W}/results.jsonl"
    done = {}
    if os.path.exists(res):
        for l in open(res):
            r = json.loads(l); done[json.dumps(r["m"][:4])] = r
    if sys.argv[1] == "show":
        from collections import Counter
        cur = {key(m) for m in ms}
        print(Counter(r["r"] for k, r in done.items()))
        for k, r in done.items():
            if r["r"] in ("MISSED", "nobuild-harness") or (r["r"] == "caught" and len(r["d"]) > 4):
                f, i, o, n, w = r["m"]; print(f"{r['r']} {f}:{i+1} [{w}] {o.strip()[:110]}  ==>  {n.strip()[:110]} {r['d'][:200]}")
        return
    q = queue.Queue()
    import random
    random.Random(1).shuffle(ms)
    for m in ms:
        if key(m) not in done: q.put(m)
    print(q.qsize(), "to do", flush=True)
    lock = threading.Lock()
    def work(n):
        d = setup(n)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            t = time.time()
            try: r, x = trial(d, m)
            except Exception as ex: r, x = "error", repr(ex)
            with lock:
                open(res, "a").write(json.dumps({"m": m, "r": r, "d": x, "t": round(time.time() - t, 1)}) + "\n")
    ts = [threading.Thread(target=work, args=(n,)) for n in range(int(sys.argv[2]))]
    [t.start() for t in ts]; [t.join() for t in ts]

main()
