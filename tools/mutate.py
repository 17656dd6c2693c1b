#!/usr/bin/env python3
"""Measures the checks with mechanical source mutants (a development aid, not a check).

usage: mutate.py WORKERS MAX [file...]      results go to /tmp/mw/results.jsonl
Each mutant is applied in a scratch copy of /repo, must compile, pass the repository's own
tests, and is then run against the checks (a scratch copy of /verif pointing at that copy).
"""
import json, os, re, random, shutil, subprocess, sys, threading, hashlib
ROOT = "/tmp/mw"
FILES = ["runner/src/lib.rs", "runner/src/cli.rs", "pip/src/python.rs", "sparsesim/src/lib.rs", "sparsesim/src/exp.rs", "sparsesim/src/index_map.rs", "sparsesim/src/nearly_zero.rs",
  "backend/src/lib.rs", "backend/src/exp.rs", "backend/src/result_bool.rs"] + ["stdlib/src/%s.rs" % n for n in
  "lib arrays bigints callables math output_recording range_support strings tuples".split()]
SIM = ["C08","C09","C07","C10","C06","C03","C02","C11","C04","C01","C05","C13","C14","C16","C12"]
BACK = ["C13","C18","C15","C19","C14","C16","C11","C12","C17","C24","C28","C20","C32"]
STD = ["C20","C21","C22","C23","C24","C25","C26","C27","C28","C18","C19","C32"]
RUN = ["C30","C29","C31"]
def checks_for(f): return RUN if f.startswith(("runner", "pip")) else SIM if f.startswith("sparsesim") else BACK if f.startswith("backend") else STD

SUBS = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<=[\w)\]] )<(?= [\w(])", "<="), (r"(?<=[\w)\]] )>(?= [\w(&])", ">="),
 (r"&&", "||"), (r"\|\|(?! *\{)", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"(?<=[\w)\]] )\+(?= )", "-"), (r"(?<=[\w)\]] )-(?= )", "+"), (r"(?<=[\w)\]] )\*(?= )", "+"), (r"(?<=[\w)\]] )/(?= )", "*"),
 (r"(?<=[\w)\]] )&(?= )", "|"), (r"(?<=[\w)\]] )\|(?= )", "&"), (r"(?<=[\w)\]] )\^(?= )", "|"), (r"<<", ">>"), (r">>(?! ?\{|,|\()", "<<"),
 (r"\+=", "-="), (r"-=", "+="), (r"\*=", "+="), (r"\^=", "|="), (r"\|=", "^="), (r"&=", "|="),
 (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])2(?![\w.])", "3"),
 (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "-1.0"), (r"\b2\.0\b", "1.0"), (r"\b0\.5\b", "0.25"),
 (r"(?<=[(\s=,])-(?=[\w(])", ""), (r"(?<=[(\s])!(?=[\w(])", ""), (r"\bif (?!let)", "if true || "), (r"\bif (?!let)", "if false && "),
 (r"Some\((\w+)\)", "None"), (r"\.rev\(\)", ""), (r"\.abs\(\)", ""), (r"\.conj\(\)", ""), (r"\.cos\(\)", ".sin()"), (r"\.sin\(\)", ".cos()"),
 (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.is_empty\(\)", ".len() == 1"), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
 (r"FRAC_PI_2", "PI"), (r"FRAC_PI_4", "FRAC_PI_2"), (r"PauliX", "PauliY"), (r"Pauli::Y", "Pauli::X"), (r"\bPauli::X\b", "Pauli::Z"), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
 (r"\.is_nearly_zero\(\)", ".is_nan()"), (r"break;", "continue;"), (r"continue;", "break;"), (r"\.0\b", ".1"), (r"\.1\b", ".0"),
 (r"\bq1\b", "q2"), (r"\bq2\b", "q1"), (r"\brx\b", "ry"), (r"\bry\b", "rx"), (r"\bx\(", "y("), (r"\by\(", "z("), (r"\bz\(", "s("), (r"\bsadj\(", "s("), (r"\btadj\(", "t("), (r"\bh\(", "x("),
 (r"\.unwrap_or\(0", ".unwrap_or(1"), (r"\.len\(\)", ".len().wrapping_sub(1)"), (r"__adj\b", "__body"), (r"checked_", "wrapping_"), (r"\bre\b", "im"), (r"\bim\b", "re"),
]
def body_lines(f):
    L = open("/repo/" + f).read().split("\n")
    end = len(L)
    for i in range(len(L) - 1):
        if L[i].startswith("mod tests"):
            end = i; break
    return L, end
def mutants():
    out = []
    for f in FILES:
        L, end = body_lines(f)
        for i in range(end):
            s = L[i]; t = s.strip()
            if not t or t.startswith(("//", "#", "use ", "pub use", "extern", "mod ", "pub mod", "assert", "debug_assert", "panic", "let _")): continue
            if "fn " in t and t.endswith("{"): continue
            if '"' in t and ("expect" in t or "format" in t or "panic" in t): continue
            for pat, rep in SUBS:
                for m in re.finditer(pat, s):
                    n = s[:m.start()] + rep + s[m.end():]
                    if n != s: out.append((f, i, n, "sub"))
            if t.endswith(";") and not t.startswith(("let ", "return", "}", ")", "break", "continue", "pub ", "type ", "const ", "static ")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                out.append((f, i, re.match(r"\s*", s).group() + ";", "del"))
            # swap two simple arguments
            for m in re.finditer(r"\((\*?&?\w+), (\*?&?\w+)\)", s):
                if m.group(1) != m.group(2):
                    out.append((f, i, s[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + s[m.end():], "swap"))
    seen, res = set(), []
    for m in out:
        k = m[:3]
        if k not in seen: seen.add(k); res.append(m)
    return res
def sh(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        subprocess.run("pkill -9 -f %s/" % cwd.rsplit("/", 1)[0], shell=True)
        return 124, ""
class Worker:
    def __init__(s, i, n):
        s.d = f"{ROOT}/{i}"; s.cores = f"{i*n}-{i*n+n-1}"
        os.makedirs(s.d, exist_ok=True)
        s.repo, s.verif = s.d + "/repo", s.d + "/verif"
        if not os.path.exists(s.repo):
            subprocess.run(f"mkdir -p {s.repo} && cp -a /repo/sparsesim /repo/backend /repo/stdlib /repo/runner /repo/pip /repo/Cargo.toml /repo/Cargo.lock /repo/.cargo {s.repo}/", shell=True)
            t = re.sub(r'"(runner|pip|llvm-build)"\s*,?', "", open("/repo/Cargo.toml").read()); open(s.repo + "/Cargo.toml", "w").write(t)
        shutil.rmtree(s.verif, ignore_errors=True)
        subprocess.run(f"mkdir -p {s.verif} && cp -a /verif/harness /verif/harness-runner /verif/harness-c /verif/vendor /verif/run.sh /verif/known_findings.txt {s.verif}/ && rm -rf {s.verif}/harness/target && sed -i 's#/repo#{s.repo}#g' {s.verif}/harness/Cargo.toml {s.verif}/run.sh {s.verif}/harness-runner/Cargo.toml {s.verif}/harness-runner/src/*.rs {s.verif}/vendor/runner/Cargo.toml {s.verif}/vendor/pip/src/lib.rs {s.verif}/harness-c/lib/Cargo.toml {s.verif}/harness-c/src/p_capi.rs", shell=True)
        s.env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=s.d + "/ttarget", CARGO_PROFILE_DEV_DEBUG="0", MC_CAP="240")
        s.venv = dict(s.env); s.venv.pop("CARGO_TARGET_DIR")
    def run(s, m):
        f, i, n, kind = m
        src = "/repo/" + f; dst = s.repo + "/" + f
        L = open(src).read().split("\n"); old = L[i]; L[i] = n
        open(dst, "w").write("\n".join(L))
        r = dict(file=f, line=i + 1, old=old.strip(), new=n.strip(), kind=kind)
        try:
            ts = f"taskset -c {s.cores} "
            rc = 0
            if not f.startswith(("runner", "pip")): rc, o = sh(ts + "cargo build --offline --workspace -q 2>&1", s.repo, s.env, 300)
            if rc: r["status"] = "nocompile"; return r
            if not f.startswith(("runner", "pip")): rc, o = sh(ts + "cargo nextest run --offline --workspace --test-threads 2 2>&1", s.repo, s.env, 120)
            if rc: r["status"] = "tests"; return r
            rc, o = sh(ts + ("bash run.sh build-mcr" if f.startswith(("runner", "pip")) else "bash run.sh build-mc") + " 2>&1", s.verif, s.venv, 600)
            if rc: r["status"] = "harness-nocompile"; r["out"] = o[-800:]; return r
            hit, err = [], []
            for c in checks_for(f):
                rc, o = sh(ts + f"bash run.sh run {c} quick 2>&1", s.verif, s.venv, 600)
                if rc == 1 and "VIOLATION property=" in o: hit.append(c); break
                if rc: err.append((c, rc, o[-300:]))
            r["status"] = "caught" if hit else "SURVIVED"; r["hit"] = hit; r["err"] = err
            return r
        finally:
            shutil.copy(src, dst)
def main():
    nw, mx = int(sys.argv[1]), int(sys.argv[2]); only = sys.argv[3:]
    ms = [m for m in mutants() if not only or m[0] in only]
    random.Random(int(os.environ.get("MSEED", "7"))).shuffle(ms)
    print(len(ms), "mutants"); ms = ms[:mx]
    if mx == 0: return
    done = set()
    out = ROOT + "/results.jsonl"; os.makedirs(ROOT, exist_ok=True)
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d["file"], d["old"], d["new"]))
    ms = [m for m in ms if (m[0], open("/repo/" + m[0]).read().split("\n")[m[1]].strip(), m[2].strip()) not in done]
    lock = threading.Lock(); it = iter(ms)
    def loop(w):
        while True:
            with lock: m = next(it, None)
            if m is None: return
            r = w.run(m)
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")
    ts = [threading.Thread(target=loop, args=(Worker(i, 8 // nw),)) for i in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
