#!/usr/bin/env python3
"""Development aid for /verif/seeded (not a check).

usage: seed.py make SPEC.py [id...]   writes seeded/<id>/ from a list SEEDS of dicts
       seed.py try [id...]            confirms each in a scratch copy and runs its property's quick check
"""
import json, os, re, shutil, subprocess, sys
V = "/verif"; S = "/tmp/seed"; R = S + "/repo"; MV = S + "/verif"
def sh(cmd, cwd=R, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, ""
def fresh():
    os.makedirs(S, exist_ok=True)
    if os.path.exists(R): shutil.rmtree(R)
    sh(f"git clone -q /repo {R}", cwd=S)
    t = re.sub(r'"(runner|pip|llvm-build)"\s*,?', "", open("/repo/Cargo.toml").read())
    open(R + "/Cargo.toml.ws", "w").write(t)
def fresh_verif():
    if os.path.exists(MV): shutil.rmtree(MV)
    sh(f"mkdir -p {MV} && cp -a {V}/harness {V}/harness-runner {V}/harness-c {V}/vendor {V}/run.sh {V}/known_findings.txt {MV}/ && sed -i 's#/repo#{R}#g' {MV}/harness/Cargo.toml {MV}/run.sh {MV}/harness-runner/Cargo.toml {MV}/harness-runner/src/*.rs {MV}/vendor/runner/Cargo.toml {MV}/vendor/pip/src/lib.rs {MV}/harness-c/lib/Cargo.toml {MV}/harness-c/src/p_capi.rs", cwd=S)
    sh(f"mkdir -p {S}/vtarget; ln -sfn {S}/vtarget {MV}/target", cwd=S)
DEMO = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo.sh")).read()
DEMO_RUNNER = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_runner.sh")).read()
DEMO_CPP = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_cpp.sh")).read()
def make(spec, only):
    g = {}; exec(open(spec).read(), g)
    fresh()
    for s in g["SEEDS"]:
        if only and s["id"] not in only: continue
        sh("git checkout -q -- .")
        for f, old, new in s["edits"]:
            t = open(f"{R}/{f}").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(f"{R}/{f}", "w").write(t.replace(old, new))
        d = f"{V}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
        _, diff = sh("git diff")
        open(d + "/patch.diff", "w").write(diff)
        open(d + ("/main.cpp" if s.get("cpp") else "/main.rs"), "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_RUNNER if s.get("runner") else DEMO_CPP.replace("FEATURES", s["features"]) if s.get("cpp") else DEMO)
        if s.get("runner"):
            for n in ("inkwell", "pyo3", "pyo3-macros", "runner", "pip"):
                shutil.copytree(f"{V}/vendor/{n}", f"{d}/vendor/{n}", dirs_exist_ok=True)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
    sh("git checkout -q -- .")
def tryall(only):
    fresh(); fresh_verif()
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=S + "/ttarget", CARGO_PROFILE_DEV_DEBUG="0")
    venv = dict(os.environ)
    cores = os.environ.get("CORES", "0-7"); ts = f"taskset -c {cores} "
    for i in sorted(os.listdir(V + "/seeded")):
        if only and i not in only: continue
        d = f"{V}/seeded/{i}"; m = json.load(open(d + "/meta.json"))
        sh("git checkout -q -- . && git clean -fdq")
        d2 = f"{S}/demo"; shutil.rmtree(d2, ignore_errors=True); shutil.copytree(d, d2); os.remove(d2 + "/patch.diff"); os.remove(d2 + "/meta.json")
        rc0, o0 = sh(ts + f"bash {d2}/demo.sh", timeout=300)
        rca, oa = sh(f"git apply {d}/patch.diff")
        rc1, o1 = sh(ts + f"bash {d2}/demo.sh", timeout=300)
        sh("git stash list"); shutil.copy(R + "/Cargo.toml", S + "/Cargo.toml.keep")
        _, st = sh("git diff --name-only")
        shutil.copy(S + "/repo/Cargo.toml", S + "/ct")
        t = re.sub(r'"(runner|pip|llvm-build)"\s*,?', "", open("/repo/Cargo.toml").read()); open(R + "/Cargo.toml", "w").write(t)
        rct, ot = sh(ts + "cargo nextest run --offline --workspace --test-threads 8 2>&1", env=env)
        shutil.copy(S + "/ct", R + "/Cargo.toml"); sh("git checkout -q -- Cargo.lock")
        if os.environ.get("NOCHECK"): rcc, oc = None, ""
        else: rcc, oc = sh(ts + f"bash run.sh run {m['property']} quick", cwd=MV, env=venv)
        v = [l for l in oc.split("\n") if "VIOLATION" in l][:1]
        ok = rc0 == 0 and rca == 0 and rc1 not in (0, 124) and rct == 0
        print(i, m["property"], "OK" if ok else "BAD", f"demo {rc0}/{rc1} apply {rca} tests {rct} check {rcc}", v, flush=True)
        if not ok: print(o0[-600:] if rc0 else "", oa, o1[-300:] if rc1 == 0 else "", ot[-800:] if rct else "")
        elif rcc == 0 or rcc == 2: print(oc[-400:])
    sh("git checkout -q -- .")
if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
else: tryall(sys.argv[2:])
