#!/usr/bin/env python3
"""seed.py add <id> <property> <spec-dir>   (spec-dir: edit.py [transforms files in cwd], main.rs, meta.txt: line1 needs, line2 what; optional file 'dbg')
   seed.py validate <id>...                 apply/test/demo in a scratch copy"""
import json, os, shutil, subprocess, sys, tempfile
SEED = "/verif/seeded"; KIT = os.path.dirname(os.path.abspath(__file__))
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy():
    t = tempfile.mkdtemp(prefix="seedwt.", dir="/tmp"); sh(f"cp -a /repo {t}/repo", "/tmp"); return t, t + "/repo"
def tests(r):
    o = sh("RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true cargo test --workspace --offline -- --test-threads 8", r)
    import re
    res = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", o.stdout)
    return o.returncode == 0, res, o.stdout[-1500:]
def validate(i):
    d = f"{SEED}/{i}"; t, r = copy(); ok = True
    try:
        a = sh(f"timeout 300 bash {d}/demo.sh", r)
        if a.returncode != 0: ok = False; print(i, "demo fails on clean tree", a.returncode, a.stdout[-800:])
        p = sh(f"git apply {d}/patch.diff", r)
        if p.returncode: print(i, "does not apply", p.stdout); return False
        g, res, out = tests(r)
        if not g: ok = False; print(i, "tests fail", res, out)
        b = sh(f"timeout 300 bash {d}/demo.sh", r)
        if b.returncode in (0, 3): ok = False; print(i, "demo does not fail with patch", b.returncode, b.stdout[-800:])
        print(i, "VALID" if ok else "INVALID", res, "|", b.stdout.strip().splitlines()[-1:] )
    finally: shutil.rmtree(t, ignore_errors=True)
    return ok
def add(i, prop, spec):
    t, r = copy()
    try:
        e = sh(f"python3 {spec}/edit.py", r)
        if e.returncode: sys.exit("edit failed: " + e.stdout)
        diff = subprocess.run("git diff", shell=True, cwd=r, stdout=subprocess.PIPE, text=True).stdout
        if not diff: sys.exit("empty diff")
        d = f"{SEED}/{i}"; os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        for f in ("main.rs",): shutil.copy(f"{spec}/{f}", d)
        shutil.copy(f"{KIT}/common.rs", d)
        s = open(f"{KIT}/demo.sh").read().replace("__DBG__", "true" if os.path.exists(f"{spec}/dbg") else "false")
        open(d + "/demo.sh", "w").write(s)
        needs, what = open(f"{spec}/meta.txt").read().strip().split("\n", 1)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what.strip()}, open(d + "/meta.json", "w"), indent=1)
    finally: shutil.rmtree(t, ignore_errors=True)
    return validate(i)
a = sys.argv[1:]
if a[0] == "add": sys.exit(0 if add(*a[1:4]) else 1)
sys.exit(0 if all([validate(i) for i in a[1:]]) else 1)
