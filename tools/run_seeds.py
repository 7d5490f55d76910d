#!/usr/bin/env python3
"""Run checks against planted changes: run_seeds.py [--all] [id ...]
Applies each seeded/<id>/patch.diff to /repo, runs the check of its property (with --all: every check), undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; every = "--all" in a; a = [x for x in a if x != "--all"]
ids = a or sorted(os.listdir(V + "/seeded"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == "", "/repo is dirty"
for i in ids:
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); hit = []
    try:
        subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
        t = time.time()
        for p in (props if every else [m["property"]]):
            o = subprocess.run(["python3", f"{V}/check.py", p], capture_output=True, text=True, env=env, cwd=V)
            if o.returncode == 1 and f"VIOLATION property={p} " in o.stdout: hit.append(p)
            elif o.returncode: hit.append(f"{p}:rc{o.returncode}")
            if not every: print("   ", *[l[:300] for l in o.stdout.splitlines() if "VIOLATION" in l or "what" in l][:3], sep="\n    ")
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
    print(i, m["property"], "CAUGHT" if m["property"] in hit else "MISSED", " ".join(hit), f"{time.time()-t:.0f}s", flush=True)
