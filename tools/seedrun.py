#!/usr/bin/env python3
"""seedrun.py [ID...]: runs the quick check of each planted bug's property against a copy of /repo with the bug.
Development aid; no registered command uses it. Extra properties: ID:P01,P02."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    i, _, extra = i.partition(":")
    d = f"{V}/seeded/{i}"
    props = extra.split(",") if extra else [json.load(open(d + "/meta.json"))["property"]]
    w = tempfile.mkdtemp()
    subprocess.run(f"git -C {R} archive HEAD | tar x -C {w}", shell=True, check=True)
    subprocess.run(["git", "init", "-q"], cwd=w)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, check=True)
    for p in props:
        t = time.time()
        r = subprocess.run(["python3", "run.py", p, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=w), text=True, capture_output=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(f"{i} {p} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {time.time() - t:.0f}s {v[:1]} {r.stdout[-300:] if r.returncode not in (0, 1) else ''}", flush=True)
    shutil.rmtree(w, ignore_errors=True)
