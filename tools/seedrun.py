"""Development only: run the check of each planted bug's property against it (serially, in /repo).
usage: seedrun.py [ID ...]"""
import json
import os
import subprocess
import sys
import time

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(root + "/seeded"))
for i in ids:
    d = f"{root}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "vf.check", prop, "quick"], cwd=root, capture_output=True,
                           text=True, env={**os.environ, "VERIF_SEED": "1"})
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    hit = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
    ok = bool(hit) and r.returncode == 1
    f = root + "/tools/caught.json"
    c = json.load(open(f)) if os.path.exists(f) else {}
    what = [x.split("first: ")[1] for x in r.stdout.split("\n") if "first: " in x]
    c[i] = f"{prop} ({what[0][:90]})" if ok and what else prop if ok else "missed"
    json.dump(c, open(f, "w"), indent=1, sort_keys=True)
    print(f"{i:24s} {prop} exit {r.returncode} {time.time() - t:.0f}s {'CAUGHT' if hit and r.returncode == 1 else 'MISSED'}",
          flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-600:], r.stderr[-1200:])
