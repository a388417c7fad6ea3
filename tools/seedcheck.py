#!/usr/bin/env python3
"""Run the quick check of each planted bug's property (or all properties with --all) on a scratch clone with the bug applied.
usage: seedcheck.py [--all] [ID...]     results are kept in seeded/RESULTS.json"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "--all"]
ids = args or sorted(d for d in os.listdir(ROOT + "/seeded") if os.path.isdir(f"{ROOT}/seeded/{d}"))
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
fn = ROOT + "/seeded/RESULTS.json"
res = json.load(open(fn)) if os.path.exists(fn) else {}
for i in ids:
    own = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="sc-")
    subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    r = subprocess.run(["git", "apply", f"{ROOT}/seeded/{i}/patch.diff"], cwd=w + "/repo", capture_output=True, text=True)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stderr[:200])
        shutil.rmtree(w)
        continue
    for p in ([own] if "--all" not in sys.argv else props):
        e = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_EVID=w, VERIF_SEED="1")
        out = subprocess.run([sys.executable, ROOT + "/check.py", p, "quick"], env=e, capture_output=True, text=True).stdout
        hit = f"VIOLATION property={p} " in out
        cl = sorted({c for l in out.splitlines() if "violated" in l for c in eval(l.split("violated ")[1])}) if hit else []
        if hit or p == own:
            print(i, p, "caught" if hit else "MISSED", cl[:4], flush=True)
        res.setdefault(i, {})[p] = cl[:4] if hit else None
    shutil.rmtree(w)
    json.dump(res, open(fn, "w"), indent=1, sort_keys=True)
