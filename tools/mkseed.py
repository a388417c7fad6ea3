#!/usr/bin/env python3
"""Confirm a planted change in a scratch copy and file it under seeded/.
usage: mkseed.py SPEC.py...   SPEC.py defines ID, PROP, EDITS=[(file,old,new)], DEMO (python), NEEDS, BREAKS."""
import concurrent.futures as cf, json, os, re, runpy, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PYB = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/bash
# cwd is the repository; exit 0 when the property holds on this input, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONHASHSEED=0 exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def one(spec):
    s = runpy.run_path(spec)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(w, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        d = os.path.join(w, "demo")
        os.makedirs(d)
        open(d + "/demo.py", "w").write(s["DEMO"])
        open(d + "/demo.sh", "w").write(DEMO_SH)
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=repo, capture_output=True, text=True)
        if r0.returncode:
            return s["ID"], "demo fails on the unchanged tree: " + (r0.stdout + r0.stderr)[-800:]
        for f, o, n in s["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(o) != 1:
                return s["ID"], f"edit of {f}: {t.count(o)} matches"
            open(p, "w").write(t.replace(o, n))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=repo, capture_output=True, text=True)
        if r1.returncode == 0:
            return s["ID"], "demo passes with the change"
        rep = os.path.join(w, "rep")
        os.makedirs(rep + "/ip"), os.makedirs(rep + "/jc"), os.makedirs(rep + "/jr")
        env = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PYTHONPATH=repo + ":/opt/vp/plugin", MPLBACKEND="agg", SDL_VIDEODRIVER="dummy", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   IPYTHONDIR=rep + "/ip", JUPYTER_CONFIG_DIR=rep + "/jc", JUPYTER_RUNTIME_DIR=rep + "/jr")
        subprocess.run([PYB, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "leap_stable_ids", "-m", "not stochastic", "--timeout=300",
                        "--color=no", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={rep}/p.xml"], cwd=repo, env=env, capture_output=True)
        passed = set()
        for tc in ET.parse(rep + "/p.xml").getroot().iter("testcase"):
            if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                passed.add(f"{tc.get('classname')}::{tc.get('name')}")
        miss = STABLE - passed
        if miss:
            return s["ID"], f"breaks stable tests: {sorted(miss)[:5]}"
        out = os.path.join(ROOT, "seeded", s["ID"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        return s["ID"], "KEPT; demo said: " + (r1.stdout + r1.stderr).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(w, ignore_errors=True)


with cf.ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, sys.argv[1:]):
        print(i, "->", r, flush=True)
