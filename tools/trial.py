#!/usr/bin/env python3
"""trial.py [-a] [-q] [ID...]: run the checks against planted bugs (scratch copies of /repo), report what is caught.

-a runs every check on every bug, otherwise only the check of the bug's own property.
"""
import json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
opts = [a for a in sys.argv[1:] if a.startswith("-")]
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(SEEDED))
checks = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
for i in ids:
    d = os.path.join(SEEDED, i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    wt = tempfile.mkdtemp(prefix="trial-")
    try:
        subprocess.check_call(["cp", "-a", "/repo/.", wt])
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=wt)
        out = []
        for c in (checks if "-a" in opts else [prop]):
            t = time.time()
            p = subprocess.run([PY, "dst/check.py", c, "quick"], cwd=ROOT, env=dict(os.environ, DST_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            txt = p.stdout.decode()
            hit = p.returncode == 1 and "VIOLATION property=%s " % c in txt
            out.append("%s:%s(%.0fs)" % (c, "CAUGHT" if hit else "quiet" if p.returncode == 0 else "ERROR%d" % p.returncode, time.time() - t))
            if not hit and c == prop or "-v" in opts:
                print(txt[-1500:])
            elif hit and c == prop:
                print("   ", [x for x in txt.split("\n") if x.startswith("  ")][:1])
        print(i, prop, " ".join(out), flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
