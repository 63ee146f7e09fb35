#!/usr/bin/env python3
"""determinism.py [ID...]: run each check twice, with other worker counts and hash seeds, and compare the digests over
every run's event log."""
import os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import json
ids = sys.argv[1:] or [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
bad = 0
for i in ids:
    got = []
    for w, h in (("8", "0"), ("3", "77")):
        env = dict(os.environ, DST_WORKERS=w, DST_HASHSEED=h, DST_RUNS="200", VERIF_SEED="4242")
        t = subprocess.run(["/opt/venv/bin/python", "dst/check.py", i, "quick"], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
        m = re.search(r"ok: (\d+) runs .*history digest (\w+)", t)
        got.append(m.groups() if m else t[-300:])
    bad += got[0] != got[1]
    print(i, "same" if got[0] == got[1] else "DIFFERENT", got, flush=True)
sys.exit(bool(bad))
