#!/usr/bin/env python3
"""catch.py [-a] [id...]: applies each planted bug to /repo, runs its property's check (-a: every check), undoes it."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(ROOT + "/seeded"))
man = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
for i in ids:
    d = ROOT + "/seeded/" + i
    if not os.path.exists(d + "/patch.diff"):
        continue
    assert subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode == 0, i
    try:
        prop = json.load(open(d + "/meta.json"))["property"]
        for p in (man if every else [prop]):
            t = time.time()
            r = subprocess.run(["python3", ROOT + "/tools/check.py", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_TIER="quick"))
            how = "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "missed" if r.returncode == 0 else "NO ANSWER"
            line = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][-1:]
            print(i, p, how, "%.0f s" % (time.time() - t), line[0][:230] if line else "", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
