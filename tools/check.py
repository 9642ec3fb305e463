#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree.

Exit 0: it holds within the bounds. Exit 1 and a VIOLATION line: it does not, confirmed by running the real
code on the counterexample. Exit 2: not decided (build failure, timeout, unconfirmed counterexample ...)."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kani_check
from kani_check import Inconclusive, ROOT

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

from props import PROPS


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> <what fails>` of known_findings.txt."""
    res = {}
    path = os.path.join(ROOT, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        w = line.split(None, 3)
        if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
            res[w[2][4:]] = w[3].strip()
    return res


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    t0 = time.time()
    deadline = t0 + (840 if TIER == "quick" else 7000)
    violations, coverage, err = [], {}, None
    try:
        for part in spec["parts"]:
            name, args = part[0], part[1]
            if name == "kani":
                coverage.update(kani_check.check(prop, args, deadline, violations, TIER))
            elif name == "sym":
                import sym_check
                coverage["histories" if "symexec" in coverage else "symexec"] = sym_check.check(prop, args, deadline, violations, TIER, SEED)
            if violations:
                break
    except Inconclusive as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    known = known_findings(prop)
    fresh = []
    for key, desc, path in violations:
        if key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
        else:
            fresh.append((key, desc, path))
    coverage["explanation"] = spec["explanation"]
    coverage["bounds"] = spec["bounds"]
    if err:
        coverage["inconclusive"] = err[-2000:]
    engines = [coverage[k] for k in ("histories", "symexec") if k in coverage]
    for k in ("states", "transitions", "traces_validated_against_impl", "samples"):
        coverage[k] = sum((e.pop(k) for e in engines if k in e), [] if k == "samples" else 0)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": spec["level"], "coverage": coverage,
          "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, desc, path in fresh:
        print(desc)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if fresh:
        sys.exit(1)
    if err:
        print("INCONCLUSIVE property=%s: %s" % (prop, err))
        sys.exit(2)
    print("OK property=%s (%s, %.1f s)" % (prop, TIER, time.time() - t0))


main()
