"""Runs the symbolic executor over the harnesses of one property, compiled from /repo's current tree to LLVM IR,
and triages what it reports: every counterexample is run natively against the real code first."""
import collections
import glob
import json
import os
import subprocess
import threading
import time

from kani_check import ENV, Inconclusive, ROOT, run

CRATE = os.path.join(ROOT, "harness", "sym")
TARGET = os.path.join(ROOT, "target", "sym")
ENGINE = os.path.join(ROOT, "target", "symexec", "release", "symexec")
IR = os.path.join(TARGET, "sy.ll")


def llvm_bin():
    rc, out = run(["rustc", "+stable", "--print", "sysroot"], 60)
    return os.path.join(out.strip(), "lib", "rustlib", "x86_64-unknown-linux-gnu", "bin")


def step(cmd, cwd, what, timeout=500):
    rc, out = run(cmd, timeout, cwd=cwd)
    if rc != 0:
        raise Inconclusive("%s does not build:\n%s" % (what, out[-3000:]))


def build_ir(crate=CRATE, target=TARGET, name="sy", ir=IR):
    deps = os.path.join(target, "release", "deps")
    for f in glob.glob(os.path.join(deps, name + ".*.bc")):
        os.remove(f)
    cmd = ["cargo", "+stable", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--features", "sym",
           "--target-dir", target, "--", "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
    pattern = os.path.join(deps, "%s.%s.*-cgu.0.rcgu.bc" % (name, name))
    step(cmd, crate, "the harness module")
    if not glob.glob(pattern):
        # cargo thought it was fresh: the bitcode above was removed
        os.utime(os.path.join(crate, "src", "lib.rs"))
        step(cmd, crate, "the harness module")
    bc = glob.glob(pattern)
    if len(bc) != 1:
        raise Inconclusive("no bitcode: %s" % bc)
    step([os.path.join(llvm_bin(), "llvm-dis"), bc[0], "-o", ir], crate, "the text form of the module")


def build_engine():
    step(["cargo", "+stable", "build", "--release", "--offline", "--target-dir",
          os.path.join(ROOT, "target", "symexec")], os.path.join(ROOT, "symexec"), "the symbolic executor")


def build_native():
    for profile in ("dev", "plain"):
        step(["cargo", "+stable", "build", "--offline", "--bin", "replay", "--profile", profile, "--target-dir",
              os.path.join(TARGET, "native")], CRATE, "the native replay binary")


def build():
    errs = []

    def go(f):
        try:
            f()
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(f,)) for f in (build_ir, build_engine, build_native)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return {"debug": os.path.join(TARGET, "native", "debug", "replay"),
            "release": os.path.join(TARGET, "native", "plain", "replay")}


def parse(out):
    r = {"n": collections.Counter(), "covers": set(), "findings": [], "samples": [], "inconclusive": collections.Counter(),
         "lines": set(), "end": None}
    for line in out.splitlines():
        tag, _, rest = line.partition(" ")
        if tag == "N":
            k, v = rest.split()
            r["n"][k] += int(v)
        elif tag == "C":
            r["covers"].add(rest)
        elif tag == "V":
            r["findings"].append(json.loads(rest))
        elif tag == "S":
            r["samples"].append(json.loads(rest))
        elif tag == "I":
            n, _, why = rest.partition(" ")
            r["inconclusive"][why] += int(n)
        elif tag == "L":
            r["lines"].add(rest)
        elif tag == "E":
            r["end"] = rest
    return r


def write_values(path, head, record):
    with open(path, "w") as f:
        for h in head:
            f.write("# %s\n" % h)
        for s in record["sched"]:
            f.write("#sched %d %d %d\n" % tuple(s))
        f.write("\n".join(str(v) for v in record["inputs"]) + "\n")


def functions(lines):
    """The functions of /repo that were executed, with how many instances of generic ones."""
    c = collections.Counter()
    for ln in lines:
        place, name = ln.split(" ", 1)
        c[name.split("<")[0] + " (" + place.rsplit("/repo/", 1)[-1].split(":")[0] + ")"] += 1
    return ["%s x%d" % (k, v) if v > 1 else k for k, v in sorted(c.items())]


def native_run(binary, name, path, timeout=60):
    rc, out = run([binary, name, path], timeout)
    trace = None
    for line in out.splitlines():
        if line.startswith("TRACE "):
            trace = json.loads(line[6:])
    return rc, out, trace


def check(prop, args, deadline, violations, tier, seed):
    t0 = time.time()
    bins = build()
    built = time.time() - t0
    rc, out = run([bins["debug"], "--list"], 60)
    rows = [line.rstrip("\t").split("\t") for line in out.splitlines()]
    p = prop.lower()
    wanted = [r for r in rows if r[0].startswith(p + "_") or (tier == "thorough" and r[0].startswith(p + "t_"))]
    if not wanted:
        raise Inconclusive("no harness")
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    if args.get("scheduled"):
        # counterexamples and samples come with a schedule, which only this binary can follow
        import sched_build
        bins = {"debug": sched_build.build(step, llvm_bin(), IR, os.path.join(TARGET, "sched"), ROOT,
                                           [r[0] for r in wanted])}
    total = collections.Counter()
    lines, problems, samples, per = set(), [], [], []
    validated = 0
    for k, row in enumerate(wanted):
        name, witnesses = row[0], row[1:]
        left = deadline - time.time()
        if left < 20:
            problems.append("no time left for %s" % [r[0] for r in wanted[k:]])
            break
        opts = args.get(name, args.get("*", []))
        t1 = time.time()
        rc, out = run([ENGINE, IR, name, "--jobs", "8", "--time", str(int(left - 15))] + [str(x) for x in opts], left)
        if rc != 0:
            problems.append("%s: the executor ended with %s: %s" % (name, rc, out[-600:]))
            continue
        r = parse(out)
        total.update(r["n"])
        lines |= r["lines"]
        # counterexamples first
        seen = set()
        for i, f in enumerate(r["findings"]):
            key = "%s:%s" % (name, f["message"])
            if key in seen or len(violations) >= 4:
                continue
            path = os.path.join(rdir, "%s-%s-%d.values" % (prop, name, i))
            write_values(path, ["%s, harness %s: %s: %s" % (prop, name, f["kind"], f["message"]),
                                "replay: %s %s %s" % (bins["debug"], name, path)], f)
            bad = []
            for profile, b in bins.items():
                rc, nout, _ = native_run(b, name, path)
                if rc not in (0, 77, 78):
                    bad.append((profile, "timeout" if rc is None else rc, nout.strip()[-300:]))
            if bad:
                seen.add(key)
                violations.append((key, "%s: %s: %s %s" % (name, f["kind"], f["message"], bad), path))
            else:
                os.remove(path)
                problems.append("%s: a counterexample does not reproduce natively: %s: %s %s"
                                % (name, f["kind"], f["message"], f["inputs"][:40]))
        if violations:
            break
        if r["end"] != "done":
            problems.append("%s: %s" % (name, r["end"]))
        for why, n in r["inconclusive"].items():
            problems.append("%s: %d paths: %s" % (name, n, why))
        missing = [w for w in witnesses if w and w not in r["covers"]]
        if missing:
            problems.append("%s: unreached witnesses %s" % (name, missing))
        # the same inputs natively give the same observations
        ok = 0
        for i, s in enumerate(r["samples"][:12]):
            path = os.path.join(TARGET, "sample-%s-%d.values" % (name, i))
            write_values(path, [], s)
            rc, nout, trace = native_run(bins["debug"], name, path)
            os.remove(path)
            if rc != 0 or trace != s["trace"]:
                problems.append("%s: the native run differs from the symbolic one: %s %s %s (inputs %s)"
                                % (name, rc, trace, s["trace"], s["inputs"][:40]))
                break
            ok += 1
        validated += ok
        samples += [{"harness": name, "inputs": s["inputs"], "schedule": s["sched"], "trace": s["trace"]}
                    for s in r["samples"][:2]]
        per.append("%s: %d paths, %d instructions, %d assertions (%d symbolic), %.1f s"
                   % (name, r["n"]["paths"], r["n"]["instructions"], r["n"]["asserts"], r["n"]["asserts_symbolic"],
                      time.time() - t1))
    if problems and not violations:
        raise Inconclusive("; ".join(problems)[:3000])
    return {
        "engine": "symexec: LLVM IR of the current tree, executed symbolically; branches and assertions decided by z3 (QF_BV)",
        "harnesses": per,
        "states": total["paths"] + total["forks"],
        "transitions": total["instructions"],
        "paths": total["paths"],
        "forks": total["forks"],
        "thread_switches": total["switches"],
        "redundant_schedules_cut": total["schedules_pruned"],
        "assertions": total["asserts"],
        "assertions_over_symbols": total["asserts_symbolic"],
        "solver_queries": total["queries"],
        "solver_sat": total["sat"],
        "solver_unsat": total["unsat"],
        "queries_answered_from_cache": total["queries_cached"],
        "branch_queries_decided_by_evaluation": total["queries_enumerated"],
        "solver_s": round(total["solver_us"] / 1e6, 2),
        "functions_encoded": functions(lines),
        "repo_lines_executed": len({ln.split(" ")[0] for ln in lines}),
        "traces_validated_against_impl": validated,
        "samples": samples[:8],
        "build_s": round(built, 1),
        "wall_s": round(time.time() - t0, 1),
    }
