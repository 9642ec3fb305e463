"""Runs the Kani harnesses of one property against /repo's current tree and triages what they report."""
import collections
import json
import os
import re
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(ROOT, "harness", "kani")
TARGET = os.path.join(ROOT, "target", "kani")

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)


class Inconclusive(Exception):
    pass


def run(cmd, timeout, env=None, **kw):
    """Runs a command in its own process group, so that a timeout ends all of it."""
    import signal
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, env=env or ENV, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


class Native:
    """The native replay binary, built from the same harness sources in dev and release profile."""

    def __init__(self):
        self.bins = None

    def build(self):
        if self.bins:
            return self.bins
        bins = {}
        for profile, directory in (("dev", "debug"), ("plain", "plain")):
            cmd = ["cargo", "+stable", "build", "--offline", "--bin", "replay", "--profile", profile, "--target-dir",
                   os.path.join(TARGET, "native")]
            rc, out = run(cmd, 300, cwd=CRATE)
            if rc != 0:
                raise Inconclusive("the native replay binary does not build:\n" + out[-3000:])
            bins["debug" if profile == "dev" else "release"] = os.path.join(TARGET, "native", directory, "replay")
        self.bins = bins
        return bins

    def names(self):
        rc, out = run([self.build()["debug"], "--list"], 60)
        return out.split()

    def replay(self, harness, values_file):
        """Returns the profiles in which the property fails on these values."""
        bad = []
        for profile, b in self.build().items():
            rc, out = run([b, harness, values_file], 60)
            if rc is None or rc not in (0, 77):
                bad.append((profile, "timeout" if rc is None else rc, out.strip()[-400:]))
        return bad


def kani(args, timeout, export):
    if os.path.exists(export):
        os.remove(export)
    cmd = ["cargo", "kani", "--target-dir", TARGET, "--output-format=terse", "-Z", "unstable-options"] + args
    if "-j" in args:
        cmd += ["--export-json", export]
    return run(cmd, timeout, cwd=CRATE)


def playback_sets(text):
    """The value vectors of every `concrete_vals` block that Kani prints."""
    sets = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S):
        vals = []
        for line in block.splitlines():
            m = re.match(r"\s*vec!\[([^\]]*)\],?\s*$", line)
            if m:
                vals.append([int(x) for x in m.group(1).replace(" ", "").split(",") if x])
        if vals not in sets:
            sets.append(vals)
    return sets


def check_kani(prop, prefixes, native, wanted, deadline, violations, harness_timeout):
    """Runs Kani on the given harnesses. Appends (key, description, replay path) to `violations`. Returns the
    coverage record, the harnesses it leaves undecided (with why) and the witnesses it did not reach."""
    t0 = time.time()
    export = os.path.join(TARGET, "export-%s.json" % prop)
    args = ["-j", "8", "--harness-timeout", "%ds" % harness_timeout]
    for p in prefixes:
        args += ["--harness", p]
    rc, out = kani(args, max(60, deadline - time.time()), export)
    if rc is None:
        raise Inconclusive("Kani ran out of time")
    if not os.path.exists(export):
        raise Inconclusive("Kani produced no result:\n" + out[-3000:])
    data = json.load(open(export))
    results = {r["harness_id"].split("::")[-1]: r for r in data["verification_results"]["results"]}
    missing = [n for n in wanted if n not in results]
    if missing:
        raise Inconclusive("harnesses without a result: %s" % missing[:5])

    files, functions, total, covers, dur, unsat = set(), set(), 0, 0, 0, []
    undecided, candidates = [], []
    for name in wanted:
        r = results[name]
        dur += r.get("duration_ms", 0)
        unwind = False
        bad = []
        for c in r.get("checks", []):
            st = c["status"].upper()
            loc = (c.get("location") or {})
            if "/repo/" in (loc.get("file") or ""):
                files.add(loc["file"])
                functions.add(c.get("function") or "")
            if c.get("category") == "cover" or st in ("SATISFIED", "UNSATISFIABLE"):
                covers += 1
                if st != "SATISFIED":
                    unsat.append((name, c.get("description")))
                continue
            total += 1
            if st in ("SUCCESS", "UNREACHABLE"):
                continue
            if "unwinding assertion" in (c.get("description") or "") or c.get("category") == "unwind":
                unwind = True
            elif st == "FAILURE":
                bad.append(c.get("description"))
        if bad:
            candidates.append((name, r["harness_id"], sorted(set(bad)), unwind))
        elif r["status"].upper() != "SUCCESS":
            undecided.append((name, r["harness_id"], unwind))

    def concretise(name, full, extra=()):
        rc, out = kani(["--exact", "--harness", full, "-Z", "concrete-playback",
                        "--concrete-playback=print", "--harness-timeout", "%ds" % harness_timeout, *extra],
                       min(max(30, deadline - time.time()), harness_timeout + 60), export + ".x")
        return out or ""

    # A loop that runs further than the harness's bound: retry with a larger one.
    for name, full, unwind in list(undecided):
        if not unwind or time.time() > deadline - 60:
            continue
        for bound in ("96", "200"):
            out = concretise(name, full, ("--unwind", bound))
            if "VERIFICATION:- SUCCESSFUL" in out:
                undecided.remove((name, full, unwind))
                break
            if "unwinding assertion" not in out:
                candidates.append((name, full, ["(with unwind %s)" % bound], False))
                undecided.remove((name, full, unwind))
                break

    unconfirmed = {n: "undecided" for n, _, _ in undecided}
    replays = 0
    rdir = os.path.join(ROOT, "evidence", "replay")
    for name, full, descs, unwind in candidates:
        if len([v for v in violations]) >= 3 or (violations and time.time() > deadline - 120):
            break
        out = concretise(name, full)
        sets = playback_sets(out)
        confirmed = None
        os.makedirs(rdir, exist_ok=True)
        for i, vals in enumerate(sets):
            path = os.path.join(rdir, "%s-%s-%d.values" % (prop, name, i))
            with open(path, "w") as f:
                f.write("# %s, harness %s: %s\n" % (prop, full, "; ".join(map(str, descs))))
                f.write("# replay: cd %s && cargo +stable run --offline --bin replay -- %s %s\n" % (CRATE, name, path))
                for v in vals:
                    f.write(" ".join(map(str, v)) + "\n")
            replays += 1
            bad = native.replay(name, path)
            if bad:
                confirmed = (path, bad)
                break
            os.remove(path)
        if confirmed:
            path, bad = confirmed
            violations.append((name, "%s: %s [%s]" % (name, "; ".join(map(str, descs)), bad), path))
        else:
            unconfirmed[name] = "%s (%d counterexamples, none reproduces natively)" % (descs, len(sets))
    solver_s = 0.0
    for c in data.get("cbmc", []):
        st = (c or {}).get("cbmc_stats") or {}
        for k, v in st.items():
            if "solver" in k and isinstance(v, (int, float)):
                solver_s += v
    return unconfirmed, unsat, {
        "engine": "Kani 0.68 / CBMC 6.11 (MIR of the current tree -> GOTO -> SAT)",
        "harnesses": len(wanted),
        "checks_discharged": total,
        "witnesses_satisfied": covers - len(unsat),
        "functions_encoded": sorted(f for f in functions if f)[:400],
        "repo_files": sorted(files),
        "harness_time_s": round(dur / 1000.0, 1),
        "solver_s": round(solver_s, 2),
        "counterexamples_replayed": replays,
        "wall_s": round(time.time() - t0, 1),
        "samples": ["%s: %d checks, %s" % (n, len(results[n].get("checks", [])), results[n]["status"]) for n in wanted[:6]],
    }


SYM_TARGET = os.path.join(ROOT, "target", "symk")


def check_sym(prop, native, wanted, deadline, violations):
    """Runs the symbolic executor on the same harnesses. As check_kani; also returns the witnesses reached."""
    import sym_check
    from concurrent.futures import ThreadPoolExecutor
    t0 = time.time()
    errs = []

    def go(f):
        try:
            f()
        except Exception as e:
            errs.append(e)
    ir = os.path.join(SYM_TARGET, "ck.ll")
    import threading
    ts = [threading.Thread(target=go, args=(f,)) for f in
          (lambda: sym_check.build_ir(CRATE, SYM_TARGET, "ck", ir), sym_check.build_engine)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    built = time.time() - t0

    def one(name):
        left = deadline - time.time()
        if left < 10:
            return name, None, 0.0
        t1 = time.time()
        rc, out = run([sym_check.ENGINE, ir, name, "--jobs", "1", "--time", str(int(left - 5))], left)
        return name, sym_check.parse(out) if rc == 0 else None, time.time() - t1

    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    undecided, reached, per = {}, set(), []
    total, lines, samples, validated, replays = collections.Counter(), set(), [], 0, 0
    with ThreadPoolExecutor(8) as pool:
        results = list(pool.map(one, wanted))
    for name, r, secs in results:
        if r is None:
            undecided[name] = "the executor gave no answer"
            continue
        total.update(r["n"])
        lines |= r["lines"]
        reached |= {(name, w) for w in r["covers"]}
        for i, f in enumerate(r["findings"]):
            if len(violations) >= 3:
                break
            path = os.path.join(rdir, "%s-%s-s%d.values" % (prop, name, i))
            with open(path, "w") as o:
                o.write("# %s, harness %s: %s: %s\n# replay: cd %s && cargo +stable run --offline --bin replay -- %s %s\n#words\n"
                        % (prop, name, f["kind"], f["message"], CRATE, name, path))
                o.write("\n".join(str(v) for v in f["inputs"]) + "\n")
            replays += 1
            bad = native.replay(name, path)
            if bad:
                violations.append((name, "%s: %s: %s [%s]" % (name, f["kind"], f["message"], bad), path))
                break
            os.remove(path)
            undecided[name] = "a counterexample does not reproduce natively: %s: %s %s" % (f["kind"], f["message"], f["inputs"][:30])
        if r["end"] != "done":
            undecided[name] = r["end"]
        for why in r["inconclusive"]:
            undecided[name] = why
        for i, smp in enumerate(r["samples"][:2]):
            path = os.path.join(SYM_TARGET, "sample-%s-%d.values" % (name, i))
            with open(path, "w") as o:
                o.write("#words\n" + "\n".join(str(v) for v in smp["inputs"]) + "\n")
            rc, out = run([native.build()["debug"], name, path], 60)
            os.remove(path)
            trace = [json.loads(ln[6:]) for ln in out.splitlines() if ln.startswith("TRACE ")]
            if rc != 0 or trace != [smp["trace"]]:
                undecided[name] = "the native run differs from the symbolic one: %s %s %s" % (rc, trace, smp)
            else:
                validated += 1
        if r["samples"] and len(samples) < 6:
            samples.append({"harness": name, "inputs": r["samples"][0]["inputs"], "trace": r["samples"][0]["trace"]})
        per.append((secs, "%s: %d paths, %d assertions (%d symbolic), %d queries, %.1f s"
                    % (name, r["n"]["paths"], r["n"]["asserts"], r["n"]["asserts_symbolic"], r["n"]["queries"], secs)))
    return undecided, reached, {
        "engine": "symexec: LLVM IR of the current tree, executed symbolically; branches and assertions decided by z3 (QF_BV)",
        "harnesses": len(wanted),
        "paths": total["paths"],
        "states": total["paths"] + total["forks"],
        "transitions": total["instructions"],
        "assertions": total["asserts"],
        "assertions_over_symbols": total["asserts_symbolic"],
        "solver_queries": total["queries"],
        "solver_sat": total["sat"],
        "solver_unsat": total["unsat"],
        "solver_s": round(total["solver_us"] / 1e6, 2),
        "functions_encoded": sym_check.functions(lines),
        "traces_validated_against_impl": validated,
        "counterexamples_replayed": replays,
        "slowest": [p[1] for p in sorted(per, reverse=True)[:6]],
        "samples": samples,
        "build_s": round(built, 1),
        "wall_s": round(time.time() - t0, 1),
    }


def check(prop, prefixes, deadline, violations, tier="quick"):
    """Decides the harnesses with the given name prefixes with both engines. Raises Inconclusive when a harness is
    left undecided by both. Returns the coverage record."""
    native = Native()
    wanted = [n for n in native.names() if any(n.startswith(p) for p in prefixes)]
    if not wanted:
        raise Inconclusive("no harness")
    res, notes = {}, []
    s_und, reached = dict.fromkeys(wanted, "not run"), set()
    try:
        s_und, reached, res["symexec"] = check_sym(prop, native, wanted, min(deadline, time.time() + 600), violations)
    except Inconclusive as e:
        notes.append("symexec: %s" % e)
    if violations:
        return res
    k_und, k_unsat = dict.fromkeys(wanted, "not run"), None
    # the names Kani shares: `<prefix>x_` harnesses have larger bounds, for the symbolic executor alone
    shared = [n for n in wanted if not n.startswith(prop.lower() + "x_")]
    limit = (110, 330) if tier == "quick" else (900, 5000)
    try:
        und, k_unsat, res["kani"] = check_kani(prop, [prop.lower() + "_"], native, shared,
                                               min(deadline - 20, time.time() + limit[1]), violations, limit[0])
        k_und = dict({n: "not for Kani" for n in wanted if n not in shared}, **und)
    except Inconclusive as e:
        notes.append("Kani: %s" % e)
    if violations:
        return res
    res["undecided_by_symexec"] = s_und
    res["undecided_by_kani"] = {n: w for n, w in k_und.items() if w != "not for Kani"}
    res["notes"] = notes
    open_ = {n: (s_und[n], k_und[n]) for n in wanted if n in s_und and n in k_und}
    if open_:
        raise Inconclusive("decided by neither engine: %s; %s" % (str(dict(list(open_.items())[:4]))[:1500], notes))
    missing = [w for w in k_unsat or [] if w not in reached]
    missing += [n for n in wanted if n in k_und and not any(r[0] == n for r in reached)]
    if missing:
        raise Inconclusive("unreached witnesses: %s" % missing[:5])
    return res
