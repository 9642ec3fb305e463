#!/usr/bin/env python3
"""plant.py BUGS.py [id...]: turns replacements into /verif/seeded/<id>/ after confirming, in a scratch copy at
/tmp/wt, that the change builds, passes the stable tests, and that its demonstration tells the two trees apart.

BUGS.py defines B = {id: dict(prop, edits=[(file, old, new)], main, needs, breaks)}."""
import json, os, runpy, shutil, subprocess, sys

WT = "/tmp/wt"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = '''#!/bin/bash
# Builds main.rs against the crates of /repo in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp /repo/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
crabslab = { path = "/repo/crates/crabslab" }
DEPS
T
[ -d "$here/wgpu" ] && cp -r "$here/wgpu" "$d/wgpu" && printf '[patch.crates-io]\nwgpu = { path = "wgpu" }\n' >> "$d/Cargo.toml" && cp "$here/Cargo.lock" "$d/Cargo.lock"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$d/target"
[ -d /repo/target ] && export CARGO_TARGET_DIR=/repo/target
cd "$d" || exit 9
cargo build --offline --quiet 2> build.log || { tail -40 build.log; exit 8; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout


def stable(out):
    ok = json.load(open(out))
    return ok


def main():
    bugs = runpy.run_path(sys.argv[1])["B"]
    ids = sys.argv[2:] or list(bugs)
    for i in ids:
        b = bugs[i]
        assert sh("git -C /repo status --porcelain")[1] == "", "dirty /repo"
        src = {}
        for f, old, new in b["edits"]:
            p = "/repo/" + f
            t = src.get(p) or open(p).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            src[p] = t.replace(old, new)
        d = os.path.join(SEEDED, i)
        os.makedirs(d, exist_ok=True)
        deps = b.get("deps", 'craballoc = { path = "/repo/crates/craballoc" }' if "craballoc" in b["main"] else "")
        open(d + "/demo.sh", "w").write(DEMO.replace("DEPS", deps))
        os.chmod(d + "/demo.sh", 0o755)
        if b.get("device"):
            shutil.rmtree(d + "/wgpu", ignore_errors=True)
            shutil.copytree(os.path.join(os.path.dirname(SEEDED), "stubs", "wgpu"), d + "/wgpu", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
            shutil.copy(os.path.join(os.path.dirname(SEEDED), "harness", "sym", "Cargo.lock"), d)
        open(d + "/main.rs", "w").write(b["main"].lstrip())
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = False
        try:
            rc, out = sh(["bash", d + "/demo.sh"], cwd="/repo")
            if rc != 0:
                print(i, "BAD: the demonstration fails on the unchanged tree", rc, out[-1500:]); continue
            for p, t in src.items():
                open(p, "w").write(t)
            diff = sh("git -C /repo diff")[1]
            rc, out = sh("bash /opt/vp/build.sh")
            if rc != 0:
                print(i, "BAD: does not build", out[-1500:]); continue
            sh("bash /opt/vp/test.sh /tmp/plant/t.json")
            res = open("/tmp/plant/t.json").read()
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            r = json.loads(res)
            passed = set(r.get("passed", [])) if "passed" in r else {k for k, v in r.items() if v in ("pass", "passed", True)}
            missing = [t for t in base if t not in passed]
            if missing:
                print(i, "BAD: tests fail", missing); continue
            rc, out = sh(["bash", d + "/demo.sh"], cwd="/repo")
            if rc in (0, 8, 9):
                print(i, "BAD: the demonstration passes with the change", rc, out[-800:]); continue
            open(d + "/patch.diff", "w").write(diff)
            ok = True
            print(i, "ok", rc, out.strip().splitlines()[-3:][:2])
        finally:
            sh("git -C /repo checkout -- .")
            if not ok and not os.path.exists(d + "/patch.diff"):
                shutil.rmtree(d)
    sh("bash /opt/vp/build.sh")


main()
