"""Builds the scheduled replay binary: the module that the executor runs, with a call before every atomic operation,
as machine code, linked with harness/sched/driver.c."""
import os
import re

ATOMIC = re.compile(r"^  (%\S+ = )?(load atomic|store atomic|atomicrmw|cmpxchg) ")
PAUSE = re.compile(r"^  (tail |notail )?call void @llvm\.x86\.sse2\.pause\(\)")


def instrument(text):
    out = ["declare void @sched_point()", "declare void @sched_pause()"]
    head, body = [], text.splitlines()
    for line in body:
        if ATOMIC.match(line):
            head.append("  call void @sched_point()")
        if PAUSE.match(line):
            line = "  call void @sched_pause()"
        head.append(line)
    # declarations go after the target lines
    return "\n".join(head + out) + "\n"


def build(step, llvm_bin, ir, target, root, entries):
    os.makedirs(target, exist_ok=True)
    a, b, o = (os.path.join(target, n) for n in ("small.ll", "sched.ll", "sched.o"))
    step([os.path.join(llvm_bin, "opt"), "-S", ir, "-passes=internalize,globaldce,strip",
          "-internalize-public-api-list=" + ",".join(entries), "-o", a], root, "the module for scheduled runs")
    with open(a) as f:
        text = f.read()
    with open(b, "w") as f:
        f.write(instrument(text))
    step([os.path.join(llvm_bin, "llc"), "-O1", "-relocation-model=pic", "-filetype=obj", b, "-o", o], root,
         "the object for scheduled runs")
    binary = os.path.join(target, "sched")
    step(["gcc", "-O1", "-g", "-rdynamic", os.path.join(root, "harness", "sched", "driver.c"), o, "-o", binary,
          "-lpthread", "-ldl", "-lm", "-lgcc_s"], root, "the binary for scheduled runs")
    return binary
