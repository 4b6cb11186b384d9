"""C18: discovery, one system call at a time, while the directory tree changes."""
import os
import shutil
import tempfile
from vlib import build_driver

def build(flavor="plain"):
    return build_driver(flavor, "disc_sched", ["disc_sched.cpp"])

def sched_set(c, exe, what, b, n, r, k=0):
    d = tempfile.mkdtemp(prefix="verif-c18-")      # where an unprivileged user can get to
    try:
        os.chmod(d, 0o755)
        f = os.path.join(c.tmp, "disc.ndjson")
        if c.drive(exe, [d, what, b, n, r, c.seed + 1000 * k], f, timeout=800) is not None:
            c.validate("DiscoveryTrace", "DiscoveryTrace.cfg", f, label="discovery %s switches=%d" % (what, b))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(c):
    exe, asan = build(), build("asan")
    c.model("DiscoveryImpl", "DiscoveryImplQuick.cfg" if c.quick else "DiscoveryImpl.cfg")
    sched_set(c, exe, "flood", 0, 1, 0)
    if c.quick:
        plan = [(exe, 1, 250, 24, 0), (exe, 2, 100, 24, 1), (asan, 1, 10, 40, 2)]
    else:
        plan = [(exe, 1, 3000, 60, 0), (exe, 2, 3000, 60, 1), (exe, 3, 2000, 60, 2), (asan, 1, 100, 100, 3)]
    for e, b, n, r, k in plan:
        sched_set(c, e, "all", b, n, r, k)
    c.assumptions.append("system calls are atomic; files come into being by creation or linking, not by renaming")
    c.cover["rule"] = ("changes of the tree at every place among the system calls of the discovery, up to the given number of interruptions "
                       "(all of them for one, up to a cap per scenario), in fixed and random scenarios; overflow of the notification queue")
