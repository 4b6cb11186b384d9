"""C08: the deadman under every schedule and crash point."""
import os
from vlib import build_driver

def run(c):
    exe = build_driver("sched", "deadman_sim", ["deadman_sim.cpp", "sim.cpp"])
    exe2 = build_driver("plain", "deadman_file", ["deadman_file.cpp"])
    c.model("MCDeadman", "MCDeadmanLive.cfg")
    if not c.quick:
        c.model("MCDeadman", "MCDeadman.cfg")
    plan = [(3, 0, 6000, 500), (2, 1, 6000, 700)] if c.quick else [(4, 0, 60000, 8000), (3, 1, 60000, 8000)]
    for b, k, n, r in plan:
        f = os.path.join(c.tmp, "x.ndjson")
        if c.drive(exe, ["main", b, k, n, r, c.seed], f, timeout=600) is not None:
            c.validate("DeadmanTrace", "DeadmanTrace.cfg", f, label="schedules b=%d deaths=%d" % (b, k))
        f = os.path.join(c.tmp, "y.ndjson")
        if c.drive(exe, ["relock", b, k, n, r, c.seed], f, timeout=600) is not None:
            c.validate("DeadmanTrace", "DeadmanTrace.cfg", f, label="relock")
    d = os.path.join(c.tmp, "root")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(c.tmp, "z.ndjson")
    if c.drive(exe2, [d, 600 if c.quick else 5000, 60, c.seed], f, timeout=600) is not None:
        c.validate("DeadmanTrace", "DeadmanTrace.cfg", f, label="files and processes")
    c.assumptions.append("the futex part of the kernel is simulated (harness/sim.cpp), memory is sequentially consistent; one death per run "
                         "(a second death of the one thread the kernel woke is not considered)")
    c.cover["rule"] = ("the library's own code runs one shared access at a time under a chosen schedule; systematic up to the given number of forced "
                       "switches and deaths (capped per scenario), random beyond; plus real processes on deadman files, some killed")
