"""C03: the process-shared mutex under every schedule and crash point."""
import os
from vlib import build_driver

def run(c):
    exe = build_driver("sched", "mtx_sim", ["mtx_sim.cpp", "sim.cpp"])
    c.model("MCMutex", "MCMutexLive.cfg")
    c.model("MCMutex", "MCMutex.cfg")
    c.model("FutexMutex", "FutexMutexQuick.cfg" if c.quick else "FutexMutex.cfg")
    if not c.quick:
        c.model("FutexMutex", "FutexMutexLive.cfg")
    plan = [("many", 1, 1, 1500, 300, 1), ("mtx", 2, 1, 4000, 400, 0), ("mtx", 3, 0, 4000, 400, 0)] if c.quick else \
           [("many", 2, 1, 10000, 2000, 1), ("mtx", 3, 1, 40000, 4000, 0), ("mtx", 2, 2, 40000, 6000, 0), ("mtx", 4, 0, 40000, 4000, 0)]
    for what, b, k, n, r, fine in plan:
        f = os.path.join(c.tmp, "x.ndjson")
        if c.drive(exe, [what, b, k, n, r, c.seed], f, timeout=300, tail=[fine]) is not None:
            c.validate("MutexTrace", "MutexTrace.cfg", f, label="schedules %s b=%d deaths=%d fine=%d" % (what, b, k, fine))
    c.assumptions.append("the futex part of the kernel is simulated (harness/sim.cpp): priority-inheritance hand-over is atomic, "
                         "memory is sequentially consistent")
    c.cover["rule"] = ("the library's own code runs one shared access at a time under a chosen schedule; systematic up to the given number of forced "
                       "switches and deaths (capped per scenario), random beyond")
