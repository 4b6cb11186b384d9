"""C04: condition variable, event and latch under every schedule and crash point."""
import os
from vlib import build_driver

def run(c):
    exe = build_driver("sched", "mtx_sim", ["mtx_sim.cpp", "sim.cpp"])
    exe2 = build_driver("sched", "event_sim", ["event_sim.cpp", "sim.cpp"])
    c.model("MCMutex", "MCMutex.cfg")
    c.model("FutexMutex", "FutexMutexQuick.cfg")
    plan = [(2, 1, 3000, 300)] if c.quick else [(3, 1, 40000, 4000), (2, 2, 30000, 6000), (4, 0, 30000, 4000)]
    for b, k, n, r in plan:
        f = os.path.join(c.tmp, "x.ndjson")
        if c.drive(exe, ["cnd", b, k, n, r, c.seed], f, timeout=300) is not None:
            c.validate("MutexTrace", "MutexTrace.cfg", f, label="condition b=%d deaths=%d" % (b, k))
        f = os.path.join(c.tmp, "y.ndjson")
        if c.drive(exe2, [b, k, n, r, c.seed], f, timeout=300) is not None:
            c.validate("EventLatchTrace", "EventLatchTrace.cfg", f, label="event and latch b=%d deaths=%d" % (b, k))
    c.assumptions.append("the futex part of the kernel is simulated (harness/sim.cpp): priority-inheritance hand-over is atomic, "
                         "memory is sequentially consistent")
    c.cover["rule"] = ("the library's own code runs one shared access at a time under a chosen schedule; systematic up to the given number of forced "
                       "switches and deaths (capped per scenario), random beyond")
