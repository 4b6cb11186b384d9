"""C05: concurrent users of a transport under every schedule."""
import os
from vlib import build_driver

def run(c):
    exe = build_driver("sched", "transport_sim", ["transport_sim.cpp", "sim.cpp"])
    c.model("MCTransport", "MCTransportWait.cfg" if c.quick else "MCTransport.cfg")
    plan = [("own", 2, 0, 8000, 800), ("own", 2, 1, 6000, 800), ("shared", 2, 0, 20000, 1500)] if c.quick else \
           [("own", 3, 0, 150000, 20000), ("own", 2, 1, 80000, 15000), ("own", 2, 2, 50000, 10000), ("shared", 3, 0, 300000, 30000)]
    for s, b, k, n, r in plan:
        f = os.path.join(c.tmp, "x.ndjson")
        if c.drive(exe, [s, b, k, n, r, c.seed], f, timeout=600) is not None:
            c.validate("TransportTrace", "TransportTrace.cfg", f, label="%s handles b=%d deaths=%d" % (s, b, k))
    c.assumptions.append("the futex part of the kernel is simulated (harness/sim.cpp); memory is sequentially consistent")
    c.cover["rule"] = ("the library's own code runs one shared access at a time under a chosen schedule; systematic up to the given number of forced "
                       "switches and deaths (capped per scenario), random beyond")
