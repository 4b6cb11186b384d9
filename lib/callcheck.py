"""What C12 and C13 share: both kinds of calls are behaviours of Calls.tla."""
import os
from vlib import build_driver

def build_sim():
    return build_driver("sched", "call_sim", ["call_sim.cpp", "sim.cpp"], wraps=["mmap", "munmap"])

def run(c, proto, model):
    seq = build_driver("asan", "call_seq", ["call_seq.cpp"])
    sim = build_sim()
    c.model("MCCalls", model)
    d = os.path.join(c.tmp, "root")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(c.tmp, "seq.ndjson")
    if c.drive(seq, [proto, d] + ([150, 25] if c.quick else [2000, 30]) + [c.seed], f, timeout=600) is not None:
        c.validate("CallsTrace", "CallsTrace.cfg", f, label="random programs with real threads")
    for fine, b, n, r in ([(0, 2, 1500, 200), (1, 1, 300, 200)] if c.quick else [(0, 3, 15000, 2000), (1, 2, 5000, 1000)]):
        f = os.path.join(c.tmp, "sim.ndjson")
        if c.drive(sim, [proto, "use", d, b, n, r, fine, c.seed], f, timeout=600) is not None:
            c.validate("CallsTrace", "CallsTrace.cfg", f, label="schedules b=%d fine=%d" % (b, fine))
    c.assumptions.append("topics are large enough that nothing is overwritten before it is read; ids of packets are unique; "
                         "handles are not closed while another thread is calling them")
    c.cover["rule"] = ("clients and servers in C and C++ opened, closed, sending with callback, without, as future and blocking, replying within and after the "
                       "request callback, more than once, cancelling own and others' requests, next to malformed packets of others: random programs and "
                       "systematic schedules")

def close_set(c, sim, proto, d, fine, b, n, r):
    f = os.path.join(c.tmp, proto + ".ndjson")
    if c.drive(sim, [proto, "close", d, b, n, r, fine, c.seed], f, timeout=600) is not None:
        c.validate("CallsTrace", "CallsTrace.cfg", f, label="%s servers and clients b=%d fine=%d" % (proto, b, fine))
