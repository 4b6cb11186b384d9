"""C14: log listeners get exactly the messages at or above their level."""
import os
from vlib import build_driver

def build_sim():
    return build_driver("sched", "log_sim", ["log_sim.cpp", "sim.cpp"], wraps=["mmap", "munmap"])

def sim_set(c, sim, what, d, fine, b, n, r):
    f = os.path.join(c.tmp, "log.ndjson")
    if c.drive(sim, [what, d, b, n, r, fine, c.seed], f, timeout=600) is not None:
        c.validate("LogTrace", "LogTrace.cfg", f, label="log %s b=%d fine=%d" % (what, b, fine))

def run(c):
    seq = build_driver("asan", "log_seq", ["log_seq.cpp"])
    sim = build_sim()
    c.model("MCLog", "MCLogQuick.cfg" if c.quick else "MCLog.cfg")
    d = os.path.join(c.tmp, "root")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(c.tmp, "seq.ndjson")
    if c.drive(seq, [d] + ([600, 25] if c.quick else [10000, 40]) + [c.seed], f, timeout=600) is not None:
        c.validate("LogTrace", "LogTrace.cfg", f, label="random programs with real threads")
    for fine, b, n, r in ([(0, 2, 1500, 300), (1, 1, 400, 200)] if c.quick else [(0, 3, 20000, 2000), (1, 2, 5000, 1000)]):
        sim_set(c, sim, "use", d, fine, b, n, r)
    c.assumptions.append("topics are large enough that nothing is overwritten before it is read; listeners have a valid level")
    c.cover["rule"] = ("loggers and listeners in C and C++, every level and listener level, every start and iteration mode, messages without or with invalid "
                       "levels, with level headers of the user's own, packets of others: random programs and systematic schedules")
