"""C07: closing returns, is final, and disturbs nobody else."""
import os
import callcheck
import checks_c14
import checks_c18
from vlib import build_driver

def run(c):
    sim = build_driver("sched", "reader_sim", ["reader_sim.cpp", "sim.cpp"], wraps=["mmap", "munmap"])
    cfg = build_driver("sched", "cfg_sim", ["cfg_sim.cpp", "sim.cpp"], wraps=["mmap", "munmap"])
    calls = callcheck.build_sim()
    logs = checks_c14.build_sim()
    c.model("MCReader", "MCReader.cfg")
    d = os.path.join(c.tmp, "root")
    os.makedirs(d, exist_ok=True)
    for fine, b, n, r in ([(0, 3, 3000, 500), (1, 2, 3000, 300)] if c.quick else [(0, 4, 40000, 8000), (1, 3, 30000, 5000)]):
        f = os.path.join(c.tmp, "sim.ndjson")
        if c.drive(sim, ["close", d, b, n, r, fine, c.seed], f, timeout=600) is not None:
            c.validate("ReaderTrace", "ReaderTrace.cfg", f, label="readers b=%d fine=%d" % (b, fine))
    for fine, b, n, r in ([(0, 3, 3000, 300), (1, 2, 1500, 200)] if c.quick else [(0, 4, 20000, 3000), (1, 3, 20000, 3000)]):
        f = os.path.join(c.tmp, "cfg.ndjson")
        if c.drive(cfg, ["close", d, b, n, r, 0, fine, c.seed], f, timeout=600) is not None:
            c.validate("CfgTrace", "CfgTrace.cfg", f, label="configuration watchers b=%d fine=%d" % (b, fine))
    for fine, b, n, r in ([(0, 2, 1500, 200)] if c.quick else [(0, 3, 15000, 2000), (1, 2, 5000, 1000)]):
        for proto in ("rpc", "prpc"):
            callcheck.close_set(c, calls, proto, d, fine, b, n, r)
        checks_c14.sim_set(c, logs, "close", d, fine, b, n, r)
    checks_c18.sched_set(c, checks_c18.build(), "close", *((1, 60, 16) if c.quick else (2, 1500, 48)))
    c.assumptions.append("the futex part of the kernel is simulated; a C++ handle is closed by destroying it, which its own callback cannot do")
    c.cover["rule"] = "a close at every point of the life of a background reader (systematic up to the given number of forced switches, random beyond)"
