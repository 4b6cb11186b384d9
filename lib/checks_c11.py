"""C11: configuration topics: patches are atomic, exactly one write-if-empty wins, reads and watchers see current values."""
import os
from vlib import build_driver

def run(c):
    seq = build_driver("asan", "cfg_seq", ["cfg_seq.cpp"])
    sim = build_driver("sched", "cfg_sim", ["cfg_sim.cpp", "sim.cpp"], wraps=["mmap", "munmap"])
    c.model("MCCfg", "MCCfgQuick.cfg" if c.quick else "MCCfg.cfg")
    d = os.path.join(c.tmp, "root")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(c.tmp, "seq.ndjson")
    if c.drive(seq, [d] + ([400, 30] if c.quick else [4000, 60]) + [c.seed], f) is not None:
        c.validate("CfgTrace", "CfgTrace.cfg", f, label="every value under every patch, random programs")
    for fine, b, n, r, k in ([(0, 3, 4000, 500, 0), (0, 2, 2000, 500, 1), (1, 2, 2000, 300, 1)] if c.quick
                             else [(0, 4, 60000, 5000, 0), (0, 3, 20000, 5000, 1), (1, 3, 20000, 3000, 1)]):
        f = os.path.join(c.tmp, "sim.ndjson")
        if c.drive(sim, ["use", d, b, n, r, k, fine, c.seed], f, timeout=600) is not None:
            c.validate("CfgTrace", "CfgTrace.cfg", f, label="schedules b=%d kills=%d fine=%d" % (b, k, fine))
    c.assumptions.append("the yyjson library is replaced by a stand-in with the same interface whose parsing and merging is done by another JSON library")
    c.cover["rule"] = ("fourteen values (objects, nested nulls, arrays, scalars, invalid and empty payloads) each patched with each, documents up to the size of "
                       "the topic, C and C++ users, variables; concurrent patches, writes, write-if-empty, waiting and timed reads and watchers under "
                       "systematic schedules with deaths")
