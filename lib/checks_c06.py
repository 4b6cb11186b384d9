"""C06: readers and subscribers deliver each packet once, in order, from the promised starting point."""
import os
from vlib import build_driver

def run(c):
    seq = build_driver("plain", "reader_seq", ["reader_seq.cpp"])
    sim = build_driver("sched", "reader_sim", ["reader_sim.cpp", "sim.cpp"], wraps=["mmap", "munmap"])
    c.model("MCReader", "MCReader.cfg")
    d = os.path.join(c.tmp, "root")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(c.tmp, "seq.ndjson")
    if c.drive(seq, [d] + ([4, 1500, 40] if c.quick else [5, 12000, 60]) + [c.seed], f) is not None:
        c.validate("ReaderTrace", "ReaderTrace.cfg", f, label="sequential histories")
    for fine, b, n, r in ([(0, 3, 1500, 200)] if c.quick else [(0, 4, 12000, 3000), (1, 3, 8000, 2000)]):
        f = os.path.join(c.tmp, "sim.ndjson")
        if c.drive(sim, ["read", d, b, n, r, fine, c.seed], f, timeout=600) is not None:
            c.validate("ReaderTrace", "ReaderTrace.cfg", f, label="schedules b=%d fine=%d" % (b, fine))
    c.assumptions.append("the futex part of the kernel is simulated for the scheduled part; what is evicted is C02's business: here the retained range is what the log reports")
    c.cover["rule"] = ("every history of the given length over {write, evicting write, clear, poll, blocking read} with all six modes created at every "
                       "position, for eight kinds of polling reader; background readers under systematic and random schedules")
