"""C10: each write adds exactly one packet carrying truthful standard headers."""
import os
from vlib import build_driver

def run(c):
    seq = build_driver("asan", "writer_seq", ["writer_seq.cpp"])
    sim = build_driver("sched", "writer_sim", ["writer_sim.cpp", "sim.cpp"], wraps=["mmap", "munmap"])
    c.model("MCWriter", "MCWriterQuick.cfg" if c.quick else "MCWriter.cfg")
    d = os.path.join(c.tmp, "root")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(c.tmp, "seq.ndjson")
    if c.drive(seq, [d] + ([300, 30] if c.quick else [4000, 60]) + [c.seed], f) is not None:
        c.validate("WriterTrace", "WriterTrace.cfg", f, label="programs of pushing, wrapping, composing and writing")
    for fine, b, n, r, k in ([(0, 3, 8000, 1000, 0), (0, 2, 3000, 500, 1), (1, 1, 1500, 100, 0)] if c.quick else [(0, 4, 40000, 5000, 0), (0, 3, 20000, 5000, 1), (1, 3, 10000, 3000, 1)]):
        f = os.path.join(c.tmp, "sim.ndjson")
        if c.drive(sim, [d, b, n, r, k, fine, c.seed], f, timeout=600) is not None:
            c.validate("WriterTrace", "WriterTrace.cfg", f, label="schedules b=%d kills=%d fine=%d" % (b, k, fine))
    c.assumptions.append("JSON merge patches are C11's; the yyjson library is replaced by a stand-in with the same interface")
    c.cover["rule"] = ("every chain of up to three stages over {user stage before / under / around the lock, time, sequence, write-if-empty} with every stage "
                       "refusing, dropping and changing the packet in turn; random programs of push, wrap, compose, close and write with C and C++ "
                       "writers and publishers; concurrent writers, shared writers and wrappers under systematic schedules with deaths")
