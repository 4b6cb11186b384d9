"""C20: the map behaves as a finite map for every hash function; comparisons and hashes tell keys apart."""
import os
from vlib import build_driver

def run(c):
    plain = build_driver("plain", "map_seq", ["map_seq.cpp"])
    asan = build_driver("asan", "map_seq", ["map_seq.cpp"])
    c.model("MapImpl", "MCMapImplQuick.cfg" if c.quick else "MCMapImpl.cfg")
    f = os.path.join(c.tmp, "map.ndjson")
    if c.drive(plain, ([3, 2500, 80] if c.quick else [4, 6000, 200]) + [c.seed], f) is not None:
        c.validate("MapTrace", "MapTrace.cfg", f, label="histories")
    f = os.path.join(c.tmp, "asan.ndjson")
    if c.drive(asan, ([2, 800, 60] if c.quick else [3, 2000, 200]) + [c.seed + 7], f) is not None:
        c.validate("MapTrace", "MapTrace.cfg", f, label="histories with addresses checked")
    c.assumptions.append("tables of tens of thousands of entries are compared with std::map by the driver, which reports the number of differences")
    c.cover["rule"] = ("every history of the given length over {put, delete, pop, overwrite} of three colliding keys under six hash functions; random "
                       "histories over up to 24 keys with ten key sizes, nine value sizes and nine families of hash functions; all pairs of "
                       "chosen keys for each provided comparison and hash")
