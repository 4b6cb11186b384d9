"""C02: the transport is a gap-free bounded log."""
import os
from vlib import build_driver

def run(c):
    exe = build_driver("plain", "transport_seq", ["transport_seq.cpp"])
    c.model("MCTransport", "MCTransportRing.cfg" if c.quick else "MCTransport.cfg")
    f = os.path.join(c.tmp, "x.ndjson")
    if c.drive(exe, ["exhaustive", 4 if c.quick else 5, c.seed], f) is not None:
        c.validate("TransportTrace", "TransportTrace.cfg", f, label="all-short-histories")
    f = os.path.join(c.tmp, "r.ndjson")
    if c.drive(exe, ["random", 800 if c.quick else 8000, c.seed], f) is not None:
        c.validate("TransportTrace", "TransportTrace.cfg", f, label="random-histories", chunk=4000)
    f = os.path.join(c.tmp, "j.ndjson")
    if c.drive(exe, ["jump_exact", 1, c.seed], f) is not None:
        c.validate("TransportTrace", "TransportTrace.cfg", f, label="jump-exact-fit")
    c.cover["rule"] = ("every history of writes (4 sizes), abandoned writes and clears up to the depth, plus seeded random "
                       "histories over arena sizes, sizes (zero, exact fit, too large, near SIZE_MAX), resizes and cursor moves, "
                       "through the C and the C++ interface; every result is checked against Transport.tla")
