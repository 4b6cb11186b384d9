"""C22: arenas of the previous version of the format."""
import os
from vlib import build_driver

def run(c):
    c.model("Upgrade", "UpgradeQuick.cfg" if c.quick else "Upgrade.cfg")
    for flavor, n, k in ([("plain", 2500, 0), ("asan", 500, 1)] if c.quick else [("plain", 10000, m) for m in range(4)] + [("asan", 5000, 9)]):
        exe = build_driver(flavor, "transport_seq", ["transport_seq.cpp"])
        f = os.path.join(c.tmp, "o.ndjson")
        if c.drive(exe, ["old", n, c.seed + 1000 * k], f) is not None:
            c.validate("TransportTrace", "TransportTrace.cfg", f, label="arenas of the previous version", chunk=4000)
    c.assumptions.append("openers come one after another; an opener that has begun the upgrade finishes it")
    c.cover["rule"] = ("random rings in the previous layout (empty, cleared, wrapped, exact fit, either page current, garbage elsewhere) opened by "
                       "shared, exclusive and readonly users, C and C++, a second opener at any later time, followed by random histories")
