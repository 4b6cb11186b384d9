"""C01: a death at any instant leaves the last committed state, usable."""
import os
from vlib import build_driver

def run(c):
    exe = build_driver("plain", "transport_crash", ["transport_crash.cpp"])
    c.model("MCTransport", "MCTransportWait.cfg" if c.quick else "MCTransport.cfg")
    c.model("TransportImpl", "TransportImplQuick.cfg" if c.quick else "TransportImpl.cfg")
    f = os.path.join(c.tmp, "x.ndjson")
    if c.drive(exe, ["all", 12 if c.quick else 150, c.seed], f, timeout=600) is not None:
        c.validate("TransportTrace", "TransportTrace.cfg", f, label="death-at-every-step")
    c.cover["rule"] = ("a process running a script of transport operations is ended after every instruction that changes the arena or "
                       "its list of held locks; survivors (old handle, new handle, readonly, exclusive) must find one of the states the specification allows")
    # those already waiting, and deaths while others are active
    exe = build_driver("sched", "transport_sim", ["transport_sim.cpp", "sim.cpp"])
    f = os.path.join(c.tmp, "y.ndjson")
    if c.drive(exe, ["own", 1, 1, 4000 if c.quick else 60000, 300 if c.quick else 10000, c.seed], f, timeout=600) is not None:
        c.validate("TransportTrace", "TransportTrace.cfg", f, label="death-among-others")
