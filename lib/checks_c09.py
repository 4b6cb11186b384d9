"""C09: packets survive serialisation, copying and random access."""
import os
from vlib import build_driver

def run(c):
    exe = build_driver("asan", "packet_seq", ["packet_seq.cpp"])
    c.model("MCFlatPacket", "MCFlatPacketQuick.cfg" if c.quick else "MCFlatPacket.cfg")
    f = os.path.join(c.tmp, "packet.ndjson")
    if c.drive(exe, ([2, 500] if c.quick else [3, 6000]) + [c.seed], f) is not None:
        c.validate("PacketTrace", "PacketTrace.cfg", f, label="packets")
    c.assumptions.append("payloads of more than 48 bytes are compared by size and a 31-bit digest")
    c.cover["rule"] = ("every sequence of up to 2 (thorough 3) headers over three keys and two values, cut into blocks in every way; random packets "
                       "with up to 400 headers and payloads up to 1 MB; each serialised, read in place, deserialised, copied and wrapped, "
                       "with the sources released and with refusing allocators")
