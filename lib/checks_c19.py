"""C19: path patterns match exactly the paths they describe."""
import os
from vlib import build_driver

def run(c):
    drv = build_driver("asan", "glob_seq", ["glob_seq.cpp"])
    c.model("GlobImpl", "MCGlobImplQuick.cfg" if c.quick else "MCGlobImpl.cfg")
    f = os.path.join(c.tmp, "glob.ndjson")
    if c.drive(drv, ([6, 5, 1200] if c.quick else [6, 6, 8000]) + [c.seed], f) is not None:
        c.validate("GlobTrace", "GlobTrace.cfg", f, label="patterns and paths")
    c.assumptions.append("a configured root containing stars is not tried; a double star naming the last segment is an ordinary pattern for that segment")
    c.cover["rule"] = ("every pattern over {a, b, *, /} against every path over {a, b, /} up to the given lengths; patterns derived from random paths; "
                       "relative ones under five roots; depths around and far above the limit")
