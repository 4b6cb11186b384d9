"""C21: times convert, add and print without loss."""
import os
from vlib import build_driver

def run(c):
    drv = build_driver("asan", "time_seq", ["time_seq.cpp"])
    c.model("Calendar", "MCCalendarQuick.cfg" if c.quick else "MCCalendar.cfg")
    f = os.path.join(c.tmp, "time.ndjson")
    if c.drive(drv, [10 if c.quick else 40, c.seed], f) is not None:
        c.validate("TimeTrace", "TimeTrace.cfg", f, label="conversions")
    c.assumptions.append("texts longer than the documented shape are not tried")
    c.cover["rule"] = ("every decimal and carry boundary of seconds, nanoseconds and offsets in C and C++; every single-character change, every "
                       "truncation and every value of each field of a wall text; month ends over the leap-year cases; random times and offsets")
