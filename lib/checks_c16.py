"""C16: opening files, one system call at a time, with failing system calls and deaths."""
import os
import shutil
import tempfile
from vlib import build_driver

def run(c):
    exe = build_driver("plain", "file_sched", ["file_sched.cpp"])
    c.model("FileImpl", "FileImplQuick.cfg" if c.quick else "FileImpl.cfg")
    d = tempfile.mkdtemp(prefix="verif-c16-")      # where an unprivileged user can get to
    try:
        drive(c, exe, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def drive(c, exe, d):
    os.chmod(d, 0o777)
    plan = ([(0, 1, 0, 2000), (0, 0, 1, 2000), (2, 0, 0, 1500), (1, 1, 0, 1000), (1, 0, 1, 1000)] if c.quick else
            [(0, 3, 0, 20000), (0, 1, 1, 20000), (3, 0, 0, 30000), (2, 1, 0, 20000), (2, 0, 1, 20000), (2, 1, 1, 20000)])
    for b, fa, k, n in plan:
        f = os.path.join(c.tmp, "x.ndjson")
        if c.drive(exe, [d, b, fa, k, n, c.seed], f, timeout=800) is not None:
            c.validate("FileTrace", "FileTrace.cfg", f, label="switches %d failing calls %d deaths %d" % (b, fa, k))
    c.assumptions.append("system calls are atomic; processes share nothing but the directory while opening")
    c.cover["rule"] = ("real processes stopped at every system call; every place for up to the given number of switches, failing calls and deaths "
                       "(capped per scenario, chosen at random beyond); twelve states of the name beforehand, all open modes, C and C++")
