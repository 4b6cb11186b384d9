"""C17: removal and listing of directory trees."""
import os
import shutil
import tempfile
from vlib import build_driver

def run(c):
    plain = build_driver("plain", "file_tree", ["file_tree.cpp"], wraps=["readdir"])
    asan = build_driver("asan", "file_tree", ["file_tree.cpp"], wraps=["readdir"])
    c.model("RemoveImpl", "RemoveImplQuick.cfg" if c.quick else "RemoveImpl.cfg")
    plan = ([(plain, "small", 3, 0), (plain, "random", 6000, 0), (asan, "random", 2000, 1)] if c.quick else
            [(plain, "small", 4, 0), (asan, "small", 3, 0)] +
            [(plain, "random", 20000, k) for k in range(10, 15)] + [(asan, "random", 15000, k) for k in (1, 2)])
    for exe, what, n, k in plan:
        d = tempfile.mkdtemp(prefix="verif-c17-")      # where an unprivileged user can get to
        try:
            os.chmod(d, 0o755)
            f = os.path.join(c.tmp, "x.ndjson")
            if c.drive(exe, [d, what, n, c.seed + 1000 * k], f, timeout=800) is not None:
                c.validate("TreeTrace", "TreeTrace.cfg", f, label="%s %d" % (what, n))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    c.assumptions.append("nobody else changes the tree meanwhile")
    c.cover["rule"] = ("every tree of up to so many nodes over two names with every kind of link, each operation on every path; random trees with odd and "
                       "long names, links in and out, loops, protected directories, unknown entry types and failing reads")
