"""Checks the tools and the framework itself; registered as setup_cmd."""
import os
import shutil
import sys

import numpy as np


def main():
    from . import build, core
    bad = []
    for tool in ("gcc", "gfortran", "meson", "ninja"):
        if not shutil.which(tool, path=build.ENV["PATH"]):
            bad.append("no " + tool)
    ck = core.Check("C00", 1, "quick")
    ck.known = {}

    def good(c):
        c.desc(x=c.rng.random())
        c.ok(True, "fine")
        c.close(1., 1. + 1e-12, msg="close")

    def wrong(c):
        c.desc(x=c.rng.random())
        c.close(np.ones(3), [1, 1, 2.], msg="values")
    ck.children = []
    ck.run_section("good", good, 16, None)
    if ck.violations or ck.evaluations != 16 or len(ck.digests) != 16:
        bad.append("the driver does not count good cases")
    ck.run_section("wrong", wrong, 4, None)
    if not ck.violations:
        bad.append("the driver misses a violation")
    mp, root = build.load()
    if abs(float(mp.coords.usphere_area(0., 2. * np.pi, 0., np.pi)) - 4. * np.pi) > 1e-9:
        print("note: the area of the full sphere is wrong (C06 decides)")
    os.makedirs(os.path.join(core.HERE, "evidence"), exist_ok=True)
    for b in bad:
        print("SELFTEST FAILED: " + b)
    print("selftest %s" % ("failed" if bad else "passed"))
    sys.stdout.flush()
    return 1 if bad else 0
