"""Runs remap requests in a process of its own: ROOT SEED FIRST COUNT PATTERN -> one line per request."""
import hashlib
import os
import sys
import types


def main():
    root, seed, first, count, pattern = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5], 16)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [root, here]
    sys.dont_write_bytecode = True
    import numpy as np
    # only what the remapping needs: magpie.remap and magpie.src, without the package's other imports
    pkg = types.ModuleType("magpie")
    pkg.__path__ = [os.path.join(root, "magpie")]
    sys.modules["magpie"] = pkg
    import importlib
    src = importlib.import_module("magpie.src")
    pkg.src = src
    try:
        remap = importlib.import_module("magpie.remap")
    except Exception:
        del sys.modules["magpie"]
        import magpie
        remap = importlib.import_module("magpie.remap")
    assert remap.__file__.startswith(root)
    from checks.c15 import axis
    from vlib import gen
    fns = {1: remap.grid2grid1D, 2: remap.grid2grid2D, 3: remap.grid2grid3D}
    for k in range(first, first + count):
        rng = np.random.default_rng([seed, k])
        dim = 1 + k % 3
        ax = [axis(rng, {1: 40, 2: 10, 3: 6}[dim], dim, 1. if rng.random() < .8 else float(gen.loguniform(rng, 1e-12, 1e12))) for _ in range(dim)]
        if rng.random() < .1:           # new cells far larger than the old box
            for a in ax:
                a["L2"] *= float(gen.loguniform(rng, 1., 1e11))
                a["lo2"] -= float(rng.choice([0., rng.random()])) * a["L2"]
        one = dim == 1
        pick = lambda key: ax[0][key] if one else [a[key] for a in ax]
        f = rng.normal(size=[a["n1"] for a in ax])
        n2 = int(np.prod([a["n2"] for a in ax]))
        # leave the pattern in the freed blocks that the result may be given
        for n in {n2, n2 + 1, f.size}:
            dirty = [np.empty(n) for _ in range(8)]
            for d in dirty:
                d.view(np.uint64)[:] = pattern
            del dirty, d
        print("BEGIN %d %s" % (k, ax), flush=True)
        keep = f.copy()
        out = np.asarray(fns[dim](f, pick("L1"), pick("n2"), origin=pick("lo1"), originout=pick("lo2"), boxsizeout=pick("L2")))
        print("END %d %s %d %d %s" % (k, hashlib.sha1(np.ascontiguousarray(out, dtype=float).tobytes()).hexdigest(), out.size,
                                      int(np.isfinite(out).all()), int(np.array_equal(f, keep))), flush=True)
    print("DONE", flush=True)


main()
