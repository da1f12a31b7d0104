"""Calls have no effect outside their results and objects."""
import contextlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from checks import c27
from vlib import build, calls, gen, kinds, snap, world

PI = np.pi
CHILD = """
import json, sys
here, root, parts = sys.argv[1], sys.argv[2], sys.argv[3:]
sys.path[:0] = [root, here]
sys.dont_write_bytecode = True
import numpy, numpy.linalg, scipy, scipy.interpolate, scipy.integrate, scipy.spatial, healpy, random, decimal, matplotlib, matplotlib.pyplot
from vlib import world
numpy.random.seed(3)
numpy.seterr(divide="raise", over="ignore")
numpy.set_printoptions(precision=4)
mods = [m for n, m in sorted(sys.modules.items()) if m is not None and n.split(".")[0] in ("numpy", "scipy", "healpy", "matplotlib", "builtins", "math", "random") and hasattr(m, "__dict__") and type(m).__name__ == "module"]
mods = [m for m in mods if not m.__name__.startswith(("scipy._lib", "matplotlib._api"))]
a = world.state(mods, plots=True, files=True)
acts, text = [], []
import importlib
with world.watched(acts, text):
    for p in parts:
        importlib.import_module(p)
b = world.state(mods, plots=True, files=True)
print("RESULT" + json.dumps([world.differences(a, b), acts, text[0]]))
"""


def setup(ck):
    mp, root = build.load(need_fortran=True)
    build.plots()
    import decimal
    import healpy
    import math
    import matplotlib
    import matplotlib.pyplot as plt
    import scipy
    import scipy.interpolate
    import builtins
    import random as pyrandom
    from magpie.plots import ortho, shapes
    K = kinds.all_kinds(mp)
    names = calls.names()
    mods = [np, np.random, np.linalg, scipy, scipy.interpolate, healpy, math, builtins, pyrandom, matplotlib, plt]
    ck.rule = ("Every function and class, accepted and rejected calls, in process states set at random (floating-point error handling, print options, warning filters, generators, working directory); "
               "the state, other libraries' attributes, open files and everything written or started is compared before and after each call.")
    for n in names:
        ck.need("call_" + n, 8)
    for k in K:
        ck.need("program_" + k.name, 8)
    ck.need("rejected", 300)
    ck.need("raised_midway", 30)
    ck.need("plots", 100)
    ck.need("imports", 4)
    ck.assumptions = ["Advancing NumPy's global generator is the documented effect of the random functions and of calculating Monte Carlo weights."]

    @contextlib.contextmanager
    def surroundings(rng):
        """A process state unlike the default."""
        old, printing, call = np.geterr(), np.get_printoptions(), np.geterrcall()
        pstate, ctx = pyrandom.getstate(), decimal.getcontext().copy()
        cwd = os.getcwd()
        scratch = tempfile.mkdtemp(prefix="magpie-verif-")
        modes = ["ignore", "warn"] if rng.random() < .7 else ["ignore", "warn", "raise"]
        with warnings.catch_warnings(record=True):
            warnings.simplefilter(str(rng.choice(["ignore", "default", "always"])))
            if rng.random() < .5:
                warnings.filterwarnings("ignore", message="m%d" % rng.integers(0, 100))
            try:
                os.chdir(scratch)
                np.seterr(**{k: str(rng.choice(modes)) for k in ("divide", "over", "under", "invalid")})
                if rng.random() < .3:
                    np.seterrcall(lambda *a: None)
                np.set_printoptions(precision=int(rng.integers(2, 12)), suppress=bool(rng.random() < .5), threshold=int(rng.integers(5, 2000)))
                np.random.seed(int(rng.integers(0, 2**31)))
                for _ in range(int(rng.integers(0, 5))):
                    np.random.normal()
                pyrandom.seed(int(rng.integers(0, 2**31)))
                decimal.getcontext().prec = int(rng.integers(5, 40))
                yield
            finally:
                os.chdir(cwd)
                shutil.rmtree(scratch, ignore_errors=True)
                np.seterr(**old)
                np.seterrcall(call)
                np.set_printoptions(**printing)
                pyrandom.setstate(pstate)
                decimal.setcontext(ctx)

    def watch(c, what, f, draws=False, plots=False, silent=True, allow=()):
        """Result of f, or the exception it raised."""
        before = world.state(mods, draws, plots, True)
        acts, text, out = [], [], None
        with world.watched(acts, text):
            try:
                out = f()
            except (FloatingPointError,) + tuple(allow) as e:
                out = e
        c.count("raised_midway", isinstance(out, Exception))
        after = world.state(mods, draws, plots, True)
        d = world.differences(before, after)
        c.ok(not d, "%s changed the state of the process" % what, changed=d)
        c.ok(not acts, "%s touched files, processes or other system resources" % what, acts=acts[:5])
        c.ok(not silent or text[0] == "", "%s wrote text" % what, text=text[0][:200])
        c.count("calls_watched")
        return out

    def functions(c):
        rng = c.rng
        name = names[c.index % len(names)]
        f = calls.resolve(mp, name)
        with surroundings(rng):
            for rep in range(3):
                a, kw = calls.make(rng, name, mp)
                c.desc(function=name, args=a, kwargs=kw)
                watch(c, name, lambda: f(*a, **kw), name in calls.RANDOM)
                c.count("call_" + name)

    def programs(c):
        rng = c.rng
        k = K[c.index % len(K)]
        q = k.request(rng, small=True)
        f, w = k.map(rng, q), k.weights(rng, q)
        c.desc(kind=k.name, request=q)
        s = k.out_shape(q)
        g, sig = rng.normal(size=s), rng.uniform(.1, 1, s)
        with surroundings(rng):
            # a division may be reported here; the results are judged elsewhere
            o = watch(c, k.name, k.cls)
            steps = [("source set-up", lambda: k.setup_source(o, q), False), ("target set-up", lambda: k.setup_target(o, q), False)]
            if k.mc:
                steps.append(("weights", lambda: o.get_weights(12, verbose=False), True))
            steps.append(("remap", lambda: o.remap(f, verbose=False), False))
            if k.weighted:
                steps.append(("weighted remap", lambda: o.remap(f, w, verbose=False), False))
            if k.ring:
                steps += [("profile", lambda: o.polar2radial(g, sigma=sig), False), ("rotation", lambda: o.rotate_polar(g, 1.), False)]
            if k.mask:
                steps.append(("mask", lambda: o.get_mask_in_bound(verbose=False), False))
            steps.append(("cleaning", lambda: o.clean(), False))
            for what, step, draws in steps:
                r = watch(c, "%s of %s" % (what, k.name), step, draws)
                if isinstance(r, Exception):
                    break
            c.count("program_" + k.name)

    def talking(c):
        """With progress: text only."""
        rng = c.rng
        k = K[c.index % len(K)]
        q = k.request(rng, small=True)
        f = k.map(rng, q)
        c.desc(kind=k.name, request=q)
        with surroundings(rng):
            np.seterr(all="ignore")
            o = k.cls()
            k.setup_source(o, q)
            k.setup_target(o, q)
            if k.mc:
                watch(c, "weights of %s with progress" % k.name, lambda: o.get_weights(12), True, silent=False)
            watch(c, "remap of %s with progress" % k.name, lambda: o.remap(f), False, silent=False)
            c.count("talking")

    def bad(rng, v):
        """A value of the wrong kind."""
        return [None, "text", [], np.zeros((0, 3)), {}, -1, float("nan"), object(), np.array(["a", "b"]), np.zeros((2, 2, 2, 2)), 1e300, -10**6][rng.integers(0, 12)]

    def rejected(c):
        """Wrong arguments: the call may fail in any way, but leaves nothing behind."""
        rng = c.rng
        if rng.random() < .65:
            name = names[c.index % len(names)]
            f = calls.resolve(mp, name)
            a, kw = calls.make(rng, name, mp)
            a = list(a)
            # only data arguments: a wrong size or resolution asks for anything
            slots = [i for i, v in enumerate(a) if isinstance(v, (np.ndarray, list, tuple, float))]
            if name in calls.FORTRAN:
                slots = [0]
            if not slots:
                return
            a[slots[rng.integers(0, len(slots))]] = bad(rng, None)
            c.desc(function=name, args=[repr(v)[:100] for v in a])
            with surroundings(rng):
                watch(c, "a rejected call of " + name, lambda: f(*a, **kw), name in calls.RANDOM, silent=False, allow=(Exception,))
            c.count("rejected")
            return
        k = K[c.index % len(K)]
        q = k.request(rng, small=True)
        o = k.prepare(q, 10)
        c.desc(kind=k.name, request=q)
        with surroundings(rng):
            wrong = bad(rng, None)
            watch(c, "a rejected remap of " + k.name, lambda: o.remap(wrong, verbose=False), silent=False, allow=(Exception,))
            s = k.out_shape(q)
            steps = [lambda v: o.remap(v, verbose=False)]
            if k.weighted:
                steps += [lambda v: o.remap(k.map(rng, q), v, verbose=False)]
            if k.ring:
                steps += [lambda v: o.rotate_polar(v, 1.), lambda v: o.rotate_polar(np.ones(s), 1e9), lambda v: o.polar2radial(v), lambda v: o.polar2radial(np.ones(s), sigma=v),
                          lambda v: o.polar2radial(np.ones(s), w=v), lambda v: o.polar2radial(np.ones(s), sigma=np.ones(s), w=v)]
            steps += [lambda v: k.setup_target(o, dict(q, target=dict(q["target"], center=v)))]
            name = list(q["source"])[rng.integers(0, len(q["source"]))]
            steps += [lambda v: k.setup_source(o, dict(q, source=dict(q["source"], **{name: -1 if name.startswith(("num", "nside")) else None})))]
            for i in rng.permutation(len(steps)):
                wrong = bad(rng, None)
                if rng.random() < .4:           # the right kind, not the right size
                    wrong = rng.normal(size=(3,) * int(rng.integers(1, 4)))
                watch(c, "a rejected call of a " + k.name, lambda: steps[i](wrong), silent=False, allow=(Exception,))
            fresh = k.cls()
            watch(c, "a remap of a new " + k.name, lambda: fresh.remap(k.map(rng, q), verbose=False), silent=False, allow=(Exception,))
            if k.mc:
                watch(c, "weights of a new " + k.name, lambda: fresh.get_weights(10, verbose=False), True, silent=False, allow=(Exception,))
        c.count("rejected")

    def plots(c):
        rng = c.rng
        plt.close("all")
        fig, ax = plt.subplots(1, 2)
        other = plt.figure()
        if rng.random() < .5:
            plt.figure(fig.number)
        given = bool(rng.random() < .6)
        axis = ax[0]
        plt.sca(ax[1] if given and rng.random() < .7 else axis)
        if given and rng.random() < .5:
            plt.figure(other.number)
            if rng.random() < .5:
                other.add_subplot(111)
        elif not given:
            plt.sca(axis)
        arg = dict(ax=axis) if given else {}
        d = c27.request(rng, "ortho")
        o = mp.densegrid.Heal2Ortho()
        c27.prepare(o, "ortho", 2, d)
        dmap = o.remap(rng.normal(size=48), verbose=False)
        held = {k: v for k, v in vars(o).items()}
        s = snap.take(list(held.values()))
        c.desc(grid=d, given=given)
        p = ortho.PlotOrtho(o)
        lonlat = bool(rng.random() < .5)
        b = [.3, 1.2, -.4, .6] if lonlat else [.3, 1.2, .6, 1.5]
        steps = dict(box=lambda: shapes.plot_box(0., 1., 0., 2., **arg), circle=lambda: shapes.plot_circle(2., **arg), image=lambda: p.imshow(dmap, **arg),
                     bar=lambda: p.imshow(dmap, returncb=True, **arg), grid=lambda: p.plot_grid(**arg), labels=lambda: p.plot_labels(lonlat=lonlat, **arg),
                     patch=lambda: p.plot_polar_box(*b, lonlat=lonlat, **arg), view=lambda: p.finalize(insphere=bool(rng.random() < .5), **arg))
        with surroundings(rng):
            np.seterr(all="ignore")
            warnings.simplefilter("ignore")
            for n in rng.permutation(sorted(steps)):
                watch(c, "plotting (%s)" % n, steps[str(n)], plots=True)
                c.count("plot_" + str(n))
        c.ok(list(vars(o)) == list(held) and snap.take(list(vars(o).values())) == s, "plotting changed the map object")
        plt.close("all")
        c.count("plots")

    def imports(c):
        rng = c.rng
        parts = ["magpie", "magpie.montecarlo", "magpie.densegrid", "magpie.plots", "magpie.plots.ortho", "magpie.plots.shapes"]
        n = len(parts) if c.index % 2 else int(rng.integers(1, len(parts)))
        parts = [str(v) for v in rng.permutation(parts)[:n]]
        c.desc(order=parts)
        r = subprocess.run([sys.executable, "-c", CHILD, os.path.dirname(os.path.dirname(os.path.abspath(__file__))), root] + parts, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, env=build.ENV, cwd=root, timeout=200)
        if r.returncode or "RESULT" not in r.stdout:
            raise build.HarnessError("child failed: %s" % r.stderr[-2000:])
        diff, acts, text = json.loads(r.stdout.split("RESULT", 1)[1])
        c.ok(not diff, "importing changed the state of the process", changed=diff)
        c.ok(not acts, "importing touched files, processes or other system resources", acts=acts[:5])
        c.ok(text == "", "importing wrote text", text=text[:200])
        c.count("imports")

    ck.section("functions", functions, 780, 20000)
    ck.section("programs", programs, 270, 7000)
    ck.section("talking", talking, 90, 2000)
    ck.section("rejected", rejected, 600, 16000)
    ck.section("plots", plots, 120, 2500)
    ck.section("imports", imports, 6, 60)
