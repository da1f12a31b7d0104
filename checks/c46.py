"""Repeated use does not accumulate memory."""
import copy
import gc
import os
import tracemalloc
import warnings
import weakref

import numpy as np

from checks import c27
from vlib import build, calls, gen, kinds

ROUNDS, PER_CALL = 30, 8


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


def setup(ck):
    mp, root = build.load(need_fortran=True)
    K = kinds.all_kinds(mp)
    names = calls.names()
    ck.rule = "The same calls, and the same life of an object (new, set up, weights, remaps, profiles, cleaned or dropped, set up again), repeated many times while every allocation is traced; large requests repeated while the size of the process is watched; dropped objects are followed by weak references."
    for n in names:
        ck.need("repeated_" + n, 2)
    for k in K:
        ck.need("lives_" + k.name, 3)
        ck.need("reused_" + k.name, 3)
    ck.need("dropped", 300)
    ck.need("fresh_arguments", len(names) // 2)
    ck.need("large", 40)
    ck.need("failed_calls", 30)
    ck.assumptions = ["A constant amount of memory kept after the first calls is allowed; so is memory of objects the caller still holds."]

    own = [tracemalloc.Filter(True, os.path.join(root, "*"))]

    def size():
        """Bytes allocated at the library's own lines, and anywhere."""
        gc.collect()
        return sum(t.size for t in tracemalloc.take_snapshot().filter_traces(own).traces), tracemalloc.get_traced_memory()[0]

    def judge(c, what, f, rounds=ROUNDS, warm=4):
        for _ in range(warm):
            f()
        if not steady(c, f, rounds):
            # a few hundred bytes come and go; growth must persist over windows eight times as long
            rounds *= 8
            g = measure(c, f, rounds)
            c.ok(not grows(g[:, 0], rounds), "%s keeps more memory with every call" % what, bytes_per_window=g[:, 0], calls=rounds)
            c.ok(np.min(g[:, 1]) < 3000 * rounds, "%s keeps more memory with every call" % what, bytes_per_window=g[:, 1], calls=rounds)
            c.count("confirmed_windows", len(g))
        else:
            c.ok(True, "%s keeps more memory with every call" % what)

    def grows(g, rounds):
        # NumPy and SciPy keep a few dozen bytes per call themselves; one reference kept per call shows at the line that keeps it
        return np.sum(g[1:]) >= .6 * PER_CALL * 2 * rounds

    def steady(c, f, rounds):
        g = measure(c, f, rounds)
        return not grows(g[:, 0], rounds) and np.min(g[:, 1]) < 3000 * rounds

    def measure(c, f, rounds):
        gc.collect()
        tracemalloc.start(1)
        try:
            f()
            s = [size()]
            for _ in range(3):
                for _ in range(rounds):
                    f()
                s.append(size())
        finally:
            tracemalloc.stop()
        g = np.diff(s, axis=0)
        c.count("windows", len(g))
        return g

    def functions(c):
        rng = c.rng
        name = names[c.index % len(names)]
        f = calls.resolve(mp, name)
        fresh = bool(c.index // len(names) % 2)

        def job():
            while True:
                a, kw = calls.make(rng, name, mp)
                if sum(np.size(v) for v in a if isinstance(v, np.ndarray)) < 500 and (name not in calls.RANDOM or not isinstance(a[0], int) or a[0] < 500):
                    return a, kw
        jobs = [job() for _ in range(3)]
        c.desc(function=name, calls=jobs, other_arguments_each_time=fresh)

        def work():
            for a, kw in [job() for _ in range(2)] if fresh else jobs:
                f(*copy.deepcopy(a), **copy.deepcopy(kw))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            # a store of bounded size may fill first
            judge(c, name, work, ROUNDS, 150 if fresh else 4)
        c.count("fresh_arguments", fresh)
        c.count("repeated_" + name)

    def uses(rng, k, q):
        f, w = k.map(rng, q), k.weights(rng, q)
        s = k.out_shape(q)
        g, sig = rng.normal(size=s), rng.uniform(.1, 1, s)

        def use(o):
            o.remap(f.copy(), verbose=False)
            if k.weighted:
                o.remap(f.copy(), w.copy(), verbose=False)
            if k.ring:
                o.rotate_polar(g.copy(), 1.)
                o.polar2radial(g.copy(), sigma=sig.copy())
            if k.mask:
                o.get_mask_in_bound(verbose=False)
        return use

    def small(rng, k):
        while True:
            q = k.request(rng, small=True)
            if np.prod(k.out_shape(q)) * (1 if k.source != "heal" else 2) <= 60:
                return q

    def lives(c):
        """A new object every time."""
        rng = c.rng
        k = K[c.index % len(K)]
        q = small(rng, k)
        use = uses(rng, k, q)
        end = bool(rng.random() < .5)
        c.desc(kind=k.name, request=q, cleaned=end)
        refs = []
        vary = bool(rng.random() < .5)

        def life():
            p = small(rng, k) if vary else q
            o = k.prepare(p, 8)
            (uses(rng, k, p) if vary else use)(o)
            if end:
                o.clean()
            refs.append(weakref.ref(o))
            del refs[:-50]
        judge(c, "the life of a %s" % k.name, life, 12)
        gc.collect()
        c.ok(all(r() is None for r in refs), "a dropped %s is freed" % k.name, alive=sum(r() is not None for r in refs), of=len(refs))
        c.count("dropped", len(refs))
        c.count("lives_" + k.name)

    def reused(c):
        """One object, used over and over."""
        rng = c.rng
        k = K[c.index % len(K)]
        qs = [small(rng, k) for _ in range(int(rng.integers(1, 3)))]
        us = [uses(rng, k, q) for q in qs]
        o = k.cls()
        what = int(rng.integers(0, 3))
        c.desc(kind=k.name, requests=qs, what=["use", "weights", "set-up"][what])
        seed = int(rng.integers(0, 2**31))
        if what == 0:
            k.prepare(qs[0], 8, o=o)

            def work():
                us[0](o)
        elif what == 1:
            k.prepare(qs[0], 8, o=o)

            def work():
                if k.mc:
                    np.random.seed(seed)
                    o.get_weights(8, verbose=False)
                us[0](o)
        else:
            def work():
                for q, u in zip(qs, us):
                    k.prepare(q, 8, seed if k.mc else None, o=o)
                    u(o)
        judge(c, "repeated use of a %s" % k.name, work, 12)
        if rng.random() < .5:
            # after cleaning, no more is held than by a new object
            arrays = [weakref.ref(v) for v in vars(o).values() if isinstance(v, np.ndarray)]
            o.clean()
            gc.collect()
            c.ok(all(r() is None for r in arrays), "a cleaned %s has let go of its arrays" % k.name)
            c.count("cleaned")
        c.count("reused_" + k.name)

    def views(c):
        """Views set up and used over and over."""
        rng = c.rng
        cls = mp.densegrid.PointOfView
        o, one = cls(), bool(rng.random() < .6)
        P = rng.normal(size=(3, 40))
        c.desc(same_object=one)

        def work():
            v = o if one else cls()
            v.setup(rng.normal(size=3).tolist(), (rng.normal(size=3) + 9).tolist(), 1., spin=1.)
            v.transform(P[0], P[1], P[2])
            v.reverse(P[0], P[1], np.abs(P[2]))
            if not one and c.index % 2:
                v.clean()
        judge(c, "repeated set-up and use of a PointOfView", work)
        c.count("views")

    ck.need("views", 6)
    ck.section("views", views, 8, 100)

    def failing(c):
        """Calls that are rejected leave nothing behind either."""
        rng = c.rng
        co, od = mp.coords, mp.one_d
        e = np.linspace(0, 1, 200)
        jobs = [(co.usphere_area, (3., 1., 0., 1.)), (co.usphere_spin, (np.zeros(300), np.ones(300), 1., 1., 99.)), (od.rebin_1d, (e[::-1], e[1:], e)), (od.rebin_1d, (e, e[1:], e[::-1])),
                (mp.randoms.random_draw, (np.zeros(300), 301)), (mp.randoms.randoms_cdf, (e, e * 2, 10)), (co.cart2polar, (np.zeros(300), np.zeros(7))),
                (mp.remap.grid2grid2D, (np.zeros((20, 20)), [1., 1.], None))]
        f, a = jobs[c.index % len(jobs)]
        c.desc(function=f.__name__)
        failed = []

        def work():
            try:
                f(*a)
            except Exception as e:
                failed[:] = [type(e).__name__]
        judge(c, "a failing call of " + f.__name__, work)
        c.count("failed_calls", len(failed))

    def large(c):
        """Native memory: one array kept per call would add up."""
        rng = c.rng
        kind = ["1D", "2D", "3D", "class", "class"][c.index % 5]
        if kind == "1D":
            f = rng.normal(size=200000)
            work = lambda: mp.remap.grid2grid1D(f, 1., 150001)
        elif kind == "2D":
            f = rng.normal(size=(400, 500))
            work = lambda: mp.remap.grid2grid2D(f, [1., 1.], [299, 201], boxsizeout=[.8, .5], originout=[.1, .1])
        elif kind == "3D":
            f = rng.normal(size=(60, 60, 60))
            work = lambda: mp.remap.grid2grid3D(f, [1., 1., 1.], [40, 30, 50])
        else:
            k = [k for k in K if not k.mc and k.source == "heal"][c.index // 5 % 3]
            q = k.request(rng, small=True)
            q["source"]["nside"] = 128
            f = rng.normal(size=12 * 128**2)
            o = k.prepare(q)
            work = lambda: o.remap(f, verbose=False)
        c.desc(kind=kind)
        for _ in range(6):
            work()
        size = f.nbytes * .8
        gained = []
        for _ in range(2):
            gc.collect()
            a = rss()
            for _ in range(25):
                work()
            gc.collect()
            gained.append(rss() - a)
        c.ok(min(gained) < 12 * size, "the process grows with every call", gained=gained, one_array=size)
        c.count("large")

    ck.section("functions", functions, 2 * len(names), 20 * len(names))
    ck.section("lives", lives, 45, 700)
    ck.section("reused", reused, 54, 900)
    ck.section("failing", failing, 40, 200)
    ck.section("large", large, 40, 200)
