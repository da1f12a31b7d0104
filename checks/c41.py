"""Calls in several threads do not disturb each other."""
import copy

import numpy as np

from checks.c33 import equal
from vlib import build, calls, gen, kinds, sched

PI = np.pi


def setup(ck):
    mp, root = build.load(need_fortran=True)
    K = kinds.all_kinds(mp)
    det = [n for n in calls.names() if n not in calls.RANDOM]
    ck.rule = ("Two to four threads, each with its own sequence of function calls or its own remapping objects, interleaved at the library's lines (or byte codes) "
               "by a seeded scheduler and, in part, preempted freely; random draws meet NumPy's global generator in their own thread's state, text goes to their own thread's output; every result is compared with the same sequence run alone.")
    for n in det:
        ck.need("threaded_" + n, 8)
    for k in K:
        ck.need("threaded_" + k.name, 12)
    for n in calls.RANDOM:
        ck.need("threaded_" + n, 5)
    ck.need("draws_with_own_stream", 150)
    ck.need("threaded_reports", 60)
    ck.need("switches", 5000)
    ck.need("schedules", 300)
    ck.need("free_runs", 60)
    ck.assumptions = ["Objects are not shared between threads. Random draws are judged with NumPy's global generator switched to each thread's own state whenever the turn passes; without that, Monte Carlo weights are calculated before the threads start or only judged through maps that every choice of weights remaps alike."]

    def call(name, a, kw):
        f = calls.resolve(mp, name)
        return lambda: f(*copy.deepcopy(a), **copy.deepcopy(kw))

    def judge(c, names, alone, outs):
        for t, (n, x, y) in enumerate(zip(names, alone, outs)):
            for i, (nm, p) in enumerate(zip(n, x)):
                c.ok(i < len(y), "%s ends early in one of several threads" % nm, thread=t)
                q = y[i]
                c.ok(not isinstance(q, BaseException), "%s raises in one of several threads: %r" % (nm, q), thread=t)
                c.ok(equal(p, q), "%s gives other values in one of several threads" % nm, thread=t, alone=p, threaded=q)
                c.count("threaded_" + nm)

    def go(c, names, programs):
        alone = [[f() for f in p] for p in programs]
        if c.rng.random() < .15:
            outs = sched.free(programs)
            c.count("free_runs")
        else:
            fine = c.rng.random() < .3
            p = float(gen.loguniform(c.rng, .02, .6)) * (.3 if fine else 1.)
            b = sched.Baton(c.rng, root, p, fine)
            outs = b.run(programs)
            c.desc(switches=b.switches, schedule=b.path)
            c.count("switches", b.switches)
            c.count("switch_points", b.points)
            c.count("schedules", b.switches > 0)
            c.add("schedule", b.path)
        judge(c, names, alone, outs)

    def functions(c):
        rng = c.rng
        main = det[c.index % len(det)]
        names, programs = [], []
        for t in range(int(rng.integers(2, 5))):
            n = [main] + [str(rng.choice(det)) if rng.random() < .5 else main for _ in range(int(rng.integers(1, 4)))]
            names.append(n)
            programs.append([call(x, *calls.make(rng, x, mp)) for x in n])
        c.desc(function=main, programs=names)
        go(c, names, programs)

    def remaps(c):
        rng = c.rng
        main = K[c.index % len(K)]
        names, programs = [], []
        first = main.request(rng, small=True)
        for t in range(int(rng.integers(2, 4))):
            k = main if t < 2 or rng.random() < .6 else K[rng.integers(0, len(K))]
            # the same request or grids of the same shape are where shared storage would go unnoticed
            q = copy.deepcopy(first) if k is main and rng.random() < .4 else k.request(rng, small=True)
            f, w = k.map(rng, q), k.weights(rng, q)
            o = k.prepare(q, 8, int(rng.integers(0, 2**31))) if k.mc else None
            box = [o]

            def make(k=k, q=q, box=box):
                if not k.mc:
                    box[0] = k.prepare(q)
                return list(k.describe(box[0]).values())

            def remap(k=k, f=f, box=box):
                return box[0].remap(f.copy(), verbose=False)

            def wremap(k=k, f=f, w=w, box=box):
                return box[0].remap(f.copy(), w.copy(), verbose=False)

            def setup_alone(k=k, q=q):
                u = k.cls()
                k.setup_source(u, q)
                k.setup_target(u, q)
                return list(k.describe(u).values())
            p = [make, remap] + ([wremap] if k.weighted else []) + [setup_alone, remap]
            if k.ring:
                s = k.out_shape(q)
                g, sig = rng.normal(size=s), rng.uniform(.1, 1, s)
                p.insert(2, lambda box=box, g=g, sig=sig: box[0].polar2radial(g.copy(), sigma=sig.copy()))
            if k.mask and not k.mc:
                p.insert(3, lambda box=box: box[0].get_mask_in_bound(verbose=False))
            names.append([k.name] * len(p))
            programs.append(p)
        c.desc(programs=[n[0] for n in names])
        go(c, names, programs)

    def weights(c):
        """Weights calculated at the same time: a uniform map stays uniform on every object."""
        rng = c.rng
        ks = [k for k in K if k.mc]
        main = ks[c.index % len(ks)]
        names, programs, values = [], [], []
        for t in range(int(rng.integers(2, 4))):
            k = main
            q = k.request(rng, small=True, inside=True)
            v = float(rng.normal() * 5)

            def work(k=k, q=q, v=v):
                o = k.prepare(q, 10)
                return o.remap(np.full(k.map_shape(q), v), verbose=False)
            names.append([k.name])
            programs.append([work])
            values.append((k, q, v))
        c.desc(kind=main.name, requests=[v[1] for v in values])
        b = sched.Baton(rng, root, float(gen.loguniform(rng, .01, .3)))
        outs = b.run(programs)
        c.count("switches", b.switches)
        c.count("schedules", b.switches > 0)
        for out, (k, q, v) in zip(outs, values):
            r = out[0]
            c.ok(not isinstance(r, BaseException), "%s raises in one of several threads: %r" % (k.name, r))
            r = np.asarray(r, float)
            c.ok(r.shape == k.out_shape(q), "one value per target pixel", got=r.shape, want=k.out_shape(q))
            if k.target == "shell":
                r = r[r > -1e30]
            r = r[np.isfinite(r)]
            c.close(r, np.full(r.shape, v), 1e-11, 0, "a uniform map stays uniform")
            c.count("threaded_weights")

    def draws(c):
        """Every thread has its own state of NumPy's generator, taken along at each switch: draws are those of the thread alone."""
        rng = c.rng
        main = calls.RANDOM[c.index % len(calls.RANDOM)]
        names, programs, seeds = [], [], []
        for t in range(int(rng.integers(2, 4))):
            n = [main] + [str(rng.choice(calls.RANDOM)) if rng.random() < .5 else main for _ in range(int(rng.integers(1, 3)))]
            names.append(n)
            programs.append([call(x, *calls.make(rng, x, mp)) for x in n])
            seeds.append(int(rng.integers(0, 2**31)))
        c.desc(function=main, programs=names)
        seeded(c, names, programs, seeds)

    def seeded(c, names, programs, seeds):
        alone = []
        for p, s in zip(programs, seeds):
            np.random.seed(s)
            alone.append([f() for f in p])
        fine = c.rng.random() < .3
        b = sched.Baton(c.rng, root, float(gen.loguniform(c.rng, .02, .6)) * (.3 if fine else 1.), fine, seeds=seeds)
        outs = b.run(programs)
        c.desc(switches=b.switches, schedule=b.path)
        c.count("switches", b.switches)
        c.count("schedules", b.switches > 0)
        c.add("schedule", b.path)
        judge(c, names, alone, outs)
        c.count("draws_with_own_stream")

    def own_weights(c):
        """Monte Carlo weights calculated at the same time, each from its thread's own stream."""
        rng = c.rng
        ks = [k for k in K if k.mc]
        main = ks[c.index % len(ks)]
        names, programs, seeds = [], [], []
        first = main.request(rng, small=True)
        for t in range(int(rng.integers(2, 4))):
            q = copy.deepcopy(first) if rng.random() < .5 else main.request(rng, small=True)
            f = main.map(rng, q)
            n = int(rng.integers(3, 12))

            def work(q=q, f=f, n=n):
                o = main.prepare(q, n)
                return o.remap(f.copy(), verbose=False)
            names.append([main.name])
            programs.append([work])
            seeds.append(int(rng.integers(0, 2**31)))
        c.desc(kind=main.name)
        seeded(c, names, programs, seeds)

    def reports(c):
        """Progress written by one thread is not mixed up with what another one reports."""
        rng = c.rng
        names, programs = [], []
        with sched.Texts() as texts:
            for t in range(int(rng.integers(2, 4))):
                if rng.random() < .6:
                    n = int(rng.choice([1, 3, 7, 12, 40, 60]))
                    kw = dict(explanation=None if rng.random() < .3 else "thread %d" % t, indexing=bool(rng.random() < .5),
                              num_refresh=int(rng.integers(1, 12)), bar_length=int(rng.integers(1, 30)))
                    kw.update(dict(marker_done=str(rng.choice(list("#=*"))), marker_undone=str(rng.choice(list("_.-")))) if rng.random() < .5 else {})
                    kw.update(dict(bar_edge_left="<[{"[t]) if rng.random() < .5 else dict(bar_edges="|!:"[t]) if rng.random() < .5 else {})

                    def work(n=n, kw=kw):
                        for i in range(n):
                            mp.utils.progress_bar(i, n, **kw)
                        return np.array([texts.take()])
                    names.append(["utils.progress_bar"])
                else:
                    k = K[rng.integers(0, len(K))]
                    q = k.request(rng, small=True)
                    o = k.prepare(q, 3)
                    f = k.map(rng, q)

                    def work(o=o, f=f):
                        r = o.remap(f.copy(), verbose=True)
                        return [np.asarray(r), np.array([texts.take()])]
                    names.append([k.name])
                programs.append([work])
            c.desc(programs=names)
            alone = [[f() for f in p] for p in programs]
            b = sched.Baton(rng, root, float(gen.loguniform(rng, .02, .6)))
            outs = b.run(programs)
        c.count("switches", b.switches)
        c.count("schedules", b.switches > 0)
        judge(c, names, alone, outs)
        c.count("threaded_reports")

    def distinct(ck_, c):
        n = len({s for s in ck_.acc.get("schedule", [])})
        c.desc(distinct_schedules=n)
        c.ok(n > 200, "distinct schedules", got=n)
        c.count("distinct_schedules", n)

    ck.section("functions", functions, 640, 16000)
    ck.section("remaps", remaps, 180, 5000)
    ck.section("weights", weights, 40, 1500)
    ck.section("draws", draws, 150, 4000)
    ck.section("own_weights", own_weights, 40, 1500)
    ck.section("reports", reports, 80, 2500)
    ck.post("distinct", distinct)
