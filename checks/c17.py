"""Random points fill the requested region uniformly."""
import numpy as np

from vlib import build, gen, stat

PI = np.pi


def setup(ck):
    mp, root = build.load()
    r = mp.randoms
    ck.rule = "Random and default regions for every generator; samples are mapped to the unit cube by the region's own volume measure and tested for range, uniformity per axis, joint uniformity and serial independence."
    KINDS = ["randoms_1d", "randoms_2d", "randoms_3d", "randoms_polar", "randoms_sphere_r", "randoms_sphere", "randoms_usphere"]
    for k in KINDS:
        ck.need(k + "_samples", 500000)
    ck.need("sizes", 100)
    ck.need("few_point_samples", 20000)
    ck.assumptions = ["Distribution oracles allow false alarms with probability 1e-12 each."]

    def region(rng, kind, default):
        """keyword arguments, ranges (lo, hi, measure) per returned axis."""
        kw, ax = {}, []

        def span(scale=10.):
            a = float(rng.normal() * rng.choice([0., 1., scale]))
            k = rng.integers(0, 8)
            if k == 0:                      # symmetric about zero
                a = float(rng.choice([1., PI, gen.loguniform(rng, 1e-2, 1e2)]))
                return -a, a
            if k == 1:                      # ends at zero
                return -float(gen.loguniform(rng, 1e-2, 1e2)), 0.
            return a, a + float(gen.loguniform(rng, 1e-2, 1e2))
        rr = (0., 1.) if default else (float(rng.choice([0., rng.uniform(0, 3)])), 0.)
        if not default:
            rr = (rr[0], rr[0] + float(gen.loguniform(rng, .05, 20)))
        thin = float(gen.loguniform(rng, 1e-6, 1e-1)) if not default and rng.random() < .3 else None
        if thin and rr[0] > 0:
            rr = (rr[0], rr[0] * (1 + thin))
        pp = (0., 2 * PI) if default else tuple(float(v) for v in np.sort(rng.uniform(0, 2 * PI, 2)))
        tt = (0., PI) if default else tuple(float(v) for v in np.sort(rng.uniform(0, PI, 2)))
        if thin and rng.random() < .5:
            pp = (pp[0], min(pp[0] + thin, 2 * PI))
        if thin and .3 < tt[0] < PI - .4 and rng.random() < .5:
            tt = (tt[0], tt[0] + thin)
        elif not default and rng.random() < .2:
            thin = float(gen.loguniform(rng, 2e-5, 3e-3))
            tt = (0., thin) if rng.random() < .5 else (PI - thin, PI)
        elif not default and rng.random() < .3:
            tt = (0., tt[1])
        elif not default and rng.random() < .3:
            tt = (tt[0], PI)
        if kind == "randoms_1d":
            s = (0., 1.) if default else span()
            kw = dict(xmin=s[0], xmax=s[1])
            ax = [(*s, "lin")]
        elif kind in ("randoms_2d", "randoms_3d"):
            d = 2 if kind == "randoms_2d" else 3
            s = [(0., 1.)] * d if default else [span() for _ in range(d)] if rng.random() < .6 else [span()] * d
            kw = dict(mins=[v[0] for v in s], maxs=[v[1] for v in s])
            ax = [(*v, "lin") for v in s]
        elif kind == "randoms_polar":
            kw = dict(r_min=rr[0], r_max=rr[1], phi_min=pp[0], phi_max=pp[1])
            ax = [(*rr, "r2"), (*pp, "lin")]
        elif kind == "randoms_sphere_r":
            kw = dict(r_min=rr[0], r_max=rr[1])
            ax = [(*rr, "r3")]
        elif kind == "randoms_sphere":
            kw = dict(r_min=rr[0], r_max=rr[1], phi_min=pp[0], phi_max=pp[1], theta_min=tt[0], theta_max=tt[1])
            ax = [(*rr, "r3"), (*pp, "lin"), (*tt, "cos")]
        else:
            kw = dict(phi_min=pp[0], phi_max=pp[1], theta_min=tt[0], theta_max=tt[1])
            ax = [(*pp, "lin"), (*tt, "cos")]
        return ({} if default else kw), ax

    def to_unit(c, v, lo, hi, kind):
        v = np.asarray(v, float)
        tol = 1e-14 * (abs(lo) + abs(hi))
        if kind == "cos":
            tol = 2e-8 if min(np.sin(lo), np.sin(hi)) < 1e-6 else 1e-14 / min(np.sin(lo), np.sin(hi)) + 1e-14
            tol = np.where((v < 1e-3) | (v > PI - 1e-3), 3e-8, tol)
        c.ok(np.all((v >= lo - tol) & (v <= hi + tol)), "inside the requested range", lo=lo, hi=hi, worst=[v.min() if v.size else 0, v.max() if v.size else 0])
        if kind == "lin":
            u = (v - lo) / (hi - lo)
        elif kind == "r2":
            u = (v - lo) * (v + lo) / ((hi - lo) * (hi + lo))
        elif kind == "r3":
            u = (v - lo) * (v * v + v * lo + lo * lo) / ((hi - lo) * (hi * hi + hi * lo + lo * lo))
        else:
            u = np.sin((v - lo) / 2) * np.sin((v + lo) / 2) / (np.sin((hi - lo) / 2) * np.sin((hi + lo) / 2))
        return np.clip(u, 0., 1.)

    def sample(c, kind, n, default):
        kw, ax = region(c.rng, kind, default)
        c.desc(kind=kind, size=n, seed=c.np_seed, **kw)
        out = getattr(r, kind)(n, **kw)
        if len(ax) == 1:
            out = (out,)
        c.ok(isinstance(out, (tuple, list)) and len(out) == len(ax), "number of returned arrays")
        for v in out:
            c.ok(np.shape(v) == (n,), "as many points as requested", got=np.shape(v), want=n)
        return [to_unit(c, v, *a) for v, a in zip(out, ax)], ax

    def one(c):
        kind = KINDS[c.index % len(KINDS)]
        n = 60000 if c.index // len(KINDS) != 5 else 500000
        us, ax = sample(c, kind, n, c.index < len(KINDS))
        c.count(kind + "_samples", n)
        for k, u in enumerate(us):
            stat.dkw(c, u, "%s axis %d" % (kind, k))
            stat.extremes(c, u, "%s axis %d" % (kind, k))
            # successive points are independent
            stat.uniform_cube(c, [u[:-1:2], u[1::2]], "%s axis %d, successive points" % (kind, k))
            # cosines next to a pole have few distinct values
            gap = 2.3e-16 / (np.cos(ax[k][0]) - np.cos(ax[k][1])) if ax[k][2] == "cos" else 1e-12
            c.ok(len(np.unique(u)) > n - 20 - 2 * gap * n * n, "points are not repeated")
            c.add("%s %d" % (kind, k), u)
        if len(us) > 1:
            stat.uniform_cube(c, us, kind + " joint distribution")
            for a in range(len(us)):
                for b in range(len(us)):
                    if a != b:
                        for lag in {1, int(c.rng.choice([2, 3, 5, n // 2]))}:
                            stat.uniform_cube(c, [us[a][lag:], us[b][:-lag]], "%s axis %d against axis %d, %d points on" % (kind, a, b, lag))
                        stat.uniform_cube(c, [us[a], us[b][::-1]], "%s axis %d against axis %d reversed" % (kind, a, b))

    def middle(c):
        """Any number of points in between; no point depends on one any distance away."""
        kind = KINDS[c.index % len(KINDS)]
        n = int(gen.loguniform(c.rng, 200, 40000))
        us, ax = sample(c, kind, n, c.rng.random() < .3)
        for k, u in enumerate(us):
            stat.dkw(c, u, "%s axis %d" % (kind, k))
            for j in range(k + 1):
                stat.lags(c, us[j] - .5, us[k] - .5, "%s axes %d and %d" % (kind, j, k))
            c.add("%s %d" % (kind, k), u)
        c.count("middle_samples", n)

    def pooled(ck_, c):
        c.desc(pooled=sorted(ck_.acc), samples=sum(len(v) * len(v[0]) for v in ck_.acc.values()))
        for key, vals in [v for v in ck_.acc.items() if not v[0].startswith("few")]:
            stat.dkw(c, np.concatenate(vals), key + ", all regions together")
            stat.extremes(c, np.concatenate(vals), key + ", all regions together")
            c.count("pooled_tests")
        for kind in KINDS:
            axes = [np.concatenate(ck_.acc[k]) for k in sorted(ck_.acc) if k.rsplit(" ", 1)[0] == kind]
            if len(axes) > 1:
                stat.uniform_cube(c, axes, kind + " joint distribution, all regions together", bins=[12] * len(axes))

    def sizes(c):
        kind = KINDS[c.index % len(KINDS)]
        n = int(c.rng.choice([0, 1, 2, 3, 10, 101]))
        us, _ = sample(c, kind, n, c.rng.random() < .3)
        c.count("sizes")
        for _ in range(60 if 0 < n < 50 else 0):
            for k, u in enumerate(sample(c, kind, n, c.rng.random() < .3)[0]):
                c.add("few %s %d" % (kind, k), u)

    def few(ck_, c):
        """Samples of calls that ask for a few points only."""
        for kind in KINDS:
            axes = [np.concatenate(ck_.acc[k]) for k in sorted(ck_.acc) if k.startswith("few ") and k[4:].rsplit(" ", 1)[0] == kind]
            for u in axes:
                stat.dkw(c, u, kind + ", few points at a time")
                stat.extremes(c, u, kind + ", few points at a time")
                stat.uniform_cube(c, [u[:-1:2], u[1::2]], kind + ", few points at a time, successive points", bins=[4, 4])
            if len(axes) > 1:
                stat.uniform_cube(c, axes, kind + " joint distribution, few points at a time", bins=[4] * len(axes))
            c.count("few_point_samples", len(axes[0]))

    ck.section("one", one, 7 * 24, 7 * 1500)
    ck.need("middle_samples", 500000)
    ck.section("middle", middle, 7 * 24, 7 * 1500)
    ck.section("sizes", sizes, 210, 20000)
    ck.post("pooled", pooled)
    ck.post("few", few)
