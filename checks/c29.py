"""Radial profiles, cumulative profiles and their errors."""
import healpy as hp
import numpy as np

from checks import c22, c24, c25, c27
from vlib import build, gen, maps

PI = np.pi


def profile(f, areas, pixarea, sigma, w):
    """Weighted mean over angle and its error; areas per radial bin."""
    nphi, nr = f.shape
    out, err = np.full(nr, np.nan), np.full(nr, np.nan)
    for j in range(nr):
        col = [(w[i, j], f[i, j], sigma[i, j]) for i in range(nphi) if w[i, j] != 0]
        tot = sum(q[0] for q in col)
        if col:
            out[j] = sum(q[0] * q[1] for q in col) / tot
            err[j] = np.sqrt(sum(pixarea / areas[j] * (q[0] * q[2])**2 for q in col)) / tot
    return out, err


def setup(ck):
    mp, root = build.load()
    mc, dg, polar = mp.montecarlo, mp.densegrid, mp.polar
    ck.rule = "Random polar data, errors (including zero), weights (including zeros and masks); for the remapping classes, grids inside, across and outside the box with poison values in the unsupported pixels."
    ck.need("standalone", 500)
    ck.need("cumulative", 300)
    for k in ("mc_ring", "dense_ring", "mc_cap", "dense_cap"):
        ck.need(k, 100)
    ck.need("poisoned_pixels", 500)
    ck.need("partly_covered_pixels", 300)
    ck.need("masked_grids", 200)
    ck.need("unmasked_grids", 60)

    def extras(rng, shape):
        f = rng.normal(size=shape) * gen.magnitude(rng)
        sigma = gen.loguniform(rng, 1e-3, 10., shape) * (rng.random(shape) < .9)
        k = rng.integers(0, 4)
        w = None if k == 0 else rng.uniform(.1, 5., shape)
        if k == 2:
            w = (rng.random(shape) < .7).astype(float)
        elif k == 3:
            w *= rng.random(shape) < .8
        if w is not None and rng.random() < .4:
            w = w * (gen.scale(rng) if rng.random() < .6 else float(gen.loguniform(rng, 1e-20, 1e20)))
        if rng.random() < .2:
            sigma = sigma * gen.loguniform(rng, 1e-6, 1e6, shape)
        if rng.random() < .1:
            f = f + rng.normal() * 1e3 * np.abs(f).max()
        return f, sigma, w

    def judge(c, call, f, areas, pixarea, sigma, w, tag):
        """Compares with and without errors; f and sigma clean copies where unsupported (w = 0)."""
        fit = np.ones(f.shape) if w is None else w
        P, E = profile(f, areas, pixarea, sigma, fit)
        scale = np.where(fit != 0, np.abs(f), 0).max() if f.size else 1.
        a = call(False)
        c.ok(isinstance(a, np.ndarray) and a.shape == P.shape, tag + ": a profile alone without errors", got=str(type(a)))
        ok = np.isfinite(P)
        c.close(np.asarray(a, float)[ok], P[ok], 1e-10, 1e-12 * scale, tag + " profile")
        b = call(True)
        c.ok(isinstance(b, tuple) and len(b) == 2 and np.shape(b[0]) == P.shape == np.shape(b[1]), tag + ": profile and errors")
        c.close(np.asarray(b[0], float)[ok], P[ok], 1e-10, 1e-12 * scale, tag + " profile with errors")
        c.close(np.asarray(b[1], float)[ok], E[ok], 1e-10, 1e-300, tag + " error")

    def standalone(c):
        rng = c.rng
        shape = (int(rng.integers(1, 12)), int(rng.integers(1, 8)))
        if rng.random() < .04:
            shape = [(int(rng.integers(40, 400)), shape[1]), (shape[0], int(rng.integers(40, 400)))][rng.integers(0, 2)]
        if rng.random() < .01:
            shape = (int(rng.integers(1000, 6000)), int(rng.integers(1, 3)))
        f, sigma, w = extras(rng, shape)
        re = gen.edges(rng, shape[1], lo=float(rng.choice([0., 1.3])))
        dp = float(2 * PI / shape[0] * rng.uniform(.01, 1.))
        areas = .5 * dp * (re[1:]**2 - re[:-1]**2)
        pixarea = float(gen.loguniform(rng, 1e-3, 10.))
        a2 = np.tile(areas, (shape[0], 1))
        c.desc(f=f, sigma=sigma, w=w, redges=re, dp=dp, pixarea=pixarea)
        kw = {} if w is None else dict(w=w)
        judge(c, lambda e: polar.polar2radial(f, a2, pixarea, **(dict(kw, sigma=sigma) if e else kw)), f, areas, pixarea, sigma, w, "standalone")
        # an undefined value shows in its own radial bin and nowhere else
        i, j = int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))
        bad = f.copy()
        bad[i, j] = rng.choice([np.nan, np.inf])
        P = profile(f, areas, pixarea, sigma, np.ones(shape) if w is None else w)[0]
        for e in (False, True):
            out = polar.polar2radial(bad, a2, pixarea, **(dict(kw, sigma=sigma) if e else kw))
            out = np.asarray(out[0] if e else out)
            rest = (np.arange(shape[1]) != j) & np.isfinite(P)
            c.close(out[rest], P[rest], 1e-10, 1e-12 * np.abs(f).max(), "an undefined value leaves the other radial bins alone")
            if w is None or w[i, j] > 0:
                c.ok(not np.isfinite(out[j]), "an undefined value shows in its radial bin", cell=[i, j], got=out[j])
        # equal weights equal no weights
        v = float(gen.loguniform(rng, .1, 10.))
        one = polar.polar2radial(f, a2, pixarea, sigma=sigma, w=np.full(shape, v))
        two = polar.polar2radial(f, a2, pixarea, sigma=sigma)
        c.close(one[0], two[0], 1e-10, 1e-12 * np.abs(f).max(), "equal weights equal none")
        c.close(one[1], two[1], 1e-10, 0, "equal weights give the same errors")
        c.count("standalone")

    def cumulative(c):
        rng = c.rng
        n = int(rng.integers(1, 20)) if rng.random() < .95 else int(rng.integers(20, 600))
        re = gen.edges(rng, n, lo=float(rng.choice([0., .7])))
        f, s = rng.normal(size=n) * 10, gen.loguniform(rng, 1e-3, 10, n)
        if rng.random() < .2:
            s = gen.loguniform(rng, 1e-8, 1e8, n)
        if rng.random() < .1:
            s = s * (rng.random(n) < .7)
        c.desc(redges=re, f=f, sigma=s)
        want, var = [0.], [0.]
        for k in range(n):
            A = PI * (re[k + 1]**2 - re[k]**2)
            want.append(want[-1] + A * f[k])
            var.append(var[-1] + (A * s[k])**2)
        a = mp.polar.cumulative_radial(re, f)
        scale = np.abs(np.diff(want)).sum()
        c.close(a, want, 0, 1e-12 * scale, "cumulative profile")
        a, e = mp.polar.cumulative_radial(re, f, sigma=s)
        c.close(a, want, 0, 1e-12 * scale, "cumulative profile with errors")
        c.close(e, np.sqrt(var), 1e-11, 0, "cumulative errors")
        c.count("cumulative")

    def ring(kind):
        def case(c):
            rng = c.rng
            if kind == "dense_ring":
                b, d = c25.request(rng, 8)
                maps.enlarge(rng, d, ("numr", "nump"), .03, 80)
                o = dg.Box2Ring()
                maps.setup_box(o, b)
                c25.setup_polar(o, d)
                re = maps.redges_of(d)
                _, slack, share = c25.model(b, d, np.ones((b["numy"], b["numx"])))
                if np.any(slack > 0):
                    c.count("undecided_grids")
                    return
                support = share == 1
            else:
                b, d, how, addzero = c22.request(rng, 6)
                o = mc.Box2Ring()
                maps.setup_box(o, b)
                c22.setup_polar(o, d, how, addzero)
                o.get_weights(mc_size=int(rng.choice([30, 200])), verbose=False)
                re = c22.edges(d, how, addzero)[0]
                m = o.remap(np.full((b["numy"], b["numx"]), 2.), verbose=False)
                support = np.isfinite(m)
                pe = maps.pedges_of(d)
                share = maps.sector_overlap(*maps.box_edges(b), re, pe, d["center"], d.get("phi_shift", 0.), rays=60).sum(axis=(2, 3))
            shape = (d["nump"], d["numr"])
            f, sigma, w = extras(rng, shape)
            if rng.random() < .3:
                f = np.array(o.remap(rng.normal(size=(b["numy"], b["numx"])), verbose=False), float)
            c.desc(kind=kind, box=b, polar=d, f=f, sigma=sigma, w=w, seed=c.np_seed)
            poison = rng.choice([np.nan, np.inf, 1e200, -7e100])
            fp, sp = f.copy(), sigma.copy()
            fp[~support] = poison
            sp[~support] = poison
            wp = None if w is None else w.copy()
            pe = maps.pedges_of(d)
            areas = .5 * (pe[1] - pe[0]) * (re[1:]**2 - re[:-1]**2)
            pixarea = (b["xmax"] - b["xmin"]) * (b["ymax"] - b["ymin"]) / b["numx"] / b["numy"]
            fit = support.astype(float) if w is None else np.where(support, w, 0.)
            kw = {} if wp is None else dict(w=wp)
            if rng.random() < .3:
                o.get_mask_in_bound(verbose=False)
            fc, sc = np.where(support, f, 0.), np.where(support, sigma, 0.)
            judge(c, lambda e: o.polar2radial(fp, **(dict(kw, sigma=sp) if e else kw)), fc, areas, pixarea, sc, fit, kind)
            c.count("poisoned_pixels", int((~support).sum()))
            c.count("partly_covered_pixels", int(np.sum((share > 0) & (share < 1))))
            c.count("masked_grids" if not support.all() else "unmasked_grids")
            c.count(kind)
        return case

    def sky(kind):
        def case(c):
            rng = c.rng
            nside = int(rng.choice([1, 2, 8])) if rng.random() < .6 else int(rng.choice([16, 64, 256, 1024, 4096]))
            if kind == "mc_cap":
                d = maps.cap(rng)
                o = mc.Heal2Ring()
                c24.setup_cap(o, nside, d)
                if rng.random() < .5:
                    o.get_weights(mc_size=20, verbose=False)
            else:
                d = c27.request(rng, "cap")
                o = dg.Heal2Ring()
                c27.prepare(o, "cap", nside, d)
            be, ae = maps.cap_edges(d)
            f, sigma, w = extras(rng, (d["num_beta"], d["num_alpha"]))
            c.desc(kind=kind, grid=d, nside=nside, f=f, sigma=sigma, w=w)
            areas = (be[1] - be[0]) * (np.cos(ae[:-1]) - np.cos(ae[1:]))
            kw = {} if w is None else dict(w=w)
            judge(c, lambda e: o.polar2radial(f, **(dict(kw, sigma=sigma) if e else kw)), f, areas, 4 * PI / (12 * nside**2), sigma, w, kind)
            c.count(kind)
        return case

    ck.section("standalone", standalone, 2500, 200000)
    ck.section("cumulative", cumulative, 1000, 60000)
    for k in ("mc_ring", "dense_ring"):
        ck.section(k, ring(k), 1500, 100000)
    for k in ("mc_cap", "dense_cap"):
        ck.section(k, sky(k), 700, 40000)
