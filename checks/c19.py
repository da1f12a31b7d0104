"""Cumulative distributions and samples drawn from them."""
import numpy as np
from scipy import interpolate

from vlib import build, gen, stat


def setup(ck):
    mp, root = build.load()
    r = mp.randoms
    ck.rule = "Random densities (rough, with empty bins, peaked, integer counts, smooth analytic ones) on uniform grids of 2 to 200 bins."
    ck.need("cumulatives", 300)
    ck.need("linear_samples", 200000)
    ck.need("smooth_samples", 200000)
    ck.need("empty_density_bins", 50)
    ck.need("few_bin_densities", 10)
    ck.assumptions = ["Cubic interpolation is judged for smooth strictly positive densities only; the allowance for its interpolation error is 5e-4 of probability plus 1.5 times the error of a cubic spline through the same edges.",
                      "Distribution oracles allow false alarms with probability 1e-12 each."]

    def grid(rng, n=None):
        n = int(rng.choice([2, 3, int(rng.integers(2, 40)), 200])) if n is None else n
        lo, dx = float(rng.normal() * 5), gen.scale(rng, 1e-2, 10, 1e-9, 1e9)
        lo = lo * dx if rng.random() < .5 or not 1e-3 < dx < 1e3 else lo
        return lo + dx * (np.arange(n) + .5), lo + dx * np.arange(n + 1), dx

    def rough(c, n):
        rng = c.rng
        p = gen.loguniform(rng, 1e-2, 10., n)
        k = rng.integers(0, 4)
        if k == 0 and n > 3:
            p[rng.random(n) < .3] = 0.
            p[rng.integers(0, n)] = 1.
            c.count("empty_density_bins", int((p == 0).sum()))
        elif k == 1:
            p = rng.integers(1, 9, n)
        elif k == 2:
            p[rng.integers(0, n)] *= 50
        return p

    def cumulative(c):
        rng = c.rng
        xm, xe, dx = grid(rng, int(rng.choice([600, 5000, 20000])) if rng.random() < .06 else None)
        p = rough(c, len(xm))
        c.desc(xmid=xm, pdf=p)
        x, F, q = r.pdf2cdf(xm.copy(), p.copy())
        tol = 1e-12 * (np.abs(xe).max() + dx)
        c.close(x, xe, 0, tol, "defined on the bin edges")
        c.ok(F[0] == 0. and F[-1] == 1., "runs from exactly 0 to exactly 1", got=[F[0], F[-1]])
        c.close(np.diff(F), p / p.sum(), 0, 1e-13, "grows in each bin in proportion to the density")
        c.ok(np.all(np.diff(F) >= 0), "does not decrease")
        c.close(np.sum(q) * dx, 1., 1e-10, msg="normalised density integrates to one")
        c.close(q * p.sum() * dx, p, 1e-10, 1e-300, "normalised density is proportional to the density")
        two = r.pdf2cdf(xm.copy(), p.copy(), return_normpdf=False)
        c.ok(len(two) == 2, "two results when the density is not asked for")
        c.same(two[0], x, "edges")
        c.same(two[1], F, "cumulative")
        k = float(gen.loguniform(rng, .01, 100))
        s = r.pdf2cdf(xm.copy(), p * k)
        c.close(s[1], F, 0, 1e-13 + 4.5e-16 * len(F), "cumulative does not depend on the density's normalisation")
        c.close(s[2], q, 1e-11 + 4.5e-16 * len(F), 1e-300, "normalised density does not depend on the density's normalisation")
        c.count("cumulatives")

    def to_u(x, F, v):
        return np.interp(v, x, F)

    def linear(c):
        rng = c.rng
        n = 20000
        if rng.random() < .5:
            xm, x, dx = grid(rng)
            p = rough(c, len(xm))
            c.desc(xmid=xm, pdf=p, size=n, seed=c.np_seed, via="randoms_pdf")
            v = r.randoms_pdf(xm.copy(), p.copy(), n, kind="linear")
            F = np.concatenate([[0.], np.cumsum(p) / p.sum()])
        else:
            m = int(rng.integers(2, 20))
            x = gen.edges(rng, m)
            F = np.concatenate([[0.], np.sort(rng.random(m - 1)), [1.]])
            c.desc(x=x, cdf=F, size=n, seed=c.np_seed, via="randoms_cdf")
            v = r.randoms_cdf(x.copy(), F.copy(), n, kind="linear")
        v = np.asarray(v, float)
        c.ok(v.shape == (n,), "as many samples as requested")
        tol = 1e-11 * (np.abs(x).max() + 1)
        c.ok(np.all((v >= x[0] - tol) & (v <= x[-1] + tol)), "between the first and last coordinate", got=[v.min(), v.max()])
        # flat parts of the cumulative: inside an empty bin no sample
        w = np.diff(F)
        empty = np.flatnonzero(w == 0)
        for i in empty:
            a, b = x[i] + 1e-6 * (x[i + 1] - x[i]), x[i + 1] - 1e-6 * (x[i + 1] - x[i])
            c.ok(not np.any((v > a) & (v < b)), "no sample where the density is zero", bin=int(i))
        u = to_u(x, F, v)
        stat.dkw(c, u, "samples follow the piecewise-linear cumulative")
        stat.uniform_cube(c, [u[:-1:2], u[1::2]], "successive samples")
        c.count("linear_samples", n)
        c.add("linear", u)

    def smooth(c):
        rng = c.rng
        n = 20000
        few = rng.random() < .3
        n = 500000 if few and not c.index % 3 else n
        m = int(rng.integers(60, 200)) if not few else int(rng.integers(4, 13))
        xm, x, dx = grid(rng, m)
        t = (xm - x[0]) / (x[-1] - x[0])
        te = np.linspace(0., 1., 4001)
        k = rng.integers(0, 3)
        a, b = rng.uniform(.2, .8), rng.uniform(.25, .6)
        f = [lambda s: 1. + .8 * np.sin(2 * np.pi * (s + a)), lambda s: np.exp(-.5 * ((s - a) / b)**2),
             lambda s: np.exp((a - .5) * 6 * s)][k]
        if few:
            slope = float(rng.choice([-1., 1.]) * rng.uniform(1., 3.))
            f = lambda s: np.exp(slope * s)
        c.desc(xmid=xm, kind=int(k), a=a, b=b, size=n, seed=c.np_seed)
        if rng.random() < .5:
            v = r.randoms_pdf(xm.copy(), f(t), n)
        else:
            xx, F = r.pdf2cdf(xm.copy(), f(t), return_normpdf=False)
            v = r.randoms_cdf(xx, F, n, kind="cubic") if rng.random() < .5 else r.randoms_cdf(xx, F, n)
        v = np.asarray(v, float)
        c.ok(v.shape == (n,), "as many samples as requested")
        s = (v - x[0]) / (x[-1] - x[0])
        g = f(te)
        G = np.concatenate([[0.], np.cumsum((g[1:] + g[:-1]) / 2)])
        u = np.interp(s, te, G / G[-1])
        # interpolation error of an inverse cumulative through the edges (a cubic spline)
        e = np.concatenate([[0.], np.cumsum(f(t))])
        q = np.linspace(0., 1., 20001)
        spline = interpolate.CubicSpline(e / e[-1], np.linspace(0, 1, m + 1))(q)
        bias = float(np.max(np.abs(np.interp(spline, te, G / G[-1]) - q)))
        if bias > 3e-3:
            return
        over = 1e-4 + 1.5 * max(0., -spline.min(), spline.max() - 1)
        c.ok(np.all((s >= -over) & (s <= 1 + over)), "between the first and last coordinate", got=[v.min(), v.max()])
        h = np.sort(u)
        j = np.arange(1, n + 1)
        d = max(np.max(j / n - h), np.max(h - (j - 1) / n))
        lim = np.sqrt(np.log(2 / stat.DELTA) / (2 * n)) + 5e-4 + 1.5 * bias
        c.count("few_bin_densities", few)
        c.ok(d <= lim, "samples follow the smooth density: distance %.4g, allowed %.4g" % (d, lim))
        c.count("smooth_samples", n)
        if m > 50:
            c.add("smooth", u)

    def pooled(ck_, c):
        for key, vals in ck_.acc.items():
            u = np.concatenate(vals)
            c.desc(**{key: len(u)})
            if key == "linear":
                stat.dkw(c, u, "all piecewise-linear samples together")
                stat.extremes(c, u, "all piecewise-linear samples together")
            else:
                h = np.sort(u)
                n = len(h)
                j = np.arange(1, n + 1)
                d = max(np.max(j / n - h), np.max(h - (j - 1) / n))
                c.ok(d <= np.sqrt(np.log(2 / stat.DELTA) / (2 * n)) + 5e-4, "all smooth samples together: distance %.4g" % d)

    def small(c):
        xm, x, dx = grid(c.rng)
        n = int(c.rng.choice([0, 1, 5]))
        c.desc(xmid=xm, size=n)
        v = r.randoms_pdf(xm, np.ones(len(xm)), n, kind="linear")
        c.ok(np.shape(v) == (n,), "as many samples as requested")

    ck.section("cumulative", cumulative, 400, 80000)
    ck.section("linear", linear, 160, 25000)
    ck.section("smooth", smooth, 120, 20000)
    ck.section("small", small, 60, 3000)
    ck.post("pooled", pooled)
