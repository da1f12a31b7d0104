"""1D rebinning errors are standard errors of the rebinned mean."""
import math

import numpy as np

from checks.c13 import overlaps, problem
from vlib import build, gen
from vlib.ref import F


def want_sigma(e, s, new, w):
    """sqrt(sum over old bins of (overlap*w*sigma/sqrt(fraction used))^2) / sum(overlap*w)."""
    out = []
    wt = [F(1)] * len(s) if w is None else [F(x) for x in w]
    for lo, hi in zip(new[:-1], new[1:]):
        o = overlaps(e, lo, hi)
        d = sum(a * b for a, b in zip(o, wt))
        if d == 0:
            out.append(np.nan)
            continue
        var = F(0)
        for i in range(len(s)):
            if o[i] > 0:
                frac = o[i] / (F(e[i + 1]) - F(e[i]))
                var += (o[i] * wt[i] * F(s[i]))**2 / frac
        out.append(math.sqrt(float(var / d**2)))
    return np.array(out)


def setup(ck):
    mp, root = build.load()
    rebin = mp.one_d.rebin_1d
    ck.rule = "The same bin problems as C13 with random positive errors, with and without weights."
    ck.need("errors", 1500)
    ck.need("weighted", 200)
    ck.need("partial_bins", 500)
    ck.need("splits", 200)

    def run(e, v, new, w, s):
        kw = {} if w is None else dict(w=w.copy())
        o = rebin(e.copy(), v.copy(), new.copy(), sigma=s.copy(), **kw)
        return np.asarray(o[0], float), np.asarray(o[1], float)

    def one(c):
        rng = c.rng
        e, v, new, w = problem(rng)
        s = gen.loguniform(rng, .01, 10., len(v))
        if rng.random() < .15:
            s[rng.integers(0, len(s))] = 0.
        c.desc(edges=e, data=v, new=new, w=w, sigma=s)
        f, g = run(e, v, new, w, s)
        want = want_sigma(e, s, new, w)
        tol = 1e-9
        c.close(g, want, tol, 1e-12, "standard error of the overlap mean")
        c.count("errors", len(want))
        c.count("weighted", w is not None)
        for lo, hi in zip(new[:-1], new[1:]):
            o = overlaps(e, lo, hi)
            c.count("partial_bins", sum(1 for i, x in enumerate(o) if 0 < x < F(e[i + 1]) - F(e[i])))
        kw = {} if w is None else dict(w=w.copy())
        c.same(f, np.asarray(rebin(e.copy(), v.copy(), new.copy(), **kw), float), "the mean does not depend on the errors")
        k = float(gen.loguniform(rng, .1, 10)) if rng.random() < .9 else 10.**float(rng.uniform(-60, 60))
        c.close(run(e, v, new, w, s * k)[1], k * g, 1e-11, 0, "errors scale linearly")
        c.same(run(e, v * 3 - 1, new, w, s)[1], g, "errors do not depend on the data")
        if w is not None:
            c.close(run(e, v, new, w * k, s)[1], g, 1e-11, 0, "errors do not change with the scale of the weights")
            u = np.full(len(v), 2.5)
            c.close(run(e, v, new, u, s)[1], run(e, v, new, None, s)[1], 1e-11, 0, "uniform weights change no error")
        # a non-overlapping bin's error has no influence
        b = s.copy()
        used = np.zeros(len(s), bool)
        for lo, hi in zip(new[:-1], new[1:]):
            used |= np.array([x > 0 for x in overlaps(e, lo, hi)])
        b[~used] = np.inf
        c.same(run(e, v, new, w, b)[1], g, "bins without overlap have no influence on the errors")

    def split(c):
        """Splitting an old bin into k equal parts of error sigma*sqrt(k) changes nothing."""
        rng = c.rng
        e, v, new, w = problem(rng)
        s = gen.loguniform(rng, .01, 10., len(v))
        i = int(rng.integers(0, len(v)))
        k = int(rng.integers(2, 6))
        inner = np.linspace(e[i], e[i + 1], k + 1)[1:-1]
        e2 = np.concatenate([e[:i + 1], inner, e[i + 1:]])
        rep = lambda x: np.concatenate([x[:i], np.full(k, x[i]), x[i + 1:]])
        s2 = rep(s)
        s2[i:i + k] *= np.sqrt(k)
        c.desc(edges=e, new=new, w=w, sigma=s, split=i, parts=k)
        a = run(e, v, new, w, s)[1]
        b = run(e2, rep(v), new, None if w is None else rep(w), s2)[1]
        width = np.array([float(sum(overlaps(e, p, q))) for p, q in zip(new[:-1], new[1:])])
        ok = width > 1e-6 * (e[-1] - e[0])
        c.close(a[ok], b[ok], 1e-7, 1e-12, "splitting an old bin changes no error")
        c.count("splits")

    ck.section("one", one, 700, 15000)
    ck.section("split", split, 400, 8000)
