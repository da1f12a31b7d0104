"""1D rebinning is the overlap mean."""
import numpy as np

from vlib import build, gen, ref
from vlib.ref import F


def problem(rng, weights=None, big=False):
    """Old edges, values, new edges, weights."""
    n = int(rng.integers(1, 13)) if rng.random() < .96 else int(rng.integers(40, 1200))
    e = gen.edges(rng, n)
    if rng.random() < .3:
        e = np.linspace(e[0], e[-1], n + 1)
    if rng.random() < .2:
        e = np.round(e * 4) / 4 + np.arange(n + 1) * .25
    if rng.random() < .15:
        e = e * 1e6
    if rng.random() < .2:
        e = e * gen.loguniform(rng, 1e-13, 1e13)
    L = e[-1] - e[0]
    m = int(rng.integers(1, 9))
    k = rng.integers(0, 10)
    if k == 0:
        new = np.linspace(e[0], e[-1], m + 1)
    elif k == 1:
        new = np.sort(rng.choice(e, min(len(e), m + 1), replace=False))
    elif k == 2:
        new = np.sort(rng.uniform(e[0], e[-1], m + 1))
    elif k == 3:
        new = np.sort(rng.uniform(e[0] - L, e[-1] + L, m + 1))
    elif k == 4:
        j = rng.integers(0, n)
        new = np.sort(rng.uniform(e[j], e[j + 1], m + 1))
    elif k == 5:
        new = e[-1] + np.cumsum(rng.uniform(0., L, m + 1))
    elif k == 6:
        new = e.copy()
    elif k == 7:
        new = np.sort(np.concatenate([rng.choice(e, max(1, len(e) // 2), replace=False), rng.uniform(e[0] - .3 * L, e[-1] + .3 * L, m)]))
    elif k == 8:
        new = np.array([e[0] - .4 * L, e[-1] + .7 * L])
    else:
        # slivers: new edges any order of magnitude away from old ones
        at = rng.choice(e, m + 1) if rng.random() < .5 else rng.choice([e[0], e[-1]], m + 1)
        new = np.unique(at + gen.offsets(rng, m + 1, 1e-15, .3) * L)
        if len(new) < 2:
            new = np.append(new, e[-1] + L)
    # no near-coincident edges: they only test rounding
    near = new if k == 9 else e[np.argmin(np.abs(new[:, None] - e[None, :]), axis=1)]
    new = np.where(np.abs(new - near) < 1e-7 * L, near, new)
    new = np.unique(new)
    if k != 9:
        new = new[np.concatenate([[True], np.diff(new) > 1e-7 * L])]
    if len(new) < 2:
        new = np.array([e[0], e[-1]])
    v = rng.normal(size=n) * gen.magnitude(rng)
    w = None
    if weights or (weights is None and rng.random() < .5):
        w = gen.loguniform(rng, .01, 100., n) * (1. if rng.random() < .75 else gen.loguniform(rng, 1e-30, 1e30))
        if rng.random() < .3:
            w = np.full(n, w[0])
        elif rng.random() < .4:
            w = gen.loguniform(rng, 1e-9, 1e9, n)
    return e, v, new, w


def overlaps(e, lo, hi):
    lo, hi = float(lo), float(hi)
    a, b = np.maximum(e[:-1], lo).tolist(), np.minimum(e[1:], hi).tolist()
    return [F(q) - F(p) if q > p else F(0) for p, q in zip(a, b)]


def want_mean(e, v, new, w):
    out, scale = [], []
    wt = [F(1)] * len(v) if w is None else [F(x) for x in w]
    for lo, hi in zip(new[:-1], new[1:]):
        o = overlaps(e, lo, hi)
        d = sum(a * b for a, b in zip(o, wt))
        if d == 0:
            out.append(np.nan)
            scale.append(1.)
            continue
        sel = [i for i in range(len(v)) if o[i] > 0]
        if all(np.isfinite(v[i]) for i in sel):
            out.append(float(sum(o[i] * wt[i] * F(v[i]) for i in sel) / d))
            scale.append(float(max(abs(v[i]) for i in sel)))
        else:
            s = [v[i] for i in sel if not np.isfinite(v[i])]
            out.append(float(sum(s)))
            scale.append(1.)
    return np.array(out), np.array(scale)


def setup(ck):
    mp, root = build.load()
    od = mp.one_d
    ck.rule = "Random uneven, even and rounded edges; new bins inside, across, aligned with, containing and outside the old range; weights; infinities and NaN."
    ck.need("new_bins", 1500)
    ck.need("empty_bins", 50)
    ck.need("inside_one_bin", 50)
    ck.need("weighted", 200)
    ck.need("nonfinite_values", 50)
    ck.need("single_bin_weights", 500)
    ck.need("conserved", 50)
    ck.assumptions = ["Weights are positive and new bins have positive width; exact overlaps are computed in rational arithmetic."]

    def rebin(e, v, new, w=None):
        kw = {} if w is None else dict(w=w.copy())
        return np.asarray(od.rebin_1d(e.copy(), v.copy(), new.copy(), **kw), float)

    def one(c):
        rng = c.rng
        e, v, new, w = problem(rng)
        if rng.random() < .25:
            v = v.copy()
            v[rng.integers(0, len(v))] = rng.choice([np.inf, -np.inf, np.nan])
            c.count("nonfinite_values")
        elif rng.random() < .1:
            v = np.round(v * 10).astype(int) if rng.random() < .5 else rng.integers(-2**45, 2**45, len(v))
        c.desc(edges=e, data=v, new=new, w=w)
        got = rebin(e, v, new, w)
        want, scale = want_mean(e, v, new, w)
        L = e[-1] - e[0]
        # rounding of edge differences
        width = np.array([float(sum(overlaps(e, a, b))) for a, b in zip(new[:-1], new[1:])])
        cond = np.abs(e).max() / np.where(width > 0, width, np.inf)
        c.close(got, want, 0, 1e-12 * scale * (1 + cond * 1e-3), "overlap mean")
        c.count("new_bins", len(want))
        c.count("empty_bins", int(np.isnan(width / width).sum() if len(width) else 0))
        for a, b in zip(new[:-1], new[1:]):
            k = sum(1 for x in overlaps(e, a, b) if x > 0)
            c.count("inside_one_bin", k == 1)
        c.count("weighted", w is not None)
        # constant
        k = float(rng.normal() * 10)
        got = rebin(e, np.full(len(v), k), new, w)
        c.close(got[width > 0], np.full(int((width > 0).sum()), k), 1e-12, 0, "a constant stays constant")
        c.ok(np.all(np.isnan(got[width == 0])), "not-a-number without overlap", got=got)

    def linear(c):
        rng = c.rng
        e, v, new, w = problem(rng)
        u = rng.normal(size=len(v)) * np.abs(v).max()
        a, b = rng.normal(size=2)
        c.desc(edges=e, f=v, g=u, new=new, a=a, b=b, w=w)
        lhs = rebin(e, a * v + b * u, new, w)
        rhs = a * rebin(e, v, new, w) + b * rebin(e, u, new, w)
        c.close(lhs, rhs, 0, 1e-11 * (np.abs(v).max() + np.abs(u).max()) * 3, "linear in the data")
        if w is not None:
            c.close(rebin(e, v, new, w * 7.5), rebin(e, v, new, w), 0, 1e-12 * np.abs(v).max(), "scaling all weights changes nothing")
            c.close(rebin(e, v, new, np.full(len(v), 3.)), rebin(e, v, new), 0, 1e-12 * np.abs(v).max(), "uniform weights change nothing")
        # integral, when the new bins tile the old range
        m = int(rng.integers(1, 8))
        t = np.sort(rng.uniform(e[0], e[-1], m))
        t = np.unique(np.concatenate([[e[0]], t, [e[-1]]]))
        got = rebin(e, v, t)
        c.close(np.sum(got * np.diff(t)), np.sum(v * np.diff(e)), 0, 1e-11 * np.sum(np.abs(v) * np.diff(e)) + 1e-12 * np.abs(e).max() * np.abs(v).max(),
                "integral conserved")
        c.count("conserved")
        # reflection
        r = rebin(-e[::-1], v[::-1], -new[::-1], None if w is None else w[::-1])[::-1]
        c.close(r, rebin(e, v, new, w), 0, 1e-11 * np.abs(v).max(), "mirror image")

    def weights(c):
        rng = c.rng
        e, v, new, w = problem(rng, False)
        c.desc(edges=e, new=new)
        for lo, hi in zip(new[:-1], new[1:]):
            o = overlaps(e, lo, hi)
            got = od.rebin_1d_single_bin_weights(e.copy(), float(lo), float(hi))
            c.count("single_bin_weights")
            if sum(o) == 0:
                c.ok(np.all(np.isnan(got)), "not-a-number without overlap", got=got)
            else:
                c.close(got, [float(x / (F(hi) - F(lo))) for x in o], 1e-9, 1e-15, "overlap length over the new bin's length", lo=lo, hi=hi)

    ck.section("one", one, 700, 15000)
    ck.section("linear", linear, 400, 8000)
    ck.section("weights", weights, 300, 6000)
