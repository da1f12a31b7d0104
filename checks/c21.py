"""Stochastic weights round to neighbours with the right mean."""
import numpy as np

from vlib import build, gen, stat


def setup(ck):
    mp, root = build.load()
    si, sb = mp.randoms.stochastic_integer_weights, mp.randoms.stochastic_binary_weights
    ck.rule = "Weights that are integers, halves, tiny, near-integers and generic, as single numbers and as arrays of one to three dimensions, drawn many times."
    ck.need("array_draws", 300000)
    ck.need("scalar_draws", 50000)
    ck.need("multi_dimensional", 20)
    ck.need("integer_weights", 100)
    ck.assumptions = ["Weights are non-negative. Distribution oracles allow false alarms with probability 1e-12 each."]

    def weights(rng, n):
        w = rng.uniform(0, 5, n)
        k = rng.integers(0, 8, n)
        w = np.where(k == 0, np.round(w), w)
        w = np.where(k == 1, np.floor(w) + .5, w)
        w = np.where(k == 2, rng.random(n), w)
        w = np.where(k == 3, np.floor(w) + rng.choice([1e-3, 1 - 1e-3, .01, .99], n), w)
        w = np.where(k == 4, 0., w)
        w = np.where(k == 5, w * gen.loguniform(rng, 1., 1e13, n), w)
        w = np.where(k == 6, np.floor(w) + gen.loguniform(rng, 1e-12, .1, n), w)
        return w

    def judge_si(c, w, o):
        o = np.asarray(o, float)
        c.ok(o.shape == np.shape(w), "shape of the weights", got=o.shape, want=np.shape(w))
        c.ok(np.all((o == np.floor(w)) | (o == np.ceil(w))), "the integer just below or above", w=w, got=o)

    def judge_sb(c, w, o):
        o = np.asarray(o, float)
        c.ok(o.shape == np.shape(w), "shape of the binary weights", got=o.shape, want=np.shape(w))
        c.ok(np.all((o == 0) | (o == 1)), "binary weights are 0 or 1", w=w, got=o)
        c.ok(np.all(o[np.asarray(w) >= 1] == 1), "a weight of at least 1 gives 1", w=w, got=o)
        c.ok(np.all(o[np.asarray(w) == 0] == 0), "a weight of 0 gives 0", w=w, got=o)

    def binom_all(c, k, n, p, what):
        for kk, pp in zip(np.ravel(k), np.ravel(p)):
            if 0 < pp < 1:
                stat.binomial(c, int(round(kk)), n, float(pp), what)

    def arrays(c):
        rng = c.rng
        shp = [(1,), (5,), (40,), (4, 4), (3, 7), (6, 1), (2, 3, 4)][c.index % 7]
        n = int(np.prod(shp))
        w = weights(rng, n).reshape(shp)
        reps = 1500
        c.desc(w=w, shape=shp, reps=reps, seed=c.np_seed)
        up, ones = np.zeros(shp), np.zeros(shp)
        pair = np.zeros((n, n))
        frac = w - np.floor(w)
        z = np.zeros((reps, n))
        for t in range(reps):
            o = si(w.copy())
            judge_si(c, w, o)
            d = (np.asarray(o, float) - np.floor(w))
            up += d
            z[t] = d.ravel()
            b = sb(w.copy())
            judge_sb(c, w, b)
            ones += np.asarray(b, float)
        c.count("array_draws", reps * n)
        c.count("multi_dimensional", len(shp) > 1)
        c.count("integer_weights", int(np.sum(frac == 0)))
        binom_all(c, up, reps, frac, "stochastic integer weights average to the weight")
        binom_all(c, ones, reps, np.minimum(w, 1.), "stochastic binary weights average to the smaller of 1 and the weight")
        # independence of elements
        f = frac.ravel()
        live = np.flatnonzero((f > .05) & (f < .95))
        for a, b in zip(live[:-1], live[1:]):
            stat.binomial(c, int(np.sum(z[:, a] * z[:, b])), reps, float(f[a] * f[b]), "elements are drawn independently", elements=[int(a), int(b)])
        if len(live) > 2:
            a, b = live[0], live[-1]
            stat.binomial(c, int(np.sum(z[:, a] * z[:, b])), reps, float(f[a] * f[b]), "elements are drawn independently", elements=[int(a), int(b)])

    def scalars(c):
        rng = c.rng
        w = float(weights(rng, 1)[0])
        if c.index % 6 == 0:
            w = float(rng.choice([0., 1., 2., .5, 1.5]))
        reps = 2000
        c.desc(w=w, reps=reps, seed=c.np_seed)
        arg = w if rng.random() < .7 else np.float64(w)
        up = ones = 0
        for _ in range(reps):
            o = si(arg)
            c.ok(np.ndim(o) == 0 and o in (np.floor(w), np.ceil(w)), "the integer just below or above", got=o)
            up += o - np.floor(w)
            b = sb(arg)
            c.ok(np.ndim(b) == 0 and b in (0, 1), "binary weights are 0 or 1", got=b)
            ones += b
        binom_all(c, [up], reps, [w - np.floor(w)], "stochastic integer weight averages to the weight")
        p = min(w, 1.)
        if 0 < p < 1:
            stat.binomial(c, int(ones), reps, p, "stochastic binary weight averages to the smaller of 1 and the weight")
        else:
            c.ok(ones == reps * p, "binary weight of a weight of 0 or at least 1")
        c.count("scalar_draws", reps)

    def large(c):
        """One long array: the mean over elements."""
        rng = c.rng
        n = 200000 if c.index % 3 else 1000000
        x = float(rng.choice([.5, .01, .99, rng.uniform(0, 1), rng.uniform(0, 1)]))
        if c.index % 2:
            x = float(rng.choice([.003, .005, .0049, .995, .9951, .125, .0625 / 2]))
            x = float(gen.loguniform(rng, 1e-5, .1)) if c.index % 4 == 1 else x
            x = 1 - x if rng.random() < .3 else x
        k = int(rng.integers(0, 4)) if rng.random() < .8 else int(gen.loguniform(rng, 1e2, 1e8))
        w = np.full(n, k + x)
        c.desc(n=n, w=k + x, seed=c.np_seed)
        o = si(w)
        judge_si(c, w, o)
        stat.binomial(c, int(np.sum(o - k)), n, (k + x) - k, "mean over a long array")
        h = (np.asarray(o) - k).astype(int)
        p = (k + x) - k
        stat.lags(c, h - p, h - p, "elements are independent", var=p * (1 - p), sup=max(p, 1 - p))
        stat.binomial(c, int(np.sum(h[:-1:2] * h[1::2])), n // 2, ((k + x) - k)**2, "neighbouring elements are independent")
        b = sb(w)
        judge_sb(c, w, b)
        if k == 0:
            stat.binomial(c, int(np.sum(b)), n, w[0], "mean of the binary weights over a long array")
        c.count("array_draws", n)

    def mixed(c):
        """One long array of all kinds of weights: the sum over elements of similar fraction."""
        rng = c.rng
        n = 300000
        w = rng.integers(0, 4, n) + np.where(rng.random(n) < .5, rng.random(n), gen.loguniform(rng, 1e-5, 1, n))
        c.desc(n=n, seed=c.np_seed)
        f = w - np.floor(w)
        o = si(w.copy())
        judge_si(c, w, o)
        up = np.asarray(o) - np.floor(w)
        b = sb(w.copy())
        judge_sb(c, w, b)
        lim = np.concatenate([[0.], np.geomspace(1e-4, .5, 12), 1 - np.geomspace(1e-3, .45, 8)[::-1], [1.]])
        for lo, hi in zip(lim[:-1], lim[1:]):
            for name, got, sel in (("integer", up, (f >= lo) & (f < hi)), ("binary", np.asarray(b, float), (f >= lo) & (f < hi) & (w < 1))):
                if sel.any():
                    q = f[sel]
                    c.ok(abs(np.mean(got[sel]) - q.mean()) <= stat.bernstein(len(q), np.mean(q * (1 - q)), 1.), "mean of the %s weights with fractions from %.4g to %.4g" % (name, lo, hi), got=np.mean(got[sel]), want=q.mean())
        c.count("array_draws", n)

    ck.section("arrays", arrays, 42, 5040)
    ck.section("scalars", scalars, 48, 5760)
    ck.section("large", large, 24, 2880)
    ck.section("mixed", mixed, 12, 2400)
