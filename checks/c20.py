"""Shuffling and drawing subsamples."""
import itertools
import math

import numpy as np

from vlib import build, gen, stat


def setup(ck):
    mp, root = build.load()
    r = mp.randoms
    ck.rule = "Repeated draws from small samples (all permutations and subsets counted) and single draws from large, duplicated, multi-column and string samples."
    ck.need("shuffles", 20000)
    ck.need("draws", 20000)
    ck.need("prob_draws", 10000)
    ck.need("sized_prob_draws", 10000)
    ck.need("structure_checks", 200)
    ck.need("large_samples", 5000)
    ck.assumptions = ["Distribution oracles allow false alarms with probability 1e-12 each.",
                      "For sized draws with unequal probabilities only exactness, absence of repeats and the ordering of inclusion frequencies are judged, as documented."]

    def structure(c):
        rng = c.rng
        n = int(rng.choice([2, 3, 10, 100, 1000]))
        k = rng.integers(0, 4)
        if k == 0:
            s = rng.permutation(n)
        elif k == 1:
            s = rng.normal(size=n)
        elif k == 2:
            s = np.array(["id%d" % i for i in range(n)])
        else:
            s = np.stack([np.arange(n), np.arange(n) * 10], 1)
        c.desc(sample=s if k != 2 else n, kind=int(k), seed=c.np_seed)
        key = (lambda v: v) if k != 3 else (lambda v: v[:, 0])
        idx = {x: i for i, x in enumerate(key(s).tolist())}

        def members(out, m, what):
            out = np.asarray(out)
            c.ok(len(out) == m if m is not None else True, what + ": number of elements", got=len(out), want=m)
            got = [idx.get(v) for v in key(out).tolist()] if len(out) else []
            c.ok(None not in got and len(set(got)) == len(got), what + ": elements of the sample without repeats", got=got[:20])
            if k == 3 and len(out):
                c.ok(np.array_equal(out[:, 1], out[:, 0] * 10), what + ": rows stay together")
            c.count("structure_checks")
            return got
        g = members(r.shuffle(s.copy()), n, "shuffle")
        if n >= 100:
            c.ok(g != list(range(n)), "a shuffle of a large sample changes the order")
        m = int(rng.integers(0, n))
        members(r.random_draw(s.copy(), m), m, "random draw")
        members(r.random_draw(s.copy(), n - 1), n - 1, "random draw of all but one")
        p = rng.random(n)
        z = rng.random(n)
        p[z < .2] = 0.
        p[z > .8] = 1.
        got = members(r.random_prob_draw(s.copy(), p.copy()), None, "draw by probability")
        c.ok(not any(p[i] == 0. for i in got), "probability 0 is never drawn")
        c.ok(set(np.flatnonzero(p == 1.)) <= set(got), "probability 1 is always drawn")
        p = np.clip(p, .01, 1.)
        members(r.random_prob_draw(s.copy(), p.copy(), size=m), m, "sized draw by probability")

    reps = 3000

    def shuffles(c):
        n = 2 + c.index % 4
        s = 10 * np.arange(1, n + 1)
        c.desc(n=n, reps=reps, seed=c.np_seed)
        cnt = {}
        for _ in range(reps):
            t = tuple(np.asarray(r.shuffle(s)).tolist())
            cnt[t] = cnt.get(t, 0) + 1
        perms = list(itertools.permutations(s.tolist()))
        c.ok(set(cnt) <= set(perms), "every result is a permutation")
        c.count("shuffles", reps)
        c.add("shuffle %d" % n, np.array([cnt.get(p, 0) for p in perms]))

    def draws(c):
        n, m = 6, 1 + c.index % 5
        c.desc(n=n, m=m, reps=reps, seed=c.np_seed)
        subs = list(itertools.combinations(range(n), m))
        pos = {v: i for i, v in enumerate(subs)}
        a, b = np.zeros(len(subs)), np.zeros(len(subs))
        first = np.zeros(n)
        p = np.full(n, float(c.rng.uniform(.05, 1.)))
        for _ in range(reps):
            o = np.asarray(r.random_draw(np.arange(n), m)).tolist()
            first[o[0]] += 1
            a[pos[tuple(sorted(o))]] += 1
            o = np.asarray(r.random_prob_draw(np.arange(n), p, size=m)).tolist()
            b[pos[tuple(sorted(o))]] += 1
        c.count("draws", reps)
        c.count("sized_prob_draws", reps)
        c.add("draw %d" % m, a)
        c.add("equal-probability draw %d" % m, b)

    def probability(c):
        rng = c.rng
        n = int(rng.integers(2, 6))
        p = rng.random(n)
        c.desc(p=p, reps=reps, seed=c.np_seed)
        cnt = np.zeros(2**n)
        orders = 0
        longer = 0
        for _ in range(reps):
            o = np.asarray(r.random_prob_draw(np.arange(n), p))
            cnt[int(np.sum(2**o)) if len(o) else 0] += 1
            if len(o) >= 2:
                longer += 1
                orders += o[0] < o[1]
        c.count("prob_draws", reps)
        bits = (np.arange(2**n)[:, None] >> np.arange(n)) & 1
        w = np.prod(np.where(bits, p, 1 - p), axis=1)
        for i in range(n):
            stat.binomial(c, int(cnt[bits[:, i] == 1].sum()), reps, float(p[i]), "element %d is drawn with its own probability" % i)
            for j in range(i):
                stat.binomial(c, int(cnt[(bits[:, i] & bits[:, j]) == 1].sum()), reps, float(p[i] * p[j]), "elements are drawn independently")
        big = w * reps >= 20
        if big.sum() > 1:
            obs = np.append(cnt[big], cnt[~big].sum())
            ex = np.append(w[big] * reps, w[~big].sum() * reps)
            stat.chi2_counts(c, obs[ex > 20], ex[ex > 20] * obs[ex > 20].sum() / ex[ex > 20].sum(), "subsets")
        if longer > 100:
            stat.binomial(c, orders, longer, .5, "the order of the drawn elements is random")

    def favour(c):
        rng = c.rng
        n = int(rng.integers(3, 8))
        m = int(rng.integers(1, n))
        p = np.geomspace(.05, 1., n)[rng.permutation(n)]
        c.desc(p=p, m=m, reps=reps, seed=c.np_seed)
        cnt = np.zeros(n)
        for _ in range(reps):
            cnt[np.asarray(r.random_prob_draw(np.arange(n), p, size=m))] += 1
        c.count("sized_prob_draws", reps)
        c.close(cnt.sum(), m * reps, 0, 0, "exactly the requested number each time")
        o = np.argsort(p)
        lim = stat.bernstein(reps, .5, 2.) * reps
        for i, j in zip(o[:-1], o[1:]):
            c.ok(cnt[j] >= cnt[i] - lim, "larger probability is not drawn less often", p=p, counts=cnt)
        c.ok(cnt[o[-1]] > cnt[o[0]] + .02 * reps, "the most probable element is drawn more often than the least probable", counts=cnt)

    def large(c):
        """Positions and values in shuffles and draws of large samples."""
        rng = c.rng
        n = [30, 120, 600, 3000][c.index % 4]
        reps = 150
        c.desc(n=n, reps=reps, seed=c.np_seed)
        m = int(rng.integers(n // 2, n))
        pu = np.full(n, float(rng.uniform(.2, 1.)))
        jobs = dict(shuffle=(lambda: r.shuffle(np.arange(n)), n), draw=(lambda: r.random_draw(np.arange(n), m), m),
                    sized=(lambda: r.random_prob_draw(np.arange(n), pu, size=m), m))
        for name, (f, k) in jobs.items():
            O = np.array([np.asarray(f()) for _ in range(reps)])
            c.ok(O.shape == (reps, k), "number of elements", got=O.shape, want=[reps, k])
            up = O[:, 0:k - 1:2] < O[:, 1:k:2]
            for j in range(up.shape[1]):
                stat.binomial(c, int(up[:, j].sum()), reps, .5, "%s: neighbours %d and %d come in either order" % (name, 2 * j, 2 * j + 1), delta=1e-15)
            stat.binomial(c, int(up.sum()), up.size, .5, name + ": neighbours come in either order")
            b = 10
            pos = np.repeat((np.arange(k) * b // k)[None, :], reps, 0)
            T = np.zeros((b, b))
            np.add.at(T, (pos, O * b // n), 1)
            npos, nval = np.bincount(np.arange(k) * b // k, minlength=b), np.bincount(np.arange(n) * b // n, minlength=b)
            stat.chi2_counts(c, T, reps * np.outer(npos, nval) / n, name + ": every part of the sample reaches every part of the result")
            if k < n:
                seen = np.zeros(n)
                np.add.at(seen, O, 1)
                for i in range(n):
                    stat.binomial(c, int(seen[i]), reps, k / n, "%s: element %d is drawn as often as any other" % (name, i), delta=1e-15)
        # draws by probability
        q = float(gen.loguniform(rng, 1e-3, 1.))
        p = np.full(n, q)
        seen = np.zeros(n)
        for _ in range(reps):
            o = np.asarray(r.random_prob_draw(np.arange(n), p))
            seen[o] += 1
        for i in range(n):
            stat.binomial(c, int(seen[i]), reps, q, "draw by probability: element %d" % i, delta=1e-15)
        for i in range(10):
            part = seen[i * n // 10:(i + 1) * n // 10]
            stat.binomial(c, int(part.sum()), reps * len(part), q, "draw by probability: part %d of the sample" % i)
        p = gen.loguniform(rng, 1e-4, 1., n)
        seen = np.zeros(n)
        for _ in range(reps):
            seen[np.asarray(r.random_prob_draw(np.arange(n), p))] += 1
        for sel in [p < .001, (p >= .001) & (p < .01), (p >= .01) & (p < .1), p >= .1]:
            if sel.any():
                k = int(sel.sum())
                dev = abs(seen[sel].sum() / (reps * k) - p[sel].mean())
                c.ok(dev <= stat.bernstein(reps * k, np.mean(p[sel] * (1 - p[sel])), 1.), "draw by probability: elements of similar probability", got=seen[sel].sum(), want=reps * p[sel].sum())
        c.count("large_samples", reps * 5)

    def pooled(ck_, c):
        for key, vals in ck_.acc.items():
            obs = np.sum(vals, axis=0)
            c.desc(**{key.replace(" ", "_"): obs})
            stat.chi2_counts(c, obs, np.full(len(obs), obs.sum() / len(obs)), key + ": every outcome equally likely")

    ck.section("structure", structure, 120, 16000)
    ck.section("shuffles", shuffles, 24, 1600)
    ck.section("draws", draws, 30, 2000)
    ck.section("probability", probability, 24, 1600)
    ck.section("favour", favour, 16, 1200)
    ck.section("large", large, 12, 960)
    ck.post("pooled", pooled)
