"""Remaps are linear, bounded and local."""
import healpy as hp
import numpy as np

from vlib import build, gen, kinds


def setup(ck):
    mp, root = build.load()
    K = kinds.all_kinds(mp)
    ck.rule = ("Random maps and grids of the nine remapping classes. The share of every map cell in every target pixel is observed by remapping unit maps; "
               "the remaps of other maps, weighted and unweighted, are judged against it. Maps with one infinite or undefined cell, and weight maps with cells of zero weight, follow.")
    for k in K:
        ck.need("remaps_" + k.name, 60)
    ck.need("shares", 20000)
    ck.need("poisoned_cells", 500)
    ck.need("pixels_unaffected", 5000)
    ck.need("weighted", 300)
    ck.need("limb_pixels_unaffected", 200)
    ck.need("zero_weight_cells", 1000)
    ck.need("outside_pixels", 300)
    ck.assumptions = ["Cells of zero weight hold finite values.", "A pixel all of whose weight is zero has no defined value.",
                      "HEALPix re-gridding inside the dense cube remap treats the value hp.UNSEEN as missing."]

    def run(c):
        rng = c.rng
        k = K[c.index % len(K)]
        q = k.request(rng, small=True, inside=bool(rng.random() < .3))
        o = k.prepare(q, int(rng.choice([2, 5, 40])) if k.mc else 0, seed=c.np_seed % 2**31)
        shape = k.map_shape(q)
        n = int(np.prod(shape))
        c.desc(kind=k.name, request=q)
        call = lambda f, *a, **kw: np.asarray(o.remap(f, *a, verbose=False, **kw), float)
        out = k.out_shape(q)

        limb = np.zeros(k.out_shape(q), bool)
        if k.target == "ortho":
            R = q["target"].get("radius", 1.)
            x, y = np.abs(np.asarray(o.x2d)) + o.dx / 2, np.abs(np.asarray(o.y2d)) + o.dy / 2
            limb = np.hypot(x, y) > R * (1 - 1e-9)

        # ---- shares of the cells, read off unit maps
        one = call(np.ones(shape))
        c.ok(one.shape == out, "shape of the remapped map", got=one.shape, want=out)
        void = ~np.isfinite(one) | (one == hp.UNSEEN)               # outside the map: no value
        c.count("outside_pixels", int(void.sum() + (~void & (one < 1 - 1e-9)).sum()))
        cells = np.arange(n) if n <= 60 else np.sort(rng.permutation(n)[:60])
        W = np.zeros((len(cells),) + out)
        for i, j in enumerate(cells):
            f = np.zeros(n)
            f[j] = 1.
            W[i] = call(f.reshape(shape))
        empty = lambda g: ~np.isfinite(g) | (g == hp.UNSEEN)
        c.ok(all(np.array_equal(empty(w), void) for w in W), "pixels without a value are the same for every map")
        v = W[:, ~void]
        c.ok(np.all(v >= -1e-12) and np.all(v <= 1 + 1e-12), "shares lie between zero and one")
        tot = v.sum(axis=0)
        c.ok(np.all(one[~void] <= 1 + 1e-12) and np.all(one[~void] >= -1e-12), "a uniform map keeps its value or loses what lies outside")
        if k.mc or k.target in ("cap", "angbox", "ortho"):
            bare = limb & (one == 0)                                # every sub-pixel centre lies beyond the limb
            c.close(one[~void & ~bare], np.ones(int(np.sum(~void & ~bare))), 0, 1e-11, "shares add up to one inside the map")
        c.ok(np.all(tot <= one[~void] + 1e-11), "shares add up to at most the covered part")
        if len(cells) == n:
            c.close(tot, one[~void], 0, 1e-11, "shares add up to the covered part")
        c.count("shares", W.size)

        # ---- linear and bounded
        S = gen.magnitude(rng, 1e-3, 1e6)
        f, g = rng.normal(size=shape) * S, rng.uniform(-1, 3, shape) * S
        a, b = rng.normal(size=2) * 3
        F, G, L = call(f), call(g), call(a * f + b * g)
        for m in (F, G, L):
            c.ok(np.array_equal(empty(m), void), "pixels without a value are the same for every map")
        tol = 1e-11 * S * (1 + abs(a) + abs(b))
        c.close(L[~void], (a * F + b * G)[~void], 0, 4 * tol, "remapping is linear in the map")
        if len(cells) == n:
            c.close(F[~void], np.tensordot(f.ravel(), v, 1), 0, tol, "the remapped value is the weighted sum of the cells")
        for m, h in ((F, f), (G, g)):
            lo, hi = np.full(v.shape[1], h.min()), np.full(v.shape[1], h.max())
            if len(cells) == n:
                used = v > 0
                lo = np.where(used, h.ravel()[:, None], np.inf).min(axis=0)
                hi = np.where(used, h.ravel()[:, None], -np.inf).max(axis=0)
            part = one[~void] < 1 - 1e-12
            lo, hi = np.where(part, np.minimum(lo, 0), lo), np.where(part, np.maximum(hi, 0), hi)
            c.ok(np.all(m[~void] >= lo - tol) and np.all(m[~void] <= hi + tol), "remapped values lie between the values they draw on")
        c.count("remaps_" + k.name, 3 + len(cells))

        # ---- local: one bad cell
        pick = rng.permutation(len(cells))[:4]
        if k.weighted:
            wl = k.weights(rng, q)
            Fl = call(f, w=wl)
        for i in pick:
            for bad in (np.nan, float(rng.choice([np.inf, -np.inf]))):
                h = f.copy().ravel()
                h[cells[i]] = bad
                H = call(h.reshape(shape))
                free = ~void & ~(np.abs(W[i]) > 0)
                c.close(H[free], F[free], 1e-12, 1e-12 * S, "a bad cell leaves pixels it does not overlap alone")
                hit = ~void & (W[i] > 1e-9)
                c.count("limb_pixels_unaffected", int(np.sum(free & limb)))
                if k.name != "dense.Cube2Shell":
                    c.ok(not np.any(np.isfinite(H[hit])), "a bad cell shows in the pixels that draw on it")
                if k.weighted:
                    Hw = call(h.reshape(shape), w=wl)
                    c.close(Hw[free], Fl[free], 1e-12, 1e-12 * S, "a bad cell leaves pixels it does not overlap alone, weighted")
                    c.ok(not np.any(np.isfinite(Hw[hit])), "a bad cell shows in the weighted pixels that draw on it")
                c.count("poisoned_cells")
                c.count("pixels_unaffected", int(free.sum()))

        # ---- weights
        if not k.weighted:
            return
        w = k.weights(rng, q)
        Fw = call(f, w=w)
        far = 1e-11 * S
        if len(cells) == n:
            den = np.tensordot(w.ravel(), v, 1)
            num = np.tensordot((f * w).ravel(), v, 1)
            ok = den > 1e-12
            c.close(Fw[~void][ok], num[ok] / den[ok], 0, 30 * far, "the weighted remap is the weighted mean of the cells")
        cover = ~void & (one > 1e-9)
        c.ok(np.all(Fw[cover] >= f.min() - far) and np.all(Fw[cover] <= f.max() + far), "weighted values lie between the values they draw on")
        s = float(gen.loguniform(rng, 1e-3, 1e3))
        c.close(call(f, w=w * s)[cover], Fw[cover], 0, 10 * far, "scaling all weights changes nothing")
        c.close((call(f, w=np.full(shape, s)) * one)[cover], F[cover], 0, 10 * far, "uniform weights equal no weights inside the map")
        Gw = call(g, w=w)
        c.close(call(a * f + b * g, w=w)[cover], (a * Fw + b * Gw)[cover], 0, 40 * tol, "the weighted remap is linear in the map")
        zero = rng.random(shape) < .3
        z = np.where(zero, 0., w)
        h = np.where(zero, rng.normal(size=shape) * S * 1e6, f)
        Z0, Z1 = call(f, w=z), call(h, w=z)
        D = call(z)
        some = cover & (D > 1e-9)
        c.close(Z1[some], Z0[some], 0, 10 * far, "cells of zero weight have no influence")
        c.count("zero_weight_cells", int(zero.sum()))
        c.count("weighted")

    ck.section("remap", run, 6000, 250000)
