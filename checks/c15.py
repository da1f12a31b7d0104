"""Grid-to-grid remapping is exact, conserving and local."""
import numpy as np

from vlib import build, gen


def weights(n1, lo1, L1, n2, lo2, L2):
    """Share of every new cell (rows) that lies in every old cell (columns)."""
    e1 = lo1 + L1 * (np.arange(n1 + 1) / n1)
    e2 = lo2 + L2 * (np.arange(n2 + 1) / n2)
    o = np.minimum(e1[None, 1:], e2[1:, None]) - np.maximum(e1[None, :-1], e2[:-1, None])
    return np.maximum(o, 0.) / (L2 / n2), o / (L2 / n2), e1, e2


def axis(rng, big, dim, unit):
    n1, n2 = int(rng.integers(1, big + 1)), int(rng.integers(1, big + 1))
    if rng.random() < .03:
        n1, n2 = [int(rng.integers(1, {1: 700, 2: 60, 3: 16}[dim])) for _ in range(2)]
    L1 = unit * float(rng.choice([1., gen.loguniform(rng, 1e-2, 1e3)]))
    lo1 = float(rng.choice([0., rng.normal() * L1, -L1 / 2]))
    k = int(rng.integers(0, 10))
    if k == 0:
        lo2, L2, n2 = lo1, L1, n1
    elif k == 1:
        lo2, L2 = lo1, L1
    elif k == 2:
        # one or few new cells inside one old cell
        j = int(rng.integers(0, n1))
        d = L1 / n1
        a, b = np.sort(rng.uniform(.02, .98, 2))
        lo2, L2 = lo1 + d * (j + a), max(d * (b - a), d * .01)
    elif k == 3:
        lo2, L2 = lo1 - L1 * rng.uniform(.1, 2), L1 * rng.uniform(2, 6)
    elif k == 4:
        lo2, L2 = lo1 + L1 * rng.uniform(1., 2.), L1
    elif k == 5:
        lo2, L2 = lo1 - L1 * rng.uniform(1., 3.), L1 * rng.uniform(.5, 1.)
    elif k == 6:
        # aligned with old cells, whole cell multiples
        d = L1 / n1
        r = int(rng.integers(1, 4))
        lo2, L2 = lo1 + d * int(rng.integers(-3, n1 + 1)), d * r * n2
    elif k == 7:
        # a very coarse new grid
        n2 = int(rng.integers(1, 3))
        lo2, L2 = lo1 - L1 * rng.uniform(0, .5), L1 * rng.uniform(.7, 3.)
    else:
        lo2, L2 = lo1 + L1 * rng.uniform(-.7, .7), L1 * rng.uniform(.2, 1.5)
    return dict(n1=n1, lo1=lo1, L1=L1, n2=n2, lo2=float(lo2), L2=float(L2))


def setup(ck):
    mp, root = build.load(need_fortran=True)
    fns = {1: mp.remap.grid2grid1D, 2: mp.remap.grid2grid2D, 3: mp.remap.grid2grid3D}
    ck.rule = "Random old and new boxes per axis (identical, nested, aligned, disjoint, coarser, finer, a single new cell inside an old one), scalars or one value per axis, several array layouts."
    for d in (1, 2, 3):
        ck.need("remaps_%dd" % d, 200)
    ck.need("identical", 10)
    ck.need("poisoned_cells", 400)
    ck.need("outside_cells", 500)
    ck.need("scalar_arguments", 200)
    ck.need("conserved", 300)
    ck.need("vast_cells", 100)
    ck.need("aligned_axes", 100)

    def layout(rng, f):
        k = rng.integers(0, 6)
        if k == 0:
            return np.asfortranarray(f)
        if k == 1:
            big = np.zeros(tuple(2 * s for s in f.shape))
            v = big[tuple(slice(None, None, 2) for _ in f.shape)]
            v[...] = f
            return v
        if k == 2:
            return f[::-1].copy()[::-1]
        return f.copy()

    def request(c, dim):
        rng = c.rng
        big = {1: 30, 2: 9, 3: 5}[dim]
        unit = 1. if rng.random() < .8 else float(gen.loguniform(rng, 1e-12, 1e12))
        ax = [axis(rng, big, dim, unit) for _ in range(dim)]
        kw, args = {}, {}

        def give(key, name, default=None):
            vals = [a[key] for a in ax]
            if dim == 1:
                return vals[0]
            if rng.random() < .35:
                v = vals[0]
                for a in ax:
                    a[key] = v
                c.count("scalar_arguments")
                return v
            if rng.random() < .25:          # two axes alike, a third may differ
                i, j = rng.permutation(dim)[:2]
                ax[i][key] = vals[i] = vals[j]
            k = rng.integers(0, 3)
            return [list, tuple, np.array][k](vals)
        if rng.random() < .25:
            # same box on some axes, refined or coarsened there by a whole factor
            finer = rng.random() < .5
            odd, how = int(rng.integers(-1, dim)), int(rng.integers(0, 4))
            for i, a in enumerate(ax):
                m, r = a["n1"], int(rng.integers(1 + (rng.random() < .8), 5))
                if i != odd or how != 0:
                    a["lo2"] = a["lo1"]
                if i != odd or how > 1:
                    a["L2"] = a["L1"]
                elif a["L2"] == a["L1"] and how == 1:
                    a["L2"] *= float(rng.choice([.5, 2., 3., 1.7]))
                if i != odd or how != 2:
                    a.update(n1=m, n2=m * r) if finer or rng.random() < .1 else a.update(n1=m * r, n2=m)
            if rng.random() < .5:
                for a in ax:
                    a["lo2"] += -a["lo1"]
                    a["lo1"] = 0.
            c.count("aligned_axes")
            pick = (lambda k: ax[0][k]) if dim == 1 else (lambda k: [a[k] for a in ax])
            return ax, pick("L1"), pick("n2"), dict(origin=pick("lo1"), originout=pick("lo2"), boxsizeout=pick("L2"))
        # consistent geometry first, then possibly the same value on every axis
        boxsize = give("L1", "boxsize")
        ngridout = give("n2", "ngridout")
        if rng.random() < .25:
            for a in ax:
                a["lo1"] = 0.
        else:
            kw["origin"] = give("lo1", "origin")
        if rng.random() < .25:
            for a in ax:
                a["lo2"] = 0.
        else:
            kw["originout"] = give("lo2", "originout")
        if rng.random() < .25:
            for a in ax:
                a["L2"] = a["L1"]
        else:
            kw["boxsizeout"] = give("L2", "boxsizeout")
        return ax, boxsize, ngridout, kw

    def case(dim):
        fn = fns[dim]

        def f(c):
            rng = c.rng
            ax, boxsize, ngridout, kw = request(c, dim)
            W = [weights(a["n1"], a["lo1"], a["L1"], a["n2"], a["lo2"], a["L2"]) for a in ax]
            shape1, shape2 = tuple(a["n1"] for a in ax), tuple(a["n2"] for a in ax)
            v = rng.normal(size=shape1) * gen.magnitude(rng)
            if rng.random() < .1:
                v = np.round(rng.normal(size=shape1) * 100).astype(int)
            c.desc(f=v, boxsize=boxsize, ngridout=ngridout, shape=shape1, **kw)

            def call(g):
                out = np.asarray(fn(layout(rng, g), boxsize, ngridout, **kw), float)
                c.ok(out.shape == shape2, "shape of the new grid", got=out.shape, want=shape2)
                return out

            def ref(g):
                for i, w in enumerate(W):
                    g = np.moveaxis(np.tensordot(w[0], g, axes=([1], [i])), 0, i)
                return g
            # rounding of the edges, in units of the new and old cells
            fuzz = sum((np.abs(w[2]).max() + np.abs(w[3]).max()) / (a["L2"] / a["n2"]) for w, a in zip(W, ax)) * 1e-15
            scale = np.abs(v).max() + 1e-300
            got = call(v)
            c.close(got, ref(v.astype(float)), 0, (1e-12 + 20 * fuzz) * scale, "overlap average")
            c.count("remaps_%dd" % dim)
            c.count("outside_cells", int(np.sum(ref(np.ones(shape1)) == 0)))
            # conservation inside the overlap of the boxes
            vol1 = np.prod([a["L1"] / a["n1"] for a in ax])
            vol2 = np.prod([a["L2"] / a["n2"] for a in ax])
            frac = v.astype(float)
            for i, (w, a) in enumerate(zip(W, ax)):
                lo, hi = max(w[2][0], w[3][0]), min(w[2][-1], w[3][-1])
                s = np.maximum(0, np.minimum(w[2][1:], hi) - np.maximum(w[2][:-1], lo)) / (a["L1"] / a["n1"])
                frac = frac * s.reshape([-1 if k == i else 1 for k in range(dim)])
            tot = np.sum(np.abs(frac)) * vol1 + 1e-300
            c.close(np.sum(got) * vol2, np.sum(frac) * vol1, 0, 1e-10 * tot + (1e-12 + 20 * fuzz) * scale * vol2 * got.size, "total in the overlap of the boxes")
            c.count("conserved")
            # poison
            p = tuple(int(rng.integers(0, n)) for n in shape1)
            bad = v.astype(float)
            bad[p] = rng.choice([np.nan, np.inf, -np.inf])
            out = call(bad)
            hit, near = np.ones(shape2, bool), np.ones(shape2, bool)
            for i, w in enumerate(W):
                view = [1] * dim
                view[i] = shape2[i]
                hit &= (w[1][:, p[i]] > 1e-6).reshape(view)
                near &= (w[1][:, p[i]] > -1e-9 - 20 * fuzz).reshape(view)
            c.ok(not np.any(np.isfinite(out[hit])), "an undefined old cell reaches the new cells that overlap it", cell=p)
            c.ok(np.all(np.isfinite(out[~near])), "an undefined old cell reaches no other new cell", cell=p)
            c.same(out[~near], got[~near], "other new cells keep their value", cell=p)
            c.count("poisoned_cells")

        return f

    def identity(c):
        rng = c.rng
        dim = 1 + c.index % 3
        n = [int(rng.integers(1, {1: 60, 2: 20, 3: 8}[dim])) for _ in range(dim)]
        unit = 1. if rng.random() < .7 else gen.loguniform(rng, 1e-12, 1e12)
        L = [float(unit * gen.loguniform(rng, 1e-3, 1e3)) for _ in range(dim)]
        lo = [float(rng.normal() * x) for x in L]
        v = rng.normal(size=n)
        c.desc(n=n, L=L, lo=lo, f=v)
        one = dim == 1
        out = fns[dim](v.copy(), L[0] if one else L, n[0] if one else n, origin=lo[0] if one else lo, originout=lo[0] if one else lo)
        c.close(out, v, 0, 1e-11 * np.abs(v).max(), "an identical grid returns the input")
        c.count("identical")
        # defaults: same box, origin zero
        s = L[0]
        out = fns[dim](v.copy(), s, n[0] if one else n)
        c.close(out, v, 0, 1e-11 * np.abs(v).max(), "default boxes are equal")
        # refining by whole factors repeats the cells
        k = int(rng.integers(2, 4))
        out = fns[dim](v.copy(), s, n[0] * k if one else [x * k for x in n])
        rep = v
        for i in range(dim):
            rep = np.repeat(rep, k, axis=i)
        c.close(out, rep, 0, 1e-11 * np.abs(v).max(), "whole-factor refinement repeats the cells")
        back = fns[dim](np.asarray(out), s, n[0] if one else n)
        c.close(back, v, 0, 1e-11 * np.abs(v).max(), "coarsening it again returns the input")

    def vast(c):
        """One new cell around the whole old box, of any size."""
        rng = c.rng
        dim = 1 + c.index % 3
        n = [int(rng.integers(1, {1: 60, 2: 20, 3: 8}[dim])) for _ in range(dim)]
        m = [int(rng.integers(1, 4)) for _ in range(dim)]
        L = [float(gen.loguniform(rng, 1e-3, 1e3)) for _ in range(dim)]
        lo = [float(rng.normal() * x) for x in L]
        d = [float(x * gen.loguniform(rng, 1.2, 1e11 if rng.random() < .5 else 1e4)) for x in L]
        j = [int(rng.integers(0, x)) for x in m]
        # cell j of the new box starts a share of the spare room before the old box
        lo2 = [a - (y - x) * float(rng.uniform(.05, .95)) - k * y for a, x, y, k in zip(lo, L, d, j)]
        L2 = [y * k for y, k in zip(d, m)]
        v = rng.uniform(.5, 2., n)
        c.desc(n=n, L=L, lo=lo, m=m, lo2=lo2, L2=L2, f=v)
        if dim == 1:
            out = fns[1](v.copy(), L[0], m[0], origin=lo[0], originout=lo2[0], boxsizeout=L2[0])
        else:
            out = fns[dim](v.copy(), L, m, origin=lo, originout=lo2, boxsizeout=L2)
        want = np.zeros(m)
        want[tuple(j)] = np.mean(v) * np.prod([x / y for x, y in zip(L, d)])
        c.close(np.asarray(out), want, 1e-9, 0, "a new cell around the whole old box holds its total, the others nothing")
        c.count("vast_cells")

    for d, q, t in ((1, 500, 150000), (2, 400, 100000), (3, 300, 60000)):
        ck.section("remap%d" % d, case(d), q, t)
    ck.section("vast", vast, 150, 45000)
    ck.section("identity", identity, 90, 22500)
