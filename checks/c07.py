"""Uniform Cartesian grids."""
import numpy as np

from vlib import build, gen, ref


def setup(ck):
    mp, root = build.load()
    g = mp.grids
    ck.rule = "Random lengths, counts (1 to 40 per axis), origins (none, scalar, mixed) given as one number or one per axis."
    ck.need("axes", 1500)
    ck.need("grids_2d", 250)
    ck.need("grids_3d", 250)
    ck.need("scalar_requests", 150)
    ck.need("edges_from_midpoints", 200)

    def axis(rng, big=40):
        n = int(rng.choice([1, 2, 3, int(rng.integers(1, big))]))
        if big == 40 and rng.random() < .04:
            n = int(rng.integers(500, 6000))
        L = float(rng.choice([1., gen.loguniform(rng, 1e-3, 1e4), rng.uniform(.1, 10)]))
        lo = [None, 0., float(rng.normal() * 10), -L / 2][rng.integers(0, 4)]
        return L, n, lo

    def want(L, n, lo):
        lo = 0. if lo is None else lo
        k = np.arange(n + 1)
        e = lo + L * (k / n)
        m = lo + L * ((2 * np.arange(n) + 1) / (2. * n))
        tol = 4e-15 * (abs(lo) + L)
        return e, m, tol

    def one(c):
        L, n, lo = axis(c.rng)
        c.desc(length=L, ngrid=n, xmin=lo)
        kw = {} if lo is None and c.rng.random() < .5 else dict(xmin=lo)
        e, m, tol = want(L, n, lo)
        got = g.get_xedges(L, n, **kw)
        c.close(got, e, 0, tol, "edges")
        c.close(g.xedges2mid(got), m, 0, tol, "midpoints of the edges")
        c.close(g.grid1d(L, n, **kw), m, 0, tol, "midpoints")
        mm, ee = g.grid1d(L, n, return_edges=True, **kw)
        c.close(mm, m, 0, tol, "midpoints returned with edges")
        c.close(ee, e, 0, tol, "edges returned with midpoints")
        ne = gen.edges(c.rng, int(c.rng.integers(1, 9)))
        c.close(g.xedges2mid(ne), ne[:-1] + .5 * (ne[1:] - ne[:-1]), 1e-14, 1e-15, "midpoints of uneven edges")
        c.count("axes", 1)

    def recover(c):
        L, n, lo = axis(c.rng)
        n = max(n, 2)
        c.desc(length=L, ngrid=n, xmin=lo)
        e, m, tol = want(L, n, lo)
        got = np.asarray(g.xmid2edges(m.copy()), float)
        tol = 8e-15 * (abs(e[0]) + L) * n
        c.ok(got.shape == e.shape, "one more edge than midpoints")
        c.count("edges_from_midpoints")
        if np.all(np.abs(got - e) <= tol):
            c.ok(True, "edges recovered")
            return
        dx = m[1] - m[0]
        known = np.append(m - dx, m[-1] + dx)
        if np.all(np.abs(got - known) <= tol):
            c.finding("xmid2edges-half-bin", "xmid2edges returns midpoint minus a whole bin (last: plus a whole bin)", got=got, want=e)
        else:
            c.close(got, e, 0, tol, "edges recovered from midpoints")

    def several(dim):
        def f(c):
            rng = c.rng
            ax = [axis(rng, 12) for _ in range(dim)]
            sl, sn = rng.random() < .4, rng.random() < .4
            if sl:
                ax = [(ax[0][0], n, lo) for _, n, lo in ax]
            if sn:
                ax = [(L, ax[0][1], lo) for L, _, lo in ax]
            lengths = ax[0][0] if sl else [a[0] for a in ax]
            ngrids = ax[0][1] if sn else [a[1] for a in ax]
            if not sn and rng.random() < .3:
                ngrids = np.array(ngrids)
            mins = [a[2] for a in ax]
            kw = dict(mins=mins)
            if all(v is None for v in mins) or rng.random() < .2:
                kw, ax = {}, [(L, n, None) for L, n, _ in ax]
            c.desc(lengths=lengths, ngrids=ngrids, **kw)
            c.count("scalar_requests", sl + sn)
            fn = g.grid2d if dim == 2 else g.grid3d
            plain = fn(lengths, ngrids, **kw)
            with1d = fn(lengths, ngrids, return1d=True, **kw)
            c.ok(len(plain) == dim and len(with1d) == 2 * dim, "number of returned arrays")
            shp = tuple(a[1] for a in ax)
            for i, (L, n, lo) in enumerate(ax):
                e, m, tol = want(L, n, lo)
                view = [1] * dim
                view[i] = n
                full = np.broadcast_to(m.reshape(view), shp)
                c.close(plain[i], full, 0, tol, "coordinate %d of the grid" % i)
                c.close(with1d[i], full, 0, tol, "coordinate %d of the grid" % i)
                c.close(with1d[dim + i], m, 0, tol, "1D midpoints of axis %d" % i)
                c.count("axes")
            c.count("grids_%dd" % dim)
        return f

    ck.section("one", one, 500, 240000)
    ck.section("recover", recover, 250, 120000)
    ck.section("two", several(2), 300, 150000)
    ck.section("three", several(3), 300, 90000)
