"""Monte Carlo cube-to-shell remapping."""
import healpy as hp
import numpy as np

from checks.c22 import scatter, bound, same
from vlib import build, gen, maps, stat

QUASI_ERR = 1.8e-2


def request(rng, nmax=6, **kw):
    b = maps.cube(rng, nmax)
    d = maps.shells(rng, b, **kw)
    kind = "lin" if rng.random() < .6 else "log"
    addzero = None
    if kind == "log":
        addzero = [None, True, False][rng.integers(0, 3)]
        if d["rmin"] == 0. or rng.random() < .3:
            d["rmin"] = d["rmax"] * float(gen.loguniform(rng, 1e-4, .5))
        d["numr"] = max(2, d["numr"])
    return b, d, kind, addzero


def setup_polar(o, d, kind="lin", addzero=None):
    kw = {k: d[k] for k in ("center",) if k in d}
    if kind == "log" and addzero is not None:
        kw["addzero"] = addzero
    (o.setup_polar_lin if kind == "lin" else o.setup_polar_log)(d["rmin"], d["rmax"], d["numr"], d["nside"], **kw)


def setup(ck):
    mp, root = build.load()
    cls = mp.montecarlo.Cube2Shell
    ck.rule = "Random cubes (unequal sides and cells, offsets), linear and logarithmic shells, nside 1-4, centres inside, off-centre and outside, maps and weight maps."
    ck.need("cells_judged", 1500)
    ck.need("cells_outside", 300)
    ck.need("cells_partly_outside", 500)
    ck.need("poison_remaps", 200)
    ck.need("log", 30)
    ck.need("weighted_cells", 1000)
    ck.assumptions = ["Per-cell deviations are judged with Bernstein bounds at 1e-12 plus %g of the value range for the quasi-random reference overlaps." % QUASI_ERR]

    def run(c, n, nmax, nside=None):
        rng = c.rng
        b, d, kind, addzero = request(rng, nmax, nside=nside)
        nside = d["nside"]
        npix = 12 * nside**2
        edges = maps.cube_edges(b)
        re = maps.redges_of(d, kind, addzero is not False)
        shape = (b["numy"], b["numx"], b["numz"])
        f = rng.normal(size=shape) * gen.scale(rng)
        X = np.meshgrid(*[(e[1:] + e[:-1]) / 2 for e in edges])
        k = rng.integers(0, 4)
        if k == 0:
            f = sum(x * rng.normal() for x in X)
        elif k == 1:
            f = np.sqrt(sum((x - m)**2 for x, m in zip(X, d["center"])))
        w = rng.uniform(.2, 3., shape)
        if rng.random() < .3:
            w *= rng.random(shape) < .7
        if rng.random() < .4:
            w = w * gen.scale(rng)
        c.desc(cube=b, shells=d, kind=kind, addzero=addzero, mc_size=n, f=f, w=w, seed=c.np_seed)
        o = cls()
        maps.setup_cube(o, b)
        setup_polar(o, d, kind, addzero)
        c.ok(np.shape(o.x3d) == shape, "published layout of the cube", got=np.shape(o.x3d))
        o.get_weights(mc_size=n, verbose=False)
        oshape = (d["numr"], npix)

        def remap(g, v=None):
            out = np.asarray(o.remap(g, v, verbose=False) if v is not None else o.remap(g, verbose=False), float)
            c.ok(out.shape == oshape, "one value per shell and HEALPix pixel", got=out.shape, want=oshape)
            return out
        got, gw = remap(f), remap(f, w)
        empty = got == hp.UNSEEN
        scale = np.abs(f).max() + 1e-300
        c.ok(np.array_equal(gw == hp.UNSEEN, empty) or np.any(w == 0), "the same cells are empty under weights")
        v = float(rng.normal() * 10)
        one = remap(np.full(shape, v))
        c.ok(np.array_equal(one == hp.UNSEEN, empty), "the same cells are empty for every map")
        c.close(one[~empty], np.full((~empty).sum(), v), 1e-12, 0, "a uniform map is reproduced")
        one = remap(np.full(shape, v), np.where(w > 0, w, .3))
        c.close(one[~empty], np.full((~empty).sum(), v), 1e-12, 0, "a uniform map is reproduced under weights")
        c.count("log", kind == "log")
        pick = [(i, j) for i in range(oshape[0]) for j in range(npix)]
        if len(pick) > 24:
            # the first and last pixels and those at the cap borders are always among them
            ends = [0, 1, 3, npix - 1, npix - 4, 2 * nside * (nside - 1), npix - 1 - 2 * nside * (nside - 1)]
            pick = [pick[q] for q in rng.choice(len(pick), 20, replace=False)] + [(int(rng.integers(0, oshape[0])), e) for e in ends]
        chosen = [pick[q] for q in rng.choice(len(pick), 3)]
        for i, j in pick:
            W = maps.shell_overlap(edges, nside, j, re[i], re[i + 1], d["center"])
            apart = maps.shell_apart(edges, nside, j, re[i], re[i + 1], d["center"])
            c.ok(not np.any(W[apart] > 0), "reference models agree")
            if apart.all():
                c.ok(empty[i, j] and gw[i, j] == hp.UNSEEN, "cells wholly outside the cube carry the missing-value mark", cell=[i, j], got=got[i, j])
                c.count("cells_outside")
                continue
            share = W.sum()
            c.count("cells_partly_outside", .03 < share < .97)
            if (share - QUASI_ERR) * n > 60:
                c.ok(not empty[i, j], "cells that overlap the cube have a value", cell=[i, j])
            for res, vv, ev in ((got, None, "cells_judged"), (gw, w, "weighted_cells")):
                R, tol = flat(W, f, n, ~apart, vv)
                if np.isfinite(tol):
                    c.ok(abs(res[i, j] - R) <= tol + 1e-9 * scale, "%s: got %.6g, overlap model %.6g, believable deviation %.2g" % (ev, res[i, j], R, tol), cell=[i, j], share=share)
                    c.count(ev)
            if not empty[i, j]:
                lo, hi = f[~apart].min(), f[~apart].max()
                c.ok(lo - 1e-12 * scale <= got[i, j] <= hi + 1e-12 * scale, "values lie between the extremes of the cells that may overlap", cell=[i, j])
            if (i, j) in chosen and apart.any():
                out = remap(np.where(apart, 1e20 * (1 + np.abs(f)), f))
                c.close(out[i, j], got[i, j], 1e-9, 1e-9 * scale, "untouched cells do not contribute", cell=[i, j])
                c.count("poison_remaps")

    def flat(W, f, n, can, w):
        R, t = bound(W.reshape(1, -1), f.reshape(1, -1), n, can.reshape(1, -1), None if w is None else w.reshape(1, -1), QUASI_ERR)
        return float(R), float(t)

    def pieces(c, n):
        """Cubes that mark the cells with little (or much) of a shell cell, for few samples."""
        rng = c.rng
        b = maps.cube(rng, 5, 2)
        d = maps.shells(rng, b, 2, nside=int(rng.choice([1, 2, 4])), inside=rng.random() < .8)
        key = ""
        if n is None:
            key = "same number, "
            b["num" + "xyz"[rng.integers(0, 3)]] = int(rng.integers(10, 40))
            n = same(rng, [max(b["numx"], b["numy"], b["numz"]), b["numx"], b["numy"], b["numz"], 12 * d["nside"]**2])
        c.desc(cube=b, shells=d, mc_size=n, seed=c.np_seed)
        o = cls()
        maps.setup_cube(o, b)
        setup_polar(o, d)
        o.get_weights(mc_size=n, verbose=False)
        edges = maps.cube_edges(b)
        re = maps.redges_of(d, "lin")
        npix = 12 * d["nside"]**2
        for j in sorted(rng.choice(npix, min(6, npix), replace=False)):
            i = int(rng.integers(0, d["numr"]))
            W = maps.shell_overlap(edges, d["nside"], int(j), re[i], re[i + 1], d["center"])
            share = W.sum()
            if share < .1:
                continue
            V = W / share
            u = V[V > 0]
            f = (rng.random(V.shape) < .5).astype(float) if rng.random() < .3 else np.where(V <= np.quantile(u, rng.choice([.3, .5, .7])), 1., 0.)
            p = min(1., float(np.sum(V * f)))
            r = o.remap(f, verbose=False)[i, j]
            if share > 1 - 1e-9:
                c.add(key + "inside, mc_size %s" % ("< 10" if n < 10 else "< 100" if n < 100 else "large"), (float(r - p), n, p * (1 - p)))
            m = share * n
            if m > 150:
                # the number of samples in the cube is itself random: at least half of the expected one
                lim = stat.bernstein(m / 2, p * (1 - p), 1.) + 2 * QUASI_ERR
                c.ok(abs(r - p) <= lim, "share of marked cells: got %.5g, overlap model %.5g, believable deviation %.2g" % (r, p, lim), cell=[i, j])
                c.count("marked_judged")

    def planes(c):
        """Maps that mark one plane of cells, over many cells and samples."""
        rng = c.rng
        b = maps.cube(rng, 3)
        for a in "xyz":
            b["num" + a] = int(rng.integers(6, 30))
        d = maps.shells(rng, b, 2, nside=1)
        n = 20000
        c.desc(cube=b, shells=d, mc_size=n, seed=c.np_seed)
        o = cls()
        maps.setup_cube(o, b)
        setup_polar(o, d)
        o.get_weights(mc_size=n, verbose=False)
        edges = maps.cube_edges(b)
        re = maps.redges_of(d, "lin")
        F = []
        for ax in range(3):
            m = b["num" + "yxz"[ax]]
            for k in (0, m - 1, int(rng.integers(0, m))):
                f = np.zeros((b["numy"], b["numx"], b["numz"]))
                f[(slice(None),) * ax + (k,)] = 1.
                F.append((f, np.asarray(o.remap(f, verbose=False))))
        for j in rng.choice(12, 3, replace=False):
            i = int(rng.integers(0, d["numr"]))
            W = maps.shell_overlap(edges, 1, int(j), re[i], re[i + 1], d["center"])
            if W.sum() < .1:
                continue
            for f, r in F:
                p = min(1., float(np.sum(W * f)) / W.sum())
                lim = stat.bernstein(n * W.sum() / 2, p * (1 - p), 1.) + 2 * QUASI_ERR
                c.ok(abs(r[i, j] - p) <= lim, "share of one plane of cells: got %.5g, overlap model %.5g, believable deviation %.2g" % (r[i, j], p, lim), cell=[i, int(j)])
                c.count("planes_judged")

    def pooled(ck_, c):
        for k, rows in sorted(ck_.acc.items()):
            c.desc(**{k: len(rows)})
            stat.pooled(c, rows, 5e-3, "share of marked cells, " + k)

    def sliver(c):
        """Cells that only just reach into the cube still have a value."""
        rng = c.rng
        b = maps.cube(rng, 3)
        L = [b[a + "max"] - b[a + "min"] for a in "xyz"]
        rmax = min(L) * float(rng.uniform(.1, .45))
        e = float(gen.loguniform(rng, 3e-2, .3))
        cen = [(b[a + "min"] + b[a + "max"]) / 2 for a in "xyz"]
        k = int(rng.integers(0, 2))
        # the cube reaches over the part of a polar cap that is nearest to it
        cen[2] = b["zmin"] - rmax * (1 - e) if k else b["zmax"] + rmax * (1 - e)
        d = dict(rmin=0., rmax=rmax, numr=1, nside=1, center=[float(x) for x in cen])
        # all four pixels round the pole share the reached segment of the ball
        share = (e * e * (3 - e) / 4) * 12 / 4 * .9
        n = int(min(60000, max(1000, 200 / share)))
        v = float(rng.normal() * gen.scale(rng))
        c.desc(cube=b, shells=d, mc_size=n, share=share, value=v, seed=c.np_seed)
        if share * n < 60 or np.arccos(1 - e) > np.arccos(2. / 3.):
            return
        o = cls()
        maps.setup_cube(o, b)
        setup_polar(o, d)
        o.get_weights(mc_size=n, verbose=False)
        f = np.full((b["numy"], b["numx"], b["numz"]), v)
        pix = slice(0, 4) if k else slice(8, 12)
        for w in (None, np.full(f.shape, gen.scale(rng))):
            r = o.remap(f, verbose=False) if w is None else o.remap(f, w, verbose=False)
            c.close(r[0][pix], np.full(4, v), 1e-9, 0, "cells that just reach into the cube have the value of the cells they reach")
        c.count("slivers")

    def sparse(c):
        """Many more cells than samples."""
        rng = c.rng
        b = maps.cube(rng, 45, 36)
        d = maps.shells(rng, b, 1, nside=1, inside=True)
        d["center"] = [(b[a + "min"] + b[a + "max"]) / 2 for a in "xyz"]
        d["rmin"], d["rmax"] = 0., min(b[a + "max"] - b[a + "min"] for a in "xyz") * .49
        n = int(rng.choice([500, 700, 1500]))
        c.desc(cube=b, shells=d, mc_size=n, seed=c.np_seed)
        o = cls()
        maps.setup_cube(o, b)
        setup_polar(o, d)
        o.get_weights(mc_size=n, verbose=False)
        re = maps.redges_of(d, "lin")
        i, j = int(rng.integers(0, d["numr"])), int(rng.integers(0, 12))
        V = maps.shell_overlap(maps.cube_edges(b), 1, j, re[i], re[i + 1], d["center"])
        if V.sum() > 1 - 1e-9:
            scatter(c, lambda f: o.remap(f, verbose=False), V.shape, V, (i, j), n, 4. / 49152)

    def hollow(c):
        """A cube inside the innermost radius is not met at all, however small that radius is."""
        rng = c.rng
        t = float(gen.loguniform(rng, .025, .9))
        rmax = gen.scale(rng)
        d = dict(rmin=t * rmax, rmax=rmax, numr=1, nside=1, center=[float(x) for x in rng.normal(size=3) * rmax])
        h = t * rmax / np.sqrt(3) * (1 - 1e-9)
        n = int(rng.integers(2, 5))
        b = {}
        for k, a in enumerate("xyz"):
            b[a + "min"], b[a + "max"], b["num" + a] = d["center"][k] - h, d["center"][k] + h, n
        c.desc(cube=b, shells=d, mc_size=40000, seed=c.np_seed)
        o = cls()
        maps.setup_cube(o, b)
        setup_polar(o, d)
        o.get_weights(mc_size=40000, verbose=False)
        r = o.remap(np.ones((n, n, n)), verbose=False)
        c.ok(np.all(r == hp.UNSEEN), "no cell inside the innermost radius is met", got=r)
        c.count("hollow")

    def octants(c):
        """Many pixels: those wholly within one octant hold the value of that octant's cells."""
        rng = c.rng
        nside = int(rng.choice([8, 16, 16]))
        npix = 12 * nside**2
        cen = [float(x) for x in rng.normal(size=3)]
        R = gen.scale(rng)
        b = {}
        for k, a in enumerate("xyz"):
            L = R * float(rng.uniform(1.01, 3.))
            b[a + "min"], b[a + "max"], b["num" + a] = cen[k] - L, cen[k] + L, 2
        d = dict(rmin=R * float(rng.choice([0., .5])), rmax=R, numr=1, nside=nside, center=cen)
        c.desc(cube=b, shells=d, seed=c.np_seed)
        o = cls()
        maps.setup_cube(o, b)
        setup_polar(o, d)
        o.get_weights(mc_size=int(rng.integers(4, 12)), verbose=False)
        f = rng.normal(size=(2, 2, 2))
        got = np.asarray(o.remap(f, verbose=False))[0]
        v = np.array(hp.pix2vec(nside, np.arange(npix)))
        e = hp.boundaries(nside, np.arange(npix), step=4)
        away = np.all(e * np.sign(v.T)[:, :, None] > -1e-12, axis=(1, 2)) & np.all(np.abs(v) > 1e-9, axis=0)
        i = (v > 0).astype(int)
        c.close(got[away], f[i[1], i[0], i[2]][away], 1e-12, 1e-12, "pixels within one octant hold the value of that octant")
        c.count("octant_pixels", int(away.sum()))

    ck.need("hollow", 12)
    ck.need("octant_pixels", 5000)
    ck.section("hollow", hollow, 16, 800)
    ck.section("octants", octants, 8, 400)
    ck.section("same_number", lambda c: pieces(c, None), 60, 3000)
    ck.need("scatter_judged", 10)
    ck.section("sparse", sparse, 24, 1200)
    ck.need("marked_judged", 100)
    ck.need("slivers", 25)
    ck.need("pooled_samples", 40000)
    ck.section("few_samples", lambda c: pieces(c, int(c.rng.choice([2, 3, 6, 12, 25, 50, 90]))), 240, 12000)
    ck.section("marked", lambda c: pieces(c, 4000), 48, 2500)
    ck.post("marked", pooled)
    ck.section("sliver", sliver, 60, 4000)
    ck.section("planes", planes, 16, 1500)
    ck.need("planes_judged", 100)
    ck.section("general", lambda c: run(c, int(c.rng.choice([300, 2000])), 5), 120, 6000)
    ck.section("coarse", lambda c: run(c, 8000, 2, nside=1), 60, 3000)
    ck.section("fine_pixels", lambda c: run(c, 150, 6, nside=int(c.rng.choice([2, 4]))), 40, 2000)
    ck.section("sharp", lambda c: run(c, 60000, 3, nside=1), 8, 300)
