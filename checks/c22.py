"""Monte Carlo box-to-ring remapping."""
import numpy as np

from vlib import build, gen, maps, stat

PI = np.pi
RAY_ERR = 4e-3


def setup_polar(o, d, kind="lin", addzero=None):
    kw = {k: d[k] for k in ("pmin", "pmax", "phi_shift", "center") if k in d}
    if kind == "lin":
        o.setup_polar_lin(d["rmin"], d["rmax"], d["numr"], d["nump"], **kw)
    else:
        if addzero is not None:
            kw["addzero"] = addzero
        o.setup_polar_log(d["rmin"], d["rmax"], d["numr"], d["nump"], **kw)


def request(rng, nmax=9, **kw):
    """A box, a polar grid and the kind of radial bins."""
    b = maps.box(rng, nmax)
    d = maps.ring(rng, b, **kw)
    kind = "lin" if rng.random() < .6 else "log"
    addzero = None
    if kind == "log":
        addzero = [None, True, False][rng.integers(0, 3)]
        if d["rmin"] == 0. or rng.random() < .3:
            d["rmin"] = d["rmax"] * float(gen.loguniform(rng, 1e-4, .5))
        d["numr"] = max(2, d["numr"])
    return b, d, kind, addzero


def edges(d, kind, addzero):
    return maps.redges_of(d, kind, addzero is not False), maps.pedges_of(d)


def same(rng, sizes):
    """A number of samples that equals some size of the grids."""
    return max(2, int(rng.choice(sizes)))


def bound(W, f, n, can, w=None, err=RAY_ERR, axis=(-2, -1)):
    """Reference ratio and the largest believable deviation of the Monte Carlo one, per pixel (inf: no verdict).

    can marks the cells that may overlap the pixel."""
    w = np.ones(f.shape) if w is None else w
    den = np.sum(W * w, axis=axis)
    with np.errstate(all="ignore"):
        R = np.sum(W * w * f, axis=axis) / den
    dev = np.where(can, w * (f - (R[..., None] if axis == -1 else R[..., None, None])), 0.)
    span = np.max(np.abs(dev), axis=axis) * 2
    var = np.sum(W * dev**2, axis=axis) + err * span**2
    wmax = np.max(np.where(can, w, 0.), axis=axis)
    wv = np.sum(W * w**2, axis=axis) + err * wmax**2
    num = stat.bernstein(n, var, span) + err * span
    dlo = den - stat.bernstein(n, np.maximum(wv - den**2, 0), wmax) - err * wmax
    with np.errstate(all="ignore"):
        return R, np.where(dlo > 0, num / dlo, np.inf)


def scatter(c, remap, shape, V, at, n, extra=0., K=64):
    """Many random two-valued maps show how many samples really count: their remaps scatter as those of n samples."""
    d = []
    for _ in range(K):
        f = c.rng.choice([-1., 1.], shape)
        d.append(remap(f)[at] - np.sum(V * f))
    got = float(np.mean(np.square(d)))
    lim = 3.4 * ((1 - np.sum(V * V)) / n + extra)
    c.ok(got <= lim, "mean square scatter over random maps: %.3g, that of %d samples is %.3g" % (got, n, (1 - np.sum(V * V)) / n), pixel=at)
    c.count("scatter_judged")


def setup(ck):
    mp, root = build.load()
    cls = mp.montecarlo.Box2Ring
    ck.rule = "Random boxes (unequal cells, offsets), polar grids (linear and logarithmic bins, with and without a bin from zero, partial angles, centres inside, off-centre and outside, angular shifts including 0 and 2pi), maps and weight maps."
    ck.need("pixels_judged", 1500)
    ck.need("pixels_outside", 150)
    ck.need("pixels_partly_outside", 300)
    ck.need("poison_remaps", 400)
    ck.need("shifted", 60)
    ck.need("log", 60)
    ck.need("weighted", 150)
    ck.assumptions = ["Per-pixel deviations are judged with Bernstein bounds at 1e-12 plus %g of the value range for the ray integration of the overlaps." % RAY_ERR]

    def run(c, n, nmax, req=None):
        rng = c.rng
        b, d, kind, addzero = req or request(rng, nmax)
        re, pe = edges(d, kind, addzero)
        shift = d.get("phi_shift", 0.)
        xe, ye = maps.box_edges(b)
        f = rng.normal(size=(b["numy"], b["numx"])) * gen.scale(rng)
        X, Y = np.meshgrid(xe[:-1] + xe[1:], ye[:-1] + ye[1:])
        k = rng.integers(0, 4)
        if k == 0:
            f = X * rng.normal() + Y * rng.normal()
        elif k == 1:
            f = np.hypot(X / 2 - d["center"][0], Y / 2 - d["center"][1])
        w = rng.uniform(.2, 3., f.shape)
        if rng.random() < .3:
            w *= rng.random(f.shape) < .7
        if rng.random() < .4:
            w = w * gen.scale(rng)
        c.desc(box=b, polar=d, kind=kind, addzero=addzero, mc_size=n, f=f, w=w, seed=c.np_seed)
        o = cls()
        maps.setup_box(o, b)
        setup_polar(o, d, kind, addzero)
        o.get_weights(mc_size=n, verbose=False)
        W = maps.sector_overlap(xe, ye, re, pe, d["center"], shift)
        shape = (d["nump"], d["numr"])
        apart = np.array([[[[maps.rect_sector_apart(xe[x], xe[x + 1], ye[y], ye[y + 1], re[j], re[j + 1], pe[i] + shift, pe[i + 1] + shift, d["center"])
                             for x in range(b["numx"])] for y in range(b["numy"])] for j in range(shape[1])] for i in range(shape[0])])
        c.ok(not np.any(W[apart] > 1e-6), "reference models agree")
        outside = apart.all(axis=(2, 3))
        share = W.sum(axis=(2, 3))

        def remap(g, v=None):
            out = np.asarray(o.remap(g, v, verbose=False) if v is not None else o.remap(g, verbose=False), float)
            c.ok(out.shape == shape, "one value per polar pixel, angles first", got=out.shape, want=shape)
            return out
        got = remap(f)
        nan = np.isnan(got)
        c.ok(np.all(nan[outside]), "pixels wholly outside the box are not-a-number")
        sure = share * n > 80
        c.ok(not np.any(nan[sure]), "pixels that overlap the box have a value", missing=int(nan[sure].sum()))
        R, tol = bound(W, f, n, ~apart)
        judge = np.isfinite(tol) & ~outside
        scale = np.abs(f).max()
        bad = judge & ~(np.abs(got - R) <= tol + 1e-9 * scale)
        if np.any(bad):
            i, j = np.argwhere(bad)[0]
            c.fail("pixel (%d, %d): got %.6g, overlap model %.6g, believable deviation %.2g (%d of %d pixels wrong)" % (i, j, got[i, j], R[i, j], tol[i, j], bad.sum(), judge.sum()))
        c.count("pixels_judged", int(judge.sum()))
        c.count("pixels_outside", int(outside.sum()))
        c.count("pixels_partly_outside", int(np.sum((share > .02) & (share < .98))))
        c.count("shifted", bool(shift))
        c.count("log", kind == "log")
        # weight map
        gw = remap(f, w)
        Rw, tw = bound(W, f, n, ~apart, w)
        jw = np.isfinite(tw) & ~outside
        bad = jw & ~(np.abs(gw - Rw) <= tw + 1e-9 * scale)
        if np.any(bad):
            i, j = np.argwhere(bad)[0]
            c.fail("weighted pixel (%d, %d): got %.6g, model %.6g, believable deviation %.2g" % (i, j, gw[i, j], Rw[i, j], tw[i, j]))
        c.ok(np.all(np.isnan(gw[outside])), "weighted pixels wholly outside the box are not-a-number")
        c.count("weighted")
        # a uniform map is reproduced exactly
        v = float(rng.normal() * 10)
        one = remap(np.full(f.shape, v))
        c.ok(np.array_equal(np.isnan(one), nan), "the same pixels are empty for every map")
        c.close(one[~nan], np.full((~nan).sum(), v), 1e-12, 0, "a uniform map is reproduced")
        pos = np.where(w > 0, w, .3)
        one = remap(np.full(f.shape, v), pos)
        c.close(one[~nan], np.full((~nan).sum(), v), 1e-12, 0, "a uniform map is reproduced under weights")
        # values between the extremes of the touched cells
        lo = np.min(np.where(apart, np.inf, f), axis=(2, 3))
        hi = np.max(np.where(apart, -np.inf, f), axis=(2, 3))
        ok = nan | ((got >= lo - 1e-12 * scale) & (got <= hi + 1e-12 * scale))
        c.ok(np.all(ok), "values lie between the extremes of the cells the pixel touches")
        # cells that do not touch a pixel do not matter to it
        for _ in range(4):
            i, j = int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))
            g = np.where(apart[i, j], 1e30 * (1 + np.abs(f)), f)
            out = remap(g)
            if not nan[i, j]:
                c.close(out[i, j], got[i, j], 1e-9, 1e-9 * scale, "untouched cells do not contribute", pixel=[i, j])
            c.count("poison_remaps")

    def pieces(c, n, big):
        """Maps that mark the cells with little (or much) of a pixel: any rule about samples or cells shows."""
        rng = c.rng
        b = maps.box(rng, big, max(2, big // 2))
        d = maps.ring(rng, b, 2, 2, inside=rng.random() < .7)
        key = "" if n else "same number, "
        n = n or same(rng, [b["numx"], b["numy"], b["numx"] * b["numy"], b["numx"] + 1, b["numy"] + 1])
        c.desc(box=b, polar=d, mc_size=n, seed=c.np_seed)
        o = cls()
        maps.setup_box(o, b)
        setup_polar(o, d)
        o.get_weights(mc_size=n, verbose=False)
        xe, ye = maps.box_edges(b)
        re, pe = edges(d, "lin", None)
        W = maps.sector_overlap(xe, ye, re, pe, d["center"], d.get("phi_shift", 0.), 1000)
        for i in range(d["nump"]):
            for j in range(d["numr"]):
                share = W[i, j].sum()
                if share < .05:
                    continue
                V = W[i, j] / share
                u = V[V > 0]
                q = np.quantile(u, rng.choice([.3, .5, .7]))
                f = np.where(V <= q, 1., 0.)
                if rng.random() < .2:
                    f = (rng.random(V.shape) < .5).astype(float)
                r = o.remap(f, verbose=False)[i, j]
                c.count("pixels_over_50_cells", len(u) > 50)
                p = min(1., float(np.sum(V * f)))
                if share > 1 - 1e-9:
                    c.add(key + "inside, mc_size %s" % ("< 10" if n < 10 else "< 100" if n < 100 else "large"), (float(r - p), n, p * (1 - p)))
                m = share * n
                if m > 150:
                    # the number of samples in the box is itself random: at least half of the expected one
                    lim = stat.bernstein(m / 2, p * (1 - p), 1.) + 2 * RAY_ERR
                    c.ok(abs(r - p) <= lim, "share of marked cells: got %.5g, overlap model %.5g, believable deviation %.2g" % (r, p, lim), pixel=[i, j])
                    c.count("marked_judged")

    def pooled(ck_, c):
        for k, rows in sorted(ck_.acc.items()):
            c.desc(**{k: len(rows)})
            stat.pooled(c, rows, 2e-3, "share of marked cells, " + k)

    def sliver(c):
        """Pixels that only just reach into the box still have a value, of the cell they reach."""
        rng = c.rng
        b = maps.box(rng, 3)
        m = min(b["xmax"] - b["xmin"], b["ymax"] - b["ymin"])
        rmax = m * float(rng.uniform(.1, .45))
        e = float(gen.loguniform(rng, 1e-2, .3))
        mid = [(b["xmin"] + b["xmax"]) / 2, (b["ymin"] + b["ymax"]) / 2]
        k = int(rng.integers(0, 4))
        a = "xy"[k // 2]
        cen = list(mid)
        cen[k // 2] = b[a + "min"] - rmax * (1 - e) if k % 2 else b[a + "max"] + rmax * (1 - e)
        d = dict(rmin=0., rmax=rmax, numr=1, nump=1, center=cen, phi_shift=gen.angle(rng))
        u = 1 - e
        share = (np.arccos(u) - u * np.sqrt(1 - u * u)) / PI
        n = int(min(200000, max(500, 200 / share)))
        v = float(rng.normal() * gen.scale(rng))
        c.desc(box=b, polar=d, mc_size=n, share=share, value=v, seed=c.np_seed)
        o = cls()
        maps.setup_box(o, b)
        setup_polar(o, d)
        o.get_weights(mc_size=n, verbose=False)
        f = np.full((b["numy"], b["numx"]), v)
        if share * n > 60:
            for w in (None, np.full(f.shape, gen.scale(rng))):
                r = o.remap(f, verbose=False) if w is None else o.remap(f, w, verbose=False)
                c.close(r, [[v]], 1e-9, 0, "a pixel that just reaches into the box has the value of the cells it reaches")
            c.count("slivers")

    def sparse(c):
        """Many more cells than samples."""
        rng = c.rng
        b = maps.box(rng, 120, 60)
        d = maps.ring(rng, b, 2, 2, inside=True)
        n = int(rng.choice([500, 700, 1500]))
        c.desc(box=b, polar=d, mc_size=n, seed=c.np_seed)
        o = cls()
        maps.setup_box(o, b)
        setup_polar(o, d)
        o.get_weights(mc_size=n, verbose=False)
        xe, ye = maps.box_edges(b)
        re, pe = edges(d, "lin", None)
        W = maps.sector_overlap(xe, ye, re, pe, d["center"], d.get("phi_shift", 0.), 1000)
        for i in range(d["nump"]):
            for j in range(d["numr"]):
                if W[i, j].sum() > 1 - 1e-9:
                    scatter(c, lambda f: o.remap(f, verbose=False), W.shape[2:], W[i, j], (i, j), n, 1e-6)

    def thin(c):
        """A short piece of a very thin ring, and a box of about its size."""
        rng = c.rng
        R = gen.scale(rng)
        t = float(gen.loguniform(rng, 1e-6, 1e-2))
        p = float(rng.uniform(.05, 6.2))
        dp = min(t * float(gen.loguniform(rng, .3, 3.)), .05)
        cen = [float(x) for x in rng.normal(size=2) * R]
        d = dict(rmin=R, rmax=R * (1 + t), numr=int(rng.integers(1, 4)), nump=int(rng.integers(1, 3)), pmin=p - dp / 2, pmax=p + dp / 2, center=cen, phi_shift=gen.angle(rng) if rng.random() < .5 else 0.)
        a = p + d["phi_shift"]
        h = R * max(t, dp) * float(rng.uniform(.3, .9))
        x, y = cen[0] + R * (1 + t / 2) * np.cos(a), cen[1] + R * (1 + t / 2) * np.sin(a)
        b = dict(xmin=float(x - h), xmax=float(x + h), numx=int(rng.integers(2, 8)), ymin=float(y - h), ymax=float(y + h), numy=int(rng.integers(2, 8)))
        run(c, 2000, 8, (b, d, "lin", None))
        c.count("thin_rings")

    ck.need("thin_rings", 40)
    ck.section("thin", thin, 60, 4000)
    ck.section("same_number", lambda c: pieces(c, None, int(c.rng.choice([12, 40]))), 80, 4000)
    ck.need("scatter_judged", 20)
    ck.section("sparse", sparse, 24, 1600)
    ck.need("pixels_over_50_cells", 40)
    ck.need("marked_judged", 200)
    ck.need("slivers", 60)
    ck.need("pooled_samples", 300000)
    ck.section("few_samples", lambda c: pieces(c, int(c.rng.choice([2, 3, 6, 12, 25, 50, 90])), 7), 600, 40000)
    ck.section("many_cells", lambda c: pieces(c, int(c.rng.choice([1000, 4000])), int(c.rng.choice([16, 40]))), 200, 16000)
    ck.post("marked", pooled)
    ck.section("sliver", sliver, 120, 16000)
    ck.section("general", lambda c: run(c, int(c.rng.choice([400, 2000, 5000])), 8), 600, 80000)
    ck.section("coarse", lambda c: run(c, int(c.rng.choice([3000, 10000])), 2), 240, 30000)
    ck.section("sharp", lambda c: run(c, 60000, 4), 24, 4000)
