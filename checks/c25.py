"""Dense-grid box-to-ring remapping."""
import numpy as np

from vlib import build, gen, maps


def setup_polar(o, d):
    kw = {k: d[k] for k in ("pmin", "pmax", "phi_shift", "center", "rebin_r", "rebin_p") if k in d}
    o.setup_polar(d["rmin"], d["rmax"], d["numr"], d["nump"], **kw)


def request(rng, nmax=10, big=6, **kw):
    b = maps.box(rng, nmax)
    d = maps.ring(rng, b, **kw)
    for k in ("rebin_r", "rebin_p"):
        if rng.random() < .85:
            d[k] = int(rng.integers(1, big))
    return b, d


def subpixels(d):
    """Sub-pixel centres and weights with axes (phi bin, sub-phi, r bin, sub-r)."""
    rr, rp = d.get("rebin_r", 2), d.get("rebin_p", 2)
    re = d["rmin"] + (d["rmax"] - d["rmin"]) * np.arange(d["numr"] * rr + 1) / (d["numr"] * rr)
    p0, p1 = d.get("pmin", 0.), d.get("pmax", maps.TWOPI)
    n = d["nump"] * rp
    ph = p0 + (p1 - p0) * (np.arange(n) + .5) / n + d.get("phi_shift", 0.)
    r = (re[1:] + re[:-1]) / 2
    w = re[1:]**2 - re[:-1]**2
    P, R = np.meshgrid(ph, r, indexing="ij")
    x, y = d["center"][0] + R * np.cos(P), d["center"][1] + R * np.sin(P)
    s = (d["nump"], rp, d["numr"], rr)
    return x.reshape(s), y.reshape(s), np.broadcast_to(w, P.shape).reshape(s)


def model(b, d, f):
    """Mean per polar pixel and the slack left by sub-pixel centres on cell borders."""
    x, y, w = subpixels(d)
    xe, ye = maps.box_edges(b)
    ix, ax = maps.cell_index(x, xe)
    iy, ay = maps.cell_index(y, ye)
    inside = (ix >= 0) & (iy >= 0)
    v = np.where(inside, f[iy, ix], 0.)
    W = w.sum(axis=(1, 3))
    span = max(f.max(), 0.) - min(f.min(), 0.)
    return (v * w).sum(axis=(1, 3)) / W, ((ax | ay) * w).sum(axis=(1, 3)) / W * span, (inside * w).sum(axis=(1, 3)) / W


def setup(ck):
    mp, root = build.load()
    cls = mp.densegrid.Box2Ring
    ck.rule = "Random boxes and polar grids as for the Monte Carlo class, with independent radial and angular refinement factors 1-5 (and the default)."
    ck.need("pixels_exact", 5000)
    ck.need("partly_outside", 500)
    ck.need("wholly_outside", 300)
    ck.need("weighted_pixels", 3000)
    ck.need("shifted", 200)
    ck.need("rebin_differs", 200)
    ck.assumptions = ["Sub-pixel centres within 1e-9 cells of a cell border may be counted on either side."]

    def run(c, long=False):
        rng = c.rng
        b, d = request(rng, int(rng.choice([2, 6, 12])))
        maps.enlarge(rng, b, ("numx", "numy"), hi=500)
        if long:
            b["num" + "xy"[c.index % 2]] = int(gen.loguniform(rng, 1000, 30000))
            b["num" + "yx"[c.index % 2]] = int(rng.integers(1, 8))
        maps.enlarge(rng, d, ("numr", "nump"))
        maps.enlarge(rng, d, ("rebin_r", "rebin_p"), .03, 24)
        f = rng.normal(size=(b["numy"], b["numx"])) * gen.scale(rng)
        if rng.random() < .15:
            f = np.round(f * 10).astype(int)
        w = rng.uniform(.2, 3., f.shape) * (rng.random(f.shape) < rng.choice([1., .7]))
        if rng.random() < .4:
            w = w * gen.scale(rng)
        c.desc(box=b, polar=d, f=f, w=w)
        o = cls()
        maps.setup_box(o, b)
        setup_polar(o, d)
        shape = (d["nump"], d["numr"])
        R, slack, share = model(b, d, f)
        scale = np.abs(f).max() + 1e-300
        got = np.asarray(o.remap(f) if rng.random() < .5 else o.remap(f, verbose=False), float)
        c.ok(got.shape == shape, "one value per polar pixel, angles first", got=got.shape, want=shape)
        c.close(got, R, 0, 1e-11 * scale + slack, "mean over the sub-pixels")
        c.count("pixels_exact", int(np.sum(slack == 0)))
        c.count("partly_outside", int(np.sum((share > 0) & (share < 1))))
        c.count("wholly_outside", int(np.sum(share == 0)))
        c.count("shifted", bool(d.get("phi_shift")))
        c.count("rebin_differs", d.get("rebin_r", 2) != d.get("rebin_p", 2))
        N, sn, _ = model(b, d, f * w)
        D, sd, _ = model(b, d, w)
        gw = np.asarray(o.remap(f, w=w, verbose=False), float)
        c.ok(gw.shape == shape, "one weighted value per polar pixel")
        ok = (D > 1e-6 * w.max() + 2 * sd) & (sn == 0) & (sd == 0)
        c.close(gw[ok], (N / np.where(ok, D, 1))[ok], 1e-9, 1e-9 * scale, "ratio of the weighted map and the weight map")
        c.count("weighted_pixels", int(ok.sum()))
        # a uniform map keeps its value inside, its covered share outside
        v = float(rng.normal() * 10)
        one = np.asarray(o.remap(np.full(f.shape, v), verbose=False), float)
        full = (share == 1) & (slack == 0)
        c.close(one[full], np.full(full.sum(), v), 1e-12, 0, "a uniform map is reproduced inside the box")
        s1 = slack > 0
        c.close(one[~s1], (v * share)[~s1], 1e-11, 1e-13 * abs(v), "a uniform map is scaled by the covered share")

    ck.section("remap", run, 4000, 600000)
    ck.section("long", lambda c: run(c, True), 120, 12000)
