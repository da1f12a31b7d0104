"""Dense-grid HEALPix remapping to cap, box and orthographic view."""
import healpy as hp
import numpy as np

from vlib import build, gen, maps, ref

PI = np.pi
FIXED = {"cap": ("alpha_min", "alpha_max", "num_alpha", "num_beta"), "box": ("x_length", "x_grid"), "ortho": ("x_length", "x_grid")}


def request(rng, kind, **kw):
    d = {"cap": maps.cap, "box": maps.angbox, "ortho": maps.orthobox}[kind](rng, **kw)
    for k in (("rebin_alpha", "rebin_beta") if kind == "cap" else ("rebin_x", "rebin_y")):
        if rng.random() < .85:
            d[k] = int(rng.integers(1, 5))
    return d


def prepare(o, kind, nside, d):
    o.setup_map(nside)
    kw = {k: v for k, v in d.items() if k not in FIXED[kind]}
    (o.setup_polar_cap if kind == "cap" else o.setup_box)(*[d[k] for k in FIXED[kind]], **kw)


def subpixels(kind, d):
    """Directions (3, ...), weights with axes (row, sub-row, column, sub-column), and which target pixels exist.

    The last item is +1 on the view, 0 undecided, -1 off."""
    def mids(a, b, n):
        return a + (b - a) * (np.arange(n) + .5) / n, a + (b - a) * np.arange(n + 1) / n
    if kind == "cap":
        be, ae = maps.cap_edges(d)
        nr, sr, nc, sc = d["num_beta"], d.get("rebin_beta", 2), d["num_alpha"], d.get("rebin_alpha", 2)
        beta, _ = mids(be[0], be[-1], nr * sr)
        alpha, e = mids(ae[0], ae[-1], nc * sc)
        B, A = np.meshgrid(beta, alpha, indexing="ij")
        v = np.moveaxis(ref.unit(B, A), -1, 0)
        w = np.broadcast_to(np.cos(e[:-1]) - np.cos(e[1:]), B.shape)
        M = maps.cap_matrix(d)
        on = np.ones((nr, nc))
    else:
        xl, yl, nc, nr = maps.box_lengths(d) if kind == "box" else (d["x_length"], d.get("y_length", d["x_length"]), d["x_grid"], d.get("y_grid", d["x_grid"]))
        sr, sc = d.get("rebin_y", 2), d.get("rebin_x", 2)
        x, _ = mids(-xl / 2, xl / 2, nc * sc)
        y, e = mids(-yl / 2, yl / 2, nr * sr)
        Y, X = np.meshgrid(y, x, indexing="ij")
        if kind == "box":
            v = np.moveaxis(ref.unit(X, PI / 2 - Y), -1, 0)
            w = np.broadcast_to((np.sin(e[1:]) - np.sin(e[:-1]))[:, None], X.shape)
            M = maps.angbox_matrix(d)
            on = np.ones((nr, nc))
        else:
            R = d.get("radius", 1.)
            q = 1 - (X / R)**2 - (Y / R)**2
            v = np.array([X / R, Y / R, np.sqrt(np.clip(q, 0, None))])
            v = v / np.linalg.norm(v, axis=0)
            w = np.where(np.abs(q) < 1e-9, np.nan, np.where(q > 0, 1., 0.))
            M = maps.ortho_matrix(d)
            xm, _ = mids(-xl / 2, xl / 2, nc)
            ym, _ = mids(-yl / 2, yl / 2, nr)
            qm = 1 - (xm[None] / R)**2 - (ym[:, None] / R)**2
            on = np.where(np.abs(qm) < 1e-9, 0, np.sign(qm))
    v = np.tensordot(M, v, axes=(1, 0))
    s = (nr, sr, nc, sc)
    return v.reshape((3,) + s), np.array(w).reshape(s), on


def model(kind, nside, d, f):
    """Lowest and highest admissible value per target pixel (apart only where a sub-pixel centre lies on a HEALPix border)."""
    v, w, on = subpixels(kind, d)
    # polar angles are recovered with an arc cosine: 1e-7 of slack
    pix = maps.pix_choices(nside, v.reshape(3, -1)).reshape((9,) + w.shape)
    vals = f[pix]
    lo, hi = vals.min(axis=0), vals.max(axis=0)
    unsure = np.isnan(w)
    # a sub-pixel on the limb may or may not count
    amb = unsure.any(axis=(1, 3))
    w0 = np.where(unsure, 0., w)
    W = w0.sum(axis=(1, 3))
    with np.errstate(all="ignore"):
        L, H = (lo * w0).sum(axis=(1, 3)) / W, (hi * w0).sum(axis=(1, 3)) / W
    L, H = np.where(W > 0, L, 0.), np.where(W > 0, H, 0.)
    L, H = np.where(amb, np.nan, L), np.where(amb, np.nan, H)
    return L, H, on, W > 0


def setup(ck):
    mp, root = build.load()
    cls = {"cap": mp.densegrid.Heal2Ring, "box": mp.densegrid.Heal2Polar, "ortho": mp.densegrid.Heal2Ortho}
    ck.rule = "Random resolutions (1-64), caps, angular boxes and orthographic boxes, centres including poles and the longitude seam, spins including 0 and 2pi, radii, unequal refinement factors, maps and weight maps."
    for k in cls:
        ck.need("pixels_exact_" + k, 3000)
        ck.need("weighted_" + k, 1500)
        ck.need("free_of_bad_" + k, 1000)
    ck.need("at_poles", 200)
    ck.need("off_sphere", 300)
    ck.need("limb_pixels", 200)
    ck.need("rebin_differs", 300)
    ck.assumptions = ["Sub-pixel centres within 1e-7 of a HEALPix pixel border may be counted in either pixel.",
                      "Orthographic pixels whose centre is on the sphere while no sub-pixel centre is are not judged."]

    def run(c, kind):
        rng = c.rng
        nside = int(rng.choice([1, 2, 4, 8, 16, 64]))
        d = request(rng, kind)
        if kind == "cap":
            maps.enlarge(rng, maps.enlarge(rng, d, ("num_alpha", "num_beta")), ("rebin_alpha", "rebin_beta"), hi=20)
        else:
            maps.enlarge(rng, maps.enlarge(rng, d, ("x_grid", "y_grid")), ("rebin_x", "rebin_y"), hi=20)
        if rng.random() < .1:           # close to a pole, at any resolution
            nside = int(rng.choice([8, 64, 128, 256]))
            d["center"] = [gen.angle(rng), float(rng.choice([0., PI, 1e-6, gen.loguniform(rng, 1e-4, .05)]))]
            size = float(gen.loguniform(rng, 1e-3, .3))
            if kind == "cap":
                d["alpha_min"], d["alpha_max"] = 0., size
            else:
                R = d.get("radius", 1.) if kind == "ortho" else 1.
                d["x_length"], d["y_length"] = size * R, size * R
                if kind == "box" and rng.random() < .5:
                    d["x_length"] = 2 * PI
                    d["y_length"] = PI if rng.random() < .5 else size
            c.count("at_poles")
        if rng.random() < .004:
            nside = 512
        npix = 12 * nside**2
        f = rng.normal(size=npix) * gen.scale(rng)
        if rng.random() < .1:
            f = np.round(f * 10).astype(int)
        w = rng.uniform(.2, 3., npix) * (rng.random(npix) < rng.choice([1., .7]))
        if rng.random() < .4:
            w = w * gen.scale(rng)
        wm = w.max()
        c.desc(kind=kind, grid=d, nside=nside, f=f, w=w)
        o = cls[kind]()
        prepare(o, kind, nside, d)
        L, H, on, has = model(kind, nside, d, f)
        scale = np.abs(f).max() + 1e-300

        def call(*a, **k):
            out = np.asarray(o.remap(*a, **k), float)
            c.ok(out.shape == L.shape, "one value per target pixel in the published layout", got=out.shape, want=L.shape)
            return out
        got = call(f) if rng.random() < .5 else call(f, verbose=False)
        c.ok(np.all(np.isnan(got[on < 0])), "pixels whose centre is off the sphere are not-a-number")
        judge = (on > 0) & has & np.isfinite(L)
        c.ok(np.all(np.isfinite(got[judge])), "pixels on the sphere have a value")
        tol = 1e-11 * scale
        bad = judge & ~((got >= L - tol) & (got <= H + tol))
        if np.any(bad):
            i, j = np.argwhere(bad)[0]
            c.fail("mean over the sub-pixels: at (%d, %d) got %.9g, expected %.9g (%d of %d wrong)" % (i, j, got[i, j], L[i, j], bad.sum(), judge.sum()))
        c.count("pixels_exact_" + kind, int(np.sum(judge & (H - L <= tol))))
        c.count("off_sphere", int(np.sum(on < 0)))
        if kind == "ortho":
            _, ww, _ = subpixels(kind, d)
            s = np.nan_to_num(ww).mean(axis=(1, 3))
            c.count("limb_pixels", int(np.sum((on > 0) & (s > 0) & (s < 1))))
        k = ("rebin_alpha", "rebin_beta") if kind == "cap" else ("rebin_x", "rebin_y")
        c.count("rebin_differs", d.get(k[0], 2) != d.get(k[1], 2))
        NL, NH, _, _ = model(kind, nside, d, f * w)
        DL, DH, _, _ = model(kind, nside, d, w)
        gw = call(f, w=w, verbose=False)
        ok = judge & (DH - DL <= 1e-12 * wm) & (NH - NL <= tol * wm) & (DL > 1e-6 * wm)
        c.close(gw[ok], ((NL + NH) / np.where(ok, DL + DH, 1.))[ok], 1e-9, 1e-9 * scale, "ratio of the weighted map and the weight map")
        c.count("weighted_" + kind, int(ok.sum()))
        # undefined and infinite map pixels enter only where a sub-pixel centre lies in them
        bad = rng.random(npix) < rng.choice([.02, .3])
        h = np.where(bad, rng.choice([np.nan, np.inf, -np.inf]), f)
        _, AH, _, _ = model(kind, nside, d, bad.astype(float))
        gb = call(h, verbose=False)
        free = judge & (AH == 0)
        c.close(gb[free], got[free], 1e-12, 1e-12 * scale, "map pixels without any sub-pixel centre on the view have no influence")
        c.count("free_of_bad_" + kind, int(free.sum()))
        v = float(rng.normal() * 10)
        one = call(np.full(npix, v), verbose=False)
        c.close(one[judge], np.full(judge.sum(), v), 1e-12, 0, "a uniform map is reproduced")

    for kind in cls:
        ck.section(kind, lambda c, k=kind: run(c, k), 2500, 220000)
