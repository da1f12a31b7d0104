"""Monte Carlo HEALPix-to-cap and HEALPix-to-box remapping."""
import healpy as hp
import numpy as np

from checks.c22 import bound, scatter
from vlib import build, gen, maps, ref, stat

PI = np.pi
ERR = 1e-2


def setup_cap(o, nside, d):
    o.setup_map(nside)
    kw = {k: v for k, v in d.items() if k not in ("alpha_min", "alpha_max", "num_alpha", "num_beta")}
    o.setup_polar_cap(d["alpha_min"], d["alpha_max"], d["num_alpha"], d["num_beta"], **kw)


def setup_angbox(o, nside, d):
    o.setup_map(nside)
    kw = {k: v for k, v in d.items() if k not in ("x_length", "x_grid")}
    o.setup_box(d["x_length"], d["x_grid"], **kw)


def patches(kind, d):
    """Array shape, rotation and per-pixel patch (p0, p1, t0, t1) in the unturned frame."""
    if kind == "cap":
        be, ae = maps.cap_edges(d)
        return (d["num_beta"], d["num_alpha"]), maps.cap_matrix(d), lambda i, j: (be[i], be[i + 1], ae[j], ae[j + 1])
    ye, xe = maps.angbox_edges(d)
    return (len(ye) - 1, len(xe) - 1), maps.angbox_matrix(d), lambda i, j: (xe[j], xe[j + 1], PI / 2 - ye[i + 1], PI / 2 - ye[i])


def setup(ck):
    mp, root = build.load()
    cls = {"cap": mp.montecarlo.Heal2Ring, "box": mp.montecarlo.Heal2Polar}
    prep = {"cap": setup_cap, "box": setup_angbox}
    ck.rule = "Random resolutions, caps and angular boxes (up to the full sphere), centres including poles and the longitude seam, spins including 0 and 2pi, partial angular ranges, default and explicit heights, maps and weight maps."
    for k in cls:
        ck.need("pixels_judged_" + k, 800)
        ck.need("weighted_" + k, 600)
        ck.need("pole_centre_" + k, 8)
    ck.need("poison_remaps", 300)
    ck.need("spun", 100)
    ck.need("corner_caps", 5)
    ck.assumptions = ["Per-pixel deviations are judged with Bernstein bounds at 1e-12 plus %g of the value range for the reference overlaps." % ERR]

    def run(c, kind, nside, n):
        rng = c.rng
        d = maps.enlarge(rng, maps.cap(rng), ("num_alpha", "num_beta")) if kind == "cap" else maps.enlarge(rng, maps.angbox(rng), ("x_grid", "y_grid"), .12)
        if d.get("x_grid", 0) > 7:
            d["y_grid"] = int(rng.integers(1, 4))
            if rng.random() < .7:
                d["x_length"] = 2 * PI
        if d.get("y_grid", 0) > 7 and rng.random() < .7:
            d["y_length"] = PI
        if kind == "cap" and rng.random() < .12:      # a tiny cap on a corner of pixels (or a pole)
            d["alpha_min"], d["alpha_max"] = 0., float(gen.loguniform(rng, 1e-5, 1e-2))
            v = hp.boundaries(nside, int(rng.integers(0, 12 * nside**2)))[:, int(rng.integers(0, 4))]
            if rng.random() < .5:
                v = np.array([0., 0., rng.choice([-1., 1.])])
            d["center"] = [float(x) for x in ref.angles(v)]
            d["center"][0] %= 2 * PI
            c.count("corner_caps")
        shape, M, patch = patches(kind, d)
        npix = 12 * nside**2
        vec = np.array(hp.pix2vec(nside, np.arange(npix)))
        f = rng.normal(size=npix) * gen.scale(rng)
        k = rng.integers(0, 4)
        if k == 0:
            f = rng.normal(size=3) @ vec
        elif k == 1:
            f = M[:, 0] @ vec
        w = rng.uniform(.2, 3., npix)
        if rng.random() < .3:
            w *= rng.random(npix) < .7
        if rng.random() < .4:
            w = w * gen.scale(rng)
        c.desc(kind=kind, grid=d, nside=nside, mc_size=n, f=f, w=w, seed=c.np_seed)
        o = cls[kind]()
        prep[kind](o, nside, d)
        o.get_weights(mc_size=n, verbose=False)
        scale = np.abs(f).max() + 1e-300

        def remap(g, v=None):
            out = np.asarray(o.remap(g, v, verbose=False) if v is not None else o.remap(g, verbose=False), float)
            c.ok(out.shape == shape, "one value per target pixel in the published layout", got=out.shape, want=shape)
            return out
        got, gw = remap(f), remap(f, w)
        c.ok(np.all(np.isfinite(got)), "every target pixel has a value")
        v = float(rng.normal() * 10)
        c.close(remap(np.full(npix, v)), np.full(shape, v), 1e-12, 0, "a uniform map is reproduced")
        c.close(remap(np.full(npix, v), np.where(w > 0, w, .3)), np.full(shape, v), 1e-12, 0, "a uniform map is reproduced under weights")
        pick = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
        if len(pick) > 10:
            ends = [(i, j) for i in (0, shape[0] - 1) for j in (0, shape[1] - 1)]
            pick = ends + [pick[q] for q in rng.choice(len(pick), 10, replace=False)]
        cc = d.get("center", [0., 0.])
        c.count("pole_centre_" + kind, cc[1] in (0., PI))
        c.count("spun", bool(d.get("beta_shift") or d.get("alpha")))
        for q, (i, j) in enumerate(pick):
            W, can = maps.patch_overlap(nside, M, *patch(i, j))
            c.ok(not np.any(W[~can] > 0), "reference models agree")
            W, fc, wc = W[can], f[can], w[can]
            for res, vv, ev in ((got, None, "pixels_judged_"), (gw, wc, "weighted_")):
                R, tol = bound(W[None], fc[None], n, np.ones((1, len(fc)), bool), None if vv is None else vv[None], ERR, axis=-1)
                R, tol = float(R[0]), float(tol[0])
                if np.isfinite(tol):
                    c.ok(abs(res[i, j] - R) <= tol + 1e-9 * scale, "%s: got %.6g, overlap model %.6g, believable deviation %.2g" % (ev + kind, res[i, j], R, tol), pixel=[i, j])
                    c.count(ev + kind)
            c.ok(fc.min() - 1e-12 * scale <= got[i, j] <= fc.max() + 1e-12 * scale, "values lie between the extremes of the pixels that may touch", pixel=[i, j])
            if q < 2 and not can.all():
                out = remap(np.where(can, f, 1e20 * (1 + np.abs(f))))
                c.close(out[i, j], got[i, j], 1e-9, 1e-9 * scale, "untouched HEALPix pixels do not contribute", pixel=[i, j])
                c.count("poison_remaps")

    def fine(c, kind):
        """A map that holds the position inside the target pixel: any bias of the samples moves the mean."""
        rng = c.rng
        nside, n = 128, 2000
        d = maps.cap(rng, 2) if kind == "cap" else maps.angbox(rng, 2)
        if kind == "cap":
            d["alpha_max"] = max(d["alpha_max"], d["alpha_min"] + .5)
        shape, M, patch = patches(kind, d)
        c.desc(kind=kind, grid=d, nside=nside, mc_size=n, seed=c.np_seed)
        o = cls[kind]()
        prep[kind](o, nside, d)
        o.get_weights(mc_size=n, verbose=False)
        npix = 12 * nside**2
        phi, theta = ref.angles((M.T @ np.array(hp.pix2vec(nside, np.arange(npix)))).T)
        p0, p1 = patch(0, 0)[:2]
        fp = np.mod(np.mod(phi - p0, 2 * PI) / (p1 - p0), 1.)
        fz = np.zeros(npix)
        for i in range(shape[0]):
            for j in range(shape[1]):
                _, _, t0, t1 = patch(i, j)
                m = (theta >= t0) & (theta <= t1)
                fz[m] = (np.cos(t0) - np.cos(theta[m])) / (np.cos(t0) - np.cos(t1))
        rp, rz = o.remap(fp, verbose=False), o.remap(fz, verbose=False)
        for i in range(shape[0]):
            for j in range(shape[1]):
                W, can = maps.patch_overlap(nside, M, *patch(i, j), n=60000)
                for f, r, name in ((fp, rp, "angle"), (fz, rz, "height")):
                    R = W @ f
                    c.add(kind + " " + name, (float(r[i, j] - R), n, float(W @ (f - R)**2)))

    def sparse(c):
        """Many more HEALPix pixels than samples."""
        rng = c.rng
        kind = ("cap", "box")[c.index % 2]
        nside = int(rng.choice([32, 64]))
        if kind == "cap":
            d = maps.cap(rng, 2)
            d["alpha_max"] = d["alpha_min"] + float(rng.uniform(.7, PI - d["alpha_min"] - .01)) if d["alpha_min"] < 2 else PI
        else:
            d = maps.angbox(rng, 2)
            d["x_length"], d["y_length"] = float(rng.uniform(2., 6.)), float(rng.uniform(1., 3.))
        shape, M, patch = patches(kind, d)
        n = int(rng.choice([500, 700]))
        c.desc(kind=kind, grid=d, nside=nside, mc_size=n, seed=c.np_seed)
        o = cls[kind]()
        prep[kind](o, nside, d)
        o.get_weights(mc_size=n, verbose=False)
        i, j = int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))
        W, can = maps.patch_overlap(nside, M, *patch(i, j), n=60000)
        scatter(c, lambda f: o.remap(f, verbose=False), (12 * nside**2,), W, (i, j), n, 4. / 60000)

    ck.need("scatter_judged", 20)
    ck.section("sparse", sparse, 24, 800)

    def pooled(ck_, c):
        for k, rows in sorted(ck_.acc.items()):
            c.desc(**{k: len(rows)})
            stat.pooled(c, rows, 1.5e-3, "position inside the target pixel, " + k)

    def strip(c):
        """A long flat box (or a narrow sector of a cap): nothing but the pixels along it counts, so small turns show at its ends."""
        rng = c.rng
        nside = int(rng.choice([256, 512, 512]))
        a = float(gen.loguniform(rng, 2e-3, 1e-2)) if rng.random() < .6 else maps.turn(rng)
        cen = [gen.angle(rng), float(rng.uniform(0, PI))]
        w = float(gen.loguniform(rng, 1e-5, 3e-3))
        if c.index % 2:
            kind = "box"
            d = dict(x_length=float(rng.uniform(2., 2 * PI)), x_grid=int(rng.integers(3, 9)), y_length=w, y_grid=1, center=cen, alpha=a)
            M, across = maps.angbox_matrix(d), np.array([0., 0., 1.])
        else:
            kind = "cap"
            b0 = float(rng.uniform(0, 6.2))
            d = dict(alpha_min=float(rng.uniform(.5, 1.5)), alpha_max=float(rng.uniform(1.6, 2.5)), num_alpha=int(rng.integers(2, 5)), beta_min=b0, beta_max=b0 + w, num_beta=1, center=cen, beta_shift=a)
            M, across = maps.cap_matrix(d), np.array([-np.sin(b0 + w / 2), np.cos(b0 + w / 2), 0.])
        n = 200
        c.desc(kind=kind, grid=d, nside=nside, mc_size=n, seed=c.np_seed)
        o = cls[kind]()
        prep[kind](o, nside, d)
        o.get_weights(mc_size=n, verbose=False)
        h = (M @ across) @ np.array(hp.pix2vec(nside, np.arange(12 * nside**2)))
        f = (np.abs(h) > np.sin(w / 2 + hp.max_pixrad(nside)) + 1e-6).astype(float)
        r = np.asarray(o.remap(f, verbose=False), float)
        c.ok(np.all(r == 0), "only HEALPix pixels along the strip contribute", share_elsewhere=r)
        c.count("strips")

    ck.need("strips", 30)
    ck.section("strip", strip, 48, 3000)
    ck.need("pooled_samples", 400000)
    for kind in cls:
        ck.section(kind + "_inside", lambda c, k=kind: fine(c, k), 40, 240)
    ck.post("inside", pooled)
    for kind in cls:
        ck.section(kind + "_coarse", lambda c, k=kind: run(c, k, int(c.rng.choice([1, 2, 4])), int(c.rng.choice([500, 3000]))), 120, 4200)
        ck.section(kind + "_fine", lambda c, k=kind: run(c, k, int(c.rng.choice([8, 16, 64])), int(c.rng.choice([300, 2000]))), 60, 2100)
        ck.section(kind + "_sharp", lambda c, k=kind: run(c, k, int(c.rng.choice([1, 2])), 20000), 12, 480)
