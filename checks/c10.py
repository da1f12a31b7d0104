"""HEALPix pixel outlines."""
import healpy as hp
import numpy as np

from vlib import build, gen, ref

PI = np.pi


def plane_to_sphere(x, y):
    """Unit vectors of valid points of the plane; NaN outside the projection."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    x = np.mod(x, 2 * PI)
    cap = np.abs(y) > PI / 4
    sig = 2. - np.abs(4. * y) / PI
    xc = (np.floor(2. * x / PI) + .5) * PI / 2.
    with np.errstate(all="ignore"):
        phi = np.where(cap, xc + (x - xc) / sig, x)
        z = np.where(cap, np.sign(y) * (1. - sig**2 / 3.), 8. * y / (3. * PI))
    bad = (np.abs(y) >= PI / 2) | (cap & (np.abs(x - xc) > PI / 4 * sig))
    return phi, z, ~bad


def setup(ck):
    mp, root = build.load()
    px = mp.pixel
    ck.rule = "Every kind of pixel (caps, belt, facet borders, seam, poles) of resolutions 1 to 256, odd and even numbers of points, both directions."
    ck.need("outlines", 300)
    ck.need("inside_lookups", 3000)
    ck.need("outside_lookups", 3000)
    ck.need("halves", 300)
    ck.need("cap_pixels", 60)

    def pick(rng):
        nside = int(rng.choice([1, 2, 4, 8, 16, 64, 256]))
        npix = 12 * nside**2
        k = rng.integers(0, 6)
        if k == 0:
            p = int(rng.choice([0, 1, 2, 3, npix - 1, npix - 4]))
        elif k == 1:
            # first or last pixel of a ring (seam)
            i = int(rng.integers(1, 4 * nside))
            start = hp.ringinfo(nside, np.array([i]))[0][0]
            n = hp.ringinfo(nside, np.array([i]))[1][0]
            p = int(start + rng.choice([0, n - 1]))
        elif k == 2:
            i = int(rng.choice([nside, 3 * nside, max(1, nside - 1), min(4 * nside - 1, nside + 1)]))
            a = hp.ringinfo(nside, np.array([i]))
            p = int(a[0][0] + rng.integers(0, a[1][0]))
        else:
            p = int(rng.integers(0, npix))
        return nside, p

    def half(cx, cy, d, steps, sign):
        nl = steps // 2
        nr = steps - nl
        a, b = np.linspace(0., 1., nl), np.linspace(0., 1., nr)
        if nl == 1:
            a = np.zeros(1)
        x = np.concatenate([cx - d + a * d, cx + b * d])
        y = cy + sign * np.concatenate([a * d, d - b * d])
        return x, y

    def one(c):
        rng = c.rng
        nside, p = pick(rng)
        steps = int(rng.choice([8, 12, 20, 40, int(rng.integers(8, 120)), int(rng.integers(4, 8)), int(rng.integers(500, 5000))], p=[.15, .15, .2, .2, .2, .06, .04]))
        rev = bool(rng.random() < .4)
        c.desc(nside=nside, p=p, steps=steps, reverse=rev)
        cx, cy = [float(v) for v in ref.heal_centre_xy(nside, p)]
        d = PI / (4 * nside)
        tol = 3e-14
        lookups = p if rng.random() < .7 else np.int64(p)
        kw = dict(steps=steps)
        if rev or rng.random() < .5:
            kw["reverse"] = rev
        x, y = px.healpix_boundary(lookups, nside, **kw)
        x, y = np.asarray(x, float), np.asarray(y, float)
        nt = steps // 2
        tx, ty = half(cx, cy, d, nt, 1.)
        bx, by = half(cx, cy, d, steps - nt, -1.)
        wx, wy = np.concatenate([tx, bx[::-1]]), np.concatenate([ty, by[::-1]])
        if rev:
            wx, wy = wx[::-1], wy[::-1]
        off = x[0] - wx[0]
        k = round(off / (2 * PI))
        c.close(x - 2 * PI * k, wx, 0, tol, "x along the outline")
        c.close(y, wy, 0, tol, "y along the outline")
        c.close([x[0], y[0]], [x[-1], y[-1]], 0, tol, "closed")
        a = np.sum(x[:-1] * y[1:] - x[1:] * y[:-1]) / 2
        if steps >= 8:          # with fewer points a corner is skipped
            c.close(a, (1. if rev else -1.) * 2 * d * d, 1e-6, 1e-12, "encloses the pixel, clockwise unless reversed")
        c.count("outlines")
        if abs(cy) > PI / 4:
            c.count("cap_pixels")
        # membership judged by healpy
        for scale, name in ((1. - 1e-5, "inside_lookups"), (1. + 1e-5, "outside_lookups")):
            u, v = cx + (x - 2 * PI * k - cx) * scale, cy + (y - cy) * scale
            phi, z, good = plane_to_sphere(u, v)
            pix = hp.vec2pix(nside, *[np.sqrt(np.clip(1 - z[good]**2, 0, 1)) * np.cos(phi[good]),
                                      np.sqrt(np.clip(1 - z[good]**2, 0, 1)) * np.sin(phi[good]), z[good]])
            if name == "inside_lookups":
                c.ok(np.all(good) and np.all(pix == p), "just inside the outline is the pixel", pixels=pix)
            else:
                c.ok(np.all(pix != p), "just outside the outline is another pixel", pixels=pix)
            c.count(name, int(good.sum()))
        # halves
        hs = int(rng.integers(2, 60)) if rng.random() < .95 else int(rng.integers(200, 3000))
        for fn, sign, nm in ((px.healpix_boundary_top, 1., "top"), (px.healpix_boundary_bot, -1., "bottom")):
            for r in (False, True):
                hx, hy = fn(lookups, nside, steps=hs, reverse=r) if (r or rng.random() < .5) else fn(lookups, nside, steps=hs)
                wx, wy = half(cx, cy, d, hs, sign)
                if r:
                    wx, wy = wx[::-1], wy[::-1]
                c.close(hx - 2 * PI * k, wx, 0, tol, "x along the %s half" % nm)
                c.close(hy, wy, 0, tol, "y along the %s half" % nm)
                c.count("halves")
        c.ok(len(px.healpix_boundary(lookups, nside)[0]) == 40 and len(px.healpix_boundary_top(lookups, nside)[0]) == 20
             and len(px.healpix_boundary_bot(lookups, nside)[1]) == 20, "default number of points")

    ck.section("one", one, 500, 320000)
