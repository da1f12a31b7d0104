"""Random points in a HEALPix pixel fill that pixel uniformly."""
import healpy as hp
import numpy as np

from checks.c10 import plane_to_sphere
from vlib import build, ref, stat

PI = np.pi


def setup(ck):
    mp, root = build.load()
    fn = mp.randoms.randoms_healpix_pixel
    ck.rule = "Every pixel of nside 1 and 2 and chosen pixels (poles, caps, facet borders, belt, longitude seam) up to nside 1024, with their positions mapped to the pixel's own diamond."
    ck.need("samples", 400000)
    ck.need("pixels", 150)
    ck.need("seam_pixels", 5)
    ck.need("cap_pixels", 30)
    ck.need("small_sizes", 50)
    ck.assumptions = ["Points within a relative distance of 1e-7 of the pixel border are judged after moving them that far towards the centre."]

    def pick(c):
        rng = c.rng
        if c.index < 60:
            nside, p = (1, c.index) if c.index < 12 else (2, c.index - 12)
            return nside, p
        nside = int(rng.choice([1, 2, 4, 8, 16, 64, 256, 1024]))
        npix = 12 * nside**2
        k = rng.integers(0, 5)
        if k == 0:
            return nside, int(rng.choice([0, 1, 2, 3, npix - 1, npix - 2, npix - 4]))
        if k == 1:
            i = np.array([int(rng.integers(1, 4 * nside))])
            a = hp.ringinfo(nside, i)
            return nside, int(a[0][0] + rng.choice([0, a[1][0] - 1]))
        if k == 2:
            i = np.array([int(rng.choice([nside, 3 * nside, max(1, nside - 1), min(4 * nside - 1, nside + 1)]))])
            a = hp.ringinfo(nside, i)
            return nside, int(a[0][0] + rng.integers(0, a[1][0]))
        return nside, int(rng.integers(0, npix))

    def judge(c, nside, p, n):
        phi, theta = fn(n, p, nside)
        phi, theta = np.asarray(phi, float), np.asarray(theta, float)
        c.ok(phi.shape == (n,) == theta.shape, "as many points as requested", got=[phi.shape, theta.shape])
        c.ok(np.all((phi >= 0) & (phi <= 2 * PI) & (theta >= 0) & (theta <= PI)), "angles in range")
        cx, cy = [float(v) for v in ref.heal_centre_xy(nside, p)]
        x, y = ref.heal_xy(np.where(phi >= 2 * PI, 0., phi), theta)
        dx = np.mod(x - cx + PI, 2 * PI) - PI
        dy = y - cy
        d = PI / (4 * nside)
        # healpy's verdict after a minute step towards the centre
        ph, z, good = plane_to_sphere(cx + dx * (1 - 1e-7), cy + dy * (1 - 1e-7))
        s = np.sqrt(np.clip(1 - z * z, 0, 1))
        near = (np.abs(dx) + np.abs(dy)) > d * (1 + 1e-6)
        pix = np.full(n, -1)
        pix[good] = hp.vec2pix(nside, (s * np.cos(ph))[good], (s * np.sin(ph))[good], z[good])
        raw = hp.ang2pix(nside, theta, phi) if n else np.zeros(0, int)
        out = (pix != p) & (raw != p)
        # theta near a pole is only known to about 1e-8
        pole = (np.abs(np.cos(theta)) > 1 - 1e-12)
        c.ok(not np.any(out & ~pole), "every point lies in the pixel according to healpy", bad=int((out & ~pole).sum()), nside=nside, p=p)
        return dx / d, dy / d

    def one(c):
        nside, p = pick(c)
        n = 8000 if c.index % 3 else int(c.rng.integers(2000, 14000))
        n = n if c.index % 40 != 39 else 60000
        c.desc(nside=nside, p=p, size=n, seed=c.np_seed)
        a, b = judge(c, nside, p, n)
        u, v = np.clip((a + b + 1) / 2, 0, 1), np.clip((a - b + 1) / 2, 0, 1)
        stat.dkw(c, u, "along one diagonal")
        stat.dkw(c, v, "along the other diagonal")
        stat.uniform_cube(c, [u, v], "over the pixel", bins=[5, 5])
        stat.uniform_cube(c, [u[:-1:2], u[1::2]], "successive points", bins=[4, 4])
        for x, y in ((u, u), (v, v), (u, v)):
            stat.lags(c, x - .5, y - .5, "over the pixel")
        # equal area on the sphere: the pixel's own cos(theta)
        c.ok(len(np.unique(u)) > n - 5, "points are not repeated")
        c.count("samples", n)
        c.count("pixels")
        c.count("cap_pixels", abs(np.cos(hp.pix2ang(nside, p)[0])) > 2 / 3)
        bx = hp.boundaries(nside, p)
        c.count("seam_pixels", bool(bx[0].min() > -1 and np.any(bx[1] > 1e-9) and np.any(bx[1] < -1e-9) and bx[0].mean() > 0))
        belt = "belt" if abs(np.cos(hp.pix2ang(nside, p)[0])) < .6 else "cap"
        c.add(belt, np.stack([u, v]))

    def pooled(ck_, c):
        for key, vals in ck_.acc.items():
            a = np.concatenate(vals, axis=1)
            c.desc(**{key: a.shape[1]})
            stat.dkw(c, a[0], key + " pixels together")
            stat.dkw(c, a[1], key + " pixels together")
            stat.uniform_cube(c, [a[0], a[1]], key + " pixels together", bins=[16, 16])

            x, y = a[0] + a[1] - 1, a[0] - a[1]
            t = np.clip((y / np.maximum(1 - np.abs(x), 1e-9) + 1) / 2, 0, 1)
            for side, sel in (("left", x < 0), ("right", x >= 0)):
                stat.dkw(c, t[sel], "%s pixels, along the meridian in the %s half" % (key, side))
                stat.extremes(c, t[sel], "%s pixels, along the meridian in the %s half" % (key, side))
                stat.dkw(c, (1 - np.abs(x[sel]))**2, "%s pixels, across the meridian in the %s half" % (key, side))
            stat.extremes(c, a[0], key + " pixels together")
            stat.extremes(c, a[1], key + " pixels together")

    def small(c):
        rng = c.rng
        nside, p = pick(c) if rng.random() < .5 else (int(rng.choice([1, 3, 5, 16])), 0)
        p = int(rng.integers(0, 12 * nside**2)) if p == 0 else p
        n = int(rng.choice([0, 1, 2, 7]))
        c.desc(nside=nside, p=p, size=n, seed=c.np_seed)
        phi, theta = fn(n, p, nside)
        c.ok(np.shape(phi) == (n,) == np.shape(theta), "as many points as requested", got=np.shape(phi))
        if n:
            pix = hp.ang2pix(nside, np.asarray(theta), np.asarray(phi))
            c.ok(np.mean(pix == p) > .99, "points lie in the pixel", pix=pix)
        c.count("small_sizes")

    ck.section("one", one, 240, 36000)
    ck.section("small", small, 120, 18000)
    ck.post("pooled", pooled)
