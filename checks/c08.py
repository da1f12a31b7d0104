"""Polar grids and equal-area polar grids."""
import numpy as np

from vlib import build, gen, ref

PI = np.pi


def setup(ck):
    mp, root = build.load()
    g = mp.grids
    ck.rule = "Random bin counts, radial and angular ranges; equal-area grids over ring counts, radii and base counts."
    ck.need("polar_grids", 300)
    ck.need("equal_area_grids", 200)
    ck.need("equal_area_pixels", 5000)

    def polar(c):
        rng = c.rng
        nr, npz = [int(rng.integers(1, 20)) if rng.random() < .95 else int(rng.integers(100, 400)) for _ in range(2)]
        kw = {}
        rmin, rmax, pmin, pmax = 0., 1., 0., 2 * PI
        if rng.random() < .8:
            rmin = float(rng.choice([0., rng.uniform(0, 5)]))
            rmax = rmin + float(gen.loguniform(rng, .01, 100))
            kw.update(rmin=rmin, rmax=rmax)
        if rng.random() < .7:
            pmin, pmax = [float(v) for v in np.sort(rng.uniform(0, 2 * PI, 2))]
            if rng.random() < .25:
                pmin, pmax = [(-PI, PI), (-PI / 2, PI / 2), (pmin - PI, pmax - PI), (pmin - 2 * PI, pmax), (pmin, pmax + 2 * PI), (pmin - 1., pmax + 7.), (pmin + 2 * PI, pmax + 4 * PI)][rng.integers(0, 7)]
            kw.update(phimin=pmin, phimax=pmax)
        c.desc(nr=nr, nphi=npz, **kw)
        rm = rmin + (rmax - rmin) * (2 * np.arange(nr) + 1) / (2. * nr)
        pm = pmin + (pmax - pmin) * (2 * np.arange(npz) + 1) / (2. * npz)
        a, b = g.polargrid(nr, npz, **kw), g.polargrid(nr, npz, return1d=True, **kw)
        c.ok(len(a) == 2 and len(b) == 4, "number of returned arrays")
        tr, tp = 4e-15 * rmax, 4e-14
        for x in (a, b):
            c.close(x[0], np.repeat(rm[:, None], npz, 1), 0, tr, "radii, first index along the radius")
            c.close(x[1], np.repeat(pm[None, :], nr, 0), 0, tp, "angles, second index along the angle")
        c.close(b[2], rm, 0, tr, "1D radial midpoints")
        c.close(b[3], pm, 0, tp, "1D angular midpoints")
        c.count("polar_grids")

    def ea(c):
        rng = c.rng
        nr, base = int(rng.integers(1, 14)) if rng.random() < .96 else int(rng.integers(30, 200)), int(rng.choice([1, 2, 3, 4, 4, 6, 7])) if rng.random() < .8 else int(rng.integers(8, 70))
        rmax = float(gen.loguniform(rng, 1e-9, 1e9))
        kw = {}
        if rng.random() < .25:
            rmax = 1.
        else:
            kw["rmax"] = rmax
        if base == 4 and rng.random() < .5:
            kb = {}
        else:
            kb = dict(base_nphi=base)
        c.desc(nr=nr, rmax=rmax, base=base, default_base=not kb)
        r, p = g.polarEA_grid(nr, **kw, **kb)
        r, p = np.asarray(r, float), np.asarray(p, float)
        area, npix = g.polarEA_area(nr, **kw, **kb), g.polarEA_npix(nr, **kb)
        c.ok(r.ndim == 1 and p.ndim == 1 and len(r) == len(p) == npix, "as many centres as reported", got=[r.shape, p.shape, npix])
        c.close(area * npix, PI * rmax**2, 1e-12, msg="area times count is the disc")
        # rings in order; the pixels of a ring share its area equally
        k = 0
        for i in range(nr):
            mid = rmax * (i + .5) / nr
            sel = np.isclose(r, mid, rtol=1e-9, atol=0)
            n = int(sel.sum())
            c.ok(n > 0 and np.all(sel[k:k + n]), "rings listed from the centre outwards")
            ring = PI * rmax**2 * (2 * i + 1) / nr**2
            c.close(ring / n, area, 1e-12, msg="pixel area in ring %d" % i)
            c.close(r[k:k + n], np.full(n, mid), 1e-13, msg="radius of the pixels in ring %d" % i)
            c.close(p[k:k + n], 2 * PI * (np.arange(n) + .5) / n, 1e-13, 1e-14, msg="angles of the pixels in ring %d" % i)
            k += n
        c.ok(k == len(r), "no other centres")
        # the reported count is exact for any number of rings, and the areas still add up to the disc
        big = int(gen.loguniform(rng, 200, 3e6))
        c.same(int(g.polarEA_npix(big, **kb)), base * big * big, "count for %d rings" % big)
        c.close(g.polarEA_area(big, **kw, **kb) * (base * big * big), PI * rmax**2, 1e-12, msg="area times count for %d rings" % big)
        c.count("equal_area_grids")
        c.count("equal_area_pixels", k)

    ck.section("polar", polar, 350, 180000)
    ck.section("ea", ea, 250, 120000)
