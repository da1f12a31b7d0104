"""Areas add up."""
import numpy as np

from vlib import build, gen, ref

PI = np.pi


def setup(ck):
    mp, root = build.load()
    area = mp.coords.usphere_area
    ck.rule = "Random patches (thin, polar, full circle), random subdivisions, random polar and Cartesian edges."
    ck.need("patches", 400)
    ck.need("subpatches", 4000)
    ck.need("full_sphere", 50)
    ck.need("rings", 400)
    ck.need("latitudes", 2000)

    def pair(rng, top):
        lo, hi = sorted(rng.uniform(0., top, 2))
        k = rng.integers(0, 8)
        if k == 6:              # small patches close to, but off, either end
            lo, hi = np.sort(gen.loguniform(rng, 1e-6, 1e-2, 2))
            if rng.random() < .5:
                lo, hi = top - hi, top - lo
        elif k == 0:
            lo = 0.
        elif k == 1:
            hi = top
        elif k == 2:
            lo, hi = 0., top
        elif k == 3:
            hi = min(top, lo + gen.loguniform(rng, 1e-6, 1e-2))
        elif k == 4:
            lo = max(0., top - gen.loguniform(rng, 1e-6, 1e-2))
            hi = top
        if hi <= lo:
            lo, hi = 0., top
        return float(lo), float(hi)

    def cuts(rng, lo, hi, n):
        e = np.sort(rng.uniform(lo, hi, n - 1))
        return np.concatenate([[lo], e, [hi]])

    def exact(p0, p1, t0, t1):
        # cos a - cos b = 2 sin((a+b)/2) sin((b-a)/2), accurate for thin patches
        return (p1 - p0) * 2. * np.sin(.5 * (t0 + t1)) * np.sin(.5 * (t1 - t0))

    def patch(c):
        rng = c.rng
        p, t = pair(rng, 2. * PI), pair(rng, PI)
        c.desc(phi=p, theta=t)
        a = area(p[0], p[1], t[0], t[1])
        c.close(a, exact(p[0], p[1], t[0], t[1]), 1e-12, 2e-15 * (p[1] - p[0]), "area of the patch")
        c.count("patches")
        e, f = cuts(rng, p[0], p[1], int(rng.integers(1, 7))), cuts(rng, t[0], t[1], int(rng.integers(1, 7)))
        parts = [area(e[i], e[i + 1], f[j], f[j + 1]) for i in range(len(e) - 1) for j in range(len(f) - 1)
                 if e[i] < e[i + 1] and f[j] < f[j + 1]]
        c.count("subpatches", len(parts))
        c.ok(min(parts) >= 0., "sub-patches have no negative area", parts=parts)
        c.close(sum(parts), a, 1e-12, 1e-13, "sum over the sub-patches")
        m = .5 * (p[0] + p[1])
        if p[0] < m < p[1]:
            c.close(area(p[0], m, t[0], t[1]), a * (m - p[0]) / (p[1] - p[0]), 1e-12, 1e-15, "area scales with longitude width")
        # mirror about the equator
        if PI - t[1] < PI - t[0]:
            c.close(area(p[0], p[1], PI - t[1], PI - t[0]), a, 1e-9, 1e-14, "mirrored patch")
        g, h = cuts(rng, 0., 2 * PI, 5), cuts(rng, 0., PI, 5)
        tot = sum(area(g[i], g[i + 1], h[j], h[j + 1]) for i in range(5) for j in range(5))
        c.close(tot, 4. * PI, 1e-12, msg="whole sphere")
        c.count("full_sphere")

    def polar(c):
        rng = c.rng
        nr, nphi = [int(rng.integers(1, b)) if rng.random() < .9 else int(rng.integers(20, 300)) for b in (9, 13)]
        r0 = float(rng.choice([0., rng.uniform(0, 3)]))
        red = gen.edges(rng, nr, lo=r0)
        p = pair(rng, 2 * PI)
        if rng.random() < .2:           # almost the full circle
            p = (float(rng.choice([0., gen.loguniform(rng, 1e-8, .1)])), float(2 * PI - rng.choice([0., gen.loguniform(rng, 1e-8, .1)])))
        ped = np.linspace(p[0], p[1], nphi + 1)
        c.desc(redges=red, pedges=ped)
        a = np.asarray(mp.polar.get_polar_area2d(red.copy(), ped.copy()), float)
        c.ok(a.shape == (nphi, nr), "one row per angular bin, one column per radial bin", got=a.shape)
        want = .5 * (red[1:] - red[:-1]) * (red[1:] + red[:-1]) * ((p[1] - p[0]) / nphi)
        thin = 1e-14 * nphi / (p[1] - p[0])
        c.close(a, np.tile(want, (nphi, 1)), 1e-11 + thin, 1e-15, "pixel areas")
        c.close(a.sum(), .5 * (p[1] - p[0]) * (red[-1]**2 - red[0]**2), 1e-11 + thin, 1e-14, "pixels tile the annular sector")
        c.count("rings", nr)
        xe = gen.edges(rng, 3)
        lx, ly = gen.loguniform(rng, 1e-3, 1e3, 2)
        nx, ny = [int(rng.integers(1, 9)) if rng.random() < .9 else int(gen.loguniform(rng, 9, 6000)) for _ in "xy"]
        x0, y0 = rng.normal(size=2)
        xed, yed = np.linspace(x0, x0 + lx, nx + 1), np.linspace(y0, y0 + ly, ny + 1)
        c.close(mp.polar.get_pixarea(xed, yed), (lx / nx) * (ly / ny), 1e-9, 1e-14 * (abs(x0) + 1) * (abs(y0) + 1) * (lx + ly + 1), "pixel area")
        c.close(mp.polar.get_pixarea(np.linspace(0, lx, nx + 1), np.linspace(0., ly, ny + 1)), (lx / nx) * (ly / ny), 1e-12, msg="pixel area")

    def latitude(c):
        rng = c.rng
        shp = gen.shape(rng)
        n = int(np.prod(shp)) if shp else 1
        t = gen.theta(rng, n)
        x = float(t[0]) if shp == () else t.reshape(shp)
        c.desc(theta=t, shape=shp)
        lat = mp.coords.sphere2lonlat(x)
        c.close(lat, PI / 2. - np.asarray(x), 0, 1e-15, "latitude")
        c.close(mp.coords.lonlat2sphere(lat), x, 0, 5e-16, "back to the polar angle")
        c.close(mp.coords.sphere2lonlat(0.), PI / 2, 0, 0, "latitude of the north pole")
        c.close(mp.coords.lonlat2sphere(-PI / 2), PI, 0, 0, "polar angle of the south pole")
        c.count("latitudes", n)

    ck.section("patch", patch, 500, 480000)
    ck.section("polar", polar, 300, 240000)
    ck.section("latitude", latitude, 300, 120000)
