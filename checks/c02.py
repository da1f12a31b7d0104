"""Spherical conversion, its inverse and the orthographic height."""
import math

import numpy as np

from vlib import build, gen, monitor, ref


def setup(ck):
    mp, root = build.load()
    c2s, s2c, o2c = mp.coords.cart2sphere, mp.coords.sphere2cart, mp.coords.ortho2cart
    ck.rule = "Random points, centres and shapes; poles, axes, the centre itself; sphere edges hit exactly through Pythagorean triples."
    ck.need("points_forward", 5000)
    ck.need("points_roundtrip", 5000)
    ck.need("points_at_pole", 100)
    ck.need("points_at_centre", 50)
    ck.need("ortho_points", 5000)
    ck.need("ortho_exact_edge", 100)

    def judge(c, x, y, z, cen, r, phi, theta):
        dx, dy, dz = x - cen[0], y - cen[1], z - cen[2]
        wr = np.sqrt(dx**2 + dy**2 + dz**2)
        wp = np.array([math.atan2(b, a) for a, b in zip(dx, dy)])
        rho = np.array([math.hypot(a, b) for a, b in zip(dx, dy)])
        wt = np.array([math.atan2(a, b) for a, b in zip(rho, dz)])
        c.close(r, wr, rtol=1e-12, msg="distance")
        c.ok(np.all((phi >= 0.) & (phi <= ref.TWOPI)), "longitude outside [0, 2pi]", phi=phi)
        c.ok(np.all((theta >= 0.) & (theta <= np.pi)), "polar angle outside [0, pi]", theta=theta)
        at = wr == 0.
        c.ok(np.all(theta[at] == 0.), "polar angle at the centre is 0", theta=theta[at])
        sin = np.where(at, 1., rho / np.where(at, 1., wr))
        tol = 1e-13 + 4e-16 / np.maximum(sin, 1e-8)
        tol = np.minimum(tol, 5e-8)
        bad = (np.abs(theta - wt) > tol) & ~at
        c.ok(not np.any(bad), "polar angle from +z", got=theta[bad], want=wt[bad])
        live = rho > 0.
        c.ok(np.all(ref.circ(phi, wp)[live] <= 1e-12), "longitude counter-clockwise from +x", got=phi, want=wp)
        c.count("points_forward", len(x))
        c.count("points_at_pole", int(np.sum((rho == 0) & ~at)))
        c.count("points_at_centre", int(np.sum(at)))
        return tol

    def points(rng, n, cen, scale):
        p = [gen.coord(rng, n, scale) for _ in range(3)]
        k = rng.integers(0, 6, n)
        x, y, z = [np.where(k < 2, cen[i] + p[i], p[i]) for i in range(3)]
        x, y = np.where(k == 2, cen[0], x), np.where(k == 2, cen[1], y)     # poles
        x, y, z = np.where(k == 3, cen[0], x), y, np.where(k == 3, cen[2], z)
        c = rng.random(n) < .1
        return [np.where(c, cen[i], v) for i, v in enumerate((x, y, z))]

    def arrays(c):
        rng = c.rng
        shp = gen.shape(rng)
        if rng.random() < .15:
            shp = (3, 4, 5)
        n = int(np.prod(shp)) if shp else 1
        scale = float(gen.loguniform(rng, 1e-60, 1e60) if rng.random() < .2 else gen.loguniform(rng, 1e-3, 1e3))
        cen = [0., 0., 0.] if rng.random() < .3 else [float(v) for v in rng.normal(size=3) * scale]
        if rng.random() < .15:
            cen = [float(v) for v in rng.integers(-5, 6, 3)]
            x, y, z = [v for v in rng.integers(-6, 7, (3, n)).astype("f8")]
            xa, ya, za = [v.astype("i8").reshape(shp) for v in (x, y, z)]
        else:
            x, y, z = points(rng, n, cen, scale)
            xa, ya, za = [v.reshape(shp) for v in (x, y, z)]
        c.desc(shape=shp, x=xa, y=ya, z=za, center=cen)
        cc = [list, tuple, np.array][rng.integers(0, 3)](cen)
        r, phi, theta = c2s(xa, ya, za, center=cc)
        for v in (r, phi, theta):
            c.ok(np.shape(v) == shp, "shape of the result", got=np.shape(v))
        f = [np.asarray(v, float).ravel() for v in (xa, ya, za, r, phi, theta)]
        tol = judge(c, f[0], f[1], f[2], cen, f[3], f[4], f[5])
        back = s2c(r, phi, theta, center=cc)
        size = sum(abs(v) for v in cen)
        for got, w, nm in zip(back, (xa, ya, za), "xyz"):
            s = np.asarray(f[3]) * (tol + 1e-14) * 2 + 1e-14 * (size + np.abs(f[0]) + np.abs(f[1]) + np.abs(f[2]))
            c.close(np.asarray(got, float).ravel(), np.asarray(w, float).ravel(), rtol=1., scale=s, msg=nm + " restored")
        c.count("points_roundtrip", n)

    def scalars(c):
        rng = c.rng
        for _ in range(10):
            cen = [0., 0., 0.] if rng.random() < .3 else [float(v) for v in gen.coord(rng, 3, 5.)]
            x, y, z = [float(v[0]) for v in points(rng, 1, cen, float(gen.loguniform(rng, 1e-2, 1e2)))]
            k = rng.integers(0, 3)
            if k == 0:
                x, y, z = [np.float64(v) for v in (x, y, z)]
            elif k == 1:
                x, y, z = [int(round(v)) for v in (x, y, z)]
            c.desc(x=x, y=y, z=z, center=cen)
            r, phi, theta = c2s(x, y, z, center=cen)
            c.ok(np.ndim(r) == np.ndim(phi) == np.ndim(theta) == 0, "scalar in, scalar out")
            f = [np.array([float(v)]) for v in (x, y, z, r, phi, theta)]
            tol = judge(c, f[0], f[1], f[2], cen, f[3], f[4], f[5])
            back = s2c(r, phi, theta, center=cen)
            s = float(r) * (float(tol[0]) + 1e-14) * 2 + 1e-14 * sum(abs(v) for v in cen + [x, y, z])
            for got, w, nm in zip(back, (x, y, z), "xyz"):
                c.ok(np.ndim(got) == 0, "scalar in, scalar out")
                c.close(float(got), float(w), atol=s, rtol=0., msg=nm + " restored")
            c.count("points_roundtrip")
            c.count("scalar_calls")

    def inverse(c):
        """Spherical to Cartesian on its own, including unit radius arrays and scalar radius with arrays."""
        rng = c.rng
        shp = gen.shape(rng)
        if rng.random() < .1:
            shp = (int(rng.integers(2, 6)),) * int(rng.integers(2, 4))
        n = int(np.prod(shp)) if shp else 1
        cen = [0., 0., 0.] if rng.random() < .4 else [float(v) for v in rng.normal(size=3)]
        phi, theta = gen.phi(rng, n).reshape(shp), gen.theta(rng, n).reshape(shp)
        r = float(rng.uniform(.1, 10)) if rng.random() < .3 else rng.uniform(0., 10, n).reshape(shp)
        c.desc(shape=shp, r=r, phi=phi, theta=theta, center=cen)
        x, y, z = s2c(r, phi, theta, center=cen)
        c.close(x, r * np.cos(phi) * np.sin(theta) + cen[0], rtol=0, atol=1e-13, msg="x")
        c.close(y, r * np.sin(phi) * np.sin(theta) + cen[1], rtol=0, atol=1e-13, msg="y")
        c.close(z, r * np.cos(theta) + cen[2] + 0. * phi, rtol=0, atol=1e-13, msg="z")
        c.count("inverse_points", n)

    TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (0, 1, 1), (1, 0, 1)]

    def ortho(c):
        rng = c.rng
        R = float(gen.loguniform(rng, 1e-8, 1e8) if rng.random() < .3 else gen.loguniform(rng, 1e-3, 1e3))
        fill = [np.nan, 0., -1., np.inf, 7.5][rng.integers(0, 5)]
        shp = gen.shape(rng)
        n = int(np.prod(shp)) if shp else 1
        if rng.random() < .4:        # exact edge
            a, b, h = TRIPLES[rng.integers(0, len(TRIPLES))]
            two = 2.**rng.integers(-25, 25)
            R = h * two
            x = a * two * rng.choice([-1., 1.], n)
            y = b * two * rng.choice([-1., 1.], n)
            k = rng.integers(0, 3, n)
            x = np.where(k == 1, x * (1 + 1e-9), np.where(k == 2, x * (1 - 1e-9), x))
            y = np.where(k == 1, y * (1 + 1e-9), np.where(k == 2, y * (1 - 1e-9), y))
            c.count("ortho_exact_edge", int(np.sum(k == 0)))
        else:
            x, y = rng.uniform(-1.3, 1.3, (2, n)) * R
            k = np.full(n, -1)
        xa, ya = x.reshape(shp), y.reshape(shp)
        c.desc(x=xa, y=ya, r=R, fill=fill)
        if shp == ():
            xa, ya = float(x[0]), float(y[0])
        z = o2c(xa, ya, r=R, fill_value=fill)
        c.ok(np.shape(z) == shp, "shape of the height", got=np.shape(z))
        z = np.asarray(z, float).ravel()
        gap = R * R - x * x - y * y
        edge = (np.abs(gap) < 4e-15 * R * R) & (k != 0)
        inside = (gap > 0.) & (k != 0)
        want = np.where(inside, np.sqrt(np.maximum(gap, 0.)), fill)
        use = ~edge
        c.close(z[use & inside], want[use & inside], rtol=1e-14, atol=0,
                scale=R * R / np.maximum(want[use & inside], 1e-300), msg="height")
        c.ok(np.all(z[use & inside] > 0.), "height is non-negative")
        c.same(z[use & ~inside], want[use & ~inside], msg="fill value on or outside the edge")
        c.count("ortho_points", n)
        if rng.random() < .3:       # the middle of the disc
            c.close(float(o2c(0., 0., r=R)), R, rtol=1e-14, msg="height of the middle")
        if rng.random() < .2:
            z1 = o2c(0.3, 0.4)
            c.close(float(z1), math.sqrt(.75), rtol=1e-14, msg="default radius")
            c.ok(np.isnan(o2c(.6, .9)), "default fill is nan")

    def pipeline(c):
        rng = c.rng
        mon = monitor.Monitor()
        mon.functions({"cart2sphere": c2s, "sphere2cart": s2c})

        def after_s2c(name, a, k, out, depth, token):
            d = monitor.bind(["r", "phi", "theta", "center"], a, k)
            if d is None:
                return
            cen = d.get("center", [0., 0., 0.])
            r, p, t = [np.asarray(d[v], float) for v in ("r", "phi", "theta")]
            s = np.abs(r) + sum(abs(v) for v in cen)
            c.close(out[0], r * np.cos(p) * np.sin(t) + cen[0], rtol=1e-13, scale=s, msg="x of an internal call")
            c.close(out[1], r * np.sin(p) * np.sin(t) + cen[1], rtol=1e-13, scale=s, msg="y of an internal call")
            c.close(out[2], r * np.cos(t) + cen[2], rtol=1e-13, scale=s, msg="z of an internal call")
            c.count("internal_calls")

        def after_c2s(name, a, k, out, depth, token):
            d = monitor.bind(["x", "y", "z", "center"], a, k)
            if d is None or np.ndim(d["x"]) != np.ndim(d["z"]):
                return
            cen = d.get("center", [0., 0., 0.])
            f = [np.atleast_1d(np.asarray(v, float)).ravel() for v in (d["x"], d["y"], d["z"]) + tuple(out)]
            judge(c, f[0], f[1], f[2], cen, f[3], f[4], f[5])
            c.count("internal_calls")
        mon.after.update(sphere2cart=after_s2c, cart2sphere=after_c2s)
        cen = [float(v) for v in gen.centre_dir(rng)]
        c.desc(center=cen)
        try:
            m = mp.montecarlo.Heal2Ring()
            m.setup_map(8)
            m.setup_polar_cap(0., 1., 2, 2, center=cen, beta_shift=1.)
            m.get_weights(mc_size=40, verbose=False)
            o = mp.densegrid.Heal2Ortho()
            o.setup_map(8)
            o.setup_box(2.2, 5, center=cen)
            o.transform(np.array([.1, 2.]), np.array([.5, 2.]))
            s = mp.montecarlo.Cube2Shell()
            s.setup_cube(-2., 2., 2, -2., 2., 2, -2., 2., 2)
            s.setup_polar_lin(0., 1., 1, 1, center=[.1, .2, .3])
            s.get_weights(mc_size=20, verbose=False)
            v = mp.densegrid.PointOfView()
            v.setup([0., 0., 0.], [1., 1., .3], 1., spin=.4)
            v.transform(np.array([1., 2.]), np.array([1., .2]), np.array([.3, .1]))
        finally:
            mon.remove()
        c.ok(True, "ran")

    ck.section("arrays", arrays, 1200, 600000)
    ck.section("scalars", scalars, 240, 90000)
    ck.section("inverse", inverse, 400, 150000)
    ck.section("ortho", ortho, 800, 450000)
    ck.section("pipeline", pipeline, 8, 3000)
