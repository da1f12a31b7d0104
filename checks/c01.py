"""Planar polar conversion and its inverse."""
import math

import numpy as np

from vlib import build, gen, monitor, ref

SCALARS = [float, np.float64, int, np.float32]


def setup(ck):
    mp, root = build.load()
    c2p, p2c = mp.coords.cart2polar, mp.coords.polar2cart
    ck.rule = "Random points, centres, shapes and numeric types; points on axes, at the centre, tiny and huge scales."
    ck.need("points_forward", 2000)
    ck.need("points_roundtrip", 2000)
    ck.need("scalar_calls", 50)

    def judge(c, x, y, cen, r, phi, f32=False):
        """x, y float64 arrays (1D) that the call was given."""
        tol = 2e-6 if f32 else 1e-12
        dx, dy = x - cen[0], y - cen[1]
        want_r = np.array([math.hypot(a, b) for a, b in zip(dx, dy)])
        want_p = np.array([math.atan2(b, a) for a, b in zip(dx, dy)])
        slack = (np.abs(x) + np.abs(y) + abs(cen[0]) + abs(cen[1])) * (2e-6 if f32 else 0.)
        c.close(r, want_r, rtol=tol, atol=slack, msg="radius")
        c.ok(np.all((phi >= 0.) & (phi <= ref.TWOPI * (1 + (1e-6 if f32 else 0.)))), "angle outside [0, 2pi]", phi=phi)
        live = want_r > (np.max(slack) * 1e3 if f32 and len(x) else 0.)
        d = ref.circ(phi, want_p)[live]
        lim = (tol + (slack / np.maximum(want_r, 1e-300))[live])
        c.ok(np.all(d <= lim), "angle is not the counter-clockwise direction", worst=float(np.max(d)) if d.size else 0.,
             got=phi, want=want_p)
        c.count("points_forward", len(x))

    def arrays(c):
        rng = c.rng
        shp = gen.shape(rng)
        n = int(np.prod(shp)) if shp else 1
        k = rng.integers(0, 6)
        scale = float(gen.loguniform(rng, 1e-80, 1e80)) if k == 0 else float(gen.loguniform(rng, 1e-3, 1e3))
        x, y = gen.coord(rng, n, scale), gen.coord(rng, n, scale)
        cen = [0., 0.] if rng.random() < .3 else [float(v) for v in rng.normal(size=2) * scale]
        if rng.random() < .3:           # close to the centre, compared to its coordinates
            x, y = cen[0] + x * gen.loguniform(rng, 1e-9, 1.), cen[1] + y * gen.loguniform(rng, 1e-9, 1.)
        if n and rng.random() < .5:
            i = rng.integers(0, n)
            x[i], y[i] = cen
        dt = ["f8", "f8", "f8", "i8", "i4", "f4"][rng.integers(0, 6)]
        if dt[0] == "i":
            x, y = np.round(rng.normal(size=n) * 20), np.round(rng.normal(size=n) * 20)
            cen = [float(v) for v in rng.integers(-5, 5, 2)] if rng.random() < .5 else [int(v) for v in rng.integers(-5, 5, 2)]
        if dt == "f4":
            scale = float(gen.loguniform(rng, 1e-3, 1e3))
            x = gen.coord(rng, n, scale).astype("f4").astype("f8")
            y = gen.coord(rng, n, scale).astype("f4").astype("f8")
            cen = [0., 0.] if rng.random() < .3 else [float(v) for v in rng.normal(size=2) * scale]
        xa, ya = x.astype(dt).reshape(shp), y.astype(dt).reshape(shp)
        form = rng.integers(0, 4)
        cc = [list, tuple, np.array, list][form](cen)
        c.desc(shape=shp, dtype=dt, x=xa, y=ya, center=cen)
        default = cen == [0., 0.] and rng.random() < .5
        r, phi = c2p(xa, ya) if default else c2p(xa, ya, center=cc)
        c.ok(np.shape(r) == shp and np.shape(phi) == shp, "shape of the result", got=[np.shape(r), np.shape(phi)])
        judge(c, xa.astype("f8").ravel(), ya.astype("f8").ravel(), cen, np.asarray(r, float).ravel(),
              np.asarray(phi, float).ravel(), dt == "f4")
        # back
        x2, y2 = p2c(r, phi) if default else p2c(r, phi, center=cc)
        s = np.abs(xa.astype(float) - cen[0]) + np.abs(ya.astype(float) - cen[1]) + abs(cen[0]) + abs(cen[1])
        e = 4e-6 if dt == "f4" else 1e-14
        c.close(x2, xa.astype(float), rtol=e, scale=s, msg="x restored")
        c.close(y2, ya.astype(float), rtol=e, scale=s, msg="y restored")
        c.count("points_roundtrip", n)

    def scalars(c):
        rng = c.rng
        for _ in range(12):
            x, y = (float(v) for v in gen.coord(rng, 2))
            cen = [0., 0.] if rng.random() < .3 else [float(v) for v in gen.coord(rng, 2)]
            if rng.random() < .3:
                x, y = cen[0] + x * float(gen.loguniform(rng, 1e-9, 1.)), cen[1] + y * float(gen.loguniform(rng, 1e-9, 1.))
            k = rng.integers(0, 3)
            if k == 0:
                x, y = int(round(x)), int(round(y))
            elif k == 1:
                x, y = np.float64(x), np.float64(y)
            c.desc(x=x, y=y, center=cen)
            r, phi = c2p(x, y, center=cen)
            c.ok(np.ndim(r) == 0 and np.ndim(phi) == 0, "scalar in, scalar out")
            judge(c, np.array([float(x)]), np.array([float(y)]), cen, np.array([float(r)]), np.array([float(phi)]))
            x2, y2 = p2c(r, phi, center=cen)
            s = abs(x) + abs(y) + abs(cen[0]) + abs(cen[1])
            c.close(x2, float(x), rtol=1e-14, scale=s, msg="x restored")
            c.close(y2, float(y), rtol=1e-14, scale=s, msg="y restored")
            ra, pa = c2p(np.array([x, x]), np.array([y, y]), center=cen)
            c.ok(abs(ra[1] - r) <= 1e-14 * abs(r) and ref.circ(pa[0], phi) < 1e-14, "array and scalar forms agree")
            c.count("scalar_calls")

    def opposite(c):
        rng = c.rng
        shp = gen.shape(rng)
        n = int(np.prod(shp)) if shp else 1
        s = float(gen.loguniform(rng, 1e-3, 1e3))
        r = s * rng.uniform(0.01, 1., n).reshape(shp)
        phi = gen.phi(rng, n, closed=False).reshape(shp)
        cen = [0., 0.] if rng.random() < .4 else [float(v) for v in rng.normal(size=2) * s]
        c.desc(shape=shp, r=r, phi=phi, center=cen)
        x, y = p2c(r, phi, center=cen)
        wx = np.array([cen[0] + a * math.cos(b) for a, b in zip(r.ravel(), phi.ravel())]).reshape(shp)
        wy = np.array([cen[1] + a * math.sin(b) for a, b in zip(r.ravel(), phi.ravel())]).reshape(shp)
        size = r + abs(cen[0]) + abs(cen[1])
        c.close(x, wx, rtol=1e-14, scale=size, msg="x")
        c.close(y, wy, rtol=1e-14, scale=size, msg="y")
        r2, p2 = c2p(x, y, center=cen)
        c.close(r2, r, rtol=1e-13, scale=size, msg="radius restored")
        c.ok(np.all(ref.circ(p2, phi) <= 1e-14 * np.asarray(size / r) * 8), "angle restored", got=p2)
        c.count("points_roundtrip", n)

    def pipeline(c):
        """Contracts evaluated on the calls the library makes itself."""
        rng = c.rng
        mon = monitor.Monitor()
        mon.functions({"cart2polar": c2p, "polar2cart": p2c})

        def after_p2c(name, a, k, out, depth, token):
            d = monitor.bind(["r", "phi", "center"], a, k)
            if d is None:
                return
            cen = d.get("center", [0., 0.])
            r, phi = np.asarray(d["r"], float), np.asarray(d["phi"], float)
            s = np.abs(r) + abs(cen[0]) + abs(cen[1])
            c.close(out[0], r * np.cos(phi) + cen[0], rtol=1e-13, scale=s, msg="x of an internal call")
            c.close(out[1], r * np.sin(phi) + cen[1], rtol=1e-13, scale=s, msg="y of an internal call")
            c.count("internal_calls")
        mon.after["polar2cart"] = after_p2c
        cen = [float(v) for v in rng.uniform(-3, 3, 2)]
        c.desc(center=cen)
        try:
            b = mp.montecarlo.Box2Ring()
            b.setup_box(-5., 5., 4, -4., 6., 5)
            b.setup_polar_lin(0., 4., 2, 3, center=cen, phi_shift=float(rng.uniform(0, 6)))
            b.get_weights(mc_size=50, verbose=False)
            d = mp.densegrid.Box2Ring()
            d.setup_box(-5., 5., 4, -4., 6., 5)
            d.setup_polar(0., 4., 2, 3, center=cen)
            d.remap(rng.normal(size=(5, 4)))
            mp.pixel.get_arc(2., center=cen)
            mp.pixel.get_disc(center=cen)
        finally:
            mon.remove()
        c.ok(True, "ran")

    ck.section("arrays", arrays, 1600, 900000)
    ck.section("scalars", scalars, 300, 90000)
    ck.section("opposite", opposite, 800, 450000)
    ck.section("pipeline", pipeline, 16, 3000)
