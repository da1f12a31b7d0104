"""Perspective view and its inverse."""
import numpy as np

from vlib import build, gen, ref

PI = np.pi


def request(rng, vertical=False):
    s = gen.scale(rng, .1, 100., 1e-6, 1e6)
    cam = rng.normal(size=3) * s * rng.choice([0., 1., 5.])
    k = rng.integers(0, 5)
    if vertical:
        u = np.array([0., 0., rng.choice([-1., 1.])])
    elif k == 0:
        u = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0]][rng.integers(0, 4)], float)
    elif k == 1:
        a = gen.angle(rng, lo=1e-8)
        u = np.array([np.cos(a), np.sin(a), 0.])
    elif k == 2:
        u = ref.unit(rng.uniform(0, 2 * PI), rng.choice([.02, .3, PI - .3, PI - .02]))
    elif k == 3:
        z = float(gen.loguniform(rng, 1e-5, .1) * rng.choice([-1., 1.]))
        a = gen.angle(rng, lo=1e-5)
        u = np.array([np.cos(a) * np.sqrt(1 - z * z), np.sin(a) * np.sqrt(1 - z * z), z])
    else:
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        if abs(u[2]) < 1e-5:
            u = np.array([u[0], u[1], 0.]) / np.hypot(u[0], u[1])
    point = cam + u * s * rng.uniform(.1, 10)
    if not vertical and rng.random() < .08:
        # targets made of the camera's own numbers
        for p in (-cam, cam[::-1], cam * [1, -1, 1], cam * [-1, 1, 1], cam[[1, 0, 2]], cam * 2, 0 * cam):
            w = p - cam
            L = np.linalg.norm(w)
            if L > .1 * s and np.hypot(w[0], w[1]) > .02 * L and (w[2] == 0 or abs(w[2]) > 1e-5 * L) and rng.random() < .5:
                point, u = p.copy(), w / L
                break
    d = dict(camera=cam.tolist(), point=point.tolist(), display=gen.scale(rng, .01, 100., 1e-8, 1e8))
    if rng.random() < .7:
        d["spin"] = gen.angle(rng)
    return d, u, s


def setup(ck):
    mp, root = build.load()
    cls = mp.densegrid.PointOfView
    ck.rule = "Random and axis-aligned cameras, targets, display distances and spins; points in front of the camera (including the target and points on the view axis), scalars and arrays; distances also behind it."
    ck.need("points", 15000)
    ck.need("round_trips", 15000)
    ck.need("targets", 300)
    ck.need("scalars", 100)
    ck.need("spun", 200)
    ck.need("level_points", 500)
    ck.need("vertical", 50)
    ck.assumptions = ["Points in front of the camera means a depth of at least 0.01 % of the distance; directions within 1e-5 of horizontal are made horizontal."]

    def run(c, vertical):
        rng = c.rng
        d, u, s = request(rng, vertical)
        cam, D, spin = np.array(d["camera"]), d["display"], d.get("spin", 0.)
        c.desc(**d)
        o = cls()
        kw = {"spin": spin} if "spin" in d else {}
        conv = [list, tuple, np.array][rng.integers(0, 3)]
        o.setup(conv(d["camera"]), conv(d["point"]), D, **kw)
        n = int(rng.choice([1, 3, 60]))
        fwd = (np.array(d["point"]) - cam)
        fwd = fwd / np.linalg.norm(fwd)
        phi, theta = ref.angles(fwd)
        ph = np.array([-np.sin(phi), np.cos(phi), 0.])
        th = np.array([np.cos(theta) * np.cos(phi), np.cos(theta) * np.sin(phi), -np.sin(theta)])
        r = gen.loguniform(rng, .05, 50., n) * s
        depth = rng.uniform(.05, 1., n)
        depth[rng.random(n) < .1] = 1.
        graze = rng.random(n) < .1
        depth[graze] = gen.loguniform(rng, 1e-4, .05, int(graze.sum()))
        a = rng.uniform(0, 2 * PI, n)
        side = np.sqrt(1 - depth**2)
        V = r[:, None] * (depth[:, None] * fwd + (side * np.cos(a))[:, None] * ph - (side * np.sin(a))[:, None] * th)
        P = cam + V
        # rounding of the points themselves, relative to the distance
        eps = 2e-7 + 1e-14 * (np.abs(cam).max() + np.abs(d["point"]).max()) / r + 1e-15 * np.abs(cam).max() / np.linalg.norm(np.array(d["point"]) - cam)
        bx, by, dist = o.transform(P[:, 0], P[:, 1], P[:, 2])
        for q in (bx, by, dist):
            c.ok(np.shape(q) == (n,), "one view coordinate per point", got=np.shape(q))
        c.close(dist, r, 0, eps * r, "distance from the camera")
        tol = 3 * eps * D / depth**2 + 1e-300
        rho = D * side / depth
        c.close(np.hypot(bx, by), rho, 0, tol, "sideways offset scaled by display over depth")
        if not vertical:
            A = a + spin
            c.close(bx, rho * np.cos(A), 0, tol, "horizontal view coordinate")
            c.close(by, rho * np.sin(A), 0, tol, "vertical view coordinate")
        else:
            # any reference meridian, but one and the same rigid turn for all points
            m = (side > .05)
            if m.sum() > 1:
                turn = np.mod(np.arctan2(by, bx) - a, 2 * PI)[m]
                c.close(np.mod(turn - turn[0] + PI, 2 * PI) - PI, np.zeros(m.sum()), 0, 1e-4, "one rigid turn about the view axis")
            c.count("vertical")
        x, y, z = o.reverse(np.asarray(bx), np.asarray(by), np.asarray(dist))
        for g, w in zip((x, y, z), P.T):
            c.close(g, w, 0, 20 * eps * r / depth, "the inverse restores the point")
        c.count("points", n)
        c.count("round_trips", n)
        c.count("spun", bool(spin))
        # the target itself
        t = d["point"]
        tx, ty, td = o.transform(float(t[0]), float(t[1]), float(t[2]))
        L = float(np.linalg.norm(np.array(t) - cam))
        c.close(td, L, 1e-7, 0, "distance of the target", shape=False)
        c.ok(abs(tx) <= 1e-6 * D and abs(ty) <= 1e-6 * D, "the target lies on the view axis", got=[float(tx), float(ty)])
        c.count("targets")
        # scalars
        k = int(rng.integers(0, n))
        sx, sy, sd = o.transform(float(P[k, 0]), float(P[k, 1]), float(P[k, 2]))
        for q in (sx, sy, sd):
            c.ok(np.ndim(q) == 0, "scalars give scalars", got=str(type(q)))
        c.close([sx, sy], [bx[k], by[k]], 1e-6, 2 * tol[k], "scalar call")
        rx = o.reverse(float(sx), float(sy), float(sd))
        c.close(np.array(rx, float), P[k], 0, 20 * eps[k] * r[k] / depth[k], "the inverse restores a single point")
        c.count("scalars")
        # behind the camera the distance is still the true one
        _, _, db = o.transform(*(cam[:, None] - V.T))
        c.close(db, r, 0, eps * r, "distance behind the camera")
        if abs(u[2]) < 1e-12:
            # points exactly as high as a level camera
            k = int(rng.integers(2, 9))
            t = rng.uniform(-1.3, 1.3, k)
            q = gen.loguniform(rng, .05, 50., k) * s
            W = q[:, None] * (np.cos(t)[:, None] * fwd + np.sin(t)[:, None] * ph)
            W[:, 2] = 0.
            lx, ly, ld = o.transform(cam[0] + W[:, 0], cam[1] + W[:, 1], np.full(k, cam[2]))
            e2 = 2e-7 + 1e-14 * (np.abs(cam).max() + np.abs(d["point"]).max()) / q + 1e-15 * np.abs(cam).max() / np.linalg.norm(np.array(d["point"]) - cam)
            c.close(ld, q, 0, e2 * q, "distance of points as high as the camera")
            tol2 = 3 * e2 * D / np.cos(t)**2 + 1e-300
            c.close(lx, D * np.tan(t) * np.cos(spin), 0, tol2, "horizontal view coordinate of points as high as the camera")
            c.close(ly, D * np.tan(t) * np.sin(spin), 0, tol2, "vertical view coordinate of points as high as the camera")
            c.count("level_points", k)
        # the settings are published
        c.close(o.display, D, 0, 0, "display distance")

    ck.section("general", lambda c: run(c, False), 900, 320000)
    ck.section("vertical", lambda c: run(c, True), 150, 40000)
