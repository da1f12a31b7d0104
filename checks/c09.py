"""Outlines of rectangles, arcs, disc segments and boxes."""
import numpy as np

from vlib import build, gen, ref

PI = np.pi


def setup(ck):
    mp, root = build.load()
    px = mp.pixel
    ck.rule = "Random rectangles, arcs, disc segments and boxes, step counts from the smallest useful to hundreds; viewpoints around and near boxes."
    ck.need("squares", 200)
    ck.need("arcs", 200)
    ck.need("discs", 200)
    ck.need("boxes", 200)
    ck.need("nearest_boxes", 600)
    ck.need("hidden_corners", 300)
    ck.assumptions = ["Boxes seen from a viewpoint: cases where the line of sight to a corner grazes the box within 2 % of its length are left out, the code samples that line at 100 points."]

    def want_square(x0, x1, y0, y1, steps):
        k = steps // 4
        s = np.linspace(0., 1., k) if k > 1 else np.zeros(1)
        o = np.ones(k)
        x = np.concatenate([x0 + s * (x1 - x0), x1 * o, x1 + s * (x0 - x1), x0 * o])
        y = np.concatenate([y0 * o, y0 + s * (y1 - y0), y1 * o, y1 + s * (y0 - y1)])
        return x, y

    def rect(rng):
        s = float(gen.loguniform(rng, 1e-9, 1e9)) if rng.random() < .2 else 1.
        a = np.sort(rng.normal(size=2) * gen.loguniform(rng, .01, 100)) * s
        b = np.sort(rng.normal(size=2) * gen.loguniform(rng, .01, 100)) * s
        if rng.random() < .1:
            a = a[::-1]
        if rng.random() < .1:
            b = b[::-1]
        return [float(v) for v in (*a, *b)]

    def square(c):
        rng = c.rng
        r = rect(rng)
        steps = int(4 * rng.integers(1, 30)) if rng.random() < .93 else 4 * int(gen.loguniform(rng, 30, 6000))
        kw = dict(steps=steps)
        if steps == 40:
            kw = {}
        c.desc(rect=r, **kw)
        x, y = px.get_square(*r, **kw)
        wx, wy = want_square(*r, steps)
        tol = 1e-14 * max(map(abs, r))
        c.close(x, wx, 0, tol, "x along the outline")
        c.close(y, wy, 0, tol, "y along the outline")
        if steps >= 8:
            c.close([x[-1], y[-1]], [x[0], y[0]], 0, 0, "closed")
            a = np.sum(x[:-1] * y[1:] - x[1:] * y[:-1]) / 2
            c.close(a, (r[1] - r[0]) * (r[3] - r[2]), 1e-9, 1e-12 * max(map(abs, r))**2, "anticlockwise (for increasing limits), enclosing the rectangle")
        x, y = px.get_square(*r)
        wx, wy = want_square(*r, 40)
        c.close(x, wx, 0, tol, "x, default number of points")
        c.close(y, wy, 0, tol, "y, default number of points")
        c.count("squares")

    def arcdisc(c):
        rng = c.rng
        cen = [float(v) for v in rng.normal(size=2) * rng.choice([0., 1., 50.])]
        R = gen.scale(rng, .01, 100, 1e-9, 1e9)
        p = np.sort(rng.uniform(0, 2 * PI, 2))
        k = rng.integers(0, 4)
        if rng.random() < .15:          # several turns, negative angles, clockwise
            p = [p + [0., 2 * PI], p - 2 * PI, p[::-1], p * 5. - 7.][rng.integers(0, 4)]
        p0, p1 = (0., 2 * PI) if k == 0 else (float(p[0]), float(p[1]))
        steps = int(rng.integers(2, 60)) if rng.random() < .93 else int(gen.loguniform(rng, 60, 20000))
        kw = dict(steps=steps)
        if k:
            kw.update(phimin=p0, phimax=p1)
        if any(cen):
            kw["center"] = cen
        c.desc(radius=R, **kw)
        x, y = px.get_arc(R, **kw)
        ph = p0 + (p1 - p0) * np.arange(steps) / (steps - 1.)
        tol = 1e-14 * (R + max(map(abs, cen))) * 8 * max(1., abs(p0), abs(p1))
        c.close(x, cen[0] + R * np.cos(ph), 0, tol, "x along the arc")
        c.close(y, cen[1] + R * np.sin(ph), 0, tol, "y along the arc")
        c.count("arcs")
        x, y = px.get_arc(R)
        c.ok(len(x) == 10 == len(y), "default number of points of an arc")
        # disc segment
        r0 = float(rng.choice([0., R * rng.random()]))
        steps = int(4 * rng.integers(1, 25)) if rng.random() < .93 else 4 * int(gen.loguniform(rng, 30, 6000))
        kw = dict(rmin=r0, rmax=R, phimin=p0, phimax=p1, steps=steps)
        if any(cen):
            kw["center"] = cen
        c.desc(disc=kw)
        x, y = px.get_disc(**kw)
        r, q = want_square(r0, R, p0, p1, steps)
        c.close(x, cen[0] + r * np.cos(q), 0, tol, "x along the disc segment")
        c.close(y, cen[1] + r * np.sin(q), 0, tol, "y along the disc segment")
        c.count("discs")

    CORN = [(0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (1, 0, 0), (1, 0, 1), (1, 1, 0), (1, 1, 1)]
    EDGES = [(a, b) for i, a in enumerate(CORN) for b in CORN[i + 1:] if sum(u != v for u, v in zip(a, b)) == 1]

    def judge_edges(c, out, lo, hi, steps, allowed):
        x, y, z = [np.asarray(v, float) for v in out]
        k = steps // 12
        n = len(allowed)
        if n == 0:
            c.ok(x.size == 0, "no edges expected", got=x.shape)
            return
        c.ok(x.shape == y.shape == z.shape == (n, k), "one row per edge, a twelfth of the points each", got=[x.shape, y.shape, z.shape], want=[n, k])
        P = np.stack([x, y, z], -1)
        left = {(tuple(a), tuple(b)) for a, b in allowed}
        span = hi - lo
        for row in P:
            a = tuple(int(v) for v in np.round((row[0] - lo) / span))
            b = tuple(int(v) for v in np.round((row[-1] - lo) / span))
            key = (a, b) if (a, b) in left else (b, a)
            c.ok(key in left, "an edge of the box that was asked for, once", edge=[row[0], row[-1]], left=sorted(left))
            left.discard(key)
            A, B = lo + span * np.array(a), lo + span * np.array(b)
            s = np.arange(k)[:, None] / (k - 1.)
            c.close(row, A + s * (B - A), 0, 1e-14 * (np.abs(lo).max() + np.abs(hi).max()) * 4, "equally spaced from corner to corner")
        c.ok(not left, "all edges present", missing=sorted(left))

    def box(c):
        rng = c.rng
        lo = rng.normal(size=3) * 5
        size = gen.loguniform(rng, .5, 5., 3)
        if rng.random() < .2:
            s = float(gen.loguniform(rng, 1e-9, 1e9))
            lo, size = lo * s, size * s
        hi = lo + size
        steps = int(12 * rng.integers(2, 20)) if rng.random() < .93 else 12 * int(gen.loguniform(rng, 20, 4000))
        c.desc(lo=lo, hi=hi, steps=steps)
        a = (lo[0], hi[0], lo[1], hi[1], lo[2], hi[2])
        judge_edges(c, px.get_box(*a, steps=steps), lo, hi, steps, EDGES)
        judge_edges(c, px.get_box(*a), lo, hi, 120, EDGES)
        c.count("boxes")

    def chord(cen, corner, lo, hi):
        """Fractions (enter, leave) of the segment from the viewpoint to the corner inside the open box."""
        d = corner - cen
        t0, t1 = 0., 1.
        for i in range(3):
            if d[i] == 0.:
                if not (lo[i] < cen[i] < hi[i]):
                    return 0.
                continue
            u, v = sorted([(lo[i] - cen[i]) / d[i], (hi[i] - cen[i]) / d[i]])
            t0, t1 = max(t0, u), min(t1, v)
        return max(0., t1 - t0)

    def nearest(c):
        rng = c.rng
        lo = rng.normal(size=3) * 3
        size = gen.loguniform(rng, .8, 3., 3)
        hi = lo + size
        mid = lo + size / 2
        for _ in range(50):
            d = rng.normal(size=3)
            k = rng.integers(0, 4)
            if k == 0:
                d[rng.integers(0, 3)] *= 0.05
            cen = mid + d / np.linalg.norm(d) * size.max() * rng.uniform(.3, 4.)
            if rng.random() < .15:
                cen = lo + size * rng.uniform(.1, .9, 3)
            corners = [lo + size * np.array(q) for q in CORN]
            ch = [chord(cen, q, lo, hi) for q in corners]
            # grazing lines of sight are undecided by a sampled test
            if all(v < 1e-12 or v > .02 for v in ch):
                break
        else:
            return
        if rng.random() < .2:           # the same scene in other units
            s = float(gen.loguniform(rng, 1e-9, 1e9))
            lo, size, hi, cen = lo * s, size * s, hi * s, cen * s
            corners = [lo + size * np.array(q) for q in CORN]
        if rng.random() < .2:
            lo, hi, cen = lo - cen, hi - cen, np.zeros(3)
            corners = [lo + size * np.array(q) for q in CORN]
        hidden = {q for q, v in zip(CORN, ch) if v > .02}
        allowed = [(a, b) for a, b in EDGES if a not in hidden and b not in hidden]
        steps = int(12 * rng.integers(2, 8)) if rng.random() < .95 else 12 * int(gen.loguniform(rng, 8, 600))
        c.desc(lo=lo, hi=hi, center=cen, hidden=sorted(hidden), steps=steps)
        kw = {} if not np.any(cen) else dict(center=[float(v) for v in cen])
        out = px.get_box(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], steps=steps, return_nearest=True, **kw)
        judge_edges(c, out, lo, hi, steps, allowed)
        c.count("nearest_boxes")
        c.count("hidden_corners", len(hidden))

    ck.section("square", square, 250, 100000)
    ck.section("arcdisc", arcdisc, 250, 100000)
    ck.section("box", box, 250, 75000)
    ck.section("nearest", nearest, 1200, 500000)
