"""Map labels name the coordinate at their position."""
import re

import numpy as np

from checks import c27
from checks.c37 import artists, figure
from vlib import build, gen, maps, ref

PI = np.pi
TWOPI = 2 * PI


def number(text):
    m = re.findall(r"[-\u2212]?\d+(?:\.\d+)?", text)
    return (float(m[0].replace("\u2212", "-")), m[0]) if len(m) == 1 else (None, None)


def setup(ck):
    mp, root = build.load()
    build.plots()
    import matplotlib.pyplot as plt
    from magpie.plots import ortho
    ck.rule = ("Random orthographic maps (poles, seam, generic centres, radii, unequal sides), label spacings, decimals, conventions, zero points and shifts; "
               "labels on the sphere and ticks along the map's edges are read back from the axes and compared with the direction they sit on.")
    ck.need("texts", 3000)
    ck.need("texts_decimals", 500)
    ck.need("x_ticks", 1500)
    ck.need("y_ticks", 1500)
    ck.need("x_seam", 30)
    ck.need("crossings_present", 2500)
    ck.assumptions = ["Edge ticks are judged for maps that lie on the sphere, within one interpolation step (documented as interpaxis); crossings within two steps of a corner or of a turning point may be left out.",
                      "Edges along which longitude turns twice, or which pass within a step of a pole, are not judged.", "Ticks along the edge may be given in latitude or, unless longitude/latitude was asked for, in polar angle."]

    def ortho_map(c, rng, inner):
        d = c27.request(rng, "ortho")
        if inner:
            R = d.get("radius", 1.)
            lx, ly = d["x_length"], d.get("y_length", d["x_length"])
            s = R * float(rng.uniform(.15, .98)) / np.hypot(lx / 2, ly / 2)
            d["x_length"] = lx * s
            if "y_length" in d:
                d["y_length"] = ly * s
            if inner == "small":
                z = float(gen.loguniform(rng, .01, .2))
                d["x_length"] *= z
                if "y_length" in d:
                    d["y_length"] *= z
        o = mp.densegrid.Heal2Ortho()
        c27.prepare(o, "ortho", int(rng.choice([1, 4, 16])), d)
        c.desc(grid=d)
        return d, o, ortho.PlotOrtho(o), maps.ortho_matrix(d), d.get("radius", 1.)

    def spacing(rng, c, small=False):
        kw = {}
        if small:
            kw = dict(dtheta=float(rng.choice([.25, .5, .75, 1., 1.25, 2., 3.])), dphi=float(rng.choice([.5, 1., 1.5, 2., 4., 5.])))
            return kw, kw["dtheta"], kw["dphi"]
        if rng.random() < .8:
            kw["dtheta"] = float(rng.choice([3.75, 5., 5.625, 7.5, 10., 11.25, 15., 20., 22.5, 30., 45.]))
        if rng.random() < .5:
            kw["dphi"] = float(rng.choice([5., 5.625, 7.5, 10., 11.25, 12., 20., 30., 45., 60., 90.]))
        dt = kw.get("dtheta", 15.)
        return kw, dt, kw.get("dphi", dt)

    def sphere(c):
        rng = c.rng
        d, o, p, M, R = ortho_map(c, rng, False)
        ax, other, arg = figure(plt, rng)
        kw, dt, dp = spacing(rng, c)
        dec = 0
        if rng.random() < .5:
            dec = kw["decimals"] = int(rng.integers(0, 4)) if rng.random() < .8 else int(rng.integers(4, 8))
        ll = bool(rng.random() < .5)
        if ll:
            kw["lonlat"] = True
        zero, shift = [0., PI / 2], [0., 0.]
        if rng.random() < .6:
            zero = kw["zeropoint"] = [float(rng.uniform(0, TWOPI)), float(rng.uniform(.2, 3.))]
            if rng.random() < .3:
                zero[0] = float(gen.loguniform(rng, 1e-4, 6.) * rng.choice([-1., 1.]))
        if rng.random() < .4:
            shift = kw["shift"] = [float(v) for v in rng.uniform(-3, 3, 2)]
            if rng.random() < .3:
                shift[0] = float(rng.uniform(-700, 700))
        turn = bool(rng.random() < .3)
        if turn:
            kw["userotation"] = True
        look = {}
        if rng.random() < .4:
            look = dict(ha="center", va="bottom", color="r")
        c.desc(options=kw, look=look)
        p.plot_labels(onsphere=True, **arg, **kw, **look)
        c.ok(artists(other) == 0, "nothing is drawn on the other axes")
        lx, ly = d["x_length"] / 2, d.get("y_length", d["x_length"]) / 2
        want = []
        for v in np.arange(int(round(360 / dp))) * dp:
            want.append((v, np.radians(v - shift[0]), zero[1]))
        for v in np.arange(1, int(round(180 / dt))) * dt:
            want.append((90 - v if ll else v, zero[0], np.radians(v - shift[1])))
        texts = [(number(t.get_text()), np.array(t.get_position(), float), t) for t in ax.texts]
        for (v, s), pos, t in texts:
            c.ok(v is not None, "every label shows one number", got=t.get_text())
            c.ok(len(s.partition(".")[2]) == dec, "number of decimals", got=s, want=dec)
            c.ok((t.get_ha(), t.get_va()) == (look.get("ha", "left"), look.get("va", "top")), "alignment is passed on", got=[t.get_ha(), t.get_va()])
            if look:
                c.ok(t.get_color() == "r", "text options are passed on")
            if not turn:
                c.close(t.get_rotation(), 0., 0, 0, "labels are upright unless asked otherwise")
            c.count("texts")
            c.count("texts_decimals", dec > 0)
        used = np.zeros(len(texts), bool)
        for v, ph, th in want:
            P = M.T @ ref.unit(np.array([ph]), np.array([th])).T
            x, y, z = R * P[0, 0], R * P[1, 0], P[2, 0]
            if z < -1e-6:
                continue
            tol = 1e-6 * R
            sure = z > 1e-6 and abs(x) < lx - tol and abs(y) < ly - tol
            k = [i for i, ((n, s), pos, t) in enumerate(texts) if not used[i] and abs(n - v) <= .5 * 10.**-dec * 1.0001 + 1e-9 and np.hypot(pos[0] - x, pos[1] - y) < tol]
            c.ok(k or not sure, "every coordinate in view is labelled at its position", value=v, position=[x, y], texts=[t.get_text() for _, _, t in texts])
            if k:
                used[k[0]] = True
        c.ok(np.all(used), "every label names the coordinate at its position", wrong=[(texts[i][2].get_text(), texts[i][1]) for i in np.flatnonzero(~used)])

    def edge(c):
        rng = c.rng
        small = bool(rng.random() < .25)
        d, o, p, M, R = ortho_map(c, rng, "small" if small else "inner")
        ax, other, arg = figure(plt, rng)
        kw, dt, dp = spacing(rng, c, small)
        ll = bool(rng.random() < .6)
        if ll:
            kw["lonlat"] = True
        n = 100
        if rng.random() < .3:
            n = kw["interpaxis"] = int(rng.choice([60, 300]))
        if rng.random() < .2:
            kw["onsphere"] = False
        c.desc(options=kw)
        lx, ly = d["x_length"] / 2, d.get("y_length", d["x_length"]) / 2

        def sky(x, y):
            v = M @ np.array([x / R, y / R, np.sqrt(1 - (x * x + y * y) / R**2)])
            return np.arctan2(v[1], v[0]), np.arctan2(np.hypot(v[0], v[1]), v[2])
        m = 40
        k = np.arange((n - 1) * m + 1)
        xs, ys = -lx + 2 * lx * k / k[-1], -ly + 2 * ly * k / k[-1]
        lon = np.degrees(np.unwrap(sky(xs, np.full(len(xs), -ly))[0]))
        pol = np.degrees(sky(np.full(len(ys), lx), ys)[1])
        if np.abs(np.diff(lon[::m])).max() > 40 or np.abs(np.diff(lon)).max() > 20:
            c.ok(True, "the edge passes a pole")
            return
        turns = np.flatnonzero(np.diff(np.sign(np.diff(lon))) != 0)
        if len(turns) > 1:
            c.ok(True, "longitude turns twice")
            c.count("two_turns")
            return
        p.plot_labels(**arg, **kw)
        c.ok(artists(other) == 0, "nothing is drawn on the other axes")
        for name, at, labels, val, pos, step, mod in (
                ("x", ax.get_xticks(), ax.get_xticklabels(), lon, xs, dp, 360.),
                ("y", ax.get_yticks(), ax.get_yticklabels(), pol, ys, dt, None)):
            at = np.asarray(at, float)
            h = pos[m] - pos[0]
            c.ok(len(at) == len(labels), "one label per tick")
            slack = 1e-3 if step == int(step) else .501
            for x, t in zip(at, labels):
                v, s = number(t.get_text())
                c.ok(v is not None, "every tick shows one number", got=t.get_text())
                c.ok(pos[0] - 1e-9 * R <= x <= pos[-1] + 1e-9 * R, "ticks lie on the edge", got=x)
                w = val[np.abs(pos - x) <= h * 1.01]
                if mod:
                    good = any(w.min() - slack <= v + q * mod <= w.max() + slack for q in range(-3, 4))
                else:
                    good = w.min() - slack <= 90 - v <= w.max() + slack or (not ll and w.min() - slack <= v <= w.max() + slack)
                c.ok(good, "%s tick names the coordinate at its position" % name, tick=x, label=v, there=[w.min(), w.max()])
                c.count(name + "_ticks")
            if mod:
                c.count("x_seam", bool(len(at) and np.floor(lon.min() / 360) != np.floor(lon.max() / 360)))
            # crossings of the grid along the edge
            turn = np.flatnonzero(np.diff(np.sign(np.diff(val))) != 0)
            for g in np.arange(np.ceil(val.min() / step), np.floor(val.max() / step) + 1) * step:
                if not mod and (g < 1e-9 or g > 180 - 1e-9):
                    continue
                for i in np.flatnonzero((val[1:] > g) != (val[:-1] > g)):
                    if min(i, k[-1] - i) <= 2.1 * m or (len(turn) and np.min(np.abs(turn - i)) <= 2.1 * m):
                        continue
                    c.ok(len(at) and np.min(np.abs(at - pos[i])) <= 1.01 * h, "every grid line crossing the %s edge has a tick" % name, value=g, position=pos[i], ticks=at)
                    c.count("crossings_present")

    ck.section("sphere", sphere, 500, 20000)
    ck.section("edge", edge, 900, 20000)
