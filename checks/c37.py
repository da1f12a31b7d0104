"""Plot helpers draw the right lines."""
import numpy as np

from checks import c27
from vlib import build, gen, maps, ref

PI = np.pi
TWOPI = 2 * PI


def figure(plt, rng):
    """A figure with two axes, one of them current; the one to draw on, the other, and the argument to pass."""
    plt.close("all")
    fig, ax = plt.subplots(1, 2)
    k = int(rng.integers(0, 2))
    if rng.random() < .6:
        plt.sca(ax[1 - k])                          # given axes differ from the current ones
        return ax[k], ax[1 - k], dict(ax=ax[k])
    plt.sca(ax[k])
    return ax[k], ax[1 - k], ({} if rng.random() < .5 else dict(ax=None))


def lines(ax):
    return [np.array([np.asarray(v, float) for v in ln.get_data()]) for ln in ax.get_lines()]


def artists(ax):
    return len(ax.get_lines()) + len(ax.images) + len(ax.collections) + len(ax.patches) + len(ax.texts)


def outline(c, xy, x0, x1, y0, y1, tol):
    """The polyline is exactly the closed outline of the rectangle."""
    x, y = xy
    c.ok(np.all(np.isfinite(xy)), "the outline has no gap")
    side = np.array([np.abs(x - x0), np.abs(x - x1), np.abs(y - y0), np.abs(y - y1)]) <= tol
    inside = (x >= x0 - tol) & (x <= x1 + tol) & (y >= y0 - tol) & (y <= y1 + tol)
    c.ok(np.all(side.any(axis=0) & inside), "every point lies on the outline", x=x, y=y)
    c.ok(np.all((side[:, 1:] & side[:, :-1]).any(axis=0)), "every stroke follows a side")
    c.ok(np.hypot(x[0] - x[-1], y[0] - y[-1]) <= 2 * tol, "the outline is closed", first=xy[:, 0], last=xy[:, -1])
    length = np.sum(np.hypot(np.diff(x), np.diff(y)))
    c.close(length, 2 * (x1 - x0) + 2 * (y1 - y0), 1e-9, 20 * tol, "length of the outline")
    for px in (x0, x1):
        for py in (y0, y1):
            c.ok(np.min(np.hypot(x - px, y - py)) <= 2 * tol, "the outline passes every corner", corner=[px, py])


def circle(c, xy, radius, center, length):
    x, y = xy[0] - center[0], xy[1] - center[1]
    tol = 1e-12 * (radius + abs(center[0]) + abs(center[1]))
    c.ok(len(x) == length, "number of points", got=len(x), want=length)
    c.close(np.hypot(x, y), np.full(len(x), radius), 1e-11, tol, "distance of the points from the centre")
    c.ok(np.hypot(x[0] - x[-1], y[0] - y[-1]) <= 1e-11 * radius + 4 * tol, "the circle is closed")
    if radius > 1e4 * tol:
        a = np.sort(np.mod(np.arctan2(y, x), TWOPI))
        gap = np.max(np.diff(np.concatenate([a, [a[0] + TWOPI]])))
        c.ok(gap <= TWOPI / (length - 1) * 1.001 + 1e-6, "the circle is drawn all around", gap=gap, length=length)


def lift(o, M, R, xy):
    """Directions on the sphere of drawn points (not-a-number where nothing is drawn)."""
    x, y = xy / R
    z = np.sqrt(np.clip(1 - x * x - y * y, 0, None))
    return M @ np.array([x, y, z])


def setup(ck):
    mp, root = build.load()
    build.plots()
    import matplotlib.pyplot as plt
    from magpie.plots import ortho, shapes
    ck.rule = ("Random boxes, circles, numbers of points and line styles on the current or on given axes of a two-axes figure (headless Matplotlib); "
               "random orthographic maps (poles, seam, generic centres, radii, unequal sides) with longitude/latitude boxes, images, grids and views. "
               "The monitor reads the artists found on both axes.")
    ck.need("boxes", 400)
    ck.need("circles", 400)
    ck.need("given_axes", 800)
    ck.need("current_axes", 400)
    ck.need("patches", 250)
    ck.need("patches_lonlat", 80)
    ck.need("patch_points_shown", 20000)
    ck.need("patch_points_hidden", 5000)
    ck.need("images", 250)
    ck.need("meridians", 2000)
    ck.need("parallels", 1000)
    ck.need("views_inside", 80)
    ck.need("views_outside", 80)
    ck.assumptions = ["Points within 1e-6 of the limb may be drawn or left out.", "Outlines are requested with at least two divisions per side."]

    STYLE = [dict(), dict(color="r"), dict(color="#00ff00", linewidth=3.), dict(linestyle=":", alpha=.5), dict(zorder=7)]

    def styled(c, ln, st):
        for k, v in st.items():
            got = getattr(ln, "get_" + k)()
            c.ok(got == v, "line option %s is passed on" % k, got=got, want=v)

    def target(c, ax, other, arg, n):
        c.ok(artists(other) == 0, "nothing is drawn on the other axes")
        c.ok(len(ax.get_lines()) == n, "lines drawn", got=len(ax.get_lines()), want=n)
        c.count("given_axes" if arg.get("ax") is not None else "current_axes")

    def flat(c):
        rng = c.rng
        ax, other, arg = figure(plt, rng)
        st = STYLE[rng.integers(0, len(STYLE))]
        n = int(rng.integers(1, 3))
        S = float(gen.loguniform(rng, 1e-3, 1e3))
        for k in range(n):
            if rng.random() < .5:
                x0, y0 = S * rng.normal(size=2) * rng.choice([0., 1., 5.])
                b = (float(x0), float(x0 + S * rng.uniform(.1, 3)), float(y0), float(y0 + S * rng.uniform(.1, 3)))
                kw = dict(st)
                if rng.random() < .5:
                    kw["divisions"] = int(rng.integers(2, 150)) if rng.random() < .85 else int(rng.integers(150, 4000))
                c.desc(**{"box%d" % k: b, "options%d" % k: kw})
                shapes.plot_box(*b, **arg, **kw)
                target(c, ax, other, arg, k + 1)
                outline(c, lines(ax)[k], *b, 1e-12 * (np.abs(b).max() + S))
                c.count("boxes")
            else:
                kw, p = dict(st), {}
                if rng.random() < .8:
                    p["radius"] = float(S * rng.uniform(.1, 3))
                if rng.random() < .7:
                    p["center"] = [float(v) for v in S * rng.normal(size=2)]
                if rng.random() < .6:
                    p["length"] = int(rng.choice([3, 10, 100, 999, 4000]))
                c.desc(**{"circle%d" % k: p, "options%d" % k: kw})
                shapes.plot_circle(**p, **arg, **kw)
                target(c, ax, other, arg, k + 1)
                circle(c, lines(ax)[k], p.get("radius", 1.), p.get("center", [0., 0.]), p.get("length", 1000))
                c.count("circles")
            styled(c, ax.get_lines()[k], st)

    def ortho_map(c, rng):
        d = c27.request(rng, "ortho")
        o = mp.densegrid.Heal2Ortho()
        c27.prepare(o, "ortho", int(rng.choice([1, 4, 16])), d)
        c.desc(grid=d)
        return d, o, ortho.PlotOrtho(o), maps.ortho_matrix(d), d.get("radius", 1.)

    def patch(c):
        rng = c.rng
        d, o, p, M, R = ortho_map(c, rng)
        ax, other, arg = figure(plt, rng)
        st = STYLE[rng.integers(0, len(STYLE))]
        n = int(rng.integers(1, 3))
        for k in range(n):
            p0, p1 = np.sort(rng.uniform(0, TWOPI, 2))
            t0, t1 = np.sort(rng.uniform(0, PI, 2))
            if rng.random() < .3:
                p0, p1 = [(0., p1), (p0, TWOPI), (0., TWOPI)][rng.integers(0, 3)]
            if rng.random() < .3:
                t0, t1 = [(0., t1), (t0, PI), (0., PI)][rng.integers(0, 3)]
            lonlat = bool(rng.random() < .4)
            div = int(rng.integers(2, 60)) if rng.random() < .7 else 100
            kw = dict(st)
            if lonlat or rng.random() < .3:
                kw["lonlat"] = lonlat
            if div != 100:
                kw["divisions"] = div
            a, b = (PI / 2 - t1, PI / 2 - t0) if lonlat else (t0, t1)
            q = [float(v) for v in (p0, p1, a, b)]
            c.desc(**{"patch%d" % k: q, "options%d" % k: kw})
            p.plot_polar_box(*q, **arg, **kw)
            target(c, ax, other, arg, k + 1)
            got = lines(ax)[k]
            u, v = np.linspace(p0, p1, div), np.linspace(t0, t1, div)
            one = np.ones(div)
            ph = np.concatenate([u, p1 * one, u[::-1], p0 * one])
            th = np.concatenate([t0 * one, v, t1 * one, v[::-1]])
            P = M.T @ ref.unit(ph, th).T
            c.ok(got.shape == (2, 4 * div), "points of the outline", got=got.shape, want=(2, 4 * div))
            shown, hidden = P[2] > 1e-6, P[2] < -1e-6
            c.close(got[:, shown], R * P[:2, shown], 0, 2e-7 * R, "outline of the box on the map")
            c.ok(np.all(np.isnan(got[:, hidden])), "the outline is left out on the far side")
            # the same points through the map's own transform
            x, y = o.transform(ph, th)
            c.close(got[:, shown], np.array([x, y])[:, shown], 0, 2e-7 * R, "the map's own transform")
            styled(c, ax.get_lines()[k], st)
            c.count("patches")
            c.count("patches_lonlat", lonlat)
            c.count("patch_points_shown", int(shown.sum()))
            c.count("patch_points_hidden", int(hidden.sum()))

    def image(c):
        rng = c.rng
        d, o, p, M, R = ortho_map(c, rng)
        ax, other, arg = figure(plt, rng)
        ny, nx = np.shape(o.x2d)
        f = rng.normal(size=(ny, nx))
        f[rng.random(f.shape) < .1] = np.nan
        cmap = [None, "inferno", plt.cm.gray][rng.integers(0, 3)]
        kw = {} if cmap is None else dict(cmap=cmap)
        if rng.random() < .4:
            kw.update(vmin=-.5, vmax=2.)
        back = [None, True, False][rng.integers(0, 3)]
        if back is not None:
            kw["returncb"] = back
        c.desc(options={k: str(v) for k, v in kw.items()})
        g = f.copy()
        out = p.imshow(f, **arg, **kw)
        c.same(f, g, "the map is not changed")
        c.ok(artists(other) == 0 and len(ax.images) == 1, "one image on the axes asked for")
        im = ax.images[0]
        c.ok((out is im) if back else (out is None), "the image is returned on request only", got=str(out))
        e = [float(v) for v in im.get_extent()]
        lx, ly = d["x_length"], d.get("y_length", d["x_length"])
        c.close(e, [-lx / 2, lx / 2, -ly / 2, ly / 2], 1e-12, 0, "the image covers the map's extent")
        A = np.ma.filled(np.ma.masked_invalid(np.asarray(im.get_array(), float)), np.nan) if not np.ma.isMaskedArray(im.get_array()) else im.get_array().filled(np.nan)
        c.same(A[::-1] if im.origin == "upper" else A, f, "pixel values from the bottom up")
        if "vmin" in kw:
            c.close(im.get_clim(), [-.5, 2.], 0, 0, "image options are passed on")
        if cmap is not None:
            c.ok(im.get_cmap().name == (cmap if isinstance(cmap, str) else cmap.name), "colour map", got=im.get_cmap().name)
        c.count("images")

    def grid(c):
        rng = c.rng
        d, o, p, M, R = ortho_map(c, rng)
        ax, other, arg = figure(plt, rng)
        dt = float(rng.choice([7.5, 10., 15., 20., 22.5, 30., 45., 60., 90.]))
        if rng.random() < .08:
            dt = float(rng.choice([1., 2., 3., 5.]))
        dp = None if rng.random() < .5 else float(rng.choice([3., 7.5, 10., 18., 30., 36., 60., 90., 120.]))
        kw = dict(dtheta=dt)
        if dt == 15. and rng.random() < .5:
            kw = {}
        if dp is not None:
            kw["dphi"] = dp
        st = STYLE[rng.integers(0, len(STYLE))]
        c.desc(spacing=kw, style=st)
        p.plot_grid(**arg, **kw, **st)
        npar, nmer = int(round(180 / dt)), int(round(360 / (dp or dt)))
        # the parallel through the pole is a point: drawing it is optional
        c.ok(artists(other) == 0, "nothing is drawn on the other axes")
        n = len(ax.get_lines())
        c.ok(n in (nmer + npar, nmer + npar - 1, nmer + npar + 1), "number of grid lines", got=n, want=nmer + npar)
        mer, par, either = {}, {}, set()
        dense_t, dense_p = np.linspace(0, PI, 2001), np.linspace(0, TWOPI, 4001)
        for k, xy in enumerate(lines(ax)):
            on = np.isfinite(xy).all(axis=0)
            c.ok(np.array_equal(np.isfinite(xy[0]), np.isfinite(xy[1])), "points have both coordinates or none")
            styled(c, ax.get_lines()[k], st)
            v = lift(o, M, R, xy[:, on])
            if v.shape[1] < 2:
                continue                            # nothing to see: at most one point
            c.ok(np.all(np.hypot(*xy[:, on]) <= R * (1 + 1e-9)), "grid lines stay on the sphere")
            # strokes join neighbouring points only
            both = on[1:] & on[:-1]
            full = np.full((3, xy.shape[1]), np.nan)
            full[:, on] = v
            step = np.linalg.norm(np.diff(full, axis=1), axis=0)[both]
            c.ok(not np.any(step > .15), "strokes are short", worst=step.max() if step.size else 0)
            z = v[2]
            tol = np.where(np.hypot(*xy[:, on]) / R < .9999, 2e-5, 1e-3)      # lifting a point near the limb loses digits
            best = int(round(float(np.arccos(np.clip(np.median(z), -1, 1))) / np.radians(dt)))
            parallel = bool(np.all(np.abs(z - np.cos(best * np.radians(dt))) < tol))
            a = np.arctan2(v[1], v[0])
            s = np.hypot(v[0], v[1])
            j = np.argmax(s)
            m = int(round(np.mod(a[j], TWOPI) / (TWOPI / nmer))) % nmer
            w = m * TWOPI / nmer
            meridian = bool(np.all(np.abs(-v[0] * np.sin(w) + v[1] * np.cos(w)) < tol) and np.all(v[0] * np.cos(w) + v[1] * np.sin(w) > -tol))
            c.ok(parallel or meridian, "every line is a meridian or a parallel of the grid", line=k, points=xy)
            if parallel and meridian:                # a few points at a pole on the limb
                either.update([("parallel", best), ("meridian", m)])
            elif parallel:
                par.setdefault(best, []).append((v, xy, both, full))
            else:
                mer.setdefault(m, []).append((v, xy, both, full))
        for name, found, total, dense, curve in (
                ("meridian", mer, nmer, dense_t, lambda i: ref.unit(np.full(2001, i * TWOPI / nmer), dense_t)),
                ("parallel", par, npar, dense_p, lambda i: ref.unit(dense_p, np.full(4001, i * np.radians(dt))))):
            for i in range(total):
                if name == "parallel" and i == 0:
                    continue
                D = curve(i).T
                z = (M.T @ D)[2]
                need = D[:, z > 1e-3]
                c.ok(len(found.get(i, [])) <= 1, "no %s is drawn twice" % name, index=i)
                if need.shape[1] < 2 or (z > 1e-3).sum() * (dense[1] - dense[0]) < .3:
                    continue
                c.ok(i in found or (name, i) in either, "every visible %s is drawn" % name, index=i)
                if i not in found:
                    continue
                v = found[i][0][0]
                near = np.max(np.min(np.linalg.norm(need[:, ::7, None] - v[:, None, :], axis=0), axis=1))
                c.ok(near < .08, "the %s is drawn along its visible part" % name, index=i, gap=near)
                # away from the limb, strokes leave no gap
                deep = D[:, z > .35][:, ::9]
                k = found[i][0][2]
                if deep.shape[1] and k.any():
                    full = found[i][0][3]
                    t = np.linspace(0, 1, 25)
                    fine = (full[:, :-1][:, k][:, :, None] * (1 - t) + full[:, 1:][:, k][:, :, None] * t).reshape(3, -1)
                    near = np.max(np.min(np.linalg.norm(deep[:, :, None] - fine[:, None, :], axis=0), axis=1))
                    c.ok(near < .012, "the strokes of the %s leave no gap" % name, index=i, gap=near)
                    c.count("strokes_judged")
                c.count(name + "s")

    def view(c):
        rng = c.rng
        d, o, p, M, R = ortho_map(c, rng)
        ax, other, arg = figure(plt, rng)
        kw = {}
        inside = bool(rng.random() < .5)
        if not inside or rng.random() < .5:
            kw["insphere"] = inside
        edge = bool(rng.random() < .6)
        if not edge or rng.random() < .5:
            kw["outeredge"] = edge
        if rng.random() < .4:
            kw["edgelength"] = int(rng.choice([30, 200, 2000]))
        if rng.random() < .3:
            kw["edgecenter"] = [float(v) for v in rng.normal(size=2) * R]
        if rng.random() < .3:
            kw["edgecolor"] = "r"
        if rng.random() < .3:
            kw["edgelinewidth"] = 2.5
        if rng.random() < .3:
            kw["zorder"] = 9
        if rng.random() < .3:
            kw["alpha"] = .5
        if rng.random() < .3:
            kw["linestyle"] = ":"
        c.desc(options=kw)
        if rng.random() < .5:
            ax.set_xlim(-9, 7), ax.set_ylim(3, -2)
        before = other.get_xlim(), other.get_ylim()
        p.finalize(**arg, **kw)
        c.ok(artists(other) == 0 and (other.get_xlim(), other.get_ylim()) == before and other.axison, "the other axes are left alone")
        lx, ly = d["x_length"] / 2, d.get("y_length", d["x_length"]) / 2
        c.close(ax.get_xlim(), [lx, -lx] if inside else [-lx, lx], 1e-12, 0, "horizontal view")
        c.close(ax.get_ylim(), [-ly, ly], 1e-12, 0, "vertical view")
        c.ok(not ax.axison, "axes are switched off")
        c.ok(len(ax.get_lines()) == int(edge), "outer edge is drawn on request", got=len(ax.get_lines()))
        if edge:
            circle(c, lines(ax)[0], R, kw.get("edgecenter", [0., 0.]), kw.get("edgelength", 1000))
            ln = ax.get_lines()[0]
            c.ok(ln.get_color() == kw.get("edgecolor", "k") and ln.get_linewidth() == kw.get("edgelinewidth", 10), "style of the outer edge")
            styled(c, ln, {k: kw[k] for k in ("zorder", "alpha", "linestyle") if k in kw})
        c.count("views_inside" if inside else "views_outside")

    ck.section("shapes", flat, 1000, 30000)
    ck.section("patches", patch, 300, 10000)
    ck.section("images", image, 300, 6000)
    ck.section("grid", grid, 240, 6000)
    ck.section("view", view, 240, 6000)
