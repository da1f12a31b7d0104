"""Setting up a remap describes exactly the requested grid."""
import numpy as np

from vlib import build, gen, kinds, maps

TWOPI = 2 * np.pi


def setup(ck):
    mp, root = build.load()
    K = kinds.all_kinds(mp)
    ck.rule = ("Random ranges, bin counts (1 to 40) and options for the set-up methods of the nine remapping classes, on fresh objects and on objects set up before; "
               "the same request goes to both schemes.")
    for k in K:
        ck.need("setups_" + k.name, 200)
    ck.need("again", 400)
    ck.need("log", 100)
    ck.need("log_addzero", 40)
    ck.need("log_plain", 25)
    ck.need("both_schemes", 400)
    ck.need("layouts", 800)
    ck.assumptions = ["Logarithmic grids with the extra innermost bin have at least two bins.", "Centres are given as lists (documented)."]

    def seq(c, o, edges, mid, width, lo, hi, n, what):
        """Equal bins from lo to hi; returns edges and midpoints."""
        s = abs(lo) + abs(hi)
        e = np.asarray(getattr(o, edges), float)
        want = lo + (hi - lo) * np.arange(n + 1) / n
        c.close(e, want, 0, 1e-13 * s, "%s edges" % what)
        c.close([e[0], e[-1]], [lo, hi], 0, 1e-15 * s, "%s edges run from the minimum to the maximum" % what)
        c.close(getattr(o, mid), (want[1:] + want[:-1]) / 2, 0, 1e-13 * s, "%s midpoints" % what)
        if width:
            w = np.asarray(getattr(o, width), float)
            c.ok(w.shape in ((), (n,)), "%s width is one number or one per bin" % what, got=w.shape)
            c.close(np.broadcast_to(w, (n,)), np.full(n, (hi - lo) / n), 0, 1e-13 * s, "%s width" % what)
        return want, (want[1:] + want[:-1]) / 2

    def plane(c, o, names, X, Y, what):
        """Coordinate arrays with rows along Y and columns along X."""
        s = np.abs(X).max() + np.abs(Y).max()
        c.close(getattr(o, names[0]), np.broadcast_to(X[None], (len(Y), len(X))), 0, 1e-13 * s, "%s coordinate array" % what)
        c.close(getattr(o, names[1]), np.broadcast_to(Y[:, None], (len(Y), len(X))), 0, 1e-13 * s, "%s coordinate array" % what)
        c.count("layouts")

    def source(c, k, o, q):
        b = q["source"]
        if k.source == "heal":
            c.ok(o.nside == b["nside"], "published HEALPix resolution", got=o.nside)
            return
        m = {a: seq(c, o, a + "edges", a + "mid", "d" + a, b[a + "min"], b[a + "max"], b["num" + a], a)[1] for a in ("xy" if k.source == "box" else "xyz")}
        if k.source == "box":
            plane(c, o, ("x2d", "y2d"), m["x"], m["y"], "box")
        else:
            s = sum(np.abs(v).max() for v in m.values())
            shape = (b["numy"], b["numx"], b["numz"])
            for a, sl in (("x", (None, slice(None), None)), ("y", (slice(None), None, None)), ("z", (None, None, slice(None)))):
                c.close(getattr(o, a + "3d"), np.broadcast_to(m[a][sl], shape), 0, 1e-13 * s, "cube coordinate array " + a)
            c.count("layouts")

    def radial(c, o, d, form, addzero):
        lo, hi, n = d["rmin"], d["rmax"], d["numr"]
        if form != "log":
            return seq(c, o, "redges", "rmid", "dr", lo, hi, n, "radial")[1]
        e = np.asarray(o.redges, float)
        c.ok(e.shape == (n + 1,), "number of radial bins", got=e.shape, want=n + 1)
        zero = addzero is not False
        if zero:
            c.ok(e[0] == 0, "the innermost bin starts at zero", got=e[0])
            e = e[1:]
        m = len(e) - 1
        c.close(np.log(e), np.log(lo) + (np.log(hi) - np.log(lo)) * np.arange(m + 1) / m, 0, 1e-12 * (1 + abs(np.log(lo)) + abs(np.log(hi))), "radial edges are equal in logarithm")
        e = np.asarray(o.redges, float)
        c.close(o.rmid, (e[1:] + e[:-1]) / 2, 1e-13, 0, "radial midpoints")
        w = np.asarray(o.dr, float)
        c.close(w, e[1:] - e[:-1], 1e-12, 1e-13 * hi, "radial widths")
        c.count("log")
        c.count("log_addzero" if zero else "log_plain")
        return np.asarray(o.rmid, float)

    def target(c, k, o, q):
        d = q["target"]
        if k.target == "ring":
            r = radial(c, o, d, q["form"], q["addzero"])
            p = seq(c, o, "pedges", "pmid", "dp", d.get("pmin", 0.), d.get("pmax", TWOPI), d["nump"], "angular")[1]
            plane(c, o, ("r2d", "p2d"), r, p, "polar")
            c.close(o.phi_shift, d.get("phi_shift", 0.), 0, 0, "published rotation")
        elif k.target == "shell":
            radial(c, o, d, q["form"], q["addzero"])
            c.ok(o.nside == d["nside"], "published HEALPix resolution", got=o.nside)
        elif k.target == "cap":
            a = seq(c, o, "alpha_edges", "alpha_mid", "dalpha", d["alpha_min"], d["alpha_max"], d["num_alpha"], "cap radius")[1]
            b = seq(c, o, "beta_edges", "beta_mid", "dbeta", d.get("beta_min", 0.), d.get("beta_max", TWOPI), d["num_beta"], "cap angle")[1]
            plane(c, o, ("alpha2d", "beta2d"), a, b, "cap")
            c.close(o.beta_shift, d.get("beta_shift", 0.), 0, 0, "published rotation")
        else:
            lx, nx = d["x_length"], d["x_grid"]
            ly, ny = d.get("y_length", lx), d.get("y_grid", nx)
            if k.target == "angbox":
                lx, ly, nx, ny = maps.box_lengths(d)
            x = seq(c, o, "xedges", "xmid", "dx", -lx / 2, lx / 2, nx, "x")[1]
            y = seq(c, o, "yedges", "ymid", "dy", -ly / 2, ly / 2, ny, "y")[1]
            plane(c, o, ("x2d", "y2d"), x, y, "angular box")
            if k.target == "angbox":
                c.close(o.alpha, d.get("alpha", 0.), 0, 0, "published spin")
            else:
                R = d.get("radius", 1.)
                c.close(o.radius, R, 0, 0, "published radius")
                X, Y = np.meshgrid(x, y)
                h = 1 - (X**2 + Y**2) / R**2
                sure = np.abs(h) > 1e-9
                on = np.asarray(o.onsphere, float)
                c.ok(np.all((on == 1)[sure & (h > 0)]) and np.all(np.isnan(on)[sure & (h < 0)]), "pixels on the sphere are marked")
                z = np.where(h > 0, R * np.sqrt(np.clip(h, 0, None)), 0.)
                c.close(np.asarray(o.z2d, float)[sure], z[sure], 1e-6, 1e-9 * R, "height of the map pixels")
        n = {"ring": 2, "shell": 3}.get(k.target, 2)
        c.close(o.center, d.get("center", [0.] * n), 0, 0, "published centre")

    def grow(rng, q, k):
        """More bins than the remapping checks can afford."""
        b, d = q["source"], q["target"]
        for n in ("numx", "numy", "numz"):
            if n in b and rng.random() < .5:
                b[n] = int(rng.integers(1, 41))
        for n in ("numr", "nump", "num_alpha", "num_beta", "x_grid", "y_grid"):
            if n in d and d[n] is not None and rng.random() < .5:
                d[n] = int(rng.integers(1, 41)) if rng.random() < .9 else int(rng.integers(41, 300))
        if "numx" in b and rng.random() < .3:       # ranges that share some of their numbers and not others
            ax = [a for a in "xyz" if "num" + a in b]
            i, j = rng.permutation(len(ax))[:2]
            i, j = ax[i], ax[j]
            L = b[j + "max"] - b[j + "min"]
            if rng.random() < .7:
                b["num" + j] = b["num" + i]
            m = rng.integers(0, 3)
            if m == 0:
                b[j + "max"] = b[i + "max"]
                b[j + "min"] = b[j + "max"] - L
            elif m == 1:
                b[j + "min"] = b[i + "min"]
                b[j + "max"] = b[j + "min"] + L
            else:
                b[j + "min"], b[j + "max"] = -b[i + "max"], -b[i + "min"]
        if q["form"] == "log":
            d["numr"] = max(2, d["numr"])
            if rng.random() < .5:
                d["rmin"] = d["rmax"] * float(gen.loguniform(rng, 1e-8, .99))
        return q

    def run(c):
        rng = c.rng
        k = K[c.index % len(K)]
        q = grow(rng, k.request(rng), k)
        c.desc(kind=k.name, request=q)
        o = k.cls()
        if rng.random() < .4:
            p = k.request(rng, small=True)
            c.desc(before=p)
            k.prepare(p, 3, o=o, seed=1)
            c.count("again")
        k.setup_source(o, q)
        source(c, k, o, q)
        k.setup_target(o, q)
        if k.target not in ("angbox", "ortho"):
            source(c, k, o, q)                      # the second set-up leaves the first description alone
        target(c, k, o, q)
        c.count("setups_" + k.name)
        # the other scheme
        twin = [t for t in K if t.mc != k.mc and t.source == k.source and t.target == k.target]
        if twin and q["form"] != "log":
            t = twin[0]
            d = {a: v for a, v in q["target"].items() if not a.startswith(("rebin", "periodic"))}
            r = dict(source=q["source"], target=d, form="lin" if t.mc and t.target in ("ring", "shell") else None, addzero=None)
            u = t.cls()
            t.setup_source(u, r)
            t.setup_target(u, r)
            A, B = k.describe(o), t.describe(u)
            for a in A:
                x, y = np.asarray(A[a], float), np.asarray(B[a], float)
                c.close(x, y, 1e-13, 1e-13 * np.abs(y).max(), "both schemes publish the same " + a)
            c.count("both_schemes")
        # the layout is the one remapped and input arrays have
        if c.index % 4 == 0:
            s = k.request(rng, small=True)
            c.desc(layout=s)
            u = k.prepare(s, 2, seed=1)
            if k.source == "box":
                c.ok(np.shape(u.x2d) == k.map_shape(s), "layout of the input map")
            f = rng.normal(size=k.map_shape(s))
            out = np.shape(u.remap(f, verbose=False))
            c.ok(out == k.out_shape(s), "layout of the remapped map", got=out, want=k.out_shape(s))
            grid = {"ring": "r2d", "cap": "alpha2d", "angbox": "x2d", "ortho": "x2d"}.get(k.target)
            if grid:
                c.ok(np.shape(getattr(u, grid)) == out, "the published coordinate arrays have the layout of the remapped map")
                c.count("layouts")

    ck.section("setups", run, 3600, 120000)
