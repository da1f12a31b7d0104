"""Documented argument limits are enforced."""
import numpy as np

from checks.c34 import eq
from vlib import build, calls, gen, kinds

PI = np.pi
TWOPI = 2 * PI


def over(x):
    return float(np.nextafter(x, np.inf))


def under(x):
    return float(np.nextafter(x, -np.inf))


def setup(ck):
    mp, root = build.load()
    K = kinds.all_kinds(mp)
    co, px, rd, od = mp.coords, mp.pixel, mp.randoms, mp.one_d
    ck.rule = "For every function and set-up method with documented limits, random valid arguments with one argument moved to a limit, just outside it (one rounding step) or far outside it."
    ck.need("rejected", 4000)
    ck.need("accepted", 2500)
    ck.assumptions = ["Limits on which documentation and assertion disagree (rotate_polar by exactly 0 or 2pi) are not judged."]

    def outside(rng, lo=None, hi=None, open_lo=False, open_hi=False):
        """Values that violate lo <= v <= hi."""
        out = []
        if lo is not None:
            out += [under(lo), lo - float(gen.loguniform(rng, 1e-9, 10)), -1e9] + ([lo] if open_lo else [])
        if hi is not None:
            out += [over(hi), hi + float(gen.loguniform(rng, 1e-9, 10)), 1e9] + ([hi] if open_hi else [])
        return out

    COUNT = [0, -1, -7]

    # ---- functions: name -> (function, argument names, valid arguments, {argument: (bad values, limit values)})
    def table(rng):
        P0 = lambda: float(rng.uniform(.1, 6.1))
        T0 = lambda: float(rng.uniform(.1, 3.))
        # the other arguments are at special values now and then
        P = lambda: P0() if rng.random() < .7 else float(rng.choice([0., PI / 2, PI, 3 * PI / 2, TWOPI]))
        T = lambda: T0() if rng.random() < .7 else float(rng.choice([0., PI / 2, PI]))
        phi_in, th_in = (outside(rng, 0., TWOPI), [0., TWOPI]), (outside(rng, 0., PI), [0., PI])
        n = int(rng.integers(1, 6))
        p, t = gen.phi(rng, n), gen.theta(rng, n, safe=True)
        if rng.random() < .3:
            p, t = float(p[0]), float(t[0])
        a = float(rng.uniform(.2, 2.))
        area = dict(phi_min=P0(), phi_max=P0(), theta_min=T0(), theta_max=T0())
        if rng.random() < .3:
            area.update([dict(phi_min=0.), dict(phi_max=TWOPI), dict(theta_min=0.), dict(theta_max=PI), dict(phi_min=0., phi_max=TWOPI), dict(theta_min=0., theta_max=PI)][rng.integers(0, 6)])
        rows = [
            ("usphere_area", co.usphere_area, area,
             dict(phi_min=(outside(rng, 0., TWOPI, open_hi=True) + [area["phi_max"]], [0.]), phi_max=(outside(rng, 0., TWOPI, open_lo=True) + [area["phi_min"]], [TWOPI]),
                  theta_min=(outside(rng, 0., PI, open_hi=True) + [area["theta_max"]], [0.]), theta_max=(outside(rng, 0., PI, open_lo=True) + [area["theta_min"]], [PI]))),
            ("usphere_rotate", co.usphere_rotate, dict(phi=p, theta=t, phi_end=P0(), theta_end=T0(), phi_start=P(), theta_start=T()),
             dict(phi_end=phi_in, theta_end=th_in, phi_start=phi_in, theta_start=th_in)),
            ("usphere_shift", co.usphere_shift, dict(phi=p, theta=t, phi_start=P(), theta_start=T(), phi_end=P(), theta_end=T()),
             dict(phi_end=phi_in, theta_end=th_in, phi_start=phi_in, theta_start=th_in)),
            ("usphere_spin", co.usphere_spin, dict(phi=p, theta=t, phi_center=P(), theta_center=T(), alpha=P()),
             dict(phi_center=phi_in, theta_center=th_in, alpha=phi_in)),
            ("usphere_phi_shift", co.usphere_phi_shift, dict(phi=p, dphi=P()), dict(dphi=(outside(rng, -TWOPI, TWOPI), [-TWOPI, TWOPI, 0.]))),
            ("rotate_polar", co.rotate_polar, dict(phi=p, rotate=P0()), dict(rotate=(outside(rng, 0., TWOPI), []))),
            ("rotate_polar_grid", co.rotate_polar_grid, dict(pedges=np.linspace(0, TWOPI, n + 1), f_polar=rng.normal(size=(n, 3)), phi_shift=P0()),
             dict(phi_shift=(outside(rng, 0., TWOPI, True, True), [over(0.), under(TWOPI)]))),
            ("get_square", px.get_square, dict(xmin=-a, xmax=a, ymin=-1., ymax=a, steps=8), dict(steps=(COUNT + [1, 2, 3, 5, 4 * n + 1, 4 * n + 2, -4], [4, 4 * n]))),
            ("get_disc", px.get_disc, dict(rmin=.1, rmax=a + .1, steps=8), dict(steps=(COUNT + [1, 2, 3, 5, 4 * n + 2, 4 * n + 3, -8], [4, 4 * n]))),
            ("get_box", px.get_box, dict(xmin=-a, xmax=a, ymin=-1., ymax=a, zmin=0., zmax=a, steps=24), dict(steps=(COUNT + [1, 4, 6, 8, 12 * n + 4, 12 * n + 6, -12], [12, 12 * n]))),
        ]
        # samples
        m = int(rng.integers(2, 30))
        s = rng.normal(size=m)
        pr = rng.uniform(.1, 1, m)
        bad = pr.copy()
        bad[rng.integers(0, m)] = float(rng.choice([0., -0., -1e-300, -.5]))
        rows += [
            ("random_draw", rd.random_draw, dict(sample=s, size=m - 1), dict(size=([m, m + 1, 10 * m], [m - 1, 1]))),
            ("random_prob_draw", rd.random_prob_draw, dict(sample=s, prob=pr, size=m - 1), dict(size=([m, m + 1, 10 * m], [m - 1, 1]), prob=([bad], []))),
        ]
        e = gen.edges(rng, m + 2, ratio=3.)
        cdf = np.concatenate([[0.], np.cumsum(rng.uniform(.1, 1, m + 2))])
        cdf /= cdf[-1]
        c1, c2, c3 = cdf.copy(), cdf.copy(), cdf * .5
        c1[0], c2[-1] = 1e-12, under(1.)
        rows.append(("randoms_cdf", rd.randoms_cdf, dict(x=e, cdf=cdf, size=5, kind="linear"), dict(cdf=([c1, c2, c3], []))))
        # rebinning
        ne = np.sort(rng.uniform(e[0], e[-1], 4))
        d = rng.normal(size=m + 2)
        sw, down = e.copy(), ne[::-1].copy()
        i = int(rng.integers(0, m + 2))
        sw[i], sw[i + 1] = e[i + 1], e[i]
        rows.append(("rebin_1d", od.rebin_1d, dict(bin_edges=e, data=d, new_bin_edges=ne),
                     dict(bin_edges=([sw, e[:-1], e[::-1].copy(), np.append(e, e[-1] + 1)], []), data=([d[:-1], np.append(d, 1.)], []), new_bin_edges=([down], []),
                          w=([pr[:1], np.append(d, 1.), d[:-1]], [np.ones(m + 2)]), sigma=([pr[:1], np.append(d, 1.), d[:-1]], [np.ones(m + 2)]))))
        return rows

    names = [r[0] for r in table(np.random.default_rng(0))]
    for nm in names:
        ck.need("function_" + nm, 100)

    def rejects(c, f, a, kw, what):
        try:
            out = f(*a, **kw)
        except AssertionError:
            c.ok(True, "rejected")
            c.count("rejected")
            return
        except Exception as e:
            c.fail("%s is not rejected with an assertion error but %s" % (what, type(e).__name__), args=a, kwargs=kw)
        c.fail("%s is accepted" % what, args=a, kwargs=kw, got=out)

    def accepts(c, f, a, kw, what):
        try:
            out = f(*a, **kw)
        except AssertionError as e:
            c.fail("%s is rejected: %s" % (what, e), args=a, kwargs=kw)
        c.ok(True, "accepted")
        c.count("accepted")
        return out

    def functions(c):
        rng = c.rng
        rows = table(rng)
        nm, f, good, limits = rows[c.index % len(rows)]
        c.desc(function=nm, valid=good)
        accepts(c, f, (), good, nm + " with valid arguments")
        c.count("function_" + nm)
        for arg, (bad, ok) in limits.items():
            for v in bad:
                rejects(c, f, (), dict(good, **{arg: v}), "%s: %s = %s" % (nm, arg, np.array2string(np.asarray(v), precision=17, threshold=6)))
                c.count("function_" + nm)
            for v in ok:
                accepts(c, f, (), dict(good, **{arg: v}), "%s: %s = %s" % (nm, arg, np.array2string(np.asarray(v), precision=17, threshold=6)))
        if nm == "usphere_rotate":
            q = dict(good)
            q["phi_start"], q["theta_start"] = q["phi_end"], q["theta_end"]
            rejects(c, f, (), q, "usphere_rotate between equal points")

    def monotonic(c):
        rng = c.rng
        n = int(rng.integers(1, 12)) if rng.random() < .85 else int(rng.integers(90, 1500))
        x = np.sort(rng.integers(-5, 5, n).astype(float)) if rng.random() < .5 else gen.edges(rng, n)
        if rng.random() < .6 and len(x) > 1:
            i, j = sorted(rng.choice(len(x), 2, replace=False)) if rng.random() < .5 else (len(x) - 2, len(x) - 1)
            x[i], x[j] = x[j], x[i]
        if rng.random() < .2 and len(x) > 1:
            i = int(rng.integers(0, len(x) - 1))
            x[i + 1] = np.nextafter(x[i], -np.inf)
        want = all(float(p) <= float(q) for p, q in zip(x.tolist(), x.tolist()[1:]))
        c.desc(x=x)
        got = mp.utils.is_pos_monotonic(list(x) if rng.random() < .3 else x)
        c.ok(bool(got) == want and got in (True, False), "monotonic exactly when no entry is smaller than the one before", got=got, want=want)
        c.count("monotonic_%s" % want)
    ck.need("monotonic_True", 50)
    ck.need("monotonic_False", 50)

    # ---- classes
    def limits(k, q, rng):
        """Per set-up method: argument -> (bad values, limit values)."""
        b, d = q["source"], q["target"]
        if k.source == "heal":
            src = dict(nside=([0, -1, -8, 1.5, .5], [1, 2, 4]))
        else:
            src = {"num" + a: (COUNT, [1]) for a in ("xy" if k.source == "box" else "xyz")}
        dim = 3 if k.target == "shell" else 2
        tgt = dict(center=([[0.] * (dim - 1), [0.] * (dim + 1), [], [.1]], [[0.] * dim]))
        if k.target in ("ring", "shell"):
            log = q["form"] == "log"
            tgt["rmin"] = (outside(rng, 0., d["rmax"], open_lo=log, open_hi=True), [] if log else [0.])
            tgt["rmax"] = ([d["rmin"], under(d["rmin"]), -1.], [over(d["rmin"])])
            tgt["numr"] = (COUNT, [2] if log else [1])
        if k.target == "ring":
            hi, lo = d.get("pmax", TWOPI), d.get("pmin", 0.)
            tgt["pmin"] = (outside(rng, 0., None) + [hi, over(hi), TWOPI, 7.], [0., under(hi)])
            tgt["pmax"] = ([lo, under(lo), 0., over(TWOPI), 6.5, 10.], [TWOPI, over(lo)])
            tgt["nump"] = (COUNT, [1])
        if k.target == "cap":
            hi, lo = d.get("beta_max", TWOPI), d.get("beta_min", 0.)
            tgt["beta_min"] = (outside(rng, 0., None) + [hi, over(hi), TWOPI, 7.], [0., under(hi)])
            tgt["beta_max"] = ([lo, under(lo), 0., over(TWOPI), 6.5, 10.], [TWOPI, over(lo)])
            tgt["num_beta"], tgt["num_alpha"] = (COUNT, [1]), (COUNT, [1])
            tgt["alpha_min"] = (outside(rng, 0., d["alpha_max"], open_hi=True), [0.])
            tgt["alpha_max"] = ([d["alpha_min"], under(d["alpha_min"]), -1.], [PI])
        if k.target == "angbox":
            tgt["x_length"] = (outside(rng, 0., TWOPI), [TWOPI, 0.])
            tgt["y_length"] = (outside(rng, 0., PI), [PI, 0.])
            tgt["x_grid"], tgt["y_grid"] = (COUNT, [1]), (COUNT, [1])
        if k.target == "ortho":
            tgt["x_grid"] = (COUNT, [1])
        if k.target == "shell" and not k.mc:
            tgt["nside"] = ([0, -1, 1.5], [1, 2])
            tgt["rebin_shell"] = ([0, -1, -2], [1, 2])
            tgt["rebin_r"] = ([0, -1, -2], [1])
        return src, tgt

    SRC = {"box": ("setup_box", ("xmin", "xmax", "numx", "ymin", "ymax", "numy")), "heal": ("setup_map", ("nside",)),
           "cube": ("setup_cube", ("xmin", "xmax", "numx", "ymin", "ymax", "numy", "zmin", "zmax", "numz"))}

    def classes(c):
        rng = c.rng
        k = K[c.index % len(K)]
        q = k.request(rng, small=True)
        if k.target == "shell":
            q["target"]["nside"] = 1
        o = k.prepare(q, 12, 1)
        c.desc(kind=k.name, request=q)
        f, w = k.map(rng, q), k.weights(rng, q)
        before, base = {n: np.copy(v) if isinstance(v, np.ndarray) else v for n, v in k.describe(o).items()}, np.copy(o.remap(f, verbose=False))

        def intact(what):
            now = k.describe(o)
            for n in before:
                c.ok(eq(now[n], before[n]), "%s changed %s of the object" % (what, n), settings=q)
            c.ok(eq(o.remap(f, verbose=False), base), "%s changed the results of the object" % what, settings=q)

        src, tgt = limits(k, q, rng)
        name, pos = SRC[k.source]
        args = dict(q["source"])
        for arg, (bad, ok) in src.items():
            for v in bad:
                what = "%s: %s = %r" % (name, arg, v)
                rejects(c, getattr(o, name), [dict(args, **{arg: v})[p] for p in pos], {}, what)
                intact("the rejected " + what)
            for v in ok:
                accepts(c, getattr(k.cls(), name), [dict(args, **{arg: v})[p] for p in pos], {}, "%s: %s = %r" % (name, arg, v))
        call, fixed, kw = k.target_call(o, q)
        good = dict(zip(k.FIXED[k.target], fixed), **kw)
        items = list(tgt.items())
        for i in rng.permutation(len(items))[:4]:
            arg, (bad, ok) = items[i]
            for v in bad:
                what = "%s: %s = %r" % (call.__name__, arg, v)
                rejects(c, call, (), dict(good, **{arg: v}), what)
                intact("the rejected " + what)
            for v in ok:
                n = k.cls()
                k.setup_source(n, q)
                accepts(c, getattr(n, call.__name__), (), dict(good, **{arg: v}), "%s: %s = %r" % (call.__name__, arg, v))
            c.count("class_" + k.name)
        # Monte Carlo size
        if k.mc and k.target != "shell":
            for v in (1, 0, -5):
                rejects(c, o.get_weights, (v,), dict(verbose=False), "get_weights(%d)" % v)
                intact("the rejected get_weights(%d)" % v)
            n = k.cls()
            k.setup_source(n, q)
            k.setup_target(n, q)
            accepts(c, n.get_weights, (2,), dict(verbose=False), "get_weights(2)")
            # map shapes
            wrong = [f[:-1], np.concatenate([f, f]), np.zeros(f.size + 12)] + ([f.ravel()] if f.ndim > 1 else [])
            if f.ndim == 2 and f.shape[0] != f.shape[1]:
                wrong.append(f.T)
            for x in wrong:
                rejects(c, o.remap, (x,), dict(verbose=False), "remap of a map of shape %s for %s" % (x.shape, f.shape))
                rejects(c, o.remap, (f, x), dict(verbose=False), "remap with weights of shape %s for %s" % (x.shape, f.shape))
            intact("a rejected remap")
            accepts(c, o.remap, (f, w), dict(verbose=False), "remap of a map of the right shape")
        if k.ring:
            s = k.out_shape(q)
            g = rng.normal(size=s)
            wrong = [np.zeros((s[0] + 1, s[1])), np.zeros((s[0], s[1] + 1)), np.zeros(s[0] * s[1] + 1)] + ([g.T] if s[0] != s[1] else [])
            for x in wrong:
                rejects(c, o.polar2radial, (x,), {}, "polar2radial of data of shape %s for %s" % (x.shape, s))
                if not k.mask:
                    rejects(c, o.polar2radial, (g,), dict(sigma=x), "polar2radial with errors of shape %s for %s" % (x.shape, s))
                rejects(c, o.rotate_polar, (x, 1.), {}, "rotate_polar of data of shape %s for %s" % (x.shape, s))
            for v in outside(rng, 0., TWOPI):
                rejects(c, o.rotate_polar, (g, v), {}, "rotate_polar by %r" % v)
            accepts(c, o.polar2radial, (g,), dict(sigma=np.ones(s)), "polar2radial of data of the right shape")
            intact("a rejected profile or rotation")
        if k.mask:
            n = k.cls()
            rejects(c, n.get_mask_in_bound, (), dict(verbose=False), "a mask before any set-up")
            k.setup_source(n, q)
            rejects(c, n.get_mask_in_bound, (), dict(verbose=False), "a mask before the polar set-up")
            n = k.cls()
            k.setup_target(n, q)
            rejects(c, n.get_mask_in_bound, (), dict(verbose=False), "a mask before the box set-up")

    for k in K:
        ck.need("class_" + k.name, 30)
    ck.section("functions", functions, 1300, 120000)
    ck.section("monotonic", monotonic, 400, 30000)
    ck.section("classes", classes, 450, 45000)
