"""No call modifies what the caller passes in."""
import numpy as np

from vlib import build, calls, gen, kinds, snap

PI = np.pi
UNSEEN = -1.6375e+30
EDGES = {"grids.xedges2mid": (0,), "grids.xmid2edges": (0,), "one_d.rebin_1d": (0, 2), "one_d.rebin_1d_single_bin_weights": (0,), "polar.get_polar_area2d": (0, 1),
         "polar.get_pixarea": (0, 1), "polar.cumulative_radial": (0,), "coords.rotate_polar_grid": (0,), "randoms.randoms_cdf": (0, 1), "randoms.randoms_pdf": (0,), "randoms.pdf2cdf": (0,),
         "utils.is_pos_monotonic": (0,)}
HOLDS = {"utils.ragged_array"}      # documented to hold the arrays themselves
ROTATIONS = ("coords.usphere_shift", "coords.usphere_spin", "coords.usphere_rotate")      # about the pole: the polar angles may be handed back


def setup(ck):
    mp, root = build.load(need_fortran=True)
    names = calls.names()
    funcs = {n: calls.resolve(mp, n) for n in names}
    K = kinds.all_kinds(mp)
    ck.rule = "Random calls of every public function in every argument form and with special values in the data (scalars, strided, two-dimensional, Fortran-ordered, lists, tuples), and random programs of set-up, weight, remap, mask, profile, rotation and clean calls on every class; everything passed or returned is snapshot and compared after every later call."
    for n in names:
        ck.need("call_" + n, 25)
    ck.need("arguments_watched", 20000)
    ck.need("results_written", 4000)
    ck.need("spoiled_arrays", 3000)
    for k in K:
        ck.need("program_" + k.name, 25)
    ck.need("defaults_watched", 60)

    def defaults():
        out = {}
        objs = [(n, f) for n, f in funcs.items()]
        for cls in [k.cls for k in K] + [mp.densegrid.PointOfView]:
            objs += [(cls.__module__ + "." + cls.__name__ + "." + a, f) for a, f in vars(cls).items() if callable(f)]
        for n, f in objs:
            out[n] = snap.take([getattr(f, "__defaults__", None) or (), getattr(f, "__kwdefaults__", None) or {}])
        return out

    first = defaults()

    class Watch:
        def __init__(self, c):
            self.c, self.kept = c, []

        def keep(self, what, v):
            self.kept.append((what, v, snap.take(v)))

        def verify(self, after):
            for what, v, s in self.kept:
                self.c.ok(snap.take(v) == s, "%s changed %s" % (after, what))
            self.c.count("arguments_watched", len(self.kept))

        def call(self, name, f, *a, **kw):
            for i, v in enumerate(a):
                self.keep("argument %d of %s" % (i, name), v)
            for k, v in kw.items():
                self.keep("argument %s of %s" % (k, name), v)
            out = f(*a, **kw)
            self.verify(name)
            return out

    def check_defaults(c):
        now = defaults()
        for n in first:
            c.ok(now[n] == first[n], "default arguments of %s changed" % n)
        c.count("defaults_watched", len(first))

    def spoil(rng, name, a, kw):
        """Special values in the data arrays: no call may change them, whether or not it accepts them."""
        done = 0
        for key, v in list(enumerate(a)) + list(kw.items()):
            if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size and key not in EDGES.get(name, ()):
                z = rng.choice([np.nan, np.inf, -np.inf, 0., -0., -1.5, 7.25, 1e-300, 1e300], v.shape)
                v[...] = np.where(rng.random(v.shape) < rng.choice([.1, .5, 1.]), z, v)
                done += 1
        a = list(a)
        if name == "coords.usphere_phi_shift" and rng.random() < .5:
            a[0] = np.asarray(a[0]) + float(rng.choice([-PI, PI, 2 * PI]))
        for k, v in enumerate(a):
            if isinstance(v, float) and rng.random() < .15:
                a[k] = 0.
        return tuple(a), kw, done

    def spoiled(c):
        rng = c.rng
        name = names[c.index % len(names)]
        w = Watch(c)
        for rep in range(4):
            a, kw, done = spoil(rng, name, *calls.make(rng, name, mp))
            c.desc(function=name, args=a, kwargs=kw)
            for i, v in enumerate(a):
                w.keep("argument %d of %s" % (i, name), v)
            for k, v in kw.items():
                w.keep("argument %s of %s" % (k, name), v)
            try:
                with np.errstate(all="ignore"):
                    out = funcs[name](*a, **kw)
            except Exception:
                c.count("spoiled_refused")
                out = None
            w.verify(name)
            c.count("spoiled_arrays", done)
            if out is None or name in HOLDS or (name in ROTATIONS and any(x is y for x in out for y in a if isinstance(y, np.ndarray))):
                continue
            c.count("results_written", snap.scribble(out))
            w.verify("writing into the result of " + name)

    def functions(c):
        rng = c.rng
        name = names[c.index % len(names)]
        w = Watch(c)
        c.desc(function=name)
        for rep in range(4):
            a, kw = calls.make(rng, name, mp)
            c.desc(args=a, kwargs=kw)
            out = w.call(name, funcs[name], *a, **kw)
            c.count("call_" + name)
            if name in HOLDS:
                continue
            if name in ROTATIONS and any(x is y for x in out for y in a if isinstance(y, np.ndarray)):
                continue
            c.count("results_written", snap.scribble(out))
            w.verify("writing into the result of " + name)
            # the same call again must not be affected by the scribbling
            if name not in calls.RANDOM:
                b = funcs[name](*a, **kw)
                again = snap.take(b)
                snap.scribble(b)
                d = funcs[name](*a, **kw)
                c.ok(snap.take(d) == again, "writing into a result of %s changes later results" % name)
                w.verify(name)
        if c.index % 40 == 0:
            check_defaults(c)

    def program(c):
        rng = c.rng
        k = K[c.index % len(K)]
        w = Watch(c)
        o = k.cls()
        log = []
        c.desc(kind=k.name, program=log)
        q = None
        ready = False

        for step in range(int(rng.integers(4, 14))):
            op = rng.choice(["setup", "weights", "remap", "remap", "wremap", "mask", "profile", "rotate", "clean"], p=[.2, .05, .2, .15, .15, .1, .05, .05, .05])
            if q is None or not ready:
                op = "setup"
            log.append(str(op))
            if op == "setup":
                q = k.request(rng, small=True)
                b = q["source"]
                if k.source == "box":
                    w.call("setup_box", o.setup_box, *[b[n] for n in ("xmin", "xmax", "numx", "ymin", "ymax", "numy")])
                else:
                    k.setup_source(o, q)
                f, a, kw = k.target_call(o, q)
                w.call("target set-up", f, *a, **kw)
                if k.mc:
                    w.call("get_weights", o.get_weights, 20, verbose=False)
                ready = True
            elif op == "weights" and k.mc:
                w.call("get_weights", o.get_weights, 15, verbose=False)
            elif op in ("remap", "wremap"):
                f = k.map(rng, q)
                if rng.random() < .2:
                    f = f.astype("f4")
                elif rng.random() < .2:
                    f = np.asfortranarray(f)
                if rng.random() < .3:
                    f[np.unravel_index(rng.integers(0, f.size, 3), f.shape)] = rng.choice([np.nan, np.inf, -np.inf, 0., -2.5, UNSEEN])
                a = [f]
                if op == "wremap" and k.weighted:
                    a.append(k.weights(rng, q))
                    if rng.random() < .4:
                        a[1][rng.random(a[1].shape) < .3] = 0.
                    if rng.random() < .3:
                        a[1][rng.random(a[1].shape) < .2] = rng.choice([np.nan, np.inf, -1., -1e-3])
                out = w.call("remap", o.remap, *a, verbose=False)
                if rng.random() < .3:
                    c.count("results_written", snap.scribble(out))
                    w.verify("writing into the result of remap")
                else:
                    w.keep("an earlier result of remap", out)
            elif op == "mask" and k.mask:
                w.call("get_mask_in_bound", o.get_mask_in_bound, verbose=False)
            elif op == "profile" and k.ring:
                s = k.out_shape(q)
                f, sig, ww = rng.normal(size=s), rng.uniform(.1, 1, s), rng.uniform(.1, 1, s)
                f[rng.random(s) < .2] = rng.choice([np.nan, np.inf, 0.])
                if rng.random() < .3:
                    sig[rng.random(s) < .2] = rng.choice([np.nan, np.inf, 0., -1.])
                if rng.random() < .3:
                    ww[rng.random(s) < .2] = rng.choice([np.nan, 0., -1.])
                kw = {}
                if rng.random() < .6:
                    kw["sigma"] = sig
                if rng.random() < .6:
                    kw["w"] = ww
                out = w.call("polar2radial", o.polar2radial, f, **kw)
                w.keep("an earlier result of polar2radial", out)
            elif op == "rotate" and k.ring:
                d = q["target"]
                full = (d.get("pmax", 2 * PI) - d.get("pmin", 0.) if k.target == "ring" else d.get("beta_max", 2 * PI) - d.get("beta_min", 0.)) > 6.283
                if full:
                    f = rng.normal(size=k.out_shape(q))
                    if rng.random() < .5:
                        f[rng.random(f.shape) < .2] = rng.choice([np.nan, np.inf, 0.])
                    out = w.call("rotate_polar", o.rotate_polar, f, float(rng.uniform(.01, 6.2)))
                    c.count("results_written", snap.scribble(out))
                    w.verify("writing into the result of rotate_polar")
            elif op == "clean":
                w.call("clean", o.clean)
                ready = False
        if k.target == "ortho" and ready:
            P, T = gen.phi(rng, 9), gen.theta(rng, 9)
            out = w.call("transform", o.transform, P, T)
            snap.scribble(out)
            w.verify("writing into the result of transform")
        c.count("program_" + k.name)
        if c.index % 40 == 0:
            check_defaults(c)

    def view(c):
        rng = c.rng
        w = Watch(c)
        o = mp.densegrid.PointOfView()
        form = [list, np.array][c.index % 2]
        cam, pt = form([float(x) for x in rng.normal(size=3)]), form([float(x) for x in rng.normal(size=3) + 3])
        c.desc(camera=cam, point=pt)
        w.call("setup", o.setup, cam, pt, 1.5, float(rng.choice([0., 1.1])))
        n = int(rng.choice([1, 8, 300, 3000]))
        pos = [np.asarray(cam)[a] + 1e-3 + rng.random(n) for a in range(3)]
        out = w.call("transform", o.transform, *pos)
        c.count("results_written", snap.scribble(out))
        w.verify("writing into the result of transform")
        b = [rng.normal(size=n), rng.normal(size=n), rng.uniform(1, 3, n)]
        out = w.call("reverse", o.reverse, *b)
        c.count("results_written", snap.scribble(out))
        w.verify("writing into the result of reverse")
        w.call("clean", o.clean)

    ck.section("functions", functions, 2400, 300000)
    ck.section("spoiled", spoiled, 1500, 200000)
    ck.section("programs", program, 900, 150000)
    ck.section("views", view, 60, 15000)
