"""Reused objects behave like new ones."""
import numpy as np

from vlib import build, gen, kinds, snap

PI = np.pi


def eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is None and b is None
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "fiu" and y.dtype.kind in "fiu":
        s = np.max(np.abs(np.where(np.isfinite(x), x, 0)), initial=0.)
        return bool(np.all((np.abs(x - y) <= 1e-11 * s) | (x == y) | ((x != x) & (y != y))))
    return bool(np.array_equal(x, y))


class Slot:
    """A live object and the settings a new object would need to match it."""

    def __init__(self, k):
        self.k, self.o = k, k.cls()
        self.q = self.seed = self.n = None
        self.source = self.target = None
        self.stale = True
        self.setups = 0

    def fresh(self):
        return self.k.prepare(dict(self.target, source=self.source), self.n or 10, self.seed)


def setup(ck):
    mp, root = build.load()
    K = kinds.all_kinds(mp)
    ck.rule = "Random programs over one to three interleaved objects (also of different classes): set-ups of the map or the target alone or both, repeated weights, remaps, masks, profiles, rotations, rejected calls, writing into results, cleaning; every result is compared with a new object given only the latest settings."
    for k in K:
        ck.need("programs_" + k.name, 50)
        ck.need("judged_" + k.name, 300)
        ck.need("reused_" + k.name, 100)
        for what in ["source", "target"] + ["weights"] * k.mc:
            ck.need("changed_%s_%s" % (what, k.name), 25)
        ck.need("cleaned_" + k.name, 15)
    ck.need("interleaved", 100)
    ck.need("rejected", 50)
    ck.need("masks", 80)
    ck.need("map_only", 50)
    ck.need("without_weights", 50)
    ck.assumptions = ["A dense HEALPix remap gets its first map before its first target."]

    def program(c):
        rng = c.rng
        k0 = K[c.index % len(K)]
        slots = [Slot(k0)]
        for _ in range(int(rng.integers(0, 3))):
            slots.append(Slot(k0 if rng.random() < .7 else K[rng.integers(0, len(K))]))
        if len(slots) > 1:
            c.count("interleaved")
        log = []
        c.desc(program=log)
        c.count("programs_" + k0.name)

        def judge(s, what, got, want):
            c.ok(eq(got, want), "%s: %s of a reused object differs from a new one" % (s.k.name, what), got=got, want=want, settings=dict(s.target, source=s.source))
            c.count("judged_" + s.k.name)
            if s.setups > 1:
                c.count("reused_" + s.k.name)

        def weights(s):
            s.seed, s.n = int(rng.integers(0, 2**31)), int(rng.integers(4, 30))
            np.random.seed(s.seed)
            s.o.get_weights(s.n, verbose=False)
            s.stale = False

        for step in range(int(rng.integers(5, 16))):
            i = int(rng.integers(0, len(slots)))
            s = slots[i]
            k = s.k
            op = str(rng.choice(["setup", "target", "source", "weights", "remap", "mask", "profile", "rotate", "clean", "reject"],
                                p=[.1, .12, .1, .06, .3, .08, .1, .05, .05, .04]))
            if s.source is None or s.target is None:
                op = "setup"
            elif s.stale and op not in ("setup", "target", "source", "clean", "reject"):
                op = "unweighted" if op == "remap" and s.setups > 1 else "weights"
            log.append("%d:%s" % (i, op))
            if op in ("setup", "target", "source"):
                if op != "target":
                    s.source = k.new_source(rng, small=True)
                if op != "source":
                    s.target = k.new_target(rng, s.source)
                q = dict(s.target, source=s.source)
                both = op == "setup" or s.setups == 0
                free = k.mc or k.target == "ring"            # the two set-ups do not depend on each other's order
                if both and free and rng.random() < .4:
                    k.setup_target(s.o, q)
                    k.setup_source(s.o, q)
                else:
                    if op != "target":
                        k.setup_source(s.o, q)
                    if op != "source" or not free and rng.random() < .3:
                        k.setup_target(s.o, q)
                    elif not free:
                        c.count("map_only")
                s.setups += 1
                s.stale = k.mc
                if s.stale and rng.random() < .8:
                    weights(s)
                new = k.cls()
                k.setup_source(new, q)
                k.setup_target(new, q)
                a, b = k.describe(s.o), k.describe(new)
                for n in a:
                    judge(s, "published " + n, a[n], b[n])
                continue
            q = dict(s.target, source=s.source)
            if op == "unweighted":
                # a new object has no weights yet
                try:
                    got = s.o.remap(k.map(rng, q), verbose=False)
                except Exception:
                    got = None
                c.ok(got is None, "%s: a remap before the weights of the new grid are calculated returns a result" % k.name, got=got)
                c.count("without_weights")
            elif op == "weights":
                if k.mc:
                    weights(s)
            elif op == "remap":
                f = k.map(rng, q)
                a = [f] + ([k.weights(rng, q)] if k.weighted and rng.random() < .4 else [])
                out = s.o.remap(*a, verbose=False)
                judge(s, "remap", out, s.fresh().remap(*a, verbose=False))
                if rng.random() < .4:
                    snap.scribble(out)
                    judge(s, "remap after writing into an earlier result", s.o.remap(*a, verbose=False), s.fresh().remap(*a, verbose=False))
            elif op == "mask" and k.mask:
                s.o.get_mask_in_bound(verbose=False)
                o = s.fresh()
                o.get_mask_in_bound(verbose=False)
                judge(s, "mask", s.o.mask_in_bound, o.mask_in_bound)
                c.count("masks")
            elif op == "profile" and k.ring:
                shape = k.out_shape(q)
                f = rng.normal(size=shape)
                kw = {}
                if rng.random() < .6:
                    kw["sigma"] = rng.uniform(.1, 1, shape)
                if rng.random() < .5:
                    kw["w"] = rng.uniform(.1, 1, shape)
                judge(s, "profile", s.o.polar2radial(f, **kw), s.fresh().polar2radial(f, **kw))
                if k.mask:
                    c.count("masks")
            elif op == "rotate" and k.ring:
                d = s.target["target"]
                lo, hi = ("pmin", "pmax") if k.target == "ring" else ("beta_min", "beta_max")
                if d.get(hi, 2 * PI) - d.get(lo, 0.) > 6.283:
                    f, a = rng.normal(size=k.out_shape(q)), float(rng.uniform(.01, 6.2))
                    judge(s, "rotation", s.o.rotate_polar(f, a), s.fresh().rotate_polar(f, a))
            elif op == "reject":
                # a rejected set-up leaves the settings usable
                call, a, kw = k.target_call(s.o, q)
                n = {"ring": 2, "shell": 2, "cap": 2}.get(k.target, 1)
                a = list(a)
                a[n] = 0
                try:
                    call(*a, **kw)
                except AssertionError:
                    c.count("rejected")
                if not s.stale:
                    f = k.map(rng, q)
                    judge(s, "remap after a rejected set-up", s.o.remap(f, verbose=False), s.fresh().remap(f, verbose=False))
            elif op == "clean":
                s.o.clean()
                new = vars(k.cls())
                for n, v in new.items():
                    if not n.startswith("_"):
                        c.ok(eq(getattr(s.o, n, "missing"), v) if not callable(v) else True, "%s: %s is not reset by clean" % (k.name, n))
                c.count("cleaned_" + k.name)
                s.source = s.target = None
                s.stale, s.setups = True, s.setups
        # every object still works
        for s in slots:
            if s.source is not None and not s.stale:
                q = dict(s.target, source=s.source)
                f = s.k.map(rng, q)
                judge(s, "final remap", s.o.remap(f, verbose=False), s.fresh().remap(f, verbose=False))

    def exercise(k, o, q, rng, order):
        """Every operation of a class in a given order, with inputs from rng."""
        out = {}
        shape = k.out_shape(q)
        f, w = k.map(rng, q), k.weights(rng, q)
        P, sig, pw = rng.normal(size=shape), rng.uniform(.1, 1, shape), rng.uniform(.1, 1, shape)
        for op in order:
            if op == "remap":
                out[op] = o.remap(f, verbose=False)
            elif op == "weighted remap" and k.weighted:
                out[op] = o.remap(f, w, verbose=False)
            elif op == "mask" and k.mask:
                o.get_mask_in_bound(verbose=False)
                out[op] = np.copy(o.mask_in_bound)
            elif op == "profile" and k.ring:
                out[op] = o.polar2radial(P)
            elif op == "profile with errors" and k.ring:
                out[op] = o.polar2radial(P, sigma=sig)
            elif op == "weighted profile with errors" and k.ring:
                out[op] = o.polar2radial(P, sigma=sig, w=pw)
        return out

    OPS = ["remap", "weighted remap", "mask", "profile", "profile with errors", "weighted profile with errors"]

    def change(c):
        """Everything, one change of settings (often keeping all array shapes), everything again."""
        rng = c.rng
        k = K[c.index % len(K)]
        free = k.mc or k.target == "ring"
        q = k.request(rng, small=True, inside=bool(rng.random() < .3))
        o = k.prepare(q, 15, 1)
        steps = []
        c.desc(kind=k.name, steps=steps, first=q)
        for _ in range(int(rng.integers(1, 4))):
            exercise(k, o, q, rng, list(rng.permutation(OPS))[:int(rng.integers(1, 7))])
            what = str(rng.choice(["source", "target", "weights"] if k.mc else ["source", "target"]))
            q = dict(q)
            if what == "source":
                b = k.new_source(rng, small=True)
                if rng.random() < .7:
                    b.update({n: v for n, v in q["source"].items() if n.startswith("num") or n == "nside"})
                q["source"] = b
                k.setup_source(o, q)
                if not free and rng.random() < .3:
                    k.setup_target(o, q)
            elif what == "target":
                t = k.new_target(rng, q["source"])
                if rng.random() < .7:
                    keep = ("numr", "nump", "nside", "num_alpha", "num_beta", "x_grid", "y_grid")
                    old = q["target"]
                    t["target"] = {n: v for n, v in t["target"].items() if n not in keep}
                    t["target"].update({n: v for n, v in old.items() if n in keep})
                    if t["form"] == "log":
                        t["target"]["numr"] = max(2, t["target"]["numr"])
                q.update(t)
                k.setup_target(o, q)
            steps.append([what, dict(q)])
            seed = int(rng.integers(0, 2**31))
            if k.mc:
                np.random.seed(seed)
                o.get_weights(15, verbose=False)
            order = list(rng.permutation(OPS))
            r = rng.integers(0, 2**31)
            got = exercise(k, o, q, np.random.default_rng(r), order)
            want = exercise(k, k.prepare(q, 15, seed), q, np.random.default_rng(r), OPS)
            for n in got:
                c.ok(eq(got[n], want[n]), "%s: %s differs from that of a new object after a change of the %s" % (k.name, n, what), got=got[n], want=want[n])
            c.count("changed_%s_%s" % (what, k.name))

    def transform(c):
        """Orthographic transform and point of view after other settings."""
        rng = c.rng
        k = [k for k in K if k.target == "ortho"][0]
        o, v = k.cls(), mp.densegrid.PointOfView()
        P, T = gen.phi(rng, 9), gen.theta(rng, 9)
        pts = rng.normal(size=(3, 9))
        for _ in range(3):
            q = k.request(rng, small=True)
            k.prepare(q, o=o)
            c.desc(request=q)
            c.ok(eq(o.transform(P, T), k.prepare(q).transform(P, T)), "the transform of a reused orthographic map differs from a new one")
            cam = [float(x) for x in rng.normal(size=3)]
            pt = [float(x) for x in rng.normal(size=3)]
            if rng.random() < .3:
                pt[2] = cam[2]
            for v3 in (cam, pt):
                for a in range(3):
                    if rng.random() < .2:
                        v3[a] = 0.
            if cam == pt:
                pt[0] += 1.
            args = (cam, pt, float(rng.uniform(.3, 3)))
            kw = {} if rng.random() < .4 else dict(spin=float(rng.uniform(0, 6)))
            v.setup(*args, **kw)
            n = mp.densegrid.PointOfView()
            n.setup(*args, **kw)
            a = v.transform(*pts)
            c.ok(eq(a, n.transform(*pts)), "the view of a reused object differs from a new one")
            b = [rng.normal(size=5), rng.normal(size=5), rng.uniform(1, 4, 5)]
            c.ok(eq(v.reverse(*b), n.reverse(*b)), "the reverse view of a reused object differs from a new one")
            c.ok(eq(v.transform(*pts), a), "a view changes after reversing")
            if rng.random() < .3:
                v.clean()
                o.clean()

    ck.section("programs", program, 1350, 30000)
    ck.section("changes", change, 1350, 45000)
    ck.section("transforms", transform, 400, 10000)
