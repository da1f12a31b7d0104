"""Objects own their settings: copies, and what the caller does with its lists later, do not reach them."""
import copy
import os
import pickle
import subprocess
import sys

import numpy as np

from checks.c33 import equal
from vlib import build, gen, kinds, snap

CHILD = """
import pickle, sys, warnings
warnings.simplefilter("ignore")
here, root, path = sys.argv[1:4]
sys.path[:0] = [root, here]
sys.dont_write_bytecode = True
import numpy as np
np.seterr(all="ignore")
import magpie, magpie.montecarlo, magpie.densegrid
jobs = pickle.load(open(path, "rb"))
out = []
for o, method, args, kw in jobs:
    try:
        out.append(getattr(o, method)(*args, **kw))
    except Exception as e:
        out.append(repr(e))
sys.stdout.buffer.write(b"RESULT" + pickle.dumps(out))
"""


def setup(ck):
    mp, root = build.load(need_fortran=True)
    K = kinds.all_kinds(mp)
    ck.rule = "Objects of every class copied (deep copy, pickle) at a random stage of a random program, before and after which the original is used, set up again, cleaned or has its published arrays overwritten; results of the copy are compared with those of an object that was never copied. Pickled objects are also used in another process. The lists and arrays passed to a set-up, and the lists published by other objects, are overwritten before the object is used."
    for k in K:
        ck.need("copied_" + k.name, 20)
        ck.need("lists_" + k.name, 20)
    ck.need("lists_changed", 100)
    ck.need("defaults_kept", 30)
    ck.need("view_lists", 80)
    ck.need("copied_view", 30)
    ck.need("in_child", 27)
    ck.need("after_reset", 100)
    ck.need("after_overwriting", 100)
    ck.need("stage_new", 20)
    ck.need("stage_weights", 50)

    def copier(rng):
        k = rng.integers(0, 3)
        if k == 0:
            return "deep copy", copy.deepcopy
        p = int(rng.choice([2, pickle.HIGHEST_PROTOCOL]))
        return "pickle", lambda o: pickle.loads(pickle.dumps(o, p))

    def uses(rng, k, q):
        """Deterministic calls on a prepared object."""
        f, w = k.map(rng, q), k.weights(rng, q)
        s = k.out_shape(q)
        g, sig = rng.normal(size=s), rng.uniform(.1, 1, s)
        u = [("remap", (f,), dict(verbose=False))]
        if k.weighted:
            u.append(("remap", (f, w), dict(verbose=False)))
        if k.ring:
            u += [("rotate_polar", (g, float(rng.uniform(.1, 6))), {}), ("polar2radial", (g,), dict(sigma=sig))]
        return u

    def results(o, u):
        return [getattr(o, m)(*copy.deepcopy(a), **copy.deepcopy(kw)) for m, a, kw in u]

    def stages(rng, k, q, seed):
        out = [("new", lambda o: None), ("source", lambda o: k.setup_source(o, q)), ("target", lambda o: k.setup_target(o, q))]
        if k.mc:
            def weights(o):
                np.random.seed(seed)
                o.get_weights(10, verbose=False)
            out.append(("weights", weights))
        return out

    def copies(c):
        rng = c.rng
        k = K[c.index % len(K)]
        q, q2 = k.request(rng, small=True), k.request(rng, small=True)
        seed = int(rng.integers(0, 2**31))
        u = uses(rng, k, q)
        st = stages(rng, k, q, seed)
        at = int(rng.integers(0, len(st))) if rng.random() < .5 else len(st) - 1
        how, dup = copier(rng)
        c.desc(kind=k.name, request=q, stage=st[at][0], how=how)
        ref = k.cls()
        for _, s in st:
            s(ref)
        want = results(ref, u)
        o = k.cls()
        for _, s in st[:at + 1]:
            s(o)
        if at == len(st) - 1 and rng.random() < .5:
            results(o, u)                               # used before it is copied
        d = dup(o)
        c.ok(type(d) is type(o), "a copy is of the same class")
        what = int(rng.integers(0, 5))
        if what == 0:
            k.prepare(q2, 10, o=o)
            o.remap(k.map(rng, q2), verbose=False)
            c.count("after_reset")
        elif what == 1:
            o.clean()
            c.count("after_reset")
        elif what == 2:
            for v in list(vars(o).values()):
                snap.scribble(v)
            c.count("after_overwriting")
        elif what == 3:
            del o
        for _, s in st[at + 1:]:
            s(d)
        got = results(d, u)
        for (m, _, _), x, y in zip(u, want, got):
            c.ok(equal(x, y), "%s of a copy gives what the original gives" % m, got=y, want=x)
        # the other way round: nothing done to the copy reaches the original
        o = k.cls()
        for _, s in st[:at + 1]:
            s(o)
        d = dup(o)
        for _, s in st[at + 1:]:
            s(d)
        results(d, u)
        if rng.random() < .5:
            k.prepare(q2, 10, o=d)
            d.remap(k.map(rng, q2), verbose=False)
        for v in list(vars(d).values()):
            snap.scribble(v)
        if rng.random() < .5:
            d.clean()
        c.count("after_overwriting")
        for _, s in st[at + 1:]:
            s(o)
        for (m, _, _), x, y in zip(u, want, results(o, u)):
            c.ok(equal(x, y), "%s is unaffected by what was done to a copy" % m, got=y, want=x)
        c.count("copied_" + k.name)
        c.count("stage_" + st[at][0])

    def view(c):
        rng = c.rng
        o = mp.densegrid.PointOfView()
        cam = rng.normal(size=3)
        a = (cam.tolist(), (cam + rng.normal(size=3)).tolist(), float(rng.uniform(.1, 5)))
        kw = dict(spin=gen.angle(rng))
        o.setup(*a, **kw)
        P = rng.normal(size=(3, 8)) * 4
        c.desc(setup=a, **kw)
        want = o.transform(*P)
        back = o.reverse(P[0], P[1], np.abs(P[2]))
        how, dup = copier(rng)
        d = dup(o)
        o.setup(rng.normal(size=3).tolist(), rng.normal(size=3).tolist(), 2.)
        if rng.random() < .5:
            o.clean()
        c.ok(equal(want, d.transform(*P)), "a copied view gives what the original gives")
        c.ok(equal(back, d.reverse(P[0], P[1], np.abs(P[2]))), "a copied view gives what the original gives")
        c.count("copied_view")

    def lists(c):
        """The caller changes its lists after the set-up."""
        rng = c.rng
        k = K[c.index % len(K)]
        q = k.request(rng, small=True)
        if rng.random() < .25:
            q["target"].pop("center", None)
        seed = int(rng.integers(0, 2**31))
        u = uses(rng, k, q)
        want = results(k.prepare(copy.deepcopy(q), 10, seed), u)
        others = [k.prepare(k.request(rng, small=True), 8), k.prepare(copy.deepcopy(q), 8)]
        o = k.cls()
        k.setup_source(o, q)
        f, a, kw = k.target_call(o, q)
        kw = {n: np.array(v, float) if isinstance(v, list) and n == "center" and rng.random() < .3 else copy.deepcopy(v) for n, v in kw.items()}
        shown = copy.deepcopy(kw)
        f(*a, **kw)
        held = []
        for n, v in kw.items():
            if isinstance(v, (list, np.ndarray)):
                for i in range(len(v)):
                    v[i] = v[i] + (1 if n.startswith("periodic") else .3 if rng.random() < .5 else -.2)
                held.append(n)
        if rng.random() < .5:
            others.append(k.prepare(copy.deepcopy(q), 8))
        # what other objects publish is theirs: defaults are not shared through it
        for p in others:
            for v in vars(p).values():
                snap.scribble(v)
        c.desc(kind=k.name, request=q, options=shown, changed=held)
        if k.mc:
            np.random.seed(seed)
            o.get_weights(10, verbose=False)
        for (m, _, _), x, y in zip(u, want, results(o, u)):
            c.ok(equal(x, y), "%s is unaffected by later changes to the lists the caller passed or other objects publish" % m, got=y, want=x)
        fresh = k.prepare(copy.deepcopy(q), 10, seed)
        for (m, _, _), x, y in zip(u, want, results(fresh, u)):
            c.ok(equal(x, y), "%s of a new object is unaffected by what was written into other objects" % m, got=y, want=x)
        c.count("lists_" + k.name)
        c.count("lists_changed", len(held))
        c.count("defaults_kept", "center" not in kw)

    def view_lists(c):
        rng = c.rng
        if c.index % 2:
            o = mp.densegrid.PointOfView()
            cam, point = (rng.normal(size=3) for _ in range(2))
            a = [cam.tolist(), point.tolist()] if rng.random() < .6 else [cam.copy(), point.copy()]
            D, kw = float(rng.uniform(.1, 5)), dict(spin=gen.angle(rng))
            ref = mp.densegrid.PointOfView()
            ref.setup(cam.tolist(), point.tolist(), D, **kw)
            o.setup(*a, D, **kw)
            c.desc(camera=cam, point=point, display=D, **kw)
            for v in a:
                for i in range(3):
                    v[i] += float(rng.normal())
            for n in ("camera", "point", "display"):
                if hasattr(o, n):
                    c.ok(np.array_equal(getattr(o, n), getattr(ref, n)), "the published %s is unaffected by later changes to the caller's lists" % n, got=getattr(o, n), want=getattr(ref, n))
            P = rng.normal(size=(3, 8)) * 4
            c.ok(equal(ref.transform(*P), o.transform(*P)), "the view is unaffected by later changes to the caller's lists")
            c.ok(equal(ref.reverse(P[0], P[1], np.abs(P[2])), o.reverse(P[0], P[1], np.abs(P[2]))), "the view is unaffected by later changes to the caller's lists")
        else:
            cc = [float(v) for v in gen.centre_dir(rng)]
            objs = [mp.densegrid.Heal2Ortho() for _ in range(2)]
            given = [list(cc), np.array(cc) if rng.random() < .3 else list(cc)]
            for o, v in zip(objs, given):
                o.setup_map(4)
                o.setup_box(1., 4, center=v)
            given[1][0], given[1][1] = 3., 1.
            P = gen.phi(rng, 20), gen.theta(rng, 20, safe=True)
            c.desc(center=cc)
            c.ok(equal(objs[0].transform(*P), objs[1].transform(*P)), "the map's coordinates are unaffected by later changes to the caller's lists")
        c.count("view_lists")

    def child(c):
        """Objects pickled here, used there."""
        rng = c.rng
        jobs, want = [], []
        for k in K:
            q = k.request(rng, small=True)
            o = k.prepare(q, 10, int(rng.integers(0, 2**31)))
            u = uses(rng, k, q)
            want += results(o, u)
            jobs += [(o, m, a, kw) for m, a, kw in u]
        path = os.path.join(build.scratch(), "jobs")
        with open(path, "wb") as f:
            pickle.dump(jobs, f)
        r = subprocess.run([sys.executable, "-c", CHILD, os.path.dirname(os.path.dirname(os.path.abspath(__file__))), root, path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=build.ENV, timeout=200)
        os.remove(path)
        if r.returncode or b"RESULT" not in r.stdout:
            raise build.HarnessError("child failed: %s" % r.stderr[-2000:].decode(errors="replace"))
        got = pickle.loads(r.stdout.split(b"RESULT", 1)[1])
        c.desc(jobs=[(type(o).__name__, m) for o, m, _, _ in jobs])
        for (o, m, _, _), x, y in zip(jobs, want, got):
            c.ok(not isinstance(y, str), "%s of a %s sent to another process raises: %s" % (m, type(o).__name__, y))
            c.ok(equal(x, y), "%s of a %s sent to another process gives the same values" % (m, type(o).__name__), got=y, want=x)
        c.count("in_child", len(K))

    ck.section("copies", copies, 900, 30000)
    ck.section("lists", lists, 360, 9000)
    ck.section("view_lists", view_lists, 120, 3000)
    ck.section("view", view, 60, 2000)
    ck.section("child", child, 6, 60)
