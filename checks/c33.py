"""Same seed, same result."""
import os
import pickle
import subprocess
import sys

import numpy as np

from vlib import build, calls, gen, kinds

PI = np.pi
CHILD = """
import pickle, sys, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
here, root, seeds = sys.argv[1], sys.argv[2], [int(s) for s in sys.argv[3:]]
sys.path[:0] = [root, here]
import numpy as np
np.seterr(all="ignore")
import magpie, magpie.montecarlo, magpie.densegrid
from checks import c33
sys.stdout.buffer.write(b"RESULT" + pickle.dumps([c33.history(magpie, s) for s in seeds]))
"""


def flat(v):
    """Numeric leaves of a result."""
    if isinstance(v, np.ndarray) and v.dtype == object:
        v = v.ravel().tolist()
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += flat(x)
        return out
    return [np.asarray(v)]


def equal(a, b):
    """The same values (up to the last bits that vector instructions may change)."""
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "fc":
            s = np.max(np.abs(np.where(np.isfinite(x), x, 0)), initial=0.)
            bad = ~((np.abs(x - y) <= 1e-12 * s) | (x == y) | (np.isnan(x) & np.isnan(y)))
            if np.any(bad):
                return False
        elif not np.array_equal(x, y):
            return False
    return True


def steps(mp, seed):
    """A list of (name, argument-free call) that uses the global generator; inputs depend on the seed only."""
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(int(rng.integers(2, 6))):
        name = str(rng.choice(calls.RANDOM if rng.random() < .6 else calls.names()))
        a, kw = calls.make(rng, name, mp)
        out.append((name, lambda n=name, a=a, kw=kw: calls.resolve(mp, n)(*a, **kw)))
    if rng.random() < .6:
        ks = [k for k in kinds.all_kinds(mp) if k.mc]
        if rng.random() < .3:
            ks = [k for k in kinds.all_kinds(mp) if not k.mc]
        k = ks[rng.integers(0, len(ks))]
        q = k.request(rng, small=True)
        f, w = k.map(rng, q), k.weights(rng, q)
        n = int(rng.integers(5, 40))

        def mc():
            o = k.prepare(q, n)
            return [o.remap(f, verbose=False)] + ([o.remap(f, w, verbose=False)] if k.weighted else [])
        out.insert(int(rng.integers(0, len(out))), (k.name, mc))
    return out


def history(mp, seed):
    np.random.seed(seed)
    return [(n, f()) for n, f in steps(mp, seed)]


def setup(ck):
    mp, root = build.load(need_fortran=True)
    K = kinds.all_kinds(mp)
    det = [n for n in calls.names() if n not in calls.RANDOM]
    ck.rule = "Random programs of random calls and Monte Carlo remaps, replayed under equal seeds after unrelated draws, calls and memory churn, and in new processes with other hash seeds; deterministic functions and dense remaps under different generator states."
    for n in calls.RANDOM:
        ck.need("replayed_" + n, 60)
        ck.need("seeds_" + n, 20)
    for k in K:
        ck.need(("replayed_" if k.mc else "dense_") + k.name, 20)
        if k.mc:
            ck.need("seeds_" + k.name, 8)
    for n in det:
        ck.need("deterministic_" + n, 15)
    ck.need("process_steps", 250)
    ck.assumptions = ["Values count as identical when they agree to 1e-12 of their largest entry; the last bits may depend on memory alignment."]

    def churn(rng):
        """Leaves recently used, freed memory behind."""
        for _ in range(6):
            x = [rng.normal(size=int(s)) for s in rng.integers(1, 400, 12)]
            del x

    def state():
        s = np.random.get_state()
        return (s[0], s[1].tobytes(), s[2], s[3], s[4])

    def replay(c):
        seed = int(c.rng.integers(0, 2**31))
        c.desc(seed=seed)
        a = history(mp, seed)
        for rep in range(2):
            churn(c.rng)
            np.random.random(int(c.rng.integers(1, 700)))
            history(mp, int(c.rng.integers(0, 2**31)))
            for _ in range(3):
                n = str(c.rng.choice(calls.RANDOM))
                x, kw = calls.make(c.rng, n, mp)
                calls.resolve(mp, n)(*x, **kw)
            b = history(mp, seed)
            c.ok(len(a) == len(b), "same history")
            for (n, x), (_, y) in zip(a, b):
                c.ok(equal(x, y), "%s gives other values when the same history is repeated under the same seed" % n, first=x, again=y)
                c.count("replayed_" + n)

    def seeds(c):
        rng = c.rng
        name = calls.RANDOM[c.index % len(calls.RANDOM)]
        a, kw = calls.make(rng, name, mp)
        a = list(a)
        if name.startswith("randoms.randoms_"):
            i = 2 if name.endswith(("cdf", "pdf")) else 0
            a[i] = int(rng.choice([30, 300, 3000, 3000, 60000]))
        else:
            m = int(rng.choice([200, 256, 700, 3000, 60000]))
            s = rng.normal(size=m)
            a = [s]
            kw = {}
            if name.endswith("random_draw"):
                a.append(m // 2)
            elif name.endswith("prob_draw"):
                a.append(rng.uniform(.2, .8, m))
                if rng.random() < .5:
                    kw["size"] = m // 2
            elif "stochastic" in name:
                a = [rng.uniform(.2, .8, m)]
        f = calls.resolve(mp, name)
        s1, s2 = (int(v) for v in rng.choice(2**31, 2, replace=False))
        c.desc(function=name, args=a, kwargs=kw, seeds=[s1, s2])
        np.random.seed(s1)
        x = f(*a, **kw)
        y = f(*a, **kw)
        np.random.seed(s2)
        z = f(*a, **kw)
        np.random.seed(s1)
        x2 = f(*a, **kw)
        c.ok(equal(x, x2), "the same seed gives the same values", got=[x, x2])
        c.ok(not equal(x, z), "different seeds give different values")
        if name.startswith("randoms.randoms_"):
            for p, q, r in zip(flat(x), flat(y), flat(z)):
                c.ok(not np.any(p == r), "different seeds give different values in every coordinate", got=[p, r])
                c.ok(not np.any(p == q), "a repeated draw gives new values in every coordinate", got=[p, q])
        c.ok(not equal(x, y), "a repeated draw without reseeding gives new values")
        if "stochastic" in name:
            ws = [float(v) for v in gen.loguniform(rng, 1e-6, 1e9, 60)]
            outs = []
            for s in (s1, s1):
                churn(rng)
                np.random.seed(s)
                outs.append([float(f(v)) for v in ws])
            c.ok(outs[0] == outs[1], "the same seed gives the same values for scalars", got=outs)
        c.count("seeds_" + name)

    def mcseeds(c):
        rng = c.rng
        ks = [k for k in K if k.mc]
        k = ks[c.index % len(ks)]
        if k.source == "heal":
            b = dict(nside=16)
        else:
            b = {x: v for ax in "xyz" for x, v in ((ax + "min", -1.), (ax + "max", 1.), ("num" + ax, 20))}
        t = {"ring": dict(rmin=.1, rmax=.9, numr=2, nump=3, center=[.05, 0.]), "shell": dict(rmin=.1, rmax=.9, numr=2, nside=1, center=[.05, 0., 0.]),
             "cap": dict(alpha_min=.2, alpha_max=1.4, num_alpha=2, num_beta=3), "angbox": dict(x_length=1.5, x_grid=2)}[k.target]
        many = rng.random() < .5
        if many:
            t = dict(t)
            for n in ("numr", "nump", "num_alpha", "num_beta", "x_grid"):
                if n in t:
                    t[n] = int(rng.integers(1, 9))
        q = dict(source=b, target=t, form="lin" if k.target in ("ring", "shell") else None, addzero=None)
        f = k.map(rng, q)
        s1, s2 = (int(v) for v in rng.choice(2**31, 2, replace=False))
        c.desc(kind=k.name, seeds=[s1, s2])
        outs = [k.prepare(q, 300, s).remap(f, verbose=False) for s in (s1, s2, s1)]
        o = k.prepare(q, 300, s1)
        a = o.remap(f, verbose=False)
        np.random.seed(s2)
        b2 = o.remap(f, verbose=False)
        c.ok(equal(outs[0], outs[2]), "the same seed gives the same Monte Carlo remap")
        c.ok(equal(outs[0], a) and equal(a, b2), "a remap with given weights does not depend on the generator")
        # small pixels may hold so few cells that two draws agree
        few = (lambda m: np.mean(m) > .3) if many else np.any
        c.ok(not few(outs[0] == outs[1]), "different seeds give different Monte Carlo remaps in every pixel")
        o.get_weights(300, verbose=False)
        c.ok(not few(o.remap(f, verbose=False) == a), "new weights without reseeding are new draws")
        c.count("seeds_" + k.name)

    def deterministic(c):
        rng = c.rng
        name = det[c.index % len(det)]
        f = calls.resolve(mp, name)
        c.desc(function=name)
        for _ in range(3):
            a, kw = calls.make(rng, name, mp)
            c.desc(args=a, kwargs=kw)
            outs = []
            for s in range(3):
                np.random.seed(int(rng.integers(0, 2**31)))
                churn(rng)
                before = state()
                outs.append(f(*a, **kw))
                c.ok(state() == before, "%s advances the global generator" % name)
            c.ok(equal(outs[0], outs[1]) and equal(outs[0], outs[2]), "%s gives different values for the same input" % name, got=outs)
            c.count("deterministic_" + name)

    def dense(c):
        rng = c.rng
        ks = [k for k in K if not k.mc]
        k = ks[c.index % len(ks)]
        q = k.request(rng)
        f, w = k.map(rng, q), k.weights(rng, q)
        c.desc(kind=k.name, request=q)
        outs = []
        for s in range(3):
            np.random.seed(int(rng.integers(0, 2**31)))
            churn(rng)
            before = state()
            o = k.prepare(q)
            r = [o.remap(f, verbose=False), o.remap(f, verbose=False)]
            if k.weighted:
                r.append(o.remap(f, w, verbose=False))
            if k.target == "ring":
                o.get_mask_in_bound(verbose=False)
            if k.ring:
                r.append(o.polar2radial(np.where(np.isfinite(r[0]), r[0], 0.)))
            c.ok(state() == before, "the dense remap advances the global generator")
            c.ok(equal(r[0], r[1]), "a second remap gives the same values")
            outs.append(r)
        c.ok(equal(outs[0], outs[1]) and equal(outs[0], outs[2]), "the dense remap gives different values for the same input")
        c.count("dense_" + k.name)

    def process(c):
        seeds = [int(s) for s in c.rng.integers(0, 2**31, 60)]
        c.desc(seeds=seeds)
        env = dict(build.ENV, PYTHONHASHSEED=str(c.index + 1), OMP_NUM_THREADS="1")
        for v in ("TZ", "LC_ALL"):
            env.pop(v, None)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.run([sys.executable, "-c", CHILD, here, root] + [str(s) for s in seeds], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=200)
        if p.returncode or b"RESULT" not in p.stdout:
            raise build.HarnessError("child failed: " + p.stderr.decode(errors="replace")[-1500:])
        theirs = pickle.loads(p.stdout.split(b"RESULT", 1)[1])
        for s, h in zip(seeds, theirs):
            mine = history(mp, s)
            for (n, x), (_, y) in zip(mine, h):
                c.ok(equal(x, y), "%s gives other values in a new process under the same seed" % n, seed=s, here=x, there=y)
                c.count("process_steps")

    ck.section("replay", replay, 700, 40000)
    ck.section("seeds", seeds, 600, 30000)
    ck.section("mcseeds", mcseeds, 96, 4800)
    ck.section("deterministic", deterministic, 900, 50000)
    ck.section("dense", dense, 250, 16000)
    ck.section("process", process, 8, 128)
