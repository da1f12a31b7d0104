"""Results depend on the values passed, not on how they are stored or on their neighbours."""
import copy

import numpy as np

from checks.c33 import flat
from vlib import build, calls, gen, kinds, ref

PI = np.pi
ANGLES = {"coords.rotate_polar", "coords.usphere_phi_shift"}
DIRECTIONS = {"coords.usphere_rotate", "coords.usphere_shift", "coords.usphere_spin", "coords.healpix_xy2ang"}
# positions of the arguments that are taken element by element
ELEMENTS = {"coords.cart2polar": (0, 1), "coords.polar2cart": (0, 1), "coords.cart2sphere": (0, 1, 2), "coords.sphere2cart": (0, 1, 2),
            "coords.ortho2cart": (0, 1), "coords.healpix_xy2ang": (0, 1), "coords.healpix_ang2xy": (0, 1), "coords.lonlat2sphere": (0,),
            "coords.sphere2lonlat": (0,), "coords.rotate_polar": (0,), "coords.usphere_phi_shift": (0,), "coords.usphere_rotate": (0, 1),
            "coords.usphere_shift": (0, 1), "coords.usphere_spin": (0, 1), "pixel.healpix_pix2ij": (0,), "pixel.healpix_pix2xy": (0,),
            "pixel.healpix_ij2pix": (0, 1), "pixel.healpix_ij2xy": (0, 1), "pixel.healpix_j2jd": (0, 1), "pixel.healpix_i2id": (0,),
            "pixel.healpix_ijd2ijs": (0, 1), "pixel.healpix_ijs2ijd": (0, 1)}
ONE_D = {n for n in ELEMENTS if "usphere_r" in n or "usphere_s" in n or "healpix" in n}
# arguments that may hold whole numbers (positions and keywords)
WHOLE = {"coords.cart2polar": (0, 1), "coords.polar2cart": (0, 1), "coords.cart2sphere": (0, 1, 2), "coords.sphere2cart": (0, 1, 2), "coords.ortho2cart": (0, 1),
         "coords.healpix_ang2xy": (0, 1), "coords.sphere2lonlat": (0,), "coords.lonlat2sphere": (0,), "coords.rotate_polar": (0,), "coords.rotate_polar_grid": (1,),
         "coords.usphere_rotate": (0, 1), "coords.usphere_phi_shift": (0,), "coords.usphere_shift": (0, 1), "coords.usphere_spin": (0, 1),
         "one_d.rebin_1d": (1, "w", "sigma"), "polar.polar2radial": (0, "w", "sigma"), "polar.cumulative_radial": (1, "sigma"),
         "randoms.pdf2cdf": (1,), "randoms.randoms_pdf": (1,), "randoms.stochastic_integer_weights": (0,), "randoms.shuffle": (0,), "randoms.random_draw": (0,),
         "randoms.random_prob_draw": (0,), "remap.grid2grid1D": (0,), "remap.grid2grid2D": (0,), "remap.grid2grid3D": (0,)}


def strided(a):
    b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
    v = b[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def reverse(a):
    s = tuple(slice(None, None, -1) for _ in a.shape)
    return a[s].copy()[s]


def locked(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def offset(a):
    """Not aligned to the size of its numbers."""
    raw = np.zeros(a.nbytes + 1, np.uint8)
    v = raw[1:].view(a.dtype).reshape(a.shape)
    v[...] = a
    return v


class Sub(np.ndarray):
    pass


STORED = dict(strided=strided, reversed=reverse, locked=locked, fortran=np.asfortranarray, contiguous=np.ascontiguousarray, swapped=lambda a: a.astype(a.dtype.newbyteorder(">")),
              unaligned=offset, subclass=lambda a: a.copy().view(Sub))


def store(rng, v):
    if isinstance(v, np.ndarray) and v.dtype.kind in "fiu":
        k = list(STORED)[rng.integers(0, len(STORED))]
        return STORED[k](v), k
    if type(v) is int:
        return rng.choice([np.int64, np.int32])(v), "scalar"
    if type(v) is float:
        return np.float64(v), "scalar"
    return v, None


def stored(rng, a, kw):
    used = []
    b, k = [], {}
    for x in a:
        y, u = store(rng, x)
        b.append(y)
        used.append(u)
    for n, x in kw.items():
        y, u = store(rng, x)
        k[n] = y
        used.append(u)
    return b, k, [u for u in used if u]


def turns(p):
    """Whole turns of an angle outside one turn; its ends count as inside."""
    with np.errstate(invalid="ignore"):
        return np.where((p >= -1e-5) & (p <= 2 * PI + 1e-5) | np.isnan(p), 0., np.floor(p / (2 * PI))), 0.


def canon(name, out):
    """Quantities that change little when the result changes little, with their absolute tolerances relative to the inputs' rounding."""
    if name in ANGLES:
        p = np.asarray(out, float)
        return [(np.cos(p), 1.), (np.sin(p), 1.), turns(p)]
    if name in DIRECTIONS or name == "coords.cart2sphere":
        r, p, t = (1., *out) if name in DIRECTIONS else out
        p, t = np.asarray(p, float), np.asarray(t, float)
        u = np.asarray(r)[..., None] * ref.unit(p, t)
        s = np.abs(np.sin(t))
        e = np.asarray(r) * (1 + np.minimum(1e5, 1e-2 / np.maximum(s, 1e-12)))
        return [(u[..., i], e) for i in range(3)] + [turns(p)]
    if name == "coords.cart2polar":
        r, p = (np.asarray(v, float) for v in out)
        return [(r * np.cos(p), r), (r * np.sin(p), r), turns(p)]
    res = []
    for x in flat(out):
        if x.dtype.kind in "fiu":
            x = x.astype(float)
        res.append((x, np.max(np.abs(np.where(np.isfinite(x), x, 0)), initial=0.) if x.dtype.kind == "f" else 0.))
    return res


def compare(c, name, a, b, msg, eps=1e-12, size=0., pick=None, **data):
    """a: canonical reference, b: canonical result for the elements `pick` of it."""
    c.ok(len(a) == len(b), msg + " (number of results)", got=len(b), want=len(a))
    for (x, s), (y, _) in zip(a, b):
        if pick is not None:
            x = np.asarray(x)[pick]
            s = np.asarray(s)[pick] if np.ndim(s) else s
        x, y = np.asarray(x), np.asarray(y)
        c.ok(x.shape == y.shape, msg + " (shape)", got=y.shape, want=x.shape, function=name)
        if x.dtype.kind != "f":
            c.ok(np.array_equal(x, y), msg, function=name, **data)
            continue
        tol = eps * (np.asarray(s) + size)
        with np.errstate(invalid="ignore"):
            good = (np.abs(x - y) <= tol) | (x == y) | (np.isnan(x) & np.isnan(y))
        c.ok(np.all(good), msg, function=name, got=y, want=x, **data)


def magnitude(a, kw):
    m = 0.
    for v in list(a) + list(kw.values()):
        try:
            v = np.asarray(v, float)
        except (TypeError, ValueError):
            continue
        m = max(m, float(np.max(np.abs(np.where(np.isfinite(v), v, 0)), initial=0.)))
    return m


def setup(ck):
    mp, root = build.load(need_fortran=True)
    K = kinds.all_kinds(mp)
    names = calls.names()
    arrays = []
    for n in names:
        r = np.random.default_rng(1)
        if any(isinstance(v, np.ndarray) for _ in range(60) for q in [calls.make(r, n, mp)] for v in list(q[0]) + list(q[1].values())):
            arrays.append(n)
    ck.rule = "Every function and class with the same values stored in different ways (memory layout, byte order, alignment, integer and single-precision types, NumPy scalars), and every elementwise function with its elements permuted, split, repeated, reshaped and passed one by one."
    for n in names:
        ck.need("stored_" + n, 12)
    for n in WHOLE:
        ck.need("whole_" + n, 12)
    for n in ELEMENTS:
        ck.need("elements_" + n, 12)
    for k in K:
        ck.need("remap_" + k.name, 20)
    ck.need("views", 100)
    ck.need("index_arrays", 100)
    ck.need("single_numbers", 2000)
    ck.assumptions = ["Single precision data are compared to single precision. Integer types of less than 32 bits, lists in place of arrays and 0-dimensional arrays are left out."]

    def invoke(name, a, kw, seed):
        np.random.seed(seed)
        return calls.resolve(mp, name)(*a, **kw)

    def layouts(c):
        rng = c.rng
        name = names[c.index % len(names)]
        for rep in range(3):
            a, kw = calls.make(rng, name, mp)
            c.desc(function=name, args=a, kwargs=kw)
            want = canon(name, invoke(name, copy.deepcopy(a), copy.deepcopy(kw), rep))
            for again in range(2):
                b, k, used = stored(rng, a, kw)
                if not used:
                    b, k = copy.deepcopy(a), copy.deepcopy(kw)
                got = canon(name, invoke(name, b, k, rep))
                compare(c, name, want, got, "the same values stored in another way give the same result", size=magnitude(a, kw) if name.startswith("coords") else 0., stored=used)
                c.count("stored_" + name)
                for u in used:
                    c.count("layout_" + u)

    whole = sorted(WHOLE)
    TYPES = ["i8", "i4", "u4", "u8", ">i4", ">i8", "f4", "f8"]

    def wholes(c):
        rng = c.rng
        name = whole[c.index % len(whole)]
        pos = WHOLE[name]
        for rep in range(3):
            a, kw = calls.make(rng, name, mp)
            a = list(a)
            top = 3 if name.startswith("coords") else 9
            low = 1 if "pdf" in name else 0

            def whole_numbers(v, lo):
                return np.clip(np.floor(np.abs(v) * 3), lo, top).astype(float)
            for p in pos:
                if isinstance(p, str):
                    if p in kw:
                        kw[p] = whole_numbers(kw[p], 1)
                elif isinstance(a[p], np.ndarray):
                    a[p] = whole_numbers(a[p], low)
                elif isinstance(a[p], float):
                    a[p] = float(whole_numbers(a[p], low))
            if "pdf" in name:
                a[1] = np.maximum(a[1], 1.)
            c.desc(function=name, args=a, kwargs=kw)
            want = canon(name, invoke(name, copy.deepcopy(a), copy.deepcopy(kw), rep))
            t = str(rng.choice(TYPES))

            def other(v):
                if isinstance(v, np.ndarray):
                    return v.astype(t)
                return v if t[0] == "f" else int(v)
            b = [other(v) if i in pos else v for i, v in enumerate(a)]
            k = {n: other(v) if n in pos else v for n, v in kw.items()}
            got = canon(name, invoke(name, b, k, rep))
            single = t == "f4" and any(isinstance(v, np.ndarray) and v.dtype == np.float32 for v in list(b) + list(k.values()))
            if single and name.startswith("randoms") and "shuffle" not in name and "draw" not in name:
                continue                        # a draw may fall on the other side of a rounded step
            if single and name in DIRECTIONS | {"coords.healpix_ang2xy", "coords.ortho2cart", "coords.cart2sphere"}:
                continue                        # single precision angles near the poles, seams and the limb
            compare(c, name, want, got, "whole numbers in another numeric type give the same result", 2e-5 if single else 1e-12,
                    size=magnitude(a, kw) if name.startswith("coords") else 0., type=t)
            c.count("whole_" + name)
            c.count("type_" + t)

    EDGES = {"one_d.rebin_1d": (0, 2), "one_d.rebin_1d_single_bin_weights": (0,), "polar.cumulative_radial": (0,), "randoms.pdf2cdf": (0,), "randoms.randoms_pdf": (0,),
             "randoms.randoms_cdf": (0,), "grids.xedges2mid": (0,), "grids.xmid2edges": (0,), "utils.is_pos_monotonic": (0,)}
    edged = sorted(EDGES)

    def edges(c):
        """Whole-number edges of any type, next to other arguments that are not whole."""
        rng = c.rng
        name = edged[c.index % len(edged)]
        for rep in range(4):
            a, kw = calls.make(rng, name, mp)
            a = list(a)
            even = name in ("randoms.pdf2cdf", "randoms.randoms_pdf", "grids.xmid2edges")
            for p in EDGES[name]:
                n = len(a[p])
                if n > 1:
                    a[p] = np.cumsum(np.full(n, rng.integers(1, 5)) if even else rng.integers(1, 5, n)).astype(float) + float(rng.integers(0, 9))
            for k, v in kw.items():
                if isinstance(v, np.ndarray):
                    kw[k] = v * 3
            c.desc(function=name, args=a, kwargs=kw)
            want = canon(name, invoke(name, copy.deepcopy(a), copy.deepcopy(kw), rep))
            b, types = list(a), []
            for p in EDGES[name]:
                types.append(str(rng.choice(["i8", "i4", "u4", "u8", ">i4", ">i8", "f8"])))
                b[p] = np.asarray(a[p]).astype(types[-1])
            compare(c, name, want, canon(name, invoke(name, b, copy.deepcopy(kw), rep)), "edges that are whole numbers in another numeric type give the same result", 1e-12, type=types)
            c.count("edges_" + name)
    for n in EDGES:
        ck.need("edges_" + n, 50)
    ck.section("edges", edges, 360, 20000)

    elem = sorted(ELEMENTS)

    def pieces(c, name, f, cols, want, size, one_d, scalars=True, judge=None):
        """f(*columns) for other arrangements of the same elements."""
        rng = c.rng
        n = len(cols[0])
        one = judge or (lambda got, pick, msg: compare(c, name, want, canon(name, got), msg, size=size, pick=pick))
        order = rng.permutation(n)
        one(f(*[v[order] for v in cols]), order, "elements in another order give the same results in that order")
        if n > 1:
            k = int(rng.integers(1, n))
            for s in (np.arange(k), np.arange(k, n)):
                one(f(*[v[s] for v in cols]), s, "a part of the elements gives the same results")
        m = int(rng.choice([3, 50, 700, 5000])) if rng.random() < .9 else int(rng.choice([100001, 300000]))
        many = rng.integers(0, n, max(n, m))
        one(f(*[v[many] for v in cols]), many, "repeated elements give the same results")
        if not one_d:
            box = rng.integers(0, n, (int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 4)))[:int(rng.integers(2, 4))])
            one(f(*[v[box] for v in cols]), box, "elements in an array of more dimensions give the same results")
            c.count("more_dimensions")
        if scalars:
            for j in rng.integers(0, n, 4):
                one(f(*[v[j].item() for v in cols]), int(j), "a single number gives what it gives within an array")
                c.count("single_numbers")

    def elements(c):
        rng = c.rng
        name = elem[c.index % len(elem)]
        pos = ELEMENTS[name]
        while True:
            a, kw = calls.make(rng, name, mp)
            if all(np.ndim(a[p]) == 1 for p in pos):
                break
        cols = [np.array(a[p]) for p in pos]
        if name == "coords.ortho2cart":
            r = kw.get("r", 1.)
            near = np.abs(np.hypot(*cols) - r) < 1e-6 * r
            cols[0] = np.where(near, 0., cols[0])
        if name == "coords.healpix_ang2xy":
            cols[0] = np.where(np.abs(np.remainder(cols[0] + .1, PI / 2) - .1) < 1e-6, .3, cols[0])
        c.desc(function=name, args=a, kwargs=kw)

        def f(*v):
            b = list(a)
            for p, x in zip(pos, v):
                b[p] = x
            return invoke(name, b, kw, 0)
        want = canon(name, f(*[v.copy() for v in cols]))
        pieces(c, name, f, cols, want, magnitude(a, kw), name in ONE_D, name not in ("pixel.healpix_ijd2ijs", "pixel.healpix_ijs2ijd"))
        c.count("elements_" + name)

    def remaps(c):
        rng = c.rng
        k = K[c.index % len(K)]
        q = k.request(rng, small=True)
        f, w = k.map(rng, q), k.weights(rng, q)
        if rng.random() < .5:
            f, w = np.round(f / np.max(np.abs(f)) * 50), np.round(w * 3) + 1.
        whole_map = bool(np.all(f == np.round(f)) and np.max(np.abs(f)) <= 50)
        o = k.prepare(q, 12)
        c.desc(kind=k.name, request=q)
        s = k.out_shape(q)
        use = k.weighted and rng.random() < .5
        g, sig, wg = rng.normal(size=s), rng.uniform(.1, 1, s), rng.uniform(.1, 1, s)

        def types(v, whole_numbers):
            if whole_numbers and rng.random() < .6:
                t = str(rng.choice(["i8", "i4", ">i8"] + (["u8", "u4"] if np.min(v, initial=0) >= 0 else [])))
                return v.astype(t), t
            return store(rng, v)

        def run(vary):
            F, W, G, S, Q = f.copy(), w.copy(), g.copy(), sig.copy(), wg.copy()
            used = []
            if vary:
                F, u = types(F, whole_map)
                used.append(u)
                W, u = types(W, whole_map)
                used.append(u)
                G, S, Q = (store(rng, v)[0] for v in (G, S, Q))
            out = [o.remap(F, W, verbose=False) if use else o.remap(F, verbose=False)]
            if k.ring:
                out += [o.rotate_polar(G, 1.25)]
                out += list(o.polar2radial(G, sigma=S)) + [o.polar2radial(G, w=Q)]
            return out, used
        want = run(False)[0]
        for rep in range(3):
            got, used = run(True)
            c.ok(len(want) == len(got), "as many results", got=len(got))
            for x, y in zip(want, got):
                for x1, y1 in zip(canon("", x), canon("", y)):
                    compare(c, k.name, [x1], [y1], "the same map stored in another way is remapped to the same values", 1e-11, stored=used)
            c.count("remap_" + k.name)
        if not use and rng.random() < .5:
            got = o.remap(f.astype("f4"), verbose=False)
            compare(c, k.name, canon("", want[0]), canon("", got), "a map in single precision is remapped to single precision", 1e-5, size=float(np.max(np.abs(f), initial=0.)))
            c.count("single_precision")
        # grid requests given as NumPy numbers
        if not k.mc:
            p = copy.deepcopy(q)
            for part in ("source", "target"):
                p[part] = {n: store(rng, v)[0] if type(v) in (int, float) else np.array(v) if isinstance(v, list) and rng.random() < .5 else v for n, v in p[part].items()}
            u = k.prepare(p)
            got = u.remap(f.copy(), w.copy(), verbose=False) if use else u.remap(f.copy(), verbose=False)
            compare(c, k.name, canon("", want[0]), canon("", got), "a request in NumPy numbers gives the same remap", 1e-11)

    def views(c):
        rng = c.rng
        n = int(rng.integers(2, 30))
        if c.index % 2:
            o = mp.densegrid.PointOfView()
            cam = rng.normal(size=3) * 3
            o.setup(cam.tolist(), (cam + rng.normal(size=3)).tolist(), float(gen.loguniform(rng, .1, 10)), spin=gen.angle(rng))
            P = [rng.normal(size=n) * 5 for _ in range(3)]
            f, name = o.transform, "PointOfView.transform"
            if rng.random() < .5:
                f, name = o.reverse, "PointOfView.reverse"
                P[2] = np.abs(P[2])
        else:
            o = mp.densegrid.Heal2Ortho()
            o.setup_map(4)
            o.setup_box(1., 3, center=[float(v) for v in gen.centre_dir(rng)])
            P = [gen.phi(rng, n), gen.theta(rng, n, safe=True)]
            f, name = o.transform, "Heal2Ortho.transform"
            x, y = f(*[v.copy() for v in P])
            keep = np.isnan(x) | (np.hypot(np.nan_to_num(x), np.nan_to_num(y)) < 1 - 1e-6)
            # directions at the limb may go either way
            z = ref.unit(*P) @ ref.unit(*o.center)
            keep &= np.abs(z) > 1e-6
            P = [v[keep] for v in P]
            n = len(P[0])
            if n == 0:
                return
        c.desc(method=name, points=P)
        out = [np.asarray(v, float) for v in f(*[v.copy() for v in P])]
        size = 1. + magnitude(P, {})
        # points far off the view axis (or level with the camera) have large coordinates of their own
        own = np.max([np.abs(np.nan_to_num(v)) for v in out], axis=0)
        ok = np.isfinite(own) & (own < 1e4)

        def judge(got, pick, msg):
            for x, y in zip(out, got):
                x, y = x[pick], np.asarray(y, float)
                c.ok(x.shape == y.shape, msg + " (shape)", got=y.shape, want=x.shape)
                good = (np.abs(x - y) <= 1e-9 * (size + own[pick])**2) | (np.isnan(x) & np.isnan(y)) | ~ok[pick]
                c.ok(np.all(good), msg, got=y, want=x)
        pieces(c, name, f, P, None, size, True, judge=judge)
        V = [store(rng, v)[0] for v in P]
        judge(f(*V), np.arange(n), "the same values stored in another way give the same result")
        c.count("views")

    def indices(c):
        """Pixel and ring numbers in every integer type, up to resolutions where products of them need more than 32 bits."""
        rng = c.rng
        px = mp.pixel
        nside = int(rng.choice([1, 3, 8, 64, 1000, 1024, 4096, 8192]))
        p = np.concatenate([rng.integers(0, 12 * nside**2, 200), [0, 12 * nside**2 - 1]])
        t = str(rng.choice(["i4", "u4", "u8", ">i4", ">i8", "f8"]))
        c.desc(nside=nside, type=t)
        i, j = (np.asarray(v) for v in px.healpix_pix2ij(p, nside))
        q, k, l = p.astype(t), i.astype(t), j.astype(t)
        steps = dict(pix2ij=(px.healpix_pix2ij(q, nside), (i, j)), pix2xy=(px.healpix_pix2xy(q, nside), px.healpix_pix2xy(p, nside)),
                     ij2pix=(px.healpix_ij2pix(k, l, nside), p), ij2xy=(px.healpix_ij2xy(k, l, nside), px.healpix_ij2xy(i, j, nside)),
                     j2jd=(px.healpix_j2jd(k, l, nside), px.healpix_j2jd(i, j, nside)), i2id=(px.healpix_i2id(k, nside), px.healpix_i2id(i, nside)))
        for name, (got, want) in steps.items():
            compare(c, name, [(x.astype(float), 1. + np.abs(x)) for x in flat(want)], [(x.astype(float), 0.) for x in flat(got)], "pixel numbers in another type give the same result")
        c.count("index_arrays")

    ck.section("indices", indices, 120, 4000)
    ck.section("layouts", layouts, 1100, 30000)
    ck.section("wholes", wholes, 520, 15000)
    ck.section("elements", elements, 660, 20000)
    ck.section("remaps", remaps, 360, 9000)
    ck.section("views", views, 300, 9000)
