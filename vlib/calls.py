"""Valid calls of every public function, in all documented argument forms."""
import numpy as np

from vlib import gen

PI = np.pi
TWOPI = 2 * PI


def _count(rng):
    return int(rng.integers(1, 14)) if rng.random() < .97 else int(rng.integers(500, 7000))


def _vec(rng, *gens):
    """Scalars or arrays of one shape (contiguous, strided or two-dimensional)."""
    k = rng.integers(0, 6)
    if k == 0:
        return [float(g(1)[0]) for g in gens]
    n = _count(rng)
    if k == 1:
        return [g(2 * n)[::2] for g in gens]
    if k == 2:
        return [g(2 * n).reshape(2, n) for g in gens]
    return [g(n) for g in gens]


def _vec1(rng, *gens):
    """Scalars or one-dimensional arrays."""
    if rng.random() < .2:
        return [float(g(1)[0]) for g in gens]
    n = _count(rng)
    return [g(2 * n)[::2] if rng.random() < .2 else g(n) for g in gens]


def _form(rng, v):
    v = [float(x) for x in v]
    return [list, tuple, np.array][rng.integers(0, 3)](v)


def _centre(rng, n):
    return {} if rng.random() < .3 else dict(center=_form(rng, rng.normal(size=n)))


def _xyz(rng):
    return lambda n: gen.coord(rng, n, 1.)


def _dir(rng):
    return lambda n: gen.phi(rng, n), lambda n: gen.theta(rng, n, safe=True)


def _away(rng):
    """Two directions that are neither equal nor opposite."""
    while True:
        a, b = gen.centre_dir(rng), gen.centre_dir(rng)
        u = [np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)]) for p, t in (a, b)]
        if 1e-3 < np.linalg.norm(u[0] - u[1]) and np.linalg.norm(u[0] + u[1]) > 1e-3:
            return a, b


def _ordered(rng, lo, hi):
    a, b = np.sort(rng.uniform(lo, hi, 2))
    return float(a), float(max(b, a + 1e-3 * (hi - lo)) if a + 1e-3 * (hi - lo) < hi else hi)


def table(rng):
    """name -> () -> (args, kwargs)"""
    x = _xyz(rng)
    P, T = _dir(rng)
    pos = lambda n: gen.loguniform(rng, .01, 10., n)
    r_ = lambda lo, hi: int(rng.integers(lo, hi))
    size = lambda: r_(1, 40) if rng.random() < .88 else int(rng.choice([64, 100, 128, 256, 1000, 1024, 2000, 10000])) if rng.random() < .6 else r_(1000, 20000)

    def rotate_polar():
        return (_vec(rng, P)[0], float(rng.uniform(0, TWOPI))), {}

    def rotate_polar_grid():
        n, m = r_(1, 9), r_(1, 5)
        p = np.linspace(0, TWOPI, n + 1) if rng.random() < .7 else np.linspace(*np.sort(rng.uniform(0, TWOPI, 2)), n + 1)
        top = TWOPI - 1e-3 if rng.random() < .7 else min(TWOPI - 1e-3, max(2e-3, p[1] - p[0]))
        return (p, rng.normal(size=(n, m)), float(rng.uniform(1e-3, top))), {}

    def usphere_rotate():
        s, e = _away(rng)
        p, t = _vec1(rng, P, T)
        if rng.random() < .3 and e[1] > .01:
            return (p, t, e[0], e[1]), dict(phi_start=s[0], theta_start=s[1])
        return (p, t, e[0], e[1], s[0], s[1]), {}

    def usphere_shift():
        p, t = _vec1(rng, P, T)
        s, e = _away(rng)
        if rng.random() < .2:
            e = [e[0], s[1]]
        return (p, t, s[0], s[1], e[0], e[1]), {}

    def usphere_spin():
        p, t = _vec1(rng, P, T)
        s = gen.centre_dir(rng)
        return (p, t, s[0], s[1], float(rng.uniform(0, TWOPI))), {}

    def grids(n):
        def f():
            if rng.random() < .3 and n > 1:
                L, g = [float(rng.uniform(.5, 5))] * n, [r_(1, 5)] * n
            else:
                L, g = [float(v) for v in rng.uniform(.5, 5, n)], [r_(1, 5) for _ in range(n)]
            kw = {} if rng.random() < .4 else dict(mins=[float(v) if rng.random() < .7 else None for v in rng.normal(size=n)])
            if rng.random() < .4:
                kw["return1d"] = True
            return (L, g), kw
        return f

    def rebin():
        n = r_(1, 10)
        e = gen.edges(rng, n)
        m = r_(1, 8)
        ne = np.sort(rng.uniform(e[0] - 1, e[-1] + 1, m + 1))
        kw = {}
        if rng.random() < .5:
            kw["w"] = rng.uniform(.1, 2, n)
        if rng.random() < .5:
            kw["sigma"] = rng.uniform(.1, 2, n)
        return (e, rng.normal(size=n), ne), kw

    def weights():
        e = gen.edges(rng, r_(1, 10))
        a, b = np.sort(rng.uniform(e[0] - .5, e[-1] + .5, 2))
        return (e, float(a), float(b)), {}

    def pix(steps=None):
        def f():
            nside = int(rng.choice([1, 2, 4, 8]))
            kw = {}
            if steps is not None:
                kw["steps"] = steps * r_(1, 8)
                if rng.random() < .5:
                    kw["reverse"] = True
            return (r_(0, 12 * nside**2), nside), kw
        return f

    def pixels():
        nside = int(rng.choice([1, 2, 4, 8]))
        p = rng.integers(0, 12 * nside**2, r_(1, 20))
        return (int(p[0]) if rng.random() < .3 else p, nside), {}

    def polar_pair():
        n, m = r_(1, 7), r_(1, 6)
        return n, m, np.concatenate([[0.], np.cumsum(rng.uniform(.1, 1, m))]), np.linspace(0, rng.uniform(1, TWOPI), n + 1)

    def polar2radial():
        n, m, re, pe = polar_pair()
        area = np.outer(np.diff(pe), np.diff(re**2) / 2)
        kw = {}
        if rng.random() < .5:
            kw["w"] = rng.uniform(.1, 2, (n, m))
        if rng.random() < .5:
            kw["sigma"] = rng.uniform(.1, 2, (n, m))
        return (rng.normal(size=(n, m)), area, float(rng.uniform(.01, 1))), kw

    def cumulative():
        n, m, re, pe = polar_pair()
        return (re, rng.normal(size=m)), ({} if rng.random() < .5 else dict(sigma=rng.uniform(.1, 2, m)))

    def pdf():
        xm = gen.edges(rng, r_(5, 20), ratio=3.)
        return xm, rng.uniform(.1, 2, len(xm))

    def pdf2cdf():
        xm, p = pdf()
        return (xm, p), ({} if rng.random() < .5 else dict(return_normpdf=False))

    def kinds():
        k = rng.choice(["", "linear", "cubic"])
        return {} if not k else dict(kind=str(k))

    def randoms_pdf():
        xm, p = pdf()
        return (xm, p, size()), kinds()

    def randoms_cdf():
        e = gen.edges(rng, r_(5, 15), ratio=3.)
        c = np.concatenate([[0.], np.cumsum(rng.uniform(.1, 1, len(e) - 1))])
        return (e, c / c[-1], size()), kinds()

    def boxed(n):
        def f():
            if rng.random() < .3:
                return (size(),), {}
            lo = rng.normal(size=n)
            hi = lo + rng.uniform(.1, 3, n)
            return (size(), _form(rng, lo), _form(rng, hi)), {}
        return f

    def radial(*ranges):
        def f():
            if rng.random() < .3:
                return (size(),), {}
            out = [size()]
            for lo, hi in ranges:
                out += _ordered(rng, lo, hi)
            return tuple(out), {}
        return f

    def sample():
        n = r_(3, 40) if rng.random() < .95 else r_(500, 9000)
        k = rng.integers(0, 3)
        return rng.normal(size=n) if k == 0 else rng.integers(0, 100, n) if k == 1 else rng.normal(size=(n, 2))

    def draw():
        s = sample()
        return (s, r_(1, len(s))), {}

    def prob_draw():
        s = sample()
        p = rng.uniform(.05, 1, len(s))
        return (s, p), ({} if rng.random() < .5 else dict(size=r_(1, len(s))))

    def stochastic():
        w = _vec(rng, lambda n: rng.choice([1., 4.]) * rng.random(n))[0]
        if np.ndim(w) and rng.random() < .15:
            w = rng.random((2, 3, np.size(w)))
        return (w,), {}

    def g2g(n):
        def f():
            g = [r_(1, 7) for _ in range(n)]
            out = [r_(1, 7) for _ in range(n)]
            L, o, oo = rng.uniform(.5, 5, n), rng.normal(size=n), rng.normal(size=n) * .3
            kw = {}
            if n == 1:
                if rng.random() < .5:
                    kw = dict(origin=float(o[0]), originout=float(o[0] + oo[0]), boxsizeout=float(L[0] * rng.uniform(.4, 1.6)))
                return (rng.normal(size=g[0]), float(L[0]), out[0]), kw
            if rng.random() < .5:
                kw = dict(origin=_form(rng, o), originout=_form(rng, o + oo), boxsizeout=_form(rng, L * rng.uniform(.4, 1.6, n)))
            f1 = rng.normal(size=g)
            if rng.random() < .3:
                f1 = np.asfortranarray(f1)
            return (f1, _form(rng, L), out if rng.random() < .5 else np.array(out)), kw
        return f

    def square():
        a, b = _ordered(rng, -2, 2)
        c, d = _ordered(rng, -2, 2)
        return (a, b, c, d), ({} if rng.random() < .5 else dict(steps=4 * r_(1, 9)))

    def box3():
        q = sum((list(_ordered(rng, -2, 2)) for _ in range(3)), [])
        kw = {} if rng.random() < .5 else dict(steps=12 * r_(1, 5))
        if rng.random() < .5:
            kw["return_nearest"] = True
            kw["center"] = _form(rng, rng.normal(size=3) * 5)
        return tuple(q), kw

    def arc():
        kw = _centre(rng, 2)
        if rng.random() < .6:
            kw["phimin"], kw["phimax"] = _ordered(rng, 0, TWOPI)
        if rng.random() < .6:
            kw["steps"] = r_(2, 30)
        return (float(pos(1)[0]),), kw

    def disc():
        kw = _centre(rng, 2)
        if rng.random() < .6:
            kw["phimin"], kw["phimax"] = _ordered(rng, 0, TWOPI)
            kw["rmin"], kw["rmax"] = _ordered(rng, 0, 3)
        if rng.random() < .6:
            kw["steps"] = 4 * r_(1, 12)
        return (), kw

    def hpbox():
        nside = int(rng.choice([1, 2, 4, 8]))
        return (size(), r_(0, 12 * nside**2), nside), {}

    def ragged():
        return ([rng.normal(size=r_(0, 5)) for _ in range(r_(1, 6))],), {}

    def polargrid():
        kw = {}
        if rng.random() < .6:
            kw["rmin"], kw["rmax"] = _ordered(rng, 0, 3)
            kw["phimin"], kw["phimax"] = _ordered(rng, 0, TWOPI)
        if rng.random() < .3:
            kw["return1d"] = True
        return (r_(1, 6), r_(1, 6)), kw

    def ea():
        kw = {} if rng.random() < .4 else dict(rmax=float(rng.uniform(.5, 4)), base_nphi=r_(1, 7))
        return (r_(1, 6),), kw

    def ea_npix():
        return (r_(1, 6),), ({} if rng.random() < .4 else dict(base_nphi=r_(1, 7)))

    def one_grid():
        kw = {} if rng.random() < .4 else dict(xmin=float(rng.normal()))
        return (float(rng.uniform(.5, 5)), r_(1, 9)), kw

    def one_grid_e():
        a, kw = one_grid()
        if rng.random() < .5:
            kw["return_edges"] = True
        return a, kw

    def ortho():
        u, v = _vec(rng, lambda n: rng.uniform(-1.3, 1.3, n), lambda n: rng.uniform(-1.3, 1.3, n))
        kw = {}
        if rng.random() < .5:
            kw["r"] = float(rng.uniform(.5, 2))
        if rng.random() < .3:
            kw["fill_value"] = -1.
        return (u, v), kw

    t = {
        "coords.cart2polar": lambda: (tuple(_vec(rng, x, x)), _centre(rng, 2)),
        "coords.polar2cart": lambda: (tuple(_vec(rng, pos, P)), _centre(rng, 2)),
        "coords.cart2sphere": lambda: (tuple(_vec(rng, x, x, x)), _centre(rng, 3)),
        "coords.sphere2cart": lambda: (tuple(_vec(rng, pos, P, T)), _centre(rng, 3)),
        "coords.ortho2cart": ortho,
        "coords.healpix_xy2ang": None,
        "coords.healpix_ang2xy": lambda: (tuple(_vec1(rng, P, T)), {}),
        "coords.usphere_area": lambda: (_ordered(rng, 0, TWOPI) + _ordered(rng, 0, PI), {}),
        "coords.sphere2lonlat": lambda: ((_vec(rng, T)[0],), {}),
        "coords.lonlat2sphere": lambda: ((_vec(rng, lambda n: rng.uniform(-PI / 2, PI / 2, n))[0],), {}),
        "coords.rotate_polar": rotate_polar,
        "coords.rotate_polar_grid": rotate_polar_grid,
        "coords.usphere_rotate": usphere_rotate,
        "coords.usphere_phi_shift": lambda: ((_vec(rng, P)[0], gen.angle(rng) * float(rng.choice([-1., 1.]))), {}),
        "coords.usphere_shift": usphere_shift,
        "coords.usphere_spin": usphere_spin,
        "grids.get_xedges": one_grid,
        "grids.xedges2mid": lambda: ((gen.edges(rng, r_(1, 9)),), {}),
        "grids.xmid2edges": lambda: ((np.linspace(0, 1, r_(2, 9)),), {}),
        "grids.grid1d": one_grid_e,
        "grids.grid2d": grids(2),
        "grids.grid3d": grids(3),
        "grids.polargrid": polargrid,
        "grids.polarEA_grid": ea,
        "grids.polarEA_area": ea,
        "grids.polarEA_npix": ea_npix,
        "one_d.rebin_1d_single_bin_weights": weights,
        "one_d.rebin_1d": rebin,
        "pixel.get_square": square,
        "pixel.get_arc": arc,
        "pixel.get_disc": disc,
        "pixel.get_box": box3,
        "pixel.healpix_boundary_top": pix(2),
        "pixel.healpix_boundary_bot": pix(2),
        "pixel.healpix_boundary": pix(4),
        "pixel.healpix_pix2ij": pixels,
        "pixel.healpix_pix2xy": pixels,
        "polar.get_polar_area2d": lambda: (tuple(polar_pair()[2:]), {}),
        "polar.get_pixarea": lambda: ((np.linspace(0, rng.uniform(1, 3), r_(2, 6)), np.linspace(-1, rng.uniform(1, 3), r_(2, 6))), {}),
        "polar.polar2radial": polar2radial,
        "polar.cumulative_radial": cumulative,
        "randoms.randoms_1d": lambda: ((size(),) + (() if rng.random() < .3 else _ordered(rng, -3, 3)), {}),
        "randoms.randoms_2d": boxed(2),
        "randoms.randoms_3d": boxed(3),
        "randoms.randoms_polar": radial((0, 3), (0, TWOPI)),
        "randoms.randoms_sphere_r": radial((0, 3)),
        "randoms.randoms_sphere": radial((0, 3), (0, TWOPI), (0, PI)),
        "randoms.randoms_usphere": radial((0, TWOPI), (0, PI)),
        "randoms.randoms_healpix_pixel": hpbox,
        "randoms.pdf2cdf": pdf2cdf,
        "randoms.randoms_cdf": randoms_cdf,
        "randoms.randoms_pdf": randoms_pdf,
        "randoms.shuffle": lambda: ((sample(),), {}),
        "randoms.random_draw": draw,
        "randoms.random_prob_draw": prob_draw,
        "randoms.stochastic_integer_weights": stochastic,
        "randoms.stochastic_binary_weights": stochastic,
        "remap.grid2grid1D": g2g(1),
        "remap.grid2grid2D": g2g(2),
        "remap.grid2grid3D": g2g(3),
        "utils.is_pos_monotonic": lambda: ((gen.edges(rng, r_(1, 9)),), {}),
        "utils.ragged_array": ragged,
    }
    for k in ("ij2pix", "i2id", "j2jd", "ij2xy", "ijd2ijs", "ijs2ijd", "ijs_neighbours"):
        t["pixel.healpix_" + k] = None
    return t


RANDOM = ["randoms.randoms_1d", "randoms.randoms_2d", "randoms.randoms_3d", "randoms.randoms_polar",
          "randoms.randoms_sphere_r", "randoms.randoms_sphere", "randoms.randoms_usphere",
          "randoms.randoms_healpix_pixel", "randoms.randoms_cdf", "randoms.randoms_pdf", "randoms.shuffle",
          "randoms.random_draw", "randoms.random_prob_draw", "randoms.stochastic_integer_weights",
          "randoms.stochastic_binary_weights"]
FORTRAN = ["remap.grid2grid1D", "remap.grid2grid2D", "remap.grid2grid3D"]


def make(rng, name, mp):
    """Arguments of one valid call; some chains take their input from another public function."""
    g = table(rng)[name]
    if g is not None:
        return g()
    if name == "coords.healpix_xy2ang":
        a, _ = table(rng)["coords.healpix_ang2xy"]()
        return tuple(mp.coords.healpix_ang2xy(*a)), {}
    (p, nside), _ = table(rng)["pixel.healpix_pix2ij"]()
    px = mp.pixel
    i, j = px.healpix_pix2ij(p, nside)
    short = name.split("healpix_")[1]
    if short in ("ij2pix", "j2jd", "ij2xy"):
        return (i, j, nside), {}
    if short == "i2id":
        return (i, nside), {}
    i, j = np.atleast_1d(i), np.atleast_1d(j)
    idd, jdd = np.asarray(px.healpix_i2id(i, nside), float), np.asarray(px.healpix_j2jd(i, j, nside), float)
    if short == "ijd2ijs":
        return (idd, jdd, nside), {}
    s = px.healpix_ijd2ijs(idd, jdd, nside)
    if short == "ijs2ijd":
        return (s[0], s[1], nside), {}
    k = rng.integers(0, len(s[0]))
    return (s[0][k], s[1][k], nside), {}


def resolve(mp, name):
    o = mp
    for part in name.split("."):
        o = getattr(o, part)
    return o


def names():
    return sorted(table(np.random.default_rng(0)))
