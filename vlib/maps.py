"""Generated map geometries and independent models of how target pixels overlap map cells."""
import healpy as hp
import numpy as np

from vlib import gen, ref

PI = np.pi
TWOPI = 2. * np.pi


def enlarge(rng, d, names, p=.06, hi=48):
    """Now and then a grid that is long in one direction."""
    if rng.random() < p:
        d[names[rng.integers(0, len(names))]] = int(rng.integers(8, hi + 1))
    return d


def inner(rng, rmax, hi):
    """An inner radius: anywhere, now and then just inside the outer one."""
    return float(rmax * (1 - gen.loguniform(rng, 1e-4, .1) if rng.random() < .15 else rng.uniform(.05, hi)))


# ---------------------------------------------------------------- boxes and polar grids
def box(rng, nmax=10, nmin=1):
    nx, ny = (int(rng.integers(nmin, nmax + 1)) for _ in range(2))
    lx = gen.scale(rng, .3, 30., 1e-8, 1e8)
    ly = lx if rng.random() < .3 else lx * float(rng.uniform(.4, 2.5))
    x0 = float(rng.choice([-lx / 2, 0., rng.normal() * 3 * lx]))
    y0 = float(rng.choice([-ly / 2, 0., rng.normal() * 3 * ly]))
    return dict(xmin=x0, xmax=x0 + lx, numx=nx, ymin=y0, ymax=y0 + ly, numy=ny)


def setup_box(o, b):
    o.setup_box(b["xmin"], b["xmax"], b["numx"], b["ymin"], b["ymax"], b["numy"])


def arc(rng):
    """Ends of a partial range of angles: from zero, up to a whole turn, generic; wide and narrow."""
    a = 0. if rng.random() < .4 else float(rng.uniform(0, 6.1))
    w = float(rng.uniform(.3, TWOPI)) if rng.random() < .8 else float(gen.loguniform(rng, .02, .3))
    return a, (TWOPI if rng.random() < .2 else min(TWOPI, a + w))


def ring(rng, b, rmax_bins=5, pmax_bins=7, full=None, shift=None, inside=False):
    lx, ly = b["xmax"] - b["xmin"], b["ymax"] - b["ymin"]
    k = int(rng.integers(0, 5))
    mid = np.array([b["xmin"] + lx / 2, b["ymin"] + ly / 2])
    if k == 0 and not inside and b["xmin"] <= 0 <= b["xmax"] and b["ymin"] <= 0 <= b["ymax"]:
        c = np.zeros(2)
    elif k <= 1 or inside:
        c = mid + np.array([lx, ly]) * rng.uniform(-.12, .12, 2)
    elif k == 2:
        c = mid
    elif k == 3:
        c = mid + np.array([lx, ly]) * rng.uniform(-.45, .45, 2)
    else:
        c = mid + np.array([lx, ly]) * rng.uniform(-.9, .9, 2)
    m = min(lx, ly)
    rmax = m * (rng.uniform(.1, .37) if inside else rng.uniform(.15, 1.2))
    rmin = 0. if rng.random() < .5 else inner(rng, rmax, .8)
    numr, nump = int(rng.integers(1, rmax_bins + 1)), int(rng.integers(1, pmax_bins + 1))
    d = dict(rmin=float(rmin), rmax=float(rmax), numr=numr, nump=nump, center=[float(c[0]), float(c[1])])
    if not (full if full is not None else rng.random() < .5):
        d["pmin"], d["pmax"] = arc(rng)
    s = (0. if rng.random() < .15 else gen.angle(rng)) if shift is None else shift
    if s or rng.random() < .5:
        d["phi_shift"] = float(s)
    return d


def pedges_of(d):
    return np.linspace(d.get("pmin", 0.), d.get("pmax", TWOPI), d["nump"] + 1)


def redges_of(d, kind="lin", addzero=True):
    if kind == "lin":
        return d["rmin"] + (d["rmax"] - d["rmin"]) * np.arange(d["numr"] + 1) / d["numr"]
    n = d["numr"] - 1 if addzero else d["numr"]
    e = d["rmin"] * (d["rmax"] / d["rmin"])**(np.arange(n + 1) / n)
    return np.concatenate([[0.], e]) if addzero else e


def box_edges(b):
    return (b["xmin"] + (b["xmax"] - b["xmin"]) * np.arange(b["numx"] + 1) / b["numx"],
            b["ymin"] + (b["ymax"] - b["ymin"]) * np.arange(b["numy"] + 1) / b["numy"])


def sector_overlap(xe, ye, re, pe, center, shift=0., rays=240):
    """Share of every polar pixel (phi, r) in every cell (y, x): exact along rays, midpoint rule over rays."""
    nx, ny, nr, npb = len(xe) - 1, len(ye) - 1, len(re) - 1, len(pe) - 1
    ph = (pe[:-1, None] + (pe[1:] - pe[:-1])[:, None] * (np.arange(rays) + .5) / rays).ravel() + shift
    ux, uy = np.cos(ph), np.sin(ph)
    with np.errstate(all="ignore"):
        tx = (xe[None] - center[0]) / ux[:, None]
        ty = (ye[None] - center[1]) / uy[:, None]
    t = np.concatenate([tx, ty], axis=1)
    t = np.where(np.isfinite(t), t, 0.)
    t = np.clip(t, re[0], re[-1])
    t = np.concatenate([t, np.broadcast_to(re, (len(ph), len(re)))], axis=1)
    t.sort(axis=1)
    m = .5 * (t[:, 1:] + t[:, :-1])
    w = t[:, 1:]**2 - t[:, :-1]**2
    x, y = center[0] + m * ux[:, None], center[1] + m * uy[:, None]
    ix = np.searchsorted(xe, x, side="right") - 1
    iy = np.searchsorted(ye, y, side="right") - 1
    j = np.clip(np.searchsorted(re, m, side="right") - 1, 0, nr - 1)
    i = np.broadcast_to((np.arange(len(ph)) // rays)[:, None], m.shape)
    ok = (ix >= 0) & (ix < nx) & (iy >= 0) & (iy < ny)
    W = np.zeros((npb, nr, ny, nx))
    np.add.at(W, (i[ok], j[ok], iy[ok], ix[ok]), w[ok])
    return W / rays / (re[1:]**2 - re[:-1]**2)[None, :, None, None]


def arc_gap(a0, w, b0, v):
    """True when the arcs [a0, a0+w] and [b0, b0+v] are apart by more than 1e-9."""
    if w >= TWOPI - 1e-9 or v >= TWOPI - 1e-9:
        return False
    d = np.mod(b0 - a0, TWOPI)
    e = np.mod(a0 - b0, TWOPI)
    return d > w + 1e-9 and e > v + 1e-9


def rect_sector_apart(x0, x1, y0, y1, r0, r1, p0, p1, center):
    """Certainly no common point of the rectangle and the annular sector."""
    x0, x1, y0, y1 = x0 - center[0], x1 - center[0], y0 - center[1], y1 - center[1]
    nx, ny = min(max(0., x0), x1), min(max(0., y0), y1)
    dmin = np.hypot(nx, ny)
    dmax = max(np.hypot(x, y) for x in (x0, x1) for y in (y0, y1))
    tol = 1e-9 * (dmax + r1)
    if dmin > r1 + tol or dmax < r0 - tol:
        return True
    if dmin <= tol:
        return False
    mid = np.arctan2((y0 + y1) / 2, (x0 + x1) / 2)
    a = [np.mod(np.arctan2(y, x) - mid + PI, TWOPI) - PI for x in (x0, x1) for y in (y0, y1)]
    return arc_gap(mid + min(a), max(a) - min(a), p0, p1 - p0)


# ---------------------------------------------------------------- cubes and shells
def cube(rng, nmax=6, nmin=1):
    out = {}
    l0 = gen.scale(rng, .3, 30., 1e-8, 1e8)
    for a in "xyz":
        l = l0 if rng.random() < .3 else l0 * float(rng.uniform(.5, 2.))
        lo = float(rng.choice([-l / 2, 0., rng.normal() * 2 * l]))
        out[a + "min"], out[a + "max"], out["num" + a] = lo, lo + l, int(rng.integers(nmin, nmax + 1))
    return out


def setup_cube(o, b):
    o.setup_cube(*[b[k] for a in "xyz" for k in (a + "min", a + "max", "num" + a)])


def cube_edges(b):
    return [b[a + "min"] + (b[a + "max"] - b[a + "min"]) * np.arange(b["num" + a] + 1) / b["num" + a] for a in "xyz"]


def shells(rng, b, nmax=3, nside=None, inside=False):
    L = np.array([b[a + "max"] - b[a + "min"] for a in "xyz"])
    lo = np.array([b[a + "min"] for a in "xyz"])
    k = int(rng.integers(0, 4))
    f = .12 if inside else [.0, .12, .4, .8][k]
    c = lo + L * (.5 + rng.uniform(-f, f, 3))
    rmax = L.min() * (rng.uniform(.1, .37) if inside else rng.uniform(.15, 1.1))
    rmin = 0. if rng.random() < .5 else inner(rng, rmax, .8)
    return dict(rmin=float(rmin), rmax=float(rmax), numr=int(rng.integers(1, nmax + 1)),
                nside=int(nside or rng.choice([1, 1, 2])), center=[float(v) for v in c])


def cell_index(x, e):
    """Index of the cell of uniform edges e containing x, -1 outside, and whether x is too close to an edge."""
    n = len(e) - 1
    u = (x - e[0]) / (e[-1] - e[0]) * n
    i = np.floor(u).astype(int)
    i = np.where((i < 0) | (i >= n), -1, i)
    return i, np.abs(u - np.round(u)) < 1e-9 * (1 + np.abs(e).max() / (e[-1] - e[0]) * n)


def shell_points(nside, pix, r0, r1, K=64, nr=12):
    """Equal-weight points filling a spherical HEALPix cell: sub-pixel centres times equal-volume radii."""
    base = hp.ring2nest(nside, pix) * K * K
    v = np.array(hp.pix2vec(nside * K, base + np.arange(K * K), nest=True))
    k = np.arange(K * K)
    off = np.mod((k + .5) * 0.6180339887498949, 1.)
    u = (np.arange(nr)[None] + off[:, None]) / nr
    r = np.cbrt(r0**3 + (r1**3 - r0**3) * u)
    return (v[:, :, None] * r[None]).reshape(3, -1)


def shell_overlap(edges, nside, pix, r0, r1, center, K=64, nr=12):
    """Share of a spherical HEALPix cell in every cube cell, in the layout f[y, x, z]."""
    p = shell_points(nside, pix, r0, r1, K, nr)
    idx = [cell_index(p[a] + center[a], edges[a])[0] for a in range(3)]
    n = [len(e) - 1 for e in edges]
    ok = (idx[0] >= 0) & (idx[1] >= 0) & (idx[2] >= 0)
    flat = (idx[1][ok] * n[0] + idx[0][ok]) * n[2] + idx[2][ok]
    return np.bincount(flat, minlength=n[0] * n[1] * n[2]).reshape(n[1], n[0], n[2]) / p.shape[1]


def shell_apart(edges, nside, pix, r0, r1, center):
    """Cells (layout [y, x, z]) that certainly have no common point with a spherical HEALPix cell."""
    lo = [e[:-1] - c for e, c in zip(edges, center)]
    hi = [e[1:] - c for e, c in zip(edges, center)]
    near = [np.clip(0., a, b) for a, b in zip(lo, hi)]
    far = [np.maximum(np.abs(a), np.abs(b)) for a, b in zip(lo, hi)]
    grid = lambda t: np.meshgrid(*t)
    dmin = np.sqrt(sum(g**2 for g in grid(near)))
    dmax = np.sqrt(sum(g**2 for g in grid(far)))
    tol = 1e-9 * (dmax.max() + r1 + max(np.abs(e).max() for e in edges))
    out = (dmin > r1 + tol) | (dmax < r0 - tol)
    mid = grid([(a + b) / 2 for a, b in zip(lo, hi)])
    rho = np.sqrt(sum(((b[0] - a[0]) / 2)**2 for a, b in zip(lo, hi)))
    m = np.sqrt(sum(g**2 for g in mid))
    v = hp.pix2vec(nside, pix)
    rad = hp.max_pixrad(nside)
    with np.errstate(all="ignore"):
        ang = np.arccos(np.clip(sum(g * c for g, c in zip(mid, v)) / m, -1, 1))
        size = np.where(m > rho, np.arcsin(np.clip(rho / m, 0, 1)), PI)
    return out | ((m > rho) & (ang > rad + size + 1e-6))


# ---------------------------------------------------------------- HEALPix maps
def cap(rng, big=4, full=None, shift=None, small=False):
    amax = float(rng.choice([rng.uniform(.02, .4), rng.uniform(.2, 1.6), PI if not small else 1.]))
    amin = 0. if rng.random() < .5 else inner(rng, amax, .8)
    d = dict(alpha_min=amin, alpha_max=amax, num_alpha=int(rng.integers(1, big + 1)), num_beta=int(rng.integers(1, big + 2)))
    if not (rng.random() < .5 if full is None else full):
        d["beta_min"], d["beta_max"] = arc(rng)
    if rng.random() < .9:
        d["center"] = gen.centre_dir(rng)
    s = (0. if rng.random() < .15 else gen.angle(rng)) if shift is None else shift
    if s or rng.random() < .5:
        d["beta_shift"] = float(s)
    return d


def turn(rng):
    """A small turn either way."""
    a = float(gen.loguniform(rng, 1e-4, .3))
    return a if rng.random() < .5 else 2 * PI - a


def angbox(rng, big=5):
    xl = float(rng.choice([rng.uniform(.05, .6), rng.uniform(.3, 3.), TWOPI, rng.uniform(2.9, TWOPI), rng.choice([PI, PI + 1e-4, TWOPI - 1e-3])], p=[.25, .25, .25, .2, .05]))
    d = dict(x_length=xl, x_grid=int(rng.integers(1, big + 1)))
    if rng.random() < .7:
        d["y_length"] = float(rng.choice([rng.uniform(.05, .6), rng.uniform(.3, PI), PI]))
    if rng.random() < .7:
        d["y_grid"] = int(rng.integers(1, big + 1))
    if rng.random() < .9:
        d["center"] = gen.centre_dir(rng)
    if rng.random() < .8:
        d["alpha"] = 0. if rng.random() < .1 else gen.angle(rng)
        if rng.random() < .1:
            d["alpha"] = turn(rng)
    return d


def orthobox(rng, big=7):
    R = 1. if rng.random() < .5 else gen.scale(rng, .1, 20., 1e-6, 1e6)
    d = dict(x_length=float(R * rng.uniform(.2, 2.8)), x_grid=int(rng.integers(1, big + 1)))
    if R != 1. or rng.random() < .3:
        d["radius"] = R
    if rng.random() < .6:
        d["y_length"] = float(R * rng.uniform(.2, 2.8))
    if rng.random() < .6:
        d["y_grid"] = int(rng.integers(1, big + 1))
    if rng.random() < .9:
        d["center"] = gen.centre_dir(rng)
    return d


def cap_edges(d):
    """(beta edges, alpha edges)"""
    return (np.linspace(d.get("beta_min", 0.), d.get("beta_max", TWOPI), d["num_beta"] + 1),
            np.linspace(d["alpha_min"], d["alpha_max"], d["num_alpha"] + 1))


def box_lengths(d):
    yl = d.get("y_length")
    yl = min(d["x_length"], PI) if yl is None else yl
    return d["x_length"], yl, d["x_grid"], d.get("y_grid") or d["x_grid"]


def angbox_edges(d):
    """(y edges, x edges)"""
    xl, yl, nx, ny = box_lengths(d)
    return np.linspace(-yl / 2, yl / 2, ny + 1), np.linspace(-xl / 2, xl / 2, nx + 1)


def cap_matrix(d):
    c = d.get("center", [0., 0.])
    return ref.rot_shift(0., 0., c[0], c[1]) @ ref.rz(d.get("beta_shift", 0.))


def angbox_matrix(d):
    c = d.get("center", [0., 0.])
    return ref.rot_shift(0., PI / 2, c[0], c[1]) @ ref.rot_spin(0., PI / 2, d.get("alpha", 0.))


def ortho_matrix(d):
    c = d.get("center", [0., 0.])
    return ref.rot_shift(3 * PI / 2, 0., c[0], c[1])


def lattice(n):
    k = np.arange(n)
    return (k + .5) / n, np.mod((k + .5) * 0.6180339887498949, 1.)


def patch_overlap(nside, M, p0, p1, t0, t1, n=12000):
    """Share of a longitude/polar-angle patch (turned by M) in every HEALPix pixel, and the pixels that may touch it."""
    u, v = lattice(n)
    z = np.cos(t0) + (np.cos(t1) - np.cos(t0)) * v
    s = np.sqrt(np.clip(1 - z * z, 0, None))
    ph = p0 + (p1 - p0) * u
    x = M @ np.array([s * np.cos(ph), s * np.sin(ph), z])
    W = np.bincount(hp.vec2pix(nside, *x), minlength=12 * nside**2) / n
    e = np.linspace(0, 1, 60)
    q = np.concatenate([ref.unit(p0 + (p1 - p0) * e, t + 0 * e) for t in (t0, t1)] + [ref.unit(p + 0 * e, t0 + (t1 - t0) * e) for p in (p0, p1)])
    m = ref.unit((p0 + p1) / 2, (t0 + t1) / 2)
    if p1 - p0 > PI:
        rad = PI
    else:
        rad = np.arccos(np.clip(q @ m, -1, 1)).max() * 1.02 + 1e-6
    # the bounding cap holds the patch when it is at most a half turn wide and its outline is inside
    c = np.array(hp.pix2vec(nside, np.arange(12 * nside**2))).T @ (M @ m)
    can = np.arccos(np.clip(c, -1, 1)) <= rad + hp.max_pixrad(nside) * 1.001 + 1e-6
    return W, can


def pix_choices(nside, v, eps=1e-7):
    """HEALPix pixels of directions v (3, ...) and of eight neighbours each: shape (9, ...)."""
    a = np.where(np.abs(v[2]) < .9, 0, 1)
    h = np.where(a == 0, np.array([0., 0., 1.])[:, None], np.array([1., 0., 0.])[:, None]) if v.ndim == 2 else None
    t1 = np.cross(v, h, axis=0)
    t1 = t1 / np.linalg.norm(t1, axis=0)
    t2 = np.cross(v, t1, axis=0)
    out = [hp.vec2pix(nside, *v)]
    for k in range(8):
        w = v + eps * (np.cos(k * PI / 4) * t1 + np.sin(k * PI / 4) * t2)
        out.append(hp.vec2pix(nside, *w))
    return np.array(out)
