"""Dense-grid cube-to-shell remapping, with periodic images."""
import healpy as hp
import numpy as np

from vlib import build, gen, maps


def request(rng, nmax=6, periodic=None):
    b = maps.cube(rng, nmax)
    d = maps.shells(rng, b)
    for k, v in (("rebin_shell", [1, 2, 4]), ("rebin_r", [1, 2, 3])):
        if rng.random() < .85:
            d[k] = int(rng.choice(v))
    if rng.random() < .6 if periodic is None else periodic:
        for a in "xyz":
            if rng.random() < .6:
                lo, hi = int(rng.integers(-3, 1)), int(rng.integers(0, 4))
                if rng.random() < .15:
                    lo = hi = int(rng.choice([-2, -1, 1, 2]))
                d["periodic" + a] = [lo, hi]
        if rng.random() < .08:
            # a long row of images along one axis, and shells that reach far into them
            a = "xyz"[rng.integers(0, 3)]
            d["periodic" + a] = [int(rng.integers(-8, -2)), int(rng.integers(3, 9))]
            d["rmax"] = d["rmin"] + (b[a + "max"] - b[a + "min"]) * float(rng.uniform(1.2, 6.))
    return b, d


def setup_polar(o, d):
    kw = {k: v for k, v in d.items() if k not in ("rmin", "rmax", "numr", "nside")}
    o.setup_polar(d["rmin"], d["rmax"], d["numr"], d["nside"], **kw)


def model(b, d, f):
    """Mean per (shell, pixel), slack from sub-cell centres on borders, and the covered share."""
    rs, rr = d.get("rebin_shell", 2), d.get("rebin_r", 2)
    nside, n = d["nside"], d["numr"]
    edges = maps.cube_edges(b)
    re = d["rmin"] + (d["rmax"] - d["rmin"]) * np.arange(n * rr + 1) / (n * rr)
    npix = 12 * nside**2
    children = hp.ring2nest(nside, np.arange(npix))[:, None] * rs * rs + np.arange(rs * rs)
    v = np.array(hp.pix2vec(nside * rs, children, nest=True))
    out = np.zeros((3, n, npix))
    span = max(f.max(), 0.) - min(f.min(), 0.)
    for i in range(n * rr):
        r, w = (re[i] + re[i + 1]) / 2, re[i + 1]**3 - re[i]**3
        idx, near, inside = [], False, True
        for a, e in enumerate(edges):
            x = d["center"][a] + r * v[a]
            L = e[-1] - e[0]
            lo, hi = d.get("periodic" + "xyz"[a], [0, 0])
            found = np.full(x.shape, -1)
            for k in range(lo, hi + 1):
                j, c = maps.cell_index(x + k * L, e)
                found = np.where(j >= 0, j, found)
                near = near | c
            idx.append(found)
            inside = inside & (found >= 0)
        val = np.where(inside, f[idx[1], idx[0], idx[2]], 0.)
        out[0, i // rr] += w * val.mean(axis=-1)
        out[1, i // rr] += w * np.broadcast_to(near, val.shape).mean(axis=-1) * span
        out[2, i // rr] += w * inside.mean(axis=-1)
    return out / (re[rr::rr]**3 - re[:-1:rr]**3)[None, :, None]


def setup(ck):
    mp, root = build.load()
    cls = mp.densegrid.Cube2Shell
    ck.rule = "Random cubes (unequal sides and cells, offsets), shells, centres inside and outside, refinement factors, and per-axis ranges of periodic images (none, one side, both sides, shifted images only)."
    ck.need("cells_exact", 8000)
    ck.need("partly_outside", 800)
    ck.need("periodic", 150)
    ck.need("image_values", 1000)
    ck.need("covered_by_images", 10)
    ck.assumptions = ["Sub-cell centres within 1e-9 cells of a cube cell border may be counted on either side."]

    def run(c):
        rng = c.rng
        b, d = request(rng, int(rng.choice([2, 4, 7])))
        maps.enlarge(rng, b, ("numx", "numy", "numz"), hi=300)
        maps.enlarge(rng, d, ("numr",), .02, 30)
        maps.enlarge(rng, d, ("rebin_r",), .02, 12)
        shape = (b["numy"], b["numx"], b["numz"])
        f = rng.normal(size=shape) * gen.scale(rng)
        c.desc(cube=b, shells=d, f=f)
        o = cls()
        maps.setup_cube(o, b)
        setup_polar(o, d)
        c.ok(np.shape(o.x3d) == shape, "published layout of the cube", got=np.shape(o.x3d))
        R, slack, share = model(b, d, f)
        got = np.asarray(o.remap(f, verbose=False), float)
        c.ok(got.shape == R.shape, "one value per shell and HEALPix pixel", got=got.shape, want=R.shape)
        c.close(got, R, 0, 1e-11 * np.abs(f).max() + slack, "mean over the sub-cells")
        c.count("cells_exact", int(np.sum(slack == 0)))
        c.count("partly_outside", int(np.sum((share > 0) & (share < 1))))
        per = any("periodic" + a in d for a in "xyz")
        c.count("periodic", per)
        if per:
            d0 = {k: v for k, v in d.items() if not k.startswith("periodic")}
            R0, _, s0 = model(b, d0, f)
            c.count("image_values", int(np.sum(np.abs(R - R0) > 1e-9)))
            c.count("covered_by_images", bool(np.all(share == 1) and np.any(s0 < 1)))
        v = float(rng.normal() * 10)
        one = np.asarray(o.remap(np.full(shape, v), verbose=False), float)
        s = slack == 0
        c.close(one[s], (v * share)[s], 1e-11, 1e-13 * abs(v), "a uniform cube is scaled by the covered share")

    ck.section("remap", run, 3000, 400000)
