"""The Monte Carlo and dense-grid schemes agree."""
import numpy as np

from checks import c22, c23, c24, c25, c26, c27
from vlib import build, gen, maps

PI = np.pi


def setup(ck):
    mp, root = build.load()
    mc, dg = mp.montecarlo, mp.densegrid
    ck.rule = "The same random request (grid, centre, shift, map, weights) is given to both schemes with identical arguments where their signatures agree; refined dense grids, several thousand samples."
    for k in ("ring", "shell", "cap", "box"):
        ck.need("pixels_compared_" + k, 250)
        if k != "shell":
            ck.need("weighted_" + k, 200)
    ck.need("decisive", 1500)
    ck.assumptions = ["Allowed difference: a Bernstein bound at 1e-12 for the noise, plus the distance between an independent model of the dense sub-grid and the exact pixel mean."]

    def compare(c, a, b, tol, f, what, where):
        tol = np.asarray(tol)
        ok = where & np.isfinite(tol)
        bad = ok & ~(np.abs(a - b) <= tol + 1e-9 * np.abs(f).max())
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0])
            c.fail("%s: Monte Carlo %.6g and dense grid %.6g differ by more than %.2g at %s (%d of %d)" % (what, a[i], b[i], tol[i], list(map(int, i)), bad.sum(), ok.sum()))
        c.ok(not np.any(np.isnan(np.where(where, a, 0.)) | np.isnan(np.where(where, b, 0.))), what + ": both schemes give a value inside the map")
        c.count("pixels_compared_" + what if not what.startswith("weighted") else what.replace("weighted ", "weighted_"), int(ok.sum()))
        c.count("decisive", int(np.sum(ok & (tol < .3 * (f.max() - f.min())))))

    def ring(c):
        rng = c.rng
        b = maps.box(rng, 7)
        d = maps.ring(rng, b, 3, 5, inside=rng.random() < .7)
        n = int(rng.choice([2000, 6000]))
        f = rng.normal(size=(b["numy"], b["numx"])) * gen.loguniform(rng, 1e-2, 1e2)
        w = rng.uniform(.3, 3., f.shape)
        c.desc(box=b, polar=d, f=f, w=w, mc_size=n, seed=c.np_seed)
        A, B = mc.Box2Ring(), dg.Box2Ring()
        for o in (A, B):
            maps.setup_box(o, b)
        c22.setup_polar(A, d)
        d2 = dict(d, rebin_r=int(rng.integers(3, 9)), rebin_p=int(rng.integers(3, 9)))
        c25.setup_polar(B, d2)
        A.get_weights(mc_size=n, verbose=False)
        xe, ye = maps.box_edges(b)
        W = maps.sector_overlap(xe, ye, maps.redges_of(d), maps.pedges_of(d), d["center"], d.get("phi_shift", 0.))
        D, slack, share = c25.model(b, d2, f)
        inside = (W.sum(axis=(2, 3)) > 1 - 1e-9) & (share > 1 - 1e-12)
        can = np.ones(W.shape, bool)
        R, tol = c22.bound(W, f, n, can)
        compare(c, A.remap(f, verbose=False), B.remap(f, verbose=False), tol + np.abs(D - R) + slack, f, "ring", inside)
        N, s1, _ = c25.model(b, d2, f * w)
        V, s2, _ = c25.model(b, d2, w)
        R, tol = c22.bound(W, f, n, can, w)
        compare(c, A.remap(f, w, verbose=False), B.remap(f, w, verbose=False), tol + np.abs(N / V - R), f, "weighted ring", inside & (s1 == 0) & (s2 == 0))

    def shell(c):
        rng = c.rng
        b = maps.cube(rng, 4)
        d = maps.shells(rng, b, 2, nside=1, inside=rng.random() < .7)
        n = int(rng.choice([1000, 3000]))
        f = rng.normal(size=(b["numy"], b["numx"], b["numz"])) * gen.loguniform(rng, 1e-2, 1e2)
        c.desc(cube=b, shells=d, f=f, mc_size=n, seed=c.np_seed)
        A, B = mc.Cube2Shell(), dg.Cube2Shell()
        for o in (A, B):
            maps.setup_cube(o, b)
        c23.setup_polar(A, d)
        d2 = dict(d, rebin_shell=int(rng.choice([4, 8])), rebin_r=int(rng.integers(3, 7)))
        c26.setup_polar(B, d2)
        A.get_weights(mc_size=n, verbose=False)
        D, slack, share = c26.model(b, d2, f)
        e, re = maps.cube_edges(b), maps.redges_of(d)
        R, tol, inside = np.zeros(D.shape), np.full(D.shape, np.inf), np.zeros(D.shape, bool)
        for i in range(D.shape[0]):
            for j in range(D.shape[1]):
                if share[i, j] > 1 - 1e-12:
                    W = maps.shell_overlap(e, 1, j, re[i], re[i + 1], d["center"]).reshape(1, -1)
                    inside[i, j] = W.sum() > 1 - 1e-9
                    r, t = c22.bound(W, f.reshape(1, -1), n, np.ones(W.shape, bool), None, c23.QUASI_ERR, axis=-1)
                    R[i, j], tol[i, j] = r[0], t[0]
        compare(c, A.remap(f, verbose=False), B.remap(f, verbose=False), tol + np.abs(D - R) + slack, f, "shell", inside)

    def sky(kind):
        def case(c):
            rng = c.rng
            nside = int(rng.choice([1, 2, 4]))
            d = maps.cap(rng, 3) if kind == "cap" else maps.angbox(rng, 3)
            n = int(rng.choice([1000, 4000]))
            npix = 12 * nside**2
            f = rng.normal(size=npix) * gen.loguniform(rng, 1e-2, 1e2)
            w = rng.uniform(.3, 3., npix)
            c.desc(kind=kind, grid=d, nside=nside, f=f, w=w, mc_size=n, seed=c.np_seed)
            A, B = (mc.Heal2Ring(), dg.Heal2Ring()) if kind == "cap" else (mc.Heal2Polar(), dg.Heal2Polar())
            (c24.setup_cap if kind == "cap" else c24.setup_angbox)(A, nside, d)
            k1, k2 = ("rebin_alpha", "rebin_beta") if kind == "cap" else ("rebin_x", "rebin_y")
            d2 = dict(d, **{k1: int(rng.integers(4, 12)), k2: int(rng.integers(4, 12))})
            c27.prepare(B, kind, nside, d2)
            A.get_weights(mc_size=n, verbose=False)
            shape, M, patch = c24.patches(kind, d)
            Ws = np.array([[maps.patch_overlap(nside, M, *patch(i, j))[0] for j in range(shape[1])] for i in range(shape[0])])
            can = np.ones(Ws.shape, bool)
            every = np.ones(shape, bool)
            L, H, _, _ = c27.model(kind, nside, d2, f)
            R, tol = c22.bound(Ws.reshape(-1, npix), f, n, can.reshape(-1, npix), None, c24.ERR, axis=-1)
            R, tol = R.reshape(shape), tol.reshape(shape)
            compare(c, A.remap(f, verbose=False), B.remap(f, verbose=False), tol + np.maximum(np.abs(L - R), np.abs(H - R)), f, kind, every)
            NL, NH, _, _ = c27.model(kind, nside, d2, f * w)
            VL, VH, _, _ = c27.model(kind, nside, d2, w)
            R, tol = c22.bound(Ws.reshape(-1, npix), f, n, can.reshape(-1, npix), w, c24.ERR, axis=-1)
            R, tol = R.reshape(shape), tol.reshape(shape)
            exact = (NH - NL < 1e-9 * np.abs(f).max()) & (VH - VL < 1e-9)
            compare(c, A.remap(f, w, verbose=False), B.remap(f, w, verbose=False), tol + np.abs(NL / VL - R), f, "weighted " + kind, exact)
        return case

    ck.section("ring", ring, 300, 12000)
    ck.section("shell", shell, 100, 5000)
    ck.section("cap", sky("cap"), 120, 5000)
    ck.section("box", sky("box"), 100, 4000)
