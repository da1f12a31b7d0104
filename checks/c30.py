"""Rotating polar data."""
import numpy as np

from checks import c22, c24, c25, c27
from vlib import build, gen, maps

PI, TWOPI = np.pi, 2 * np.pi


def rotated(f, shift):
    """New bin i covers old angles [e_i + shift, e_i+1 + shift]: overlaps with every old bin, explicitly."""
    n = len(f)
    out = np.zeros(f.shape)
    dp = TWOPI / n
    k = np.arange(n)
    for i in range(n):
        a = i * dp + shift
        for turn in (0, 1, 2):
            o = np.minimum(a + dp, (k + 1) * dp + turn * TWOPI) - np.maximum(a, k * dp + turn * TWOPI)
            out[i] += (np.clip(o, 0, None) / dp) @ f
    return out


def angle(rng, n):
    """Rotations in (0, 2pi): whole bins, near whole bins, tiny, nearly a full turn, generic."""
    dp = TWOPI / n
    k = rng.integers(0, 8)
    if k == 0 and n > 1:
        return float(dp * rng.integers(1, n))
    if k == 1 and n > 1:
        return float(dp * rng.integers(1, n) + rng.choice([-1, 1]) * gen.loguniform(rng, 1e-15, .1 * dp))
    if k == 2:
        d = float(gen.loguniform(rng, 1e-12, .1))
        return float(rng.choice([d, TWOPI - d, np.nextafter(TWOPI, 0)]))
    if k == 3:
        return float(rng.choice([PI / 2, PI, 3 * PI / 2]))
    return float(rng.uniform(1e-9, TWOPI - 1e-9))


def setup(ck):
    mp, root = build.load()
    mc, dg, co = mp.montecarlo, mp.densegrid, mp.coords
    ck.rule = "Random full-circle grids (1-60 angular bins), data and rotation angles (whole bins, an ulp around them, tiny, nearly a full turn, generic), all four classes with a rotation method."
    ck.need("angles", 3000)
    ck.need("grids", 500)
    ck.need("whole_bins", 60)
    ck.need("round_trips", 300)
    for k in ("mc_ring", "dense_ring", "mc_cap", "dense_cap"):
        ck.need("method_" + k, 100)
    ck.need("shifted_remaps", 300)

    def angles(c):
        rng = c.rng
        s = gen.shape(rng) if rng.random() < .8 else ()
        if len(s) == 0:
            phi = float(gen.phi(rng, 1)[0] if rng.random() < .5 else rng.choice([0., PI / 2, PI, 3 * PI / 2, TWOPI]))
        else:
            phi = gen.phi(rng, int(np.prod(s))).reshape(s)
        a = angle(rng, 1)
        # results within any distance of a whole turn
        near = TWOPI - a + np.asarray(gen.offsets(rng, int(np.prod(s)))).reshape(s or (1,))
        pick = (rng.random(near.shape) < .3) & (near >= 0) & (near <= TWOPI)
        phi = np.where(pick, near, phi) if len(s) else float(near[0] if pick[0] else phi)
        c.desc(phi=phi, rotate=a)
        out = co.rotate_polar(phi, a)
        c.ok(np.shape(out) == np.shape(phi), "shape of the angles", got=np.shape(out))
        o = np.asarray(out, float)
        c.ok(np.all((o >= 0) & (o <= TWOPI)), "rotated angles lie in [0, 2pi]")
        d = np.mod(o - phi - a + PI, TWOPI) - PI
        c.close(d, np.zeros(np.shape(phi)), 0, 1e-14 * 8, "rotation adds the angle")
        c.count("angles", int(np.size(phi)))

    def grid(c):
        rng = c.rng
        n, m = int(rng.choice([1, 2, 3, int(rng.integers(4, 60)), int(rng.integers(4, 60)) if rng.random() < .9 else int(rng.integers(60, 1000))])), int(rng.integers(1, 6))
        f = rng.normal(size=(n, m)) * gen.loguniform(rng, 1e-2, 1e2)
        if rng.random() < .1:
            f = np.round(f * 10).astype(int)
        a = angle(rng, n)
        lo = float(rng.choice([0., 0., -PI]))
        e = np.linspace(lo, lo + TWOPI, n + 1)
        c.desc(n=n, m=m, f=f, shift=a, lo=lo)
        if e[-1] - e[0] != TWOPI:
            e = np.linspace(0, TWOPI, n + 1)
        # the published edges fix the bin width only up to rounding
        ulp = 1e-11 + 1e-15 * n * n
        out = np.asarray(co.rotate_polar_grid(e, f, a), float)
        scale = np.abs(f).max() + 1e-300
        c.ok(out.shape == f.shape, "shape of the rotated grid", got=out.shape)
        c.close(out, rotated(f, a), 0, ulp * scale, "overlap-weighted data found that angle further round")
        c.close(out.sum(axis=0), f.sum(axis=0), 0, ulp * scale * n, "sum over angle in every ring")
        c.ok(np.all(out >= f.min(axis=0) - ulp * scale) and np.all(out <= f.max(axis=0) + ulp * scale), "values stay between the ring's extremes")
        c.count("grids")
        dp = TWOPI / n
        if n > 1:
            k = int(rng.integers(1, n))
            w = np.asarray(co.rotate_polar_grid(e, f, dp * k), float)
            c.close(w, np.roll(f, -k, axis=0), 0, ulp * scale, "whole-bin rotation is a cyclic shift")
            back = np.asarray(co.rotate_polar_grid(e, w, TWOPI - dp * k), float)
            c.close(back, f, 0, 10 * ulp * scale, "the complement undoes it")
            c.count("whole_bins")
            c.count("round_trips")
            # one generic after one whole-bin rotation is the sum of both
            if a + dp * k < TWOPI - 1e-9:
                both = np.asarray(co.rotate_polar_grid(e, np.asarray(co.rotate_polar_grid(e, f, dp * k)), a), float)
                c.close(both, rotated(f, a + dp * k), 0, 10 * ulp * scale, "rotations add up")

    def method(kind):
        def case(c):
            rng = c.rng
            if "ring" in kind:
                b = maps.box(rng, 6)
                d = maps.ring(rng, b, full=True, shift=gen.angle(rng))
                o = (mc if kind[0] == "m" else dg).Box2Ring()
                maps.setup_box(o, b)
                if kind[0] == "m":
                    c22.setup_polar(o, d)
                else:
                    c25.setup_polar(o, d)
                n, m = d["nump"], d["numr"]
            else:
                nside = 4
                d = maps.cap(rng, full=True)
                if kind[0] == "m":
                    o = mc.Heal2Ring()
                    c24.setup_cap(o, nside, d)
                else:
                    o = dg.Heal2Ring()
                    c27.prepare(o, "cap", nside, d)
                n, m = d["num_beta"], d["num_alpha"]
            f = rng.normal(size=(n, m))
            a = angle(rng, n)
            c.desc(kind=kind, grid=d, f=f, shift=a)
            out = np.asarray(o.rotate_polar(f, a), float)
            c.close(out, rotated(f, a), 0, 1e-11 * np.abs(f).max(), "rotation method")
            c.close(out, co.rotate_polar_grid(np.linspace(0, TWOPI, n + 1), f, a), 0, 1e-11 * np.abs(f).max(), "method and function agree")
            c.count("method_" + kind)
        return case

    def shifted(kind):
        """Rotating the remapped data agrees with remapping under the shift."""
        def case(c):
            rng = c.rng
            if kind == "dense_ring":
                b, d = c25.request(rng, 8, full=True, shift=0.)
                d["nump"] = max(2, d["nump"])
                d.pop("phi_shift", None)
                f = rng.normal(size=(b["numy"], b["numx"]))
                a = float(TWOPI / d["nump"] * rng.integers(1, d["nump"]))
                d2 = dict(d, phi_shift=a)
                c.desc(kind=kind, box=b, polar=d, shift=a, f=f)
                A, B = dg.Box2Ring(), dg.Box2Ring()
                for o, q in ((A, d), (B, d2)):
                    maps.setup_box(o, b)
                    c25.setup_polar(o, q)
                slack = c25.model(b, d, f)[1].max() + c25.model(b, d2, f)[1].max()
                r1, r2 = A.rotate_polar(A.remap(f), a), B.remap(f)
                c.close(r1, r2, 0, 1e-10 * np.abs(f).max() + slack, "rotation by whole bins equals remapping with the shift")
            else:
                d = c27.request(rng, "cap", full=True, shift=0.)
                d.pop("beta_shift", None)
                d["num_beta"] = max(2, d["num_beta"])
                nside = int(rng.choice([1, 4, 16]))
                f = rng.normal(size=12 * nside**2)
                a = float(TWOPI / d["num_beta"] * rng.integers(1, d["num_beta"]))
                d2 = dict(d, beta_shift=a)
                c.desc(kind=kind, grid=d, shift=a, nside=nside, f=f)
                A, B = dg.Heal2Ring(), dg.Heal2Ring()
                c27.prepare(A, "cap", nside, d)
                c27.prepare(B, "cap", nside, d2)
                L, H, _, _ = c27.model("cap", nside, d2, f)
                L1, H1, _, _ = c27.model("cap", nside, d, f)
                slack = (H - L).max() + (H1 - L1).max()
                c.close(A.rotate_polar(A.remap(f), a), B.remap(f), 0, 1e-10 * np.abs(f).max() + slack, "rotation by whole bins equals remapping with the shift")
            c.count("shifted_remaps")
        return case

    def shifted_mc(kind):
        def case(c):
            rng = c.rng
            n = 3000
            if kind == "mc_ring":
                b = maps.box(rng, 5)
                d = maps.ring(rng, b, 3, 6, full=True, shift=0., inside=True)
                d.pop("phi_shift", None)
                d["nump"] = max(2, d["nump"])
                f = rng.normal(size=(b["numy"], b["numx"]))
                a = float(TWOPI / d["nump"] * rng.integers(1, d["nump"]))
                A, B = mc.Box2Ring(), mc.Box2Ring()
                for o, q in ((A, d), (B, dict(d, phi_shift=a))):
                    maps.setup_box(o, b)
                    c22.setup_polar(o, q)
                    o.get_weights(mc_size=n, verbose=False)
                W = maps.sector_overlap(*maps.box_edges(b), maps.redges_of(d), maps.pedges_of(d), d["center"], a)
                R, tol = c22.bound(W, f, n, np.ones(W.shape, bool))
            else:
                d = maps.cap(rng, 3, full=True, shift=0.)
                d.pop("beta_shift", None)
                d["num_beta"] = max(2, d["num_beta"])
                nside = 2
                f = rng.normal(size=48)
                a = float(TWOPI / d["num_beta"] * rng.integers(1, d["num_beta"]))
                A, B = mc.Heal2Ring(), mc.Heal2Ring()
                for o, q in ((A, d), (B, dict(d, beta_shift=a))):
                    c24.setup_cap(o, nside, q)
                    o.get_weights(mc_size=n, verbose=False)
                shape, M, patch = c24.patches("cap", dict(d, beta_shift=a))
                W = np.array([[maps.patch_overlap(nside, M, *patch(i, j))[0] for j in range(shape[1])] for i in range(shape[0])]).reshape(-1, 48)
                R, tol = c22.bound(W, f, n, np.ones(W.shape, bool), None, c24.ERR, axis=-1)
                R, tol = R.reshape(shape), tol.reshape(shape)
            c.desc(kind=kind, grid=d, shift=a, f=f, seed=c.np_seed)
            r1, r2 = A.rotate_polar(A.remap(f, verbose=False), a), B.remap(f, verbose=False)
            ok = np.isfinite(tol)
            bad = ok & ~(np.abs(r1 - r2) <= 2 * tol + 1e-9)
            c.ok(not np.any(bad), "rotation by whole bins equals remapping with the shift up to noise", worst=np.abs(r1 - r2)[bad][:3], allowed=2 * tol[bad][:3])
            c.count("shifted_remaps")
        return case

    ck.section("angles", angles, 600, 30000)
    ck.section("grid", grid, 900, 30000)
    for k in ("mc_ring", "dense_ring", "mc_cap", "dense_cap"):
        ck.section("method_" + k, method(k), 150, 6000)
    for k in ("dense_ring", "dense_cap"):
        ck.section("shifted_" + k, shifted(k), 300, 15000)
    for k in ("mc_ring", "mc_cap"):
        ck.section("shifted_" + k, shifted_mc(k), 80, 4000)
