"""Sphere rotations are rigid and go where they say."""
import numpy as np

from vlib import build, gen, monitor, ref

U = ref.unit
SHIFT = ["phi", "theta", "phi_start", "theta_start", "phi_end", "theta_end"]
ROTATE = ["phi", "theta", "phi_end", "theta_end", "phi_start", "theta_start"]
SPIN = ["phi", "theta", "phi_center", "theta_center", "alpha"]


def setup(ck):
    mp, root = build.load()
    co = mp.coords
    rotate, shift, spin, pshift = co.usphere_rotate, co.usphere_shift, co.usphere_spin, co.usphere_phi_shift
    ck.rule = "Random and special directions (poles, equal meridians, coincident, antipodal, closed ends), scalars and 1D arrays."
    for e in ("rotate", "shift", "spin", "phi_shift"):
        ck.need(e, 2000)
    ck.need("antipodal", 10)
    ck.need("coincident", 5)
    ck.need("equal_meridian", 20)
    ck.need("scalar_calls", 100)

    def positions(rng, scalar):
        n = 1 if scalar else int(rng.choice([1, 2, 3, 25, 25, 800], p=[.2, .2, .2, .2, .19, .01]))
        return gen.phi(rng, n), gen.theta(rng, n)

    def judge(c, name, phi, theta, out, R, inter=(), ranges=True, slack=0.):
        """phi, theta 1D; out (phi, theta) observed; R rotation matrix; inter: intermediate polar angles."""
        p2, t2 = [np.atleast_1d(np.asarray(v, float)) for v in out]
        c.ok(p2.shape == t2.shape == phi.shape, name + ": shape of the result", got=[p2.shape, t2.shape])
        if ranges:
            c.ok(np.all((p2 >= 0) & (p2 <= ref.TWOPI)), name + ": longitude in [0, 2pi]", got=p2)
            c.ok(np.all((t2 >= 0) & (t2 <= np.pi)), name + ": polar angle in [0, pi]", got=t2)
        want = U(phi, theta) @ R.T
        got = U(p2, t2)
        d = np.linalg.norm(got - want, axis=-1)
        c.ok(np.all(d <= 3e-7 + slack), name + ": position after the rotation", got=out, want=ref.angles(want), worst=float(np.max(d)))
        safe = np.hypot(want[:, 0], want[:, 1]) > .1
        for t in inter:
            safe &= t > .1
        c.ok(np.all(d[safe] <= 1e-12 + slack), name + ": position after the rotation, to rounding", got=out,
             want=ref.angles(want), worst=float(np.max(d[safe])) if np.any(safe) else 0)
        c.count(name, len(phi))
        return p2, t2

    def call(c, f, phi, theta, *a, **k):
        if c.scalar:
            o = f(float(phi[0]), float(theta[0]), *a, **k)
            c.ok(np.ndim(o[0]) == 0 and np.ndim(o[1]) == 0, "scalar in, scalar out")
            c.count("scalar_calls")
            return o
        return f(phi, theta, *a, **k)

    def gap(a, b):
        return np.linalg.norm(np.cross(U(*a), U(*b)))

    def rotate_(c):
        rng = c.rng
        c.scalar = rng.random() < .3
        phi, theta = positions(rng, c.scalar)
        s, e = gen.centre_dir(rng), gen.centre_dir(rng)
        k = rng.integers(0, 12)
        default = False
        if k == 0:
            e = [s[0], float(rng.uniform(0, np.pi))]
        elif k == 1:
            e = [float((s[0] + np.pi) % (2 * np.pi)), float(np.pi - s[1])]
        elif k == 2:
            s = [float(rng.choice([0., 1., 3.])), 0.]
            e = [float(rng.uniform(4, 6)), float(rng.choice([0., np.pi]))]
        elif k == 3:
            s, e = [0., 1.2], [2 * np.pi, 1.2]
        elif k == 4:
            s, default = [0., 0.], True
        elif k == 5:            # nearly coincident, nearly antipodal
            d = gen.loguniform(rng, 1e-14, .1)
            e = [s[0], float(np.clip(s[1] + rng.choice([-d, d]), 0, np.pi))]
            if rng.random() < .6:
                a = U(*s)
                t = np.cross(a, rng.normal(size=3))
                q = ref.angles(a + d * t / np.linalg.norm(t))
                e = [float(np.ravel(q[0])[0]), float(np.ravel(q[1])[0])]
            if rng.random() < .4:
                e = [float((e[0] + np.pi) % (2 * np.pi)), float(np.pi - e[1])]
        elif k == 6:            # the same polar angle, not the same meridian
            t = float(rng.choice([np.pi / 2., rng.uniform(0., np.pi)]))
            a = [rng.uniform(0, 2 * np.pi) if rng.random() < .5 else gen.loguniform(rng, 1e-3, 1.),
                 2 * np.pi - gen.loguniform(rng, 1e-3, 1.) if rng.random() < .6 else rng.uniform(0, 2 * np.pi)]
            s, e = [[float(x), t] for x in (a if rng.random() < .5 else a[::-1])]
        if s == e:
            e = [e[0], (e[1] + 1.) % np.pi]
        u, v = U(*s), U(*e)
        sep = np.linalg.norm(np.cross(u, v))
        c.desc(phi=phi, theta=theta, start=s, end=e)
        if 1e-14 < sep < 1e-10 and u @ v < 0:
            return          # the great circle is known to rounding only
        if default:
            out = call(c, rotate, phi, theta, e[0], e[1])
        else:
            out = call(c, rotate, phi, theta, e[0], e[1], phi_start=s[0], theta_start=s[1])
        if sep <= 1e-14:
            # coincident: nothing moves; antipodal: a half turn that maps start to end
            p2, t2 = [np.atleast_1d(np.asarray(v_, float)) for v_ in out]
            got = U(p2, t2)
            if u @ v > 0:
                c.ok(np.allclose(got, U(phi, theta), atol=1e-7, rtol=0), "coincident ends: nothing moves", got=out)
                c.count("coincident")
            else:
                c.count("antipodal")
                p = np.concatenate([phi, [s[0]]])
                t = np.concatenate([theta, [s[1]]])
                q = [np.asarray(v_, float) for v_ in rotate(p, t, e[0], e[1], phi_start=s[0], theta_start=s[1])]
                A, B = U(p, t), U(q[0], q[1])
                c.ok(np.allclose(B[-1], v, atol=1e-7), "start lands on the antipodal end", got=q)
                c.ok(np.allclose(A @ A.T, B @ B.T, atol=1e-6), "separations preserved", got=q)
                c.ok(np.allclose(got, B[:-1], atol=1e-7), "same result inside a longer array", got=out)
                c.ok(np.allclose(got @ (np.eye(3) + 0.) @ u, -(A[:-1] @ u), atol=1e-6), "half turn reverses the start axis")
            c.count("rotate", len(phi))
            return
        R = ref.rot_rotate(e[0], e[1], s[0], s[1])
        judge(c, "rotate", phi, theta, out, R, slack=2e-12 + (2e-15 / sep if u @ v < 0 else 0.))
        if s[0] == e[0]:
            c.count("equal_meridian")
        # the start direction lands on the end direction
        o = rotate(s[0], s[1], e[0], e[1], phi_start=s[0], theta_start=s[1])
        c.ok(np.linalg.norm(U(*o) - v) < 1e-7, "start lands on end", got=o)
        # undo
        p2, t2 = [np.atleast_1d(np.asarray(v_, float)) for v_ in out]
        b = rotate(p2, t2, s[0], s[1], phi_start=e[0], theta_start=e[1])
        c.ok(np.allclose(U(b[0], b[1]), U(phi, theta), atol=1e-6, rtol=0), "swapping start and end undoes", got=b)

    def shift_(c):
        rng = c.rng
        c.scalar = rng.random() < .3
        phi, theta = positions(rng, c.scalar)
        s, e = gen.centre_dir(rng), gen.centre_dir(rng)
        k = rng.integers(0, 8)
        if k == 0:
            e = [float(rng.uniform(0, 2 * np.pi)), s[1]]
        elif k == 1:
            e = [s[0], e[1]]
        elif k == 2:
            s = [0., 0.]
        elif k == 3:
            s = [3 * np.pi / 2, 0.]
        elif k == 4:
            d = gen.loguniform(rng, 1e-16, .1)
            e = [e[0], float(np.clip(s[1] + rng.choice([-d, d]), 0, np.pi))]
        elif k == 5:
            e = [float(np.clip(s[0] + rng.choice([-1, 1]) * gen.loguniform(rng, 1e-12, .1), 0, 2 * np.pi)), e[1]]
        if abs(abs(s[1] - e[1]) - np.pi) < 1e-5 and abs(s[1] - e[1]) != np.pi:
            return
        c.desc(phi=phi, theta=theta, start=s, end=e)
        out = call(c, shift, phi, theta, s[0], s[1], e[0], e[1])
        R = ref.rot_shift(s[0], s[1], e[0], e[1])
        p2, t2 = judge(c, "shift", phi, theta, out, R)
        if s[0] == e[0]:
            c.count("equal_meridian")
        o = shift(s[0], s[1], s[0], s[1], e[0], e[1])
        c.ok(np.linalg.norm(U(*o) - U(*e)) < 1e-7, "start lands on end", got=o)
        b1 = ref.rot_shift(e[0], e[1], s[0], s[1])
        judge(c, "shift", p2, t2, shift(p2.copy(), t2.copy(), e[0], e[1], s[0], s[1]), b1)
        if abs(s[1] - e[1]) == 0. or True:
            # for a pure meridian or longitude shift, swapping undoes
            if s[0] == e[0] or s[1] == e[1]:
                b = shift(p2.copy(), t2.copy(), e[0], e[1], s[0], s[1])
                c.ok(np.allclose(U(np.asarray(b[0]), np.asarray(b[1])), U(phi, theta), atol=1e-6), "swapping undoes", got=b)
            else:
                c.ok(np.allclose(b1 @ R, np.eye(3), atol=1e-9), "reference: swapping undoes")

    def spin_(c):
        rng = c.rng
        c.scalar = rng.random() < .3
        phi, theta = positions(rng, c.scalar)
        cen = gen.centre_dir(rng)
        if rng.random() < .15:
            cen = [float(rng.choice([0., 1.])), float(rng.choice([0., np.pi / 2]))]
        alpha = gen.angle(rng)
        if rng.random() < .15:
            d = float(gen.loguniform(rng, 1e-16, 1e-3))
            cen[1] = d if rng.random() < .6 else np.pi - max(d, 1e-5)
        if 0 < np.pi - cen[1] < 1e-5:
            return
        c.desc(phi=phi, theta=theta, center=cen, alpha=alpha)
        out = call(c, spin, phi, theta, cen[0], cen[1], alpha)
        R = ref.rot_spin(cen[0], cen[1], alpha)
        sep = np.linalg.norm(np.cross(U(phi, theta), U(*cen)), axis=-1)
        p2, t2 = judge(c, "spin", phi, theta, out, R, inter=(sep,))
        o = spin(cen[0], cen[1], cen[0], cen[1], alpha)
        c.ok(np.linalg.norm(U(*o) - U(*cen)) < 1e-7, "the centre stays fixed", got=o)
        b = spin(p2.copy(), t2.copy(), cen[0], cen[1], 2 * np.pi - alpha)
        c.ok(np.allclose(U(np.asarray(b[0]), np.asarray(b[1])), U(phi, theta), atol=1e-6), "spinning by the complement undoes", got=b)

    def phi_shift_(c):
        rng = c.rng
        shp = gen.shape(rng)
        n = int(np.prod(shp)) if shp else 1
        phi = gen.phi(rng, n)
        d = gen.angle(rng, lo=1e-16) * float(rng.choice([-1., 1.]))
        if rng.random() < .3:           # land next to either end of the range
            e = float(gen.offsets(rng, 1)[0])
            d = float(np.clip(rng.choice([0., ref.TWOPI]) - phi[0] + e, -ref.TWOPI, ref.TWOPI)) if n else d
        c.desc(phi=phi, dphi=d, shape=shp)
        if shp == ():
            out = pshift(float(phi[0]), d)
        else:
            out = pshift(phi.reshape(shp).copy(), d)
        c.ok(np.shape(out) == shp, "shape of the shifted longitude")
        out = np.asarray(out, float).ravel()
        c.ok(np.all((out >= 0) & (out <= ref.TWOPI)), "shifted longitude in [0, 2pi]", got=out)
        c.ok(np.all(ref.circ(out, phi + d) <= 4e-15), "shifted longitude", got=out)
        c.count("phi_shift", n)

    def pipeline(c):
        """Contracts on the rotations that the HEALPix pipelines perform."""
        rng = c.rng
        mon = monitor.Monitor()
        mon.functions(dict(rotate=rotate, shift=shift, spin=spin))

        def keep(name, a, k, depth):
            return [np.copy(v) for v in a[:2]]

        def oracle(params, mat):
            def after(name, a, k, out, depth, token):
                d = monitor.bind(params, a, k)
                if d is None or np.ndim(d["phi"]) > 1 or len(d) < len(params) or token is None or len(token) < 2:
                    return
                v = [float(d[p]) for p in params[2:]]
                if name == "spin":
                    if 0 < v[1] < 1e-5 or 0 < np.pi - v[1] < 1e-5:
                        return
                else:
                    A = U(v[0], v[1])
                    B = U(v[2], v[3])
                    if np.linalg.norm(np.cross(A, B)) < 1e-5 and name == "rotate":
                        return
                    if name == "shift" and (0 < abs(v[1] - v[3]) < 1e-5 or abs(abs(v[1] - v[3]) - np.pi) < 1e-5):
                        return
                ph, th = [np.atleast_1d(np.asarray(x, float)) for x in token]
                judge(c, name, ph, th, out, mat(*v), inter=(np.zeros(1),), ranges=True)
                c.count("internal_calls")
            return after
        for nm, pr, mt in (("rotate", ROTATE, ref.rot_rotate), ("shift", SHIFT, ref.rot_shift), ("spin", SPIN, ref.rot_spin)):
            mon.before[nm], mon.after[nm] = keep, oracle(pr, mt)
        cen = gen.centre_dir(rng)
        sh = gen.angle(rng, lo=1e-4)
        c.desc(center=cen, shift=sh)
        if 0 < cen[1] < 1e-5 or 0 < np.pi - cen[1] < 1e-5:
            return
        try:
            for pkg in (mp.montecarlo, mp.densegrid):
                r = pkg.Heal2Ring()
                r.setup_map(4)
                r.setup_polar_cap(0., .5, 2, 3, center=cen, beta_shift=sh)
                q = pkg.Heal2Polar()
                q.setup_map(4)
                q.setup_box(.6, 2, center=cen, alpha=sh)
                if pkg is mp.montecarlo:
                    r.get_weights(mc_size=20, verbose=False)
                    q.get_weights(mc_size=20, verbose=False)
            o = mp.densegrid.Heal2Ortho()
            o.setup_map(4)
            o.setup_box(2.2, 4, center=cen)
            v = mp.densegrid.PointOfView()
            v.setup([0., 0., 0.], list(U(*cen)), 1., spin=sh)
            v.transform(rng.normal(size=5), rng.normal(size=5), rng.normal(size=5))
        finally:
            mon.remove()

    ck.section("rotate", rotate_, 700, 240000)
    ck.section("shift", shift_, 500, 180000)
    ck.section("spin", spin_, 500, 180000)
    ck.section("phi_shift", phi_shift_, 500, 120000)
    ck.section("pipeline", pipeline, 40, 7200)
