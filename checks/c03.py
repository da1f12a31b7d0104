"""HEALPix plane projection and its inverse."""
import healpy as hp
import numpy as np

from vlib import build, gen, ref

CAP = np.arccos(2. / 3.)


def setup(ck):
    mp, root = build.load()
    xy2, ang2 = mp.coords.healpix_xy2ang, mp.coords.healpix_ang2xy
    ck.rule = "Random and border-biased sphere angles and plane points (facet seams, cap borders, poles, closed ends)."
    ck.need("angles", 5000)
    ck.need("polar_cap_points", 1000)
    ck.need("pole_points", 50)
    ck.need("plane_points", 3000)
    ck.need("healpy_lookups", 3000)
    ck.need("scalar_calls", 200)

    def call_ang2xy(c, phi, theta):
        if c.scalar:
            out = [ang2(float(p), float(t)) for p, t in zip(phi, theta)]
            c.ok(all(np.ndim(a) == 0 and np.ndim(b) == 0 for a, b in out), "scalar in, scalar out")
            c.count("scalar_calls", len(out))
            return np.array([float(o[0]) for o in out]), np.array([float(o[1]) for o in out])
        x, y = ang2(phi, theta)
        c.ok(np.shape(x) == np.shape(y) == np.shape(phi), "shape of the result")
        return x, y

    def call_xy2ang(c, x, y):
        if c.scalar:
            out = [xy2(float(p), float(t)) for p, t in zip(x, y)]
            c.ok(all(np.ndim(a) == 0 and np.ndim(b) == 0 for a, b in out), "scalar in, scalar out")
            c.count("scalar_calls", len(out))
            return np.array([float(o[0]) for o in out]), np.array([float(o[1]) for o in out])
        p, t = xy2(x, y)
        c.ok(np.shape(p) == np.shape(t) == np.shape(x), "shape of the result")
        return p, t

    def size(c):
        c.scalar = c.rng.random() < .25
        return int(c.rng.choice([1, 2, 5])) if c.scalar else int(c.rng.choice([1, 2, 17, 60, 0, 2500], p=[.1, .1, .3, .46, .03, .01]))

    def polar_tol(theta):
        """Uncertainty of the polar angle through a cosine."""
        return np.minimum(5e-8, 1e-13 + 1e-15 / np.maximum(np.sin(theta), 1e-8))

    def sphere(c):
        rng = c.rng
        n = size(c)
        phi, theta = gen.phi(rng, n), gen.theta(rng, n)
        # land on the seams of the facets at all polar angles
        k = rng.random(n) < .25
        phi = np.where(k, np.clip(rng.integers(0, 5, n) * np.pi / 2 + rng.choice([0, 0, 1e-6, -1e-6, 1e-12, -1e-12], n), 0, ref.TWOPI), phi)
        c.desc(scalar=c.scalar, phi=phi, theta=theta)
        x, y = call_ang2xy(c, phi, theta)
        c.ok(np.all(np.isfinite(x)) and np.all(np.isfinite(y)), "finite plane coordinates", x=x, y=y)
        c.ok(np.all(np.abs(y) <= np.pi / 2 + 1e-12), "plane ordinate inside the footprint", y=y)
        near = np.minimum(theta, np.pi - theta)
        # independent projection; at a facet seam the point belongs to either facet, at 2pi to both ends
        px, py = ref.heal_xy(np.mod(phi, ref.TWOPI), theta)
        tol = 1e-11 + 3e-16 / np.maximum(near, 1e-8)
        tol = np.where(near < 1e-6, 1e-6, tol)
        c.ok(np.all(np.abs(y - py) <= tol), "plane ordinate of the equal-area projection", got=y, want=py)
        frac = np.abs(2 * phi / np.pi - np.round(2 * phi / np.pi))
        inner = (frac > 1e-9) | (np.abs(np.cos(theta)) <= 2. / 3.)
        inner &= (phi < ref.TWOPI)
        c.ok(np.all(np.abs(x - px)[inner] <= tol[inner]), "plane abscissa of the equal-area projection", got=x, want=px)
        c.count("angles", n)
        c.count("polar_cap_points", int(np.sum(np.abs(np.cos(theta)) > 2 / 3)))
        c.count("pole_points", int(np.sum(near < 1e-8)))
        p2, t2 = call_xy2ang(c, x, y)
        c.ok(np.all(np.abs(t2 - theta) <= 4 * polar_tol(theta) + 1e-13), "polar angle restored", got=t2)
        d = np.linalg.norm(ref.unit(p2, t2) - ref.unit(phi, theta), axis=-1) if n else np.zeros(0)
        c.ok(np.all(d <= 3e-7), "point of the sphere restored", got=[p2, t2], worst=float(np.max(d)) if n else 0)
        far = near > .05
        c.ok(np.all(d[far] <= 1e-12), "point of the sphere restored to rounding", got=[p2, t2])

    def plane(c):
        """Points of the footprint, by pixel: healpy must name the same pixel."""
        rng = c.rng
        n = size(c)
        nside = int(2**rng.integers(0, 9))
        p = rng.integers(0, hp.nside2npix(nside), n)
        k = rng.integers(0, 4, n)
        npx = hp.nside2npix(nside)
        p = np.where(k == 0, rng.integers(0, min(12, npx), n), p)
        p = np.where(k == 1, npx - 1 - rng.integers(0, min(12, npx), n), p)
        ring_border = 2 * nside * (nside - 1)
        p = np.where(k == 2, np.clip(ring_border + rng.integers(-5, 4 * nside + 5, n), 0, npx - 1), p)
        cx, cy = ref.heal_centre_xy(nside, p) if n else (np.zeros(0), np.zeros(0))
        a, b = rng.uniform(-1, 1, (2, n)) * np.where(rng.random(n) < .3, .999999, .95)
        d = np.pi / (4 * nside)
        x, y = cx + d * (a + b) / 2, cy + d * (a - b) / 2
        wrap = x < 0
        x = np.where(wrap, x + ref.TWOPI, x)
        c.desc(nside=nside, scalar=c.scalar, x=x, y=y, pixel=p)
        phi, theta = call_xy2ang(c, x, y)
        c.ok(np.all((theta >= 0) & (theta <= np.pi)), "polar angle in [0, pi]", theta=theta)
        c.ok(np.all((phi >= -1e-12) & (phi <= ref.TWOPI + 1e-6)), "longitude in [0, 2pi]", phi=phi)
        got = hp.ang2pix(nside, theta, phi) if n else p
        c.same(got, p, msg="pixel named by healpy for the plane point")
        c.count("healpy_lookups", n)
        x2, y2 = call_ang2xy(c, np.clip(phi, 0, ref.TWOPI), theta)
        dist = np.pi / 2 - np.abs(y)
        tol = 1e-11 + 1e-15 / np.maximum(dist, 1e-9) ** 2
        dx = np.abs(x2 - x)
        dx = np.minimum(dx, np.abs(dx - ref.TWOPI))
        c.ok(np.all((np.abs(y2 - y) <= tol) & (dx <= 10 * tol)), "plane point restored", got=[x2, y2])
        c.count("plane_points", n)

    def caps(c):
        """Plane points next to a pole: the longitude comes from the fraction of the shrunken facet."""
        rng = c.rng
        n = size(c)
        s = gen.loguniform(rng, 1e-9, .9, n)                # 1-sigma
        s = 1. - (1. - s)
        if rng.random() < .4:
            s[rng.random(n) < .2] = 0.                      # the poles themselves
        k = rng.integers(0, 4, n)
        y = rng.choice([-1., 1.], n) * np.pi / 4. * (2. - s)
        xc = (2. * k + 1.) * np.pi / 4.
        x = xc + rng.uniform(-.97, .97, n) * np.pi / 4. * s
        c.desc(scalar=c.scalar, x=x, y=y)
        phi, theta = call_xy2ang(c, x, y)
        L = np.longdouble
        ss = 2 - 4 * np.abs(y.astype(L)) / L("3.14159265358979323846264338")
        off = s > 0
        want = np.asarray(xc.astype(L) + (x.astype(L) - xc.astype(L)) / np.where(off, ss, 1), float)
        c.ok(np.all((np.abs(phi - want) <= 1e-12 + 2e-14 / np.where(off, s, 1.))[off]), "longitude next to the pole", got=phi, want=want)
        c.ok(np.all((phi >= 0) & (phi <= ref.TWOPI + 1e-6)), "longitude in [0, 2pi]", phi=phi)
        zc = np.asarray(ss * ss / 3, float)                 # 1-|z|
        half = np.where(y > 0, theta, np.pi - theta) / 2.
        c.ok(np.all(np.abs(2 * np.sin(half)**2 - zc) <= 2e-15), "polar angle next to the pole", got=theta)
        c.count("cap_points", n)

    def centres(c):
        """Every pixel centre of a resolution maps to its place in the diamond lattice."""
        nside = [1, 2, 4, 8, 16, 32][c.index % 6]
        p = np.arange(hp.nside2npix(nside))
        theta, phi = hp.pix2ang(nside, p)
        c.scalar = False
        c.desc(nside=nside)
        x, y = call_ang2xy(c, phi, theta)
        wx, wy = ref.heal_xy(phi, theta)
        c.close(x, wx, rtol=0, atol=1e-9, msg="x of the pixel centres")
        c.close(y, wy, rtol=0, atol=1e-9, msg="y of the pixel centres")
        u, v = (x + y) * 4 * nside / np.pi, (y - x) * 4 * nside / np.pi
        c.close(u, np.round(u), rtol=0, atol=1e-6, msg="lattice of the pixel centres")
        c.close(v, np.round(v), rtol=0, atol=1e-6, msg="lattice of the pixel centres")
        c.ok(len({(int(a), int(b)) for a, b in zip(np.round(u), np.round(v))}) == len(p), "pixel centres are distinct")
        c.count("pixel_centres", len(p))

    def equal_area(c):
        """Equal plane areas hold equal sphere areas."""
        rng = c.rng
        x0, y0 = rng.uniform(0, 2 * np.pi), rng.uniform(-1.4, 1.4)
        h = 1e-4
        k = np.floor(2 * x0 / np.pi)
        s = max(0., abs(y0) * 4 / np.pi - 1)
        xc = (2 * k + 1) * np.pi / 4
        x0 = xc + (x0 - xc) * (1 - s) * .98
        c.scalar = False
        xs, ys = np.array([x0 - h, x0 + h, x0, x0]), np.array([y0, y0, y0 - h, y0 + h])
        if abs(abs(y0) - np.pi / 4) < 5 * h:
            ys = ys + 20 * h
        c.desc(x=xs, y=ys)
        phi, theta = call_xy2ang(c, xs, ys)
        z = np.cos(theta)
        jac = ((phi[1] - phi[0]) * (z[3] - z[2]) - (phi[3] - phi[2]) * (z[1] - z[0])) / (4 * h * h)
        c.close(jac, 8 / (3 * np.pi), rtol=2e-3, msg="area of the sphere per area of the plane")
        c.count("jacobians")

    ck.section("sphere", sphere, 1200, 600000)
    ck.section("plane", plane, 800, 450000)
    ck.section("caps", caps, 300, 120000)
    ck.section("centres", centres, 6, 6)
    ck.section("equal_area", equal_area, 200, 75000)
