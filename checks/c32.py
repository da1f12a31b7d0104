"""Orthographic coordinates match the orthographic map."""
import healpy as hp
import numpy as np

from checks import c27
from vlib import build, gen, maps, ref

PI = np.pi


def setup(ck):
    mp, root = build.load()
    cls = mp.densegrid.Heal2Ortho
    ck.rule = "Random resolutions, centres (poles, seam, generic), radii and boxes; directions over the whole sphere, near the limb, at the centre and at the antipode, as arrays and scalars."
    ck.need("near_side", 20000)
    ck.need("far_side", 20000)
    ck.need("limb", 1000)
    ck.need("scalars", 500)
    ck.need("scalar_limb", 1000)
    ck.need("map_pixels", 3000)
    ck.need("pole_centres", 30)
    ck.assumptions = ["Directions within 1e-6 of the limb may be reported on either side."]

    def run(c):
        rng = c.rng
        nside = int(rng.choice([1, 2, 8, 32, 128]))
        d = c27.request(rng, "ortho")
        d["rebin_x"] = d["rebin_y"] = 1
        R = d.get("radius", 1.)
        o = cls()
        c27.prepare(o, "ortho", nside, d)
        cc = d.get("center", [0., 0.])
        n = 120 if rng.random() < .985 else int(rng.integers(4000, 12000))
        phi, theta = gen.phi(rng, n), gen.theta(rng, n)
        M = maps.ortho_matrix(d)
        # directions close to the limb
        k = rng.random(n) < .15
        t = rng.uniform(0, 2 * PI, n)
        z = rng.choice([1e-4, -1e-4, 1e-2, -1e-2, 1e-9], n)
        q = np.array([np.cos(t) * np.sqrt(1 - z**2), np.sin(t) * np.sqrt(1 - z**2), z])
        lp, lt = ref.angles((M @ q).T)
        phi, theta = np.where(k, lp, phi), np.where(k, lt, theta)
        c.desc(nside=nside, grid=d, phi=phi, theta=theta)
        P = M.T @ ref.unit(phi, theta).T
        x, y = o.transform(phi, theta)
        c.ok(np.shape(x) == (n,) == np.shape(y), "one pair of coordinates per direction", got=[np.shape(x), np.shape(y)])
        x, y = np.asarray(x, float), np.asarray(y, float)
        c.ok(np.array_equal(np.isnan(x), np.isnan(y)), "both coordinates or none")
        near, far = P[2] > 1e-6, P[2] < -1e-6
        c.ok(not np.any(np.isnan(x[near])), "directions on the near side have coordinates")
        c.ok(np.all(np.isnan(x[far])), "directions on the far side are not-a-number")
        c.close(x[near], R * P[0][near], 0, 1e-7 * R, "x of the turned unit sphere")
        c.close(y[near], R * P[1][near], 0, 1e-7 * R, "y of the turned unit sphere")
        c.count("near_side", int(near.sum()))
        c.count("far_side", int(far.sum()))
        c.count("limb", int(k.sum()))
        c.count("pole_centres", cc[1] in (0., PI))
        # scalars close to the limb
        for z in gen.loguniform(rng, 2e-6, 1e-3, 3) * rng.choice([-1., 1.], 3):
            t = rng.uniform(0, 2 * PI)
            q = np.array([np.cos(t) * np.sqrt(1 - z * z), np.sin(t) * np.sqrt(1 - z * z), z])
            lp, lt = ref.angles(M @ q)
            a, b = o.transform(float(lp), float(lt))
            if z > 0:
                c.close([a, b], R * q[:2], 0, 1e-7 * R, "a single direction just on the near side")
            else:
                c.ok(np.isnan(a) and np.isnan(b), "a single direction just on the far side is not-a-number", height=z)
            c.count("scalar_limb")
        # few directions
        for m in (1, 2, 3):
            i = int(rng.integers(0, n - m))
            a, b = o.transform(phi[i:i + m].copy(), theta[i:i + m].copy())
            g = (near | far)[i:i + m]
            c.close(np.array([a, b])[:, g], np.array([x, y])[:, i:i + m][:, g], 0, 1e-7 * R, "a few directions")
        # scalars, the centre and its antipode
        for j in rng.integers(0, n, 3):
            a, b = o.transform(float(phi[j]), float(theta[j]))
            c.ok(np.ndim(a) == 0 == np.ndim(b), "scalars give scalars", got=str(type(a)))
            if near[j] or far[j]:
                c.close([a, b], [x[j], y[j]], 0, 1e-7 * R, "scalar call")
            c.count("scalars")
        a, b = o.transform(float(cc[0]), float(cc[1]))
        c.close([a, b], [0., 0.], 0, 1e-7 * R, "the centre of the map is the origin")
        a, b = o.transform(float((cc[0] + PI) % (2 * PI)), float(PI - cc[1]))
        c.ok(np.isnan(a) and np.isnan(b), "the antipode is not visible")
        # the map shows, at a direction's coordinates, that direction's HEALPix value
        f = np.arange(12 * nside**2, dtype=float)
        m = np.asarray(o.remap(f, verbose=False), float)
        rows, cols = np.nonzero(np.isfinite(m))
        if len(rows):
            X, Y = np.asarray(o.x2d)[rows, cols], np.asarray(o.y2d)[rows, cols]
            shown = m[rows, cols].astype(int)
            v = np.array([X / R, Y / R, np.sqrt(np.clip(1 - (X**2 + Y**2) / R**2, 0, None))])
            D = M @ v
            ph, th = ref.angles(D.T)
            tx, ty = o.transform(ph, th)
            ok = v[2] > 1e-5
            c.close(np.asarray(tx)[ok], X[ok], 0, 1e-7 * R, "transform of a map pixel's direction")
            c.close(np.asarray(ty)[ok], Y[ok], 0, 1e-7 * R, "transform of a map pixel's direction")
            ch = maps.pix_choices(nside, D)
            c.ok(np.all(np.any(ch == shown, axis=0)), "the pixel shows the HEALPix value of that direction")
            # without the reference rotation: the shown HEALPix pixel's own centre is drawn close by
            t0, p0 = hp.pix2ang(nside, shown)
            px, py = (np.asarray(q, float) for q in o.transform(p0, t0))
            rad = hp.max_pixrad(nside) * 1.001
            d2 = np.hypot(px - X, py - Y)
            c.ok(not np.any(d2 > R * rad + 1e-7 * R), "the shown HEALPix pixel is drawn where the map shows it", worst=float(np.nanmax(d2)) if np.any(np.isfinite(d2)) else None)
            inner = v[2] > np.sin(min(rad, 1.5)) + 1e-6
            c.ok(not np.any(np.isnan(px[inner])), "the shown HEALPix pixel is on the near side")
            c.count("map_pixels", len(rows))
        # a refined map has the same coordinates
        c.close(o.radius, R, 0, 0, "published radius")

    ck.section("transform", run, 1200, 300000)
