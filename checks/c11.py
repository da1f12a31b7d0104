"""HEALPix pixel, ring and diagonal indices."""
import healpy as hp
import numpy as np

from vlib import build, gen, ref

PI = np.pi
SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64]
LARGE = [100, 128, 255, 256, 512, 1024, 4096, 2**13]


def setup(ck):
    mp, root = build.load()
    px = mp.pixel
    ck.rule = "All pixels of resolutions up to 64 (also ones that are not powers of two), random and border pixels up to resolutions of millions."
    ck.need("pixels_array", 100000)
    ck.need("pixels_scalar", 5000)
    ck.need("resolutions", 20)
    ck.need("star_pixels", 50000)
    ck.need("very_fine", 4)

    def reference(nside, p):
        """Ring number and position by integer arithmetic on the ring sizes."""
        p = np.asarray(p, dtype=np.int64)
        if nside > 10000:
            starts = lambda i: np.where(i <= nside, 2 * i * (i - 1), np.where(i <= 3 * nside, 2 * nside * (nside - 1) + 4 * nside * (i - nside),
                                        12 * nside**2 - 2 * (4 * nside - i) * (4 * nside - i + 1)))
            lo, hi = np.ones(p.shape, np.int64), np.full(p.shape, 4 * nside, np.int64)
            while np.any(hi - lo > 1):          # by bisection, integers only
                m = (lo + hi) // 2
                lo, hi = np.where(starts(m) <= p, m, lo), np.where(starts(m) <= p, hi, m)
            return lo, p - starts(lo) + 1
        rings = np.arange(1, 4 * nside)
        size = 4 * np.minimum(np.minimum(rings, nside), 4 * nside - rings)
        start = np.concatenate([[0], np.cumsum(size)])
        i = np.searchsorted(start, p, side="right")
        return i, p - start[i - 1] + 1

    def some_borders(rng, nside, n):
        i = np.where(rng.random(n) < .3, rng.choice([1, 2, nside - 1, nside, nside + 1], n), rng.integers(1, nside + 1, n)).astype(np.int64)
        cap = 2 * i * (i - 1)
        belt = 2 * nside * (nside - 1) + 4 * nside * rng.integers(0, 2 * nside + 1, n).astype(np.int64)
        p = np.concatenate([cap, 12 * nside**2 - cap, belt]) - rng.integers(0, 2, 3 * n)
        return np.unique(np.clip(p, 0, 12 * nside**2 - 1))

    def borders(nside):
        rings = np.arange(1, 4 * nside)
        size = 4 * np.minimum(np.minimum(rings, nside), 4 * nside - rings)
        start = np.concatenate([[0], np.cumsum(size)])
        return np.unique(np.clip(np.concatenate([start, start - 1]), 0, 12 * nside**2 - 1))

    def judge(c, nside, p, scalar):
        wi, wj = reference(nside, p)
        if hp.isnsideok(nside):
            hi = hp.pix2ring(nside, p)
            c.ok(np.array_equal(hi, wi), "reference ring agrees with healpy")
        if scalar:
            rng = c.rng
            for q, a, b in zip(p, wi, wj):
                q = int(q) if rng.random() < .5 else np.int64(q)
                o = px.healpix_pix2ij(q, nside)
                c.ok(tuple(o) == (a, b), "ring and position of pixel %d" % q, nside=nside, got=list(o), want=[int(a), int(b)])
                c.ok(px.healpix_ij2pix(int(a), int(b), nside) == q, "back to pixel %d" % q, nside=nside,
                     got=px.healpix_ij2pix(int(a), int(b), nside))
            c.count("pixels_scalar", len(p))
        else:
            i, j = px.healpix_pix2ij(p, nside)
            c.same(np.asarray(i), wi, "ring", nside=nside)
            c.same(np.asarray(j), wj, "position along the ring", nside=nside)
            c.same(np.asarray(px.healpix_ij2pix(wi, wj, nside)), p, "back to the pixel", nside=nside)
            c.count("pixels_array", len(p))

    def centres(c, nside, p, scalar):
        """Plane coordinates against the centres of healpy (power of two) or of the ring formulae."""
        wi, wj = reference(nside, p)
        i = wi.astype(float)
        y = PI / 2 * (1. - i / (2. * nside))
        n = 4. * np.minimum(np.minimum(wi, nside), 4 * nside - wi)
        # caps: centres at facet centre -+; belt: half-cell offset on alternate rings
        q = n / 4.
        facet = np.floor((wj - 1) / q)
        xcap = PI / 2 * facet + PI / 4 + PI / (2. * nside) * ((wj - 1) - facet * q - (q - 1) / 2.)
        s = (wi - nside + 1) % 2
        xbelt = PI / (2. * nside) * (wj - 1 + .5 * s)
        x = np.where((wi < nside) | (wi > 3 * nside), xcap, xbelt)
        if hp.isnsideok(nside):
            hx, hy = ref.heal_centre_xy(nside, p)
            c.close(x, hx, 0, 1e-6, "reference centre agrees with healpy (x)")
            c.close(y, hy, 0, 1e-6, "reference centre agrees with healpy (y)")
        if scalar:
            got = [px.healpix_pix2xy(int(v), nside) for v in p]
            got2 = [px.healpix_ij2xy(int(a), int(b), nside) for a, b in zip(wi, wj)]
            for g in (got, got2):
                c.close([v[0] for v in g], x, 0, 1e-13, "plane x of single pixels", nside=nside)
                c.close([v[1] for v in g], y, 0, 1e-13, "plane y of single pixels", nside=nside)
        else:
            for g in (px.healpix_pix2xy(p, nside), px.healpix_ij2xy(wi, wj, nside)):
                c.close(g[0], x, 0, 1e-13, "plane x", nside=nside)
                c.close(g[1], y, 0, 1e-13, "plane y", nside=nside)
        return x, y

    def star(c, nside, p, x, y, everything):
        wi, wj = reference(nside, p)
        idash, jdash = np.asarray(px.healpix_i2id(wi, nside), float), np.asarray(px.healpix_j2jd(wi, wj, nside), float)
        c.close(idash * PI / (2 * nside), y, 0, 1e-13, "plane-aligned index maps to y", nside=nside)
        c.close(jdash * PI / (2 * nside), x, 0, 1e-13, "plane-aligned index maps to x", nside=nside)
        k = c.rng.integers(0, len(p))
        c.close(px.healpix_i2id(int(wi[k]), nside), idash[k], 0, 0, "plane-aligned index of a single ring")
        c.close(px.healpix_j2jd(int(wi[k]), int(wj[k]), nside), jdash[k], 0, 0, "plane-aligned index of a single pixel")
        i, j = px.healpix_ijd2ijs(idash.copy(), jdash.copy(), nside)
        i, j = np.asarray(i), np.asarray(j)
        c.ok(i.dtype.kind in "iu" and j.dtype.kind in "iu", "diagonal indices are integers")
        pairs = np.unique(np.stack([i, j]), axis=1)
        c.ok(pairs.shape[1] == len(np.unique(p)), "different pixels have different diagonal indices", nside=nside)
        a, b = px.healpix_ijs2ijd(i.copy(), j.copy(), nside)
        c.same(np.asarray(a, float), idash, "back to the plane-aligned index (y)", nside=nside)
        c.same(np.asarray(b, float), jdash, "back to the plane-aligned index (x)", nside=nside)
        c.count("star_pixels", len(p))

    def small(c):
        nside = SIZES[c.index % len(SIZES)]
        p = np.arange(12 * nside**2)
        if c.index >= len(SIZES):
            p = c.rng.permutation(p)[:max(1, len(p) // 2)]
        c.desc(nside=nside, npix=len(p), order=int(p[0]))
        judge(c, nside, p, False)
        few = np.unique(np.concatenate([borders(nside), p[::max(1, len(p) // 200)]]))
        if len(few) > 500:
            few = c.rng.choice(few, 500, replace=False)
        judge(c, nside, few, True)
        x, y = centres(c, nside, p, False)
        star(c, nside, p, x, y, True)
        centres(c, nside, few[:200], True)
        c.count("resolutions")

    def large(c):
        nside = int(c.rng.choice(LARGE)) if c.rng.random() < .5 else int(c.rng.integers(65, 3000))
        if c.index % 4 == 3:
            nside = 2**int(c.rng.integers(13, 23)) if c.rng.random() < .5 else int(c.rng.integers(10001, 3000000))
            b = some_borders(c.rng, nside, 400)
            c.count("very_fine")
        else:
            b = borders(nside)
            b = c.rng.choice(b, min(len(b), 1500), replace=False)
        p = np.unique(np.concatenate([b, c.rng.integers(0, 12 * nside**2, 1500), [0, 12 * nside**2 - 1]]))
        c.desc(nside=nside, npix=len(p))
        judge(c, nside, p, False)
        judge(c, nside, c.rng.choice(p, 60, replace=False), True)
        x, y = centres(c, nside, p, False)
        star(c, nside, p, x, y, False)
        centres(c, nside, c.rng.choice(p, 30), True)
        c.count("resolutions")

    def short(c):
        """Single pixels and arrays of a few, first and last of rings, quarters and borders."""
        rng = c.rng
        nside = int(rng.choice(SIZES + LARGE)) if rng.random() < .7 else int(rng.integers(1, 5000))
        i = np.array([1, 2, nside - 1, nside, nside + 1, 2 * nside - 1, 2 * nside, 2 * nside + 1, 3 * nside - 1, 3 * nside, 3 * nside + 1, 4 * nside - 2, 4 * nside - 1])
        i = rng.choice(np.concatenate([i, rng.integers(1, 4 * nside, 8)]), 12)
        i = np.clip(i, 1, 4 * nside - 1)
        start = np.where(i <= nside, 2 * i * (i - 1), np.where(i <= 3 * nside, 2 * nside * (nside - 1) + 4 * nside * (i - nside), 12 * nside**2 - 2 * (4 * nside - i) * (4 * nside - i + 1)))
        size = 4 * np.minimum(np.minimum(i, nside), 4 * nside - i)
        q = rng.integers(0, 4, len(i)) * (size // 4)
        p = start + np.choose(rng.integers(0, 4, len(i)), [0 * size, size - 1, q, (q - 1) % size])
        c.desc(nside=nside, pixels=p)
        judge(c, nside, p, True)
        centres(c, nside, p, True)
        k = 0
        while k < len(p):
            n = int(rng.integers(1, 4))
            part = p[k:k + n]
            judge(c, nside, part, False)
            x, y = centres(c, nside, part, False)
            star(c, nside, part, x, y, False)
            k += n
        c.count("short_arrays")

    ck.need("short_arrays", 200)
    ck.section("short", short, 400, 40000)
    ck.section("small", small, 2 * len(SIZES), 6 * len(SIZES))
    ck.section("large", large, 24, 12000)
