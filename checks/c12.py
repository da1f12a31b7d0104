"""HEALPix neighbours."""
import healpy as hp
import numpy as np

from vlib import build, gen, ref

PI = np.pi


def setup(ck):
    mp, root = build.load()
    px = mp.pixel
    ck.rule = "Every pixel of small resolutions, sampled and border pixels of larger ones; the expected neighbours come from healpy."
    ck.need("pixels", 6000)
    ck.need("seven_neighbours", 24)
    ck.need("seam_pixels", 100)
    ck.need("cap_pixels", 1000)
    ck.need("resolutions", 5)
    ck.assumptions = ["Resolution 1 is outside the property; healpy's neighbour search is the reference."]

    tables = {}

    def table(nside):
        """Diagonal indices of all pixels."""
        if nside not in tables:
            p = np.arange(12 * nside**2)
            i, j = px.healpix_pix2ij(p, nside)
            a, b = px.healpix_ijd2ijs(np.asarray(px.healpix_i2id(i, nside), float), px.healpix_j2jd(i, j, nside), nside)
            a, b = np.asarray(a), np.asarray(b)
            back = {(int(u), int(v)): int(q) for q, u, v in zip(p, a, b)}
            tables[nside] = a, b, back
        return tables[nside]

    def ringinfo(nside, rings):
        n = np.arange(1, 4 * nside)
        size = 4 * np.minimum(np.minimum(n, nside), 4 * nside - n)
        start = np.concatenate([[0], np.cumsum(size)])
        return start[rings - 1], size[rings - 1]

    corners = {}

    def expected(c, nside, p):
        """healpy's neighbours; for resolutions that are no power of two, the pixels sharing a corner on the sphere."""
        if nside & (nside - 1) == 0:
            return sorted(int(v) for v in hp.get_all_neighbours(nside, p) if v >= 0)
        if nside not in corners:
            b = hp.boundaries(nside, np.arange(12 * nside**2), step=1)
            key = np.round(b.transpose(0, 2, 1) * 1e7).astype(np.int64)
            share = {}
            for q in range(len(key)):
                for k in key[q]:
                    share.setdefault(tuple(k), set()).add(q)
            corners[nside] = key, share
        key, share = corners[nside]
        out = set()
        for k in key[p]:
            for d in np.ndindex(3, 3, 3):
                out |= share.get((int(k[0]) + d[0] - 1, int(k[1]) + d[1] - 1, int(k[2]) + d[2] - 1), set())
        return sorted(out - {p})

    def one(c, nside, p):
        a, b, back = table(nside)
        want = expected(c, nside, p)
        s = (a[p], b[p]) if c.rng.random() < .8 else (int(a[p]), int(b[p]))
        i, j = px.healpix_ijs_neighbours(s[0], s[1], nside)
        i, j = np.asarray(i), np.asarray(j)
        pairs = list(zip(i.tolist(), j.tolist()))
        c.ok(i.ndim == 1 and i.shape == j.shape, "paired index arrays", nside=nside, p=p)
        c.ok(len(set(pairs)) == len(pairs), "no repeats", nside=nside, p=p, pairs=pairs)
        bad = [q for q in pairs if q not in back]
        c.ok(not bad, "every returned pair is the index of a pixel", nside=nside, p=p, bad=bad)
        got = sorted(back[q] for q in pairs)
        c.ok(got == want, "neighbours of pixel %d at nside %d" % (p, nside), got=got, want=want)
        c.count("pixels")
        if len(want) == 7:
            c.count("seven_neighbours")
        th, ph = hp.pix2ang(nside, p)
        if ph < PI / (2 * nside) or ph > 2 * PI - PI / (2 * nside):
            c.count("seam_pixels")
        if abs(np.cos(th)) > 2. / 3:
            c.count("cap_pixels")

    def every(c):
        """One slice of all pixels of a small resolution."""
        nside = [2, 4, 8, 16, 3, 5, 7, 12, 11][c.index // 8 % 9]
        part = np.arange(12 * nside**2)[c.index % 8::8]
        c.desc(nside=nside, part=c.index % 8, npix=len(part))
        for p in part:
            one(c, nside, int(p))
        c.count("resolutions", c.index % 8 == 0)

    def sampled(c):
        nside = int(c.rng.choice([32, 64, 128, 256, 33, 100] if c.thorough else [32, 64, 128, 33, 50]))
        rings = np.array([1, 2, nside - 1, nside, nside + 1, 2 * nside, 3 * nside - 1, 3 * nside, 3 * nside + 1, 4 * nside - 2, 4 * nside - 1])
        start, size = ringinfo(nside, rings)
        pick = np.concatenate([start, start + size - 1, start + size // 4, start + size // 4 - 1, start + size // 2,
                               start + 3 * size // 4, start + 3 * size // 4 - 1, c.rng.integers(0, 12 * nside**2, 150)])
        r = c.rng.integers(1, 4 * nside, 30)
        s2, n2 = ringinfo(nside, r)
        for k in range(4):
            pick = np.concatenate([pick, s2 + k * n2 // 4, (s2 + k * n2 // 4 - 1 - s2) % n2 + s2])
        c.desc(nside=nside, pixels=pick)
        for p in np.unique(pick):
            one(c, nside, int(p))
        c.count("resolutions")

    def fine(c):
        """Very fine resolutions: the returned pairs against the diagonal indices of healpy's neighbours."""
        rng = c.rng
        nside = 2**int(rng.integers(9, 22))
        n = 12 * nside**2
        i = np.array([1, 2, nside - 1, nside, nside + 1, nside + 2, 2 * nside - 1, 2 * nside, 2 * nside + 1, 3 * nside - 1, 3 * nside, 3 * nside + 1, 4 * nside - 2, 4 * nside - 1]
                     + [int(v) for v in rng.integers(1, 4 * nside, 8)])
        start = np.where(i <= nside, 2 * i * (i - 1), np.where(i <= 3 * nside, 2 * nside * (nside - 1) + 4 * nside * (i - nside), n - 2 * (4 * nside - i) * (4 * nside - i + 1)))
        size = 4 * np.minimum(np.minimum(i, nside), 4 * nside - i)
        off = [0 * size, size - 1, rng.integers(0, 4, len(i)) * (size // 4), (rng.integers(1, 5, len(i)) * (size // 4)) - 1, rng.integers(0, size)]
        pick = np.unique(np.concatenate([start + o for o in off]))
        c.desc(nside=nside, pixels=pick)

        def stars(p):
            ri, rj = px.healpix_pix2ij(p, nside)
            a, b = px.healpix_ijd2ijs(np.asarray(px.healpix_i2id(ri, nside), float), px.healpix_j2jd(ri, rj, nside), nside)
            return np.asarray(a), np.asarray(b)
        a, b = stars(pick)
        for k, p in enumerate(pick):
            want = np.array(sorted(int(v) for v in hp.get_all_neighbours(nside, int(p)) if v >= 0))
            got = px.healpix_ijs_neighbours(a[k], b[k], nside)
            got = list(zip(np.asarray(got[0]).tolist(), np.asarray(got[1]).tolist()))
            c.ok(len(set(got)) == len(got), "no repeats", nside=nside, p=int(p), pairs=got)
            c.ok(set(got) == set(zip(*[v.tolist() for v in stars(want)])), "neighbours of pixel %d at nside %d" % (p, nside), got=got, want=want)
        c.count("fine_pixels", len(pick))

    ck.need("fine_pixels", 500)
    ck.section("fine", fine, 16, 4000)
    ck.section("every", every, 72, 72)
    ck.section("sampled", sampled, 16, 4000)
