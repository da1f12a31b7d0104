"""Generators of hostile inputs."""
import numpy as np

PI = np.pi


def loguniform(rng, lo, hi, size=None):
    return np.exp(rng.uniform(np.log(lo), np.log(hi), size))


def coord(rng, n, scale=None):
    """Mixture: normal, axis zeros, signed zeros, integers, tiny, huge."""
    s = loguniform(rng, 1e-3, 1e3) if scale is None else scale
    x = rng.normal(size=n) * s
    k = rng.integers(0, 10, size=n)
    x = np.where(k == 0, 0., x)
    x = np.where(k == 1, -0., x)
    x = np.where(k == 2, np.round(x), x)
    x = np.where(k == 3, x * 1e-12, x)
    return x


def scale(rng, lo=1e-2, hi=1e2, tiny=1e-12, huge=1e12):
    """A magnitude: usually ordinary, sometimes anything."""
    return float(loguniform(rng, lo, hi) if rng.random() < .8 else loguniform(rng, tiny, huge))


def magnitude(rng, lo=1e-3, hi=1e3):
    """The size of map values: usually ordinary, now and then far from one (but not near hp.UNSEEN)."""
    if rng.random() < .92:
        return float(loguniform(rng, lo, hi))
    e = float(rng.uniform(-100, 100))
    return 10.**(e if abs(e - 30) > 4 else e - 60)


def shape(rng):
    u = rng.random()
    if u < .001:                    # very large
        return (int(loguniform(rng, 4000, 40000)),)
    if u < .02:                     # large arrays, in one and two axes
        n = int(rng.integers(600, 4000))
        return (n,) if rng.random() < .6 else (n // 40, 40)
    return [(), (1,), (7,), (40,), (3, 5), (1, 6), (6, 1), (2, 3, 4), (0,), (5, 4, 1)][rng.integers(0, 10)]


def offsets(rng, n, lo=1e-16, hi=.1):
    """Offsets of every order of magnitude and either sign, with exact zeros."""
    e = loguniform(rng, lo, hi, n) * rng.choice([-1., 1.], n)
    return np.where(rng.random(n) < .3, 0., e)


def angle(rng, hi=2. * PI, lo=1e-12):
    """An angle in [0, hi]: generic, special, or any order of magnitude away from either end."""
    k = rng.integers(0, 10)
    if k < 5:
        return float(rng.uniform(0., hi))
    if k < 7:
        return float(rng.choice([0., PI / 2., PI, hi])) if hi > 6 else float(rng.choice([0., hi / 2, hi]))
    d = float(loguniform(rng, lo, .1 * hi))
    return d if k == 7 else (hi - d if k == 8 else float(abs(rng.choice([PI / 2, PI]) + rng.choice([-d, d])) % hi))


def phi(rng, n, closed=True):
    """Longitudes in [0, 2pi], biased to quadrant borders and both ends."""
    p = rng.uniform(0., 2. * PI, n)
    k = rng.integers(0, 8, n)
    q = rng.integers(0, 5 if closed else 4, n) * (PI / 2.)
    eps = offsets(rng, n)
    p = np.where(k == 0, np.clip(q + eps, 0., 2. * PI), p)
    if not closed:
        p = np.where(p >= 2. * PI, 0., p)
    return p


def theta(rng, n, safe=False):
    """Polar angles in [0, pi], biased to poles, equator and the HEALPix cap border."""
    t = np.arccos(rng.uniform(-1., 1., n))
    k = rng.integers(0, 10, n)
    eps = offsets(rng, n)
    b = rng.choice([np.arccos(2. / 3.), np.arccos(-2. / 3.), PI / 2.], n)
    t = np.where(k == 0, np.clip(b + eps, 0., PI), t)
    if not safe:
        d = np.abs(offsets(rng, n))
        t = np.where(k == 1, np.where(rng.random(n) < .5, d, PI - d), t)
    return t


def centre_dir(rng):
    """A direction for centres and rotations: poles, quadrant meridians, both ends of the ranges, generic."""
    k = rng.integers(0, 12)
    if k == 10:
        return [0., PI / 2]
    if k == 11:
        return [float(rng.choice([0., PI / 2, PI, 3 * PI / 2, 2. * PI, rng.uniform(0, 2 * PI)])), float(rng.choice([0., PI / 2, PI / 2, PI]))]
    if k == 0:
        return [float(rng.choice([0., 1., 2. * PI, PI])), float(rng.choice([0., PI]))]
    if k == 1:
        return [float(rng.choice([0., 2. * PI, PI / 2, PI, 3 * PI / 2])), float(rng.choice([PI / 2, PI / 4, 1., 2.5]))]
    if k == 2:
        d = float(loguniform(rng, 1e-4, .1))
        return [angle(rng, lo=1e-5), float(rng.choice([d, PI - d, PI / 2, PI / 2 + d]))]
    return [float(rng.uniform(0, 2 * PI)), float(np.arccos(rng.uniform(-1, 1)))]


def edges(rng, n, lo=None, hi=None, ratio=None):
    """Increasing non-uniform edges."""
    lo = rng.normal() * 3. if lo is None else lo
    w = loguniform(rng, 0.05, 1., n) if ratio is None else loguniform(rng, 1., ratio, n)
    e = lo + np.concatenate([[0.], np.cumsum(w)])
    if hi is not None:
        e = lo + (e - lo) * (hi - lo) / (e[-1] - lo)
    return e
