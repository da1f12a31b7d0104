"""Distribution oracles with explicit false-alarm bounds."""
import math

import numpy as np
from scipy import stats

DELTA = 1e-12


def dkw(c, u, msg, delta=DELTA, **kw):
    """u is claimed uniform on [0, 1]; Dvoretzky-Kiefer-Wolfowitz-Massart."""
    u = np.sort(np.asarray(u, float).ravel())
    n = len(u)
    if n == 0:
        return
    k = np.arange(1, n + 1)
    d = max(np.max(k / n - u), np.max(u - (k - 1) / n))
    lim = math.sqrt(math.log(2. / delta) / (2. * n)) + 1e-9
    c.ok(d <= lim, "%s: distance to the uniform distribution %.4g, at most %.4g allowed for %d samples" % (msg, d, lim, n), **kw)


def extremes(c, u, msg, delta=DELTA, **kw):
    """u is claimed uniform on [0, 1]: the range is filled up to both ends."""
    u = np.asarray(u, float).ravel()
    lim = math.log(2. / delta) / len(u) + 1e-9
    c.ok(u.min() <= lim and u.max() >= 1 - lim, "%s: range filled only from %.3g to %.6g by %d samples" % (msg, u.min(), u.max(), len(u)), **kw)


def grid_counts(us, bins):
    """Counts of d-dimensional points claimed uniform on the unit cube."""
    idx = [np.clip((np.asarray(u, float) * b).astype(int), 0, b - 1) for u, b in zip(us, bins)]
    return np.bincount(np.ravel_multi_index(idx, bins), minlength=int(np.prod(bins)))


def chi2_counts(c, obs, expected, msg, delta=DELTA, **kw):
    obs, expected = np.asarray(obs, float).ravel(), np.asarray(expected, float).ravel()
    keep = expected > 0
    c.ok(np.all(obs[~keep] == 0), msg + ": nothing where nothing may be", **kw)
    obs, expected = obs[keep], expected[keep]
    if len(obs) < 2:
        return
    x = np.sum((obs - expected)**2 / expected)
    p = stats.chi2.sf(x, len(obs) - 1)
    c.ok(p >= delta, "%s: chi-square %.1f with %d degrees of freedom, p = %.2g" % (msg, x, len(obs) - 1, p), **kw)


def uniform_cube(c, us, msg, bins=None, delta=DELTA, **kw):
    n = len(us[0])
    d = len(us)
    if bins is None:
        b = max(2, min(8, int((n / 200.)**(1. / d))))
        bins = [b] * d
    obs = grid_counts(us, bins)
    chi2_counts(c, obs, np.full(obs.size, n / obs.size), msg, delta, **kw)


def lags(c, x, y, msg, var=1. / 12, sup=.5, delta=DELTA, **kw):
    """Centred independent draws x and y (or y is x): no product sum at any distance; Freedman's inequality, all distances."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    same = np.array_equal(x, y)
    n = len(x)
    if n < 8:
        return
    m = 1 << (2 * n - 1).bit_length()
    s = np.fft.irfft(np.fft.rfft(x, m) * np.conj(np.fft.rfft(y, m)), m)
    s = np.concatenate([s[1:n], s[m - n + 1:], s[:0] if same else s[:1]])
    L = math.log(4. * n / delta)
    lim = L * sup * sup / 3 + math.sqrt((L * sup * sup / 3)**2 + 2 * n * var * sup * sup * L)
    k = int(np.argmax(np.abs(s)))
    c.ok(abs(s[k]) <= lim, "%s: points %d apart are related (%.4g, at most %.4g allowed for %d)" % (msg, k + 1 if k < n - 1 else 2 * n - 2 - k, s[k], lim, n), **kw)


def binomial(c, k, n, p, msg, delta=DELTA, **kw):
    """k successes in n with probability p (exact tails)."""
    lo, hi = stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p)
    c.ok(min(lo, hi) >= delta / 2, "%s: %d of %d with probability %.6g (tail %.2g)" % (msg, k, n, p, min(lo, hi)), **kw)


def bernstein(n, var, span, delta=DELTA):
    """Largest believable |mean - expectation| of n independent values with this variance and range."""
    l = math.log(2. / delta)
    return np.sqrt(2. * var * l / n) + span * l / (3. * n)


def pooled(c, rows, err, msg, delta=DELTA):
    """rows (deviation of a mean, number of samples, variance of one sample); samples lie in a unit interval."""
    d, n, v = np.array(rows, float).T
    N = n.sum()
    mean = np.sum(n * d) / N
    lim = bernstein(N, np.sum(n * v) / N, 1., delta) + err
    c.ok(abs(mean) <= lim, "%s: mean deviation %.5f over %d samples, at most %.5f believable" % (msg, mean, N, lim))
    c.count("pooled_samples", int(N))
