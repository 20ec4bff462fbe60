"""Statistical bounds with negligible false-alarm probability (p < 1e-9 per test)."""
import math

import numpy as np


def poisson_ok(n, lam, p=1e-10):
    """Is n a plausible Poisson(lam) count?"""
    if lam == 0:
        return n == 0
    if lam > 400:
        return abs(n - lam) <= 6.7 * math.sqrt(lam) + 3
    # exact tails
    def pmf(k):
        return math.exp(k * math.log(lam) - lam - math.lgamma(k + 1))
    lo = sum(pmf(k) for k in range(0, n + 1))
    hi = 1 - sum(pmf(k) for k in range(0, n))
    if n > lam:
        hi = sum(pmf(k) for k in range(n, n + 400))
    return (lo if n < lam else hi) > p


def ks_uniform(x):
    """sqrt(n) * Kolmogorov distance from the uniform distribution on [0,1]."""
    x = np.sort(np.asarray(x, float))
    n = len(x)
    i = np.arange(1, n + 1)
    return math.sqrt(n) * max(np.max(i / n - x), np.max(x - (i - 1) / n))


KS_LIMIT = 3.4          # p = 2 exp(-2*3.4^2) = 2e-10


def normal_cdf(z):
    return np.array([0.5 * math.erfc(-v / math.sqrt(2)) for v in np.atleast_1d(z)])


def corr_ok(a, b, k=6.5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    # a column that is constant up to rounding has no correlation to test
    if len(a) < 30 or any(x.std() <= 1e-9 * max(1.0, abs(x).max()) for x in (a, b)):
        return True
    return abs(np.corrcoef(a, b)[0, 1]) * math.sqrt(len(a)) < k


def dispersion_bounds(n, m, z=7.0):
    """Bounds for variance/mean of n Poisson(m) counts (Wilson-Hilferty, widened for small means)."""
    k = n - 1
    s = z * math.sqrt(2 / (9 * k)) * math.sqrt(1 + 1 / (2 * m))
    c = 1 - 2 / (9 * k)
    return max(0.0, c - s)**3, (c + s)**3
