"""Two-sided tests with a fixed tiny false-alarm probability (seeds are fixed, so results do not flicker)."""

import numpy as np
from scipy import stats

# probability of a false alarm of one test; with some thousand tests of a check still below 1e-5
ALPHA = 1e-9


def ks_distance_limit(n, alpha=ALPHA):
    """Dvoretzky-Kiefer-Wolfowitz bound on the Kolmogorov distance."""
    return np.sqrt(np.log(2 / alpha) / 2 / n)


def ks_continuous(sample, cdf, alpha=ALPHA):
    """Kolmogorov distance of a sample to a cdf (right-continuous), and its limit."""
    x = np.sort(np.asarray(sample, dtype=np.float64).ravel())
    n = len(x)
    c = cdf(x)
    d = max(np.max(np.arange(1, n + 1) / n - c), np.max(c - np.arange(n) / n))
    return d, ks_distance_limit(n, alpha)


def ks_discrete(sample, cdf, alpha=ALPHA):
    """Kolmogorov distance of an integer sample to a cdf defined on integers."""
    x = np.asarray(sample).ravel()
    values, counts = np.unique(x, return_counts=True)
    emp = np.cumsum(counts) / len(x)
    c = cdf(values)
    below = cdf(values - 1)
    d = max(np.max(np.abs(emp - c)), np.max(np.abs(np.concatenate([[0], emp[:-1]]) - below)))
    return d, ks_distance_limit(len(x), alpha)


def mean_limit(std, n, alpha=ALPHA):
    """Limit on the deviation of the mean of n values."""
    return stats.norm.isf(alpha / 2) * std / np.sqrt(n)


def correlation(a, b):
    a = np.asarray(a, dtype=np.float64).ravel()
    b = np.asarray(b, dtype=np.float64).ravel()
    if a.std() == 0 or b.std() == 0:
        return 0.0
    return float(np.corrcoef(a, b)[0, 1])


def correlation_limit(n, alpha=ALPHA):
    return stats.norm.isf(alpha / 2) / np.sqrt(n)
