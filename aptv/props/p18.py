"""P18: random samplers follow their documented distributions."""

import numpy as np
from hypothesis import strategies as st
from scipy import special, stats

from aptv import kit, variants
from aptv import stats as ts
from aptv.harness import require

RULE = "parameters differ between the events of the sample, or the distribution is not degenerate"

N = 200_000


def spread(rng, lo, hi, log=False):
    """Parameter of every event: constant, or different for each and over most of the range."""
    if log:
        lo, hi = np.log(lo), np.log(hi)
    if rng.same():
        x = np.full(N, rng.uniform(lo, hi))
    else:
        x = rng.uniform(lo + rng.uniform(0, 0.25) * (hi - lo), hi - rng.uniform(0, 0.25) * (hi - lo), N)
    return np.float32(np.exp(x) if log else x).astype(float)


# name -> (function drawing the parameters, cdf(x, *parameters), discrete)
def p_uniform(rng):
    lo = spread(rng, -20, 20)
    return [lo, np.float32(lo + spread(rng, 0.1, 30)).astype(float)]


def p_truncate(rng):
    mean, std = spread(rng, -5, 5), spread(rng, 0.1, 5, log=True)
    lo = np.float32(mean + std * spread(rng, -3, 1)).astype(float)
    hi = np.float32(lo + std * spread(rng, 0.2, 5)).astype(float)
    return [mean, std, lo, hi]


def cdf_skew(x, a, loc, scale):
    z = (x - loc) / scale
    return stats.norm.cdf(z) - 2 * special.owens_t(z, a)


def cdf_twohalf(x, mu, pos, neg):
    w = pos / (pos + neg)
    below = 2 * (1 - w) * stats.norm.cdf((x - mu) / neg)
    above = 1 - w + w * (2 * stats.norm.cdf((x - mu) / pos) - 1)
    return np.where(x < mu, below, above)


def trials(rng, small, large):
    if rng.same():
        return np.full(N, rng.randint(small, large))
    return rng.randint(small, large, N)


def probabilities(rng):
    return spread(rng, 0.01, 0.99) if rng.rand() < 0.7 else spread(rng, 0.001, 0.05, log=True)


def p_hybrid_large(rng):
    # where the normal approximation applies: the variance of every event is at least five
    n = trials(rng, 200, 3000)
    return [spread(rng, 0.03, 0.97), n]


def p_hybrid_edge(rng):
    # the last number of trials that is summed exactly, and the first one that is not
    n = trials(rng, 128, 130)
    return [spread(rng, 0.05, 0.95), n]


def cdf_normal(x, p, n):
    """Normal approximation, rounded and clipped."""
    std = np.maximum(np.sqrt(n * p * (1 - p)), 1e-30)
    return np.where(x < 0, 0, np.where(x >= n, 1, stats.norm.cdf((x + 0.5 - n * p) / std)))


def cdf_dispatch(x, p, n):
    """The same for at least five expected ones, and the exact distribution otherwise."""
    return np.where(n * p >= 5, cdf_normal(x, p, n), stats.binom.cdf(x, n, p))


CASES = {
    "uniform": (p_uniform, lambda x, a, b: np.clip((x - a) / (b - a), 0, 1), False, 0),
    "poisson": (lambda r: [spread(r, 0.05, 2000, log=True)], lambda x, lam: stats.poisson.cdf(x, lam), True, 0),
    "gamma": (
        lambda r: [spread(r, 0.3, 50, log=True), spread(r, 0.05, 20, log=True)],
        lambda x, a, b: special.gammainc(a, np.maximum(x, 0) * b),
        False,
        0,
    ),
    "normal": (
        lambda r: [spread(r, -50, 50), spread(r, 0.1, 30, log=True)],
        lambda x, m, s: stats.norm.cdf((x - m) / s),
        False,
        0,
    ),
    "truncate_normal": (p_truncate, None, False, 0),
    "skewnormal": (lambda r: [spread(r, -6, 6), spread(r, -20, 20), spread(r, 0.1, 10, log=True)], cdf_skew, False, 0),
    "bernoulli": (lambda r: [spread(r, 0, 1)], lambda x, p: np.where(x < 0, 0, np.where(x < 1, 1 - p, 1)), True, 0),
    "binomial": (lambda r: [probabilities(r), trials(r, 1, r.choice([5, 60, 4000]))], lambda x, p, n: stats.binom.cdf(x, n, p), True, 0),
    "binomial_hybrid": (lambda r: [probabilities(r), trials(r, 1, 129)], lambda x, p, n: stats.binom.cdf(x, n, p), True, 0),
    "binomial_hybrid large": (p_hybrid_large, lambda x, p, n: stats.binom.cdf(x, n, p), True, 0.004),
    "binomial_hybrid edge": (p_hybrid_edge, lambda x, p, n: stats.binom.cdf(x, n, p), True, 0.004),
    "binomial set to hybrid": (lambda r: [probabilities(r), trials(r, 1, 129)], lambda x, p, n: stats.binom.cdf(x, n, p), True, 0),
    "binomial without JAX's": (lambda r: [probabilities(r), trials(r, 1, r.choice([5, 60, 4000]))], cdf_normal, True, 1e-3),
    "binomial without JAX's nor approximation": (
        lambda r: [probabilities(r), trials(r, 1, r.choice([5, 60, 4000]))],
        cdf_dispatch,
        True,
        1e-3,
    ),
    "negative_binomial": (
        lambda r: [spread(r, 0.05, 0.95), spread(r, 0.5, 60, log=True)],
        lambda x, p, n: stats.nbinom.cdf(x, n, p),
        True,
        0,
    ),
    "twohalfnorm": (
        lambda r: [spread(r, -20, 20), spread(r, 0.1, 10, log=True), spread(r, 0.1, 10, log=True)],
        cdf_twohalf,
        False,
        0,
    ),
}


def pit(name, cdf, discrete, x, pars, rng):
    """What is uniform if x follows its distribution."""
    if name == "truncate_normal":
        mean, std, lo, hi = pars
        c = stats.norm.cdf((x - mean) / std)
        a, b = stats.norm.cdf((lo - mean) / std), stats.norm.cdf((hi - mean) / std)
        v = rng.uniform(0, 1, len(x))
        return np.where(x == lo, v * a, np.where(x == hi, b + v * (1 - b), c))
    if not discrete:
        return cdf(x, *pars)
    lower, upper = cdf(x - 1, *pars), cdf(x, *pars)
    return lower + rng.uniform(0, 1, len(x)) * (upper - lower)


class Rng(np.random.RandomState):
    """With the choice whether all events have the same parameters (None: some of the parameters)."""

    constant = False

    def same(self):
        return self.rand() < 0.5 if self.constant is None else self.constant


def strategy(name, **kwargs):
    fields = {"sampler": name, "constant": st.booleans(), "explicit": st.booleans()}
    fields.update(kwargs)
    fields = {k: v if isinstance(v, st.SearchStrategy) else st.just(v) for k, v in fields.items()}
    return st.fixed_dictionaries(dict(fields, seed=st.integers(0, 2**32 - 1), key=st.integers(0, 2**31 - 1)))


def follows(u, what, allowance=0.0):
    d, limit = ts.ks_continuous(u, lambda v: np.clip(v, 0, 1))
    require(d <= limit + allowance, "{}: distance {:.5f} to the distribution, limit {:.5f}", what, d, limit + allowance)
    m = abs(u.mean() - 0.5)
    require(m <= ts.mean_limit(12**-0.5, len(u)) + allowance, "{}: mean of the probability integral is off by {:.5f}", what, m)


def independent(a, b, what):
    r, limit = ts.correlation(a, b), ts.correlation_limit(len(a))
    require(abs(r) <= limit, "{}: correlation {:.5f}, limit {:.5f}", what, r, limit)
    # also of the distance to the median
    r = ts.correlation(np.abs(a - 0.5), np.abs(b - 0.5))
    require(abs(r) <= limit, "{}: correlation of magnitudes {:.5f}, limit {:.5f}", what, r, limit)


def sampler(case, rec):
    name = case["sampler"]
    parameters, cdf, discrete, allowance = CASES[name]
    rng = Rng(case["seed"])
    rng.constant = case["constant"]
    pars = parameters(rng)
    constant = all(len(np.unique(p)) == 1 for p in pars)
    args = [np.float32(p) if p.dtype.kind == "f" else p.astype(np.int32) for p in pars]
    kwargs = {}
    if case["explicit"] and constant:
        args = [a[0] for a in args]
        kwargs["shape"] = (N,)
    f = variants.get(name)
    key, us = kit.key_of(case["key"]), []
    for _ in range(2):
        key, x = f(key, *args, **kwargs)
        x = np.asarray(x, dtype=float)
        us.append(pit(name.split()[0], cdf, discrete, x, pars, rng))
        follows(us[-1], name, allowance)
    u, v = us
    independent(u, v, name + " successive draws")
    for lag in (1, 2, 17):
        independent(u[:-lag], u[lag:], f"{name} events at distance {lag}")
    independent(u[:-1], v[1:], name + " successive draws, shifted")
    # the distribution of every event is that of its own parameters
    for i, p in enumerate(pars):
        if len(np.unique(p)) > 1:
            order = np.argsort(p, kind="stable")
            for part in (order[: N // 4], order[-N // 4 :]):
                follows(u[part], f"{name} events with extreme parameter {i}", allowance)
    rec.checked(12)
    rec.nontrivial()
    rec.label(name, "constant" if constant else "per event")


M = 60_000


def generalized(case, rec):
    """Generalised Poisson distribution with the given expectation."""
    from appletree import randgen

    rng = np.random.RandomState(case["seed"])
    lam = float(np.float32(np.exp(rng.uniform(np.log(0.2), np.log(60)))))
    eta = float(np.float32(rng.choice([0.0, 0.1, 0.5, 0.7, rng.uniform(0, 0.75)])))
    key = kit.key_of(case["key"])
    if case["explicit"]:
        key, x = randgen.generalized_poisson(key, lam, eta, shape=(M,))
        _, y = randgen.generalized_poisson(key, lam, eta, shape=(M,))
    else:
        # half of the events have other parameters
        l = np.where(np.arange(2 * M) % 2, np.float32(lam), np.float32(lam * 3))
        e = np.where(np.arange(2 * M) % 2, np.float32(eta), np.float32(eta / 2))
        key, x = randgen.generalized_poisson(key, l, e)
        _, y = randgen.generalized_poisson(key, l, e)
        x, y = x[1::2], y[1::2]
    x, y = np.asarray(x).astype(int), np.asarray(y).astype(int)
    theta = lam * (1 - eta)
    k = np.arange(0, max(x.max(), y.max()) + 2)
    logp = np.log(theta) + (k - 1) * np.log(theta + k * eta) - theta - k * eta - special.gammaln(k + 1)
    table = np.concatenate([[0], np.cumsum(np.exp(logp))])
    us = []
    for z in (x, y):
        u = table[z] + rng.uniform(0, 1, M) * (table[z + 1] - table[z])
        follows(u, f"generalized_poisson lam={lam} eta={eta}")
        us.append(u)
    std = np.sqrt(lam) / (1 - eta)
    # the tail is heavier than normal; three times the limit of the normal
    require(abs(x.mean() - lam) < 3 * ts.mean_limit(std, M), "mean {} instead of {}", x.mean(), lam)
    independent(us[0], us[1], "generalized_poisson successive draws")
    independent(us[0][1:], us[0][:-1], "generalized_poisson events")
    rec.checked(5)
    rec.nontrivial()
    rec.label("eta=0" if eta == 0 else "eta>0")


def moments(x):
    m = x.mean()
    d = x - m
    v = (d * d).mean()
    return m, v, (d**3).mean() / v**1.5, (d**4).mean() / v**2


def hybrid(case, rec):
    """Shape of the hybrid binomial above the threshold of its exact part.

    The second order Cornish-Fisher expansion is off in each moment by something that falls with the variance,
    at most 0.1 over the variance (computed once for n from 129 to 3000 and variances above five).
    """
    from appletree import randgen

    rng = np.random.RandomState(case["seed"])
    var = np.exp(rng.uniform(np.log(5.2), np.log(9)))
    n = rng.randint(129, 1500)
    p = 0.5 - np.sqrt(0.25 - var / n)
    p = float(np.float32(1 - p if case["flip"] else p))
    key, xs = kit.key_of(case["key"]), []
    for _ in range(16):
        key, x = randgen.binomial_hybrid(key, np.full(N, p, dtype=np.float32), np.full(N, n, dtype=np.int32))
        xs.append(np.asarray(x))
    x = np.concatenate(xs).astype(float)
    mean, var, skew, kurt = (float(v) for v in stats.binom.stats(n, p, moments="mvsk"))
    got = moments(x)
    size, off = len(x), 0.12 / var
    limits = [
        ts.mean_limit(np.sqrt(var), size) + 0.01 * off,
        var * (off + ts.mean_limit(np.sqrt(kurt + 2), size)),
        off + 1.5 * ts.mean_limit(np.sqrt(6), size),
        off + 1.5 * ts.mean_limit(np.sqrt(24), size),
    ]
    for what, g, t, l in zip(("mean", "variance", "skewness", "kurtosis"), got, (mean, var, skew, kurt + 3), limits):
        require(abs(g - t) <= l, "{} of binomial_hybrid n={} p={}: {:.5f} instead of {:.5f} (limit {:.5f})", what, n, p, g, t, l)
    cdf = np.cumsum(np.bincount(x.astype(int), minlength=n + 1)) / size
    d = np.max(np.abs(cdf - stats.binom.cdf(np.arange(n + 1), n, p)))
    limit = ts.ks_distance_limit(size) + 0.015 / var
    require(d <= limit, "binomial_hybrid n={} p={}: distance {:.5f} to the distribution, limit {:.5f}", n, p, d, limit)
    rec.checked(5)
    rec.nontrivial()
    rec.label("flipped" if case["flip"] else "not flipped")


def numpy_sampler(case, rec):
    import jax
    from appletree import randgen

    rng = np.random.RandomState(case["seed"])
    np.random.seed(case["seed"])
    mu, pos, neg = rng.normal(0, 10), 10 ** rng.uniform(-1, 1), 10 ** rng.uniform(-1, 1)
    us = []
    for _ in range(2):
        x = randgen.TwoHalfNorm.rvs(mu=mu, sigma_pos=pos, sigma_neg=neg, size=N)
        us.append(cdf_twohalf(x, mu, pos, neg))
        follows(us[-1], "TwoHalfNorm.rvs")
    independent(us[0], us[1], "TwoHalfNorm.rvs successive draws")
    independent(us[0][1:], us[0][:-1], "TwoHalfNorm.rvs")
    follows(cdf_twohalf(np.asarray(randgen.TwoHalfNorm.rvs(size=N)), 0.0, 1.0, 1.0), "TwoHalfNorm.rvs without arguments")
    singles = np.array([randgen.TwoHalfNorm.rvs(mu=mu, sigma_pos=pos, sigma_neg=neg) for _ in range(3000)])
    follows(cdf_twohalf(singles, mu, pos, neg), "TwoHalfNorm.rvs without size")
    keys = jax.random.split(kit.key_of(case["key"]), N)
    u = np.asarray(randgen.uniform_key_vectorized(keys), dtype=float)
    follows(u, "uniform_key_vectorized")
    independent(u[1:], u[:-1], "uniform_key_vectorized")
    rec.checked(7)
    rec.nontrivial()


PARTS = {"sampler": sampler, "generalized": generalized, "hybrid": hybrid, "numpy": numpy_sampler}


def run(check, only=None):
    if only in (None, "sampler"):
        for name in filter(variants.available, CASES):
            for constant, quick in ((False, 2), (None, 1), (True, 1)):
                check.search(
                    "sampler", strategy(name, constant=constant), sampler, check.n(quick, 45), salt=f"{name} {constant}"
                )
    if only in (None, "generalized"):
        check.search("generalized", strategy("generalized_poisson"), generalized, check.n(5, 200))
    if only in (None, "hybrid"):
        for flip in (False, True):
            check.search("hybrid", strategy("binomial_hybrid", flip=flip), hybrid, check.n(2, 40), salt=str(flip))
    if only in (None, "numpy"):
        check.search("numpy", strategy("numpy"), numpy_sampler, check.n(3, 100))
    check.assumptions += [
        f"{N} events per sample, Kolmogorov distances above {ts.ks_distance_limit(N):.4f} are seen; false alarm probability 1e-9 per test",
        "the hybrid approximation is allowed a distance of 0.004 where the variance is at least five (0.015 over the variance, and 0.12 over the variance in its moments, with 3.2 million events of one distribution); below that it is not tested",
    ]
