"""P10: priors have the documented density and are sampled from it."""

import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats as sst
from scipy.optimize import brentq

from aptv import kit, stats
from aptv.harness import require

RULE = (
    "density: at least one fitted parameter with a normal, two-half-normal or uniform prior; "
    "sampling: every prior type but fixed"
)

TYPES = ["norm", "uniform", "free", "fixed", "twohalfnorm"]
TAIL = 0.5 * math.erfc(1 / math.sqrt(2))
_widths = {}


def widths(pos, neg):
    """Widths (pos, neg) of the two-half-normal whose 15.87 and 84.13 percentiles are the errors."""
    if (pos, neg) not in _widths:
        # with t the share of the positive side: s_pos = t S, s_neg = (1 - t) S
        def s_of(error, t):
            # t * erfc(error / s / sqrt2) = TAIL
            if t <= TAIL:
                return None
            return error / sst.norm.isf(TAIL / t / 2)

        def f(t):
            a, b = s_of(pos, t), s_of(neg, 1 - t)
            return a * (1 - t) - b * t

        t = brentq(f, TAIL + 1e-9, 1 - TAIL - 1e-9, xtol=1e-14)
        _widths[(pos, neg)] = (s_of(pos, t), s_of(neg, 1 - t))
    return _widths[(pos, neg)]


@st.composite
def parameter(draw, kind=None, wide=False):
    kind = kind or draw(st.sampled_from(TYPES))
    mean = draw(st.integers(-400, 400)) / 20
    width = draw(st.sampled_from([0.1, 0.75, 3.0, 20.0]))
    other = width * draw(st.sampled_from([0.3, 0.5, 1.0, 1.7, 3.0]))
    args = {
        "norm": {"mean": mean, "std": width},
        "uniform": {"lower": mean, "upper": mean + width},
        "free": {},
        "fixed": {"val": mean},
        "twohalfnorm": {"mu": mean, "sigma_pos": width, "sigma_neg": other},
    }[kind]
    lo = mean - width * draw(st.sampled_from([0.2, 1.0, 2.0, 1000.0, -0.25]))
    hi = mean + width * draw(st.sampled_from([0.5, 1.3, 2.0, 1000.0]))
    if wide:
        lo, hi = None, 1e9
    elif draw(st.integers(0, 5)) == 0:
        lo = None
    return {
        "prior_type": kind,
        "prior_args": args,
        "allowed_range": [-1e9 if lo is None else lo, hi],
        "init_mean": mean + draw(st.sampled_from([0.0, 0.3, -5.0])) * width,
        "init_std": width * draw(st.sampled_from([0.3, 1.0])),
        "unit": "1",
        "doc": "",
    }


NAMES = ["w", "fano", "py0", "g1", "a_rate", "zz"]


@st.composite
def density_cases(draw):
    config = {k: draw(parameter()) for k in NAMES[: draw(st.integers(1, 5))]}
    points = []
    for _ in range(3):
        point = {}
        for k, v in config.items():
            lo, hi = v["allowed_range"]
            a = v["prior_args"]
            edges = [lo, hi] + [a[x] for x in ("lower", "upper", "mu", "mean", "val") if x in a]
            center = v["init_mean"]
            choice = draw(st.sampled_from(["near", "near", "near", "edge", "outside", "far"]))
            if choice == "edge":
                value = draw(st.sampled_from(edges))
            elif choice == "outside":
                value = draw(st.sampled_from([np.nextafter(e, s) for e in edges for s in (-1e12, 1e12)]))
            elif choice == "far":
                value = draw(st.sampled_from([1e10, -1e10, center + 50.0]))
            else:
                value = center + draw(st.integers(-30, 30)) / 10 * v["init_std"]
                value = min(max(value, lo), hi)
                if "lower" in a:
                    value = min(max(value, a["lower"]), a["upper"])
            point[k] = float(value)
        points.append(point)
    return {"config": config, "points": points}


def reference(config, point):
    total = 0.0
    for k, v in config.items():
        if v["prior_type"] == "fixed":
            continue
        x, a = point[k], v["prior_args"]
        if not v["allowed_range"][0] <= x <= v["allowed_range"][1]:
            return -math.inf
        if v["prior_type"] == "uniform" and not a["lower"] <= x <= a["upper"]:
            return -math.inf
        if v["prior_type"] == "norm":
            total -= (x - a["mean"]) ** 2 / 2 / a["std"] ** 2
        if v["prior_type"] == "twohalfnorm":
            pos, neg = widths(a["sigma_pos"], a["sigma_neg"])
            total -= (x - a["mu"]) ** 2 / 2 / (pos if x >= a["mu"] else neg) ** 2
    return total


def density(case, rec):
    import appletree as apt

    manager = apt.Parameter(case["config"])
    values = []
    for point in case["points"]:
        manager.set_parameter(point)
        values.append((float(manager.log_prior), reference(case["config"], point)))
    for got, expected in values:
        if math.isinf(expected):
            require(got == -math.inf, "log prior {} of a point outside the allowed values", got)
            rec.label("outside")
        else:
            require(math.isfinite(got), "log prior {} of an allowed point", got)
    finite = [v for v in values if math.isfinite(v[1])]
    for got, expected in finite[1:]:
        a, b = got - finite[0][0], expected - finite[0][1]
        scale = max(abs(got), abs(finite[0][0]), abs(expected), abs(finite[0][1]), 1)
        require(abs(a - b) <= 1e-6 * scale, "log prior differs by {} instead of {}", a, b)
        rec.label("inside")
    kinds = {v["prior_type"] for v in case["config"].values()}
    rec.nontrivial(kinds & {"norm", "twohalfnorm", "uniform"})
    rec.label(*kinds)
    rec.checked(len(values))


@st.composite
def sampling_cases(draw, kind, method):
    return {
        "config": {"p": draw(parameter(kind, draw(st.booleans()))), "q": draw(parameter("fixed"))},
        "method": method,
        "seed": draw(st.integers(0, 2**31)),
    }


def sampling(case, rec, n=6000):
    import appletree as apt

    config = case["config"]
    manager = apt.Parameter(config)
    np.random.seed(case["seed"])
    method = getattr(manager, case["method"])
    sample = np.empty(n)
    for i in range(n):
        method()
        sample[i] = manager["p"]
        require(manager["q"] == config["q"]["prior_args"]["val"], "fixed parameter is {}", manager["q"])
    p = config["p"]
    a = p["prior_args"]
    lo, hi = p["allowed_range"]
    require(np.all((sample >= lo) & (sample <= hi)), "sample outside the allowed range")
    kind = p["prior_type"] if case["method"] == "sample_prior" else "free"
    if kind == "norm":
        cdf = lambda x: sst.norm.cdf(x, a["mean"], a["std"])
    elif kind == "uniform":
        cdf = lambda x: sst.uniform.cdf(x, a["lower"], a["upper"] - a["lower"])
    elif kind == "free":
        cdf = lambda x: sst.norm.cdf(x, p["init_mean"], p["init_std"])
    else:
        pos, neg = widths(a["sigma_pos"], a["sigma_neg"])
        share = pos / (pos + neg)

        def cdf(x):
            z = np.where(x < a["mu"], (x - a["mu"]) / neg, (x - a["mu"]) / pos)
            return np.where(z < 0, 2 * (1 - share) * sst.norm.cdf(z), (1 - share) + share * (2 * sst.norm.cdf(z) - 1))

    # the clipped sample has the same distribution function inside the range
    inside = np.sort(sample[(sample > lo) & (sample < hi)])
    limit = stats.ks_distance_limit(n)
    if len(inside):
        below = np.mean(sample <= lo)
        emp_hi = below + np.arange(1, len(inside) + 1) / n
        emp_lo = below + np.arange(len(inside)) / n
        c = cdf(inside)
        distance = max(np.max(np.abs(emp_hi - c)), np.max(np.abs(emp_lo - c)))
        require(distance < limit, "{} of prior {}: distance {} to its distribution (limit {})", case["method"], kind, distance, limit)
    require(abs(np.mean(sample <= lo) - cdf(np.float64(lo))) < limit, "wrong share at the lower bound")
    require(abs(np.mean(sample >= hi) - (1 - cdf(np.float64(hi)))) < limit, "wrong share at the upper bound")
    rec.checked(n)
    rec.nontrivial()
    rec.label(f"{case['method']} {p['prior_type']}")


PARTS = {"density": density, "sampling": sampling}


def run(check, only=None):
    if only in (None, "density"):
        check.search("density", density_cases(), density, check.n(600, 15000))
    if only in (None, "sampling"):
        for kind in ["norm", "uniform", "free", "twohalfnorm"]:
            for method, n in [("sample_prior", check.n(10, 120)), ("sample_init", check.n(4, 50))]:
                check.search("sampling", sampling_cases(kind, method), sampling, n, salt=kind + method)
    check.assumptions += [
        "distributions of samples are compared with 6000 samples; the probability of a false alarm is 1e-9 per case"
    ]
