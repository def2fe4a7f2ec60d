"""P17: random samplers return valid values of the right shape."""

import numpy as np
from hypothesis import strategies as st

from aptv import kit, variants
from aptv.harness import require

RULE = "broadcast arguments of different shapes, an explicit shape, or parameters at the edge of their space"

# sampler -> parameter kinds, integer?
SAMPLERS = {
    "uniform": (["low", "high"], False),
    "poisson": (["rate"], True),
    "gamma": (["positive", "positive"], False),
    "normal": (["real", "width"], False),
    "truncate_normal": (["real", "width", "lower", "upper"], False),
    "skewnormal": (["real", "real", "width"], False),
    "bernoulli": (["probability"], True),
    "binomial": (["probability", "trials"], True),
    "binomial_hybrid": (["probability", "trials"], True),
    **{k: (["probability", "trials"], True) for k in variants.NAMES},
    "negative_binomial": (["nonzero", "successes"], True),
    "generalized_poisson": (["rate", "eta"], True),
    "twohalfnorm": (["real", "width", "width"], False),
}

# shapes of the arguments (used cyclically), and the explicit shape
SHAPES = [
    ([()], None),
    ([(5,)], None),
    ([(5,), ()], None),
    ([(), (5,)], None),
    ([(3, 1), (1, 4)], None),
    ([(4,), (3, 1), (3, 4)], None),
    ([()], (6,)),
    ([()], (2, 3)),
    ([(3,), ()], (2, 3)),
    ([(), (3,)], (2, 3)),
    ([(2, 1), (3,)], (2, 3)),
    ([(1,)], None),
]


def draw_parameters(rng, kinds, size):
    """Parameters of ``size`` independent events; edges of the parameter space are common."""
    pars = []

    def edges(x, values, share=0.3):
        m = rng.rand(size) < share
        x = np.where(m, rng.choice(values, size), x)
        return x

    for k in kinds:
        if k == "low":
            x = rng.normal(0, 50, size)
        elif k == "high":
            x = pars[0] + edges(10 ** rng.uniform(-2, 3, size), [0.0])
        elif k == "rate":
            x = edges(10 ** rng.uniform(-3, 5, size), [0.0, 1e-6, 9.999, 10.0, 10.001])
        elif k == "positive":
            x = edges(10 ** rng.uniform(-2, 4, size), [1.0, 0.5])
        elif k == "real":
            x = edges(rng.normal(0, 20, size), [0.0])
        elif k == "width":
            x = edges(10 ** rng.uniform(-2, 2, size), [0.0])
        elif k == "lower":
            x = pars[0] + rng.normal(0, 2, size) * np.maximum(pars[1], 0.1) - 1
        elif k == "upper":
            x = pars[2] + edges(10 ** rng.uniform(-2, 2, size), [0.0])
        elif k == "probability":
            x = edges(rng.uniform(0, 1, size), [0.0, 1.0, 1e-6, 0.5, 1 - 1e-6])
        elif k == "nonzero":
            x = edges(rng.uniform(0.02, 1, size), [1.0])
        elif k == "trials":
            x = edges(rng.randint(0, 300, size), [0, 1, 127, 128, 129, 130, 5000, 1000000]).astype(np.int64)
        elif k == "successes":
            x = edges(10 ** rng.uniform(-1, 3, size), [0.0, 1.0])
        elif k == "eta":
            x = edges(rng.uniform(0, 0.9, size), [0.0])
        pars.append(np.asarray(x))
    return pars


@st.composite
def support_cases(draw, sampler):
    return {"sampler": sampler, "seed": draw(st.integers(0, 2**32 - 1)), "key": draw(st.integers(0, 2**31 - 1))}


N = 512


def call(name, key, pars, shape=None, one_sided=None):
    f = variants.get(name)
    if name == "truncate_normal" and one_sided is not None:
        kwargs = {"vmin": pars[2], "vmax": pars[3]}
        kwargs[one_sided] = None
        pars = pars[:2]
    else:
        kwargs = {}
    if shape is not None:
        kwargs["shape"] = shape
    return f(key, *pars, **kwargs)


def supports(name, pars, x, one_sided=None):
    """(lower, upper) bounds, and the certain value where there is one (nan otherwise)."""
    inf = np.full(x.shape, np.inf)
    certain = np.full(x.shape, np.nan)
    lo, hi = -inf, inf
    if name == "uniform":
        lo, hi = pars
        certain = np.where(pars[0] == pars[1], pars[0], np.nan)
    elif name == "poisson":
        lo = np.zeros(x.shape)
        certain = np.where(pars[0] == 0, 0, np.nan)
    elif name == "gamma":
        lo = np.zeros(x.shape)
    elif name == "normal":
        certain = np.where(pars[1] == 0, pars[0], np.nan)
    elif name == "truncate_normal":
        lo = pars[2] if one_sided != "vmin" else lo
        hi = pars[3] if one_sided != "vmax" else hi
        certain = np.where(pars[1] == 0, np.clip(pars[0], lo, hi), np.nan)
        certain = np.where(lo == hi, lo, certain)
    elif name == "skewnormal":
        certain = np.where(pars[2] == 0, pars[1], np.nan)
    elif name == "bernoulli":
        lo, hi = np.zeros(x.shape), np.ones(x.shape)
        certain = np.where(pars[0] == 0, 0, np.where(pars[0] == 1, 1, np.nan))
    elif name.startswith("binomial"):
        p, n = pars
        lo, hi = np.zeros(x.shape), n + np.zeros(x.shape)
        certain = np.where(p == 0, 0, np.where(p == 1, n, np.nan))
        certain = np.where(n == 0, 0, certain)
    elif name == "negative_binomial":
        lo = np.zeros(x.shape)
        certain = np.where((pars[0] == 1) | (pars[1] == 0), 0, np.nan)
    elif name == "generalized_poisson":
        lo = np.zeros(x.shape)
        certain = np.where(pars[0] == 0, 0, np.nan)
    elif name == "twohalfnorm":
        mu, pos, neg = pars
        lo = np.where(neg == 0, mu, lo)
        hi = np.where(pos == 0, mu, hi)
        certain = np.where((pos == 0) & (neg == 0), mu, np.nan)
    return lo, hi, certain


def valid(name, pars, x, one_sided=None):
    x = np.asarray(x)
    if SAMPLERS[name][1]:
        require(np.issubdtype(x.dtype, np.integer), "{} returns {}", name, x.dtype)
    else:
        require(np.issubdtype(x.dtype, np.floating), "{} returns {}", name, x.dtype)
    x = x.astype(float)
    require(np.all(np.isfinite(x)), "{} is not finite for {}", name, [p[~np.isfinite(x)][:1].tolist() for p in pars])
    lo, hi, certain = supports(name, pars, x, one_sided)
    slack = 0.0
    if name in ("uniform", "twohalfnorm"):
        # scaling to the range is rounded
        slack = 1e-6 * (np.abs(pars[0]) + np.abs(x)) + 1e-30
    out = (x < lo - slack) | (x > hi + slack)
    if out.any():
        i = np.argmax(out)
        require(False, "{} gives {} for {}", name, x[i], [p[i].item() for p in pars])
    wrong = np.isfinite(certain) & ~(np.abs(x - certain) <= 1e-6 * np.abs(certain))
    if wrong.any():
        i = np.argmax(wrong)
        require(False, "{} gives {} instead of certainly {} for {}", name, x[i], certain[i], [p[i].item() for p in pars])
    return int(np.isfinite(certain).sum())


def support(case, rec):
    name = case["sampler"]
    rng = np.random.RandomState(case["seed"])
    pars = draw_parameters(rng, SAMPLERS[name][0], N)
    pars = [np.float32(p).astype(float) if p.dtype.kind == "f" else p for p in pars]
    args = [np.float32(p) if p.dtype.kind == "f" else p.astype(np.int32) for p in pars]
    one_sided = rng.choice(["vmin", "vmax", "both"]) if name == "truncate_normal" else None
    one_sided = None if one_sided == "both" else one_sided
    key = kit.key_of(case["key"])
    new, x = call(name, key, args, one_sided=one_sided)
    require(np.shape(x) == (N,), "{} returns shape {}", name, np.shape(x))
    require(np.shape(new) == np.shape(key), "key of shape {}", np.shape(new))
    n = valid(name, pars, x, one_sided)
    rec.checked(N)
    rec.nontrivial(True)
    rec.label(name + (f" without {one_sided}" if one_sided else ""))
    if n:
        rec.label("certain values")


@st.composite
def shape_cases(draw, sampler):
    return {
        "sampler": sampler,
        "shapes": draw(st.integers(0, len(SHAPES) - 1)),
        "as": draw(st.sampled_from(["numpy", "python", "jax"])),
        "seed": draw(st.integers(0, 2**32 - 1)),
    }


def shape(case, rec):
    from jax import numpy as jnp

    name = case["sampler"]
    shapes, explicit = SHAPES[case["shapes"]]
    rng = np.random.RandomState(case["seed"])
    kinds = SAMPLERS[name][0]
    base = draw_parameters(rng, kinds, 1)
    if name == "truncate_normal":
        base[2], base[3] = base[0] - 1, base[0] + 1
    args, arg_shapes = [], []
    for i, b in enumerate(base):
        s = shapes[i % len(shapes)]
        if name == "truncate_normal" and i >= 2:
            s = ()  # bounds are applied to what the first two give
        arg_shapes.append(s)
        v = b[0].item()
        if s == ():
            args.append({"numpy": np.float32(v) if isinstance(v, float) else np.int32(v), "python": v, "jax": jnp.asarray(v)}[case["as"]])
        else:
            a = np.full(s, v, dtype=np.float32 if isinstance(v, float) else np.int32)
            args.append(jnp.asarray(a) if case["as"] == "jax" else a)
    expected = explicit if explicit is not None else np.broadcast_shapes(*arg_shapes)
    new, x = call(name, kit.key_of(case["seed"] % 1000), args, shape=explicit)
    require(np.shape(x) == tuple(expected), "{} with arguments {} and shape {} returns {}", name, arg_shapes, explicit, np.shape(x))
    require(np.shape(new) == (2,), "key of shape {}", np.shape(new))
    full = [np.broadcast_to(np.float32(b[0]) if isinstance(b[0].item(), float) else b[0], np.shape(x)).astype(float).ravel() for b in base]
    valid(name, full, np.asarray(x).reshape(-1))
    rec.checked(2)
    rec.nontrivial(explicit is not None or len(set(arg_shapes)) > 1)
    rec.label(name, f"{arg_shapes} {explicit}")


def other(case, rec):
    """The samplers with another interface."""
    import jax
    from appletree import randgen

    rng = np.random.RandomState(case["seed"])
    n = [1, 7, 300][case["size"]]
    keys = jax.random.split(kit.key_of(case["seed"] % 1000), n)
    u = np.asarray(randgen.uniform_key_vectorized(keys))
    require(u.shape == (n,), "{} values for {} keys", u.shape, n)
    require(np.all((u >= 0) & (u < 1)), "outside [0, 1)")
    order = rng.permutation(n)
    again = np.asarray(randgen.uniform_key_vectorized(keys[order]))
    require(np.array_equal(again, u[order]), "the value of a key depends on the other keys")
    np.random.seed(case["seed"])
    size = [None, n, (n,), (2, 3)][case["shape"]]
    mu, pos, neg = [float(v) for v in (rng.normal(0, 10), 10 ** rng.uniform(-2, 2), 10 ** rng.uniform(-2, 2))]
    x = randgen.TwoHalfNorm.rvs(mu=mu, sigma_pos=pos, sigma_neg=neg, size=size)
    want = () if size is None else (size,) if isinstance(size, int) else size
    require(np.shape(x) == want, "{} returned for size {}", np.shape(x), size)
    require(np.all(np.isfinite(x)), "not finite")
    for bad in ((0.0, 1.0), (1.0, 0.0), (-1.0, 1.0)):
        require(kit.refused(randgen.TwoHalfNorm.rvs, 0, *bad), "widths {} accepted", bad)
    # a key from the clock
    require(np.shape(randgen.get_key()) == (2,), "get_key()")
    rec.checked(5)
    rec.nontrivial(n > 1)


PARTS = {"support": support, "shape": shape, "other": other}


def run(check, only=None):
    for name in filter(variants.available, SAMPLERS):
        if only in (None, "support"):
            check.search("support", support_cases(name), support, check.n(20, 1500), salt=name)
        if only in (None, "shape"):
            check.search("shape", shape_cases(name), shape, check.n(7, 150), salt=name)
    if only in (None, "other"):
        strategy = st.fixed_dictionaries({"seed": st.integers(0, 2**32 - 1), "size": st.integers(0, 2), "shape": st.integers(0, 3)})
        check.search("other", strategy, other, check.n(40, 1000))
    check.assumptions += [
        "expectations up to 1e5, up to 1e6 trials; integer results are compared in double precision",
        "the fallback on numpyro is run if numpyro is installed",
    ]
