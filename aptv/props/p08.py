"""P08: the literature likelihood is the efficiency-weighted density of the yields."""

import numpy as np
from hypothesis import strategies as st
from scipy import integrate, stats

from aptv import kit, lab, shipped
from aptv.harness import require

RULE = "several points, of which some have an efficiency between zero and one or lie outside the band"


def ref_twohalf(y, mu, pos, neg):
    y = np.asarray(y, dtype=float)
    z = np.where(y < mu, (y - mu) / neg, (y - mu) / pos)
    return -0.5 * z**2 + np.log(2.0 / (np.asarray(pos) + np.asarray(neg))) - 0.5 * np.log(2 * np.pi)


def reference(kind, args, x, y, eff):
    """Log likelihood in double precision, and the scale of its rounding error."""
    with np.errstate(all="ignore"):
        if kind == "norm":
            logpdf = stats.norm.logpdf(y, args["loc"], args["scale"])
        elif kind == "twohalfnorm":
            logpdf = ref_twohalf(y, args["mu"], args["sigma_pos"], args["sigma_neg"])
        else:
            g = np.asarray(args["x"])
            inside = (x >= g.min()) & (x <= g.max())
            order = np.argsort(g)
            f = {k: np.interp(x, g[order], np.asarray(args[k])[order]) for k in ("y", "yerr_upper", "yerr_lower")}
            logpdf = np.where(inside, ref_twohalf(y, f["y"], f["yerr_upper"], f["yerr_lower"]), -np.inf)
        terms = logpdf * eff
        total = terms.sum()
    if np.isnan(total):
        return -np.inf, 0.0
    return float(total), float(np.sum(np.abs(terms[np.isfinite(terms)]))) + 1.0


@st.composite
def cases(draw, kind):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    n = int(rng.choice([1, 2, 3, 5, 8]))
    if kind == "band":
        m = int(rng.randint(2, 7))
        x = np.unique(np.round(rng.uniform(0, 40, m), 2))
        x = np.array([x[0], x[0] + 5.0]) if len(x) < 2 else x
        if rng.rand() < 0.3:
            x = rng.permutation(x)
        args = {
            "x": x,
            "y": rng.uniform(2, 10, len(x)),
            "yerr_upper": rng.uniform(0.2, 2, len(x)),
            "yerr_lower": rng.uniform(0.2, 2, len(x)),
        }
    elif kind == "norm":
        args = {"loc": rng.uniform(2, 10, n), "scale": rng.uniform(0.1, 2, n)}
    else:
        args = {"mu": rng.uniform(2, 10, n), "sigma_pos": rng.uniform(0.1, 2, n), "sigma_neg": rng.uniform(0.1, 2, n)}
    names = [str(k) for k in rng.permutation(sorted(args))]
    points = []
    for _ in range(3):
        if kind == "band":
            lo, hi = args["x"].min(), args["x"].max()
            out = rng.choice([0.0, 0.0, 0.15])
            px = np.where(rng.rand(n) < out, rng.choice([lo - 1, hi + 1], n), rng.uniform(lo, hi, n))
            if rng.rand() < 0.3:
                px[0] = rng.choice(args["x"])
            px = np.clip(np.float32(px), np.nextafter(np.float32(lo), np.float32(np.inf)) if out == 0 else -100, None)
            if out == 0:
                px = np.minimum(px, np.nextafter(np.float32(hi), np.float32(-np.inf)))
        else:
            px = rng.uniform(0, 40, n)
        py = rng.normal(6, 3, n)
        if kind != "band":
            mode = args["loc"] if kind == "norm" else args["mu"]
            near = rng.rand(n) < 0.5
            py = np.where(near, mode + rng.normal(0, 1, n), py)
        eff = np.where(rng.rand(n) < 0.4, rng.choice([0.0, 1.0], n), rng.uniform(0, 1, n))
        bad = str(rng.choice(["none"] * 5 + ["nan", "inf"]))
        if bad != "none":
            py[rng.randint(n)] = {"nan": np.nan, "inf": np.inf}[bad]
        points.append({"x": px.tolist(), "y": py.tolist(), "eff": eff.tolist(), "bad": bad})
    return {
        "kind": kind,
        "n": n,
        "names": names,
        "args": [np.asarray(args[k]).tolist() for k in names],
        "points": points,
        "batches": [1, int(rng.choice([2, 7, 1000]))],
        "alias": bool(rng.rand() < 0.3),
    }


def literature(case, rec):
    """Literature likelihood of given points."""
    import appletree as apt
    import jax.numpy as jnp

    kit.reset()
    tag = kit.unique("L")

    def body(self, key, parameters, batch_size):
        columns = [jnp.asarray(parameters[k], dtype=jnp.float32) for k in ("px", "py", "peff")]
        return tuple([key] + [jnp.broadcast_to(c, (batch_size, len(c))) for c in columns])

    plugin = kit.make_plugin(tag + "Plugin", ["batch_size"], ["energy", "light_yield", "eff"], body)
    cls = kit.make_component(tag + "C", [plugin], norm_type="", register=False)
    config = {
        "bins_on": ["energy", "light_yield"],
        "variable_type": case["kind"],
        "logpdf_args": [list(case["names"]), [list(v) for v in case["args"]]],
    }
    y_name = "py"
    if case["alias"]:
        config["parameter_alias"] = {"other_y": "py"}
        y_name = "other_y"
    llh = apt.LikelihoodLit(name=tag, **config)
    llh.register_component(cls, "c")
    args = {k: np.asarray(v) for k, v in zip(case["names"], case["args"])}
    outside = weights = False
    for p in case["points"]:
        pars = {"px": np.float32(p["x"]), y_name: np.float32(p["y"]), "peff": np.float32(p["eff"]), "c_rate": 123.0}
        x, y, eff = kit.f32(p["x"]), kit.f32(p["y"]), kit.f32(p["eff"])
        expected, scale = reference(case["kind"], args, x, y, eff)
        for batch in case["batches"]:
            key = kit.key_of(1)
            result = llh.get_log_likelihood(key, batch, pars)
            require(len(result) == 2, "the likelihood returns {} values", len(result))
            got = result[1]
            require(not np.isnan(got), "the log likelihood is not a number")
            if np.isfinite(expected):
                require(abs(got - expected) <= 2e-5 * scale, "log likelihood {} instead of {} (batch size {})", got, expected, batch)
            else:
                require(got == expected, "log likelihood {} instead of {}", got, expected)
            rec.checked(2)
        outside |= not np.isfinite(expected)
        weights |= bool(np.any((eff > 0) & (eff < 1)))
    require(kit.refused(llh.register_component, cls, "another"), "a second component is accepted")
    require(list(llh.components) == ["c"], "a refused component is registered")
    rec.nontrivial(case["n"] > 1 and (outside or weights))
    rec.label(case["kind"], "minus infinity" if outside else "finite")


# ----------------------------------------------------------------------
DENSITY = st.fixed_dictionaries({"seed": st.integers(0, 2**32 - 1)})


def density(case, rec):
    """The two-half-normal density."""
    from appletree.randgen import TwoHalfNorm

    rng = np.random.RandomState(case["seed"])
    mu = rng.normal(0, 20)
    pos, neg = 10 ** rng.uniform(-2, 1.5, 2)

    def f(x):
        return np.exp(TwoHalfNorm.logpdf(np.asarray(x, dtype=float), mu=mu, sigma_pos=pos, sigma_neg=neg))

    total = sum(integrate.quad(f, a, b, epsabs=1e-12, epsrel=1e-10)[0] for a, b in ((mu - 12 * neg, mu), (mu, mu + 12 * pos)))
    require(abs(total - 1) < 1e-7, "the density integrates to {}", total)
    top = f(mu)
    left, right = f(mu - 1e-9 * neg), f(mu + 1e-9 * pos)
    require(abs(left / top - 1) < 1e-6 and abs(right / top - 1) < 1e-6, "the density jumps at its mode: {} {} {}", left, top, right)
    k = rng.uniform(0.1, 6, 5)
    for sign, width in ((1, pos), (-1, neg)):
        got = TwoHalfNorm.logpdf(mu + sign * k * width, mu=mu, sigma_pos=pos, sigma_neg=neg) - np.log(top)
        require(np.allclose(got, -0.5 * k**2, rtol=1e-6, atol=1e-7), "wrong width on side {}: {}", sign, got.tolist())
        # each side has the spread of its width
        second = integrate.quad(lambda t: t**2 * f(mu + sign * t), 0, 12 * width)[0]
        weight = integrate.quad(lambda t: f(mu + sign * t), 0, 12 * width)[0]
        require(abs(second / weight / width**2 - 1) < 1e-6, "width of side {}: {}", sign, (second / weight) ** 0.5)
        rec.checked(2)
    rec.checked(3)
    rec.nontrivial()
    # arrays of parameters, element by element
    m, p, q, x = rng.normal(0, 5, 6), rng.uniform(0.1, 3, 6), rng.uniform(0.1, 3, 6), rng.normal(0, 6, 6)
    got = TwoHalfNorm.logpdf(x, mu=m, sigma_pos=p, sigma_neg=q)
    require(np.allclose(got, ref_twohalf(x, m, p, q), rtol=1e-9, atol=1e-9), "arrays: {}", got.tolist())


# ----------------------------------------------------------------------
def shipped_literature(case, rec):
    """The shipped literature fit at random parameters."""
    import appletree as apt

    kit.reset()
    instruct = shipped.read("instructs", "literature_lyqy.json")
    context = apt.Context(instruct)
    rng = np.random.RandomState(case["seed"])
    for i in range(case["points"]):
        context.par_manager.sample_prior() if i else context.par_manager.sample_init()
        pars = context.par_manager.get_all_parameter()
        total = 0.0
        for name, spec in instruct["likelihoods"].items():
            key = kit.key_of(int(rng.randint(2**31)))
            own = dict(pars)
            for new, old in spec["parameter_alias"].items():
                own[old] = own.pop(new)
            component = list(spec["components"])[0]
            _, (x, y, eff) = context[name][component].simulate(key, 1, own)
            x, y, eff = (np.asarray(v, dtype=float) for v in (x, y, eff))
            args = {k: np.asarray(v) for k, v in zip(*spec["logpdf_args"])}
            expected, scale = reference(spec["variable_type"], args, x, y, eff)
            _, got = context[name].get_log_likelihood(key, 5, pars)
            if np.isfinite(expected):
                require(abs(got - expected) <= 2e-5 * scale, "{}: log likelihood {} instead of {}", name, got, expected)
            else:
                require(got == expected, "{}: log likelihood {} instead of {}", name, got, expected)
            rec.checked()
            total += got
    rec.nontrivial()


# ----------------------------------------------------------------------
BAD = {
    "one observable": {"bins_on": ["energy"]},
    "three observables": {"bins_on": ["energy", "light_yield", "charge_yield"]},
    "unknown density": {"variable_type": "uniform"},
    "no density": {"variable_type": None},
    "band with unknown argument": {"variable_type": "band"},
}


def bad(case, rec):
    import appletree as apt

    config = {
        "bins_on": ["energy", "light_yield"],
        "variable_type": "twohalfnorm",
        "logpdf_args": [["mu", "sigma_pos", "sigma_neg"], [[1.0, 2.0], [0.1, 0.2], [0.2, 0.3]]],
    }
    apt.LikelihoodLit(name="good", **config)
    config.update(BAD[case["what"]])
    require(kit.refused(lambda: apt.LikelihoodLit(name="bad", **config)), "{} is accepted", case["what"])
    rec.checked()
    rec.nontrivial()
    rec.label(case["what"])


PARTS = {"literature": literature, "density": density, "shipped": shipped_literature, "bad": bad}


def run(check, only=None):
    check.assumptions = ["simulated yields are single precision numbers; the density is evaluated in double precision"]
    if only in (None, "literature"):
        for kind in ("norm", "twohalfnorm", "band"):
            check.search("literature", cases(kind), literature, check.n(25, 600), salt=kind)
    if only in (None, "density"):
        check.search("density", DENSITY, density, check.n(60, 3000))
    if only in (None, "shipped"):
        check.sweep("shipped", [{"seed": check.seed, "points": check.n(6, 100)}], shipped_literature)
    if only in (None, "bad"):
        check.sweep("bad", [{"what": w} for w in sorted(BAD)], bad)
