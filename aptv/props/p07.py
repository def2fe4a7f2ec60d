"""P07: the binned likelihood is the Poisson log likelihood of the model histogram."""

import math

import numpy as np
from hypothesis import strategies as st

from aptv import kit, lab
from aptv.harness import require

RULE = "a likelihood with data whose expectation is finite and positive for some and not for other parameter points"

SPECIAL = [0.0, -1.0, -1e-3, math.inf, -math.inf, math.nan]


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([1, 2]))
    nx = draw(st.integers(1, 4))
    ny = draw(st.integers(1, 3)) if dim == 2 else 1
    n_sim = draw(st.integers(0, 2))
    n_fixed = draw(st.integers(0 if n_sim else 1, 2))
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    points = []
    for kind in ["regular", "bin", "rate", "regular", "cancel", "bin", "regular", "bin", "rate"]:
        scale = 10.0 ** rng.uniform(-6, 5)
        weights = [(rng.uniform(0.05, 3, nx * ny) * scale).tolist() for _ in range(n_sim)]
        rates = [float(10.0 ** rng.uniform(-3, 4)) for _ in range(n_sim + n_fixed)]
        if kind == "bin" and n_sim:
            weights[rng.randint(n_sim)][rng.randint(nx * ny)] = SPECIAL[rng.randint(len(SPECIAL))]
        if kind == "rate":
            rates[rng.randint(len(rates))] = SPECIAL[rng.randint(len(SPECIAL))]
        if kind == "cancel" and n_sim == 2:
            k = rng.randint(nx * ny)
            rates[0] = rates[1]
            weights[0][k] = 2.0
            weights[1][k] = -2.0
        points.append({"weights": weights, "rates": rates})
    return {
        "dim": dim,
        "shape": [nx, ny],
        "mesh": draw(st.booleans()),
        "counts": [int(c) for c in rng.poisson([2.0, 0.3, 40.0][rng.randint(3)], nx * ny)],
        "fixed": [[int(c) + 1 for c in rng.poisson(1.0, nx * ny)] for _ in range(n_fixed)],
        "n_sim": n_sim,
        "points": points,
    }


def centers(nx, ny, dim):
    """One event in the middle of every bin; bin k of axis i is (k, k + 1)."""
    x, y = np.meshgrid(np.arange(nx) + 0.5, np.arange(ny) + 0.5, indexing="ij")
    return [x.ravel(), y.ravel()][:dim]


def events(axes, cols, counts):
    # with one event outside the clip range, such that the file is never empty
    return {a: np.append(np.repeat(c, counts), -5.0) for a, c in zip(axes, cols)}


def build(case, name=None):
    import appletree as apt

    nx, ny = case["shape"]
    dim = case["dim"]
    axes = ["cs1", "cs2"][:dim]
    cols = centers(nx, ny, dim)
    file_name = kit.write_csv("data.csv", events(axes, cols, case["counts"]))
    config = {"data_file_name": file_name, "bins_type": "meshgrid" if case["mesh"] else "irreg", "bins_on": axes}
    if dim == 1:
        config.update(bins=[list(range(nx + 1))], clip=[0, nx])
    else:
        by = list(range(ny + 1))
        config.update(
            bins=[list(range(nx + 1)), by if case["mesh"] else [by] * nx], x_clip=[0, nx], y_clip=[0, ny]
        )
    llh = apt.Likelihood(name=name or kit.unique("llh"), **config)
    for i in range(case["n_sim"]):
        cls = lab.table_class(kit.unique("Sim"), axes, nx * ny, f"t{i}", norm_type="on_sim")
        llh.register_component(cls, f"sim{i}")
    for i, counts in enumerate(case["fixed"]):
        path = kit.write_csv(f"fixed{i}.csv", {a: np.repeat(c, counts) for a, c in zip(axes, cols)})
        llh.register_component(kit.make_fixed(kit.unique("Fixed")), f"fixed{i}", path)
    return llh, axes, cols


def parameters_of(case, point, axes, cols):
    pars = {}
    for i in range(case["n_sim"]):
        pars.update(lab.tables(f"t{i}", axes, cols, point["weights"][i]))
        pars[f"sim{i}_rate"] = point["rates"][i]
    for i in range(len(case["fixed"])):
        pars[f"fixed{i}_rate"] = point["rates"][case["n_sim"] + i]
    return pars


def model_of(case, point):
    with np.errstate(invalid="ignore", over="ignore"):
        total = np.zeros(np.prod(case["shape"]))
        for i in range(case["n_sim"]):
            w = kit.f32(point["weights"][i])
            total = total + w * kit.f32(point["rates"][i]) / len(w)
        for i, counts in enumerate(case["fixed"]):
            counts = np.array(counts, dtype=float)
            total = total + counts / counts.sum() * kit.f32(point["rates"][case["n_sim"] + i])
    return total


def poisson(case, rec):
    kit.reset()
    llh, axes, cols = build(case)
    require(np.array_equal(np.asarray(llh.data_hist).ravel(), case["counts"]), "data histogram")
    n_batch = len(cols[0])
    finite = 0
    for point in case["points"]:
        pars = parameters_of(case, point, axes, cols)
        model = model_of(case, point)
        expected, scale = lab.poisson_llh(case["counts"], model)
        with np.errstate(all="ignore"):
            _, got = llh.get_log_likelihood(kit.key_of(1), n_batch, pars)
        require(isinstance(got, float) and not math.isnan(got), "log likelihood {}", got)
        largest = np.nanmax(np.abs(model)) if np.any(np.isfinite(model)) else 0.0
        if math.isinf(expected):
            if np.all(np.isfinite(model)) and np.all(model > -1e-6 * largest) and np.any((model != 0) & (model < 1e-6 * largest)):
                continue  # the sign of a bin is only rounding
            require(got == -math.inf, "log likelihood {} of the expectation {}", got, model.tolist())
            rec.label("impossible")
        else:
            finite += 1
            require(abs(got - expected) <= 1e-5 * scale, "log likelihood {} instead of {}", got, expected)
            accepted = float(llh.get_num_events_accepted(n_batch, pars))
            require(kit.close(accepted, model.sum(), 1e-5), "{} events accepted instead of {}", accepted, model.sum())
            rec.label("possible")
        rec.checked()
    rec.nontrivial(sum(case["counts"]) and 0 < finite < len(case["points"]))
    rec.label(f"{case['dim']}D", f"{case['n_sim']}+{len(case['fixed'])} components")


@st.composite
def context_cases(draw):
    return {"likelihoods": [draw(cases()) for _ in range(draw(st.integers(1, 3)))], "lit": draw(st.booleans())}


def context(case, rec):
    """Accepted events of a context: sum over its binned likelihoods."""
    import appletree as apt

    kit.reset()
    instruct = {"likelihoods": {}, "configs": {}}
    par_config, pars, total = {}, {}, 0.0
    for k, sub in enumerate(case["likelihoods"]):
        sub = dict(sub, n_sim=0)
        if not sub["fixed"]:
            sub["fixed"] = [[1] * int(np.prod(sub["shape"]))]
        nx, ny = sub["shape"]
        axes = ["cs1", "cs2"][: sub["dim"]]
        cols = centers(nx, ny, sub["dim"])
        by = list(range(ny + 1))
        config = {
            "data_file_name": kit.write_csv(f"data{k}.csv", events(axes, cols, sub["counts"])),
            "bins_type": "irreg",
            "bins_on": axes,
            "bins": [list(range(nx + 1))] + ([[by] * nx] if sub["dim"] == 2 else []),
            "clip": [0, nx],
            "x_clip": [0, nx],
            "y_clip": [0, ny],
            "copy_parameters": {},
            "components": {},
        }
        for i, counts in enumerate(sub["fixed"]):
            name = f"l{k}f{i}"
            cls = kit.make_fixed(kit.unique("Fixed"))
            path = kit.write_csv(f"{name}.csv", {a: np.repeat(c, counts) for a, c in zip(axes, cols)})
            config["components"][name] = {"component_cls": cls.__name__, "file_name": path}
            rate = float(abs(sub["points"][0]["rates"][0]) + i) if math.isfinite(sub["points"][0]["rates"][0]) else 2.5
            par_config[name + "_rate"] = lab.fixed_parameter(rate)
            pars[name + "_rate"] = rate
            total += rate
        instruct["likelihoods"][f"l{k}"] = config
    if case["lit"]:
        cls = lit_component()
        instruct["likelihoods"]["lit"] = {
            "type": "LikelihoodLit",
            "components": {"litc": cls.__name__},
            "copy_parameters": {},
            "bins_on": ["energy", "light_yield"],
            "variable_type": "norm",
            "logpdf_args": [["loc", "scale"], [[1.0], [1.0]]],
        }
        par_config["litc_rate"] = lab.fixed_parameter(1.0)
        pars["litc_rate"] = 1.0
    tree = apt.Context(instruct, par_config=par_config)
    got = float(tree.get_num_events_accepted(pars, batch_size=3))
    require(kit.close(got, total, 1e-5, 1e-9), "{} events accepted instead of {}", got, total)
    rec.checked()
    rec.nontrivial(len(case["likelihoods"]) > 1 or case["lit"])
    rec.label(f"{len(case['likelihoods'])} likelihoods")


def lit_component():
    import jax.numpy as jnp

    def body(self, key, pars, batch_size):
        one = jnp.ones((batch_size, 1))
        return key, one, one, one

    plugin = kit.make_plugin(kit.unique("LitTable"), ["batch_size"], ["energy", "light_yield", "eff"], body)
    return kit.make_component(kit.unique("Lit"), [plugin])


PARTS = {"poisson": poisson, "context": context}


def run(check, only=None):
    if only in (None, "poisson"):
        check.search("poisson", cases(), poisson, check.n(70, 1500))
    if only in (None, "context"):
        check.search("context", context_cases(), context, check.n(15, 300))
    check.assumptions += [
        "up to twelve bins and four components; expectations between 1e-10 and 1e10 apart from the special values; "
        "log likelihoods agree to 1e-5 of the sum of the magnitudes of their terms (single precision)"
    ]
