"""P09: the log posterior is the prior plus the sum of all likelihoods."""

import numpy as np
from hypothesis import strategies as st

from aptv import kit, lab
from aptv.harness import require
from aptv.props import p08

RULE = "at least two likelihoods, repeated evaluations, an excluded point or an empty bin"

EDGES = [0.0, 0.3, 0.6, 1.0]
Q = ["qa", "qb", "qc"]


def layout(rng):
    llhs = []
    for i in range(rng.randint(1, 4)):
        if rng.rand() < 0.2:
            llhs.append({"kind": "lit", "components": [["only", "yield", ["qa"]]], "alias": {}})
        else:
            components = []
            for j in range(rng.randint(1, 4)):
                kind = "fixed" if j and rng.rand() < 0.3 else "sim"
                qs = sorted(str(q) for q in rng.choice(Q, rng.randint(1, 4), replace=False)) if kind == "sim" else []
                # the same component name in several likelihoods shares its rate
                components.append([f"c{j}" if rng.rand() < 0.5 else f"l{i}c{j}", kind, qs])
            llhs.append({"kind": "hist", "components": components, "alias": {}})
        for q in sorted({q for _, _, qs in llhs[-1]["components"] for q in qs}):
            if rng.rand() < 0.3:
                llhs[-1]["alias"][f"l{i}_{q}"] = q
    return llhs


def needed(llh):
    names = {f"{c[0]}_rate" for c in llh["components"]} | {q for c in llh["components"] for q in c[2]}
    for new, old in llh["alias"].items():
        if old in names:
            names.discard(old)
            names.add(new)
    return names


@st.composite
def cases(draw, random_model):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    llhs = layout(rng)
    names = sorted(set().union(*[needed(llh) for llh in llhs]))
    priors = {}
    for k in names:
        kind = str(rng.choice(["fixed", "free", "norm", "uniform", "twohalfnorm"]))
        centre = 30.0 if k.endswith("_rate") else 1.0
        args = {
            "fixed": {"val": centre},
            "free": {},
            "norm": {"mean": centre, "std": centre / 3},
            "uniform": {"lower": 0.1 * centre, "upper": 3 * centre},
            "twohalfnorm": {"mu": centre, "sigma_pos": centre / 2, "sigma_neg": centre / 4},
        }[kind]
        priors[k] = {
            "prior_type": kind,
            "prior_args": args,
            "allowed_range": [0.05 * centre, 4 * centre],
            "init_mean": centre,
            "init_std": centre / 10,
            "unit": "",
            "doc": "",
        }
    if all(p["prior_type"] == "fixed" for p in priors.values()):
        priors[names[0]]["prior_type"] = "free"
        priors[names[0]]["prior_args"] = {}
    fitted = sorted(k for k, p in priors.items() if p["prior_type"] != "fixed")
    points = []
    for _ in range(3):
        point = {}
        for k in fitted:
            centre = 30.0 if k.endswith("_rate") else 1.0
            where = rng.rand()
            factor = rng.uniform(0.4, 2.5) if where < 0.95 else float(rng.choice([0.01, 5.0, -1.0, 3.5]))
            point[k] = float(factor * centre)
        points.append(point)
    visits = [int(v) for v in rng.randint(0, len(points), 5)]
    return {
        "llhs": llhs,
        "priors": priors,
        "points": points,
        "visits": visits,
        "random_model": random_model,
        "repeat": int(rng.choice([1, 1, 2, 4])),
        "batch": int(rng.choice([20, 60])),
        "counts": [int(v) for v in rng.randint(0, 15, 3)],
    }


def components(tag, case, seen):
    """Classes of simulated components which note what they simulate."""
    import appletree as apt
    import jax.numpy as jnp
    from appletree import randgen

    made = {}

    def sim(qs):
        k = ",".join(qs)
        if k in made:
            return made[k]

        def body(self, key, parameters, batch_size):
            if case["random_model"]:
                key, x = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))
            else:
                x = (jnp.arange(batch_size) + 0.5) / batch_size
            eff = jnp.ones(batch_size)
            for i, q in enumerate(qs):
                eff = eff * (2.0 + jnp.sin((i + 1.0) * x * parameters[q]))
            # upper bins are empty for large parameters
            x = x / jnp.clip(parameters[qs[0]] - 1.0, 1.0, 10.0)
            return key, x, eff

        plugin = kit.make_plugin(kit.unique(tag + "Plugin"), ["batch_size"], ["cs1", "eff"], body, parameters=qs)
        base = kit.make_component(kit.unique(tag + "Base"), [plugin], add_eps_to_hist=False, register=False)

        def simulate_hist(self, key, batch_size, parameters):
            new, hist = base.simulate_hist(self, key, batch_size, parameters)
            seen.append((self.llh_name, self.name, kit.key_bits(key), batch_size, dict(parameters), np.asarray(hist, dtype=float)))
            return new, hist

        name = kit.unique(tag + "Sim")
        cls = type(name, (base,), {"simulate_hist": simulate_hist, "__module__": "aptv.generated"})
        kit.add_component(cls)
        made[k] = name
        return name

    def lit(key, parameters, batch_size):
        return (key, jnp.full((batch_size, 2), 5.0), jnp.full((batch_size, 2), 4.0) * parameters["qa"], jnp.full((batch_size, 2), 0.5))

    plugin = kit.make_plugin(
        kit.unique(tag + "Lit"), ["batch_size"], ["energy", "light_yield", "eff"], lambda self, *a: lit(*a), parameters=["qa"]
    )
    made["lit"] = kit.unique(tag + "Yield")
    kit.make_component(made["lit"], [plugin], norm_type="")
    made["fixed"] = kit.unique(tag + "Fixed")
    kit.make_fixed(made["fixed"])
    return sim, made


LIT = {"mu": [5.0, 3.0], "sigma_pos": [1.0, 2.0], "sigma_neg": [0.5, 1.5]}


def posterior(case, rec):
    """Log posteriors of a context at several points."""
    import appletree as apt

    kit.reset()
    tag = kit.unique("B")
    seen = []
    sim, made = components(tag, case, seen)
    centres = [0.15, 0.45, 0.8]
    events = np.concatenate([np.full(n, c) for n, c in zip(case["counts"], centres)] + [[5.0]])
    csv = kit.write_csv(f"{tag}.csv", {"cs1": events})
    fixed_events = np.concatenate([np.full(n, c) for n, c in zip([3, 5, 2], centres)])
    fixed_csv = kit.write_csv(f"{tag}_fixed.csv", {"cs1": fixed_events})
    instruct = {"likelihoods": {}}
    for i, llh in enumerate(case["llhs"]):
        spec = {"components": {}, "copy_parameters": {}, "parameter_alias": dict(llh["alias"])}
        if llh["kind"] == "lit":
            spec.update(
                type="LikelihoodLit",
                bins_on=["energy", "light_yield"],
                variable_type="twohalfnorm",
                logpdf_args=[list(LIT), list(LIT.values())],
                components={"only": made["lit"]},
            )
        else:
            spec.update(data_file_name=csv, bins_type="irreg", bins_on="cs1", bins=[EDGES], clip=[0, 1])
            for name, kind, qs in llh["components"]:
                spec["components"][name] = sim(qs) if kind == "sim" else {"component_cls": made["fixed"], "file_name": fixed_csv}
        instruct["likelihoods"][f"l{i}"] = spec
    context = apt.Context(instruct, par_config=case["priors"])
    reference_prior = apt.Parameter(case["priors"])
    fixed = {k: p["prior_args"]["val"] for k, p in case["priors"].items() if p["prior_type"] == "fixed"}
    simulated = sum(c[1] == "sim" for llh in case["llhs"] for c in llh["components"])
    all_keys = []
    results = {}
    minus = excluded = False
    for visit in case["visits"]:
        point = case["points"][visit]
        given = dict(point)
        del seen[:]
        total, prior = context.log_posterior(given, batch_size=case["batch"], repeat_times=case["repeat"])
        require(given == point, "the given point was changed")
        reference_prior.set_parameter(point)
        expected_prior = reference_prior.log_prior
        require(prior == expected_prior or abs(prior - expected_prior) < 1e-9 * max(1, abs(prior)), "log prior {} instead of {}", prior, expected_prior)
        if not np.isfinite(expected_prior):
            require(total == -np.inf, "log posterior {} of an excluded point", total)
            require(not seen, "{} simulations of an excluded point", len(seen))
            excluded = True
            results.setdefault(visit, total)
            rec.checked(3)
            continue
        require(len(seen) == simulated * case["repeat"], "{} simulations instead of {}", len(seen), simulated * case["repeat"])
        values = {**fixed, **point}
        evaluations = []
        at = 0
        scale = 1.0
        for _ in range(case["repeat"]):
            llh_total = expected_prior
            for i, llh in enumerate(case["llhs"]):
                own = dict(values)
                for new, old in llh["alias"].items():
                    if new in own:
                        own[old] = own[new]
                if llh["kind"] == "lit":
                    args = {k: np.array(v) for k, v in LIT.items()}
                    v, s = p08.reference("twohalfnorm", args, 5.0, kit.f32(np.float32(4.0) * np.float32(own["qa"])), 0.5)
                    llh_total += v
                    scale += s
                    continue
                model = np.zeros(3)
                for name, kind, qs in llh["components"]:
                    if kind == "fixed":
                        model += own[f"{name}_rate"] * np.array([3, 5, 2]) / 10
                        continue
                    llh_name, c_name, key, batch, pars, hist = seen[at]
                    at += 1
                    require((llh_name, c_name) == (f"l{i}", name), "simulates {}/{} instead of l{}/{}", llh_name, c_name, i, name)
                    require(batch == case["batch"], "batch size {}", batch)
                    for q in list(qs) + [f"{name}_rate"]:
                        require(float(pars[q]) == own[q], "{} is {} in {} instead of {}", q, pars.get(q), name, own[q])
                    if case["random_model"]:
                        require(key not in all_keys, "a key is used twice")
                        all_keys.append(key)
                    model += hist
                v, s = lab.poisson_llh(np.array(case["counts"]), model)
                llh_total += v
                scale += s
            evaluations.append(llh_total)
        expected = np.mean(evaluations)
        if np.isfinite(expected):
            require(abs(total - expected) <= 2e-5 * scale, "log posterior {} instead of {}", total, expected)
        else:
            minus = True
            require(total == expected, "log posterior {} instead of {}", total, expected)
        if not case["random_model"]:
            # as before, whatever was evaluated in between
            first = results.setdefault(visit, total)
            require(total == first or abs(total - first) <= 1e-6 * scale, "log posterior {} and now {} at the same point", first, total)
        rec.checked(4)
    rec.nontrivial(len(case["llhs"]) > 1 or case["repeat"] > 1 or minus or excluded)
    rec.label(f"llhs:{len(case['llhs'])}", f"repeat:{case['repeat']}")
    if minus:
        rec.label("empty bin")
    if excluded:
        rec.label("excluded")


PARTS = {"posterior": posterior}


def run(check, only=None):
    check.assumptions = ["P07 and P08 decide single likelihoods, P10 the prior; here it is their composition"]
    for random_model in (False, True):
        check.search("posterior", cases(random_model), posterior, check.n(30, 600), salt=str(random_model))
