"""P12: aliased and copied parameters reach the right likelihood."""

import copy

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import require
from aptv.props import p09

RULE = "some likelihood has an alias of a parameter it needs, or a parameter is copied"

Q = p09.Q


def draw_case(rng, template):
    n_llh = rng.randint(1, 4)
    llhs = []
    for i in range(n_llh):
        if rng.rand() < 0.2:
            llhs.append({"kind": "lit", "components": [["only", "yield", ["qa"]]], "alias": [], "copy": []})
            continue
        components = []
        for j in range(rng.randint(1, 3)):
            kind = "fixed" if j and rng.rand() < 0.4 else "sim"
            qs = sorted(str(q) for q in rng.choice(Q, rng.randint(1, 3), replace=False)) if kind == "sim" else []
            components.append([f"c{j}" if rng.rand() < 0.5 else f"l{i}c{j}", kind, qs])
        llhs.append({"kind": "hist", "components": components, "alias": [], "copy": []})
    names = set()  # of the parameter configuration
    needs = [sorted({q for c in llh["components"] for q in c[2]}) for llh in llhs]
    rates = [[c[0] + "_rate" for c in llh["components"]] if llh["kind"] == "hist" else [] for llh in llhs]
    all_rates = {r for rs in rates for r in rs} | {"only_rate" for llh in llhs if llh["kind"] == "lit"}
    styles = {q: str(rng.choice(["plain", "aliased", "copied"], p=[0.25, 0.4, 0.35])) for q in Q}
    for q in Q:
        users = [i for i in range(n_llh) if q in needs[i]]
        if not users:
            continue
        style = styles[q]
        if style == "plain":
            names.add(q)
        elif style == "aliased":
            # some likelihoods have their own
            for i in users:
                if rng.rand() < 0.6:
                    other = [o for o in Q if o not in needs[i] and o not in [a[0] for a in llhs[i]["alias"]] and styles[o] == "plain" and any(o in n for n in needs)]
                    new = str(rng.choice(other)) if other and rng.rand() < 0.3 else f"own{i}_{q}" if rng.rand() < 0.6 else f"own_{q}"
                    llhs[i]["alias"].append([new, q])
                    names.add(new)
                else:
                    names.add(q)
        else:
            # every one has a copy, and the original is only their template
            names.add(q)
            for i in users:
                llhs[i]["copy"].append([f"copy{i}_{q}", q])
                llhs[i]["alias"].append([f"copy{i}_{q}", q])
    for i, llh in enumerate(llhs):
        for r in rates[i]:
            where = rng.rand()
            if where < 0.2:
                llh["alias"].append([f"own{i}_{r}", r])
                names.add(f"own{i}_{r}")
            elif where < 0.5 and r not in names and not any(r == k for x in llhs for k, _ in x["copy"]):
                source = str(rng.choice(sorted(all_rates - {r}) + ["er_rate"]))
                if any(source == k for x in llhs for k, _ in x["copy"]):
                    names.add(r)
                    continue
                llh["copy"].append([r, source])
                names.add(source)
            elif not any(r == k for x in llhs for k, _ in x["copy"]):
                names.add(r)
        if rng.rand() < 0.15:
            # an alias of something that this likelihood does not need
            llh["alias"].append([f"unused{i}", f"nothing{i}"])
    # a rate which is copied somewhere is still needed where its component is
    for llh in llhs:
        llh["copy"] = [[k, v] for k, v in llh["copy"] if k not in names]
    for llh in llhs:
        for k, v in llh["copy"]:
            names.add(v)
    copies = [k for llh in llhs for k, _ in llh["copy"]]
    names = sorted(names - set(copies))
    config = {}
    for n in names:
        centre = (30.0 if n.endswith("_rate") else 1.0) * rng.uniform(0.8, 1.2)
        kind = str(rng.choice(["free", "norm", "uniform", "fixed"], p=[0.3, 0.3, 0.3, 0.1]))
        config[n] = {
            "prior_type": kind,
            "prior_args": {
                "free": {},
                "norm": {"mean": centre, "std": centre / 4},
                "uniform": {"lower": centre / 4, "upper": centre * 3},
                "fixed": {"val": centre},
            }[kind],
            "allowed_range": [centre / 5, centre * 4],
            "init_mean": centre,
            "init_std": centre / 10,
            "unit": "",
            "doc": n,
        }
    if all(c["prior_type"] == "fixed" for c in config.values()):
        config[names[0]].update(prior_type="free", prior_args={})
    return {
        "llhs": llhs,
        "config": config,
        "seed": int(rng.randint(2**31)),
        "random_model": bool(rng.rand() < 0.5),
        "counts": [int(v) for v in rng.randint(0, 15, 3)],
        "from_file": bool(rng.rand() < 0.3),
        "template": template,
    }


@st.composite
def cases(draw, template):
    return draw_case(np.random.RandomState(draw(st.integers(0, 2**32 - 1))), template)


def instructions(case, tag, sim, made):
    centres = [0.15, 0.45, 0.8]
    events = np.concatenate([np.full(n, c) for n, c in zip(case["counts"], centres)] + [[5.0]])
    csv = kit.write_csv(f"{tag}.csv", {"cs1": events})
    fixed_csv = kit.write_csv(f"{tag}_fixed.csv", {"cs1": np.repeat(centres, [3, 5, 2])})
    result = {"likelihoods": {}}
    for i, llh in enumerate(case["llhs"]):
        spec = {
            "components": {},
            "copy_parameters": {k: v for k, v in llh["copy"]},
            "parameter_alias": {k: v for k, v in llh["alias"]},
        }
        if llh["kind"] == "lit":
            spec.update(
                type="LikelihoodLit",
                bins_on=["energy", "light_yield"],
                variable_type="twohalfnorm",
                logpdf_args=[list(p09.LIT), list(p09.LIT.values())],
                components={"only": made["lit"]},
            )
        else:
            spec.update(data_file_name=csv, bins_type="irreg", bins_on="cs1", bins=[list(p09.EDGES)], clip=[0, 1])
            for name, kind, qs in llh["components"]:
                spec["components"][name] = sim(qs) if kind == "sim" else {"component_cls": made["fixed"], "file_name": fixed_csv}
        result["likelihoods"][f"l{i}"] = spec
    return result


def alone(spec, name):
    """The likelihood without aliases, built by itself."""
    import appletree as apt

    spec = copy.deepcopy(spec)
    spec["parameter_alias"] = {}
    llh = getattr(apt, spec.get("type", "Likelihood"))(name=name, **spec)
    for c, v in spec["components"].items():
        if isinstance(v, str):
            llh.register_component(getattr(apt.components, v), c)
        else:
            llh.register_component(getattr(apt.components, v["component_cls"]), c, v["file_name"])
    return llh


def aliases(case, rec):
    import appletree as apt

    kit.reset()
    rng = np.random.RandomState(case["seed"])
    tag = kit.unique("A")
    sim, made = p09.components(tag, case, [])
    instruct = instructions(case, tag, sim, made)
    config = copy.deepcopy(case["config"])
    if case["from_file"]:
        instruct["par_config"] = kit.write_json(f"{tag}_par.json", config)
    before = copy.deepcopy(instruct), copy.deepcopy(config)
    context = apt.Context(instruct, par_config=None if case["from_file"] else config)
    require((instruct, config) == before, "building changed the caller's dictionaries")

    # what the parameters are now
    expected = copy.deepcopy(case["config"])
    sources = []
    for llh in case["llhs"]:
        for k, v in llh["copy"]:
            expected[k] = copy.deepcopy(case["config"][v])
            sources.append(v)
    rates = set()
    for llh in case["llhs"]:
        rates |= {c[0] + "_rate" for c in llh["components"]} - {old for _, old in llh["alias"]}
    for v in set(sources):
        if v not in rates:
            del expected[v]
    manager = context.par_manager
    require(set(manager.get_all_parameter()) == set(expected), "parameters {} instead of {}", sorted(manager.get_all_parameter()), sorted(expected))
    require(context.par_config == expected, "parameter configuration {} instead of {}", context.par_config, expected)
    fitted = sorted(k for k, v in expected.items() if v["prior_type"] != "fixed")
    require(list(manager.parameter_fit) == fitted, "fits {} instead of {}", manager.parameter_fit, fitted)
    rec.checked(3)

    # every parameter has its own value
    values = {}
    for k, v in expected.items():
        values[k] = float(v["prior_args"]["val"] if v["prior_type"] == "fixed" else v["init_mean"] * rng.uniform(0.7, 1.4))
    point = {k: values[k] for k in fitted}
    for k in fitted:
        manager.set_parameter(k, values[k])
        require(manager.get_parameter(k) == values[k], "sets {}", k)
    for k in expected:
        require(manager.get_parameter(k) == values[k], "setting another parameter changed {}", k)
    reference_prior = apt.Parameter(copy.deepcopy(expected))
    reference_prior.set_parameter(point)
    require(manager.log_prior == reference_prior.log_prior, "log prior {} instead of {}", manager.log_prior, reference_prior.log_prior)

    n = 40
    relevant = False
    alones = {}
    for i, llh in enumerate(case["llhs"]):
        likelihood = context[f"l{i}"]
        needs = {q for c in llh["components"] for q in c[2]}
        if llh["kind"] == "hist":
            needs |= {c[0] + "_rate" for c in llh["components"]}
        original = set(needs)
        own = dict(values)
        for new, old in llh["alias"]:
            relevant = relevant or old in original
            if old in original:
                needs.discard(old)
                needs.add(new)
            if new in values:
                own.pop(new)
                own[old] = values[new]
        require(needs - {"only_rate"} == likelihood.needed_parameters - {"only_rate"}, "l{} needs {} instead of {}", i, likelihood.needed_parameters, needs)
        require(needs <= context.needed_parameters, "the context needs {}", context.needed_parameters)
        reference = alones[i] = alone(before[0]["likelihoods"][f"l{i}"], f"alone{i}")
        key = kit.key_of(rng.randint(2**31))
        given = dict(values)
        k1, r1 = likelihood.get_log_likelihood(key, n, given)
        k2, r2 = reference.get_log_likelihood(key, n, own)
        require(given == values, "evaluating changed the given parameters")
        require(kit.key_bits(k1) == kit.key_bits(k2), "another key")
        require(kit.close(r1, r2, 1e-5, 1e-5), "log likelihood {} instead of {}", r1, r2)
        if llh["kind"] == "hist":
            k1, r1 = likelihood.simulate_weighted_data(key, n, parameters=given)
            k2, r2 = reference.simulate_weighted_data(key, n, parameters=own)
            require(given == values, "simulating changed the given parameters")
            require(len(r1) == len(r2) and all(kit.close(a, b, 1e-5, 1e-6) for a, b in zip(r1, r2)), "other weighted data")
        if llh["kind"] == "hist" and not case["random_model"]:
            r1 = likelihood.get_num_events_accepted(n, given)
            r2 = reference.get_num_events_accepted(n, own)
            require(given == values, "counting changed the given parameters")
            require(kit.close(r1, r2, 1e-5), "{} events accepted instead of {}", r1, r2)
        rec.checked(8)
    total, _ = context.log_posterior(point, batch_size=n)
    require(point == {k: values[k] for k in fitted}, "evaluating changed the given parameters")
    if case["template"]:
        context.fitting(nwalkers=2 * len(fitted) + 2, iteration=2, batch_size=n)
        post = context.get_post_parameters()
        require(set(post) == set(expected), "posterior parameters {}", sorted(post))
        for i, llh in enumerate(case["llhs"]):
            own = dict(post)
            for new, old in llh["alias"]:
                if new in own:
                    own[old] = own.pop(new)
            for name, kind, qs in llh["components"]:
                if kind == "fixed":
                    continue
                # also the seed zero
                seed = (17, 0, 2**31)[len(name + str(kind)) % 3 if i else 1]
                result = context.get_template(f"l{i}", name, batch_size=n, seed=seed)
                _, reference = alones[i][name].simulate(kit.key_of(seed), n, own)
                require(
                    len(result) == len(reference) and all(kit.close(a, b, 1e-5, 1e-6) for a, b in zip(result, reference)),
                    "the template of l{}/{} is not simulated with the parameters of its likelihood",
                    i,
                    name,
                )
                rec.checked()
    require((instruct, config) == before, "the caller's dictionaries were changed")
    rec.nontrivial(relevant or sources)
    rec.label("alias" if relevant else "no alias", "copied" if sources else "no copy", f"likelihoods {len(case['llhs'])}")


PARTS = {"aliases": aliases}


def run(check, only=None):
    check.assumptions = ["a parameter that is copied and is not a rate is aliased wherever it is used, as its original disappears"]
    check.search("aliases", cases(False), aliases, check.n(30, 600), salt="plain")
    check.search("aliases", cases(True), aliases, check.n(12, 300), salt="template")
