"""P36: the shipped analyses, and variations of them, evaluate the likelihood their instructions describe."""

import atexit
import copy
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from aptv import kit, lab, shipped
from aptv.harness import REPO, quiet, require

RULE = "an analysis that is changed with respect to the shipped one, or evaluated away from the starting parameters"

BATCH = 6000
REPEATS = 6
BASES = {"rn220": ("rn220.json", "ContextRn220"), "rn220_ar37": ("rn220_ar37.json", "ContextRn220Ar37"), "neutron": ("neutron_low.json", None)}
CONTENT = {"rn220": ["rn220_llh"], "rn220_ar37": ["rn220_llh", "ar37_llh"], "neutron": ["neutron_llh"]}


# the first case of a search is always the smallest one: other runs have others
salt = [0]


@st.composite
def cases(draw, base, plain):
    rng = np.random.RandomState([draw(st.integers(0, 2**32 - 1))] + salt)
    llhs = {}
    for name in CONTENT[base]:
        llhs[name] = {
            "dropped": False,
            "observables": [0, 1] if plain else [[0, 1], [0, 1], [0], [1]][rng.randint(4)],
            "bins_type": None if plain else str(rng.choice(["equiprob", "meshgrid", "as shipped"])),
            "bins": [int(rng.randint(1, 7)) for _ in range(2)],
            # a second component of the class, with a rate of its own or one that is copied
            "second": "no" if plain else str(rng.choice(["no", "own", "copied"])),
            "no_ac": bool(not plain and rng.rand() < 0.4),
        }
    if not plain and len(llhs) > 1 and rng.rand() < 0.3:
        llhs[CONTENT[base][rng.randint(2)]]["dropped"] = True
    return {
        "base": base,
        "plain": plain,
        "llhs": llhs,
        "reversed": bool(not plain and rng.rand() < 0.3),
        "seed": int(rng.randint(2**31)),
        "points": 2,
    }


def build(case):
    """Instructions, parameter configuration and the rate of every component."""
    instruct = shipped.read("instructs", BASES[case["base"]][0])
    config = shipped.read("parameters", instruct["par_config"])
    rates = {}
    for name, v in case["llhs"].items():
        spec = instruct["likelihoods"][name]
        if v["dropped"]:
            del instruct["likelihoods"][name]
            for k in spec.get("parameter_alias", {}):
                config.pop(k)
            continue
        sim = next(c for c in spec["components"] if not isinstance(spec["components"][c], dict))
        ac = next((c for c in spec["components"] if isinstance(spec["components"][c], dict)), None)
        if v["no_ac"] and ac is not None:
            del spec["components"][ac]
            del spec["copy_parameters"][ac + "_rate"]
        if v["second"] != "no":
            spec["components"]["second_" + sim] = spec["components"][sim]
            if v["second"] == "own":
                config[f"second_{sim}_rate"] = {
                    "prior_type": "uniform",
                    "prior_args": {"lower": 10.0, "upper": 300.0},
                    "allowed_range": [10.0, 300.0],
                    "init_mean": 100.0,
                    "init_std": 10.0,
                    "unit": "1",
                    "doc": "",
                }
            else:
                spec["copy_parameters"][f"second_{sim}_rate"] = spec["copy_parameters"][sim + "_rate"]
        if len(v["observables"]) == 1:
            i = v["observables"][0]
            spec["bins_on"] = spec["bins_on"][i]
            spec["clip"] = spec.pop(["x_clip", "y_clip"][i])
            spec.pop(["y_clip", "x_clip"][i])
            spec["bins"] = [spec["bins"][i]]
            if case["base"] == "neutron":
                spec["bins_type"], spec["bins"] = "meshgrid", [spec["bins"][0]] if i == 0 else [spec["bins"][0][0]]
        if v["bins_type"] in ("equiprob", "meshgrid"):
            spec["bins_type"] = v["bins_type"]
            spec["bins"] = v["bins"][: len(v["observables"])]
        for c in spec["components"]:
            rates[name, c] = spec["copy_parameters"].get(c + "_rate", c + "_rate")
    copied = {v for spec in instruct["likelihoods"].values() for v in spec["copy_parameters"].values()}
    if "ac_rate" in config and "ac_rate" not in copied:
        config.pop("ac_rate")
    if case["reversed"]:
        instruct["likelihoods"] = dict(reversed(instruct["likelihoods"].items()))
        for spec in instruct["likelihoods"].values():
            spec["components"] = dict(reversed(spec["components"].items()))
    return instruct, config, rates


def same(got, expected, what, rec):
    """Means of the same noisy number."""
    got, expected = np.asarray(got, dtype=float), np.asarray(expected, dtype=float)
    require(not np.isnan(got).any() and not (got == np.inf).any(), "{} is {}", what, got)
    a, b = np.isfinite(got), np.isfinite(expected)
    if not a.all() or not b.all():
        # some bins are only sometimes filled
        require(a.any() == b.any() or a.sum() + b.sum() <= 3, "{} is {} instead of {}", what, got, expected)
        rec.label("empty bins")
        return
    spread = np.sqrt((got.var(ddof=1) + expected.var(ddof=1)) / 2) * np.sqrt(2 / len(got))
    allowed = 12 * spread + 2e-5 * (1 + abs(expected).max())
    require(abs(got.mean() - expected.mean()) <= allowed, "{} is {} instead of {} (within {})", what, got.mean(), expected.mean(), allowed)
    rec.checked()


def table(name):
    import pandas as pd

    path = os.path.join(REPO, "appletree", "data", name)
    return pd.read_csv(path) if name.endswith("csv") else pd.read_pickle(path)


def histogram(columns, weights, bins, mesh):
    return (lab.ref_mesh if mesh else lab.ref_hist)(columns, weights, bins)


def evaluate(case, rec):
    """Likelihoods of one analysis at random parameters."""
    import appletree as apt

    kit.reset()
    instruct, config, rates = build(case)
    before = copy.deepcopy((instruct, config))
    shipped_class = BASES[case["base"]][1]
    with quiet():
        if case["plain"]:
            context = getattr(apt, shipped_class)() if shipped_class else apt.Context(BASES[case["base"]][0])
        else:
            context = apt.Context(instruct, par_config=config)
        context.print_context_summary(short=bool(case["seed"] % 2))
    require((instruct, config) == before, "the instructions or the parameters given were changed")
    require(list(context.likelihoods) == list(instruct["likelihoods"]), "likelihoods {}", list(context.likelihoods))
    free = [k for k, v in config.items() if v["prior_type"] != "fixed"]
    # a parameter that is only copied has the names of its copies
    for k, names in copies(instruct).items():
        if k in free:
            free.remove(k)
            free += names
    require(set(context.par_manager.parameter_fit) == set(free), "fits {} instead of {}", sorted(context.par_manager.parameter_fit), sorted(free))
    rng = np.random.RandomState(case["seed"] % 2**31)
    np.random.seed(case["seed"] % 2**31)
    for number in range(case["points"]):
        context.par_manager.sample_init()
        if number:
            # every parameter of its own
            for k in sorted(set(free)):
                c = settings(instruct, config, k)
                lo, hi = c["allowed_range"]
                x = c["init_mean"] + c["init_std"] * rng.normal()
                context.par_manager.set_parameter(k, float(np.clip(x, lo, hi)))
        given = dict(context.par_manager.get_all_parameter())
        for k in set(free):
            lo, hi = settings(instruct, config, k)["allowed_range"]
            require(lo <= given[k] <= hi, "{} starts at {}", k, given[k])
        key = kit.key_of(int(rng.randint(2**31)))
        totals = []
        for name, spec in instruct["likelihoods"].items():
            llh = context[name]
            observables = spec["bins_on"] if isinstance(spec["bins_on"], list) else [spec["bins_on"]]
            mesh = spec["bins_type"] == "meshgrid"
            component = llh[list(spec["components"])[0]]
            bins = [np.asarray(b, dtype=float) for b in component.bins]
            mesh = component.bins_type == "meshgrid"
            data = table(spec["data_file_name"])
            columns = [data[o].to_numpy() for o in observables]
            clips = [spec["clip"]] if len(observables) == 1 else [spec["x_clip"], spec["y_clip"]]
            inside = np.all([(c > lo) & (c < hi) for c, (lo, hi) in zip(columns, clips)], axis=0)
            counts = np.asarray(llh.data_hist, dtype=float)
            require(counts.sum() == inside.sum(), "{}: {} of {} selected events are in the bins", name, counts.sum(), inside.sum())
            chosen = [c[inside] for c in columns]
            edge = [np.ravel(np.concatenate([np.ravel(e) for e in b]) if np.ndim(b[0]) else b) for b in bins]
            near = any(np.any(np.abs(c[:, None] - e[None]) <= 1e-5 * (1 + np.abs(e))) for c, e in zip(chosen, edge))
            if not near:
                hist = histogram(chosen, np.ones(inside.sum()), bins, mesh)
                require(np.array_equal(counts, hist), "{}: the data histogram is {} instead of {}", name, counts, hist)
                rec.checked()
            own = dict(given)
            for new, old in spec.get("parameter_alias", {}).items():
                own[old] = own.pop(new)
            # histograms of the components, simulated here
            expected = []
            got = []
            for _ in range(REPEATS):
                key, value = llh.get_log_likelihood(key, BATCH, dict(given))
                got.append(value)
                model = 0.0
                for c in spec["components"]:
                    if isinstance(spec["components"][c], dict):
                        other = table(spec["components"][c]["file_name"])
                        hist = histogram([other[o].to_numpy() for o in observables], np.ones(len(other)), bins, mesh)
                        # only tabulated components are protected against empty bins
                        hist = np.maximum(hist, 1 + 1e-10)
                    else:
                        key, result = llh[c].simulate(key, BATCH, own)
                        result = [np.asarray(r, dtype=float) for r in result]
                        hist = histogram(result[: len(observables)], result[len(observables)], bins, mesh)
                    with np.errstate(all="ignore"):
                        model = model + hist / hist.sum() * given[c + "_rate"]
                with np.errstate(all="ignore"):
                    bad = np.any(~(model > 0)) or np.any(np.isinf(model))
                    expected.append(-np.inf if bad else float(np.sum(counts * np.log(np.where(model > 0, model, 1.0)) - model)))
            same(got, expected, f"log likelihood of {name}", rec)
            totals.append(expected)
            rate = sum(given[c + "_rate"] for c in spec["components"])
            number_ = float(llh.get_num_events_accepted(BATCH, dict(given)))
            if np.isfinite(expected).all():
                require(kit.close(number_, rate, 1e-4), "{} expects {} events instead of {}", name, number_, rate)
            rec.checked(3)
        point = {k: given[k] for k in context.par_manager.parameter_fit}
        context.par_manager.set_parameter(point)
        prior = float(context.par_manager.log_prior)
        results = [context.log_posterior(point, batch_size=BATCH) for _ in range(REPEATS)]
        require(all(kit.close(r[1], prior, 1e-6, 1e-6) for r in results), "prior {} instead of {}", [r[1] for r in results], prior)
        same([r[0] for r in results], np.sum(totals, axis=0) + prior, "log posterior", rec)
        # nothing outside of the allowed ranges
        k = sorted(point)[rng.randint(len(point))]
        lo, hi = settings(instruct, config, k)["allowed_range"]
        for outside in (lo - 1e-3 * (1 + abs(lo)), hi + 1e-3 * (1 + abs(hi))):
            total, _ = context.log_posterior({**point, k: float(outside)}, batch_size=BATCH)
            require(total == -np.inf, "log posterior {} with {} at {}", total, k, outside)
        rec.checked(3)
    rec.nontrivial()
    rec.label(case["base"], "shipped" if case["plain"] else "varied")
    for v in case["llhs"].values():
        rec.label(f"second:{v['second']}", f"{len(v['observables'])}D", "dropped" if v["dropped"] else "kept")


def copies(instruct):
    result = {}
    for spec in instruct["likelihoods"].values():
        for new, old in spec["copy_parameters"].items():
            result.setdefault(old, []).append(new)
    return result


def settings(instruct, config, name):
    for old, names in copies(instruct).items():
        if name in names:
            return config[old]
    return config[name]


PARTS = {"evaluate": evaluate}


def run(check, only=None):
    import jax

    salt[0] = check.seed
    # the same simulations are compiled for every context
    folder = tempfile.mkdtemp(prefix="aptv_cache_")
    atexit.register(shutil.rmtree, folder, ignore_errors=True)
    jax.config.update("jax_compilation_cache_dir", folder)
    jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
    check.assumptions = [
        "noisy log likelihoods are compared through their means over six simulations, within twelve standard errors",
        "the bins of an analysis are taken from its components; P05 decides them",
    ]
    for base in sorted(BASES):
        check.search("evaluate", cases(base, True), evaluate, check.n(1, 4), salt=base + "plain")
    for base in sorted(BASES):
        check.search("evaluate", cases(base, False), evaluate, check.n(2, 60), salt=base)
