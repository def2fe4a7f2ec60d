"""P03: reported needed parameters are sufficient and nothing else matters."""

import contextlib
import os

import numpy as np
from hypothesis import strategies as st

from aptv import graphs, kit, lab, shipped
from aptv.harness import require
from aptv.props.p02 import recording

RULE = (
    "some declared parameters or scalers belong to used plugins and others only to unused ones, or an alias or a "
    "copied parameter is involved"
)


def sigma_spec(kind, name, files):
    """Value of a map with uncertainty, and its scaler."""
    if kind == "single":
        return files[0], None
    if kind == "three":
        return list(files), name + "_sigma"
    return list(files) + [kind], kind


def same(a, b):
    a, b = [np.asarray(x) for x in a], [np.asarray(x) for x in b]
    return len(a) == len(b) and all(x.tobytes() == y.tobytes() for x, y in zip(a, b))


# ----------------------------------------------------------------------
@st.composite
def graph_cases(draw):
    spec = draw(graphs.graph(max_names=8))
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    maps = {}
    for p in spec["plugins"]:
        if rng.rand() < 0.4:
            maps[str(p["id"])] = {
                "kind": str(rng.choice(["single", "three", "three", "scaler_a", "scaler_b"])),
                "how": str(rng.choice(["default", "global", "per likelihood"])),
                "other": str(rng.choice(["single", "three", "scaler_c"])),
            }
    names = [n for n in spec["names"] if n != "eff"]
    outputs = draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True))
    return {
        "spec": spec,
        "maps": maps,
        "outputs": outputs,
        "no_eff": draw(st.sampled_from([False, False, False, True])),
        "before": [str(n) for n in rng.choice(names, min(2, len(names)), replace=False)] if rng.rand() < 0.4 else [],
        "rate": draw(st.booleans()),
        "values": [int(v) for v in rng.randint(0, 90, 8)],
    }


def graph_case(case, rec):
    """Needed parameters of a generated component."""
    import appletree as apt
    import jax.numpy as jnp
    from appletree.config import SigmaMap
    from appletree.share import _cached_configs

    kit.reset()
    spec = case["spec"]
    tag = kit.unique("N")
    llh = kit.unique("llh")
    files = [kit.point_map(f"{tag}_{k}.json", [0.0, 100.0], [v, v + 10.0]) for k, v in (("m", 1.0), ("l", 0.5), ("u", 2.0))]
    scalers = {}
    classes = []
    for p in spec["plugins"]:
        configs = ()
        m = case["maps"].get(str(p["id"]))
        if m:
            name = f"{tag}_map{p['id']}"
            value, scaler = sigma_spec(m["kind"], name, files)
            other, _ = sigma_spec(m["other"], name, files)
            default = value if m["how"] == "default" else other
            configs = (SigmaMap(name=name, method="LERP", default=default),)
            if m["how"] == "global":
                _cached_configs[name] = value
            elif m["how"] == "per likelihood":
                _cached_configs[name] = {"elsewhere": other, llh: value}
            scalers[p["id"]] = scaler

        def body(self, key, parameters, *inputs, p=p, configs=configs):
            values = [jnp.zeros(1)]
            for dep, v in zip(p["depends_on"], inputs):
                v = jnp.arange(v) if dep == "batch_size" else v
                values.append(jnp.asarray(v).astype(jnp.float32))
            total = sum(values)
            for q in p["parameters"]:
                total = total + parameters[q]
            for c in configs:
                total = total + getattr(self, c.name).apply(total, parameters)
            return tuple([key] + [total + i for i in range(len(p["provides"]))])

        classes.append(kit.make_plugin(f"{tag}P{p['id']}", p["depends_on"], p["provides"], body, parameters=p["parameters"], configs=configs))
    component = kit.make_component(tag + "C", classes, register=False)(llh_name=llh)
    if case["rate"]:
        component.rate_name = "my_rate"
    nodep = spec["nodep"]
    wanted = list(case["outputs"]) + ([] if case["no_eff"] else ["eff"])
    used, _ = graphs.needed(spec, wanted)
    if case["before"]:
        # deduced for something else first
        from appletree.share import _cached_functions

        component.deduce(data_names=list(case["before"]), nodep_data_name=nodep)
        _cached_functions.clear()
    component.deduce(data_names=list(case["outputs"]), nodep_data_name=nodep, force_no_eff=case["no_eff"])
    component.compile()

    declared, unused = set(), set()
    for p in spec["plugins"]:
        own = set(p["parameters"]) | ({scalers[p["id"]]} if scalers.get(p["id"]) else set())
        if p["id"] in used:
            declared |= own
        else:
            unused |= own
    expected = declared | ({"my_rate"} if case["rate"] else set())
    require(
        set(component.needed_parameters) == expected,
        "needed parameters {} instead of {}",
        sorted(component.needed_parameters),
        sorted(expected),
    )
    values = dict(zip(sorted(expected | {"pa", "pb", "pc", "pd"}), map(float, case["values"])))
    exact = {k: values[k] for k in expected}
    base = 3 if nodep == "batch_size" else jnp.arange(3.0)
    key = kit.key_of(1)
    _, out = component.simulate(key, base, exact)
    extra = {"pa": 1e3, "pb": -5.0, "unrelated": 7.0, "scaler_c": 1.5, **{k: 77.0 for k in unused}}
    for scale in (1.0, 0.0):
        more = {**{k: v * scale for k, v in extra.items()}, **exact}
        _, out2 = component.simulate(key, base, more)
        require(same(out, out2), "other parameters {} change the result", sorted(set(more) - set(exact)))
        rec.checked(2)
    rec.nontrivial(bool(unused - expected) or any(scalers.get(i) for i in used))
    rec.label(f"used:{len(used)}", f"scalers:{sum(1 for i in used if scalers.get(i))}")


# ----------------------------------------------------------------------
OUTPUTS = {
    "sim": [
        ["cs1", "cs2"],
        ["num_s1_phd", "cs2"],
        ["energy"],
        ["num_photon", "num_electron"],
        ["field", "z"],
        ["s2_area"],
        ["rec_r", "drift_survive_prob"],
        ["acc_s1_recon_eff"],
    ],
    "yield": [["energy", "light_yield"], ["energy", "charge_yield"], ["energy"], ["field"]],
}
SIGMAS = {
    "s1_eff_3f": "_3fold_recon_eff.json",
    "s1_cut_acc": "_s1_cut_acc.json",
    "s2_cut_acc": "_s2_cut_acc.json",
}


def shipped_cases(seed, n):
    rng = np.random.RandomState(seed)
    kinds = shipped.SIM + shipped.YIELDS
    cases = []
    for i in range(n):
        kind = kinds[i % len(kinds)] if n >= len(kinds) else str(rng.choice(kinds))
        pool = OUTPUTS["yield" if kind in shipped.YIELDS else "sim"]
        cases.append(
            {
                "kind": kind,
                "outputs": pool[rng.randint(len(pool))],
                "no_eff": bool(rng.rand() < 0.4),
                "sigma": {
                    k: [str(rng.choice(["default", "single", "three", "scaler_a", "scaler_b"])), bool(rng.rand() < 0.5)]
                    for k in SIGMAS
                },
                "seed": int(rng.randint(2**31)),
            }
        )
    return cases


@contextlib.contextmanager
def used_plugins():
    """Instances of the plugins that run."""
    import appletree as apt

    seen = []
    old = apt.Plugin.__call__

    def call(self, *args, **kwargs):
        seen.append(self)
        return old(self, *args, **kwargs)

    apt.Plugin.__call__ = call
    try:
        yield seen
    finally:
        apt.Plugin.__call__ = old


def shipped_case(case, rec):
    """Needed parameters of a shipped simulation."""
    from appletree.share import _cached_configs

    kit.reset()
    kind = case["kind"]
    llh = kit.unique("llh")
    scalers = {"s1_eff_3f": None, "s1_cut_acc": "s1_cut_acc_sigma", "s2_cut_acc": "s2_cut_acc_sigma"}
    for name, (how, per_llh) in case["sigma"].items():
        if how == "default":
            continue
        value, scalers[name] = sigma_spec(how, name, [SIGMAS[name]] * 3)
        _cached_configs[name] = {llh: value, "elsewhere": SIGMAS[name]} if per_llh else value
    component = shipped.build(kind, llh_name=llh, data_names=case["outputs"], no_eff=case["no_eff"])
    pool = shipped.parameters(kind, None, np.random.RandomState(case["seed"]))
    exact = {k: pool.get(k, 0.5) for k in component.needed_parameters}
    key = kit.key_of(case["seed"])
    batch = shipped.batch(kind, 4)
    # step by step, which is faster than compiling
    with used_plugins() as seen, recording():
        _, out = component.simulate(key, batch, exact)
    require(seen, "no plugin runs")
    expected = set()
    for plugin in seen:
        expected |= set(plugin.parameters)
        for name in plugin.takes_config:
            if scalers.get(name):
                expected.add(scalers[name])
    require(
        set(component.needed_parameters) == expected,
        "needed parameters {} differ from those of the plugins that run: {}",
        sorted(component.needed_parameters),
        sorted(expected),
    )
    more = {**{k: 0.123 for k in list(pool) + ["unrelated", "scaler_c"]}, **exact}
    with recording():
        _, out2 = component.simulate(key, batch, more)
    require(same(out, out2), "other parameters change the result")
    rec.checked(2)
    rec.nontrivial(bool(expected) and set(pool) - expected)
    rec.label(kind, f"needed:{len(expected)}")


# ----------------------------------------------------------------------
NAMES = ["qa", "qb", "qc", "qd"]


@st.composite
def context_cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    llhs = []
    for i in range(rng.randint(1, 4)):
        components = []
        for j in range(rng.randint(1, 4)):
            # names of components may be shared between likelihoods
            name = f"c{j}" if rng.rand() < 0.5 else f"l{i}c{j}"
            if rng.rand() < 0.25:
                components.append([name, "fixed", []])
            else:
                k = rng.randint(0, 3)
                components.append([name, "sim", sorted(str(q) for q in rng.choice(NAMES, k, replace=False))])
        used = sorted({q for _, _, qs in components for q in qs})
        alias = {}
        for q in used:
            if rng.rand() < 0.35:
                alias[f"l{i}_{q}"] = q
        if rng.rand() < 0.2:
            # the alias of something this likelihood does not need
            alias[f"l{i}_none"] = "qz"
        copies = {}
        for name, _, _ in components:
            if rng.rand() < 0.3:
                copies[f"{name}_rate"] = "base_rate"
        llhs.append({"components": components, "alias": alias, "copies": copies})
    return {
        "llhs": llhs,
        "surplus": draw(st.sampled_from(["none", "unrelated", "unused", "aliased", "spare", "rate"])),
        "surplus_value": draw(st.sampled_from([0.0, 1.0, -3.5])),
        "surplus_kind": draw(st.sampled_from(["fixed", "free"])),
        "seed": int(rng.randint(2**31)),
    }


def context_case(case, rec):
    """Needed parameters of likelihoods and contexts, and the refusal of surplus ones."""
    import appletree as apt
    import jax.numpy as jnp

    kit.reset()
    tag = kit.unique("K")
    csv = kit.write_csv(f"{tag}.csv", {"cs1": np.linspace(0.03, 0.97, 30)})
    rng = np.random.RandomState(case["seed"])
    instruct = {"likelihoods": {}, "backend_h5": os.path.abspath(f"{tag}.h5")}
    expected_llh = {}
    made = {}

    def component_name(qs):
        k = ",".join(qs)
        if k not in made:

            def body(self, key, parameters, batch_size):
                x = (jnp.arange(batch_size) + 0.5) / batch_size
                eff = jnp.ones(batch_size)
                for i, q in enumerate(qs):
                    eff = eff * (2.0 + jnp.sin((i + 1.0) * x * parameters[q]))
                return key, x, eff

            made[k] = kit.unique(tag + "Comp")
            plugin = kit.make_plugin(kit.unique(tag + "Plug"), ["batch_size"], ["cs1", "eff"], body, parameters=qs)
            # parameters of a plugin that is not used
            unused = kit.make_plugin(kit.unique(tag + "Plug"), ["cs1"], ["nobody"], lambda self, key, parameters, cs1: (key, cs1), parameters=["spare"])
            kit.make_component(made[k], [unused, plugin], add_eps_to_hist=False)
        return made[k]

    kit.make_fixed(tag + "Fixed")
    for i, llh in enumerate(case["llhs"]):
        spec = {
            "components": {},
            "copy_parameters": dict(llh["copies"]),
            "parameter_alias": dict(llh["alias"]),
            "data_file_name": csv,
            "bins_type": "irreg",
            "bins_on": "cs1",
            "bins": [[0.0, 0.3, 0.6, 1.0]],
            "clip": [0, 1],
        }
        needed = set()
        for name, kind, qs in llh["components"]:
            needed.add(f"{name}_rate")
            if kind == "sim":
                spec["components"][name] = component_name(qs)
                needed |= set(qs)
            else:
                spec["components"][name] = {"component_cls": tag + "Fixed", "file_name": csv}
        for new, old in llh["alias"].items():
            if old in needed:
                needed.discard(old)
                needed.add(new)
        expected_llh[f"l{i}"] = needed
        instruct["likelihoods"][f"l{i}"] = spec
    expected = set().union(*expected_llh.values())
    for llh in case["llhs"]:
        expected |= set(llh["copies"])

    def config(value, kind="fixed"):
        return lab.fixed_parameter(value) if kind == "fixed" else lab.free_parameter(value, -100, 100)

    values = {k: float(rng.uniform(0.5, 3)) for k in sorted(expected)}
    par_config = {k: config(v) for k, v in values.items()}
    copied = {k for llh in case["llhs"] for k in llh["copies"]}
    free = sorted(expected - copied)[:2]
    for k in free:
        par_config[k] = config(values[k], "free")
    if copied:
        for k in copied:
            par_config.pop(k)
            values[k] = 2.5
        par_config["base_rate"] = config(2.5)
    surplus = set()
    if case["surplus"] != "none":
        name = {
            "unrelated": "zzz",
            "spare": "spare",
            "rate": "removed_rate",
            "unused": next((q for q in NAMES if q not in expected), "zzz"),
            "aliased": next((o for llh in case["llhs"] for o in llh["alias"].values() if o not in expected), "zzz"),
        }[case["surplus"]]
        surplus = {name}
        par_config[name] = config(case["surplus_value"], case["surplus_kind"])
    context = apt.Context(instruct, par_config=par_config)
    for name, needed in expected_llh.items():
        got = set(context[name].needed_parameters)
        require(got == needed, "likelihood {} needs {} instead of {}", name, sorted(got), sorted(needed))
    require(
        set(context.needed_parameters) == expected,
        "the context needs {} instead of {}",
        sorted(context.needed_parameters),
        sorted(expected),
    )
    rec.checked(1 + len(expected_llh))
    # exactly these suffice and nothing else matters
    key = kit.key_of(3)
    others = {"zzz": 5.0, "spare": -1.0, "base_rate": 9.0, "qz": 2.0}
    for name, needed in expected_llh.items():
        exact = {k: values[k] for k in needed}
        _, llh = context[name].get_log_likelihood(key, 60, exact)
        require(np.isfinite(llh), "log likelihood {}", llh)
        more = {**{k: 4.2 for k in expected}, **others, **exact}
        for k in [o for l in case["llhs"] for o in l["alias"].values()]:
            more.setdefault(k, 1.7)
        _, llh2 = context[name].get_log_likelihood(key, 60, more)
        require(llh == llh2, "other parameters change the log likelihood of {}: {} and {}", name, llh, llh2)
        rec.checked(2)
    if surplus:
        require(kit.refused(context.print_context_summary), "the summary accepts the surplus parameter {}", sorted(surplus))
        require(
            kit.refused(context.fitting, nwalkers=8, iteration=1, batch_size=60),
            "fitting starts although {} is not needed",
            sorted(surplus),
        )
        require(not os.path.exists(instruct["backend_h5"]), "a refused fit writes a file")
        rec.checked(3)
    else:
        context.print_context_summary()
        total, prior = context.log_posterior({k: values[k] for k in free}, batch_size=60)
        require(np.isfinite(total) and np.isfinite(prior), "log posterior {}", total)
        if free:
            context.fitting(nwalkers=2 * len(free) + 2, iteration=1, batch_size=60)
            require(context.sampler.get_chain().shape == (1, 2 * len(free) + 2, len(free)), "no fit")
            os.remove(instruct["backend_h5"])
        rec.checked(3)
    aliases = any(l["alias"] for l in case["llhs"])
    rec.nontrivial(aliases or copied or surplus)
    rec.label("surplus:" + (case["surplus"]), f"alias:{aliases}", f"copies:{bool(copied)}")


PARTS = {"graph": graph_case, "shipped": shipped_case, "context": context_case}


def run(check, only=None):
    check.assumptions = ["plugins read no parameters but those they declare and the scalers of their maps"]
    if only in (None, "graph"):
        check.search("graph", graph_cases(), graph_case, check.n(40, 800))
    if only in (None, "context"):
        check.search("context", context_cases(), context_case, check.n(25, 500))
    if only in (None, "shipped"):
        check.sweep("shipped", shipped_cases(check.seed, check.n(9, 120)), shipped_case)
