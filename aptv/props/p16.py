"""P16: configurations resolve to the given value, per likelihood, and stay isolated."""

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import require

RULE = "an option given per likelihood with different values, or configurations changed after a component was built"

LLHS = ["alpha", "beta", "gamma"]
KINDS = ["constant", "set", "map", "sigma"]


@st.composite
def cases(draw, how=None):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    n_llh = draw(st.sampled_from([2, 3, 1]))
    llhs = LLHS[:n_llh]
    options = []
    for i in range(draw(st.sampled_from([2, 1, 3]))):
        kind = draw(st.sampled_from(KINDS))
        given = how or draw(st.sampled_from(["llh", "global", "default"]))
        options.append(
            {
                "kind": kind,
                "given": given,
                # the value of each likelihood
                "values": [value(rng, kind) for _ in range(3)] if given == "llh" else [value(rng, kind)] * 3,
                "default": value(rng, kind) if given == "default" or rng.rand() < 0.7 or kind == "sigma" else None,
                "later": value(rng, kind),
                "later_how": draw(st.sampled_from(["global", "llh", "none", "global"])),
                "extra_llh": bool(rng.rand() < 0.3),
            }
        )
    return {
        "llhs": [llhs[i] for i in rng.permutation(n_llh)],
        "options": options,
        "plugins": draw(st.sampled_from([1, 2])),
        "shared": draw(st.booleans()),
        "via": draw(st.sampled_from(["component", "likelihood"])),
        "alone": int(rng.randint(n_llh)),
        "when": draw(st.sampled_from(["end", "between"])),
        "resim": draw(st.sampled_from([5, 7])),
    }


def value(rng, kind):
    """A value of this kind: what the option does is a + b * x (+ s * scaler)."""
    a = float(rng.randint(-50, 50)) / 4 * (rng.rand() > 0.15)
    b = float(rng.randint(-50, 50)) / 4
    if kind == "constant":
        return {"a": a, "as": ["float", "int", "list"][rng.randint(3)]}
    if kind == "set":
        return {"a": a, "b": b, "n": int(rng.randint(1, 4))}
    if kind == "map":
        return {"a": a, "b": b}
    up, low = float(rng.randint(1, 20)), float(rng.randint(1, 20))
    return {"a": a, "b": b, "up": up, "low": low, "spec": ["four", "three", "one"][rng.randint(3)], "scaler": f"s{rng.randint(3)}"}


def as_config(kind, v, path):
    """What the user writes into the configuration."""
    line = lambda a, b, tag: kit.point_map(f"{path}_{tag}.json", [-100, 100], [a - 100 * b, a + 100 * b])
    if kind == "constant":
        a = v["a"]
        return {"float": a, "int": int(a), "list": [a, 1.0]}[v["as"]]
    if kind == "set":
        return [["p", "q"], [[v["a"]] * v["n"], [v["b"]] * v["n"]]]
    if kind == "map":
        return line(v["a"], v["b"], "m")
    files = [line(v["a"], v["b"], "m"), line(v["a"] - v["low"], v["b"], "l"), line(v["a"] + v["up"], v["b"], "u")]
    return {"four": files + [v["scaler"]], "three": files, "one": files[0]}[v["spec"]]


def reference(kind, v, x, pars, name):
    if kind == "constant":
        return (int(v["a"]) if v["as"] == "int" else v["a"]) + 0 * x
    if kind == "set":
        return v["n"] * (v["a"] + v["b"] * x)
    y = v["a"] + v["b"] * x
    if kind == "sigma" and v["spec"] != "one":
        s = pars[v["scaler"] if v["spec"] == "four" else name + "_sigma"]
        y = y + s * (v["up"] if s > 0 else v["low"])
    return y


def needed(case, names, j):
    result = set()
    for o, name in zip(case["options"], names):
        v = o["values"][j]
        if o["kind"] == "sigma" and v["spec"] != "one":
            result.add(v["scaler"] if v["spec"] == "four" else name + "_sigma")
    return result


def plugins(case, names, defaults):
    """Plugin classes: outputs are the sum over the options; with two plugins some options are used by both."""
    import appletree as apt
    from jax import numpy as jnp

    def config(i):
        o, name = case["options"][i], names[i]
        kwargs = {"name": name}
        if defaults[i] is not None:
            kwargs["default"] = defaults[i]
        cls = {"constant": apt.Constant, "set": apt.ConstantSet, "map": apt.Map, "sigma": apt.SigmaMap}[o["kind"]]
        if o["kind"] in ("map", "sigma"):
            kwargs["method"] = "LERP"
        return cls(**kwargs)

    def evaluate(self, which, x, parameters):
        y = 0 * x
        for i in which:
            c, kind = getattr(self, names[i]), case["options"][i]["kind"]
            if kind == "constant":
                y = y + (c.value[0] if isinstance(c.value, list) else c.value)
            elif kind == "set":
                y = y + jnp.asarray(c.value["p"]).sum() + jnp.asarray(c.value["q"]).sum() * x
            elif kind == "map":
                y = y + c.apply(x)
            else:
                y = y + c.apply(x, parameters)
        return y

    every = list(range(len(names)))
    if case["plugins"] == 1:
        use = [every]
    elif case["shared"]:
        use = [every, every[:1]]
    else:
        use = [every[1:], every[:1]]
    outputs = ["out0", "out1"][: len(use)]
    classes = []
    for k, which in enumerate(use):

        def body(self, key, parameters, batch_size, which=which):
            x = jnp.arange(batch_size) * 0.5
            return key, evaluate(self, which, x, parameters)

        classes.append(
            kit.make_plugin(kit.unique("Configured"), ["batch_size"], [outputs[k]], body, configs=[config(i) for i in which])
        )

    def one(self, key, parameters, batch_size):
        return key, jnp.ones(batch_size)

    classes.append(kit.make_plugin(kit.unique("Ones"), ["batch_size"], ["eff"], one))
    return classes, outputs, use


def make(case, cls, llh, outputs):
    import appletree as apt

    if case["via"] == "component":
        c = cls(name="c", llh_name=llh)
        c.rate_name = "c_rate"
        c.deduce(data_names=outputs, func_name=f"{llh}_sim")
        c.compile()
        return c
    config = dict(
        data_file_name=kit.write_csv("data.csv", {o: [1.0, 2.0] for o in outputs}),
        bins_type="meshgrid",
        bins_on=outputs,
        bins=[2] * len(outputs),
        clip=[0, 3],
        x_clip=[0, 3],
        y_clip=[0, 3],
    )
    likelihood = apt.Likelihood(name=llh, **config)
    likelihood.register_component(cls, "c")
    return likelihood["c"]


def resolve(case, rec):
    import appletree as apt

    kit.reset()
    tag = kit.unique("option")
    names = [f"{tag}_{i}" for i in range(len(case["options"]))]
    llhs, defaults, configs = case["llhs"], [], {}
    values = []
    for i, (o, name) in enumerate(zip(case["options"], names)):
        written = [as_config(o["kind"], v, f"{name}_{j}") for j, v in enumerate(o["values"])]
        default = None if o["default"] is None else as_config(o["kind"], o["default"], f"{name}_default")
        if o["given"] == "global":
            configs[name] = written[0]
        elif o["given"] == "llh":
            configs[name] = dict(zip(LLHS, written))
            if o["extra_llh"]:
                configs[name]["unknown"] = written[0]
        else:
            default = written[0]
        defaults.append(default)
        values.append(written)
    index = {llh: LLHS.index(llh) for llh in llhs}
    classes, outputs, use = plugins(case, names, defaults)
    cls = kit.make_component(kit.unique("Comp"), classes)
    given = {k: dict(v) if isinstance(v, dict) else v for k, v in configs.items()}
    apt.set_global_config(configs)
    require(configs == given, "setting the configuration changed it")
    pars = {"c_rate": 1.0, "s0": 0.5, "s1": -0.25, "s2": 2.0}
    pars.update({n + "_sigma": -1.5 + i for i, n in enumerate(names)})

    def expected(j, n):
        x = np.arange(n) * 0.5
        return [
            sum((reference(case["options"][i]["kind"], case["options"][i]["values"][j], x, pars, names[i]) for i in which), 0 * x)
            for which in use
        ]

    def verify(component, llh, n, when):
        j = index[llh]
        _, got = component.simulate(kit.key_of(1), n, pars)
        for g, e in zip(got, expected(j, n)):
            require(kit.close(g, e, 1e-5, 1e-4), "{} {}: {} instead of {}", llh, when, np.asarray(g).tolist(), e.tolist())
        rec.checked(len(outputs))

    def change():
        """The user sets something else."""
        new = {}
        for i, (o, name) in enumerate(zip(case["options"], names)):
            later = as_config(o["kind"], o["later"], f"{name}_later")
            if o["later_how"] == "global":
                new[name] = later
            elif o["later_how"] == "llh":
                new[name] = {llh: later for llh in LLHS + ["delta"]}
        if new:
            apt.set_global_config(new)
        return len(new)

    components = {}
    for k, llh in enumerate(llhs):
        components[llh] = make(case, cls, llh, outputs)
        require(
            needed(case, names, index[llh]) | {"c_rate"} == set(components[llh].needed_parameters),
            "{} needs {}", llh, sorted(components[llh].needed_parameters),
        )
        if case["when"] == "between" and k == 0:
            verify(components[llh], llh, 5, "after building")
    for llh in llhs:
        if case["when"] == "between" or llh != llhs[0]:
            verify(components[llh], llh, 5, "after building all")
    changed = change()
    if changed:
        try:
            other = make(case, cls, "delta", outputs)
            other.simulate(kit.key_of(1), 5, dict(pars))
        except ValueError:
            pass  # there is no value for this likelihood
    for llh in llhs:
        # another batch size is traced again
        verify(components[llh], llh, 5, "after changing the configuration")
        verify(components[llh], llh, case["resim"], "after changing the configuration, new batch size")
    # alone, with its value given globally, in an empty session
    llh = llhs[case["alone"] % len(llhs)]
    kit.reset()
    apt.set_global_config(
        {n: values[i][index[llh]] for i, n in enumerate(names) if case["options"][i]["given"] != "default"}
    )
    alone = make(case, cls, llh, outputs)
    key, a = alone.simulate(kit.key_of(3), 6, pars)
    key2, b = components[llh].simulate(kit.key_of(3), 6, pars)
    require(kit.key_bits(key) == kit.key_bits(key2), "another key when alone")
    for u, v in zip(a, b):
        require(kit.close(u, v, 0), "{} gives {}, alone {}", llh, np.asarray(v).tolist(), np.asarray(u).tolist())
    rec.nontrivial(changed or any(o["given"] == "llh" and len(llhs) > 1 for o in case["options"]))
    for o in case["options"]:
        rec.label(o["kind"] + " " + o["given"])
    rec.label(case["via"], f"{len(llhs)} likelihoods")


@st.composite
def bad_cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    kind = draw(st.sampled_from(KINDS))
    return {
        "kind": kind,
        "bad": draw(st.sampled_from(["other llh", "no value", "set"])),
        "value": value(rng, kind),
        "default": draw(st.booleans()),
        "set": draw(st.sampled_from(["three", "names", "lengths"])),
        "keys": draw(st.lists(st.sampled_from(["beta", "Alpha", "alpha2", "gamma"]), min_size=1, max_size=3, unique=True)),
    }


def bad(case, rec):
    """A likelihood without value is refused."""
    import appletree as apt

    kit.reset()
    name = kit.unique("option")
    kind = "set" if case["bad"] == "set" else case["kind"]
    v = case["value"]
    written = as_config(kind, dict(v, a=1.0, b=2.0, n=3), name)
    shape = {"options": [{"kind": kind, "values": [v]}], "plugins": 1, "shared": False, "via": "component"}
    default = None
    if case["bad"] == "other llh":
        apt.set_global_config({name: {k: written for k in case["keys"]}})
        default = written if case["default"] else None
    elif case["bad"] == "set":
        names, vals = written
        if case["set"] == "three":
            written = [names, vals, vals]
        elif case["set"] == "names":
            written = [names + ["more"], vals]
        else:
            written = [names, [vals[0], vals[1][:-1]]]
        apt.set_global_config({name: written})
    classes, outputs, use = plugins(shape, [name], [default])
    cls = kit.make_component(kit.unique("Comp"), classes)
    require(kit.refused(make, shape, cls, "alpha", outputs), "a component without valid value of {} was built", name)
    rec.checked()
    rec.nontrivial()
    rec.label(f"{case['bad']} {kind}")


@st.composite
def again_cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    kind = draw(st.sampled_from(KINDS + ["sigma"]))
    pool = [value(rng, kind) for _ in range(3)]
    ops = []
    for _ in range(rng.randint(4, 9)):
        if rng.rand() < 0.4:
            how = str(rng.choice(["global", "global", "llh", "some"]))
            ops.append(["set", how, [int(v) for v in rng.randint(0, 3, 3)]])
        else:
            ops.append(["build", str(rng.choice(["Alpha", "beta", "gamma", "none"], p=[0.4, 0.25, 0.2, 0.15]))])
    return {
        "kind": kind,
        "pool": pool,
        "ops": ops,
        "default": int(rng.randint(3)) if rng.rand() < 0.7 else None,
        "same": bool(rng.rand() < 0.5),
    }


def again(case, rec):
    """New values are used by everything that is built afterwards, also for the same likelihood."""
    import appletree as apt

    kit.reset()
    name, kind = kit.unique("option"), case["kind"]
    written = [as_config(kind, v, f"{name}_{j}") for j, v in enumerate(case["pool"])]
    default = None if case["default"] is None else written[case["default"]]
    shape = {"options": [{"kind": kind, "values": case["pool"]}], "plugins": 1, "shared": False, "via": "component"}
    classes, outputs, use = plugins(shape, [name], [default])
    cls = kit.make_component(kit.unique("Comp"), classes)
    pars = {"c_rate": 1.0, "s0": 0.5, "s1": -0.25, "s2": 2.0, name + "_sigma": -1.5}
    x = np.arange(4) * 0.5
    current = None if case["default"] is None else {k: case["default"] for k in ["Alpha", "beta", "gamma", "none"]}
    built, kept, changes = [], {}, 0

    def verify(component, v, llh, when):
        if llh == "none":
            got = component(kit.key_of(1), pars, 4)[1]
        else:
            got = component.simulate(kit.key_of(1), 4, pars)[1][0]
        e = reference(kind, v, x, pars, name) + 0 * x
        require(kit.close(got, e, 1e-5, 1e-4), "{} {}: {} instead of {}", llh, when, np.asarray(got).tolist(), e.tolist())
        rec.checked()

    for op in case["ops"]:
        if op[0] == "set":
            llhs = ["Alpha", "beta", "gamma"]
            if op[1] == "global":
                new = written[op[2][0]]
                current = {k: op[2][0] for k in llhs + ["none"]}
            else:
                keys = llhs if op[1] == "llh" else llhs[:2]
                new = {k: written[i] for k, i in zip(keys, op[2])}
                current = dict(zip(keys, op[2]))
            apt.set_global_config({name: new})
            changes += 1
            continue
        llh = op[1]
        index = None if current is None else current.get(llh)
        if llh == "none" and index is not None and kind == "sigma" and any(b[2] != "none" for b in built):
            continue  # the median, lower and upper maps are given per likelihood by now
        # the name of a likelihood may be used again after this
        kit.forget_functions()
        try:
            if llh == "none":
                # a plugin on its own belongs to no likelihood
                component = classes[0]()
            elif llh in kept and case["same"]:
                component = kept[llh]
                component.deduce(data_names=outputs, func_name=f"{llh}_sim")
                component.compile()
                built = [b for b in built if b[0] is not component]
            else:
                component = make(shape, cls, llh, outputs)
        except ValueError:
            require(index is None, "{} is refused although its value is {}", llh, current)
            rec.checked()
            continue
        require(index is not None, "{} is built although there is no value for it", llh)
        kept[llh] = component
        built.append((component, case["pool"][index], llh))
        verify(*built[-1], "when built")
    for b in built:
        verify(*b, "in the end")
    rec.nontrivial(changes and len(built) > 1)
    rec.label(kind, "same" if case["same"] else "new")


PARTS = {"resolve": resolve, "bad": bad, "again": again}


def run(check, only=None):
    if only in (None, "resolve"):
        for how in ("llh", "global", None):
            check.search("resolve", cases(how=how), resolve, check.n(16, 500), salt=str(how))
    if only in (None, "bad"):
        check.search("bad", bad_cases(), bad, check.n(50, 800))
    if only in (None, "again"):
        check.search("again", again_cases(), again, check.n(60, 1500))
    check.assumptions += ["up to three likelihoods and three options; file names are not given as constants"]
