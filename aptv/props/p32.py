"""P32: configuration bookkeeping and option reports are truthful."""

import os
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from aptv import graphs, kit
from aptv.harness import require

RULE = "an option is given to a needed plugin and another option is not used, or a fraction at a limit"

KINDS = ["constant", "constant", "set", "map", "sigma"]


@st.composite
def cases(draw):
    spec = draw(graphs.graph(params=False, custom_nodep=False))
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    n = rng.randint(1, 7)
    options = [{"name": f"opt{i}", "kind": str(rng.choice(KINDS)), "given": str(rng.choice(["no", "global", "likelihood"]))} for i in range(n)]
    for p in spec["plugins"]:
        p["options"] = [int(i) for i in range(n) if rng.rand() < 0.4]
    names = [x for x in spec["names"] if x != "eff"]
    return {
        "spec": spec,
        "options": options,
        "unknown": [[f"unknown{i}", str(rng.choice(["number", "list", "path", "dict"]))] for i in range(rng.randint(0, 3))],
        "request": [str(x) for x in rng.permutation(names)[: rng.randint(1, 4)]],
        "with_eff": bool(rng.rand() < 0.7),
        "in_context": bool(rng.rand() < 0.5),
        "second": bool(rng.rand() < 0.5),
        "seed": int(rng.randint(2**31)),
    }


def unused_reported():
    from appletree.utils import check_unused_configs

    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        check_unused_configs()
    result = set()
    for w in caught:
        result |= set(re.findall(r"'([^']*)'", str(w.message)))
    return result, len(caught)


def option(kind, name, default):
    import appletree as apt

    if kind == "constant":
        return apt.Constant(name=name, type=float, default=default)
    if kind == "set":
        return apt.ConstantSet(name=name, default=default)
    if kind == "map":
        return apt.Map(name=name, default=default, method="LERP")
    return apt.SigmaMap(name=name, default=default, method="LERP")


def value_of(kind, rng, folder):
    if kind == "constant":
        return float(rng.randint(1, 99))
    if kind == "set":
        return [["u", "v"], [[float(rng.randint(9)), 1.0], [2.0, 3.0]]]
    path = kit.point_map(os.path.join(folder, kit.unique("map") + ".json"), [0, 1, 2], rng.rand(3))
    if kind == "map":
        return path
    if rng.rand() < 0.3:
        return path
    return [path, path, path] + (["scaler"] if rng.rand() < 0.3 else [])


def options(case, rec):
    import appletree as apt

    kit.reset()
    rng = np.random.RandomState(case["seed"])
    spec = case["spec"]
    folder = os.getcwd()
    llh = kit.unique("llh")
    defaults = [value_of(o["kind"], rng, folder) for o in case["options"]]
    given = {}
    effective, effective_other = [], []
    for o, default in zip(case["options"], defaults):
        value = other = value_of(o["kind"], rng, folder)
        if o["given"] == "global":
            given[o["name"]] = value
        elif o["given"] == "likelihood":
            other = value_of(o["kind"], rng, folder)
            given[o["name"]] = {llh: value, "another": other} if rng.rand() < 0.5 else {"another": other, llh: value}
        else:
            value = other = default
        effective.append(value)
        effective_other.append(other)
    for name, kind in case["unknown"]:
        given[name] = {
            "number": 1.5,
            "list": [1, 2],
            "path": kit.point_map(f"{name}.json", [0, 1], [1, 2]),
            "dict": {llh: 1.0},
        }[kind]
    configs = {
        p["id"]: [option(case["options"][i]["kind"], case["options"][i]["name"], defaults[i]) for i in p["options"]]
        for p in spec["plugins"]
    }
    classes = graphs.build(spec, kit.unique("O"), configs=configs)
    names = case["request"] + ["eff"]
    used, _ = graphs.needed(spec, names)
    name = kit.unique("Opt")
    cls = kit.make_component(name, classes)
    if case["in_context"]:
        outputs = case["request"][:2]
        used, _ = graphs.needed(spec, outputs + ["eff"])
        csv = kit.write_csv(f"{llh}.csv", {x: [1.0, 2.0, 3.0] for x in outputs})
        instruct = {
            "configs": given,
            "likelihoods": {
                llh: {
                    "components": {"comp": name},
                    "copy_parameters": {},
                    "data_file_name": csv,
                    "bins_type": "meshgrid",
                    "bins_on": outputs,
                    "bins": [3] * len(outputs),
                    "clip": [0, 5],
                    "x_clip": [0, 5],
                    "y_clip": [0, 5],
                }
            },
        }
        component = apt.Context(instruct, par_config={})[llh]["comp"]
        request = outputs + ["eff"]
    else:
        component = cls(llh_name=llh)
        component.set_config(given)
        component.deduce(data_names=case["request"])
        component.compile()
        request = names
    needed_options = {i for p in spec["plugins"] if p["id"] in used for i in p["options"]}
    used_names = {case["options"][i]["name"] for i in needed_options}
    expected = set(given) - used_names
    reported, n = unused_reported()
    require(reported == expected, "reports {} as unused instead of {}", sorted(reported), sorted(expected))
    require((n > 0) == bool(expected), "{} warnings for {} unused options", n, len(expected))
    rec.checked(2)

    # the table, also after the same component was built for another likelihood
    if not case["with_eff"]:
        request = request[:-1]
        used, _ = graphs.needed(spec, request)
    tables = [(component, effective)]
    if case["second"]:
        second = cls(llh_name="another")
        # what the first one uses
        second.deduce(data_names=case["request"][:2] if case["in_context"] else case["request"])
        second.compile()
        tables.append((second, effective_other))
        rec.label("two likelihoods")
    rows = []
    for p in spec["plugins"]:
        if p["id"] in used:
            for i in p["options"]:
                rows.append((tuple(p["provides"]), case["options"][i]["name"], i))
    index = {o["name"]: i for i, o in enumerate(case["options"])}
    for shown, values in tables:
        table = shown.show_config(data_names=request)
        got = [(tuple(a), b) for a, b in zip(table["applies_to"], table["option"])] if len(table) else []
        require(sorted(got) == sorted(r[:2] for r in rows), "table rows {} instead of {}", sorted(got), sorted(r[:2] for r in rows))
        for k in range(len(table)):
            row = table.iloc[k]
            i = index[row["option"]]
            require(row["default"] == defaults[i], "default {} of {} instead of {}", row["default"], row["option"], defaults[i])
            require(row["current"] == values[i], "value {} of {} instead of {}", row["current"], row["option"], values[i])
            rec.checked(2)
    after, _ = unused_reported()
    require(after == expected, "showing the options changed what is unused to {}", sorted(after))
    rec.nontrivial(expected and set(given) & used_names)
    rec.label("context" if case["in_context"] else "component", f"{min(len(rows), 5)} rows", f"{min(len(expected), 3)} unused")


def gpu(case, rec):
    import appletree as apt

    before = os.environ.get("XLA_PYTHON_CLIENT_MEM_FRACTION")
    try:
        os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = "untouched"
        fraction = case["fraction"]
        if fraction <= 0:
            require(kit.refused(apt.utils.set_gpu_memory_usage, fraction), "accepts the fraction {}", fraction)
            require(os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] == "untouched", "set for a refused fraction")
        else:
            apt.utils.set_gpu_memory_usage(fraction)
            value = os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"]
            require(re.fullmatch(r"0?\.\d\d?", value) is not None, "the fraction is written as {}", value)
            number = float(value)
            require(0 < number < 1, "sets {} for {}", number, fraction)
            closest = min(max(fraction, 0.01), 0.99)
            require(abs(number - closest) <= 0.005 + 1e-9, "sets {} for {}", number, fraction)
        rec.checked(2)
        rec.nontrivial(fraction <= 0.01 or fraction >= 0.985 or abs(fraction * 100 % 1 - 0.5) < 0.01 or fraction < 0.1)
    finally:
        if before is None:
            os.environ.pop("XLA_PYTHON_CLIENT_MEM_FRACTION", None)
        else:
            os.environ["XLA_PYTHON_CLIENT_MEM_FRACTION"] = before


PARTS = {"options": options, "gpu": gpu}


def run(check, only=None):
    check.assumptions = ["an option counts as used if a plugin that declares it is needed; url_base is not among the generated options"]
    if only in (None, "options"):
        check.search("options", cases(), options, check.n(300, 5000))
    if only in (None, "gpu"):
        check.sweep("gpu", [{"fraction": i / 1000} for i in range(-20, 1300, 1 if check.tier == "thorough" else 3)], gpu)
        fractions = st.one_of(st.floats(-2, 2), st.sampled_from([0.0, -0.0, 1e-300, 0.005, 0.994999, 0.995, 1.0, 5.0, 1]))
        check.search("gpu", st.fixed_dictionaries({"fraction": fractions}), gpu, check.n(200, 5000))
