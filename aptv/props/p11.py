"""P11: the parameter manager behaves like a dictionary with a fixed set of names."""

import copy

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import require

RULE = "a history with at least four operations, among them a refused one and an accepted one that changes values"

NAMES = ["w", "g1", "py0", "a_rate", "B", "b_rate", "z1"]
UNKNOWN = ["zz", "W", "g", "py", ""]


@st.composite
def configuration(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True))
    config = {}
    for i, name in enumerate(names):
        kind = draw(st.sampled_from(["norm", "uniform", "free", "fixed", "twohalfnorm"]))
        mean = float(draw(st.integers(-20, 20)))
        width = draw(st.sampled_from([0.5, 2.0]))
        config[name] = {
            "prior_type": kind,
            "prior_args": {
                "norm": {"mean": mean, "std": width},
                "uniform": {"lower": mean, "upper": mean + width},
                "free": {},
                "fixed": {"val": mean + 0.25},
                "twohalfnorm": {"mu": mean, "sigma_pos": width, "sigma_neg": 1.0},
            }[kind],
            "allowed_range": [mean - 10.0, mean + 10.0],
            "init_mean": mean,
            "init_std": width,
            "unit": "1",
            "doc": "",
        }
    return config


VALUES = st.one_of(st.integers(-50, 50), st.floats(-100, 100, allow_nan=False))
ANY_NAMES = NAMES + UNKNOWN


def pick(draw, names, valid_bias=3):
    """A list of names, mostly valid ones."""
    good = draw(st.lists(st.sampled_from(names), min_size=0, max_size=5))
    if draw(st.integers(0, valid_bias)) == 0:
        good.insert(draw(st.integers(0, len(good))), draw(st.sampled_from(ANY_NAMES)))
    return good


@st.composite
def operation(draw, names):
    op = draw(
        st.sampled_from(
            ["set_str", "set_list", "set_dict", "set_list", "get", "getitem", "sample_prior", "sample_init",
             "exist", "set_bad_kind", "get_bad_kind", "set_bad_value", "fit", "reset", "attributes"]
        )
    )  # fmt: skip
    if op == "set_str":
        return [op, draw(st.sampled_from(names + [draw(st.sampled_from(ANY_NAMES))])), draw(VALUES)]
    if op in ("set_list", "set_dict"):
        keys = pick(draw, names)
        values = draw(st.lists(VALUES, min_size=len(keys), max_size=len(keys)))
        if op == "set_dict":
            return [op, [[k, v] for k, v in dict(zip(keys, values)).items()]]
        if draw(st.integers(0, 4)) == 0:
            values = values + [1.0] if draw(st.booleans()) else values[:-1]
        return [op, keys, values, draw(st.sampled_from(["list", "array"]))]
    if op in ("get", "getitem"):
        kind = draw(st.sampled_from(["str", "list", "set"]))
        keys = pick(draw, names) or [names[0]]
        return [op, kind, keys if kind != "str" else keys[0]]
    if op == "exist":
        kind = draw(st.sampled_from(["str", "list", "set", "dict"]))
        keys = pick(draw, names, 1) or [draw(st.sampled_from(ANY_NAMES))]
        return [op, kind, keys if kind != "str" else keys[0]]
    if op in ("sample_prior", "sample_init", "reset"):
        return [op, draw(st.integers(0, 10000))]
    if op in ("set_bad_kind", "get_bad_kind"):
        return [op, draw(st.sampled_from(["tuple", "int", "none", "bytes", "set"])), draw(st.sampled_from(names))]
    if op == "set_bad_value":
        return [op, draw(st.sampled_from(names)), draw(st.sampled_from(["text", "none", "list"]))]
    return [op]


@st.composite
def cases(draw):
    config = draw(configuration())
    names = sorted(config)
    ops = draw(st.lists(operation(names), min_size=3, max_size=25))
    return {"config": config, "ops": ops, "from_file": draw(st.booleans())}


def history(case, rec):
    import appletree as apt

    config = case["config"]
    given = copy.deepcopy(config)
    if case["from_file"]:
        manager = apt.Parameter(kit.write_json("parameters.json", given))
    else:
        manager = apt.Parameter(given)
    model = dict(manager.get_all_parameter())
    fit = sorted(k for k, v in config.items() if v["prior_type"] != "fixed")
    accepted = refused = 0

    def compare(where):
        actual = manager.get_all_parameter()
        require(set(actual) == set(config), "after {} the names are {}", where, sorted(actual))
        for k, v in model.items():
            require(actual[k] == v, "after {} {} is {} instead of {}", where, k, actual[k], v)
        require(list(manager.parameter_fit) == fit, "fitted names {} instead of {}", manager.parameter_fit, fit)
        require(given == config, "the configuration of the caller was modified by {}", where)
        rec.checked()

    def fixed_ok(where):
        for k, v in config.items():
            value = manager.get_all_parameter()[k]
            if v["prior_type"] == "fixed":
                require(value == v["prior_args"]["val"], "{} sets fixed {} to {}", where, k, value)
            else:
                lo, hi = v["allowed_range"]
                require(lo <= value <= hi, "{} sets {} to {} outside its range", where, k, value)

    compare("creation")
    fixed_ok("creation")
    for op in case["ops"]:
        kind = op[0]
        if kind == "set_str":
            ok = op[1] in config
            call = lambda: manager.set_parameter(op[1], op[2])
            update = {op[1]: op[2]}
        elif kind == "set_list":
            ok = all(k in config for k in op[1]) and len(op[1]) == len(op[2])
            values = np.array(op[2], dtype=float) if op[3] == "array" else op[2]
            call = lambda: manager.set_parameter(list(op[1]), values)
            update = dict(zip(op[1], op[2]))
        elif kind == "set_dict":
            ok = all(k in config for k, _ in op[1])
            call = lambda: manager.set_parameter(dict(map(tuple, op[1])))
            update = dict(map(tuple, op[1]))
        elif kind == "set_bad_kind":
            bad = {"tuple": (op[2],), "int": 3, "none": None, "bytes": b"x", "set": {op[2]}}[op[1]]
            ok, update = False, {}
            call = lambda: manager.set_parameter(bad, [1.0])
        elif kind == "get_bad_kind":
            if op[1] == "set":
                continue
            bad = {"tuple": (op[2],), "int": 3, "none": None, "bytes": b"x"}[op[1]]
            ok, update = False, {}
            call = lambda: (manager.get_parameter(bad))
        elif kind == "set_bad_value":
            ok, update = False, {}
            call = lambda: manager.set_parameter(op[1], {"text": "1.0", "none": None, "list": [1.0]}[op[2]])
        elif kind in ("get", "getitem"):
            keys = op[2] if op[1] != "set" else set(op[2])
            get = manager.get_parameter if kind == "get" else manager.__getitem__
            listed = [op[2]] if op[1] == "str" else op[2]
            if not all(k in config for k in listed):
                require(kit.refused(get, keys), "getting {} was accepted", keys)
                refused += 1
            else:
                got = get(keys)
                if op[1] == "str":
                    require(got == model[op[2]], "{} is {} instead of {}", op[2], got, model[op[2]])
                elif op[1] == "list":
                    require(len(got) == len(op[2]), "{} values for {}", len(got), op[2])
                    require(list(got) == [model[k] for k in op[2]], "values {} for {}", list(got), op[2])
                else:
                    require(sorted(got) == sorted(model[k] for k in keys), "values {} for {}", got, keys)
            compare(kind)
            continue
        elif kind == "exist":
            names = [op[2]] if op[1] == "str" else op[2]
            keys = {"str": op[2], "list": list(names), "set": set(names), "dict": dict.fromkeys(names, 1)}[op[1]]
            unknown = [k for k in names if k not in config]
            require(manager.check_parameter_exist(keys) == (not unknown), "existence of {}", keys)
            exist, missing = manager.check_parameter_exist(keys, return_not_exist=True)
            require(exist == (not unknown), "existence of {}", keys)
            if op[1] != "str":
                require(set(missing) == set(unknown), "unknown names {} instead of {}", missing, unknown)
            elif unknown:
                require(missing == op[2], "unknown name {} instead of {}", missing, op[2])
            compare(kind)
            continue
        elif kind in ("sample_prior", "sample_init", "reset"):
            if kind == "reset":
                manager.init_parameter(seed=op[1])
                model = dict(manager.get_all_parameter())
                manager.set_parameter({k: v + 1.0 for k, v in model.items()})
                manager.init_parameter(seed=op[1])
            else:
                values = []
                for _ in range(2):
                    np.random.seed(op[1])
                    getattr(manager, kind)()
                    values.append(dict(manager.get_all_parameter()))
                require(values[0] == values[1], "{} with the same seed differs", kind)
                model = values[1]
            if kind == "reset":
                require(dict(manager.get_all_parameter()) == model, "reset with the same seed differs")
            fixed_ok(kind)
            accepted += 1
            compare(kind)
            continue
        elif kind == "fit":
            got = manager.parameter_fit_array
            require([float(v) for v in got] == [float(model[k]) for k in fit], "fit array {}", list(got))
            continue
        else:
            continue
        if ok:
            call()
            model.update(update)
            accepted += bool(update)
        else:
            require(kit.refused(call), "operation {} was accepted", op)
            refused += 1
        compare(op)
    rec.nontrivial(len(case["ops"]) >= 4 and accepted and refused)
    rec.label(f"{len(case['ops']) // 5 * 5}+ operations")


PARTS = {"history": history}


def run(check, only=None):
    check.search("history", cases(), history, check.n(600, 15000))
    check.assumptions += ["configurations of up to six parameters, histories of up to 25 operations"]
