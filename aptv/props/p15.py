"""P15: maps with uncertainty move linearly from median to their bounds."""

import os

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import require
from aptv.props import p13, p14

RULE = "median, lower and upper map differ and the scaler is neither zero nor plus or minus one"


@st.composite
def cases(draw, spec=None):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    grid = draw(st.booleans())
    maps = [draw(p14.cases(dim=draw(st.sampled_from([1, 2])), method="LERP") if grid else p13.cases(method="LERP"))]
    for _ in range(2):
        other = dict(maps[0])
        name = "values" if grid else "y"
        old = np.asarray(maps[0][name])
        other[name] = np.float32(old + rng.choice([0, 1, -1, 0.01]) * rng.uniform(0, 1, old.shape) * max(np.abs(old).max(), 1e-6)).astype(float).tolist()
        maps.append(other)
    return {
        "maps": maps,
        "grid": grid,
        "method": draw(st.sampled_from(["IDW", "LERP", "NN"])),
        "spec": spec or draw(st.sampled_from(["four", "three", "one"])),
        "given": draw(st.sampled_from(["default", "global", "llh"])),
        "scalers": [0.0, 1.0, -1.0, float(rng.uniform(0, 1)), float(-rng.uniform(0, 1)), float(rng.normal(0, 3))],
        "scaler": draw(st.sampled_from(["my_scaler", "x_sigma", "a"])),
        "array": draw(st.booleans()),
    }


def values(m, case, *args):
    pos = np.float32(case["maps"][0]["pos"])
    if case["grid"] and pos.shape[1] == 1:
        pos = pos[:, 0]
    return np.asarray(m.apply(pos, *args), dtype=float)


def maps(case, rec):
    import appletree as apt
    from jax import numpy as jnp

    kit.reset()
    build = p14.build if case["grid"] else p13.build
    single = []
    for i, c in enumerate(case["maps"]):
        single.append(values(build(dict(c, method=case["method"]), f"map{i}.json"), case))
    # pairwise distinct names even if the configurations are equal
    paths = [f"map{i}.json" for i in range(3)]
    name = kit.unique("sigma_map")
    spec = {"four": paths + [case["scaler"]], "three": paths, "one": paths[0]}[case["spec"]]
    default = "map2.json"
    if case["given"] == "default":
        default = spec
    elif case["given"] == "global":
        apt.set_global_config({name: spec})
    else:
        apt.set_global_config({name: {"llh": spec, "other": paths[1]}})
    m = apt.SigmaMap(method=case["method"], name=name, default=default)
    m.build(llh_name="llh")
    expected_name = {"four": case["scaler"], "three": name + "_sigma", "one": None}[case["spec"]]
    require(m.required_parameter() == expected_name, "the scaler is {} instead of {}", m.required_parameter(), expected_name)
    require(m.required_parameter("llh") == expected_name, "the scaler is {} instead of {}", m.required_parameter("llh"), expected_name)
    median, lower, upper = single
    scale = np.abs(single).max(axis=0) + 1e-30
    for s in case["scalers"]:
        if case["spec"] == "one":
            pars = {"unused": 3.0}
            expected = median
        else:
            pars = {expected_name: jnp.asarray(s, dtype=float) if case["array"] else s}
            # other names must not matter
            for other in ("my_scaler", "x_sigma", "a", name + "_sigma"):
                pars.setdefault(other, 77.0)
            expected = median + (s * (upper - median) if s > 0 else s * (median - lower))
        got = values(m, case, pars)
        require(got.shape == median.shape, "{} values for {} positions", got.shape, median.shape)
        bad = np.abs(got - expected) > 1e-5 * scale * (1 + abs(s))
        if bad.any():
            i = np.argmax(bad)
            require(False, "{} with scaler {}, median {} lower {} upper {}", got[i], s, median[i], lower[i], upper[i])
    rec.checked(len(case["scalers"]))
    rec.nontrivial(case["spec"] != "one" and np.any(upper != median) and np.any(lower != median) and np.any(upper != lower))
    rec.label(case["spec"], case["given"], "grid" if case["grid"] else "point", case["method"])


@st.composite
def bad_cases(draw):
    return {
        "bad": draw(st.sampled_from(["too long", "too short", "number", "missing file", "dict default", "conflict", "long default", "other llh"])),
        "extra": draw(st.integers(1, 4)),
        "short": draw(st.integers(0, 2)),
        "which": draw(st.integers(0, 2)),
        "relative": draw(st.booleans()),
        "given": draw(st.sampled_from(["default", "global", "llh"])),
    }


def bad(case, rec):
    import appletree as apt

    kit.reset()
    paths = [kit.point_map(f"m{i}.json", [0, 1, 2], [i, 2 * i, 3]) for i in range(3)]
    name = kit.unique("sigma_map")
    default, given = paths[0], None
    kind = case["bad"]
    if kind == "too long":
        given = paths + ["scaler"] + ["more"] * case["extra"]
    elif kind == "too short":
        given = paths[: case["short"]]
    elif kind == "number":
        given = 3
    elif kind == "missing file":
        given = list(paths)
        given[case["which"]] = "there_is_no_such_file.json"
    elif kind == "dict default":
        require(kit.refused(apt.SigmaMap, name=name, default={"llh": paths}), "a dictionary was accepted as default")
        rec.checked()
        return
    elif kind == "conflict":
        # the median is used on its own, with another file
        i = case["which"]
        names = [os.path.basename(p) if case["relative"] else p for p in paths]
        for given, other in [("llh", "llh"), ("global", "llh"), ("llh", "global"), ("global", "global")]:
            for j in (i, i - 1):
                kit.reset()
                name = kit.unique("sigma_map")
                sub = f"{name}_{['median', 'lower', 'upper'][i]}"
                apt.set_global_config({name: {"llh": names} if given == "llh" else names})
                apt.set_global_config({sub: {"llh": names[j]} if other == "llh" else names[j]})
                m = apt.SigmaMap(name=name, default=paths[0])
                require(
                    kit.refused(m.build, llh_name="llh") == (i != j),
                    "{} given {} and {} given {} are {}",
                    names,
                    given,
                    names[j],
                    other,
                    "accepted" if i != j else "refused",
                )
                rec.checked()
        rec.nontrivial()
        rec.label(kind)
        return
    elif kind == "long default":
        apt.set_global_config({name: paths})
        default = paths + ["scaler", "more"]
    elif kind == "other llh":
        apt.set_global_config({name: {"other": paths}})
    if given is not None:
        if case["given"] == "default":
            default = given
        else:
            try:
                apt.set_global_config({name: given if case["given"] == "global" else {"llh": given}})
            except Exception:
                rec.checked()
                return
    m = apt.SigmaMap(name=name, default=default)
    require(kit.refused(m.build, llh_name="llh"), "a specification that is bad ({}) was accepted", kind)
    rec.checked()
    rec.nontrivial()
    rec.label(kind)


PARTS = {"maps": maps, "bad": bad}


def run(check, only=None):
    if only in (None, "maps"):
        for spec in ("four", "three", "one"):
            check.search("maps", cases(spec=spec), maps, check.n(70 if spec != "one" else 40, 2500), salt=spec)
    if only in (None, "bad"):
        check.search("bad", bad_cases(), bad, check.n(100, 1000))
    check.assumptions += ["one-dimensional point maps and one- and two-dimensional grids"]
