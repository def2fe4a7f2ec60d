"""P21 Lineage identifies what was run, and only that."""

import copy
import hashlib
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import REPO, ROOT, HarnessError, quiet, require

RULE = (
    "a case is non-trivial if its context has a component with at least two configured plugins and, for the difference "
    "part, if the single change applies to something that is used"
)

METHODS = ["IDW", "NN", "LERP"]


# ---------------------------------------------------------------------- specifications
def draw_spec(seed):
    """Random instructions as plain data: files, plugins, components, likelihoods, configuration."""
    rng = np.random.default_rng(seed)
    tag = f"S{seed}"
    spec = {"tag": tag, "files": {}, "configs": {}, "components": {}, "llhs": {}, "par_argument": bool(rng.random() < 0.5)}

    def values(n=4):
        return [round(float(v), 3) for v in rng.uniform(0.5, 2, n)]

    for i in range(6):
        spec["files"][f"m{i}.json"] = {
            "coordinate_type": "point" if rng.random() < 0.7 else "log_point",
            "coordinate_name": "x",
            "coordinate_system": sorted(values()),
            "map": values(),
        }
    maps = list(spec["files"])
    names = [f"llh{i}" for i in range(int(rng.integers(1, 4)))]
    for c in range(2):
        spec["components"][f"Comp{c}"] = {
            "method": [METHODS[int(rng.integers(3))] for _ in range(2)],
            "uses": [bool(rng.random() < 0.8) for _ in range(5)],
            "norm_type": ["on_pdf", "on_sim"][int(rng.integers(2))],
            "swap": bool(rng.random() < 0.4),
            "defaults": {
                "c1": values(1)[0],
                "c2": int(rng.integers(1, 9)),
                "m1": str(rng.choice(maps)),
                "s1": [str(m) for m in rng.choice(maps, 3)],
                "cs": [["mu", "w"], [values(2), values(2)]],
            },
        }
    # both components share the option names; those need the same defaults
    spec["components"]["Comp1"]["defaults"] = spec["components"]["Comp0"]["defaults"]

    def option(name):
        if name == "c1":
            return values(1)[0]
        if name == "c2":
            return int(rng.integers(1, 9))
        if name == "m1":
            return str(rng.choice(maps))
        if name == "s1":
            kind = int(rng.integers(3))
            if kind == 0:
                return str(rng.choice(maps))
            return [str(m) for m in rng.choice(maps, 3)] + ([f"scale{int(rng.integers(3))}"] if kind == 1 else [])
        return [["mu", "w"], [values(2), values(2)]]

    for name in ["c1", "c2", "m1", "s1", "cs"]:
        how = int(rng.integers(4))
        if how == 1:
            spec["configs"][name] = option(name)
        elif how > 1:
            spec["configs"][name] = {n: option(name) for n in names}
    for i, n in enumerate(names):
        if i == 2:
            spec["llhs"][n] = {
                "type": "LikelihoodLit",
                "variable_type": "norm",
                "bins_on": ["x", "y"],
                "bins": None,
                "logpdf_args": [["loc", "scale"], [values(1), values(1)]],
                "copy_parameters": {},
                "parameter_alias": {},
                "components": {"lit": "Comp0"},
            }
            continue
        spec["files"][f"data{i}.csv"] = [[round(float(v), 3) for v in rng.uniform(0.1, 0.9, 2)] for _ in range(20)]
        spec["files"][f"fixed{i}.csv"] = [[round(float(v), 3) for v in rng.uniform(0.1, 0.9, 2)] for _ in range(12)]
        two = rng.random() < 0.6
        kind = ["equiprob", "irreg", "meshgrid"][int(rng.integers(3))]
        llh = {"data_file_name": f"data{i}.csv", "bins_type": kind, "copy_parameters": {}, "parameter_alias": {}}
        if two:
            llh.update(bins_on=["x", "y"], x_clip=[0, 1], y_clip=[0, 1])
            llh["bins"] = {
                "equiprob": [2, 3],
                "irreg": [[0.0, 0.5, 1.0], [[0.0, 0.25, 1.0], [0.0, 0.5, 1.0]]],
                "meshgrid": [2, 2],
            }[kind]
        else:
            llh.update(bins_on=str(rng.choice(["x", "y"])), clip=[0, 1])
            llh["bins"] = {"equiprob": 3, "irreg": [[0.0, 0.25, 0.5, 1.0]], "meshgrid": 3}[kind]
        comps = {f"sim{i}": str(rng.choice(["Comp0", "Comp1"]))}
        if rng.random() < 0.5:
            comps[f"other{i}"] = str(rng.choice(["Comp0", "Comp1"]))
        if rng.random() < 0.6:
            comps[f"fix{i}"] = {"component_cls": "Fixed", "file_name": f"fixed{i}.csv"}
        llh["components"] = comps
        if rng.random() < 0.3:
            llh["parameter_alias"] = {f"alias{i}_rate": f"sim{i}_rate"}
        if rng.random() < 0.2 and f"other{i}" in comps:
            llh["copy_parameters"] = {f"other{i}_rate": f"total{i}_rate"}
        spec["llhs"][n] = llh
    pars = {}
    for i, (n, llh) in enumerate(spec["llhs"].items()):
        for c in llh["components"]:
            pars[c + "_rate"] = values(1)[0]
        for k in llh["parameter_alias"]:
            pars[k] = values(1)[0]
        for v in llh["copy_parameters"].values():
            pars[v] = values(1)[0]
    for k in ["scale0", "scale1", "scale2", "s1_sigma", "w1"]:
        pars[k] = values(1)[0]
    spec["pars"] = pars
    return spec


def write_files(spec, folder):
    import pandas as pd

    os.makedirs(folder, exist_ok=True)
    for name, content in spec["files"].items():
        path = os.path.join(folder, name)
        if name.endswith(".json"):
            kit.write_json(path, content)
        else:
            pd.DataFrame(np.array(content), columns=["x", "y"]).to_csv(path, index=False)


def define(spec, folder):
    """Register the plugins and components of the specification."""
    import appletree as apt
    import jax.numpy as jnp

    tag = spec["tag"]

    def path(x):
        return os.path.join(folder, x) if isinstance(x, str) else [path(v) for v in x]

    for c, s in spec["components"].items():
        d = s["defaults"]
        u = s["uses"]

        def body_x(self, key, parameters, batch_size):
            return key, jnp.full(batch_size, 0.5)

        def body_y(self, key, parameters, x):
            return key, x

        def body_e(self, key, parameters, x, y):
            return key, jnp.ones(len(x)), x

        cfg_x = [apt.Constant(name="c1", type=float, default=d["c1"])] if u[0] else []
        cfg_x += [apt.Map(name="m1", method=s["method"][0], default=path(d["m1"]))] if u[1] else []
        cfg_y = [apt.SigmaMap(name="s1", method=s["method"][1], default=path(d["s1"]))] if u[2] else []
        cfg_y += [apt.ConstantSet(name="cs", default=d["cs"])] if u[3] else []
        cfg_e = [apt.Constant(name="c2", type=int, default=d["c2"])] if u[4] else []
        px = kit.make_plugin(f"{c}X{tag}", ["batch_size"], ["x"], body_x, configs=cfg_x)
        py = kit.make_plugin(f"{c}Y{tag}", ["x"], ["y"], body_y, configs=cfg_y, parameters=("w1",))
        depends = ["y", "x"] if s["swap"] else ["x", "y"]
        pe = kit.make_plugin(f"{c}E{tag}", depends, ["eff", "energy"], body_e, configs=cfg_e)
        kit.make_component(c + tag, [px, py, pe], norm_type=s["norm_type"])
    kit.make_fixed("Fixed" + tag)


def instructions(spec, folder):
    """The instructions a user would write for this specification."""

    def path(x, name):
        if name == "s1" and isinstance(x, list):
            return [os.path.join(folder, v) for v in x[:3]] + x[3:]
        if isinstance(x, dict):
            return {k: path(v, name) for k, v in x.items()}
        return os.path.join(folder, x) if isinstance(x, str) else copy.deepcopy(x)

    instruct = {"configs": {k: path(v, k) for k, v in spec["configs"].items()}, "likelihoods": {}}
    for n, llh in spec["llhs"].items():
        llh = copy.deepcopy(llh)
        if "data_file_name" in llh:
            llh["data_file_name"] = os.path.join(folder, llh["data_file_name"])
        for k, v in llh["components"].items():
            if isinstance(v, dict):
                v["component_cls"] += spec["tag"]
                v["file_name"] = os.path.join(folder, v["file_name"])
            else:
                llh["components"][k] = v + spec["tag"]
        instruct["likelihoods"][n] = llh
    pars = {k: kit_parameter(v) for k, v in spec["pars"].items()}
    if not spec["par_argument"]:
        instruct["par_config"] = kit.write_json(os.path.join(folder, "pars.json"), pars)
        return instruct, None
    return instruct, pars


def kit_parameter(v):
    return {
        "prior_type": "norm",
        "prior_args": {"mean": v, "std": 0.1},
        "allowed_range": [0, 10],
        "init_mean": v,
        "init_std": 0.05,
        "unit": "1",
        "doc": "",
    }


def build(spec, folder):
    import appletree as apt

    instruct, pars = instructions(spec, folder)
    with quiet():
        return apt.Context(instruct, par_config=pars)


def hashes(context):
    result = {"context": context.lineage_hash}
    for n, llh in context.likelihoods.items():
        result[n] = llh.lineage_hash
        for c in llh.components:
            result[f"{n}/{c}"] = llh[c].lineage_hash
    return result


def lineages(context):
    result = {"context": context.lineage}
    for n, llh in context.likelihoods.items():
        result[n] = llh.lineage
        for c in llh.components:
            result[f"{n}/{c}"] = llh[c].lineage
    return result


def fresh(spec, folder):
    """As in a new process."""
    kit.reset()
    write_files(spec, folder)
    define(spec, folder)
    return build(spec, folder)


def diff(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def nontrivial(spec):
    return any(sum(s["uses"]) >= 2 for s in spec["components"].values())


# ---------------------------------------------------------------------- same instructions, same lineage
def case_same(seed, rec):
    from appletree.share import set_global_config
    from appletree.utils import dump_lineage, load_json
    from strax import deterministic_hash

    spec = draw_spec(seed)
    rng = np.random.default_rng([seed, 1])
    rec.nontrivial(nontrivial(spec))
    folder = os.path.abspath("same")
    one = fresh(spec, folder)
    before = hashes(one)
    text = json.dumps(plain(lineages(one)), sort_keys=True)
    again = hashes(one)
    require(before == again, "hash changes when asked twice: {}", diff(before, again))

    # written and read back unchanged, on every level
    for name, entity in [("context", one)] + list(one.likelihoods.items()) + [
        (f"{n}/{c}", v) for n, llh in one.likelihoods.items() for c, v in llh.components.items()
    ]:
        file = os.path.abspath("lineage.json")
        dump_lineage(file, entity)
        back = load_json(file)
        require(
            plain(back) == plain(entity.lineage), "the lineage of {} read back from the file differs from what it was", name
        )
        require(deterministic_hash(back) == entity.lineage_hash, "hash of the written lineage of {} differs", name)
        rec.checked(2)

    # the values that the instances use
    effective(spec, folder, one, rec)

    # build other things in between
    other = draw_spec(int(rng.integers(1 << 30)) + (1 << 30))
    how = int(rng.integers(4))
    rec.label(["other context", "other values", "clear cache", "same likelihood names"][how])
    if how == 0:
        fresh(other, os.path.abspath("other"))
    elif how == 1:
        with quiet():
            set_global_config({"c1": 55.0, "c2": 7, "cs": [["mu"], [[9.0]]]})
    elif how == 2:
        from appletree.share import clear_cache

        clear_cache()
    else:
        changed = copy.deepcopy(spec)
        for s in changed["components"].values():
            s["defaults"]["c1"] += 1
            s["uses"] = [not u for u in s["uses"]]
        kit.reset()
        define(changed, folder)
        build(changed, folder)
    after = hashes(one)
    require(before == after, "building something else changed the hashes of {}", diff(before, after))
    require(text == json.dumps(plain(lineages(one)), sort_keys=True), "building something else changed the lineage")
    rec.checked(2)

    two = fresh(spec, folder)
    both = hashes(two)
    require(before == both, "same instructions but different hashes of {}", diff(before, both))
    require(text == json.dumps(plain(lineages(two)), sort_keys=True), "same instructions but different lineages")
    rec.checked(len(both))

    # files that change later, and instructions that are changed later, do not affect what was built
    changed = copy.deepcopy(spec)
    for name in changed["files"]:
        content = changed["files"][name]
        if name.endswith(".json"):
            content["map"] = [v + 1 for v in content["map"]]
        else:
            content[0] = [0.11, 0.12]
    write_files(changed, folder)
    after = hashes(two)
    require(before == after, "files changed after the context was built, and so did the hashes of {}", diff(before, after))

    kit.reset()
    write_files(spec, folder)
    import appletree as apt

    instruct, pars = instructions(spec, folder)
    with quiet():
        three = apt.Context(instruct, par_config=pars)
    instruct["configs"]["c1"] = 77.0
    for llh in instruct["likelihoods"].values():
        llh["bins_type"] = "changed"
    if pars:
        pars["w1"]["allowed_range"][0] = -5
    require(before == hashes(three), "changing the dictionary of instructions later changed the hashes")
    rec.checked(2)


def plain(x):
    """JSON-like view of a lineage: tuples and arrays as lists."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray)):
        return [plain(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def effective(spec, folder, context, rec):
    """The lineage lists the configuration values of this likelihood."""
    for n, llh in context.likelihoods.items():
        def value(name, defaults):
            v = spec["configs"].get(name, defaults[name])
            return v[n] if isinstance(v, dict) else v

        def sha(name):
            with open(os.path.join(folder, name), "rb") as f:
                return hashlib.sha256(f.read()).hexdigest()

        for c, component in llh.components.items():
            lin = component.lineage
            cls = spec["llhs"][n]["components"][c]
            if isinstance(cls, dict):
                require(lin["sha256"] == sha(cls["file_name"]), "hash of the file of {} is wrong", c)
                rec.checked()
                continue
            s = spec["components"][cls]
            taken = {}
            for inst in lin["instances"].values():
                taken.update(inst["takes_config"])
            used = [k for k, u in zip(["c1", "m1", "s1", "cs", "c2"], s["uses"]) if u]
            bins_on = spec["llhs"][n]["bins_on"]
            require(sorted(taken) == sorted(used), "configs {} in the lineage of {} instead of {} ({})", sorted(taken), c, sorted(used), bins_on)
            for k in used:
                v = value(k, s["defaults"])
                got = taken[k]
                if k in ("c1", "c2"):
                    require(got["value"] == v, "{} is {} in the lineage but the component uses {}", k, got["value"], v)
                elif k == "cs":
                    require(plain(got["value"]) == dict(zip(*v)), "{} is {} in the lineage but the component uses {}", k, got["value"], v)
                elif k == "m1":
                    require(got["sha256"] == sha(v) and got["file_path"] == v, "{} is {} in the lineage but the component uses {}", k, got, v)
                    require(got["method"] == s["method"][0], "wrong method in the lineage")
                else:
                    fs = [v] * 3 if isinstance(v, str) else v[:3]
                    for f, part in zip(fs, ["median", "lower", "upper"]):
                        require(got[part]["sha256"] == sha(f) and got[part]["file_path"] == f, "{} is {} in the lineage but the component uses {}", k, got, v)
                rec.checked()
            require(lin["rate_name"] == c + "_rate" and lin["norm_type"] == s["norm_type"], "wrong rate or normalisation in the lineage")


# ---------------------------------------------------------------------- one difference, another hash
CHANGES = [
    "constant", "integer", "set", "map_content", "map_name", "sigma_content", "sigma_scaler", "method", "binning",
    "clip", "data", "fixed_data", "workflow", "norm_type", "prior", "range", "alias", "component", "logpdf", "irrelevant",
]


def users(spec, option, llh=None):
    """Entities that use an option, optionally in one likelihood only."""
    index = ["c1", "m1", "s1", "cs", "c2"].index(option)
    result = set()
    for n, l in spec["llhs"].items():
        if llh is not None and n != llh:
            continue
        for c, cls in l["components"].items():
            if not isinstance(cls, dict) and spec["components"][cls]["uses"][index]:
                result |= {n, f"{n}/{c}", "context"}
    return result


def mutate(spec, kind, rng):
    """(changed specification, entities whose hash has to change, entities whose hash must not change)."""
    s = copy.deepcopy(spec)
    everything = {"context"} | set(s["llhs"]) | {f"{n}/{c}" for n, l in s["llhs"].items() for c in l["components"]}
    llhs = list(s["llhs"])
    n = str(rng.choice(llhs))
    l = s["llhs"][n]
    lit = l.get("type") == "LikelihoodLit"
    comps = {f"{n}/{c}" for c in l["components"]}
    defaults = s["components"]["Comp0"]["defaults"]
    if kind in ("constant", "integer", "set", "map_name", "sigma_scaler"):
        name = {"constant": "c1", "integer": "c2", "set": "cs", "map_name": "m1", "sigma_scaler": "s1"}[kind]

        def new(v):
            if kind == "constant":
                return v + 0.125
            if kind == "integer":
                return v + 1
            if kind == "set":
                v = copy.deepcopy(v)
                v[1][int(rng.integers(2))][int(rng.integers(2))] += 0.125
                return v
            if kind == "map_name":
                s["files"]["copy.json"] = copy.deepcopy(s["files"][v])
                return "copy.json"
            if isinstance(v, str):
                return [v, v, v]
            return v[:3] + ["w1"]

        v = s["configs"].get(name, None)
        if v is None and rng.random() < 0.5 and name != "s1":
            # the default of the option; components are compared with the classes redefined
            for comp in s["components"].values():
                comp["defaults"] = copy.deepcopy(comp["defaults"])
            for comp in s["components"].values():
                comp["defaults"][name] = new(comp["defaults"][name])
            return s, users(spec, name), everything - users(spec, name)
        if isinstance(v, dict):
            v[n] = new(v[n])
            hit = users(spec, name, n)
        else:
            s["configs"][name] = new(defaults[name] if v is None else v)
            hit = users(spec, name)
        return s, hit, everything - hit - {"context"}
    if kind in ("map_content", "sigma_content"):
        name = "m1" if kind == "map_content" else "s1"
        v = s["configs"].get(name, defaults[name])
        v = v[n] if isinstance(v, dict) else v
        f = v if isinstance(v, str) else v[int(rng.integers(3))]
        s["files"][f]["map"][0] += 0.125
        hit = set()
        for m in llhs:
            for option in ("m1", "s1"):
                w = s["configs"].get(option, defaults[option])
                w = w[m] if isinstance(w, dict) else w
                if f == w or (isinstance(w, list) and f in w[:3]):
                    hit |= users(spec, option, m)
        return s, hit, everything - hit
    if kind == "method":
        i = int(rng.integers(2))
        s["components"]["Comp0"]["method"][i] = METHODS[(METHODS.index(s["components"]["Comp0"]["method"][i]) + 1) % 3]
        hit = set()
        if s["components"]["Comp0"]["uses"][1 + i]:
            hit = with_class(s, "Comp0")
        return s, hit, everything - hit
    if kind in ("workflow", "norm_type"):
        comp = s["components"]["Comp0"]
        if kind == "workflow":
            comp["swap"] = not comp["swap"]
        else:
            comp["norm_type"] = "on_sim" if comp["norm_type"] == "on_pdf" else "on_pdf"
        hit = with_class(s, "Comp0")
        return s, hit, everything - hit
    if kind == "binning":
        if lit:
            return None
        if l["bins_type"] == "irreg":
            if isinstance(l["bins_on"], list):
                l["bins"][1][int(rng.integers(2))][1] += 0.01
            else:
                l["bins"][0][int(rng.integers(1, 3))] += 0.01
        elif isinstance(l["bins"], list):
            l["bins"][int(rng.integers(2))] += 1
        else:
            l["bins"] += 1
        hit = comps | {n, "context"}
        return s, hit, everything - hit
    if kind == "clip":
        if lit:
            return None
        k = "clip" if "clip" in l else ["x_clip", "y_clip"][int(rng.integers(2))]
        l[k] = [l[k][0], l[k][1] + 0.5]
        hit = {n, "context"}
        return s, hit, everything - hit - comps
    if kind == "data":
        if lit:
            return None
        s["files"][l["data_file_name"]][3][0] += 0.01
        s["files"][l["data_file_name"]][4][1] += 0.01
        hit = {n, "context"}
        return s, hit, everything - hit - comps
    if kind == "fixed_data":
        fixed = [c for c, v in l["components"].items() if isinstance(v, dict)]
        if not fixed:
            return None
        s["files"][l["components"][fixed[0]]["file_name"]][2][0] += 0.01
        hit = {f"{n}/{c}" for c in fixed} | {n, "context"}
        return s, hit, everything - hit
    if kind in ("prior", "range"):
        # the parameter configuration is changed by `tweak`
        s["tweak"] = kind
        return s, {"context"}, everything - {"context"}
    if kind == "alias":
        if lit:
            return None
        c = list(l["components"])[0]
        l["parameter_alias"] = {} if l["parameter_alias"] else {"w1": c + "_rate"}
        return s, {n, "context"}, everything - {n, "context"}
    if kind == "component":
        c = [c for c, v in l["components"].items() if not isinstance(v, dict)][-1]
        l["components"][c] = "Comp1" if l["components"][c] == "Comp0" else "Comp0"
        hit = {n, f"{n}/{c}", "context"}
        return s, hit, everything - hit
    if kind == "logpdf":
        if not lit:
            return None
        l["logpdf_args"][1][int(rng.integers(2))][0] += 0.125
        return s, {n, "context"}, everything - {n, "context"}
    # a configuration nobody takes
    s["configs"]["nobody_takes_this"] = 3.0
    return s, set(), everything - {"context"}


def with_class(spec, cls):
    result = set()
    for n, l in spec["llhs"].items():
        for c, v in l["components"].items():
            if v == cls:
                result |= {n, f"{n}/{c}", "context"}
    return result


def case_difference(case, rec):
    seed, kind = case
    spec = draw_spec(seed)
    rng = np.random.default_rng([seed, 2])
    changed = mutate(spec, kind, rng)
    if changed is None:
        return
    changed, differ, same = changed
    folder = os.path.abspath("diff")
    before = hashes(fresh(spec, folder))
    tweak = changed.pop("tweak", None)
    if tweak:
        name = str(rng.choice(sorted(spec["pars"])))
        kit.reset()
        write_files(changed, folder)
        define(changed, folder)
        import appletree as apt

        instruct, pars = instructions(changed, folder)
        pars = pars or json.load(open(instruct["par_config"]))
        dropped = [v for l in spec["llhs"].values() for v in l["copy_parameters"].values()]
        if name in dropped:
            name = "w1"
        if tweak == "prior":
            pars[name]["prior_args"]["std"] += 0.01
        else:
            pars[name]["allowed_range"][1] += 1
        if "par_config" in instruct:
            kit.write_json(instruct["par_config"], pars)
            pars = None
        with quiet():
            context = apt.Context(instruct, par_config=pars)
    else:
        context = fresh(changed, folder)
    after = hashes(context)
    rec.label(kind)
    rec.nontrivial(bool(differ) or kind == "irrelevant")
    for name in sorted(differ):
        require(before[name] != after[name], "{} changed but the hash of {} did not", kind, name)
    for name in sorted(same):
        require(before[name] == after[name], "{} changed, which {} does not use, but its hash changed", kind, name)
    rec.checked(len(differ) + len(same))


# ---------------------------------------------------------------------- other processes
def remote(seeds, folder, hash_seed):
    code = (
        "import sys, json; sys.path[:0] = json.loads(sys.argv[1])\n"
        "from aptv import deps; deps.ensure()\n"
        "from aptv.props import p21\n"
        "out = {}\n"
        "for s in json.loads(sys.argv[2]):\n"
        "    out[str(s)] = p21.hashes(p21.fresh(p21.draw_spec(s), sys.argv[3] + str(s)))\n"
        "print('RESULT' + json.dumps(out))\n"
    )
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), APTV_REPO=REPO)
    return subprocess.Popen(
        [sys.executable, "-c", code, json.dumps([REPO, ROOT]), json.dumps(seeds), folder],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )


def case_process(case, rec):
    seeds, hash_seed = case
    folder = os.path.abspath("process")
    # one after another, since all write the same files
    mine = {str(s): hashes(fresh(draw_spec(s), folder + str(s))) for s in seeds}
    for order, hs in [(seeds[::-1], hash_seed), (seeds, hash_seed + 1)]:
        p = remote(order, folder, hs)
        out, err = p.communicate()
        lines = [x for x in out.splitlines() if x.startswith("RESULT")]
        if not lines:
            raise HarnessError(err[-2000:])
        theirs = json.loads(lines[0][6:])
        for s in mine:
            require(mine[s] == theirs[s], "another process gives other hashes of {} (instructions {})", diff(mine[s], theirs[s]), s)
            rec.checked(len(mine[s]))
    rec.nontrivial(any(nontrivial(draw_spec(s)) for s in seeds))


# ---------------------------------------------------------------------- instructions with arrays, shipped components
def case_arrays(seed, rec):
    """Instructions holding arrays are hashed and written like those with lists."""
    import appletree as apt
    from appletree.utils import dump_lineage, load_json
    from strax import deterministic_hash

    spec = draw_spec(seed)
    folder = os.path.abspath("arrays")
    before = hashes(fresh(spec, folder))
    kit.reset()
    instruct, pars = instructions(spec, folder)
    n = 0
    for l in instruct["likelihoods"].values():
        if l.get("bins_type") == "irreg":
            l["bins"] = [np.array(b) for b in l["bins"]]
            n += 1
        for k in ("clip", "x_clip", "y_clip"):
            if k in l:
                l[k] = np.array(l[k])
                n += 1
    if not n:
        return
    with quiet():
        context = apt.Context(instruct, par_config=pars)
    require(hashes(context) == before, "instructions with arrays give other hashes")
    file = os.path.abspath("arrays.json")
    dump_lineage(file, context)
    require(deterministic_hash(load_json(file)) == context.lineage_hash, "the lineage read back differs")
    rec.checked(3)
    rec.nontrivial(n > 1)


def case_standalone(seed, rec):
    """Components without a likelihood."""
    import appletree as apt

    rng = np.random.default_rng(seed)
    spec = draw_spec(seed)
    folder = os.path.abspath("alone")
    kit.reset()
    write_files(spec, folder)
    define(spec, folder)
    cls = getattr(apt.components, str(rng.choice(["Comp0", "Comp1"])) + spec["tag"])
    names = [["x"], ["y"], ["x", "y"], ["energy"]][int(rng.integers(4))]

    def one(names, llh):
        kit.reset()
        with quiet():
            c = cls(llh_name=llh)
            c.deduce(data_names=names)
            c.compile()
        return c

    a = one(names, "l1")
    h = a.lineage_hash
    b = one(["x", "eff"] if names != ["x"] else ["y"], "l1")
    require(a.lineage_hash == h, "the hash of a component changed when another one was made")
    require(b.lineage_hash != h, "other outputs but the same hash")
    require(one(names, "l1").lineage_hash == h, "same component, different hash")
    rec.checked(3)
    rec.nontrivial(len(a.instances) > 1)


PARTS = {
    "same": case_same,
    "difference": case_difference,
    "process": case_process,
    "arrays": case_arrays,
    "standalone": case_standalone,
}

SEEDS = st.integers(0, (1 << 30) - 1)


def run(check, only=None):
    check.assumptions += [
        "the code of a plugin and the class attribute add_eps_to_hist are not among what the property lists as part of "
        "the lineage",
        "a lineage is read back unchanged if it is equal up to tuples and arrays becoming lists",
    ]

    def want(part):
        return only is None or only == part

    if want("same"):
        check.search("same", SEEDS, case_same, check.n(60, 1500))
    if want("difference"):
        for kind in CHANGES:
            check.search("difference", st.tuples(SEEDS, st.just(kind)), case_difference, check.n(14, 350), salt=kind)
    if want("arrays"):
        check.search("arrays", SEEDS, case_arrays, check.n(12, 300))
    if want("standalone"):
        check.search("standalone", SEEDS, case_standalone, check.n(20, 500))
    if want("process"):
        rng = np.random.default_rng([check.seed, 21])
        cases = [
            ([int(s) for s in rng.integers(0, 1 << 30, check.n(6, 40))], int(rng.integers(1, 1000)))
            for _ in range(check.n(1, 10))
        ]
        check.sweep("process", cases, case_process)
