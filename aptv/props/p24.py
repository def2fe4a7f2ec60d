"""P24: resource files are found by the documented precedence."""

import contextlib
import hashlib
import json
import os
import pickle
import shutil
import sys
import types

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import REPO, require

RULE = "a name that exists in at least two places, or in none"

PACKAGED = ["er.json", "_nr_spectrum.json", "data_Rn220.csv", "AC_Rn220.pkl", "rn220.json", "_field_map.json"]
NAMES = PACKAGED + ["new.json", "new.csv", "sub/deep.json", "new.pkl", "chain.h5", "chain.h5", "er.txt", "noformat", "table.xlsx", "v1.2.csv", "map.v3.json"]
PLACES = ["path", "path", "json", "data", "parameter", "map default", "map config", "map config llh", "likelihood", "fixed", "context", "sigma", "sha"]


@st.composite
def cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    # with the packages of the collaboration
    extras = int(rng.rand() < 0.4)
    names = [str(n) for n in rng.choice(NAMES, rng.randint(1, 4), replace=False)]
    ops = [["base", "base0", "config", ""]] if rng.rand() < 0.5 else []
    for name in names:
        for where in rng.choice(["cwd", "base0", "base1"] + ["nt", "mongo"] * extras, rng.randint(0, 3)):
            ops.append(["create", name, str(where), ""])
    for _ in range(rng.randint(4, 14)):
        op = str(rng.choice(["create", "create", "remove", "base", "use", "use", "use", "mkdir"], p=[0.1, 0.1, 0.15, 0.1, 0.2, 0.15, 0.15, 0.05]))
        name = str(rng.choice(names))
        where = str(rng.choice(["cwd", "base0", "base1"] + ["nt", "mongo"] * extras))
        if op == "use":
            ops.append([op, name, str(rng.choice(PLACES)), str(rng.choice(["plain", "plain", "plain", "dot", "absolute cwd", "absolute base0"]))])
        elif op == "base":
            ops.append([op, str(rng.choice(["base0", "base1", "none"])), str(rng.choice(["config", "context"])), ""])
        else:
            ops.append([op, name, where, ""])
    ops.append(["use", names[0], "path", "plain"])
    return {"ops": ops, "extras": bool(extras)}


def others_possible(utils):
    """Whether the other two sources can be replaced here."""
    return all(hasattr(utils, k) for k in ("NT_AUX_INSTALLED", "SKIP_MONGO_DB"))


@contextlib.contextmanager
def collaboration(utils, folder, files):
    """Stand-ins for the packages with files of the collaboration; yields the downloads."""
    downloads = []
    if not others_possible(utils):
        yield downloads
        return

    def inside(d):
        top = os.path.join(folder, d)
        return {os.path.relpath(p, top): p for p in files if p.startswith(top + "/")}

    def download_single(name, *args, **kwargs):
        downloads.append(name)
        if name not in inside("mongo"):
            raise (FileNotFoundError if len(name) % 2 else ValueError)(name)
        return inside("mongo")[name]

    nt = types.ModuleType("ntauxfiles")
    nt.list_private_files = lambda: sorted(inside("nt"))
    nt.get_abspath = lambda name: inside("nt")[name]
    fake = types.ModuleType("utilix")
    fake.mongo_storage = types.ModuleType("utilix.mongo_storage")
    fake.mongo_storage.MongoDownloader = lambda *a, **k: types.SimpleNamespace(download_single=download_single)
    modules = {"ntauxfiles": nt, "utilix": fake, "utilix.mongo_storage": fake.mongo_storage}
    values = {"NT_AUX_INSTALLED": True, "SKIP_MONGO_DB": False, "ntauxfiles": nt}
    saved = {k: sys.modules.get(k) for k in modules}
    known = {k: utils.__dict__.get(k) for k in values}
    sys.modules.update(modules)
    utils.__dict__.update(values)
    try:
        yield downloads
    finally:
        for k, v in saved.items():
            sys.modules.pop(k) if v is None else sys.modules.update({k: v})
        for k, v in known.items():
            utils.__dict__.pop(k) if v is None else utils.__dict__.update({k: v})


_template = []


def backend(number):
    """A backend file whose chain has this number everywhere."""
    import appletree as apt
    import h5py

    if not _template:
        kit.reset()
        config = {"p": {"prior_type": "free", "prior_args": {}, "allowed_range": [-1e9, 1e9], "init_mean": 1.0, "init_std": 0.1}}
        path = os.path.join(os.getcwd(), "template.h5")
        instruct = {"likelihoods": {}, "backend_h5": path, "configs": {}}
        context = apt.Context(instruct, par_config=config)
        context.needed_parameters.add("p")
        context.fitting(nwalkers=4, iteration=2, batch_size=1)
        with open(path, "rb") as f:
            _template.append(f.read())
        os.remove(path)
    path = kit.unique("backend") + ".h5"
    with open(path, "wb") as f:
        f.write(_template[0])
    with h5py.File(path, "r+") as f:
        f["mcmc"]["chain"][...] = float(number)
    with open(path, "rb") as f:
        result = f.read()
    os.remove(path)
    return result


def content(name, number):
    """A file of the format which is usable at every place for this kind of name."""
    if name.endswith(".h5"):
        return backend(number)
    if name.endswith(".json"):
        return json.dumps(
            {
                # a parameter configuration and a map at once
                "coordinate_type": "point",
                "coordinate_name": "x",
                "coordinate_system": [0.0, 1.0],
                "map": [float(number), float(number)],
            }
        ).encode()
    table = pd.DataFrame({"cs1": np.full(number, 0.5), "cs2": np.arange(number) + 0.5})
    if name.endswith(".pkl"):
        return pickle.dumps(table)
    return table.to_csv(index=False).encode()


def resolve(case, rec):
    import appletree as apt
    from appletree.share import _cached_configs
    from appletree import utils

    folder = os.path.join(os.getcwd(), kit.unique("files"))
    back = os.getcwd()
    for d in ["cwd", "base0", "base1", "nt", "mongo"]:
        os.makedirs(os.path.join(folder, d, "sub"))
    os.chdir(os.path.join(folder, "cwd"))
    try:
        kit.reset()
        base = None
        files = {}
        number = 2
        interesting = False
        for op, name, where, how in case["ops"]:
            if op == "mkdir":
                # a folder of this name is no file
                path = os.path.join(folder, "cwd", name)
                if not os.path.exists(path):
                    os.mkdir(path)
                continue
            if op == "create":
                number += 1
                path = os.path.join(folder, where, name)
                if os.path.isdir(path):
                    os.rmdir(path)
                with open(path, "wb") as f:
                    f.write(content(name, number))
                files[path] = number
                continue
            if op == "remove":
                path = os.path.join(folder, where, name)
                if path in files:
                    os.remove(path)
                    del files[path]
                continue
            if op == "base":
                kit.reset()
                base = None if name == "none" else os.path.join(folder, name)
                continue
            kit.reset()
            if base is not None:
                apt.set_global_config({"url_base": base})
            given = {"plain": name, "dot": "./" + name}.get(how) or os.path.join(folder, how.split()[1], name)
            if os.path.isabs(given) and os.path.isdir(given):
                continue
            # the documented precedence
            candidates = [os.path.join(folder, "cwd", name)] if how in ("plain", "dot") else [given]
            if how in ("plain", "dot"):
                if base is not None:
                    candidates.append(os.path.join(base, name))
                candidates += [
                    os.path.join(REPO, "appletree", d, name) for d in ("maps", "data", "parameters", "instructs") if name in PACKAGED
                ]
            if how == "plain" and case["extras"] and others_possible(utils):
                candidates += [os.path.join(folder, d, name) for d in ("nt", "mongo")]
            found = [c for c in candidates if os.path.isfile(c)]
            interesting = interesting or len(found) != 1
            with collaboration(utils, folder, files) if case["extras"] else contextlib.nullcontext([]) as downloads:
                use(apt, utils, _cached_configs, given, where, found[0] if found else None, files, rec)
            if found and found[0].startswith(os.path.join(folder, "mongo/")):
                rec.label("downloaded")
            elif found:
                require(name not in downloads and given not in downloads, "{} is downloaded although {} exists", given, found[0])
        rec.nontrivial(interesting)
    finally:
        os.chdir(back)
        shutil.rmtree(folder)


def use(apt, utils, configs, name, place, found, files, rec):
    """Use the file name somewhere and compare with the file that should be found."""
    llh = kit.unique("llh")
    rec.label(place if found else "missing")
    rec.checked()
    number = files.get(found)
    suffix = name.split(".")[-1]
    if found is None:
        require(kit.refused(apt.get_file_path, name), "{} was found although it does not exist", name)
        require(kit.refused(apt.load_json, name) and kit.refused(apt.load_data, name), "loads {} although it does not exist", name)
        require(kit.refused(apt.set_global_config, {"option": name}), "takes {} although it does not exist", name)
        return
    got = apt.get_file_path(name)
    require(os.path.isfile(got) and os.path.samefile(got, found), "{} is {} instead of {}", name, got, found)
    if suffix not in ("csv", "pkl"):
        require(kit.refused(apt.load_data, name), "loads {} as a table", name)
    if number is None:
        # a file of the package; its content is what it is
        if suffix == "json":
            with open(found) as f:
                require(apt.load_json(name) == json.load(f), "other content of {}", name)
        elif suffix in ("csv", "pkl"):
            expected = pd.read_csv(found) if suffix == "csv" else pd.read_pickle(found)
            require(apt.load_data(name).equals(expected), "other content of {}", name)
        return
    if place == "sha":
        # of files of all sizes, which may start with the same content
        size = [0, 1, 4095, 4096, 4097, 70000, 300000][number % 7]
        data = np.random.default_rng(number).bytes(size)
        with open("any.bin", "wb") as f:
            f.write(data)
        for path in (got, os.path.abspath("any.bin")):
            with open(path, "rb") as f:
                expected = hashlib.sha256(f.read()).hexdigest()
            require(apt.utils.calculate_sha256(path) == expected, "another hash of {} bytes", os.path.getsize(path))
        os.remove("any.bin")
    if suffix in ("csv", "pkl"):
        table = apt.load_data(name)
        require(len(table) == number and list(table.columns) == ["cs1", "cs2"], "loads {} of {} rows", name, len(table))
        require(kit.close(table["cs2"], np.arange(number) + 0.5), "other content of {}", name)
        if place in ("likelihood", "context"):
            spec = dict(data_file_name=name, bins_type="meshgrid", bins_on="cs1", bins=[2], clip=[0, 1])
            if place == "likelihood":
                likelihood = apt.Likelihood(name=llh, **spec)
            else:
                spec.update(components={}, copy_parameters={})
                instruct = {"likelihoods": {llh: spec}}
                if "url_base" in configs:
                    # known from the instructions only
                    instruct["url_base"] = dict.pop(configs, "url_base")
                likelihood = apt.Context(instruct, par_config={})[llh]
            require(float(np.sum(likelihood.data_hist)) == number, "the likelihood has {} events of {}", np.sum(likelihood.data_hist), name)
        if place == "fixed":
            cls = kit.make_fixed(kit.unique("Fix"), register=False)
            component = cls(name="fix", llh_name=llh, bins=[np.array([0.0, 1.0])], bins_type="irreg", file_name=name)
            component.rate_name = "fix_rate"
            component.deduce(data_names=["cs1"])
            require(float(np.sum(component.hist)) == number, "the component has {} events of {}", np.sum(component.hist), name)
        return
    if suffix == "h5":
        for _ in range(2):
            context = apt.Context.from_backend(name)
            require(np.all(context.get_all_post_parameters() == number), "the restored chain is not that of {}", name)
            require(context.get_post_parameters()["p"] == number, "the restored parameters are not those of {}", name)
        return
    if suffix != "json":
        return
    if place == "context":
        # the instructions themselves, and the parameters
        config = {"p": {"prior_type": "fixed", "prior_args": {"val": float(number)}, "allowed_range": [0, 1e9]}}
        for path, content_ in [(found, config)]:
            with open(path, "w") as f:
                json.dump(content_, f)
        require(apt.Parameter(name).get_parameter("p") == number, "the parameters are not those of {}", name)
        instruct = {"likelihoods": {}, "par_config": name}
        if "url_base" in configs:
            instruct["url_base"] = dict.pop(configs, "url_base")
        context = apt.Context(instruct)
        require(context.par_manager.get_parameter("p") == number, "the parameters are not those of {}", name)
        with open(found, "w") as f:
            json.dump({"likelihoods": {}, "configs": {f"o{number}": number}, "par_config": {}}, f)
        context = apt.Context(name, par_config=config)
        require(context.instruct["configs"] == {f"o{number}": number}, "the instructions are not those of {}", name)
        with open(found, "wb") as f:
            f.write(content(name, number))
        return
    loaded = apt.load_json(name)
    require(loaded["map"][0] == number, "loads another file as {}", name)
    # what is done to the loaded object stays there
    loaded["map"][0] = number + 1
    loaded["more"] = 1
    again = apt.load_json(name)
    require(again["map"][0] == number and "more" not in again, "a file which was loaded before is not loaded anew: {}", name)
    configured = place.startswith("map config")
    if place.startswith("map") or place == "sigma":
        option = kit.unique("option")
        default = name
        if configured:
            default = kit.point_map("default.json", [0, 1], [-5, -5])
            apt.set_global_config({option: {llh: name} if place.endswith("llh") else name})
        if place == "sigma":
            config = apt.SigmaMap(name=option, default=[name, name, name], method="LERP")
        else:
            config = apt.Map(name=option, default=default, method="LERP")
        cls = kit.make_plugin(kit.unique("Use"), ["batch_size"], ["x"], None, configs=[config], register=False)
        value = getattr(cls(llh_name=llh), option)
        got = value.apply(np.array([0.5]), {f"{option}_sigma": 0.5}) if place == "sigma" else value.apply(np.array([0.5]))
        require(float(got[0]) == number, "the map is not that of {} ({} instead of {})", name, got, number)
    rec.checked()


PARTS = {"resolve": resolve}


def run(check, only=None):
    check.assumptions = ["ntauxfiles and the database of the collaboration are stand-ins with files of the check"]
    check.search("resolve", cases(), resolve, check.n(450, 5000))
