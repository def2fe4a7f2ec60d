"""P26 Map plots show every used map, correctly collapsed."""

import os
import warnings

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import quiet, require

RULE = (
    "contexts: at least three maps of which one is used twice or registered but unused; collapse: a map of at least two "
    "dimensions with a collapsed axis, or a logarithmic axis"
)


def parameter_config(names):
    return {
        n: {
            "prior_type": "free",
            "prior_args": {},
            "allowed_range": [-9, 9],
            "init_mean": 1.0,
            "init_std": 0.1,
            "unit": "1",
            "doc": "",
        }
        for n in names
    }


def write_map(path, spec):
    """A map file; ``values`` identify it."""
    values = np.asarray(spec["values"], dtype=float)
    if spec["kind"] in ("point", "log_point"):
        return kit.point_map(path, spec["x"], values, name=spec["names"][0], kind=spec["kind"])
    names = spec["names"] if not spec.get("plain_name") else spec["names"][0]
    return kit.regbin_map(path, spec["lo"], spec["hi"], values, names=names, kind=spec["kind"])


# ---------------------------------------------------------------------- which maps are shown
@st.composite
def contexts(draw):
    rng = np.random.default_rng(draw(st.integers(0, 2**32 - 1)))
    n_files = int(rng.integers(3, 9))
    files = []
    for i in range(n_files):
        kind = str(rng.choice(["point", "log_point", "regbin", "log_regbin", "cube"], p=[0.25, 0.2, 0.25, 0.2, 0.1]))
        files.append({"kind": kind, "folder": str(rng.choice(["a", "b", "c"])), "base": f"map{int(rng.integers(rng.choice([2, 6])))}"})
    n_llh = int(rng.integers(1, 4))
    llhs = {}
    options = [["Map", "SigmaMap", "SigmaMap"][int(rng.integers(3))] for _ in range(int(rng.integers(2, 6)))]
    for i in range(n_llh):
        llhs[f"L{i}"] = {
            "components": [int(rng.integers(3)) for _ in range(int(rng.integers(1, 3)))],
            "fixed": bool(rng.random() < 0.3),
            "bins_on": str(rng.choice(["x", "y"])),
        }
    configs = {}
    triples = []
    # the three maps of one option have to be of the same format
    formats = {}
    for i, f in enumerate(files):
        formats.setdefault(f["kind"].replace("log_", ""), []).append(i)
    for o, kind in enumerate(options):
        def value():
            if kind == "Map":
                return int(rng.integers(n_files))
            if rng.random() < 0.25:
                return int(rng.integers(n_files))
            same = formats[sorted(formats)[int(rng.integers(len(formats)))]]
            v = [int(j) for j in rng.choice(same, 3)]
            if triples and rng.random() < 0.5:
                # only one of the maps differs from those of another option
                v = list(triples[int(rng.integers(len(triples)))])
                same = next(f for f in formats.values() if v[0] in f)
                v[int(rng.integers(3))] = int(rng.choice(same))
            triples.append(tuple(v))
            return v if rng.random() < 0.6 else v + ["scale"]

        configs[f"opt{o}"] = {n: value() for n in llhs} if rng.random() < 0.6 else value()
    return {
        "files": files,
        "options": options,
        "methods": [str(rng.choice(["LERP", "NN", "IDW"])) for _ in options],
        "configs": configs,
        "defaults": [int(rng.integers(n_files)) for _ in options],
        "given": [bool(rng.random() < 0.8) for _ in options],
        # which options the plugins of the component classes take, those of x, y and of unused data
        "takes": [[[bool(v) for v in rng.random(len(options)) < 0.4] for _ in range(3)] for _ in range(3)],
        "relative": bool(rng.random() < 0.5),
        "llhs": llhs,
        "save": str(rng.choice(["no", "svg", "both", "three"], p=[0.6, 0.25, 0.1, 0.05])),
        "seed": int(rng.integers(2**31)),
    }


def case_context(case, rec):
    import appletree as apt
    import jax.numpy as jnp
    import matplotlib
    import matplotlib.pyplot as plt
    from appletree.plot import plot_maps

    matplotlib.use("Agg")
    rng = np.random.default_rng(case["seed"])
    kit.reset()
    folder = os.path.abspath(kit.unique("maps"))
    paths = []
    seen = {}
    for i, f in enumerate(case["files"]):
        # distinct files may have the same base name
        name = os.path.join(folder, f["folder"], f["base"] + ".json")
        while name in seen:
            name = name[:-5] + "_.json"
        seen[name] = i
        os.makedirs(os.path.dirname(name), exist_ok=True)
        if f["kind"] == "cube":
            values = np.float32(rng.uniform(0.1, 2, (2, 2, 2)))
            write_map(name, {"kind": "regbin", "names": ["q", "r", "s"], "values": values, "lo": [1.0] * 3, "hi": [4.0] * 3})
            x = None
        else:
            values = np.float32(rng.uniform(0.1, 2, 4))
            # those with points may have different ones in the three maps of one option
            x = np.cumsum(rng.uniform(0.3, 2, 4)).round(3) if "point" in f["kind"] else np.array([1.0, 2.0, 3.0, 4.0])
            write_map(name, {"kind": f["kind"], "names": ["q"], "values": values, "lo": [1.0], "hi": [4.0], "x": list(x)})
        paths.append((name, values.ravel(), x))

    def path(i, relative=False):
        p = paths[i][0]
        return os.path.relpath(p) if relative else p

    def option(v):
        if isinstance(v, dict):
            return {k: option(w) for k, w in v.items()}
        relative = case["relative"] and rng.random() < 0.4
        return path(v, relative) if isinstance(v, int) else [path(j, relative) for j in v[:3]] + v[3:]

    def body(self, key, parameters, a):
        return key, jnp.full(4, 0.5)

    def body_e(self, key, parameters, a):
        return key, jnp.ones(4), jnp.ones(4)

    for c in range(3):
        plugins = []
        for part, (depends, provides, fn) in enumerate(
            [("batch_size", ["x"], body), ("x", ["y"], body), ("batch_size", ["unused"], body)]
        ):
            configs = []
            for o, kind in enumerate(case["options"]):
                if case["takes"][c][part][o]:
                    cls = apt.Map if kind == "Map" else apt.SigmaMap
                    configs.append(cls(name=f"opt{o}", method=case["methods"][o], default=path(case["defaults"][o])))
            plugins.append(kit.make_plugin(f"Plug{c}p{part}", [depends], provides, fn, configs=configs))
        plugins.append(kit.make_plugin(f"Plug{c}e", ["x"], ["eff", "energy"], body_e))
        kit.make_component(f"MapComp{c}", plugins)
    kit.make_fixed("MapFixed")
    data = kit.write_csv("data.csv", {"x": [0.2, 0.4, 0.6, 0.8, 0.5], "y": [0.2, 0.4, 0.6, 0.8, 0.5]})
    instruct = {
        "configs": {k: option(v) for (k, v), g in zip(case["configs"].items(), case["given"]) if g},
        "likelihoods": {},
    }
    names = ["scale"]
    used = {}
    uses = 0
    for n, llh in case["llhs"].items():
        comps = {f"{n}c{i}": f"MapComp{c}" for i, c in enumerate(llh["components"])}
        if llh["fixed"]:
            comps[f"{n}fix"] = {"component_cls": "MapFixed", "file_name": data}
        instruct["likelihoods"][n] = {
            "components": comps,
            "copy_parameters": {},
            "data_file_name": data,
            "bins_type": "irreg",
            "bins_on": llh["bins_on"],
            "bins": [[0.0, 0.5, 1.0]],
            "clip": [0, 1],
        }
        names += [c + "_rate" for c in comps]
        for c in llh["components"]:
            for part in range(2 if llh["bins_on"] == "y" else 1):
                for o, kind in enumerate(case["options"]):
                    if case["takes"][c][part][o]:
                        v = case["configs"][f"opt{o}"] if case["given"][o] else case["defaults"][o]
                        v = v[n] if isinstance(v, dict) else v
                        files = (v,) if kind == "Map" else ((v,) * 3 if isinstance(v, int) else tuple(v[:3]))
                        used.setdefault(files, set()).add(f"opt{o}")
                        uses += 1
    # a context with the same file as point and regular map cannot exist: the three maps of one option share a format
    for files in used:
        if len({case["files"][i]["kind"].replace("log_", "") for i in files}) > 1:
            return
    names += [f"opt{o}_sigma" for o in range(len(case["options"]))]
    context = apt.Context(instruct, par_config=parameter_config(names))
    save = os.path.join(folder, "figures")
    formats = {"no": [], "svg": ["svg"], "both": ["png", "pdf"], "three": ["png", "pdf", "svg"]}[case["save"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        figures = plot_maps(
            context, save=bool(formats), save_path=save, fmt=formats[0] if len(formats) == 1 else (formats or "png")
        )
    drawn = {files for files in used if case["files"][files[0]]["kind"] != "cube"}
    expected = sorted([[tuple(np.float32(paths[i][1])) for i in files] for files in drawn])
    got, labels = [], {}
    for fig, ax in figures:
        shown = [tuple(np.float32(line.get_ydata())) for line in ax.lines] or [tuple(np.float32([p.get_height() for p in ax.patches]))]
        got.append(shown)
        labels[tuple(shown)] = ax
    require(sorted(got) == expected, "{} figures for {} used maps {}", len(got), len(drawn), sorted(drawn))
    for files in drawn:
        options, kind = used[files], case["files"][files[0]]["kind"]
        ax = labels[tuple(tuple(np.float32(paths[i][1])) for i in files)]
        label = ax.get_ylabel()
        require(label in options, "map used as {} is called {}", sorted(options), label)
        if "point" in kind:
            x = [np.float32(paths[i][2]) for i in files]
            for line, nodes in zip(ax.lines, x):
                require(kit.close(line.get_xdata(), nodes, 1e-5), "points at {} instead of {}", line.get_xdata(), nodes)
            if len(files) == 3:
                # the band reaches from the lower to the upper map
                area = np.concatenate([q.vertices for band in ax.collections for q in band.get_paths()])
                ends = min(v[0] for v in x), max(v[-1] for v in x)
                require(kit.close((area[:, 0].min(), area[:, 0].max()), ends, 1e-5), "the band covers {} instead of {}", area[:, 0], ends)
                low, high = (np.interp(area[:, 0], x[j], np.float32(paths[files[j]][1])) for j in (1, 2))
                away = np.minimum(abs(area[:, 1] - low), abs(area[:, 1] - high))
                require(away.max() < 1e-4, "the band is {} away from both maps", away.max())
                rec.label("band")
    rec.checked(2 * len(drawn) + 1)
    if len(drawn) < len(used):
        rec.label("skipped maps")
    if formats and drawn:
        rec.label("saved")
        require(len(os.listdir(save)) == len(figures) * len(formats), "{} files for {} figures", len(os.listdir(save)), len(figures))
        # each starts with the base name of its map
        bases = [os.path.basename(paths[files[0]][0])[: -len(".json")] for files in drawn]
        saved = [f.rsplit(".", 1)[0] for f in os.listdir(save)]
        require(all(any(f.startswith(b) for f in saved) for b in bases), "maps {} are saved as {}", bases, saved)
        require(all(any(f.startswith(b) for b in bases) for f in saved), "maps {} are saved as {}", bases, saved)
        require({f.rsplit(".", 1)[1] for f in os.listdir(save)} == set(formats), "formats of {}", os.listdir(save))
        rec.checked(4)
    collect(context, used, paths, rec)
    plt.close("all")
    registered = {o for t in case["takes"] for part in t for o, v in enumerate(part) if v}
    rec.nontrivial(len(used) >= 3 and (uses > len(used) or len(registered) > len({o for s in used.values() for o in s})))
    rec.label(f"{len(case['llhs'])} likelihoods")


def collect(context, used, paths, rec):
    """All names of every map."""
    from appletree import plot

    if not hasattr(plot, "_collect_maps"):
        return
    collected = plot._collect_maps(context)
    if not isinstance(collected, dict) or not all(isinstance(v, tuple) and len(v) == 2 for v in collected.values()):
        return
    got = {}
    for config, names in collected.values():
        maps = [config.median, config.lower, config.upper] if hasattr(config, "median") else [config]
        got.setdefault(tuple(tuple(np.float32(m.map).ravel()) for m in maps), set()).update(names)
    want = {tuple(tuple(np.float32(paths[i][1])) for i in files): options for files, options in used.items()}
    require(got == want, "maps are known as {} instead of {}", sorted(map(sorted, got.values())), sorted(map(sorted, want.values())))
    rec.checked(len(want))


# ---------------------------------------------------------------------- what is shown of them
@st.composite
def maps(draw):
    rng = np.random.default_rng(draw(st.integers(0, 2**32 - 1)))
    ndim = int(rng.choice([1, 2, 2, 3, 3]))
    per_axis = bool(rng.random() < 0.6)
    log = [bool(v) for v in rng.random(ndim) < 0.5] if per_axis else [bool(rng.random() < 0.4)] * ndim
    shape = [int(v) for v in rng.integers(2, 6, ndim)]
    lo, hi = [], []
    for is_log in log:
        a = float(rng.choice([0.1, 1.0, 2.0])) if is_log else float(rng.choice([-5.0, 0.0, 1.0]))
        lo.append(a)
        hi.append(a * float(rng.choice([2.0, 10.0, 1000.0])) if is_log else a + float(rng.choice([1.0, 3.0, 50.0])))
    names = [str(n) for n in rng.permutation(["x", "radius", "z", "s2_area", "quantile"])[:ndim]]
    collapse = {}
    for i in rng.permutation(ndim)[: int(rng.choice([0, 1, 1, 2, 3]))]:
        c = centers(lo[i], hi[i], shape[i], log[i])
        kind = int(rng.integers(6))
        if kind == 0:
            collapse[names[i]] = None
        elif kind == 1:
            collapse[names[i]] = [hi[i] * 2 + 10, hi[i] * 3 + 20]
        else:
            # the limits lie between nodes, or are the first or last node
            j, k = sorted(int(v) for v in rng.integers(0, shape[i], 2))
            f = float(rng.uniform(0.2, 0.8))
            a = lo[i] if j == 0 else c[j - 1] + f * (c[j] - c[j - 1])
            b = hi[i] if k == shape[i] - 1 else c[k] + f * (c[k + 1] - c[k])
            collapse[names[i]] = [a, b]
    if rng.random() < 0.3:
        collapse["another_axis"] = None
    return {
        "shape": shape,
        "log": log,
        "per_axis": per_axis,
        "lo": lo,
        "hi": hi,
        "names": names,
        "plain_name": bool(ndim == 1 and not per_axis and rng.random() < 0.5),
        "collapse": collapse if rng.random() < 0.9 else None,
        "sigma": bool(rng.random() < 0.55),
        "seed": int(rng.integers(2**31)),
    }


def centers(lo, hi, n, is_log):
    return np.geomspace(lo, hi, n) if is_log else np.linspace(lo, hi, n)


def edges(lo, hi, n, is_log):
    """Halfway between the nodes."""
    c = np.log10(centers(lo, hi, n, True)) if is_log else centers(lo, hi, n, False)
    half = (c[1] - c[0]) / 2
    e = np.concatenate([c - half, [c[-1] + half]])
    return 10**e if is_log else e


def case_collapse(case, rec):
    import appletree as apt
    import jax.numpy as jnp
    import matplotlib
    import matplotlib.pyplot as plt
    from appletree.plot import plot_maps

    matplotlib.use("Agg")
    rng = np.random.default_rng(case["seed"])
    kit.reset()
    folder = os.path.abspath(kit.unique("map"))
    os.makedirs(folder)
    kinds = ["log_regbin" if v else "regbin" for v in case["log"]]
    kind = kinds if case["per_axis"] else kinds[0]
    values, files = [], []
    for name in ["median", "lower", "upper"][: 3 if case["sigma"] else 1]:
        v = rng.uniform(0.1, 5, case["shape"])
        values.append(v)
        files.append(write_map(os.path.join(folder, name + ".json"), dict(case, kind=kind, values=v)))
    if case["sigma"]:
        config = apt.SigmaMap(name="the_map", default=files)
    else:
        config = apt.Map(name="the_map", default=files[0])

    def body(self, key, parameters, a):
        return key, jnp.full(4, 0.5), jnp.ones(4), jnp.ones(4)

    plugin = kit.make_plugin("OneMap", ["batch_size"], ["x", "eff", "energy"], body, configs=[config])
    kit.make_component("OneMapComp", [plugin])
    data = kit.write_csv("data.csv", {"x": [0.2, 0.4, 0.6, 0.8, 0.5]})
    instruct = {
        "likelihoods": {
            "L": {
                "components": {"c": "OneMapComp"},
                "copy_parameters": {},
                "data_file_name": data,
                "bins_type": "irreg",
                "bins_on": "x",
                "bins": [[0.0, 0.5, 1.0]],
                "clip": [0, 1],
            }
        }
    }
    context = apt.Context(instruct, par_config=parameter_config(["c_rate", "the_map_sigma"]))
    collapse = None if case["collapse"] is None else {"the_map": {k: v if v is None else tuple(v) for k, v in case["collapse"].items()}}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        figures = plot_maps(context, collapse=collapse, save=bool(case["seed"] % 5 == 0), save_path=folder + "/out")

    # reference
    keep = []
    for i, name in enumerate(case["names"]):
        if case["collapse"] is None or name not in case["collapse"]:
            keep.append(i)
    for i in reversed(range(len(case["names"]))):
        if i in keep:
            continue
        limits = case["collapse"][case["names"][i]]
        c = centers(case["lo"][i], case["hi"][i], case["shape"][i], case["log"][i])
        mask = np.ones(len(c), dtype=bool)
        if limits is not None:
            tol = 1e-6 * (abs(c) + c[-1] - c[0])
            mask = (c >= limits[0] - tol) & (c <= limits[1] + tol)
            mask = mask if mask.any() else np.ones(len(c), dtype=bool)
        values = [np.compress(mask, v, axis=i).mean(axis=i) for v in values]

    rec.label(f"{len(case['names'])}D to {len(keep)}D", "sigma" if case["sigma"] else "map")
    rec.nontrivial(len(case["names"]) > len(keep) and len(case["names"]) > 1 or any(case["log"]))
    names = [case["names"][i] for i in keep]
    spec = [(case["lo"][i], case["hi"][i], case["shape"][i], case["log"][i]) for i in keep]
    if len(keep) in (0, 3):
        require(len(figures) == 0, "plots a map of {} dimensions", len(keep))
        return
    if len(keep) == 1:
        require(len(figures) == 1, "{} figures of one map", len(figures))
        ax = figures[0][1]
        require(ax.get_xlabel() == names[0] and ax.get_ylabel() == "the_map", "axes {} and {}", ax.get_xlabel(), ax.get_ylabel())
        require((ax.get_xscale() == "log") == case["log"][keep[0]], "scale is {}", ax.get_xscale())
        c, e = centers(*spec[0]), edges(*spec[0])
        if case["sigma"]:
            require(len(ax.lines) == 3, "{} lines instead of median, lower and upper", len(ax.lines))
            for line, v in zip(ax.lines, values):
                require(kit.close(line.get_xdata(), c, 1e-5, 1e-5), "nodes at {} instead of {}", line.get_xdata(), c)
                require(kit.close(line.get_ydata(), v, 1e-5), "shows {} instead of {}", line.get_ydata(), v)
        else:
            height = [p.get_height() for p in ax.patches]
            left = np.array([p.get_x() for p in ax.patches])
            right = left + [p.get_width() for p in ax.patches]
            require(kit.close(height, values[0], 1e-5), "shows {} instead of {}", height, values[0])
            scale = 1e-5 * (e[-1] - e[0])
            require(
                np.all(abs(left - e[:-1]) <= scale + 1e-5 * abs(e[:-1])) and np.all(abs(right - e[1:]) <= scale + 1e-5 * abs(e[1:])),
                "bars from {} to {} instead of edges {}", left, right, e,
            )
            if case["log"][keep[0]]:
                require(np.all(left > 0), "bar with a negative edge on a logarithmic axis")
        rec.checked(4)
    else:
        order = [1, 0, 2] if case["sigma"] else [0]
        require(len(figures) == len(order), "{} figures of one map", len(figures))
        for (fig, ax), i, suffix in zip(figures, order, [" (lower)", " (median)", " (upper)"] if case["sigma"] else [""]):
            image = ax.images[0]
            require(kit.close(np.asarray(image.get_array()), values[i].T, 1e-5), "wrong values of the map in two dimensions")
            expected = []
            for s in spec:
                e = edges(*s)[[0, -1]]
                expected += list(np.log10(e) if s[3] else e)
            require(kit.close(image.get_extent(), expected, 1e-4, 1e-4), "shown in {} instead of {}", image.get_extent(), expected)
            labels = [f"log10({n})" if s[3] else n for n, s in zip(names, spec)]
            require([ax.get_xlabel(), ax.get_ylabel()] == labels, "axes {} instead of {}", [ax.get_xlabel(), ax.get_ylabel()], labels)
            require("the_map" + suffix in [a.get_ylabel() for a in fig.axes], "the colours are not labelled with the map")
            rec.checked(4)
    if case["seed"] % 5 == 0:
        require(len(os.listdir(folder + "/out")) == len(figures), "{} files for {} figures", len(os.listdir(folder + "/out")), len(figures))
        rec.checked()
    plt.close("all")


PARTS = {"context": case_context, "collapse": case_collapse}


def run(check, only=None):
    check.assumptions += [
        "a map with uncertainty counts as one map, identified by its three files, whose regular grids are the same",
        "maps of more than two dimensions after collapsing, or none, are skipped with a warning as documented",
        "limits of a range are not within rounding of a node, except the first and last one",
    ]
    if only in (None, "context"):
        check.search("context", contexts(), case_context, check.n(60, 1500))
    if only in (None, "collapse"):
        check.search("collapse", maps(), case_collapse, check.n(260, 6000))
