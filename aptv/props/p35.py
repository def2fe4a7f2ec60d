"""P35: the printed summaries say what the likelihoods are made of."""

import contextlib
import io
import os
import re

import numpy as np
from hypothesis import strategies as st

from aptv import kit, lab
from aptv.harness import require

RULE = "at least two components or two likelihoods"

Q = ["qa", "qb", "qc"]
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


@st.composite
def cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    llhs = []
    for i in range(rng.randint(1, 4)):
        kind = str(rng.choice(["irreg", "meshgrid", "meshgrid int", "equiprob", "lit"], p=[0.25, 0.2, 0.2, 0.2, 0.15]))
        names = [str(n) for n in rng.permutation(["er", "nr", "ac", "wall", "extra"])]
        components = []
        for j in range(1 if kind == "lit" else rng.randint(1, 4)):
            sim = kind == "lit" or rng.rand() < 0.65
            plugins = int(rng.randint(1, 4))
            components.append([names[j], "sim" if sim else "fixed", [[str(q) for q in rng.permutation(Q)[: rng.randint(0, 3)]] for _ in range(plugins)]])
        llhs.append(
            {
                "kind": kind,
                "dim": int(rng.randint(1, 3)),
                "components": components,
                "bins": [int(v) for v in rng.randint(2, 5, 2)],
                "density": str(rng.choice(["norm", "twohalfnorm"])),
                "alias": bool(rng.rand() < 0.3),
            }
        )
    return {
        "llhs": llhs,
        "n": int(rng.randint(75, 160)),
        "seed": int(rng.randint(2**31)),
        "short": bool(rng.rand() < 0.5),
        "one": int(rng.randint(4)),
    }


def printed(fn, **kwargs):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn(**kwargs)
    return out.getvalue()


def line(text, label):
    """The value of a line ``label: value``, once."""
    found = re.findall(rf"^\s*{re.escape(label)}\s*:[ \t]*(.*?)\s*$", text, flags=re.M)
    require(len(found) == 1, "{} lines of {} in {}", len(found), label, text)
    return found[0]


def section(text, name, following):
    start = [m.end() for m in re.finditer(rf"^\s*{name}\s*$", text, flags=re.M)]
    require(len(start) == 1, "{} sections {} in {}", len(start), name, text)
    end = re.compile(rf"^\s*{following}\s*$", flags=re.M).search(text, start[0]) if following else None
    return text[start[0] : end.start() if end else len(text)]


def names_in(text):
    return re.findall(r"[A-Za-z_][A-Za-z_0-9]*", text)


def summary(case, rec):
    import appletree as apt
    import jax.numpy as jnp

    kit.reset()
    rng = np.random.RandomState(case["seed"])
    tag = kit.unique("t")
    data = np.round(rng.uniform(0.013, 0.987, (case["n"], 2)), 4) + 0.00003
    files = {}
    instruct = {"configs": {}, "backend_h5": tag + ".h5", "likelihoods": {}}
    expected = {}
    kit.make_fixed(tag + "Fixed")
    rates = set()
    for i, llh in enumerate(case["llhs"]):
        name, dim = f"{tag}l{i}", 2 if llh["kind"] == "lit" else llh["dim"]
        on = ["ca", "cb"][:dim]
        # every likelihood has data of its own
        rows = data[: max(4, case["n"] // (i + 1))]
        csv = f"{name}_data.csv"
        kit.write_csv(csv, {"cb": rows[:, 1], "ca": rows[:, 0]})
        spec = {"components": {}, "copy_parameters": {}, "bins_on": on if dim == 2 else on[0], "data_file_name": csv}
        told = {"components": [], "on": on, "dim": dim}
        if llh["kind"] == "lit":
            del spec["data_file_name"]
            args = {"norm": {"loc": 0.5, "scale": 0.25}, "twohalfnorm": {"mu": 0.5, "sigma_pos": 0.125, "sigma_neg": 0.75}}[llh["density"]]
            spec.update({"type": "LikelihoodLit", "variable_type": llh["density"], "logpdf_args": [list(args), list(args.values())]})
            told.update({"args": args, "density": llh["density"]})
        else:
            inner = [np.concatenate([[0.0], np.sort(rng.choice(np.arange(1, 20), b - 1, replace=False) / 20), [1.0]]) for b in llh["bins"]]
            if llh["kind"] == "equiprob":
                spec.update({"bins_type": "equiprob", "bins": llh["bins"][:dim]})
            elif llh["kind"] == "meshgrid int":
                spec.update({"bins_type": "meshgrid", "bins": llh["bins"][:dim]})
                told["edges"] = np.concatenate([np.linspace(0, 1, b + 1) for b in llh["bins"][:dim]])
            elif llh["kind"] == "meshgrid":
                spec.update({"bins_type": "meshgrid", "bins": [list(map(float, e)) for e in inner[:dim]]})
                told["edges"] = np.concatenate(inner[:dim])
            else:
                bins = [list(map(float, inner[0]))]
                told["edges"] = inner[0]
                if dim == 2:
                    rows2 = [list(map(float, inner[1])) for _ in range(len(inner[0]) - 1)]
                    bins.append(rows2)
                    told["edges"] = np.concatenate([inner[0]] + [np.array(r) for r in rows2])
                spec.update({"bins_type": "irreg", "bins": bins})
            if dim == 1:
                spec["clip"] = [0, 1]
            else:
                spec.update({"x_clip": [0, 1], "y_clip": [0, 1]})
            told.update({"count": len(rows), "file": csv, "type": spec["bins_type"]})
        for j, (cname, kind, qs) in enumerate(llh["components"]):
            rates.add(f"{cname}_rate")
            if kind == "fixed":
                file = f"{name}_{cname}.csv"
                kit.write_csv(file, {"ca": data[:, 0], "cb": data[:, 1], "eff": np.ones(len(data))})
                spec["components"][cname] = {"component_cls": tag + "Fixed", "file_name": file}
                told["components"].append([cname, "fixed", {f"{cname}_rate"}, file])
                continue
            # a chain of plugins, and one which is not needed
            chain, previous = [], "batch_size"
            for k, q in enumerate(qs):
                last = k == len(qs) - 1
                outputs = on + ["eff"] if last else [f"step{k}"]

                def body(self, key, parameters, x, n=len(outputs)):
                    x = (jnp.arange(x) + 0.5) / x if np.ndim(x) == 0 else x
                    return tuple([key] + [x] * n)

                chain.append(kit.make_plugin(kit.unique(tag + "Plug"), [previous], outputs, body, parameters=q))
                previous = outputs[0]
            unused = kit.make_plugin(kit.unique(tag + "Spare"), ["batch_size"], ["spare"], None, parameters=["unneeded"])
            component = kit.make_component(kit.unique(tag + "Comp"), [unused] + chain[::-1])
            spec["components"][cname] = component.__name__
            told["components"].append([cname, "sim", {f"{cname}_rate"} | {p for q in qs for p in q}, [p.__name__ for p in chain]])
        if llh["alias"] and any("qa" in c[2] for c in told["components"]):
            spec["parameter_alias"] = {f"q{i}": "qa"}
        instruct["likelihoods"][name] = spec
        expected[name] = told
    needed = set()
    for (name, told), llh in zip(expected.items(), case["llhs"]):
        mine = set().union(*[c[2] for c in told["components"]])
        alias = instruct["likelihoods"][name].get("parameter_alias", {})
        needed |= {next((k for k, v in alias.items() if v == p), p) for p in mine}
    context = apt.Context(instruct, par_config={k: lab.fixed_parameter(2.0) for k in sorted(needed)})
    short = case["short"]
    whole = printed(context.print_context_summary, **({} if short and case["one"] % 2 else {"short": short}))
    parts = re.split(r"^LIKELIHOOD\s+(.*?)\s*$", whole, flags=re.M)
    require(parts[1::2] == list(expected), "likelihoods {} are printed as {}", list(expected), parts[1::2])
    texts = dict(zip(parts[1::2], parts[2::2]))
    # one of them alone is printed in the same way
    one = list(expected)[case["one"] % len(expected)]
    texts[one + " alone"] = printed(context[one].print_likelihood_summary, short=short)
    for name, text in texts.items():
        told = expected[name.split()[0]]
        if "args" in told:
            binning = section(text, "BINNING", "LOGPDF")
            require(line(binning, "variable_type") == told["density"], "the density of {} is {}", told, text)
            require([n for n in names_in(line(binning, "variable"))] == told["on"], "the variables of {} are {}", told, text)
            args = section(text, "LOGPDF", "MODEL")
            for k, v in told["args"].items():
                require(float(line(args, k)) == v, "{} of {} is {}", k, told, text)
        else:
            binning = section(text, "BINNING", "DATA")
            require(line(binning, "bins_type") == told["type"], "the type of the bins of {} is {}", told, text)
            require(names_in(line(binning, "bins_on")) == told["on"], "{} instead of the observables {}", text, told)
            body = re.search(r"^\s*bins\s*:(.*?)^-{5,}", binning, flags=re.M | re.S)
            require((body is None) == short, "bins in {} if short is {}", text, short)
            if body and "edges" in told:
                got = [float(v) for v in NUMBER.findall(re.sub(r"dtype=\w+|array|shape=\([^)]*\)", "", body[1]))]
                require(kit.close(got, told["edges"], rtol=1e-5, atol=1e-6), "edges {} instead of {}", got, told["edges"])
            given = section(text, "DATA", "MODEL")
            require(os.path.basename(line(given, "file_name")) == told["file"], "data of {} are {}", told, text)
            require(float(line(given, "data_rate")) == told["count"], "{} events instead of {}", line(given, "data_rate"), told["count"])
        model = section(text, "MODEL", None)
        blocks = re.split(r"^\s*COMPONENT\s+(\d+)\s*:\s*(.*?)\s*$", model, flags=re.M)
        require([int(v) for v in blocks[1::3]] == list(range(len(told["components"]))), "components are numbered {}", blocks[1::3])
        require(blocks[2::3] == [c[0] for c in told["components"]], "components {} instead of {}", blocks[2::3], told["components"])
        for (cname, kind, pars, more), block in zip(told["components"], blocks[3::3]):
            require(line(block, "type") == {"sim": "simulation", "fixed": "fixed"}[kind], "{} {} is {}", kind, cname, block)
            require(line(block, "rate_par") == f"{cname}_rate", "the rate of {} is {}", cname, block)
            got = names_in(line(block, "pars"))
            require(sorted(got) == sorted(pars), "{} needs {} instead of {}", cname, got, sorted(pars))
            if kind == "fixed":
                require(os.path.basename(line(block, "file_name")) == more, "{} is from {} instead of {}", cname, block, more)
                if not short:
                    require(os.path.basename(line(block, "from_file")) == more, "{} is from {} instead of {}", cname, block, more)
            else:
                plugins = [n for n in names_in(block) if n.startswith((tag + "Plug", tag + "Spare"))]
                require(plugins == ([] if short else more), "worksheet of {} is {} instead of {}", cname, plugins, more)
            rec.checked(4)
        rec.checked(4)
    # a summary changes nothing
    again = printed(context.print_context_summary, short=short)
    require(again == whole, "another summary is {}", again)
    rec.nontrivial(len(expected) > 1 or any(len(t["components"]) > 1 for t in expected.values()))
    rec.label("short" if short else "long", *sorted({l["kind"] for l in case["llhs"]}))


PARTS = {"summary": summary}


def run(check, only=None):
    check.search("summary", cases(), summary, check.n(60, 1500))
    check.assumptions.append("the summaries are read as lines 'label: value' below their headings")
