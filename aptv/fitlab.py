"""Small contexts with a deterministic posterior, for real fits, and the reference of that posterior.

Every simulated component has the same four events for every key; the weight of an event is
``exp(-(1 + shift) * sum_q q * slope)``, so the posterior is smooth and known in closed form.
"""

import json
import os

import numpy as np

from aptv import kit
from aptv.props import p10

Q = ["qa", "qb", "qc"]
EDGES = [0.0, 0.3, 0.6, 1.0]
EVENTS = np.array([0.1, 0.4, 0.5, 0.9])


def prior(kind, centre, width, rng):
    a = float(rng.uniform(0.3, 1.5) * width)
    b = float(rng.uniform(0.3, 1.5) * width)
    args = {
        "free": {},
        "fixed": {"val": centre},
        "norm": {"mean": centre + a / 4, "std": a},
        "uniform": {"lower": centre - a, "upper": centre + b},
        "twohalfnorm": {"mu": centre - a / 4, "sigma_pos": a, "sigma_neg": b},
    }[kind]
    # sometimes the range cuts the starting points, or is a bit inside the uniform prior
    lo = centre - width * float(rng.choice([0.3, 1.0, 2.5], p=[0.3, 0.4, 0.3]))
    hi = centre + width * float(rng.choice([0.3, 1.0, 2.5], p=[0.3, 0.4, 0.3]))
    return {
        "prior_type": kind,
        "prior_args": args,
        "allowed_range": [lo, hi],
        "init_mean": centre,
        "init_std": width * float(rng.choice([0.1, 0.3])),
        "unit": "1",
        "doc": "",
    }


def draw_spec(rng, n_llh=None):
    """A context and its parameters."""
    llhs = []
    for i in range(int(n_llh or rng.integers(1, 3))):
        components = []
        for j in range(int(rng.integers(1, 3))):
            kind = "fixed" if j and rng.random() < 0.4 else "sim"
            qs = sorted(str(q) for q in rng.choice(Q, int(rng.integers(1, 3)), replace=False)) if kind == "sim" else []
            components.append([f"c{j}" if rng.random() < 0.5 else f"l{i}c{j}", kind, qs])
        llhs.append(
            {
                "components": components,
                "alias": {},
                "copy": {},
                "shift": float(rng.integers(0, 5)) / 8,
                "counts": [int(v) for v in rng.integers(1, 12, 3)],
                "slopes": [[float(v) for v in rng.uniform(0, 1, 4)] for _ in Q],
            }
        )
        for q in sorted({q for c in components for q in c[2]}):
            style = rng.random()
            if style < 0.3:
                llhs[-1]["alias"][f"own{i}_{q}"] = q
    names = set()
    for llh in llhs:
        for name in needed(llh):
            names.add(name)
    config = {}
    for name in sorted(names):
        rate = name.endswith("_rate")
        kind = str(rng.choice(["free", "norm", "uniform", "twohalfnorm", "fixed"], p=[0.25, 0.25, 0.2, 0.15, 0.15]))
        config[name] = prior(kind, float(rng.uniform(20, 40)) if rate else float(rng.uniform(0.5, 1.5)), 12.0 if rate else 0.5, rng)
    # a rate may be a copy of another parameter, which is needed only as a template or is a rate itself
    rates = sorted({c[0] + "_rate" for llh in llhs for c in llh["components"]})
    templates = {}
    if rng.random() < 0.5:
        copied = str(rng.choice(rates))
        others = [r for r in rates if r != copied]
        source = str(rng.choice(others)) if others and rng.random() < 0.4 else "template_rate"
        for llh in llhs:
            if copied in [c[0] + "_rate" for c in llh["components"]]:
                llh["copy"][copied] = source
                break
        if source == "template_rate":
            templates["template_rate"] = config.pop(copied)
        else:
            config.pop(copied)
        config_full = dict(config)
        config_full[copied] = templates.get(source) or config[source]
        more = [r for r in others if r != source]
        if more and rng.random() < 0.7:
            # another copy, of a template of its own
            second = str(rng.choice(more))
            owners = [llh for llh in llhs if second in [c[0] + "_rate" for c in llh["components"]]]
            owners[-1]["copy"][second] = "second_template"
            templates["second_template"] = config_full[second] = config.pop(second)
    else:
        config_full = dict(config)
    given = dict(config)
    given.update(templates)
    if all(v["prior_type"] == "fixed" for v in config_full.values()):
        for v in given.values():
            v.update(prior_type="free", prior_args={})
        for v in config_full.values():
            v.update(prior_type="free", prior_args={})
    return {
        "llhs": llhs,
        "given": given,  # the parameter configuration as given
        "config": config_full,  # with copies and without templates
        "option": str(rng.choice(["per likelihood", "global", "default"])),
        "as_file": bool(rng.random() < 0.3),
        "par_file": bool(rng.random() < 0.3),
    }


def needed(llh):
    names = {f"{c[0]}_rate" for c in llh["components"]} | {q for c in llh["components"] for q in c[2]}
    for new, old in llh["alias"].items():
        names.discard(old)
        names.add(new)
    return names


class Lab:
    def __init__(self, spec, tag=None):
        self.spec = spec
        self.tag = tag or kit.unique("Fit")
        self.names = [f"{self.tag}l{i}" for i in range(len(spec["llhs"]))]
        self.define()
        self.fitted = sorted(k for k, v in spec["config"].items() if v["prior_type"] != "fixed")
        self.fixed = {k: v["prior_args"]["val"] for k, v in spec["config"].items() if v["prior_type"] == "fixed"}
        self.instruct = self.make_instruct()

    def shift(self, i):
        option = self.spec["option"]
        return self.spec["llhs"][i]["shift"] if option == "per likelihood" else self.spec["llhs"][0]["shift"] if option == "global" else 0.125

    def define(self):
        import appletree as apt
        import jax.numpy as jnp

        spec = self.spec
        for i, llh in enumerate(spec["llhs"]):
            for name, kind, qs in llh["components"]:
                if kind == "fixed":
                    continue

                def body(self, key, parameters, batch_size, llh=llh, qs=qs):
                    total = jnp.zeros(len(EVENTS))
                    for q in qs:
                        total = total + parameters[q] * jnp.asarray(llh["slopes"][Q.index(q)])
                    eff = jnp.exp(-(1 + self.fit_shift.value) * total)
                    # the batch size matters for the first event
                    eff = eff.at[0].multiply(1.0 + (batch_size % 7) / 7)
                    return key, jnp.asarray(EVENTS), eff

                plugin = kit.make_plugin(
                    f"{self.tag}P{i}{name}",
                    ["batch_size"],
                    ["cs1", "eff"],
                    body,
                    parameters=qs,
                    configs=[apt.Constant(name="fit_shift", type=float, default=0.125)],
                )
                kit.make_component(f"{self.tag}C{i}{name}", [plugin])
        kit.make_fixed(self.tag + "Fixed")

    def make_instruct(self, backend=None):
        spec = self.spec
        instruct = {"configs": {}, "likelihoods": {}}
        if spec["option"] == "per likelihood":
            instruct["configs"]["fit_shift"] = {n: self.shift(i) for i, n in enumerate(self.names)}
        elif spec["option"] == "global":
            instruct["configs"]["fit_shift"] = self.shift(0)
        for i, (n, llh) in enumerate(zip(self.names, spec["llhs"])):
            path = kit.write_csv(f"{n}.csv", {"cs1": np.repeat([0.2, 0.45, 0.8], llh["counts"])})
            fixed = kit.write_csv(f"{n}_fixed.csv", {"cs1": [0.2, 0.2, 0.5, 0.7, 0.9]})
            instruct["likelihoods"][n] = {
                "components": {
                    name: f"{self.tag}C{i}{name}" if kind == "sim" else {"component_cls": self.tag + "Fixed", "file_name": fixed}
                    for name, kind, _ in llh["components"]
                },
                "copy_parameters": dict(llh["copy"]),
                "parameter_alias": dict(llh["alias"]),
                "data_file_name": path,
                "bins_type": "irreg",
                "bins_on": "cs1",
                "bins": [EDGES],
                "clip": [0, 1],
            }
        if backend is not None:
            instruct["backend_h5"] = backend
        return instruct

    def context(self, backend=None, by_attribute=False):
        """A new context, as in a new process."""
        import appletree as apt

        kit.reset()
        instruct = self.make_instruct(None if by_attribute else backend)
        par_config = json.loads(json.dumps(self.spec["given"]))
        if self.spec["par_file"]:
            instruct["par_config"] = kit.write_json(f"{self.tag}_par.json", par_config)
            par_config = None
        if self.spec["as_file"]:
            instruct = kit.write_json(f"{self.tag}_instruct.json", instruct)
        context = apt.Context(instruct, par_config=par_config)
        if by_attribute:
            context.backend_h5 = backend
        return context

    # ------------------------------------------------------------------ reference
    def log_likelihood(self, point, batch_size):
        """Of the fitted parameters ``point``; and the scale of its rounding error."""
        values = dict(self.fixed)
        values.update(point)
        total, scale = 0.0, 1.0
        for i, llh in enumerate(self.spec["llhs"]):
            own = dict(values)
            for new, old in llh["alias"].items():
                own[old] = values[new]
            model = np.zeros(3)
            for name, kind, qs in llh["components"]:
                rate = own[name + "_rate"]
                if kind == "fixed":
                    hist = np.array([2.0, 1.0, 2.0])
                else:
                    exponent = sum(own[q] * np.asarray(llh["slopes"][Q.index(q)]) for q in qs)
                    weight = np.exp(-(1 + self.shift(i)) * exponent)
                    weight[0] *= 1 + (batch_size % 7) / 7
                    hist = np.array([weight[0], weight[1] + weight[2], weight[3]])
                model += rate * hist / hist.sum()
            counts = np.asarray(llh["counts"], dtype=float)
            if np.any(model <= 0):
                return -np.inf, scale
            total += float(np.sum(counts * np.log(model) - model))
            scale += float(np.sum(np.abs(counts * np.log(model)) + model))
        return total, scale

    def log_prior(self, point):
        """Up to a constant."""
        return p10.reference(self.spec["config"], point)


def stored(path, name="mcmc"):
    """Chain, log posterior and log prior in a backend file."""
    import h5py

    with h5py.File(path, "r") as f:
        g = f[name]
        n = int(g.attrs["iteration"])
        return np.array(g["chain"][:n]), np.array(g["log_prob"][:n]), np.array(g["blobs"][:n]).reshape(n, -1)


def attributes(path, name="mcmc"):
    import h5py

    with h5py.File(path, "r") as f:
        return dict(f[name].attrs)
