"""P30: components and likelihoods coexist without overwriting each other."""

import numpy as np
from hypothesis import strategies as st

from aptv import kit, lab
from aptv.harness import require

RULE = "a refused registration, a copied component, or a likelihood with two simulated components"

EDGES = [-1.0, 0.3, 0.6, 5.0]


@st.composite
def cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    ops = []
    llhs = 0
    for _ in range(rng.randint(4, 11)):
        op = str(rng.choice(["likelihood", "component", "component", "component", "again", "again llh", "copy", "function"]))
        ops.append(
            {
                "op": "likelihood" if not llhs else op,
                "llh": int(rng.randint(3)),
                "component": int(rng.randint(3)),
                "cls": int(rng.randint(4)),
                "no_eff": bool(rng.rand() < 0.5),
                "pass_binning": bool(rng.rand() < 0.5),
                "at_home": bool(rng.rand() < 0.4),
                "via": str(rng.choice(["context", "likelihood"])),
            }
        )
        llhs += ops[-1]["op"] == "likelihood"
    return {
        "ops": ops,
        "shift": [float(v) / 8 for v in rng.randint(0, 3, 3)],
        "from_config": bool(rng.rand() < 0.5),
        "key": int(rng.randint(2**31)),
        "counts": [int(v) for v in rng.randint(1, 9, 3)],
        "batch": int(rng.choice([3, 20])),
    }


def make_classes(tag):
    """Three simulated component classes which share plugins and an option, and a fixed one."""
    import appletree as apt
    from appletree import randgen

    def draw(self, key, parameters, batch_size):
        key, u = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))
        return key, u

    def shifted(self, key, parameters, u):
        return key, u + self.shift.value + parameters["q"], 0.5 + u / 2

    def squared(self, key, parameters, u):
        return key, u * u + self.shift.value, 0.5 + u / 4

    def noise(self, key, parameters, u):
        key, v = randgen.uniform(key, 0.0, 1.0, shape=u.shape)
        return key, u * v + self.shift.value, 1.0 - v / 2

    def option():
        return apt.Constant(name="shift", type=float, default=0.0)

    source = kit.make_plugin(tag + "Source", ["batch_size"], ["u"], draw)
    plugins = [
        kit.make_plugin(tag + "Shifted", ["u"], ["cs1", "eff"], shifted, parameters=["q"], configs=[option()]),
        kit.make_plugin(tag + "Squared", ["u"], ["cs1", "eff"], squared, configs=[option()]),
        kit.make_plugin(tag + "Noise", ["u"], ["cs1", "eff"], noise, configs=[option()]),
    ]
    classes = [kit.make_component(f"{tag}C{i}", [source, p], add_eps_to_hist=False) for i, p in enumerate(plugins)]
    return classes + [kit.make_fixed(tag + "Fixed")]


def history(case, rec):
    import appletree as apt

    kit.reset()
    tag = kit.unique("Co")
    classes = make_classes(tag)
    names = [f"{tag}l{i}" for i in range(3)]
    shifts = {n: s for n, s in zip(names, case["shift"])}
    shifts.update({f"{n}ref{j}": s for n, s in zip(names, case["shift"]) for j in range(4)})
    shifts.update({f"{n}copy{j}": s for n, s in zip(names, case["shift"]) for j in range(20)})
    events = np.repeat([0.1, 0.5, 0.9], case["counts"])
    csv = kit.write_csv(f"{tag}.csv", {"cs1": events})
    fixed = kit.write_csv(f"{tag}_fixed.csv", {"cs1": [0.1, 0.1, 0.5, 0.9, 0.95, 0.99]})
    parameters = {"q": 0.125}
    for i in range(3):
        parameters[f"c{i}_rate"] = 10.0 * (i + 1)

    def spec(components=()):
        return dict(
            components={c: (classes[k].__name__ if k < 3 else {"component_cls": classes[3].__name__, "file_name": fixed}) for c, k in components},
            copy_parameters={},
            data_file_name=csv,
            bins_type="irreg",
            bins_on="cs1",
            bins=[EDGES],
            clip=[0, 2],
        )

    instruct = {"configs": {"shift": shifts}, "likelihoods": {}}
    model = {}  # likelihood -> component -> class index
    ops = list(case["ops"])
    if case["from_config"]:
        # the first registrations come from the instructions
        while ops and ops[0]["op"] in ("likelihood", "component"):
            op = ops[0]
            llh = names[op["llh"]]
            if op["op"] == "likelihood":
                if llh in model:
                    break
                model[llh] = {}
            else:
                if not model:
                    break
                llh = sorted(model)[op["llh"] % len(model)]
                if f"c{op['component']}" in model[llh]:
                    break
                model[llh][f"c{op['component']}"] = op["cls"]
            ops.pop(0)
        instruct["likelihoods"] = {llh: spec(model[llh].items()) for llh in model}
    context = apt.Context(instruct, par_config={})
    references = {}

    def reference(llh, k):
        """The component alone, in a likelihood of its own name."""
        if (llh, k) not in references:
            component = classes[k](name="alone", llh_name=f"{llh}ref{k}", bins=(np.array(EDGES),), bins_type="irreg")
            component.deduce(data_names=["cs1"], func_name="simulate")
            component.compile()
            references[llh, k] = component
        return references[llh, k]

    copies = []
    direct = False
    key = kit.key_of(case["key"])
    n = case["batch"]
    fixed_hist = np.array([2.0, 1.0, 3.0]) / 6

    def verify():
        require(set(context.likelihoods) == set(model), "likelihoods {} instead of {}", sorted(context.likelihoods), sorted(model))
        for llh, components in model.items():
            likelihood = context[llh]
            require(list(likelihood.components) == list(components), "components {} instead of {}", list(likelihood.components), list(components))
            total = np.zeros(3)
            k1 = key
            needs = set()
            for name, k in components.items():
                needs.add(name + "_rate")
                component = likelihood[name]
                if k == 3:
                    hist = component.simulate_hist(parameters)
                    expected = fixed_hist * parameters[name + "_rate"]
                    require(kit.close(hist, expected), "the fixed component {} of {} gives {}", name, llh, hist)
                    total += expected
                    continue
                if k == 0:
                    needs.add("q")
                alone = reference(llh, k)
                ka, a = component.simulate(key, n, parameters)
                kb, b = alone.simulate(key, n, parameters)
                require(kit.key_bits(ka) == kit.key_bits(kb), "another key from {} of {}", name, llh)
                require(len(a) == len(b) and all(kit.close(x, y, 1e-6, 1e-6) for x, y in zip(a, b)), "{} of {} simulates something else than alone", name, llh)
                alone.rate_name = name + "_rate"
                k1, hist = alone.simulate_hist(k1, n, parameters)
                total += np.asarray(hist)
                rec.checked(2)
            require(likelihood.needed_parameters == needs, "{} needs {} instead of {}", llh, likelihood.needed_parameters, needs)
            if components:
                _, got = likelihood.get_log_likelihood(key, n, parameters)
                counts = np.array([c for c in case["counts"]])
                expected, scale = lab.poisson_llh(counts, total)
                require(got == expected or abs(got - expected) <= 1e-5 * scale, "log likelihood {} of {} instead of {}", got, llh, expected)
            rec.checked(3)
        # components that are registered with the likelihood itself are unknown to the context
        require(direct or context.needed_parameters >= set().union(*[c.needed_parameters for c in context.likelihoods.values()]), "needed parameters")
        for component, original, no_eff, _ in copies:
            _, a = component.simulate(key, n, parameters)
            _, b = original.simulate(key, n, parameters)
            if no_eff:
                b = b[:-1]
            require(len(a) == len(b) and all(kit.close(x, y, 1e-6, 1e-6) for x, y in zip(a, b)), "a copy simulates something else")
            rec.checked()

    verify()
    special = any(sum(k < 3 for k in c.values()) > 1 for c in model.values())
    for op in ops:
        kind = op["op"]
        if kind == "likelihood":
            llh = names[op["llh"]]
            if llh in model:
                kind = "again llh"
            else:
                context.register_likelihood(llh, spec())
                model[llh] = {}
        if not model:
            continue
        llh = sorted(model)[op["llh"] % len(model)]
        sims = [c for c, k in model[llh].items() if k < 3]
        if kind == "again llh":
            require(kit.refused(context.register_likelihood, llh, spec()), "the name {} is used twice", llh)
            special = True
        elif kind in ("component", "again"):
            name = f"c{op['component']}"
            if kind == "again":
                if not model[llh]:
                    continue
                name = sorted(model[llh])[op["component"] % len(model[llh])]
            cls = classes[op["cls"]]
            file_name = fixed if op["cls"] == 3 else None
            register = (lambda *a: context.register_component(llh, *a)) if op["via"] == "context" else context[llh].register_component
            if name in model[llh]:
                require(kit.refused(register, cls, name, file_name), "the name {} is used twice in {}", name, llh)
                special = True
            else:
                register(cls, name, file_name)
                model[llh][name] = op["cls"]
                direct = direct or op["via"] == "likelihood"
                special = special or (len(sims) > 0 and op["cls"] < 3)
        elif kind == "copy" and sims:
            name = sims[op["component"] % len(sims)]
            original = context[llh][name]
            before = original.code, original.lineage_hash, set(original.needed_parameters)
            # one copy may live in the likelihood of the original
            at_home = op["at_home"] and not any(o is original and home for _, o, _, home in copies)
            copy_llh = llh if at_home else f"{llh}copy{len(copies)}"
            copy = original.new_component(llh_name=copy_llh, pass_binning=op["pass_binning"])
            require(type(copy) is type(original), "a copy of another class")
            copy.rate_name = name + "_rate"
            copy.deduce(data_names=["cs1"], func_name=f"predict{len(copies)}", force_no_eff=op["no_eff"])
            copy.compile()
            if op["pass_binning"]:
                require(all(np.array_equal(a, b) for a, b in zip(copy.bins, original.bins)), "other bins")
            copies.append((copy, original, op["no_eff"], at_home))
            after = original.code, original.lineage_hash, set(original.needed_parameters)
            require(before == after, "copying changed the original")
            special = True
        elif kind == "function" and sims:
            name = sims[op["component"] % len(sims)]
            other = classes[op["cls"] % 3](name="other", llh_name=llh)
            used = context[llh][name].func_name

            def deduce():
                other.deduce(data_names=["cs1"], func_name=used)
                other.compile()

            require(kit.refused(deduce), "the function {} of {} is defined twice", used, llh)
            special = True
        rec.label(kind)
        verify()
    rec.nontrivial(special)


PARTS = {"history": history}


def run(check, only=None):
    check.assumptions = ["likelihoods of one process have different names, unless the caches are cleared"]
    check.search("history", cases(), history, check.n(60, 900))
