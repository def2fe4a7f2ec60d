"""P29: repeated simulation concatenates independent batches."""

import numpy as np
from hypothesis import strategies as st

from aptv import external, kit, shipped
from aptv.harness import require

RULE = "at least two repetitions of a random simulation"

RELATIONS = {
    "a": lambda u, v, q: u,
    "b": lambda u, v, q: 2 * u + 1,
    "c": lambda u, v, q: u * v + q,
    "energy": lambda u, v, q: 3 * v - q,
}


@st.composite
def cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    names = [str(n) for n in rng.permutation(sorted(RELATIONS))[: rng.randint(1, 5)]]
    return {
        "outputs": names,
        "energy": bool("energy" in names or rng.rand() < 0.5),
        "batches": [int(v) for v in rng.choice([1, 2, 5, 17], 3)],
        "times": [int(v) for v in rng.randint(1, 5, 3)],
        "apply_eff": [bool(v) for v in rng.randint(0, 2, 3)],
        "recompile": [bool(v) for v in rng.randint(0, 2, 3)],
        "no_eff": bool(rng.rand() < 0.2),
        # events of a tiny efficiency are selected as well
        "scale": [1.0, 1.0, 1e-4, 1e-9, 1e-30][rng.randint(5)],
        "threshold": float(rng.choice([0.0, 0.3, 0.6, 1.1])),
        "binary": bool(rng.rand() < 0.5),
        "q": float(rng.randint(1, 9)) / 4,
        "key": int(rng.randint(2**31)),
        "in_likelihood": bool(rng.rand() < 0.3),
    }


def component_of(case):
    """A component which draws u and v, and computes everything else from them."""
    import jax.numpy as jnp
    from appletree import randgen

    provided = sorted(set(case["outputs"]) | ({"energy"} if case["energy"] else set()))

    def draws(self, key, parameters, batch_size):
        key, u = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))
        key, v = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))
        return key, u, v

    def rest(self, key, parameters, u, v):
        values = [RELATIONS[n](u, v, parameters["q"]) for n in provided]
        eff = jnp.where(v >= case["threshold"], case["scale"] if case["binary"] else v * case["scale"], 0.0)
        return tuple([key] + values + [eff])

    plugins = [
        kit.make_plugin(kit.unique("Draw"), ["batch_size"], ["u", "v"], draws),
        kit.make_plugin(kit.unique("Rest"), ["u", "v"], provided + ["eff"], rest, parameters=["q"]),
    ]
    return kit.make_component(kit.unique("Rep"), plugins, register=False)


def check_repetition(component, names, case, parameters, rec, no_eff):
    first = None
    for batch, times, apply_eff, recompile in zip(case["batches"], case["times"], case["apply_eff"], case["recompile"]):
        key = kit.key_of(case["key"])
        method = component.multiple_simulations_compile if recompile else component.multiple_simulations
        if no_eff and apply_eff:
            require(kit.refused(method, key, batch, parameters, times, apply_eff), "selects by an efficiency which is not there")
            rec.label("no efficiency")
            rec.checked()
            continue
        # one by one
        reference = []
        k = key
        for _ in range(times):
            k, result = component.simulate(k, batch, parameters)
            result = [np.array(r) for r in result]
            if apply_eff:
                keep = result[-1] > 0
                result = [r[keep] for r in result]
            reference.append(result)
        given = dict(parameters)
        if apply_eff:
            new_key, got = method(key, batch, given, times, apply_eff=True)
        else:
            new_key, got = method(key, batch, given, times)
        require(given == parameters, "the parameters were changed")
        require(kit.key_bits(new_key) == kit.key_bits(k), "another key than after {} simulations", times)
        require(len(got) == len(names), "{} outputs instead of {}", len(got), len(names))
        for i, name in enumerate(names):
            expected = np.concatenate([r[i] for r in reference])
            require(np.shape(got[i]) == expected.shape, "{} has shape {} instead of {}", name, np.shape(got[i]), expected.shape)
            require(kit.close(got[i], expected, 1e-5, 1e-6), "{} is not the concatenation of the batches", name)
        if times > 1 and not apply_eff:
            first = np.asarray(got[0])
            for i in range(1, times):
                same = np.array_equal(first[:batch], first[i * batch : (i + 1) * batch])
                require(not same or len(set(first.tolist())) == 1, "batch {} repeats the first", i)
        if not apply_eff:
            require(len(got[0]) == times * batch, "{} events instead of {} batches of {}", len(got[0]), times, batch)
        yield dict(zip(names, map(np.asarray, got))), apply_eff
        rec.nontrivial(times > 1)
        rec.label("selected" if apply_eff else "all", "recompiled" if recompile else "compiled once")
        rec.checked(4 + len(names))
    require(kit.refused(component.multiple_simulations, kit.key_of(1), 5, parameters, 0), "zero repetitions")
    require(kit.refused(component.multiple_simulations_compile, kit.key_of(1), 5, parameters, 0), "zero repetitions after recompilation")


def repeated(case, rec):
    kit.reset()
    cls = component_of(case)
    kwargs = {"bins": [np.linspace(0, 1, 3)] * len(case["outputs"]), "bins_type": "meshgrid"} if case["in_likelihood"] else {}
    component = cls(name="rep", llh_name=kit.unique("llh"), **kwargs)
    component.deduce(data_names=list(case["outputs"]), force_no_eff=case["no_eff"])
    component.compile()
    names = list(case["outputs"]) + ([] if case["no_eff"] else ["eff"])
    parameters = {"q": case["q"], "other": 1.0}
    for got, selected in check_repetition(component, names, case, parameters, rec, case["no_eff"]):
        # events stay aligned
        if "a" in got and "b" in got:
            require(kit.close(got["b"], 2 * got["a"] + 1, 1e-5, 1e-5), "events are mixed up")
        if "energy" in got and not case["no_eff"]:
            v = (got["energy"] + case["q"]) / 3
            eff = np.where(v >= case["threshold"], case["scale"] if case["binary"] else v * case["scale"], 0.0)
            near = np.abs(v - case["threshold"]) < 1e-5
            require(np.all(near | (np.abs(eff - got["eff"]) < 1e-5 * case["scale"])), "efficiencies are mixed up")
        if selected:
            require(np.all(got["eff"] > 0), "keeps events without efficiency")


def builtin(case, rec):
    kit.reset()
    component = shipped.build(case["kind"], data_names=case["outputs"])
    parameters = shipped.parameters(case["kind"], component)
    for _ in check_repetition(component, list(case["outputs"]) + ["eff"], case, parameters, rec, False):
        pass


@st.composite
def external_cases(draw):
    return {
        "pools": [draw(st.integers(400, 900)) for _ in range(2)],
        "per_likelihood": draw(st.booleans()),
        "given": draw(st.sampled_from([True, True, True, False])),
        "batch": draw(st.sampled_from([5, 40])),
        "first_batch": draw(st.sampled_from([3, 40])),
        "times": draw(st.integers(1, 4)),
        "apply_eff": draw(st.booleans()),
        "key": draw(st.integers(0, 2**31 - 1)),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


def from_outside(case, rec):
    """Components with external events draw new ones for each recompiled repetition."""
    import appletree as apt

    kit.reset()
    rng = np.random.default_rng(case["seed"])
    llh, other = kit.unique("llh"), kit.unique("llh")
    files = [external.pool(rng, n) for n in case["pools"]]
    value = [[f, case["first_batch"], 11 + i] for i, (f, _) in enumerate(files)]
    given = {llh: value[0], other: value[1]} if case["per_likelihood"] else value[0]
    if case["given"]:
        apt.set_global_config({"g4": given})
    component = external.component_class()(name="ext", llh_name=llh)
    names = ["energy", "double", "moved", "eff"]
    component.deduce(data_names=names[:-1])
    component.compile()
    runs = []
    for key in (case["key"], case["key"], case["key"] + 1):
        del external.BUILT[:]
        _, got = component.multiple_simulations_compile(
            kit.key_of(key), case["batch"] if case["given"] else 7, {}, case["times"], apply_eff=case["apply_eff"]
        )
        got = dict(zip(names, map(np.asarray, got)))
        runs.append(got["moved"])
        require(len({len(v) for v in got.values()}) == 1, "outputs of different lengths")
        require(kit.close(got["double"], 2 * got["energy"], 1e-6, 1e-9), "events are mixed up")
        if not case["given"]:
            require(np.all(got["energy"] == 3), "energies {} without external events", got["energy"][:5])
            rec.checked(2)
            continue
        built = external.BUILT
        require(len(built) == case["times"], "{} bootstraps for {} repetitions", len(built), case["times"])
        for name, path, batch, seed, energy in built:
            require(name == llh and path == files[0][0], "{} takes the events of {} from {}", llh, name, path)
            require(batch == case["batch"], "{} events instead of {}", batch, case["batch"])
        require(len({b[3] for b in built}) == case["times"], "seeds {} of the bootstraps", [b[3] for b in built])
        energy = np.concatenate([b[4] for b in built]).astype(np.float32)
        if case["apply_eff"]:
            energy = energy[energy > 3]
        require(kit.close(got["energy"], energy, 1e-6, 1e-9), "the energies are not those of the bootstraps")
        if case["per_likelihood"]:
            require(apt.share._cached_configs["g4"][other] == [files[1][0], case["first_batch"], 12], "the events of another likelihood changed")
        rec.checked(6)
    require(np.array_equal(runs[0], runs[1]), "another result for the same key")
    if len(runs[0]) > 3 and case["given"]:
        require(not np.array_equal(runs[0], runs[2]), "the same result for another key")
    rec.nontrivial(case["given"] and case["times"] > 1)
    rec.label("external events" if case["given"] else "no external events", "per likelihood" if case["per_likelihood"] else "global")


PARTS = {"repeated": repeated, "builtin": builtin, "external": from_outside}


def run(check, only=None):
    if only in (None, "external"):
        check.search("external", external_cases(), from_outside, check.n(12, 400))
    if only == "external":
        return
    check.search("repeated", cases(), repeated, check.n(32, 1000))
    kinds = ["ERPeak"] if check.tier == "quick" else ["ERPeak", "ERBand", "NR", "ERBandNestV2"]
    check.sweep(
        "builtin",
        [
            {
                "kind": k,
                "outputs": ["cs1", "cs2"],
                "batches": [50, 50],
                "times": [3, 2],
                "apply_eff": [False, True],
                "recompile": [False, k != "NR"],
                "key": 5,
            }
            for k in kinds
        ],
        builtin,
    )
