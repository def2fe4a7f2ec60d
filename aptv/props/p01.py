"""P01: workflow deduction composes the registered plugins correctly."""

import numpy as np
from hypothesis import strategies as st

from aptv import graphs, kit
from aptv.harness import require

RULE = (
    "a generated plugin graph whose requested outputs need at least three plugins, or have an overridden data name, "
    "or have a missing provider"
)

PARAMS = {"pa": 3, "pb": 5, "pc": 11, "pd": 42}


@st.composite
def cases(draw, missing=False):
    spec = draw(graphs.graph(missing=missing))
    names = [n for n in spec["names"] if n != "eff"]
    requests = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        request = draw(st.lists(st.sampled_from(names), min_size=1, max_size=min(4, len(names)), unique=True))
        if draw(st.booleans()):
            request.insert(draw(st.integers(0, len(request))), "eff")
        requests.append(
            {
                "data_names": request,
                "as_tuple": draw(st.booleans()),
                "no_eff": draw(st.sampled_from([False, False, False, True])),
            }
        )
    return {
        "spec": spec,
        "requests": requests,
        "batch": draw(st.sampled_from([1, 2, 3, 7])),
        "key": draw(st.integers(0, 2**31 - 1)),
        "params": {k: draw(st.integers(0, 96)) for k in PARAMS},
    }


def graph_case(case, rec):
    kit.reset()
    spec = case["spec"]
    trace = []
    classes = graphs.build(spec, kit.unique("G"), trace)
    component = kit.make_component(kit.unique("C"), classes, register=False)(llh_name=kit.unique("llh"))
    base = np.arange(case["batch"])
    for i, request in enumerate(case["requests"]):
        if request["no_eff"] is False and component.force_no_eff:
            continue
        wanted = [n for n in request["data_names"] if n != "eff"]
        if not request["no_eff"]:
            wanted.append("eff")
        used, names = graphs.needed(spec, wanted)
        given = tuple(request["data_names"]) if request["as_tuple"] else list(request["data_names"])

        def deduce():
            component.deduce(
                data_names=given,
                func_name=f"simulate{i}",
                nodep_data_name=spec["nodep"],
                force_no_eff=request["no_eff"],
            )
            component.compile()

        if used is None:
            require(kit.refused(deduce), "a needed data name has no provider, but deduction was accepted: {}", wanted)
            rec.nontrivial()
            rec.label("missing provider")
            return
        kit.reset()
        deduce()
        del trace[:]
        argument = case["batch"] if spec["nodep"] == "batch_size" else base
        _, result = component.simulate(kit.key_of(case["key"]), argument, case["params"])
        expected = graphs.evaluate(spec, wanted, base, case["params"])
        require(len(result) == len(wanted), "{} outputs for {}", len(result), wanted)
        for name, got, exp in zip(wanted, result, expected):
            require(
                np.array_equal(np.asarray(got), exp),
                "output {} is {} instead of {}",
                name,
                np.asarray(got).tolist(),
                exp.tolist(),
            )
        require(set(trace) == used, "plugins {} ran, but {} are needed", sorted(set(trace)), sorted(used))
        require(len(trace) == len(used), "a plugin ran more than once: {}", trace)
        rec.checked(len(wanted))
        overridden = sum(len(p["provides"]) for p in spec["plugins"]) > len(graphs.providers(spec))
        rec.nontrivial(len(used) >= 3 or overridden)
        rec.label(f"{min(len(used), 6)} plugins")
        if overridden:
            rec.label("overridden")
        if len(used) < len(spec["plugins"]):
            rec.label("unneeded plugins")
        if spec["nodep"] != "batch_size":
            rec.label("custom input")
        if any(len(p["provides"]) > 1 for p in spec["plugins"]):
            rec.label("multi-output")


def builtin_case(case, rec):
    """Shipped components: any order of any outputs has the values of one-by-one requests for everything."""
    import appletree as apt

    kit.reset()
    key = kit.key_of(case["key"])
    cls = getattr(apt.components, case["component"])
    parameters = apt.Parameter(apt.get_file_path(case["parameters"])).get_all_parameter()
    component = cls(llh_name=kit.unique("llh"))
    component.deduce(data_names=case["data_names"], func_name="simulate")
    component.compile()
    _, result = component.simulate(key, 50, parameters)
    require(len(result) == len(case["data_names"]) + 1, "wrong number of outputs")
    other = cls(llh_name=kit.unique("llh"))
    order = sorted(case["data_names"])
    other.deduce(data_names=["eff"] + order, func_name="simulate")
    other.compile()
    _, reference = other.simulate(key, 50, parameters)
    # the efficiency is last in both, whatever the order of the request
    eff = np.asarray(result[-1])
    require(np.all((eff >= 0) & (eff <= 1)), "the last output is not an efficiency")
    require(np.asarray(reference[-1]).shape == eff.shape, "shape of the efficiency")
    if case["data_names"] == order:
        for a, b in zip(result, reference):
            require(np.array_equal(np.asarray(a), np.asarray(b)), "position of eff in the request changes the result")
    rec.nontrivial()


PARTS = {"graph": graph_case, "missing": graph_case, "builtin": builtin_case}


def run(check, only=None):
    if only in (None, "graph"):
        check.search("graph", cases(), graph_case, check.n(110, 3000))
    if only in (None, "missing"):
        check.search("missing", cases(missing=True), graph_case, check.n(60, 600))
    if only in (None, "builtin"):
        check.sweep(
            "builtin",
            [
                {"component": "ERBand", "parameters": "er.json", "data_names": ["cs1", "cs2"], "key": 1},
                {"component": "ERBand", "parameters": "er.json", "data_names": ["rec_r", "energy", "cs2"], "key": 2},
            ],
            builtin_case,
        )
    check.assumptions += [
        "generated graphs have at most 7 ranks, 10 data names and 10 plugins; every output is an integer vector",
        "evaluation of a plugin is observed when it is traced by JAX",
    ]
