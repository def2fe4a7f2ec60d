"""P06: component histograms are normalised to the rate parameter."""

import numpy as np
from hypothesis import strategies as st

from aptv import external, kit, lab
from aptv.harness import require

RULE = "at least two events inside the binning with different efficiencies (simulated) or in different bins (fixed)"


@st.composite
def cases(draw, fixed=None):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    dim = draw(st.sampled_from([1, 2]))
    mesh = draw(st.booleans())
    nx = draw(st.integers(1, 4))
    ny = draw(st.integers(1, 3))
    n = draw(st.sampled_from([1, 2, 17, 60, 200]))
    bx = np.cumsum(rng.randint(1, 9, nx + 1)) / 4
    by = [np.cumsum(rng.randint(1, 9, ny + 1)) / 4 for _ in range(1 if mesh else nx)]
    bins = [bx.tolist()]
    if dim == 2:
        bins.append(by[0].tolist() if mesh else [b.tolist() for b in by])
    columns = []
    for b in [np.array([bx[0], bx[-1]]), np.concatenate(by)][:dim]:
        lo, hi = b.min(), b.max()
        spread = draw(st.sampled_from([0.0, 0.3, 2.0]))
        x = rng.uniform(lo - spread * (hi - lo), hi + spread * (hi - lo), n)
        # odd multiples of 1/1024 are never on an edge, and exact in single precision
        columns.append(((np.floor(x * 512) * 2 + 1) / 1024).tolist())
    kind = draw(st.sampled_from(["flat", "any", "any", "any", "zeros"]))
    eff = {"flat": np.ones(n), "any": rng.randint(0, 17, n) / 16, "zeros": rng.randint(0, 2, n)}[kind]
    return {
        "dim": dim,
        "mesh": mesh,
        "bins": bins,
        "columns": columns,
        "eff": [float(e) for e in eff],
        "rate": float(draw(st.sampled_from([1.0, 0.0, 37.5, 1e-3, 2e4]))),
        "factor": float(draw(st.sampled_from([2.0, 0.5, 13.0]))),
        "norm_type": draw(st.sampled_from(["on_pdf", "on_sim"])),
        "add_eps": draw(st.sampled_from([False, False, True])),
        "no_eff": draw(st.sampled_from([False, False, False, True])),
        "key": draw(st.integers(0, 1000)),
    }


def bins_of(case):
    return tuple(np.array(b, dtype=float) for b in case["bins"])


def content(case, eff):
    bins = [np.array(b) for b in case["bins"]]
    return (lab.ref_mesh if case["mesh"] else lab.ref_hist)(case["columns"], eff, bins)


def simulated(case, rec):
    kit.reset()
    axes = ["cs1", "cs2"][: case["dim"]]
    n = len(case["eff"])
    cls = lab.table_class(
        kit.unique("Sim"), axes, n, "t", norm_type=case["norm_type"], add_eps=case["add_eps"]
    )
    component = cls(
        name="comp", llh_name=kit.unique("llh"), bins=bins_of(case), bins_type="meshgrid" if case["mesh"] else "irreg"
    )
    component.rate_name = "comp_rate"
    component.deduce(data_names=axes, func_name="sim", force_no_eff=case["no_eff"])
    component.compile()
    pars = lab.tables("t", axes, case["columns"], case["eff"])
    pars["comp_rate"] = case["rate"]
    key = kit.key_of(case["key"])
    eff = np.ones(n) if case["no_eff"] else np.array(case["eff"])
    raw = content(case, eff)
    batch = n
    _, hist = component.simulate_hist(key, batch, pars)
    hist = np.asarray(hist, dtype=float)
    pdf = case["norm_type"] == "on_pdf"
    if pdf and raw.sum() == 0 and not case["add_eps"]:
        return
    require(hist.shape == raw.shape, "shape {} instead of {}", hist.shape, raw.shape)
    if pdf:
        require(kit.close(hist.sum(), case["rate"], 1e-5), "total {} instead of the rate {}", hist.sum(), case["rate"])
    if not case["add_eps"]:
        expected = raw * case["rate"] / (raw.sum() if pdf else batch)
        require(kit.close(hist, expected, 1e-5, 1e-7 * case["rate"]), "{} instead of {}", hist.tolist(), expected.tolist())
    else:
        floor = np.maximum(raw, 1e-10 + eff.mean())
        expected = floor * case["rate"] / (floor.sum() if pdf else batch)
        require(kit.close(hist, expected, 1e-5, 1e-7 * case["rate"]), "protected: {} instead of {}", hist.tolist(), expected.tolist())
    # linear in the rate
    _, scaled = component.simulate_hist(key, batch, dict(pars, comp_rate=case["rate"] * case["factor"]))
    require(kit.close(scaled, hist * case["factor"], 1e-5, 1e-30), "not linear in the rate")
    if not pdf:
        # the batch size that was asked for is the number of simulated events
        _, other = component.simulate_hist(key, 2 * n, pars)
        require(kit.close(np.asarray(other) * 2, hist, 1e-5, 1e-30), "on_sim does not divide by the number of events")
    if not case["no_eff"] and not case["add_eps"]:
        key2, events = component.simulate_weighted_data(key, batch, pars)
        require(kit.key_bits(key2) is not None, "")
        weighted(case, events, hist)
    rec.checked(4)
    rec.nontrivial(np.count_nonzero(raw) and len(set(case["eff"])) > 1)
    rec.label(case["norm_type"], "mesh" if case["mesh"] else "irreg", f"{case['dim']}D")
    if case["no_eff"]:
        rec.label("no efficiency")
    if case["add_eps"]:
        rec.label("protected")


def weighted(case, events, hist):
    require(len(events) == case["dim"] + 1, "{} columns of weighted data", len(events))
    events = [np.asarray(e, dtype=float) for e in events]
    require(len({len(e) for e in events}) == 1, "columns of different length")
    bins = [np.array(b) for b in case["bins"]]
    for e, b in zip(events, bins):
        require(np.all((e >= b.min()) & (e <= b.max())), "weighted data outside the binning")
    if len(events[0]):
        again = (lab.ref_mesh if case["mesh"] else lab.ref_hist)(events[:-1], events[-1], bins)
    else:
        again = np.zeros_like(hist)
    tolerance = 1e-5 * max(np.abs(hist).sum(), 1e-30)
    require(kit.close(again, hist, 1e-4, tolerance), "weighted data give {} instead of {}", again.tolist(), hist.tolist())


def fixed(case, rec):
    kit.reset()
    axes = ["cs1", "cs2"][: case["dim"]]
    raw = content(case, np.ones(len(case["eff"])))
    if raw.sum() == 0:
        return
    # other columns and their order in the file do not matter
    columns = {"other": np.arange(len(case["eff"]))}
    columns.update(dict(zip(axes[::-1], case["columns"][::-1])))
    path = kit.write_csv("fixed.csv", columns)
    cls = kit.make_fixed(kit.unique("Fixed"), norm_type=case["norm_type"], add_eps_to_hist=case["add_eps"])
    component = cls(
        name="comp",
        llh_name=kit.unique("llh"),
        bins=bins_of(case),
        bins_type="meshgrid" if case["mesh"] else "irreg",
        file_name=path,
    )
    component.rate_name = "comp_rate"
    component.deduce(data_names=axes)
    component.compile()
    pars = {"comp_rate": case["rate"], "unused": 3.0}
    hist = np.asarray(component.simulate_hist(pars), dtype=float)
    pdf = case["norm_type"] == "on_pdf"
    if pdf:
        require(kit.close(hist.sum(), case["rate"], 1e-5), "total {} instead of the rate {}", hist.sum(), case["rate"])
    # every event has weight one, which is what the protection adds to an empty bin
    floor = np.maximum(raw, 1 + 1e-10) if case["add_eps"] else raw
    expected = floor * case["rate"] / (floor.sum() if pdf else len(case["eff"]))
    require(kit.close(hist, expected, 1e-5), "{} instead of {}", hist.tolist(), expected.tolist())
    if not case["add_eps"]:
        for _ in range(2):  # repeated calls give the same
            weighted(case, component.simulate_weighted_data(pars), hist)
    scaled = component.simulate_hist({"comp_rate": case["rate"] * case["factor"]})
    require(kit.close(scaled, hist * case["factor"], 1e-5), "not linear in the rate")
    require(kit.close(component.simulate_hist(pars), hist, 0), "the histogram changed by using it")
    rec.checked(4)
    rec.nontrivial(np.count_nonzero(raw) > 1)
    rec.label("mesh" if case["mesh"] else "irreg", f"{case['dim']}D", case["norm_type"])


@st.composite
def llh_cases(draw):
    parts = [draw(cases()) for _ in range(draw(st.integers(1, 3)))]
    for p in parts[1:]:
        # all components of a likelihood have its binning
        for k in ("dim", "mesh", "bins"):
            p[k] = parts[0][k]
        p["columns"] = (p["columns"] + p["columns"])[: p["dim"]]
    for p in parts:
        p["add_eps"] = p["no_eff"] = False
        p["fixed"] = draw(st.booleans())
    return {"parts": parts}


def likelihood(case, rec):
    """The model histogram of a likelihood is the sum over its components, as are its weighted events."""
    import appletree as apt

    kit.reset()
    first = case["parts"][0]
    dim, mesh = first["dim"], first["mesh"]
    axes = ["cs1", "cs2"][:dim]
    lo, hi = first["bins"][0][0], first["bins"][0][-1]
    flat = np.ravel(first["bins"][1]) if dim == 2 else [0, 1]
    data = {a: [1.0] for a in axes}
    config = {
        "data_file_name": kit.write_csv("data.csv", data),
        "bins_type": "meshgrid" if mesh else "irreg",
        "bins_on": axes if dim == 2 or len(first["eff"]) % 2 else axes[0],
        "bins": first["bins"],
        "clip": [lo, hi],
        "x_clip": [lo, hi],
        "y_clip": [float(min(flat)), float(max(flat))],
    }
    llh = apt.Likelihood(name=kit.unique("llh"), **config)
    pars, expected, n_sim = {}, 0, 0
    batch = 50
    for i, part in enumerate(case["parts"]):
        raw = content(part, np.ones(len(part["eff"])) if part["fixed"] else np.array(part["eff"]))
        if raw.sum() == 0:
            continue
        name = f"c{i}"
        if part["fixed"]:
            path = kit.write_csv(f"{name}.csv", dict(zip(axes, part["columns"])))
            llh.register_component(kit.make_fixed(kit.unique("Fixed"), norm_type=part["norm_type"]), name, path)
            norm = raw.sum() if part["norm_type"] == "on_pdf" else len(part["eff"])
        else:
            cls = lab.table_class(kit.unique("Sim"), axes, len(part["eff"]), name, norm_type=part["norm_type"])
            llh.register_component(cls, name)
            pars.update(lab.tables(name, axes, part["columns"], part["eff"]))
            norm = raw.sum() if part["norm_type"] == "on_pdf" else batch
            n_sim += 1
        pars[name + "_rate"] = part["rate"]
        expected = expected + raw * part["rate"] / norm
    if not len(llh.components):
        return
    _, events = llh.simulate_weighted_data(kit.key_of(3), batch, pars)
    weighted(first, events, expected)
    total = float(llh.get_num_events_accepted(batch, pars))
    require(kit.close(total, expected.sum(), 1e-5, 1e-6), "{} events accepted instead of {}", total, expected.sum())
    for name, component in llh.components.items():
        require(component.rate_name == name + "_rate", "rate of {} is {}", name, component.rate_name)
    rec.checked(2)
    rec.nontrivial(len(llh.components) > 1)
    rec.label(f"{n_sim} simulated of {len(llh.components)}")


@st.composite
def external_cases(draw):
    return {
        "events": draw(st.integers(20, 2000)),
        "batch": draw(st.sampled_from([10, 50, 200])),
        "rate": draw(st.sampled_from([1.0, 37.5, 1e-3])),
        "bins": draw(st.integers(1, 5)),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


def external_events(case, rec):
    """The number of simulated events is that of the external simulation of which they were selected."""
    import appletree as apt

    kit.reset()
    path, _ = external.pool(np.random.default_rng(case["seed"]), case["events"])
    apt.set_global_config({"g4": [path, case["batch"], case["seed"] % 1000]})
    edges = np.linspace(-1.0, case["events"] * 0.021, case["bins"] + 1)
    component = external.component_class()(name="comp", llh_name=kit.unique("llh"), bins=(edges,), bins_type="irreg")
    component.rate_name = "comp_rate"
    component.deduce(data_names=["double"], func_name="sim")
    component.compile()
    del external.BUILT[:]
    component.compile()
    energy = np.float32(external.BUILT[-1][-1])
    _, hist = component.simulate_hist(kit.key_of(1), case["batch"], {"comp_rate": case["rate"]})
    expected = np.histogram(2 * energy, edges, weights=np.where(energy > 3, 1.0, 0.0))[0] * case["rate"] / case["events"]
    require(kit.close(hist, expected, 1e-5, 1e-9), "{} instead of {}", np.asarray(hist).tolist(), expected.tolist())
    rec.checked()
    rec.nontrivial(case["events"] != case["batch"] and expected.sum() > 0)
    rec.label("external events")


PARTS = {"external": external_events, "simulated": simulated, "fixed": fixed, "likelihood": likelihood}


def run(check, only=None):
    if only in (None, "external"):
        check.search("external", external_cases(), external_events, check.n(12, 300))
    if only in (None, "simulated"):
        check.search("simulated", cases(), simulated, check.n(90, 2000))
    if only in (None, "fixed"):
        check.search("fixed", cases(), fixed, check.n(60, 1500))
    if only in (None, "likelihood"):
        check.search("likelihood", llh_cases(), likelihood, check.n(40, 1000))
    check.assumptions += ["up to 200 events and 12 bins; events are never exactly on an edge (see P04 for edges)"]
