"""P05: likelihood data binning keeps all selected data and is balanced."""

import os

import GOFevaluation
import GOFevaluation.utils
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from aptv import kit, lab
from aptv.harness import require

RULE = "some events are outside the clip range or exactly on it, or edges are generated from the data"

STEP = 64.0


def grid(x):
    """Values that single precision represents exactly, such that edges do not round."""
    return np.round(np.asarray(x) * STEP) / STEP


def column(rng, n, lo, hi, ties):
    """Events around the clip range, a few of them exactly at its ends."""
    if ties == "integer":
        x = np.round(rng.uniform(lo - 3, hi + 3, n))
    elif ties == "ties":
        x = grid(rng.choice(np.linspace(lo - 2, hi + 2, 25), n))
    else:
        # distinct values with a spread that is not uniform
        size = int((hi - lo + 6) * STEP)
        w = rng.uniform(0.05, 1, size) ** 3
        picked = rng.choice(size, min(n, size), replace=False, p=w / w.sum())
        x = lo - 3 + picked / STEP
    k = rng.randint(0, 3)
    if ties != "distinct":
        x[:k] = rng.choice([lo, hi], k)
    return x


@st.composite
def cases(draw, kind=None, dim=None, ties=None):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    kind = kind or draw(st.sampled_from(["equiprob", "irreg", "meshgrid"]))
    dim = dim or int(rng.randint(1, 3))
    clips = []
    for _ in range(dim):
        lo = float(rng.randint(-20, 60))
        clips.append([lo, lo + float(rng.randint(12, 60))])
    ties = ties or [str(rng.choice(["distinct", "distinct", "ties", "integer"])) for _ in range(dim)]
    if kind == "equiprob" and rng.rand() < 0.6:
        ties = ["distinct"] * dim
    return {
        "kind": kind,
        "dim": dim,
        "clips": clips,
        "ties": ties,
        "n": int(rng.choice([60, 120, 250, 400])),
        "bins": [int(rng.randint(1, 9)) for _ in range(dim)],
        "integers": [bool(rng.rand() < 0.6) for _ in range(dim)],
        "left": bool(rng.rand() < 0.5),
        "cover": bool(rng.rand() < 0.6),
        "format": str(rng.choice(["csv", "pkl"])),
        "nan": bool(rng.rand() < 0.25),
        "as_string": bool(rng.rand() < 0.5),
        "x_clip_too": bool(rng.rand() < 0.3),
        "seed": int(rng.randint(2**31)),
    }


def explicit(rng, case):
    """Explicit edges: covering the clip range, or only a part of it."""
    dim = case["dim"]

    def edges(i):
        lo, hi = case["clips"][i]
        inner = np.unique(grid(rng.uniform(lo + 0.5, hi - 0.5, case["bins"][i] - 1)))
        if case["cover"]:
            a, b = lo - rng.randint(0, 3), hi + rng.randint(0, 3)
        else:
            a, b = lo + 0.25, hi - 0.25
        return np.concatenate([[a], inner, [b]])

    if dim == 1:
        return [edges(0)]
    if case["kind"] == "meshgrid":
        return [edges(0), edges(1)]
    x = edges(0)
    columns = []
    length = None
    for _ in range(len(x) - 1):
        y = edges(1)
        while length is not None and len(y) != length:
            y = edges(1)
        length = len(y)
        columns.append(y)
    return [x, np.array(columns)]


def binned(bins):
    """Edges as lists of float."""
    return [np.asarray(b, dtype=float) for b in bins]


def build(case):
    """The likelihood of a case, its raw data and what was asked for."""
    import appletree as apt

    rng = np.random.RandomState(case["seed"])
    dim = case["dim"]
    names = ["obs_b", "obs_a"][:dim]
    columns = {"other": rng.uniform(0, 1, case["n"])}
    data = [column(rng, case["n"], *case["clips"][i], case["ties"][i]) for i in range(dim)]
    n = min(len(c) for c in data)
    data = [c[:n] for c in data]
    if case["nan"]:
        data[0] = np.where(rng.rand(n) < 0.05, np.nan, data[0])
    if dim == 2:
        columns[names[1]] = data[1]
    columns[names[0]] = data[0]
    columns = {k: v[:n] for k, v in columns.items()}
    tag = kit.unique("data")
    if case["format"] == "csv":
        path = kit.write_csv(f"{tag}.csv", columns)
    else:
        path = os.path.abspath(f"{tag}.pkl")
        pd.DataFrame(columns).to_pickle(path)
    config = {"data_file_name": path, "bins_type": case["kind"], "left": case["left"]}
    if dim == 1:
        config["bins_on"] = names[0] if case["as_string"] else names
        config["clip"] = case["clips"][0]
    else:
        config["bins_on"] = names
        config["x_clip"], config["y_clip"] = case["clips"]
    asked = None
    integer = [False] * dim
    if case["kind"] == "equiprob":
        config["bins"] = list(case["bins"])
        integer = [bool(case["integers"][i] and case["ties"][i] == "integer" and case["bins"][i] > 1) for i in range(dim)]
        if any(integer):
            config["integer"] = integer if dim == 2 else integer[0]
    else:
        asked = explicit(rng, case)
        config["bins"] = [b.tolist() for b in asked]
        if case["kind"] == "meshgrid":
            for i in range(dim):
                if case["integers"][i]:
                    config["bins"][i] = case["bins"][i]
                    asked[i] = np.linspace(*case["clips"][i], case["bins"][i] + 1)
    if dim == 1 and case["as_string"] and isinstance(config["bins"][0], int):
        config["bins"] = config["bins"][0]
    llh = apt.Likelihood(name=tag, **config)
    fixed = kit.make_fixed(kit.unique("F"), add_eps_to_hist=False, register=False)
    llh.register_component(fixed, "c", path)
    return llh, data, asked, integer


def binning(case, rec):
    """Selected data, edges and histogram of a likelihood."""
    dim = case["dim"]
    kit.reset()
    try:
        llh, data, asked, integer = build(case)
    except ValueError as e:
        # more bins than different values
        if case["kind"] == "equiprob" and "unique values" in str(e):
            require(case["ties"] != ["distinct"] * dim or case["n"] < 12 * np.prod(case["bins"]), "refused: {}", e)
            rec.label("too few values")
            return
        raise
    data = np.array(data).T
    inside = np.ones(len(data), dtype=bool)
    for i, (lo, hi) in enumerate(case["clips"]):
        inside &= (data[:, i] > lo) & (data[:, i] < hi)
    kept = data[inside]
    got = np.asarray(llh.data)
    require(got.shape == kept.shape and np.array_equal(np.sort(got, axis=0), np.sort(kept, axis=0)), "{} events instead of {}", got.shape, kept.shape)
    require(set(map(tuple, got.tolist())) == set(map(tuple, kept.tolist())), "other events")
    bins = binned(llh["c"].bins)
    hist = np.asarray(llh.data_hist, dtype=float)
    rec.checked(2)

    if asked is not None:
        for b, a in zip(bins, asked):
            require(b.shape == np.shape(a) and np.allclose(b, a, rtol=1e-6, atol=1e-6), "edges {} instead of {}", b.tolist(), np.asarray(a).tolist())
        f = lab.ref_mesh if case["kind"] == "meshgrid" else lab.ref_hist
        exact = [kit.f32(a) for a in asked]
        expected = f(kept.T, np.ones(len(kept)), exact)
        # events which single precision cannot tell from a generated edge may be in either bin
        doubt = 0
        for i in range(dim):
            for e in np.ravel(asked[i]):
                if float(np.float32(e)) != e:
                    doubt += int(np.sum(np.abs(kept[:, i] - e) < 1e-5 * max(1, abs(e))))
        require(np.abs(hist - expected).sum() <= 2 * doubt, "histogram {} instead of {}", hist.tolist(), expected.tolist())
        if all(np.min(a) <= c[0] and np.max(a) >= c[1] for a, c in zip(asked, case["clips"])):
            require(hist.sum() == len(kept), "{} of {} events in the histogram", hist.sum(), len(kept))
            rec.label("covering")
        rec.checked(2)
    else:
        require(len(bins) == dim and len(bins[0]) == case["bins"][0] + 1, "{} edges", len(bins[0]))
        if dim == 2:
            require(bins[1].shape == (case["bins"][0], case["bins"][1] + 1), "shape of the edges {}", bins[1].shape)
        for b, (lo, hi) in zip(bins, case["clips"]):
            require(b.min() >= lo and b.max() <= hi, "edges {} beyond the clip range", b.tolist())
            d = np.diff(b, axis=-1)
            distinct = case["ties"] == ["distinct"] * dim
            require(np.all(d > 0) if distinct else np.all(d >= 0), "edges {} do not increase", b.tolist())
            rec.checked(2)
        require(hist.sum() == len(kept), "{} of {} events in the histogram", hist.sum(), len(kept))
        require(np.array_equal(hist, lab.ref_hist(kept.T, np.ones(len(kept)), [kit.f32(b) for b in bins])), "histogram {}", hist.tolist())
        if any(integer):
            # the direction of the search is that of the algorithm which divides the events
            division = GOFevaluation.utils.get_equiprobable_binning(
                kept if dim == 2 else kept[:, 0],
                list(case["bins"]) if dim == 2 else case["bins"][0],
                integer=integer if dim == 2 else integer[0],
                left=case["left"],
            )
            for b, e in zip(bins, division if dim == 2 else [division]):
                e = np.asarray(e, dtype=float)
                require(np.allclose(b[..., 1:-1], e[..., 1:-1], rtol=1e-6), "edges {} instead of {}", b.tolist(), e.tolist())
            rec.label("left" if case["left"] else "right")
        for i, flag in enumerate(integer):
            if flag:
                inner = bins[i][..., 1:-1].ravel()
                values = np.unique(kept[:, i])
                require(not np.isin(inner, values).any(), "edges {} on integers", inner.tolist())
        if case["ties"] == ["distinct"] * dim:
            columns = hist.sum(axis=1) if dim == 2 else hist
            require(columns.max() - columns.min() <= 1, "counts {}", columns.tolist())
            if dim == 2 and columns.min() > case["bins"][1] + 1:
                # events on an edge belong to the column below, but GOFevaluation binned them with the one above
                on_edge = np.isin(kept[:, 0], bins[0]).any()
                for row in hist:
                    require(row.max() - row.min() <= (3 if on_edge else 1), "counts {}", row.tolist())
                rec.label("on edge" if on_edge else "no event on edge")
            rec.checked(2)
    rec.nontrivial(len(kept) < len(data) or asked is None)
    rec.label(case["kind"], f"{dim}D", *case["ties"])


# ----------------------------------------------------------------------
@st.composite
def util_cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    return {
        "dim": int(rng.randint(1, 3)),
        "order": [[0, 1], [1, 0]][rng.randint(2)],
        "clips": [[float(a), float(a + rng.randint(10, 30))] for a in rng.choice([-40, 0, 50, 200], 2, replace=False)],
        "bins": [int(b) for b in rng.randint(1, 6, 2)],
        "default_clip": bool(rng.rand() < 0.3),
        "jax": bool(rng.rand() < 0.5),
        "n": int(rng.choice([150, 301])),
        "seed": int(rng.randint(2**31)),
    }


def utilities(case, rec):
    """Equiprobable edges made by the utilities, in either order."""
    from appletree import utils
    import jax.numpy as jnp

    rng = np.random.RandomState(case["seed"])
    dim, n = case["dim"], case["n"]
    data = np.array([column(rng, n, *case["clips"][i], "distinct") for i in range(dim)]).T
    np_ = jnp if case["jax"] else np
    clips = [[-np.inf, np.inf]] * 2 if case["default_clip"] else case["clips"]
    inside = np.ones(n, dtype=bool)
    for i in range(dim):
        inside &= (data[:, i] > clips[i][0]) & (data[:, i] < clips[i][1])
    kept = data[inside]
    if dim == 1:
        kwargs = {} if case["default_clip"] else {"clip": tuple(clips[0])}
        first = utils.get_equiprob_bins_1d(data[:, 0], case["bins"][0], which_np=np_, **kwargs)
        order, second = [0], None
    else:
        order = case["order"]
        kwargs = {} if case["default_clip"] else {"x_clip": clips[0], "y_clip": clips[1]}
        first, second = utils.get_equiprob_bins_2d(data, case["bins"], order=order, which_np=np_, **kwargs)
    first = np.asarray(first, dtype=float)
    require(len(first) == case["bins"][order[0]] + 1, "{} edges", len(first))
    for axis, edges in zip(order, [first, second]):
        if edges is None:
            continue
        edges = np.asarray(edges, dtype=float)
        lo, hi = clips[axis]
        require(np.all(edges[..., 0] == lo) and np.all(edges[..., -1] == hi), "edges {} do not span {}", edges.tolist(), [lo, hi])
        require(np.all(np.diff(edges, axis=-1) > 0), "edges {} do not increase", edges.tolist())
        rec.checked(2)
    counts = np.array([((kept[:, order[0]] > a) & (kept[:, order[0]] <= b)).sum() for a, b in zip(first[:-1], first[1:])])
    require(counts.sum() == len(kept) and counts.max() - counts.min() <= 1, "counts {}", counts.tolist())
    rec.nontrivial()
    rec.label(f"{dim}D", f"order:{order}")


# ----------------------------------------------------------------------
BAD = {
    "unknown type": ({"bins_type": "regular"}, 1),
    "no type": ({"bins_type": None}, 1),
    "equiprob edges": ({"bins_type": "equiprob", "bins": [[0.0, 5.0, 10.0]]}, 1),
    "equiprob float": ({"bins_type": "equiprob", "bins": [3.0]}, 1),
    "equiprob mixed": ({"bins_type": "equiprob", "bins": [3, [0.0, 5.0, 10.0]]}, 2),
    "too many bins": ({"bins_type": "equiprob", "bins": [10000]}, 1),
    "too few axes": ({"bins_type": "equiprob", "bins": [3]}, 2),
    "too many axes": ({"bins_type": "equiprob", "bins": [3, 3]}, 1),
    "bins no list": ({"bins_type": "equiprob", "bins": 3}, 2),
    "mesh too few": ({"bins_type": "meshgrid", "bins": [3]}, 2),
    "irreg column number": ({"bins_type": "irreg", "bins": [[0.0, 5.0, 10.0], [[0.0, 5.0, 10.0]]]}, 2),
    "irreg too many columns": ({"bins_type": "irreg", "bins": [[0.0, 10.0], [[0.0, 5.0, 10.0], [0.0, 4.0, 10.0]]]}, 2),
    "irreg ragged": ({"bins_type": "irreg", "bins": [[0.0, 5.0, 10.0], [[0.0, 5.0, 10.0], [0.0, 10.0]]]}, 2),
    "irreg integer": ({"bins_type": "irreg", "bins": [3]}, 1),
    "irreg integers": ({"bins_type": "irreg", "bins": [3, 3]}, 2),
    "three axes": ({"bins_type": "equiprob", "bins": [2, 2, 2], "bins_on": ["a", "b", "other"]}, 2),
    "bins_on number": ({"bins_type": "equiprob", "bins_on": 3}, 1),
    "bins_on tuple": ({"bins_type": "equiprob", "bins_on": ("a", "b"), "bins": [2, 2]}, 2),
    "unknown column": ({"bins_type": "equiprob", "bins_on": "nothing"}, 1),
}
GOOD = {"bins_type": "equiprob"}


def bad(case, rec):
    """A wrong binning specification is refused, the right one next to it is not."""
    import appletree as apt

    change, dim = BAD[case["what"]]
    rng = np.random.RandomState(case["seed"])
    n = 100
    path = kit.write_csv(kit.unique("bad") + ".csv", {k: rng.uniform(0.1, 9.9, n) for k in ("a", "b", "other")})
    config = {"data_file_name": path, "bins_type": "equiprob"}
    if dim == 1:
        config.update(bins_on="a", bins=[3], clip=[0, 10])
    else:
        config.update(bins_on=["a", "b"], bins=[3, 2], x_clip=[0, 10], y_clip=[0, 10])
    apt.Likelihood(name="good", **config)
    config.update(change)

    def build():
        llh = apt.Likelihood(name="bad", **config)
        # at the latest when it is used
        llh.register_component(kit.make_fixed(kit.unique("F"), register=False), "c", path)

    require(kit.refused(build), "binning with {} is accepted", case["what"])
    rec.checked()
    rec.nontrivial()
    rec.label(case["what"])


PARTS = {"binning": binning, "utilities": utilities, "bad": bad}


def run(check, only=None):
    check.assumptions = [
        "events are multiples of 1/64, such that edges of equal value in single precision are equal",
        "more events per column than bins (GOFevaluation places edges differently if every event has its own bin)",
    ]
    if only in (None, "binning"):
        for kind in ("equiprob", "irreg", "meshgrid"):
            for dim in (1, 2):
                n = check.n(20 if kind == "equiprob" else 10, 500)
                check.search("binning", cases(kind=kind, dim=dim), binning, n, salt=f"{kind}{dim}")
    if only in (None, "utilities"):
        check.search("utilities", util_cases(), utilities, check.n(60, 1500))
    if only in (None, "bad"):
        check.sweep("bad", [{"what": w, "seed": check.seed + i} for i, w in enumerate(sorted(BAD))], bad)
