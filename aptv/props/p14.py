"""P14: regular-grid maps interpolate their grid correctly."""

import itertools

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import require

RULE = "a grid whose values differ, evaluated at nodes and at points strictly inside cells"

N_POS = 64
SHAPES = {1: [(2,), (3,), (7,)], 2: [(3, 2), (2, 4), (5, 6)], 3: [(2, 3, 4), (4, 2, 3), (3, 5, 2)]}
TINY = float(np.finfo(np.float32).tiny)


@st.composite
def cases(draw, dim=None, method=None):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    dim = dim or draw(st.sampled_from([1, 2, 3]))
    shape = SHAPES[dim][draw(st.integers(0, 2))]
    how = draw(st.sampled_from(["mixed", "linear", "log"]))
    logs = {"mixed": rng.randint(0, 2, dim), "linear": np.zeros(dim), "log": np.ones(dim)}[how].astype(bool)
    lowers, uppers = [], []
    for log, n in zip(logs, shape):
        if log:
            lo = rng.uniform(-2, 2)
            lowers.append(10**lo)
            uppers.append(10 ** (lo + rng.uniform(0.2, 1.0) * (n - 1)))
        else:
            lo = rng.randint(-200, 200) / 4
            lowers.append(lo)
            uppers.append(lo + rng.randint(1, 400) / 8 * (n - 1))
    lowers, uppers = np.float32(lowers).astype(float), np.float32(uppers).astype(float)
    kind = draw(st.sampled_from(["any", "large", "spike", "linear"]))
    if kind == "spike":
        values = np.zeros(shape)
        values[tuple(rng.randint(0, n) for n in shape)] = 1.0
    elif kind == "linear":
        values = sum(rng.uniform(-1, 1) * g for g in np.meshgrid(*[np.arange(n) for n in shape], indexing="ij"))
    else:
        values = rng.uniform(-1, 1, shape) * (1e5 if kind == "large" else 1)
    # positions in units of the grid; some on nodes, some on faces, some outside
    frac = np.stack([rng.uniform(-0.4, n - 0.6, N_POS) for n in shape], axis=1)
    frac[: N_POS // 4] = np.stack([rng.randint(0, n, N_POS // 4) for n in shape], axis=1)
    for row in frac[N_POS // 4 : N_POS // 3]:
        axis = rng.randint(dim)
        row[axis] = rng.randint(0, shape[axis])
    for row in frac[N_POS // 3 : N_POS // 2]:
        axis = rng.randint(dim)
        row[axis] = rng.choice([-50.0, -1.5, -2.0, shape[axis], shape[axis] + 0.5, shape[axis] + 40])
    pos = np.empty_like(frac)
    for d in range(dim):
        if logs[d]:
            a, b = np.log10(lowers[d]), np.log10(uppers[d])
            pos[:, d] = 10 ** np.clip(a + frac[:, d] * (b - a) / (shape[d] - 1), -30, 30)
            pos[:, d][frac[:, d] == -50.0] = 0.0
            pos[:, d][frac[:, d] == -2.0] = -3.0
        else:
            pos[:, d] = lowers[d] + frac[:, d] * (uppers[d] - lowers[d]) / (shape[d] - 1)
    return {
        "lowers": lowers.tolist(),
        "uppers": uppers.tolist(),
        "logs": [bool(v) for v in logs],
        "as_list": bool(draw(st.booleans()) or len(set(logs.tolist())) > 1),
        "values": np.float32(values).astype(float).tolist(),
        "method": method or draw(st.sampled_from(["IDW", "LERP", "NN"])),
        "pos": np.float32(pos).astype(float).tolist(),
    }


def kind_of(case):
    names = ["log_regbin" if v else "regbin" for v in case["logs"]]
    return names if case["as_list"] else names[0]


def build(case, path, **kwargs):
    import appletree as apt

    kit.regbin_map(path, case["lowers"], case["uppers"], case["values"], kind=kind_of(case))
    m = apt.Map(method=case["method"], name=kit.unique("map"), default=path, **kwargs)
    m.build()
    return m


def reference(case, pos):
    """Expected values, tolerances (nan: not decidable), range of the enclosing cell."""
    values = np.asarray(case["values"], dtype=float)
    shape, dim = values.shape, values.ndim
    lo, hi = np.array(case["lowers"]), np.array(case["uppers"])
    logs = np.array(case["logs"])
    x = pos.copy()
    x[:, logs] = np.log10(np.clip(x[:, logs], TINY, None))
    lo, hi = np.where(logs, np.log10(np.where(logs, lo, 1)), lo), np.where(logs, np.log10(np.where(logs, hi, 1)), hi)
    width = (hi - lo) / (np.array(shape) - 1)
    frac = (x - lo) / width
    outside = (frac < 0) | (frac > np.array(shape) - 1)
    clipped = np.clip(x, lo, hi)
    rounding = 5e-7 * (np.abs(clipped) + np.abs(lo) + np.abs(hi) + logs) / width
    f = np.clip(frac, 0, np.array(shape) - 1)
    cell = np.clip(np.floor(f).astype(int), 0, np.array(shape) - 2)
    t = f - cell
    corners = list(itertools.product([0, 1], repeat=dim))
    vals = np.stack([values[tuple((cell + np.array(c)).T)] for c in corners], axis=1)
    span = values.max() - values.min()
    scale = np.abs(values).max()
    tol = 2e-5 * scale + 4 * rounding.sum(axis=1) * span
    if case["method"] == "LERP":
        w = np.stack([np.prod([np.where(c[d], t[:, d], 1 - t[:, d]) for d in range(dim)], axis=0) for c in corners], axis=1)
        expected = (w * vals).sum(axis=1)
    elif case["method"] == "NN":
        near = np.rint(f).astype(int)
        expected = values[tuple(near.T)]
        undecided = np.any((np.abs(t - 0.5) < 1e-3 + 4 * rounding) & ~outside, axis=1)
        tol = np.where(undecided, np.nan, 1e-6 * scale)
    elif dim == 1:
        # with two neighbours it is linear, and constant outside
        expected = vals[:, 0] * (1 - t[:, 0]) + vals[:, 1] * t[:, 0]
    else:
        dist = np.stack([np.sqrt((((t - np.array(c)) * width) ** 2).sum(axis=1)) for c in corners], axis=1)
        with np.errstate(divide="ignore", invalid="ignore"):
            w = 1 / dist
            expected = (w * vals).sum(axis=1) / w.sum(axis=1)
        nearest = vals[np.arange(len(vals)), np.argmin(dist, axis=1)]
        at_node = np.all(np.abs(f - np.rint(f)) < 4 * rounding + 1e-6, axis=1)
        expected = np.where(at_node, nearest, expected)
        # on a face between cells either cell is right
        face = np.any(np.abs(f - np.rint(f)) < 1e-4 + 8 * rounding, axis=1) & ~at_node
        tol = np.where(face | np.any(outside, axis=1), np.nan, tol * 4)
        # close to a node a small absolute error of the distance is a large relative one
        absolute = (rounding * width).max(axis=1)
        ratio = absolute / np.maximum(np.min(dist, axis=1), absolute) * np.min(dist, axis=1) / np.median(width)
        tol = tol + np.where(at_node, 40 * (rounding * width).max() / width.min() * span, 40 * ratio * span)
    return expected, tol, values


def grid(case, rec):
    kit.reset()
    m = build(case, "grid.json")
    pos = np.array(case["pos"])
    arg = np.float32(pos)
    if pos.shape[1] == 1:
        arg = arg[:, 0]
    got = np.asarray(m.apply(arg), dtype=float)
    require(got.shape == (len(pos),), "{} values for {} positions", got.shape, len(pos))
    expected, tol, values = reference(case, pos)
    require(np.all(np.isfinite(got)), "not finite: {}", got.tolist())
    slack = 1e-5 * np.abs(values).max()
    require(np.all((got >= values.min() - slack) & (got <= values.max() + slack)), "outside the range of the grid")
    wrong = ~(np.abs(got - expected) <= tol) & np.isfinite(tol)
    if wrong.any():
        i = np.argmax(wrong)
        require(False, "{} instead of {} (+- {}) at {}", got[i], expected[i], tol[i], case["pos"][i])
    rec.checked(int(np.isfinite(tol).sum()))
    rec.nontrivial(values.max() > values.min())
    rec.label(f"{case['method']} {values.ndim}D", "mixed" if len(set(case["logs"])) > 1 else "log" if case["logs"][0] else "linear")


BAD = ["method", "axis type", "type", "length", "log lower", "dimension", "probability"]


@st.composite
def bad_cases(draw, kind, value=None):
    case = draw(cases())
    case["bad"] = kind
    case["axis"] = draw(st.integers(0, 2)) % len(case["lowers"])
    case["text"] = draw(st.sampled_from(["bin", "", "log", "LERP", "point", "log_point"]))
    case["value"] = draw(st.sampled_from([0.0, -1.0, -1e-5])) if value is None else value
    return case


def bad(case, rec):
    import appletree as apt

    kit.reset()
    build(case, "good.json")
    kind, lowers, uppers, values = kind_of(case), list(case["lowers"]), list(case["uppers"]), np.array(case["values"])
    method, a = case["method"], case["axis"]
    if case["bad"] == "method":
        method = case["text"] if case["text"] != "LERP" else "lerp"
    elif case["bad"] == "axis type":
        kind = ["regbin"] * len(lowers)
        kind[a] = case["text"]
    elif case["bad"] == "type":
        kind = case["text"] if "point" not in case["text"] else "regular"
    elif case["bad"] == "length":
        kind = ["regbin"] * (len(lowers) + 1)
    elif case["bad"] == "log lower":
        lowers[a] = case["value"]
        if len(lowers) == 1:
            kind = "log_regbin"
        else:
            kind = ["regbin"] * len(lowers)
            # bounds of linear axes may have any sign
            lowers[1 - a if a < 2 else 0] = -1.0
            kit.regbin_map("linear.json", lowers, np.abs(uppers) + 2.0, values, kind=kind)
            apt.Map(method=method, name=kit.unique("map"), default="linear.json").build()
            kind = list(kind)
            kind[a] = "log_regbin"
    elif case["bad"] == "probability":
        # an axis of probabilities is never logarithmic, others may be
        names = [f"c{i}" for i in range(len(lowers))]
        names[a] = "pdf" if case["value"] else "cdf"
        lowers = np.abs(lowers) + 1.0
        uppers = lowers + np.abs(uppers) + 1.0
        kind = ["log_regbin" if len(lowers) > 1 else "regbin"] * len(lowers)
        kind[a] = "regbin"
        kit.regbin_map("linear.json", lowers, uppers, values, names=names, kind=kind)
        apt.Map(method=method, name=kit.unique("map"), default="linear.json").build()
        if case["as_list"]:
            kind[a] = "log_regbin"
        else:
            kind = "log_regbin"
        kit.regbin_map("bad.json", lowers, uppers, values, names=names, kind=kind)
        m = apt.Map(method=method, name=kit.unique("map"), default="bad.json")
        require(kit.refused(m.build), "a logarithmic axis {} was accepted", names[a])
        rec.checked()
        rec.nontrivial()
        rec.label(case["bad"])
        return
    else:
        values = np.zeros((2, 2, 2, 2))
        lowers, uppers, kind = [1.0] * 4, [2.0] * 4, "regbin"
    kit.regbin_map("bad.json", lowers, uppers, values, kind=kind)
    m = apt.Map(method=method, name=kit.unique("map"), default="bad.json")
    require(kit.refused(m.build), "a grid with bad {} was accepted", case["bad"])
    rec.checked()
    rec.nontrivial()
    rec.label(case["bad"])


PARTS = {"grid": grid, "bad": bad}


def run(check, only=None):
    if only in (None, "grid"):
        for dim in (1, 2, 3):
            for method in ("IDW", "LERP", "NN"):
                check.search("grid", cases(dim=dim, method=method), grid, check.n(50, 3000), salt=f"{dim} {method}")
    if only in (None, "bad"):
        for kind in BAD:
            # every kind of non-positive bound for itself
            for value in (0.0, -1.0, -1e-5) if kind == "log lower" else (None,):
                check.search("bad", bad_cases(kind, value), bad, check.n(20, 400), salt=f"{kind} {value}")
    check.assumptions += [
        "grids of up to 7 nodes per axis; tolerances from single precision of the coordinates",
        "inverse-distance results on faces between cells and outside the grid are only checked for their range",
    ]
