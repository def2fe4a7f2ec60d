"""P13: point maps interpolate their table correctly."""

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import require

RULE = "a table of at least three points whose values differ, evaluated on points strictly between coordinates"

N_POS = 64


@st.composite
def cases(draw, log=None, method=None):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    n = draw(st.sampled_from([3, 5, 12, 2, 1]))
    if log is None:
        log = draw(st.booleans())
    if log:
        steps = rng.choice([0.02, 0.3, 1.0], n) * rng.uniform(0.5, 1.5, n)
        x = 10 ** (np.cumsum(steps) + rng.uniform(-3, 1))
    else:
        x = np.cumsum(rng.randint(1, draw(st.sampled_from([3, 60, 3000])), n)) / 8 + rng.randint(-4000, 4000) / 8
    if not log:
        # from fractions of a unit to the number of electrons in a large signal
        x = x * 2.0 ** draw(st.sampled_from([0, -12, 12]))
    x = np.float32(x).astype(float)
    kind = draw(st.sampled_from(["any", "large", "tiny", "steps", "negative"]))
    y = {
        "any": rng.uniform(-1, 1, n),
        "large": rng.uniform(0, 1e6, n),
        "tiny": rng.uniform(0, 1e-6, n),
        "steps": rng.randint(0, 2, n).astype(float),
        "negative": -rng.uniform(1, 100, n),
    }[kind]
    # positions: all nodes, then anything in between and outside
    span = (x[-1] - x[0]) or 1.0
    if log:
        pos = 10 ** rng.uniform(np.log10(x[0]) - 1, np.log10(x[-1]) + 1, N_POS - n)
        pos[:3] = [0.0, -1.0, x[-1] * 1e4]
    else:
        pos = rng.uniform(x[0] - 0.3 * span, x[-1] + 0.3 * span, N_POS - n)
        pos[:3] = [x[0] - 100 * span, x[-1] + 100 * span, x[0] - 1]
    pos = np.concatenate([x, np.float32(pos).astype(float)])
    rng.shuffle(pos)
    return {
        "x": x.tolist(),
        "y": np.float32(y).astype(float).tolist(),
        "log": bool(log),
        "method": method or draw(st.sampled_from(["IDW", "LERP", "NN"])),
        "pos": pos.tolist(),
    }


def build(case, path, name=None, **kwargs):
    import appletree as apt

    kit.point_map(path, case["x"], case["y"], name=case.get("name", "x"), kind="log_point" if case["log"] else "point")
    m = apt.Map(method=case["method"], name=name or kit.unique("map"), default=path, **kwargs)
    m.build()
    return m


def reference(x, y, pos, log, method):
    """Expected values, and the largest error that single precision explains (nan: not decidable)."""
    x, y, pos = (np.asarray(a, dtype=float) for a in (x, y, pos))
    if log:
        pos = np.log10(np.clip(pos, np.finfo(np.float32).tiny, None))
        x = np.log10(x)
    pos = np.clip(pos, x[0], x[-1])
    # rounding of the coordinate relative to the spacing of the cell
    i = np.clip(np.searchsorted(x, pos, side="right") - 1, 0, max(len(x) - 2, 0))
    j = np.minimum(i + 1, len(x) - 1)
    width = np.where(j > i, x[j] - x[i], 1.0)
    rounding = 4e-7 * (np.abs(pos) + (1 if log else 0)) / width
    scale = np.abs(y[i]) + np.abs(y[j])
    if method == "NN":
        left, right = np.abs(pos - x[i]), np.abs(pos - x[j])
        value = np.where(left <= right, y[i], y[j])
        undecided = np.abs(left - right) <= (4 * rounding + 1e-5) * width
        undecided &= j > i
        return value, np.where(undecided, np.nan, 1e-6 * scale)
    t = np.where(j > i, (pos - x[i]) / width, 0)
    value = y[i] + t * (y[j] - y[i])
    # next to a node the rounded coordinate may be in the neighbouring cell
    k, m = np.maximum(i - 1, 0), np.minimum(j + 1, len(x) - 1)
    slope = np.max([np.abs(y[j] - y[i]) / width, np.abs(y[i] - y[k]) / np.where(i > k, x[i] - x[k], np.inf), np.abs(y[m] - y[j]) / np.where(m > j, x[m] - x[j], np.inf)], axis=0)
    return value, 1e-5 * scale + 2 * rounding * width * slope + 1e-30


def table(case, rec):
    kit.reset()
    m = build(case, "map.json")
    pos = np.asarray(case["pos"], dtype=np.float32)
    got = np.asarray(m.apply(pos), dtype=float)
    require(got.shape == pos.shape, "{} values for {} positions", got.shape, pos.shape)
    expected, error = reference(case["x"], case["y"], case["pos"], case["log"], case["method"])
    wrong = ~(np.abs(got - expected) <= error) & np.isfinite(error)
    if wrong.any():
        i = np.argmax(wrong)
        require(False, "map gives {} instead of {} at {}", got[i], expected[i], case["pos"][i])
    nodes = np.isin(case["pos"], case["x"])
    at_nodes = dict(zip(case["x"], case["y"]))
    for p, g in zip(np.array(case["pos"])[nodes], got[nodes]):
        require(kit.close(g, at_nodes[p], 1e-5, 1e-6 * np.abs(case["y"]).max()), "{} instead of the tabulated {} at {}", g, at_nodes[p], p)
    lo, hi = min(case["y"]), max(case["y"])
    slack = 1e-5 * max(abs(lo), abs(hi))
    require(np.all((got >= lo - slack) & (got <= hi + slack)), "values outside the range of the table")
    rec.checked(len(pos))
    x = np.array(case["x"])
    inside = (pos > x[0]) & (pos < x[-1]) & ~nodes
    rec.nontrivial(len(x) > 2 and len(set(case["y"])) > 1 and inside.any())
    rec.label(case["method"], "log" if case["log"] else "linear", f"{len(x)} points")


@st.composite
def density_cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    n = draw(st.sampled_from([40, 8, 200, 3]))
    x = np.cumsum(rng.uniform(0.2, draw(st.sampled_from([0.3, 3.0])), n)) + rng.uniform(-20, 20)
    kind = draw(st.sampled_from(["peak", "flat", "any", "gap", "falling"]))
    u = (x - x[0]) / (x[-1] - x[0])
    pdf = {
        "peak": np.exp(-(((u - rng.uniform(0, 1)) / 0.15) ** 2)) + 1e-3,
        "flat": np.ones(n),
        "any": rng.uniform(0.05, 1, n),
        "gap": np.where((u > 0.4) & (u < 0.6) & (n > 10), 0.0, 1.0),
        "falling": np.exp(-3 * u),
    }[kind]
    return {
        "x": np.float32(x).astype(float).tolist(),
        "y": np.float32(pdf * draw(st.sampled_from([1.0, 37.0, 1e-3]))).astype(float).tolist(),
        "log": False,
        "method": draw(st.sampled_from(["IDW", "LERP", "NN"])),
        "name": "pdf",
        "u": np.float32(rng.uniform(0, 1, N_POS)).astype(float).tolist(),
        "kind": kind,
    }


def density(case, rec):
    kit.reset()
    m = build(case, "pdf.json")
    x, pdf = np.array(case["x"]), np.array(case["y"])
    u = np.sort(np.concatenate([case["u"][:-2], [0.0, 1.0]]))
    got = np.asarray(m.apply(np.asarray(u, dtype=np.float32)), dtype=float)
    require(m.coordinate_name == "cdf", "coordinate is {}", m.coordinate_name)
    require(np.all((got >= x[0] - 1e-3) & (got <= x[-1] + 1e-3)), "values outside the range of the density")
    require(np.all(np.diff(got) >= -1e-4 * (1 + np.abs(x).max())), "not increasing: {}", got.tolist())
    cdf = np.concatenate([[0], np.cumsum(0.5 * (pdf[1:] + pdf[:-1]) * np.diff(x))])
    cdf /= cdf[-1]
    # the table resolves its own spacing: the quantile has to be met within the cells next to it
    eps = 3e-6
    u_lo, u_hi = np.clip(u - eps, 0, 1), np.clip(u + eps, 0, 1)
    if case["method"] == "NN":
        # any quantile that belongs to the closest tabulated value of the cumulative distribution
        u_lo = np.clip(cdf[np.clip(np.searchsorted(cdf, u_lo, side="right") - 1, 0, None)] - eps, 0, 1)
        u_hi = np.clip(cdf[np.clip(np.searchsorted(cdf, u_hi, side="left"), None, len(cdf) - 1)] + eps, 0, 1)
    lo_cell = np.searchsorted(cdf, u_lo, side="left") - 1
    hi_cell = np.searchsorted(cdf, u_hi, side="right")
    lo = x[np.clip(lo_cell - 1, 0, len(x) - 1)]
    hi = x[np.clip(hi_cell, 0, len(x) - 1)]
    bad = (got < lo - 1e-3) | (got > hi + 1e-3)
    if bad.any():
        i = np.argmax(bad)
        require(False, "{} is mapped to {}, the quantile is in [{}, {}]", u[i], got[i], lo[i], hi[i])
    rec.checked(len(u))
    rec.nontrivial(len(x) > 3 and pdf.std() > 0)
    rec.label(case["kind"], case["method"])


@st.composite
def bad_cases(draw):
    case = draw(cases())
    case["bad"] = draw(st.sampled_from(["method", "type", "log", "log pdf", "log cdf", "missing", "not json"]))
    case["where"] = draw(st.integers(0, 20))
    case["method_name"] = draw(st.sampled_from(["idw", "KNN", "", "CUBIC", "LERP "]))
    case["type_name"] = draw(st.sampled_from(["points", "log", "", "logpoint", "bin", "LOG_POINT"]))
    case["zero"] = draw(st.sampled_from([0.0, -1.0, -1e-3]))
    return case


def bad(case, rec):
    import appletree as apt

    kit.reset()
    x, method, kind, name = list(case["x"]), case["method"], "point", "x"
    if case["log"]:
        kind = "log_point"
    good = apt.Map(method=method, name=kit.unique("map"), default=kit.point_map("good.json", x, case["y"], kind=kind))
    good.build()
    path = "bad.json"
    if case["bad"] == "method":
        method = case["method_name"]
    elif case["bad"] == "type":
        kind = case["type_name"]
    elif case["bad"] == "log":
        # all coordinates below the chosen one are not positive, too
        k = case["where"] % len(x)
        x = [case["zero"] - (k - i) if i <= k else abs(v) + 1 + i for i, v in enumerate(x)]
        kind = "log_point"
    elif case["bad"] in ("log pdf", "log cdf"):
        kind, name = "log_point", case["bad"][4:]
        x = (np.arange(len(x)) + 1.0).tolist()
    path = kit.point_map(path, x, case["y"], name=name, kind=kind)
    if case["bad"] == "missing":
        path = "does_not_exist.json"
    if case["bad"] == "not json":
        path = kit.write_csv("table.csv", {"x": x})
    m = apt.Map(method=method, name=kit.unique("map"), default=path)
    require(kit.refused(m.build), "a map with bad {} was accepted", case["bad"])
    rec.checked()
    rec.nontrivial()
    rec.label(case["bad"])


@st.composite
def scattered_cases(draw):
    return {
        "dimension": draw(st.integers(1, 4)),
        "points": draw(st.sampled_from([3, 4, 10, 80])),
        "k": draw(st.sampled_from([None, 1, 2, 3])),
        "scale": draw(st.sampled_from([0.01, 1.0, 50.0])),
        "values": draw(st.sampled_from(["any", "large", "equal"])),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


def scattered(case, rec):
    """Scattered reference points of any dimension: inverse distance average of the nearest ones."""
    from appletree import interpolation

    rng = np.random.default_rng(case["seed"])
    d, m, k = case["dimension"], case["points"], case["k"] or 3
    ref = np.float32(rng.uniform(-1, 1, (m, d)) * case["scale"]).astype(float)
    values = {"any": rng.uniform(-1, 1, m), "large": rng.uniform(0, 1e5, m), "equal": np.full(m, 2.5)}[case["values"]]
    values = np.float32(values).astype(float)
    nodes = rng.integers(0, m, 10)
    pos = np.concatenate([rng.uniform(-1.5, 1.5, (40, d)) * case["scale"], ref[nodes]])
    pos = np.float32(pos).astype(float)
    distance = np.sqrt(((pos[:, None] - ref[None]) ** 2).sum(axis=-1))
    order = np.argsort(distance, axis=1)
    near = np.take_along_axis(distance, order, axis=1)
    # which points are the nearest, and whether one is met exactly, must not depend on the precision
    clear = np.ones(len(pos), dtype=bool)
    if m > k:
        clear &= near[:, k] - near[:, k - 1] > 1e-4 * case["scale"]
    clear &= (near[:, 0] == 0) | (near[:, 0] > 1e-3 * case["scale"])
    clear &= near[:, 1] > 1e-3 * case["scale"]
    extra = {} if case["k"] is None else {"k": k}
    got = np.asarray(interpolation.map_interpolator_knn(np.float32(pos), np.float32(ref), np.float32(values), *extra.values()))
    require(got.shape == (len(pos),), "shape {}", got.shape)
    weights = 1 / np.maximum(near[:, :k], 1e-300)
    weights[near[:, 0] == 0] = [1] + [0] * (k - 1)
    chosen = values[order[:, :k]]
    expected = (chosen * weights).sum(axis=1) / weights.sum(axis=1)
    # at a point the others count by the ratio of the smallest distance that is resolved
    slack = 1e-4 * np.ptp(chosen, axis=1) + np.where(near[:, 0] == 0, 3e-6 / near[:, 1], 0) * np.ptp(chosen, axis=1)
    bad = clear & ~(np.abs(got - expected) <= slack + 1e-5 * np.abs(expected) + 1e-9)
    require(not bad.any(), "{} instead of {} at {}", got[bad][:3], expected[bad][:3], pos[bad][:3])
    rec.checked(int(clear.sum()))
    rec.nontrivial(case["values"] != "equal" and m > k and clear[:40].any())
    rec.label(f"scattered {d}D")


PARTS = {"table": table, "density": density, "bad": bad, "scattered": scattered}


def run(check, only=None):
    if only in (None, "table"):
        for method in ("IDW", "LERP", "NN"):
            for log in (False, True):
                check.search("table", cases(log=log, method=method), table, check.n(60, 3000), salt=f"{method} {log}")
    if only in (None, "density"):
        check.search("density", density_cases(), density, check.n(150, 6000))
    if only in (None, "bad"):
        check.search("bad", bad_cases(), bad, check.n(80, 1500))
    if only in (None, "scattered"):
        check.search("scattered", scattered_cases(), scattered, check.n(60, 3000))
    check.assumptions += [
        "increasing coordinates, tables of up to 200 points; tolerance from single precision of the coordinates",
        "a density is inverted within the cells next to the quantile",
    ]
