"""P04: histograms put every weight into the right bin."""

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import require

RULE = "at least one event inside a bin and at least one of: an event on an edge, an event outside, repeated events"

# multiples of 1/8 of moderate size: exact in single precision, as are sums of the weights
GRID = st.integers(-48, 48).map(lambda v: v / 8)
WEIGHT = st.sampled_from([1.0, 0.0, 0.5, 0.125, 2.0, 3.25, 1.0])
FAR = st.sampled_from([-1e6, 1e6, -7.5, 7.5])


@st.composite
def edges(draw, n):
    """n strictly increasing multiples of 1/8."""
    steps = draw(st.lists(st.integers(1, 10), min_size=n, max_size=n))
    start = draw(st.integers(-40, 10))
    return [(start + sum(steps[:i])) / 8 for i in range(n)]


@st.composite
def coordinates(draw, n, special):
    one = st.one_of(GRID, st.sampled_from(special), st.sampled_from(special).map(lambda v: v + 0.0625), FAR)
    return draw(st.lists(one, min_size=n, max_size=n))


SIZES = [12, 1, 40]


@st.composite
def case_1d(draw):
    n = draw(st.sampled_from(SIZES))
    bins = draw(edges(draw(st.sampled_from([4, 2, 7]))))
    return {
        "bins": bins,
        "x": draw(coordinates(n, bins)),
        "w": draw(st.lists(WEIGHT, min_size=n, max_size=n)),
        "perm": draw(st.integers(0, 1000)),
    }


@st.composite
def case_2d(draw):
    n = draw(st.sampled_from(SIZES))
    nx, ny = draw(st.sampled_from([(4, 3), (2, 2), (3, 6), (6, 2)]))
    bx = draw(edges(nx))
    by = [draw(edges(ny)) for _ in range(nx - 1)]
    return {
        "bins": [bx, by],
        "x": draw(coordinates(n, bx)),
        "y": draw(coordinates(n, sorted({v for b in by for v in b}))),
        "w": draw(st.lists(WEIGHT, min_size=n, max_size=n)),
        "perm": draw(st.integers(0, 1000)),
    }


@st.composite
def case_mesh(draw):
    n = draw(st.sampled_from(SIZES))
    shape = draw(st.sampled_from([(4, 3), (2, 2), (5,), (3, 6)]))
    bins = [draw(edges(k)) for k in shape]
    return {
        "bins": bins,
        "x": [draw(coordinates(n, b)) for b in bins],
        "w": draw(st.lists(WEIGHT, min_size=n, max_size=n)),
        "perm": draw(st.integers(0, 1000)),
    }


def ref_1d(x, bins, w):
    hist = np.zeros(len(bins) - 1)
    for v, weight in zip(x, w):
        for i in range(len(bins) - 1):
            if bins[i] < v <= bins[i + 1]:
                hist[i] += weight
    return hist


def ref_2d(x, y, bx, by, w):
    hist = np.zeros((len(bx) - 1, len(by[0]) - 1))
    for u, v, weight in zip(x, y, w):
        for i in range(len(bx) - 1):
            if bx[i] < u <= bx[i + 1]:
                for j in range(len(by[i]) - 1):
                    if by[i][j] < v <= by[i][j + 1]:
                        hist[i, j] += weight
    return hist


def ref_mesh(xs, bins, w):
    hist = np.zeros([len(b) - 1 for b in bins])
    for k, weight in enumerate(w):
        index = []
        for x, b in zip(xs, bins):
            v = x[k]
            found = [i for i in range(len(b) - 1) if b[i] <= v < b[i + 1]]
            if v == b[-1]:
                found = [len(b) - 2]
            index.append(found[0] if found else None)
        if None not in index:
            hist[tuple(index)] += weight
    return hist


def judge(got, expected, w, inside):
    got = np.asarray(got)
    require(got.shape == expected.shape, "shape {} instead of {}", got.shape, expected.shape)
    require(np.array_equal(got, expected), "histogram {} instead of {}", got.tolist(), expected.tolist())
    require(abs(got.sum() - inside) < 1e-6 * max(inside, 1), "total {} instead of {}", got.sum(), inside)


def other_types(f, w, reference):
    """Weights may be flags or integers, such as the number of times that an event counts."""
    for dtype, factor in [(bool, 1), (np.int32, 16), (np.uint8, 100)]:
        v = (np.asarray(w) * factor).astype(dtype)
        got, expected = np.asarray(f(v)), reference([float(x) for x in v])
        require(np.array_equal(got, expected), "{} weights give {} instead of {}", np.dtype(dtype), got.tolist(), expected.tolist())


def classify(rec, expected, xs, bins, n):
    flat = [v for b in bins for v in b]
    on_edge = any(v in flat for x in xs for v in x)
    rec.nontrivial(expected.sum() > 0 and (on_edge or n > 1))
    if on_edge:
        rec.label("event on an edge")
    if expected.sum() == 0:
        rec.label("empty")


def irreg_1d(case, rec):
    from appletree import hist

    x, w, bins = (np.array(case[k], dtype=np.float32) for k in ("x", "w", "bins"))
    expected = ref_1d(case["x"], case["bins"], case["w"])
    judge(hist.make_hist_irreg_bin_1d(x, bins, w), expected, w, expected.sum())
    p = np.random.RandomState(case["perm"]).permutation(len(x))
    judge(hist.make_hist_irreg_bin_1d(x[p], bins=bins, weights=w[p]), expected, w, expected.sum())
    other_types(lambda v: hist.make_hist_irreg_bin_1d(x, bins, v), case["w"], lambda v: ref_1d(case["x"], case["bins"], v))
    component_case(rec, np.array([x]).T, (bins,), "irreg", w, expected)
    rec.checked(2)
    classify(rec, expected, [case["x"]], [case["bins"]], len(x))


def irreg_2d(case, rec):
    from appletree import hist

    x, y, w = (np.array(case[k], dtype=np.float32) for k in ("x", "y", "w"))
    bx, by = (np.array(b, dtype=np.float32) for b in case["bins"])
    expected = ref_2d(case["x"], case["y"], *case["bins"], case["w"])
    sample = np.stack([x, y]).T
    judge(hist.make_hist_irreg_bin_2d(sample, bx, by, w), expected, w, expected.sum())
    p = np.random.RandomState(case["perm"]).permutation(len(x))
    judge(hist.make_hist_irreg_bin_2d(sample[p], bins_x=bx, bins_y=by, weights=w[p]), expected, w, expected.sum())
    other_types(
        lambda v: hist.make_hist_irreg_bin_2d(sample, bx, by, v), case["w"], lambda v: ref_2d(case["x"], case["y"], *case["bins"], v)
    )
    component_case(rec, sample, (bx, by), "irreg", w, expected)
    rec.checked(2)
    classify(rec, expected, [case["x"], case["y"]], [case["bins"][0]] + case["bins"][1], len(x))


def mesh(case, rec):
    from appletree import hist

    w = np.array(case["w"], dtype=np.float32)
    sample = np.array(case["x"], dtype=np.float32).T
    bins = tuple(np.array(b, dtype=np.float32) for b in case["bins"])
    expected = ref_mesh(case["x"], case["bins"], case["w"])
    judge(hist.make_hist_mesh_grid(sample, bins=bins, weights=w), expected, w, expected.sum())
    p = np.random.RandomState(case["perm"]).permutation(len(w))
    judge(hist.make_hist_mesh_grid(sample[p], bins=bins, weights=w[p]), expected, w, expected.sum())
    other_types(lambda v: hist.make_hist_mesh_grid(sample, bins=bins, weights=v), case["w"], lambda v: ref_mesh(case["x"], case["bins"], v))
    component_case(rec, sample, bins, "meshgrid", w, expected)
    rec.checked(2)
    classify(rec, expected, case["x"], case["bins"], len(w))


def component_case(rec, sample, bins, bins_type, w, expected):
    """The binning of a component is the same histogram, apart from the protection against empty bins."""
    import appletree as apt

    class Bare(apt.component.Component):
        add_eps_to_hist = False

    class Protected(apt.component.Component):
        add_eps_to_hist = True

    got = np.asarray(Bare(bins=bins, bins_type=bins_type).implement_binning(sample, w))
    require(np.array_equal(got, expected), "binning of a component: {} instead of {}", got.tolist(), expected.tolist())
    got = np.asarray(Protected(bins=bins, bins_type=bins_type).implement_binning(sample, w))
    require(np.all(got > 0), "protected histogram has an empty bin: {}", got.tolist())
    untouched = expected > 2 * w.mean() + 1e-6
    require(np.array_equal(got[untouched], expected[untouched]), "protection changes a bin with events")
    require(np.all(got >= expected), "protection removes events")
    rec.checked(2)


def formats(case, rec):
    """Other binnings are refused."""
    import appletree as apt

    bins = tuple(np.arange(3.0) for _ in range(case["dim"]))
    sample = np.ones((4, case["dim"]))

    def use():
        component = apt.component.Component(bins=bins, bins_type=case["bins_type"])
        component.implement_binning(sample, np.ones(4))

    require(kit.refused(use), "binning {} in {} dimensions was accepted", case["bins_type"], case["dim"])
    rec.nontrivial()


PARTS = {"irreg_1d": irreg_1d, "irreg_2d": irreg_2d, "mesh": mesh, "formats": formats}


def run(check, only=None):
    for name, strategy in [("irreg_1d", case_1d()), ("irreg_2d", case_2d()), ("mesh", case_mesh())]:
        if only in (None, name):
            check.search(name, strategy, PARTS[name], check.n(250, 6000))
    if only in (None, "formats"):
        check.sweep(
            "formats",
            [
                {"dim": 3, "bins_type": "irreg"},
                {"dim": 1, "bins_type": "equiprob"},
                {"dim": 2, "bins_type": "regular"},
                {"dim": 2, "bins_type": None},
            ],
            formats,
        )
    check.assumptions += [
        "coordinates and edges are multiples of 1/16 up to 1e6 and weights multiples of 1/8, so that single precision "
        "is exact and results can be compared for equality"
    ]
