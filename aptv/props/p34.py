"""P34 Diagnostic plots draw what they are labelled with."""

import os
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import special

from aptv import kit
from aptv.harness import require
from aptv.props import p25

RULE = "posterior plots: at least two walkers and one parameter with a prior; histograms: at least two bins with different contents"


@st.composite
def chains(draw):
    case = dict(draw(p25.cases(plots=True)))
    rng = np.random.default_rng(case["seed"])
    case["kinds"] = [str(k) for k in rng.choice(["free", "norm", "uniform", "twohalfnorm"], len(case["kinds"]), p=[0.1, 0.3, 0.3, 0.3])]
    case["steps"] = int(draw(st.sampled_from([3, 20, 110, 160, 260])))
    case["discard"] = min(case["discard"], case["steps"] // 3)
    case["thin"] = case["thin"] if case["steps"] > 10 else 1
    if case["steps"] == 260:
        # more than 100 steps remain
        case["thin"], case["discard"] = 2, min(case["discard"], 30)
    # steps in which some of the parameters move only
    case["partly"] = bool(rng.random() < 0.5)
    return case


def density(config, x):
    """Density of a prior, nan where it is not defined by a formula (outside the bounds of uniform ones)."""
    kind, args = config["prior_type"], config["prior_args"]
    if kind == "norm":
        return np.exp(-0.5 * ((x - args["mean"]) / args["std"]) ** 2) / (np.sqrt(2 * np.pi) * args["std"])
    if kind == "uniform":
        inside = (x >= args["lower"]) & (x <= args["upper"])
        return np.where(inside, 1 / (args["upper"] - args["lower"]), np.nan)
    return None


def same_curve(x, y, config, what):
    kind, args = config["prior_type"], config["prior_args"]
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if kind != "twohalfnorm":
        d = density(config, x)
        ok = np.isfinite(d)
        require(kit.close(y[ok], d[ok], 1e-6, 1e-12), "{}: the curve is not the density of the {} prior {}", what, kind, args)
        return
    # Two half normals joined at the mode with the given percentiles; the widths follow from the curve itself
    mu = args["mu"]
    for side, error in ((x > mu, args["sigma_pos"]), (x < mu, args["sigma_neg"])):
        good = side & (y > 1e-12 * max(y.max(), 1e-300)) & (y > 1e-200)
        if good.sum() < 3:
            continue
        d2 = (x[good] - mu) ** 2
        if np.ptp(d2) == 0:
            continue
        slope, top = np.polyfit(d2, np.log(y[good]), 1)
        require(slope < 0, "{}: no two-half-normal", what)
        sigma, top = (-0.5 / slope) ** 0.5, np.exp(top)
        require(
            np.allclose(np.log(y[good]), np.log(top) + slope * d2, rtol=1e-5, atol=1e-5), "{}: the side is not a half normal", what
        )
        # probability above the error, from the height at the mode
        tail = top * sigma * np.sqrt(np.pi / 2) * special.erfc(error / sigma / np.sqrt(2))
        require(abs(tail - 0.158655254) < 1e-4, "{}: {:.5f} of the prior is beyond the error {}", what, tail, error)


def autocorrelation_time(walkers):
    """Integrated autocorrelation time of (walkers, steps), with Sokal's window of five times the time."""
    n = walkers.shape[1]
    f = np.zeros(n)
    for y in walkers:
        d = y - y.mean()
        c = np.correlate(d, d, mode="full")[n - 1 :]
        f += c / c[0]
    tau = 2 * np.cumsum(f / len(walkers)) - 1
    inside = np.arange(n) < 5 * tau
    return tau[np.argmin(inside)] if inside.any() else tau[-1]


def posterior(case, rec):
    import matplotlib
    import matplotlib.pyplot as plt
    from appletree.plot import Plotter

    matplotlib.use("Agg")
    path, names, config, chain, logp, blobs = p25.make_file(case)
    c, l = p25.selected(case, chain), p25.selected(case, logp)
    rows = np.isfinite(l).all(axis=1)
    if rows.sum() < 3:
        os.remove(path)
        return
    plotter = Plotter(path, discard=case["discard"], thin=case["thin"])
    good, flat = c[rows], c[np.isfinite(l)]
    n, w, p = good.shape
    thin, first = case["thin"], case["discard"]
    complete = rows.all()

    def at_iterations(x, start, stop, what):
        x = np.asarray(x, dtype=float)
        shift = x - (np.arange(start, stop) * thin + first)
        require(
            len(x) == stop - start and np.ptp(shift) == 0 and 0 <= shift[0] < thin, "{} is not drawn at its iterations: {}", what, x[:5]
        )

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if complete:
            fig, axes = plotter.plot_burn_in()
            for i, a in enumerate(axes):
                for line in a.lines:
                    at_iterations(line.get_xdata(), 0, n, "the burn-in plot")
                drawn = np.array([line.get_ydata() for line in a.lines]).T
                what, expected = (names + ["log posterior", "log prior"])[i], c[:, :, i] if i < p else [l, p25.selected(case, blobs)][i - p]
                require(np.array_equal(drawn, expected), "the burn-in plot of {} is not that of its walkers", what)
                require(a.get_ylabel() == what, "the burn-in plot of {} is called {}", what, a.get_ylabel())
                low, high = a.get_ylim()
                highest = np.max(expected)
                require(low < highest <= high + 1e-6 * abs(highest), "the highest {} is {}, and the plot ends at {}", what, highest, (low, high))
                low, high = a.get_xlim()
                require(low < high and low <= first + thin - 1 and high >= first + (n - 1) * thin, "iterations outside {} are cut", (low, high))
            plt.close("all")

        bins = int(np.random.default_rng(case["seed"] + 1).choice([5, 50]))
        fig, axes = plotter.plot_marginal_posterior(bins=bins)
        for i, (a, name) in enumerate(zip(axes, names)):
            height, edges = np.histogram(flat[:, i], bins=bins, density=True)
            shown = [q.get_xy() for q in a.patches]
            require(len(shown) == 1, "{} histograms", len(shown))
            xy = shown[0]
            require(
                kit.close(np.unique(xy[:, 0]), np.unique(edges), 1e-9, 1e-12)
                and kit.close(np.repeat(height, 2), xy[1 : 2 * bins + 1, 1], 1e-9, 1e-12),
                "the marginal plot of {} is not the density of its samples",
                name,
            )
            for line in a.lines:
                same_curve(line.get_xdata(), line.get_ydata(), config[name], f"marginal plot of {name}")
            require(a.get_ylim()[0] == 0, "the density of {} does not start at zero", name)
        rec.checked(3 * p)
        plt.close("all")

        if np.isfinite(l).sum() > p + 2:
            fig, axes = plotter.plot_corner()
            best = flat[np.argmax(l[np.isfinite(l)])]
            for i, name in enumerate(names):
                lines = [(np.asarray(q.get_xdata(), dtype=float), np.asarray(q.get_ydata(), dtype=float)) for q in axes[i, i].lines]
                vertical = [x[0] for x, y in lines if len(x) == 2 and x[0] == x[1]]
                require(best[i] in vertical, "the best fit {} of {} is not marked, but {}", best[i], name, vertical)
                # the median and one standard deviation around it
                for q in np.quantile(flat[:, i], [0.15865525, 0.5, 0.84134475]):
                    require(kit.close(min(vertical, key=lambda v: abs(v - q)), q, 1e-6, 1e-9), "quantile {} of {} is not marked, but {}", q, name, vertical)
                curves = [(x, y) for x, y in lines if len(x) > 10]
                require(len(curves) == (config[name]["prior_type"] != "free"), "{} prior curves of {} in the corner plot", len(curves), name)
                for x, y in curves:
                    same_curve(x, y, config[name], f"corner plot of {name}")
            # the colours show the correlation
            samples = np.column_stack([flat, l[np.isfinite(l)], p25.selected(case, blobs)[np.isfinite(l)]])
            with np.errstate(all="ignore"):
                correlation = np.corrcoef(samples, rowvar=False)
            for i in range(p + 2):
                for j in range(i):
                    if np.isfinite(correlation[i, j]):
                        colour = plt.get_cmap("coolwarm")((correlation[i, j] + 1) / 2)
                        got = axes[i, j].get_facecolor()
                        require(kit.close(got[:3], colour[:3], 0, 0.02), "the colour of the correlation {} is {}", correlation[i, j], got)
            rec.checked(2 * p)
            plt.close("all")

        if n > 100:
            fig, axes = plotter.plot_autocorr()
            for i, a in enumerate(axes):
                lines = {q.get_label(): (np.asarray(q.get_xdata(), dtype=float), np.asarray(q.get_ydata(), dtype=float)) for q in a.lines}
                x, tau = lines["Sample estimation"]
                steps = np.round(x / thin).astype(int)
                require(kit.close(steps * thin, x, 1e-12, 0) and steps[0] == 100 and abs(steps[-1] - n) <= 1, "estimated after {} of {}", steps, n)
                for s, t in zip(steps, tau):
                    expected = autocorrelation_time(good[:s, :, i].T)
                    require(kit.close(t, expected, 1e-6, 1e-9), "autocorrelation time {} instead of {} after {} steps", t, expected, s)
                others = [v for k, v in lines.items() if k != "Sample estimation"]
                require(len(others) == 1 and kit.close(others[0][1], others[0][0] / 50, 1e-9, 0), "the line N / 50 is wrong")
                rec.checked(len(steps) + 1)
            plt.close("all")
            rec.label("autocorrelation")

        window = int(np.random.default_rng(case["seed"]).choice([1, 10, 100]))
        fig, axes = plotter.plot_acceptance_fraction(window_length=window)
        moved = (good[1:] != good[:-1]).any(axis=2)
        lines = {q.get_label(): q for q in axes[0].lines}
        walkers = moved.mean(axis=1)
        cumulative = np.cumsum(walkers) / np.arange(1, n)
        shown = min(window, n - 1)
        moving = [walkers[i - shown : i].mean() for i in range(shown, n)]
        for label, expected in (("cumulative", cumulative), ("moving average", moving)):
            got = np.asarray(lines[label].get_ydata())
            require(kit.close(got, expected, 1e-9, 1e-12), "the {} acceptance fraction is {} instead of {}", label, got[:5], expected[:5])
        if complete:
            at_iterations(lines["cumulative"].get_xdata(), 1, n, "the cumulative acceptance fraction")
            if window < n:
                at_iterations(lines["moving average"].get_xdata(), window, n, "the moving average of the acceptance fraction")
        line = axes[1].lines[0]
        require(np.array_equal(np.asarray(line.get_xdata()), np.arange(w)), "the walkers are {}", line.get_xdata())
        require(
            kit.close(np.asarray(line.get_ydata()), moved.mean(axis=0), 1e-9, 1e-12),
            "acceptance fraction of the walkers is {} instead of {}",
            np.asarray(line.get_ydata()),
            moved.mean(axis=0),
        )
        for a in axes:
            low, high = a.get_ylim()
            require(low <= 0 and high >= 1, "fractions are cut at {}", (low, high))
        rec.checked(3)
        plt.close("all")
    os.remove(path)
    rec.nontrivial(any(config[k]["prior_type"] != "free" for k in names))
    rec.label(*(config[k]["prior_type"] for k in names), f"thin{thin}", "complete" if complete else "dropped iterations")


@st.composite
def histograms(draw):
    return {
        "columns": draw(st.integers(1, 6)),
        "rows": draw(st.integers(1, 6)),
        "seed": draw(st.integers(0, 2**31 - 1)),
        "density": draw(st.sampled_from([None, False, True])),
        "limits": draw(st.sampled_from(["none", "min", "max", "both"])),
        "content": draw(st.sampled_from(["counts", "real", "negative", "equal"])),
    }


def histogram(case, rec):
    import matplotlib
    import matplotlib.pyplot as plt
    from appletree.utils import plot_irreg_histogram_2d

    matplotlib.use("Agg")
    rng = np.random.default_rng(case["seed"])
    scale = 10 ** rng.uniform(-2, 3)
    x = np.cumsum(rng.uniform(0.1, 3, case["columns"] + 1)) * scale - rng.uniform(0, 5) * scale
    y = np.cumsum(rng.uniform(0.1, 3, (case["columns"], case["rows"] + 1)), axis=1) + rng.uniform(-5, 5, (case["columns"], 1))
    hist = {
        "counts": lambda s: rng.integers(0, 50, s).astype(float),
        "real": lambda s: rng.uniform(0, 10, s),
        "negative": lambda s: rng.normal(size=s),
        "equal": lambda s: np.full(s, 3.0),
    }[case["content"]]((case["columns"], case["rows"]))
    area = np.diff(x)[:, None] * np.diff(y, axis=1)
    shown = hist / area if case["density"] else hist
    kwargs = {} if case["density"] is None else {"density": case["density"]}
    low, high = shown.min(), shown.max()
    if case["limits"] in ("min", "both"):
        kwargs["vmin"] = low = low - 0.3 * abs(low) - 0.1
    if case["limits"] in ("max", "both"):
        kwargs["vmax"] = high = high + 0.3 * abs(high) + 0.1
    before = x.copy(), y.copy(), hist.copy()
    plt.close("all")
    plt.figure()
    ax = plot_irreg_histogram_2d(x, y, hist, **kwargs)
    fig = ax.get_figure()
    bar = [a for a in fig.axes if a is not ax]
    require(len(bar) == 1, "{} colour bars", len(bar))
    mappable = bar[0]._colorbar.mappable
    # without any range the colour bar makes one around the value
    require(low == high or kit.close(mappable.get_clim(), (low, high), 1e-6, 1e-12), "colours from {} instead of {}", mappable.get_clim(), (low, high))
    require(len(ax.patches) == hist.size, "{} rectangles for {} bins", len(ax.patches), hist.size)
    left = {}
    for q in ax.patches:
        left[(round(q.get_x() / scale, 6), round(q.get_y(), 6))] = q
    for i in range(case["columns"]):
        for j in range(case["rows"]):
            q = left.get((round(x[i] / scale, 6), round(y[i, j], 6)))
            require(q is not None, "no rectangle starts at {}", (x[i], y[i, j]))
            got = q.get_x() + q.get_width(), q.get_y() + q.get_height()
            require(kit.close(got, (x[i + 1], y[i, j + 1]), 1e-6, 1e-6 * scale), "the bin ends at {} instead of {}", got, (x[i + 1], y[i, j + 1]))
            if low == high:
                continue
            colour = mappable.to_rgba(shown[i, j])
            require(
                kit.close(q.get_facecolor(), colour, 0, 0.02), "the bin with content {} has the colour {}, not {}", shown[i, j], q.get_facecolor(), colour
            )
    a, b = ax.get_xlim(), ax.get_ylim()
    require(kit.close(a, (x[0], x[-1]), 1e-6, 0) and kit.close(b, (y.min(), y.max()), 1e-6, 1e-9), "the axes show {} and {}", a, b)
    require(all(np.array_equal(u, v) for u, v in zip(before, (x, y, hist))), "the histogram was changed")
    plt.close("all")
    rec.checked(3 * hist.size + 3)
    rec.nontrivial(hist.size > 1 and np.ptp(shown) > 0)
    rec.label(case["content"], "density" if case["density"] else "content", case["limits"])


PARTS = {"posterior": posterior, "histogram": histogram}


def run(check, only=None):
    check.assumptions += [
        "the density of a uniform prior is compared inside its bounds only",
        "positions along the iterations are compared for chains of which no iteration was dropped, up to less than the thinning",
        "autocorrelation times are compared for chains of more than 100 steps; shorter ones are announced as too short",
    ]
    if only in (None, "posterior"):
        check.search("posterior", chains(), posterior, check.n(12, 300))
    if only in (None, "histogram"):
        check.search("histogram", histograms(), histogram, check.n(60, 1500))
