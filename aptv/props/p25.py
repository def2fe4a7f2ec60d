"""P25 The plotter analyses exactly the stored chain."""

import hashlib
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import require

RULE = (
    "a chain with at least two walkers that has a non-finite posterior, or that is discarded or thinned; for the plots "
    "every chain with at least two finite iterations"
)


def prior(kind, rng):
    base = {"allowed_range": [-1e9, 1e9], "init_mean": 1.0, "init_std": 0.1, "unit": "1", "doc": "", "prior_type": kind}
    base["prior_args"] = {
        "free": {},
        "norm": {"mean": round(float(rng.normal()), 2), "std": round(float(rng.uniform(0.1, 2)), 2)},
        "uniform": {"lower": -round(float(rng.uniform(0.5, 9)), 2), "upper": round(float(rng.uniform(0.5, 9)), 2)},
        "twohalfnorm": {"mu": 1.0, "sigma_pos": 0.5, "sigma_neg": round(float(rng.uniform(0.2, 1.5)), 2)},
    }[kind]
    return base


@st.composite
def cases(draw, plots=False):
    rng = np.random.default_rng(draw(st.integers(0, 2**32 - 1)))
    n_par = int(rng.integers(1, 4 if plots else 6))
    steps = int(rng.integers(3, 40)) if not plots else int(rng.choice([2, 5, 60, 150, 230]))
    discard = int(rng.choice([0, 0, 1, 2, steps // 2]))
    return {
        "steps": steps,
        "walkers": 2 * n_par + int(rng.integers(0, 4)),
        "kinds": [str(k) for k in rng.choice(["free", "norm", "uniform", "twohalfnorm"], n_par)]
        if rng.random() < 0.7
        else [str(rng.choice(["free", "uniform"]))] * n_par,
        "discard": min(discard, steps - 2),
        "thin": int(rng.choice([1, 1, 2, 3])) if steps - discard > 8 else 1,
        "bad": str(rng.choice(["none", "few", "many", "one walker", "iterations"])) if not plots else str(rng.choice(["none", "few"])),
        "ties": bool(rng.random() < 0.2),
        "seed": int(rng.integers(2**31)),
    }


def make_file(case):
    """A backend file written by a real fit, whose chain is replaced afterwards."""
    import appletree as apt
    import h5py

    rng = np.random.default_rng(case["seed"])
    names = sorted(f"{''.join(rng.choice(list('abcdz'), 3))}{i}" for i in range(len(case["kinds"])))
    rng.shuffle(names)
    config = {str(n): prior(k, rng) for n, k in zip(names, case["kinds"])}
    config["fixed_one"] = dict(prior("free", rng), prior_type="fixed", prior_args={"val": 3.0})
    kit.reset()
    path = os.path.join(os.getcwd(), kit.unique("plot") + ".h5")
    context = apt.Context({"likelihoods": {}, "backend_h5": path, "configs": {}}, par_config=config)
    context.needed_parameters |= set(config)
    context.fitting(nwalkers=case["walkers"], iteration=case["steps"], batch_size=1)
    n, w, p = case["steps"], case["walkers"], len(names)
    chain = rng.normal(size=(n, w, p)) * rng.uniform(0.1, 10, p)
    # walkers that do not move now and then
    for i in range(1, n):
        stay = rng.random(w) < 0.4
        chain[i, stay] = chain[i - 1, stay]
        if case.get("partly"):
            # or only along one parameter
            other = (rng.random((w, p)) < 0.5) & (np.arange(p) != rng.integers(p))
            chain[i] = np.where(other, chain[i - 1], chain[i])
    logp = rng.normal(size=(n, w)) * 20 - 100
    if case["ties"]:
        logp = np.round(logp, -1)
    if all(k in ("free", "uniform") for k in case["kinds"]):
        blobs = np.zeros((n, w), dtype=np.float32)
    else:
        blobs = rng.normal(size=(n, w)).astype(np.float32)
    bad = np.zeros((n, w), dtype=bool)
    if case["bad"] == "few":
        bad = rng.random((n, w)) < 0.3 / w
    elif case["bad"] == "many":
        bad = rng.random((n, w)) < 0.5
    elif case["bad"] == "one walker":
        bad[:, int(rng.integers(w))] = True
    elif case["bad"] == "iterations":
        bad[rng.random(n) < 0.4] = True
    logp[bad] = rng.choice([-np.inf, np.nan, np.inf], bad.sum(), p=[0.6, 0.2, 0.2])
    with h5py.File(path, "r+") as f:
        f["mcmc"]["chain"][...] = chain
        f["mcmc"]["log_prob"][...] = logp
        f["mcmc"]["blobs"][...] = blobs.reshape(f["mcmc"]["blobs"].shape)
    return path, sorted(names), config, chain, logp, blobs


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def selected(case, a):
    """Steps after the discarded ones, the last one of every ``thin``."""
    return a[case["discard"] + case["thin"] - 1 :: case["thin"]]


def compare(plotter, names, config, chain, logp, blobs, rec):
    ok = np.isfinite(logp)
    rows = ok.all(axis=1)
    require(np.array_equal(plotter.chain, chain[rows]), "the chain is not the stored one without the dropped iterations")
    require(np.array_equal(plotter.posterior, logp[rows]), "the posterior is not the stored one without the dropped iterations")
    require(np.array_equal(plotter.prior, blobs[rows]), "the prior is not the stored one without the dropped iterations")
    require(np.array_equal(plotter.flat_chain, chain[ok]), "the flat chain is not the stored one without the dropped samples")
    require(np.array_equal(plotter.flat_posterior, logp[ok]), "the flat posterior is not the stored one without the dropped samples")
    require(np.array_equal(plotter.flat_prior, blobs[ok]), "the flat prior is not the stored one without the dropped samples")
    require([str(n) for n in plotter.param_names] == names, "parameter names {} instead of {}", list(plotter.param_names), names)
    require((plotter.n_iter, plotter.n_walker, plotter.n_param) == plotter.chain.shape, "wrong shape")
    require(set(plotter.param_mpe) == set(names), "best-fit parameters {} instead of {}", sorted(plotter.param_mpe), names)
    best = np.array([plotter.param_mpe[n] for n in names])
    at = np.argwhere((logp == logp[ok].max()) & ok)
    require(any(np.array_equal(best, chain[tuple(i)]) for i in at), "the best-fit parameters are not the sample of the highest posterior")
    for n in names:
        require(plotter.param_prior[n] == config[n], "prior of {} is {} instead of {}", n, plotter.param_prior[n], config[n])
    rec.checked(9 + len(names))


def case_data(case, rec):
    from appletree.plot import Plotter

    path, names, config, chain, logp, blobs = make_file(case)
    c, l, b = selected(case, chain), selected(case, logp), selected(case, blobs)
    if not np.isfinite(l).any():
        os.remove(path)
        return
    before = sha(path)
    plotter = Plotter(path, discard=case["discard"], thin=case["thin"])
    compare(plotter, names, config, c, l, b, rec)
    require(sha(path) == before, "the backend file was changed")
    os.remove(path)
    rec.label(case["bad"], f"thin{case['thin']}", "discard" if case["discard"] else "all")
    rec.nontrivial(case["bad"] != "none" or case["discard"] or case["thin"] > 1)


def case_plots(case, rec):
    import matplotlib
    import matplotlib.pyplot as plt
    from appletree.plot import Plotter

    matplotlib.use("Agg")
    path, names, config, chain, logp, blobs = make_file(case)
    c, l, b = selected(case, chain), selected(case, logp), selected(case, blobs)
    rows = np.isfinite(l).all(axis=1)
    if rows.sum() < 2:
        os.remove(path)
        return
    before = sha(path)
    plotter = Plotter(path, discard=case["discard"], thin=case["thin"])
    good = c[rows]
    n, w, p = good.shape
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")

        fig, axes = plotter.plot_burn_in()
        require([a.get_ylabel() for a in axes] == names + ["log posterior", "log prior"], "wrong labels of the burn-in plot")
        for i, a in enumerate(axes):
            data = good[:, :, i] if i < p else (l[rows] if i == p else b[rows])
            require(len(a.lines) == w, "the burn-in plot has {} lines for {} walkers", len(a.lines), w)
            for j, line in enumerate(a.lines):
                require(np.array_equal(np.asarray(line.get_ydata()), data[:, j]), "the burn-in plot does not show the chain")
        rec.checked(len(axes) * w)
        plt.close("all")

        fig, axes = plotter.plot_marginal_posterior()
        require([a.get_xlabel() for a in axes] == names, "wrong labels of the marginal posterior plot")
        for a, name in zip(axes, names):
            require(len(a.lines) == (config[name]["prior_type"] != "free"), "prior of {} not shown, or shown without one", name)
        plt.close("all")

        # correlations need two samples per quantity
        if np.isfinite(l).sum() > p + 2:
            fig, axes = plotter.plot_corner()
            require(axes.shape == (p + 2, p + 2), "the corner plot has the shape {}", axes.shape)
            require(
                [a.get_xlabel() for a in axes[-1]] == names + ["log posterior", "log prior"], "wrong labels of the corner plot"
            )
            plt.close("all")

        fig, axes = plotter.plot_autocorr()
        require([a.get_ylabel().split()[-1] for a in axes] == names, "wrong labels of the autocorrelation plot")
        plt.close("all")

        window = int(np.random.default_rng(case["seed"]).choice([1, 10, 100]))
        fig, axes = plotter.plot_acceptance_fraction(window_length=window)
        moved = (good[1:] != good[:-1]).any(axis=2)
        expected = np.array([moved[: i + 1].mean() for i in range(n - 1)])
        got = {line.get_label(): np.asarray(line.get_ydata()) for line in axes[0].lines}
        require(kit.close(got["cumulative"], expected, 1e-9, 1e-12), "wrong cumulative acceptance fraction")
        if window < n:
            expected = np.array([moved[i - window : i].mean() for i in range(window, n)])
            require(kit.close(got["moving average"], expected, 1e-9, 1e-12), "wrong moving average of the acceptance fraction")
        plt.close("all")
        rec.checked(6)

        if case["seed"] % 4 == 0:
            folder = os.path.abspath(kit.unique("figures"))
            os.makedirs(folder)
            plotter.make_all_plots(save=True, save_path=folder, fmt="png", dpi=20)
            files = {"burn_in.png", "marginal_posterior.png", "corner.png", "autocorr.png", "acceptance_fraction.png"}
            require(set(os.listdir(folder)) == files, "saved {}", sorted(os.listdir(folder)))
            plt.close("all")
            rec.label("saved")
    compare(plotter, names, config, c, l, b, rec)
    require(sha(path) == before, "the backend file was changed")
    os.remove(path)
    rec.nontrivial()
    rec.label(f"{p} parameters", "constant prior" if np.ptp(b) == 0 else "prior")


PARTS = {"data": case_data, "plots": case_plots}


def run(check, only=None):
    check.assumptions += [
        "plots are made from chains with at least two iterations in which all walkers have a finite posterior and, for the "
        "corner plot, more samples than quantities",
        "thinning keeps the last step of every group of steps, as emcee does",
    ]
    if only in (None, "data"):
        check.search("data", cases(), case_data, check.n(150, 4000))
    if only in (None, "plots"):
        check.search("plots", cases(plots=True), case_plots, check.n(10, 200))
