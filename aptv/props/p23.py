"""P23: every stored MCMC sample is a valid, correctly labelled posterior evaluation."""

import os

import numpy as np
from hypothesis import strategies as st

from aptv import fitlab, kit
from aptv.harness import require

RULE = "walkers moved, at least two fitted parameters, and a fixed, aliased or copied one or a range that cuts the starting points"


@st.composite
def cases(draw):
    rng = np.random.default_rng(draw(st.integers(0, 2**32 - 1)))
    spec = fitlab.draw_spec(rng)
    fitted = sum(v["prior_type"] != "fixed" for v in spec["config"].values())
    runs = []
    for _ in range(int(rng.integers(1, 4))):
        runs.append({"iterations": int(rng.integers(1, 7)), "batch": int(rng.choice([1, 2, 5])), "repeat": int(rng.choice([1, 1, 2]))})
    return {
        "spec": spec,
        "walkers": int(2 * fitted + rng.integers(0, 6)),
        "runs": runs,
        "backend": bool(rng.random() < 0.6),
        "between": str(rng.choice(["nothing", "set", "sample"])),
        "seed": int(rng.integers(2**31)),
    }


def fit(case, rec):
    kit.reset()
    np.random.seed(case["seed"])
    spec = case["spec"]
    lab = fitlab.Lab(spec)
    path = os.path.abspath(kit.unique("fit") + ".h5") if case["backend"] else None
    context = lab.context(path)
    require(list(context.par_manager.parameter_fit) == lab.fitted, "fits {} instead of {}", context.par_manager.parameter_fit, lab.fitted)
    evaluated = []
    original = context.log_posterior

    def log_posterior(parameters, *args, **kwargs):
        result = original(parameters, *args, **kwargs)
        evaluated.append((dict(parameters), result))
        return result

    context.log_posterior = log_posterior
    start = 0
    batches = []
    ranges = np.array([spec["config"][k]["allowed_range"] for k in lab.fitted])
    previous = None
    table = {}
    for r, run in enumerate(case["runs"]):
        del evaluated[:]
        if r == 0:
            context.fitting(nwalkers=case["walkers"], iteration=run["iterations"], batch_size=run["batch"], repeat_times=run["repeat"])
        else:
            context.continue_fitting(iteration=run["iterations"], batch_size=run["batch"], repeat_times=run["repeat"])
        chain = context.get_all_post_parameters()
        logp = context.sampler.get_log_prob()
        blobs = np.asarray(context.sampler.get_blobs()).reshape(len(chain), case["walkers"])
        if path is not None:
            for a, b in zip((chain, logp, blobs), fitlab.stored(path)):
                require(np.array_equal(a, b.reshape(a.shape), equal_nan=True), "the file does not hold what the sampler returns")
        else:
            batches, start = [], 0
        batches += [run["batch"]] * run["iterations"]
        require(
            chain.shape == (len(batches), case["walkers"], len(lab.fitted)),
            "chain of shape {} for {} iterations, {} walkers and parameters {}", chain.shape, len(batches), case["walkers"], lab.fitted,
        )
        require(logp.shape == chain.shape[:2], "log posteriors of shape {}", logp.shape)
        require(np.all((chain >= ranges[:, 0]) & (chain <= ranges[:, 1])), "a walker is outside the allowed range")
        # what was evaluated
        names = {tuple(sorted(p)) for p, _ in evaluated}
        require(names <= {tuple(lab.fitted)}, "evaluates the parameters {} instead of {}", names, lab.fitted)
        if r == 0 and not evaluated:
            # evaluated in another way
            previous = chain[0]
        elif r == 0:
            first = np.array([[p[k] for k in lab.fitted] for p, _ in evaluated[: case["walkers"]]])
            require(np.all((first >= ranges[:, 0]) & (first <= ranges[:, 1])), "a walker starts outside the allowed range")
            require(len(np.unique(first, axis=0)) == len(first) or np.any(first == ranges[:, 0]) or np.any(first == ranges[:, 1]), "walkers start at the same point")
            previous = first
        for p, (post, prior) in evaluated:
            table.setdefault(tuple(p[k] for k in lab.fitted), []).append((float(post), float(prior)))
        moved = 0
        for i in range(start, len(chain)):
            for w in range(case["walkers"]):
                position = tuple(chain[i, w])
                moved += not np.array_equal(chain[i, w], previous[w])
                if not table:
                    continue
                require(position in table, "the stored position {} was never evaluated", position)
                close = [
                    a == logp[i, w] and np.float32(b) == np.float32(blobs[i, w]) for a, b in table[position]
                ]
                require(any(close), "stored {} and {} but {} were evaluated there", logp[i, w], blobs[i, w], table[position])
            previous = chain[i]
        # the reference
        offsets = []
        for i in range(len(chain)):
            for w in range(case["walkers"]):
                point = dict(zip(lab.fitted, map(float, chain[i, w])))
                prior = lab.log_prior(point)
                if not np.isfinite(prior):
                    require(logp[i, w] == -np.inf and blobs[i, w] == -np.inf, "posterior {} and prior {} of an excluded point", logp[i, w], blobs[i, w])
                    continue
                offsets.append(blobs[i, w] - prior)
                candidates = {batches[i]}
                # walkers may stay where they came to with another batch size
                k = i
                while k > 0 and np.array_equal(chain[k - 1, w], chain[i, w]):
                    k -= 1
                    candidates.add(batches[k])
                if k == 0 and path is None:
                    candidates |= {run["batch"] for run in case["runs"]}
                good = []
                for batch in candidates:
                    llh, scale = lab.log_likelihood(point, batch)
                    good.append(abs(logp[i, w] - float(blobs[i, w]) - llh) <= 2e-5 * (scale + abs(float(blobs[i, w]))))
                require(any(good), "posterior {} and prior {} at {}, where the log likelihood is {}", logp[i, w], blobs[i, w], point, llh)
        if offsets:
            require(np.ptp(offsets) <= 1e-4 * (1 + np.max(np.abs(blobs[np.isfinite(blobs)]))), "log priors differ by {} from theirs", np.ptp(offsets))
        rec.checked(chain.shape[0] * chain.shape[1])
        cut = np.any(previous == ranges[:, 0]) or np.any(previous == ranges[:, 1])
        rec.nontrivial(
            moved and len(lab.fitted) > 1 and (lab.fixed or cut or any(llh["alias"] or llh["copy"] for llh in spec["llhs"]))
        )
        start = len(chain)
        if path is None:
            start = 0
        if case["between"] == "set":
            context.par_manager.set_parameter({k: float(spec["config"][k]["init_mean"]) for k in lab.fitted})
        elif case["between"] == "sample":
            context.par_manager.sample_prior()
    # once more, in a new context
    again = lab.context(None)
    rng = np.random.default_rng(case["seed"])
    for _ in range(3):
        i, w = int(rng.integers(len(chain))), int(rng.integers(case["walkers"]))
        point = dict(zip(lab.fitted, map(float, chain[i, w])))
        post, prior = again.log_posterior(point, batch_size=batches[i])
        k = i
        while k > 0 and np.array_equal(chain[k - 1, w], chain[i, w]):
            k -= 1
        if len({run["batch"] for run in case["runs"]}) > 1 and (k == 0 and path is None or len(set(batches[k : i + 1])) > 1):
            continue
        scale = 1e-5 * (abs(post) + 10) if np.isfinite(post) else 0
        require(float(post) == logp[i, w] or abs(float(post) - logp[i, w]) <= scale, "evaluating {} again gives {} instead of {}", point, post, logp[i, w])
        require(np.float32(prior) == blobs[i, w], "evaluating {} again gives the prior {} instead of {}", point, prior, blobs[i, w])
        rec.checked(2)
    rec.label("file" if path else "memory", f"{len(lab.fitted)} fitted")


PARTS = {"fit": fit}


def run(check, only=None):
    check.assumptions += [
        "the likelihoods of the fitted contexts are deterministic, with at most 8 parameters and 18 steps",
        "a likelihood of a stored sample is compared with double precision to 2e-5 of the sum of its terms",
    ]
    check.search("fit", cases(), fit, check.n(30, 1200))
