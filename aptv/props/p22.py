"""P22: a saved fit can be restored and continued without losing anything."""

import json
import os

import numpy as np
from hypothesis import strategies as st

from aptv import fitlab, kit
from aptv.harness import require

RULE = "a history in which a run appends to a chain after restoring, after an interruption, or from another context"


class Interruption(Exception):
    pass


# (op, weight) of the steps after the first fit
OPS = ["continue", "continue", "continue", "restore", "restore", "restore", "interrupt", "interrupt", "other", "refit", "disturb"]


@st.composite
def cases(draw):
    rng = np.random.default_rng(draw(st.integers(0, 2**32 - 1)))
    spec = fitlab.draw_spec(rng)
    steps = []
    for _ in range(int(rng.integers(2, 8))):
        steps.append(
            {
                "op": str(rng.choice(OPS)),
                "iterations": int(rng.integers(1, 5)),
                "batch": int(rng.choice([1, 2, 5])),
                "moves": str(rng.choice(["default", "tiny"])),
                "flag": bool(rng.random() < 0.5),
                "number": int(rng.integers(61)),
            }
        )
    # histories shrink at their end
    steps = steps[: draw(st.sampled_from([7, 6, 5, 4, 3, 2, 1]))]
    return {
        "spec": spec,
        "extra": int(rng.integers(0, 5)),
        "first": {"iterations": int(rng.integers(1, 5)), "batch": int(rng.choice([1, 2, 5])), "interrupted": bool(rng.random() < 0.15)},
        "backend": bool(rng.random() < 0.85),
        "by_attribute": bool(rng.random() < 0.2),
        "steps": steps,
        "seed": int(rng.integers(2**31)),
    }


def moves(kind, n):
    import emcee

    return emcee.moves.GaussianMove(np.full(n, 1e-10)) if kind == "tiny" else None


class History:
    """The context that is used at present, and what its chain has to be."""

    def __init__(self, case, rec):
        self.case, self.rec = case, rec
        self.lab = fitlab.Lab(case["spec"])
        self.ndim = len(self.lab.fitted)
        self.walkers = 2 * self.ndim + case["extra"]
        self.path = os.path.abspath(kit.unique("fit") + ".h5") if case["backend"] else None
        self.context = self.lab.context(self.path, case["by_attribute"])
        self.chain = None  # positions, log posteriors, log priors
        self.saved = False  # the last run has ended
        self.batch = None
        self.appended = 0
        self.special = False
        self.kind = "default"

    # -------------------------------------------------------------- reading
    def read(self):
        sampler = self.context.sampler
        chain = sampler.get_chain()
        logp, blobs = sampler.get_log_prob(), np.asarray(sampler.get_blobs()).reshape(chain.shape[:2])
        if self.path is not None:
            for got, inside in zip((chain, logp, blobs), fitlab.stored(self.path)):
                require(np.array_equal(got, inside.reshape(got.shape), equal_nan=True), "the chain of the context is not the one in its file")
        return np.array(chain), np.array(logp), np.array(blobs)

    def compare(self, old, new, iterations, last=None, kind="default"):
        """``new`` is ``old`` and some steps more which start from the last ones."""
        n = 0 if old is None else len(old[0])
        require(len(new[0]) == n + iterations, "{} steps after {} and a run of {}", len(new[0]), n, iterations)
        require(new[0].shape[1:] == (self.walkers, self.ndim), "chain of shape {}", new[0].shape)
        if n:
            for a, b in zip(old, new):
                require(np.array_equal(a, b[:n], equal_nan=True), "the steps stored before are changed")
        if last is None and n:
            last = [a[-1] for a in old]
        if last is None or not iterations:
            return
        position, logp = last[0], last[1]
        first = new[0][n]
        stay = np.all(first == position, axis=1)
        if kind == "tiny":
            require(np.max(np.abs(first - position)) < 1e-3, "the first step after {} is at {}", position, first)
        else:
            for w in np.flatnonzero(~stay):
                # a stretch towards another walker, which may have moved before
                others = np.concatenate([np.delete(position, w, axis=0), np.delete(first, w, axis=0)])
                a, b = position[w] - others, first[w] - others
                size = np.linalg.norm(a, axis=1) * np.linalg.norm(b, axis=1)
                cosine = np.sum(a * b, axis=1) / np.where(size > 0, size, np.inf)
                require(
                    np.max(cosine) > 1 - 1e-9, "walker {} does not move from {} towards another one, but to {}", w, position[w], first[w]
                )
        for w in np.flatnonzero(stay):
            same = new[1][n][w] == logp[w]
            if not same:
                # evaluated again, maybe with another batch size
                llh, scale = self.lab.log_likelihood(dict(zip(self.lab.fitted, map(float, position[w]))), self.batch)
                same = abs(new[1][n][w] - float(new[2][n][w]) - llh) < 1e-4 * scale
            require(same, "a walker stays but its posterior changes from {} to {}", logp[w], new[1][n][w])
        self.rec.checked(self.walkers)

    def run(self, function, old, iterations, batch, last=None, kind="default", interrupt=None, **kwargs):
        """Run a fit, which may be interrupted at an evaluation; update the chain."""
        count = [0]
        original = type(self.context).log_posterior.__get__(self.context)

        def log_posterior(*args, **kw):
            if interrupt is not None and count[0] >= interrupt:
                raise Interruption()
            count[0] += 1
            return original(*args, **kw)

        self.context.log_posterior = log_posterior
        self.batch = batch
        done = True
        try:
            function(iteration=iterations, batch_size=batch, moves=moves(kind, self.ndim), **kwargs)
        except Interruption:
            done = False
        finally:
            del self.context.log_posterior
        if done:
            self.saved = True
            self.meta = {"batch_size": batch}
            n = iterations
        else:
            self.rec.label("interrupted")
        try:
            new = self.read()
        except (AttributeError, KeyError, FileNotFoundError, OSError):
            new = None
        if not done:
            n = (0 if new is None else len(new[0])) - (0 if old is None else len(old[0]))
            # the steps that were complete are not lost, and no more is stored
            steps = [max(count[0] - k * self.walkers, 0) // self.walkers for k in (0, 1)]
            require(min(steps) <= n <= max(steps), "{} steps stored of {} evaluations of {} walkers", n, count[0], self.walkers)
            if new is None:
                # in memory, or a new file: there is nothing yet
                self.chain = None
                return False
        self.compare(old, new, n, last, kind)
        self.chain = new
        if done:
            self.check_estimates()
            self.check_meta()
        return done

    # -------------------------------------------------------------- what is derived
    def check_estimates(self):
        context, lab = self.context, self.lab
        chain, logp, _ = self.chain
        flat, flatp = chain.reshape(-1, self.ndim), logp.reshape(-1)
        want = set(lab.spec["config"])

        def values(which):
            got = context.get_post_parameters(which)
            require(set(got) == want, "{} parameters {} instead of {}", which, sorted(got), sorted(want))
            for k, v in lab.fixed.items():
                require(got[k] == v, "fixed parameter {} is {} instead of {}", k, got[k], v)
            return np.array([float(got[k]) for k in lab.fitted])

        mpe = values("mpe")
        best = flat[flatp == flatp.max()]
        require(np.any(np.all(best == mpe, axis=1)), "best parameters {} instead of one of {}", mpe, best[:3])
        median = values("median")
        require(np.allclose(median, np.median(flat, axis=0), rtol=1e-12, atol=0), "median {} instead of {}", median, np.median(flat, axis=0))
        rows = {tuple(r): set() for r in flat}
        for i, r in enumerate(flat):
            rows[tuple(r)].add(3 * i // len(flat))
        seen = set()
        for _ in range(60):
            r = tuple(values("random"))
            require(r in rows, "random parameters {} are not of the chain", r)
            seen |= rows[r]
        if 1 < len(flat) <= 16:
            # a sample which is drawn with its probability is missed once in 1e9 cases
            drawn = {tuple(values("random")) for _ in range(24 * len(flat))}
            require(drawn == set(rows), "{} of {} samples are never drawn", len(set(rows) - drawn), len(rows))
            self.rec.label("all samples drawn")
        if len(flat) >= 6:
            require(seen == {0, 1, 2}, "random parameters are never of some third of the chain: {}", seen)
        require(kit.refused(context.get_post_parameters, "mean"), "accepts an unknown estimate")
        file = kit.unique("post") + ".json"
        context.dump_post_parameters(file)
        with open(file) as f:
            dumped = json.load(f)
        require(set(dumped) == want and all(dumped[k] == v for k, v in lab.fixed.items()), "dumps {}", dumped)
        require(
            np.any(np.all(best == np.array([dumped[k] for k in lab.fitted]), axis=1)), "dumps {} instead of the best parameters", dumped
        )
        self.rec.checked(6)

    def check_meta(self):
        if self.path is None:
            return
        import appletree as apt

        attrs = fitlab.attributes(self.path)
        flatp = self.chain[1].reshape(-1)
        best = self.chain[0].reshape(-1, self.ndim)[flatp == flatp.max()]
        post = json.loads(attrs["post_parameters"])
        require(
            np.any(np.all(best == np.array([post[k] for k in self.lab.fitted]), axis=1)), "saved best parameters {}", post
        )
        require(int(attrs["batch_size"]) == self.meta["batch_size"], "saved batch size {} instead of {}", attrs["batch_size"], self.meta["batch_size"])
        require(int(attrs["nwalkers"]) == self.walkers, "saved number of walkers {}", attrs["nwalkers"])
        require(list(attrs["parameter_fit"]) == self.lab.fitted, "saved fitted parameters {} instead of {}", attrs["parameter_fit"], self.lab.fitted)
        require(json.loads(attrs["par_config"]) == self.lab.spec["config"], "saved parameter configuration {}", attrs["par_config"])
        require(json.loads(attrs["metadata"])["version"] == apt.__version__, "saved metadata {}", attrs["metadata"])
        instruct = json.loads(attrs["instruct"])
        require(instruct["likelihoods"] == json.loads(json.dumps(self.lab.instruct["likelihoods"])), "saved instructions {}", instruct)
        require(json.loads(attrs["config"]) == self.lab.instruct["configs"], "saved configuration {}", attrs["config"])
        require(np.shape(attrs["acceptance_fraction"]) == (self.walkers,), "saved acceptance fraction {}", attrs["acceptance_fraction"])
        self.rec.checked(8)

    def describe(self):
        """What a restored context has to share."""
        import appletree as apt

        result = {}
        for n, likelihood in self.context.likelihoods.items():
            # the file has the likelihoods and components in alphabetic order
            kinds = {k: (isinstance(c, apt.component.ComponentSim), type(c).__name__) for k, c in likelihood.components.items()}
            result[n] = (type(likelihood).__name__, kinds, np.asarray(likelihood.data_hist).tolist(), sorted(likelihood.needed_parameters))
        return result, self.context.par_manager.par_config, list(self.context.par_manager.parameter_fit), sorted(self.context.needed_parameters)

    def evaluate(self, batch=2, walker=0):
        i = int(len(self.chain[0]) // 2)
        point = dict(zip(self.lab.fitted, map(float, self.chain[0][i, walker])))
        got = self.context.log_posterior(point, batch_size=batch)
        return float(got[0]), float(got[1])

    # -------------------------------------------------------------- steps
    def fit(self, spec, interrupt=None):
        self.saved = False
        return self.run(self.context.fitting, None, spec["iterations"], spec["batch"], interrupt=interrupt, nwalkers=self.walkers)

    def step(self, step):
        import appletree as apt

        op = step["op"]
        lab = self.lab
        if op == "refit" or self.chain is None:
            # starts again, and nothing of the former chain is kept
            self.chain = None
            self.fit(step)
        elif op == "continue":
            self.extend(step)
        elif op == "interrupt":
            self.special = True
            self.extend(step, interrupt=step["number"] % (self.walkers * step["iterations"]))
        elif op == "disturb":
            # neither the chain nor the estimates depend on it
            if step["flag"]:
                self.context.par_manager.sample_prior()
            else:
                self.context.log_posterior({k: float(lab.spec["config"][k]["init_mean"]) for k in lab.fitted}, batch_size=step["batch"])
            self.check_estimates()
        elif op == "restore" and self.path is not None and self.saved:
            self.special = True
            before, values = self.describe(), self.evaluate()
            if step["flag"]:
                new = os.path.abspath(kit.unique("renamed") + ".h5")
                os.rename(self.path, new)
                self.path = new
            # as in a new process
            kit.reset()
            given = self.path if step["number"] % 2 else os.path.relpath(self.path)
            self.context = apt.Context.from_backend(given, moves=moves(step["moves"], self.ndim))
            after = self.describe()
            for a, b, what in zip(after, before, ["likelihoods", "parameter configuration", "fitted parameters", "needed parameters"]):
                require(a == b, "restored {} {} instead of {}", what, a, b)
            new = self.read()
            for a, b in zip(self.chain, new):
                require(np.array_equal(a, b, equal_nan=True), "the restored chain is another one")
            got = self.evaluate()
            require(
                got == values or all(abs(a - b) <= 1e-5 * (abs(b) + 10) for a, b in zip(got, values)), "the restored context evaluates to {} instead of {}", got, values
            )
            self.check_estimates()
            # the restored sampler evaluates as that of the run which was saved
            got = self.context.sampler.compute_log_prob(np.array(self.chain[0][len(self.chain[0]) // 2]))[0]
            for walker in {0, self.walkers - 1}:
                want = self.evaluate(self.meta["batch_size"], walker)[0]
                require(got[walker] == want or abs(got[walker] - want) <= 1e-5 * (abs(want) + 10), "the restored sampler evaluates to {} instead of {}", got[walker], want)
            self.rec.checked(8)
            self.rec.label("restored" + (" renamed" if step["flag"] else ""))
        elif op == "other":
            self.other(step)
        else:
            self.extend(step)

    def extend(self, step, interrupt=None):
        old, last = self.chain, [a[-1] for a in self.chain]
        if self.path is None:
            # only the chain of this run is in memory
            old = None
        self.appended += self.special
        self.run(self.context.continue_fitting, old, step["iterations"], step["batch"], last=last, kind=step["moves"], interrupt=interrupt)

    def other(self, step):
        """Continue with a context of its own, with another file or none."""
        self.special = True
        former, former_path, last = self.context, self.path, [a[-1] for a in self.chain]
        old_file = fitlab.stored(former_path) if former_path else None
        old_attrs = fitlab.attributes(former_path) if former_path else None
        path = os.path.abspath(kit.unique("other") + ".h5") if step["flag"] else None
        self.context = self.lab.context(path, by_attribute=bool(step["number"] % 3 == 0))
        self.path = path
        self.appended += self.special
        self.saved = False
        self.run(
            self.context.continue_fitting, None, step["iterations"], step["batch"], last=last, kind=step["moves"], context=former
        )
        if former_path:
            for a, b in zip(old_file, fitlab.stored(former_path)):
                require(np.array_equal(a, b, equal_nan=True), "continuing in another context changes the file")
            new_attrs = fitlab.attributes(former_path)
            require({k: str(v) for k, v in old_attrs.items()} == {k: str(v) for k, v in new_attrs.items()}, "continuing in another context changes the metadata")
        self.rec.label("other context")


def history(case, rec):
    kit.reset()
    np.random.seed(case["seed"])
    h = History(case, rec)
    first = case["first"]
    interrupt = (case["seed"] % (h.walkers * (first["iterations"] + 1))) if first["interrupted"] else None
    h.fit(first, interrupt=interrupt)
    if h.chain is not None and len(h.chain[0]) == 0:
        h.chain = None
    for step in case["steps"]:
        h.step(step)
        if h.chain is not None and len(h.chain[0]) == 0:
            h.chain = None
    rec.nontrivial(h.appended)


PARTS = {"history": history}


def run(check, only=None):
    check.assumptions += [
        "interruptions happen while the posterior is evaluated, not while the file is written",
        "a fit that was interrupted before its end has no metadata, so it is continued with the same context instead of being restored",
        "a restored context gets its options from the instructions, not from options that were set globally besides",
    ]
    check.search("history", cases(), history, check.n(40, 1200))
