"""P20: the shipped plugins compute the documented physics."""

import itertools
import json
import os

import numpy as np
from hypothesis import strategies as st

from aptv import kit, physics
from aptv.harness import require
from aptv.stats import ks_distance_limit

RULE = "the reference value, or the reference distribution, is different for at least two events (or one random event)"

ROWS = 64
EVENTS = 3
DRAWS = 20000
REFERENCE = 60000
# probability of a false alarm of one comparison
ALPHA = 1e-10


@st.composite
def cases(draw, where, pool):
    model = physics.MODELS[where]
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    # compilation takes most of the time: configurations come from a small pool
    number = draw(st.integers(0, pool - 1))
    crng = np.random.RandomState([number, sum(map(ord, where))] + pool_salt)
    configs = {name: kind.generate(crng) for name, kind in model.configs.items()}
    p = physics.draw_parameters(rng)
    data = physics.draw_inputs(rng, ROWS if model.formula else EVENTS)
    return {
        "where": where,
        "configs": configs,
        "parameters": p,
        "inputs": {k: data[k].tolist() for k in model.depends if k != physics.BATCH},
        "seed": int(rng.randint(2**31)),
    }


pool_salt = [0]
_instances = {}


def instance(case):
    """Plugin of the case, and what the reference sees of its configuration."""
    import appletree as apt

    identity = json.dumps([case["where"], case["configs"]], sort_keys=True)
    if identity not in _instances:
        kit.reset()
        model = physics.MODELS[case["where"]]
        seen = {}
        for name, kind in model.configs.items():
            value, seen[name] = kind.value(case["configs"][name], os.getcwd(), name)
            apt.set_global_config({name: value})
        _instances[identity] = (model.plugin_class()(kit.unique("llh")), seen)
    return _instances[identity]


def arguments(plugin, store):
    result = []
    for name in plugin.depends_on:
        require(name in store, "{} needs {}, of which its quantity is no function", type(plugin).__name__, name)
        v = store[name]
        if name != physics.BATCH:
            v = np.int32(v) if name in physics.INTEGERS else np.float32(v)
        result.append(v)
    return result


def full_store(case, n):
    """Every data name: those that the quantity does not depend on have values too."""
    rng = np.random.RandomState(case["seed"])
    store = physics.draw_inputs(rng, n)
    store.update({k: np.array(v) for k, v in case["inputs"].items()})
    return store


def outputs(plugin, model, key, case, store):
    out = plugin(key, case["parameters"], *arguments(plugin, store))
    require(len(out) == 1 + len(plugin.provides), "{} outputs", len(out))
    following = out[0]
    out = dict(zip(plugin.provides, out[1:]))
    require(set(model.provides) <= set(out), "{} provides {}", model.name, sorted(out))
    return following, [np.asarray(out[name], dtype=float) for name in model.provides]


def formula(case, rec):
    model = physics.MODELS[case["where"]]
    plugin, seen = instance(case)
    store = full_store(case, ROWS)
    if model.name in ("TotalQuanta", "ThomasImelBox", "QyNR", "LyNR", "MonoEnergiesClipEff") and case["seed"] % 2:
        store = {k: np.reshape(v, (ROWS // 4, 4)) for k, v in store.items()}
    _, got = outputs(plugin, model, kit.key_of(case["seed"]), case, store)
    i = physics.namespace({k: store[k] for k in case["inputs"]})
    expected = model.formula(i, case["parameters"], seen)
    require(len(expected) == len(model.provides), "reference of {} is wrong", model.name)
    different = False
    for name, g, e in zip(model.provides, got, expected):
        value, size = e if isinstance(e, tuple) else (e, np.abs(e))
        require(g.shape == np.shape(value), "{} has the shape {} instead of {}", name, g.shape, np.shape(value))
        limit = 3e-5 * size + 1e-30
        bad = ~(np.abs(g - value) <= limit) & np.isfinite(size)
        if bad.any():
            j = np.unravel_index(np.argmax(bad), bad.shape)
            inputs = {k: store[k][j] for k in case["inputs"]}
            require(False, "{}.{} is {} instead of {} for {}", model.name, name, g[j], value[j], inputs)
        require(np.isfinite(g[np.isfinite(size) & np.ones(g.shape, dtype=bool)]).all(), "{}.{} is not finite: {}", model.name, name, g)
        rec.checked(int(np.isfinite(size).sum()))
        different = different or np.ptp(value) > 0 or np.size(value) > 1 and name in ("eff", "field", "fano_nq", "acc_s2_threshold")
    rec.nontrivial(different)
    rec.label(case["where"])


def distance(a, b, tol):
    """Kolmogorov distance of two samples, where values may differ by tol."""
    a, b = np.sort(a), np.sort(b)
    x = np.concatenate([a, b])
    ca, cb = lambda v: np.searchsorted(a, v, side="right") / len(a), lambda v: np.searchsorted(b, v, side="right") / len(b)
    return max(np.max(ca(x) - cb(x + tol)), np.max(cb(x - tol) - ca(x)))


def mean_limit(x, n):
    """Bernstein bound on the difference of means of a sample of n and this one."""
    log = np.log(2 / ALPHA)
    return np.sqrt(2 * x.var() * log * (1 / n + 1 / len(x))) * 1.05 + 2 * np.ptp(x) * log / 3 * (1 / n + 1 / len(x))


def same(name, a, b):
    tol = 2e-5 * max(np.abs(b).max(), 1e-30)
    d, limit = distance(a, b, tol), ks_distance_limit(len(a), ALPHA) + ks_distance_limit(len(b), ALPHA)
    about = f"mean {a.mean():.6g} std {a.std():.6g} instead of mean {b.mean():.6g} std {b.std():.6g}"
    require(d <= limit, "{}: other distribution (distance {}, limit {}), {}", name, d, limit, about)
    both = np.concatenate([a, b])
    wide = np.array([both.min(), both.max()])
    extra = tol + 2e-5 * abs(b.mean())
    lim = mean_limit(b, len(a)) + 2 * (np.ptp(wide) - np.ptp(b)) * np.log(2 / ALPHA) / 3 / len(a)
    require(abs(a.mean() - b.mean()) <= lim + extra, "{}: other mean, {}", name, about)
    m = b.mean()
    sa, sb = (a - m) ** 2, (b - m) ** 2
    lim = mean_limit(sb, len(a)) + 2 * max(sa.max() - sb.max(), 0) * np.log(2 / ALPHA) / 3 / len(a)
    require(abs(sa.mean() - sb.mean()) <= lim + 4 * extra * (b.std() + extra), "{}: other spread, {}", name, about)


def later(plugin, model, key, case, store):
    """What is drawn with the key that the plugin returns."""
    from appletree import randgen

    n = DRAWS * EVENTS
    result = list(zip(model.provides, outputs(plugin, model, key, case, store)[1]))
    result.append(("normal", np.asarray(randgen.normal(key, 0.0, 1.0, shape=(n,))[1], dtype=float)))
    result.append(("uniform", np.asarray(randgen.uniform(key, 0.0, 1.0, shape=(n,))[1], dtype=float)))
    return result


def unrelated(a, b, about, what):
    c = abs(np.corrcoef(a, b)[0, 1])
    heavy = max(np.max(np.abs(v - v.mean())) / v.std() for v in (a, b))
    lim = 7.5 / np.sqrt(len(a)) + 10 * heavy**2 / len(a)
    require(c <= lim, "{}: {} depend on each other ({}, limit {})", about, what, c, lim)


def draws(case, rec):
    model = physics.MODELS[case["where"]]
    plugin, seen = instance(case)
    p = case["parameters"]
    rng = np.random.RandomState(case["seed"])
    events = EVENTS
    if physics.BATCH in model.depends:
        events = 1
        store = {physics.BATCH: DRAWS * EVENTS}
    else:
        # neighbours in the array are different events
        store = {k: np.tile(v, DRAWS) for k, v in full_store(case, EVENTS).items()}
    following, got = outputs(plugin, model, kit.key_of(case["seed"]), case, store)
    after = later(plugin, model, following, case, store)
    for g in got:
        require(np.isfinite(g).all(), "{} is not finite", model.name)
    random = False
    for e in range(events):
        i = physics.namespace({k: store[k][e] for k in case["inputs"]})
        expected = [np.asarray(v, dtype=float) for v in model.sampler(rng, REFERENCE, i, p, seen)]
        # several columns are several energies
        wide = expected[0].ndim == 2
        for column in range(expected[0].shape[1] if wide else 1):
            ref = [np.float32(v[:, column] if wide else v).astype(float) for v in expected]
            sim = [g[e::events, column] if wide else g[e::events] for g in got]
            about = f"{model.name} for {i.__dict__}"
            for name, a, b in zip(model.provides, sim, ref):
                require(a.shape == (len(got[0]) // events,), "{}: shape {}", name, a.shape)
                same(f"{name} of {about}", a, b)
                random = random or b.std() > 0
                rec.checked()
            for (n1, a1, b1), (n2, a2, b2) in itertools.combinations(zip(model.provides, sim, ref), 2):
                # joint distribution: sum and difference in units of the spread
                s1, s2 = b1.std() or 1.0, b2.std() or 1.0
                for sign in (1, -1):
                    a = (a1 - b1.mean()) / s1 + sign * (a2 - b2.mean()) / s2
                    b = (b1 - b1.mean()) / s1 + sign * (b2 - b2.mean()) / s2
                    a, b = a + 10, b + 10
                    # the spread of an (almost) constant combination is rounding
                    noise = 3e-6 * (np.abs(b1).max() / s1 + np.abs(b2).max() / s2 + 10)
                    lim = ks_distance_limit(len(a), ALPHA) + ks_distance_limit(len(b), ALPHA)
                    d = distance(a, b, noise)
                    require(d <= lim, "{} and {} of {}: other joint distribution ({})", n1, n2, about, d)
                    rec.checked()
            # every draw is its own
            for name, a in zip(model.provides, sim):
                if a.std() > 0:
                    unrelated(a[1:], a[:-1], about, "draws")
                    for other, b in after:
                        if b.shape[0] == len(got[0]):
                            b = b[e::events, column] if b.ndim == 2 else b[e::events]
                            if b.std() > 0:
                                unrelated(a, b, about, f"{name} and a later {other}")
                                rec.checked()
    rec.nontrivial(random)
    rec.label(case["where"])


PARTS = {"formula": formula, "draws": draws}


def run(check, only=None):
    import appletree as apt

    pool_salt[0] = check.seed
    modelled = {m.plugin_class() for m in physics.MODELS.values()}
    missing = []
    for module in ("common", "detector", "efficiency", "er_microphys", "er_nestv2", "lyqy", "nestv2", "reconstruction"):
        for v in vars(getattr(apt.plugins, module)).values():
            if isinstance(v, type) and issubclass(v, apt.plugin.Plugin) and v.__module__.endswith("." + module) and v not in modelled:
                missing.append(v.__name__)
    check.assumptions = [
        "Physical region of inputs and parameters (aptv/physics.py: draw_parameters, draw_inputs); single precision explains relative errors up to 3e-5 of the largest term.",
        "The interpolation of position maps is decided by P14; here a map of its own, read from the same generated file, is the reference.",
        f"Plugins without reference: {sorted(missing) or 'none'}.",
    ]
    for where, model in physics.MODELS.items():
        part = "formula" if model.formula else "draws"
        if only and part != only and where != only:
            continue
        pool = (3 if check.tier == "quick" else 12) if model.configs else 1
        n = check.n(24, 600) if model.formula else check.n(7, 80)
        check.search(part, cases(where, pool), PARTS[part], n, salt=where)
        for key in [k for k in _instances if json.loads(k)[0] == where]:
            del _instances[key]
    return check
