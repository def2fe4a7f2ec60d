"""P02: simulations are reproducible and never reuse randomness."""

import contextlib
import inspect
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from aptv import graphs, harness, kit, lab, shipped, variants
from aptv.harness import HarnessError, require
from aptv.props import p17

RULE = "at least two random draws are made and compared (by different plugins, components, calls, builds or processes)"

NOT_DRAWING = {"split", "fold_in", "PRNGKey", "key", "key_data", "wrap_key_data", "clone", "key_impl", "random_seed"}


class Draws(list):
    """Keys of draws, and the keys which were split."""

    def __init__(self):
        self.split = []


@contextlib.contextmanager
def recording():
    """List of the keys with which random numbers were drawn, in an eager run."""
    import jax
    from jax import random

    drawn = Draws()
    old = {"split": random.split}

    def split(key, *args, **kwargs):
        if not isinstance(key, jax.core.Tracer):
            drawn.split.append(kit.key_bits(random.key_data(key)))
        with jax.disable_jit(False):
            return old["split"](key, *args, **kwargs)

    def wrap(name, fn):
        def wrapped(key, *args, **kwargs):
            if isinstance(key, jax.core.Tracer):
                return fn(key, *args, **kwargs)
            try:
                drawn.append((name, tuple(int(v) for v in np.asarray(random.key_data(key)).ravel())))
            except Exception:
                drawn.append((name, kit.key_bits(key)))
            with jax.disable_jit(False):
                return fn(key, *args, **kwargs)

        return wrapped

    for name in dir(random):
        fn = getattr(random, name)
        if name.startswith("_") or name in NOT_DRAWING or not callable(fn):
            continue
        try:
            first = next(iter(inspect.signature(fn).parameters), None)
        except (TypeError, ValueError):
            continue
        if first == "key":
            old[name] = fn
    try:
        for name, fn in old.items():
            setattr(random, name, split if name == "split" else wrap(name, fn))
        with jax.disable_jit():
            yield drawn
    finally:
        for name, fn in old.items():
            setattr(random, name, fn)


def draws_are_distinct(drawn, what):
    bits = [b for _, b in drawn]
    for i, b in enumerate(bits):
        if b in bits[:i]:
            j = bits.index(b)
            require(False, "{}: draw {} ({}) uses the key of draw {} ({})", what, i, drawn[i][0], j, drawn[j][0])


def arrays(x):
    return [np.asarray(v) for v in x]


def same(a, b):
    """Bitwise the same outputs."""
    a, b = arrays(a), arrays(b)
    return len(a) == len(b) and all(
        x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes() for x, y in zip(a, b)
    )


# ----------------------------------------------------------------------
SAMPLER = st.fixed_dictionaries(
    {
        "sampler": st.sampled_from(sorted(filter(variants.available, p17.SAMPLERS))),
        "key": st.integers(0, 2**31 - 1),
        "seed": st.integers(0, 2**32 - 1),
        "explicit": st.booleans(),
        "calls": st.integers(2, 4),
    }
)


def sampler(case, rec):
    """Keys of successive calls of a sampler."""
    name = case["sampler"]
    fn = variants.get(name)
    pars = [np.asarray(v) for v in p17.draw_parameters(np.random.RandomState(case["seed"]), p17.SAMPLERS[name][0], 4)]
    pars = [p.astype(np.int32 if p.dtype.kind == "i" else np.float32) for p in pars]
    kwargs = {"shape": (4,)} if case["explicit"] else {}
    # as compiled
    key = kit.key_of(case["key"])
    seen = [kit.key_bits(key)]
    values = []
    for i in range(case["calls"]):
        new, x = fn(key, *pars, **kwargs)
        again, y = fn(key, *pars, **kwargs)
        require(kit.key_bits(new) == kit.key_bits(again) and same([x], [y]), "{}: a repeated call gives another result", name)
        require(kit.key_bits(new) not in seen, "{}: call {} returns a key that was used already", name, i)
        seen.append(kit.key_bits(new))
        values.append(np.asarray(x))
        key = new
        rec.checked(2)
    # step by step
    with recording() as drawn:
        key = kit.key_of(case["key"])
        for i in range(case["calls"]):
            before = len(drawn)
            new, _ = fn(key, *pars, **kwargs)
            if len(drawn) == before:
                raise HarnessError(f"no draw recorded in {name}")
            used = [b for _, b in drawn[before:]]
            require(kit.key_bits(new) not in used, "{}: returns the key it has drawn with", name)
            require(kit.key_bits(new) != kit.key_bits(key), "{}: returns the key it was given", name)
            key = new
            rec.checked(2)
    draws_are_distinct(drawn, f"{case['calls']} successive calls of {name}")
    rec.nontrivial()
    rec.label(name)


# ----------------------------------------------------------------------
@st.composite
def drawing_graph(draw):
    spec = draw(graphs.graph(max_names=7, custom_nodep=False, params=False))
    seed = draw(st.integers(0, 2**32 - 1))
    rng = np.random.RandomState(seed)
    for p in spec["plugins"]:
        p["ndraws"] = int(rng.choice([1, 1, 0, 2, 3]))
    names = [n for n in spec["names"] if n != "eff"]
    outputs = draw(st.lists(st.sampled_from(names), min_size=1, unique=True)) if names else []
    return {"graph": spec, "outputs": outputs, "key": draw(st.integers(0, 2**31 - 1)), "batch": draw(st.sampled_from([5, 1, 16]))}


def drawing_plugins(spec, prefix):
    """Plugins whose outputs are the random numbers they draw."""
    import jax.numpy as jnp
    from appletree import randgen

    classes = []
    for p in spec["plugins"]:

        def body(self, key, parameters, *inputs, p=p):
            n = inputs[p["depends_on"].index("batch_size")] if "batch_size" in p["depends_on"] else len(inputs[0])
            rows = []
            for _ in range(p["ndraws"]):
                key, u = randgen.uniform(key, 0.0, 1.0, shape=(n,))
                rows.append(u)
            x = jnp.stack(rows, axis=1) if rows else jnp.zeros((n, 0))
            return tuple([key] + [x for _ in p["provides"]])

        classes.append(kit.make_plugin(f"{prefix}P{p['id']}", p["depends_on"], p["provides"], body))
    return classes


def plugins(case, rec):
    """Draws of the plugins of one simulation, and of consecutive simulations."""
    spec = case["graph"]
    kit.reset()
    names = [n for n in spec["names"] if n != "eff"]
    used, known = graphs.needed(spec, list(case["outputs"]) + ["eff"])
    # every needed name is returned, such that every draw is seen
    outputs = [n for n in names if n in known]
    prefix = kit.unique("R")
    cls = kit.make_component(prefix + "Component", drawing_plugins(spec, prefix))

    def make(name):
        kit.reset()
        c = cls(name=name, llh_name=kit.unique("llh"))
        c.deduce(data_names=outputs)
        c.compile()
        return c

    component = make("first")
    table = graphs.providers(spec)
    key = kit.key_of(case["key"])
    columns = {}
    keys = [kit.key_bits(key)]
    total = sum(p["ndraws"] for p in spec["plugins"] if p["id"] in used)
    results = []
    for step in range(3):
        new, out = component.simulate(key, case["batch"], {})
        again, out2 = component.simulate(key, case["batch"], {})
        require(same([new] + out, [again] + out2), "a repeated simulation gives another result")
        if total:
            require(kit.key_bits(new) not in keys, "simulation {} returns a key that was used already", step)
        keys.append(kit.key_bits(new))
        results.append((key, new, out))
        for name, x in zip(outputs + ["eff"], out):
            x = np.asarray(x)
            p = table[name]
            require(x.shape == (case["batch"], p["ndraws"]), "shape of {}: {}", name, x.shape)
            for k in range(p["ndraws"]):
                mine = (step, p["id"], k)
                content = x[:, k].tobytes()
                require(
                    columns.setdefault(content, mine) == mine,
                    "draw {} of plugin {} in simulation {} equals that of {}",
                    k,
                    p["id"],
                    step,
                    columns[content],
                )
                rec.checked()
        key = new
    # the same component built again, with another simulation in between
    other = make("second")
    other.simulate(kit.key_of(case["key"] + 1), case["batch"], {})
    for key, new, out in results[::-1]:
        new2, out2 = other.simulate(key, case["batch"], {})
        require(same([new] + out, [new2] + out2), "the component built again gives another result")
        rec.checked()
    rec.nontrivial(total >= 2)
    rec.label(f"draws:{min(total, 8)}")


# ----------------------------------------------------------------------
DATA = {k: ["energy", "cs1", "cs2", "rec_x", "field", "num_electron_drifted", "s1_area"] for k in shipped.SIM}
DATA.update({k: ["energy", "light_yield", "charge_yield"] for k in shipped.YIELDS})
SHIPPED = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(shipped.SIM + shipped.YIELDS),
        "key": st.integers(0, 2**31 - 1),
        "seed": st.integers(0, 2**32 - 1),
    }
)


def shipped_keys(case, rec):
    """All draws of a shipped simulation, step by step, use different keys."""
    kit.reset()
    kind = case["kind"]
    component = shipped.build(kind, data_names=DATA[kind])
    pars = shipped.parameters(kind, component, np.random.RandomState(case["seed"]))
    with recording() as drawn:
        key = kit.key_of(case["key"])
        given = [kit.key_bits(key)]
        for _ in range(case.get("times", 2)):
            key, out = component.simulate(key, shipped.batch(kind, 3), pars)
            used = [b for _, b in drawn]
            bits = kit.key_bits(key)
            require(bits not in used and bits not in given, "{}: the returned key was used already", kind)
            require(bits not in drawn.split, "{}: the draws that follow repeat earlier ones, the returned key was split already", kind)
            given.append(bits)
    if not drawn:
        raise HarnessError("no draws recorded")
    for i, bits in enumerate(drawn.split):
        require(bits not in drawn.split[:i], "{}: split {} of the keys repeats an earlier one", kind, i)
    draws_are_distinct(drawn, f"successive simulations of {kind}")
    rec.checked(len(drawn))
    rec.nontrivial(len(drawn) > 1)
    rec.label(kind, f"draws:{len(drawn)}")


def rebuilt(case, rec):
    """Simulations of shipped components repeat, also when built again, in another order or interleaved."""
    rng = np.random.RandomState(case["seed"])
    kinds = list(dict.fromkeys([case["kind"]] + list(rng.permutation(shipped.SIM + shipped.YIELDS)[:1])))
    batch = 64
    points = {k: shipped.parameters(k, None, rng) for k in kinds}

    def points_of(k, c):
        return {**{p: 0.25 for p in c.needed_parameters}, **points[k]}

    def once(order, extra):
        kit.reset()
        built = {}
        for k in order:
            built[k] = shipped.build(k, llh_name=f"llh_{k}", data_names=DATA[k])
        results = {}
        for k in order[::-1] if extra else order:
            if extra:
                # something else in between
                o = order[0]
                built[o].simulate(kit.key_of(case["key"] + 7), shipped.batch(o, batch), points_of(o, built[o]))
            key, out = built[k].simulate(kit.key_of(case["key"]), shipped.batch(k, batch), points_of(k, built[k]))
            results[k] = arrays([key] + list(out))
        return results

    first = once(kinds, False)
    second = once(kinds[::-1], True)
    for k in kinds:
        require(same(first[k], second[k]), "{} gives another result when it is built again", k)
        rec.checked()
    rec.nontrivial()
    rec.label(*kinds)


def processes(case, rec):
    """The same simulations in processes with different hash seeds."""
    running = STARTED.pop(json.dumps(case), None) or start(case)
    results = []
    for p in running:
        out, err = p.communicate(timeout=600)
        require(p.returncode == 0, "simulating failed in a process of its own: {}", err[-500:])
        results.append(json.loads(out.strip().splitlines()[-1]))
    for hashseed, r in zip(case["hashseeds"], results):
        for kind, h in r.items():
            require(h == results[0][kind], "{} gives another result with hash seed {}", kind, hashseed)
            rec.checked()
    rec.nontrivial()


STARTED = {}


def start(case):
    """Start the processes of a case, to run beside other checks."""
    running = []
    for i, hashseed in enumerate(case["hashseeds"]):
        order = case["order"][i % len(case["order"]) :] + case["order"][: i % len(case["order"])]
        spec = {"order": order, "key": case["key"], "batch": 100, "data": {k: DATA[k] for k in order}}
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=harness.ROOT)
        running.append(
            subprocess.Popen(
                [sys.executable, "-m", "aptv.simhash", json.dumps(spec)],
                env=env,
                stdout=subprocess.PIPE,
                stderr=subprocess.PIPE,
                text=True,
            )
        )
    return running


# ----------------------------------------------------------------------
def layout(seed):
    """Components of the likelihoods."""
    rng = np.random.RandomState(seed)
    return [[str(rng.choice(["sim", "sim", "fixed"])) for _ in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 4))]


LIKELIHOODS = st.fixed_dictionaries(
    {
        "components": st.integers(0, 2**32 - 1).map(layout),
        "key": st.integers(0, 2**31 - 1),
        "evaluations": st.integers(1, 3),
        "repeat": st.sampled_from([1, 1, 2, 3]),
    }
)


def likelihoods(case, rec):
    """Components and likelihoods of one evaluation simulate with different keys."""
    import appletree as apt
    from appletree import randgen

    kit.reset()
    csv = kit.write_csv("data.csv", {"cs1": np.linspace(0.05, 0.95, 20)})
    tag = kit.unique("D")
    seen = []

    def body(self, key, parameters, batch_size):
        import jax.numpy as jnp

        key, u = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))
        return key, u, jnp.ones(batch_size)

    plugin = kit.make_plugin(tag + "Plugin", ["batch_size"], ["cs1", "eff"], body)
    base = kit.make_component(tag + "Sim", [plugin], add_eps_to_hist=True)

    def simulate_hist(self, key, batch_size, parameters):
        new, hist = base.simulate_hist(self, key, batch_size, parameters)
        seen.append((f"{self.llh_name}/{self.name}", kit.key_bits(key), kit.key_bits(new)))
        return new, hist

    cls = type(tag + "Watched", (base,), {"simulate_hist": simulate_hist, "__module__": "aptv.generated"})
    kit.add_component(cls)
    kit.make_fixed(tag + "Fixed", add_eps_to_hist=True)
    instruct = {"likelihoods": {}}
    par_config = {"free": lab.free_parameter(0.0)}
    sims = 0
    for i, comps in enumerate(case["components"]):
        llh = {
            "components": {},
            "copy_parameters": {},
            "data_file_name": csv,
            "bins_type": "irreg",
            "bins_on": "cs1",
            "bins": [[0.0, 0.5, 1.0]],
            "clip": [0, 1],
        }
        for j, kind in enumerate(comps):
            name = f"c{j}"
            if kind == "sim":
                sims += 1
                llh["components"][name] = tag + "Watched"
            else:
                llh["components"][name] = {"component_cls": tag + "Fixed", "file_name": csv}
            par_config[f"{name}_rate"] = lab.fixed_parameter(10.0)
        instruct["likelihoods"][f"llh{i}"] = llh
    context = apt.Context(instruct, par_config=par_config)
    batch = 40

    for _ in range(case["evaluations"]):
        context.log_posterior({"free": 0.0}, batch_size=batch, repeat_times=case["repeat"])
    require(len(seen) == sims * case["evaluations"] * case["repeat"], "{} simulations", len(seen))
    keys = [k for _, k, _ in seen]
    for i, k in enumerate(keys):
        require(k not in keys[:i], "simulation {} ({}) uses the key of simulation {}", i, seen[i][0], keys.index(k))
        rec.checked()
    # one likelihood with a given key
    for i, comps in enumerate(case["components"]):
        likelihood = context[f"llh{i}"]
        pars = {f"c{j}_rate": 10.0 for j in range(len(comps))}
        chain = kit.key_of(case["key"])
        given = set()
        values = []
        for _ in range(2):
            given.add(kit.key_bits(chain))
            del seen[:]
            new, llh1 = likelihood.get_log_likelihood(chain, batch, pars)
            now = [k for _, k, _ in seen]
            new2, llh2 = likelihood.get_log_likelihood(chain, batch, pars)
            require(llh1 == llh2 and kit.key_bits(new) == kit.key_bits(new2), "a repeated evaluation differs")
            require(now == [k for _, k, _ in seen[len(now) :]], "a repeated evaluation uses other keys")
            require(len(set(now)) == len(now), "components of a likelihood simulate with the same key")
            key3, data = likelihood.simulate_weighted_data(chain, batch, pars)
            events = np.asarray(data[0])
            at = 0
            for kind in comps:
                n = batch if kind == "sim" else 20
                if kind == "sim":
                    values.append(events[at : at + n])
                at += n
            require(at == len(events), "{} weighted events instead of {}", len(events), at)
            if "sim" in comps:
                require(kit.key_bits(new) not in given, "the likelihood returns a key it was given")
                require(kit.key_bits(key3) not in given, "the weighted data return a key that was given")
            chain = new
            rec.checked(4)
        for a in range(len(values)):
            for b in range(a):
                shared = len(set(values[a].tolist()) & set(values[b].tolist()))
                require(shared < 5, "simulations {} and {} share {} of {} events", b, a, shared, batch)
                rec.checked()
    rec.nontrivial(sims >= 2)
    rec.label(f"sims:{min(sims, 6)}", f"llhs:{len(case['components'])}")


def seeds(case, rec):
    """Keys from seeds."""
    from appletree import randgen

    a, b = case["seeds"]
    require(kit.key_bits(randgen.get_key(a)) == kit.key_bits(randgen.get_key(a)), "the same seed gives different keys")
    if a != b:
        require(kit.key_bits(randgen.get_key(a)) != kit.key_bits(randgen.get_key(seed=b)), "different seeds give the same key")
    before = np.random.get_state()[1].tolist()
    keys = []
    for _ in range(3):
        keys.append(kit.key_bits(randgen.get_key()))
    require(len(set(keys)) == 3, "successive keys without a seed are equal: {}", keys)
    require(before == np.random.get_state()[1].tolist(), "getting a key changes the state of numpy's generator")
    rec.checked(3)
    rec.nontrivial(a != b)


SEEDS = st.fixed_dictionaries({"seeds": st.tuples(st.integers(0, 2**31 - 1), st.integers(0, 2**31 - 1)).map(list)})

PARTS = {
    "sampler": sampler,
    "plugins": plugins,
    "shipped_keys": shipped_keys,
    "rebuilt": rebuilt,
    "processes": processes,
    "likelihoods": likelihoods,
    "seeds": seeds,
}


def run(check, only=None):
    check.assumptions = [
        "the keys of draws are recorded in eager runs of the same Python code (jit disabled), for small batches",
        "processes on the same machine and device",
    ]

    def want(part):
        return only in (None, part)

    if want("processes"):
        rng = np.random.RandomState(check.seed + 1)
        order = [str(k) for k in rng.permutation(shipped.SIM + shipped.YIELDS)[: check.n(3, 8)]]
        process_case = {"hashseeds": [0, 1, int(rng.randint(2, 1000))], "order": order, "key": int(rng.randint(2**31))}
        STARTED[json.dumps(process_case)] = start(process_case)
    if want("sampler"):
        for name in sorted(filter(variants.available, p17.SAMPLERS)):
            strategy = SAMPLER.map(lambda c, name=name: dict(c, sampler=name))
            check.search("sampler", strategy, sampler, check.n(2, 60), salt=name)
    if want("plugins"):
        check.search("plugins", drawing_graph(), plugins, check.n(14, 400))
    if want("likelihoods"):
        check.search("likelihoods", LIKELIHOODS, likelihoods, check.n(6, 150))
    if want("shipped_keys"):
        rng = np.random.RandomState(check.seed)
        kinds = [str(k) for k in rng.permutation(shipped.SIM + shipped.YIELDS)]
        cases = [
            {"kind": k, "times": check.n(1, 3), "key": int(rng.randint(2**31)), "seed": int(rng.randint(2**31))}
            for k in kinds
            for _ in range(check.n(1, 8))
        ]
        check.sweep("shipped_keys", cases, shipped_keys)
    if want("rebuilt"):
        check.search("rebuilt", SHIPPED, rebuilt, check.n(1, 40))
    if want("processes"):
        check.sweep("processes", [process_case], processes)
    if want("seeds"):
        check.search("seeds", SEEDS, seeds, check.n(20, 200))
