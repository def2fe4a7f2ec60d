"""Random acyclic plugin graphs, and the reference evaluation of them.

Every data name has a rank; a plugin only depends on names whose rank is below all ranks that it provides,
so that any set of such plugins is acyclic whatever overrides what.
"""

import numpy as np
from hypothesis import strategies as st

MOD = 9973


@st.composite
def graph(draw, max_names=9, overrides=True, missing=False, params=True, eff=True, custom_nodep=True):
    """Spec: {"nodep", "plugins": [...in registration order], "ranks"}"""
    n_groups = draw(st.sampled_from([4, 3, 5, 2, 6, 7, 1]))
    nodep = draw(st.sampled_from(["batch_size", "batch_size", "batch_size", "pairs"])) if custom_nodep else "batch_size"
    names, ranks = [], {}
    groups = []
    for rank in range(n_groups):
        width = draw(st.sampled_from([1, 1, 1, 2, 3]))
        if len(names) + width > max_names:
            width = 1
        # names are chosen such that their alphabetic order tells nothing about their rank
        group = [f"{draw(st.sampled_from('abz'))}{len(names) + i}" for i in range(width)]
        names += group
        groups.append(group)
        for g in group:
            ranks[g] = rank
    if eff:
        where = draw(st.integers(0, n_groups - 1))
        extra = draw(st.booleans())
        if extra:
            groups[where].insert(draw(st.integers(0, len(groups[where]))), "eff")
            ranks["eff"] = where
        else:
            groups.append(["eff"])
            ranks["eff"] = n_groups
        names.append("eff")

    def inputs(rank):
        # mostly depend on names of high rank, such that long chains are common
        pool = [n for n in names if ranks[n] < rank][::-1] + [nodep]
        picked = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=min(4, len(pool)), unique=True))
        return picked

    plugins = []
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))

    def add(provides):
        rank = min(ranks[p] for p in provides)
        k = len(plugins)
        deps = inputs(rank)
        spec = {
            "id": k,
            "provides": list(provides),
            "depends_on": deps,
            "coef": [[int(c) for c in rng.randint(1, MOD, len(deps) + 2)] for _ in provides],
            "parameters": draw(st.lists(st.sampled_from(["pa", "pb", "pc", "pd"]), unique=True, max_size=2))
            if params
            else [],
            "draws": draw(st.booleans()),
        }
        plugins.append(spec)

    for group in groups:
        add(group)
    if overrides:
        for _ in range(draw(st.sampled_from([1, 0, 2, 3]))):
            add(draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True)))
    plugins = draw(st.permutations(plugins))
    if missing:
        plugins = list(plugins)
        plugins.pop(draw(st.integers(0, len(plugins) - 1)))
    return {"nodep": nodep, "plugins": list(plugins), "names": names}


def providers(spec):
    """Data name -> the plugin registered last."""
    result = {}
    for p in spec["plugins"]:
        for name in p["provides"]:
            result[name] = p
    return result


def needed(spec, outputs):
    """Ids of the plugins needed for the outputs, or None if a name has no provider."""
    table = providers(spec)
    seen, todo = set(), list(outputs)
    names = set()
    while todo:
        name = todo.pop()
        if name == spec["nodep"] or name in names:
            continue
        names.add(name)
        if name not in table:
            return None, None
        p = table[name]
        seen.add(p["id"])
        todo.extend(p["depends_on"])
    return seen, names


def evaluate(spec, outputs, base, parameters):
    """Evaluate the graph name by name with integer arithmetic; ``base`` is the value of the nodep name."""
    table = providers(spec)
    cache = {}

    def value(name):
        if name == spec["nodep"]:
            return base
        if name not in cache:
            p = table[name]
            coef = p["coef"][p["provides"].index(name)]
            total = np.full(len(base), coef[0], dtype=np.int64)
            for c, dep in zip(coef[1:-1], p["depends_on"]):
                total = total + c * value(dep)
            extra = sum((i + 1) * int(parameters[q]) for i, q in enumerate(p["parameters"])) % 97
            total = total + coef[-1] * extra
            cache[name] = total % MOD
        return cache[name]

    return [value(n) for n in outputs]


def build(spec, prefix, trace=None, configs=None, observe=None):
    """Plugin classes of the spec, registered with appletree, in registration order."""
    import jax.numpy as jnp
    from appletree import randgen

    from aptv import kit

    classes = []
    for p in spec["plugins"]:

        def body(self, key, parameters, *inputs, p=p):
            if trace is not None:
                trace.append(p["id"])
            if observe is not None:
                observe(p, inputs)
            values = []
            for dep, v in zip(p["depends_on"], inputs):
                if dep == "batch_size":
                    v = jnp.arange(v)
                values.append(jnp.asarray(v).astype(jnp.int32))
            extra = 0
            for i, q in enumerate(p["parameters"]):
                extra = extra + (i + 1) * jnp.asarray(parameters[q]).astype(jnp.int32)
            extra = extra % 97 if p["parameters"] else 0
            outputs = []
            for coef in p["coef"]:
                total = jnp.full(values[0].shape, coef[0], dtype=jnp.int32)
                for c, v in zip(coef[1:-1], values):
                    total = (total + c * v) % MOD
                total = (total + coef[-1] * extra) % MOD
                outputs.append(total)
            if p["draws"]:
                key, _ = randgen.uniform(key, 0.0, 1.0, shape=(2,))
            return tuple([key] + outputs)

        classes.append(
            kit.make_plugin(
                f"{prefix}P{p['id']}",
                p["depends_on"],
                p["provides"],
                body,
                parameters=p["parameters"],
                configs=(configs or {}).get(p["id"], ()),
            )
        )
    return classes
