"""P27: profiling covers every plugin once and disturbs nothing."""

import contextlib
import io
import re
import time

import numpy as np
from hypothesis import strategies as st

from aptv import graphs, kit, shipped
from aptv.harness import require

RULE = (
    "graph: at least three plugins are needed and one is not, or is overridden; context: at least two simulated components, "
    "with an alias, an option per likelihood, or another context built in between"
)

PARAMS = {"pa": 3, "pb": 5, "pc": 11, "pd": 42}


def check_result(result, name, provides, depends_on):
    require(set(result) >= {"plugin", "provides", "depends_on", "mean_time_ms", "std_time_ms"}, "result has only {}", sorted(result))
    require(result["plugin"] == name, "reports {} where {} is run", result["plugin"], name)
    require(list(result["provides"]) == list(provides), "{} provides {} instead of {}", name, result["provides"], provides)
    require(list(result["depends_on"]) == list(depends_on), "{} depends on {} instead of {}", name, result["depends_on"], depends_on)
    for k in ["mean_time_ms", "std_time_ms"]:
        require(np.isfinite(result[k]) and result[k] >= 0, "{} of {} is {}", k, name, result[k])


def same(a, b):
    a, b = [np.asarray(v) for v in a], [np.asarray(v) for v in b]
    return len(a) == len(b) and all(x.dtype == y.dtype and x.tobytes() == y.tobytes() for x, y in zip(a, b))


# ---------------------------------------------------------------------- one component
@st.composite
def graph_cases(draw):
    spec = draw(graphs.graph(custom_nodep=False))
    names = [n for n in spec["names"] if n != "eff"]
    return {
        "spec": spec,
        "data_names": draw(st.lists(st.sampled_from(names), min_size=1, max_size=min(4, len(names)), unique=True)),
        "no_eff": draw(st.sampled_from([False, False, False, True])),
        "compile": draw(st.sampled_from([True, True, True, False])),
        "batch": draw(st.sampled_from([1, 2, 5])),
        "warmup": draw(st.sampled_from([1, 0, 2])),
        "runs": draw(st.sampled_from([1, 2, 3])),
        "verbose": draw(st.booleans()),
        "key": draw(st.integers(0, 2**31 - 1)),
    }


def graph_case(case, rec):
    import appletree as apt
    import jax

    kit.reset()
    spec = case["spec"]
    calls = []

    def observe(p, inputs):
        if not any(isinstance(v, jax.core.Tracer) for v in inputs):
            calls.append((p["id"], [np.asarray(v) for v in inputs]))

    prefix = kit.unique("G")
    classes = graphs.build(spec, prefix, observe=observe)
    component = kit.make_component(kit.unique("C"), classes, register=False)(llh_name=kit.unique("llh"))
    require(kit.refused(apt.profile_component, component, dict(PARAMS), batch_size=2), "profiles a component that was not deduced")
    silent = io.StringIO()
    with contextlib.redirect_stdout(silent):
        apt.print_worksheet(component)
        apt.print_component_code(component)
    kit.reset()
    component.deduce(data_names=list(case["data_names"]), force_no_eff=case["no_eff"])
    key = kit.key_of(case["key"])
    before = None
    if case["compile"]:
        component.compile()
        before = component.simulate(key, case["batch"], PARAMS)
    needed_parameters = set(component.needed_parameters)
    parameters = dict(PARAMS)
    wanted = [n for n in case["data_names"] if n != "eff"] + ([] if case["no_eff"] else ["eff"])
    used, _ = graphs.needed(spec, wanted)
    by_id = {p["id"]: p for p in spec["plugins"]}
    del calls[:]
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        results = apt.profile_component(
            component,
            parameters,
            batch_size=case["batch"],
            n_warmup=case["warmup"],
            n_runs=case["runs"],
            verbose=case["verbose"],
        )
    require(parameters == PARAMS, "profiling changes the given parameters")
    # every plugin is run that often, before the next one
    n = case["warmup"] + case["runs"]
    order = [c[0] for c in calls[::n]]
    require([c[0] for c in calls] == [i for i in order for _ in range(n)], "plugins are run as {} for {} runs each", [c[0] for c in calls], n)
    require(len(set(order)) == len(order) and set(order) == used, "profiles plugins {} instead of {}", order, sorted(used))
    require(len(results) == len(order), "{} results for {} plugins", len(results), len(order))
    table = graphs.providers(spec)
    base = np.arange(case["batch"])
    done = {spec["nodep"]}
    for result, i in zip(results, order):
        p = by_id[i]
        check_result(result, f"{prefix}P{i}", p["provides"], p["depends_on"])
        require(done >= set(p["depends_on"]), "plugin {} is run before its inputs {}", i, p["depends_on"])
        done |= {name for name in p["provides"] if table[name] is p}
    for i, inputs in calls:
        for dep, got in zip(by_id[i]["depends_on"], inputs):
            want = case["batch"] if dep == "batch_size" else graphs.evaluate(spec, [dep], base, PARAMS)[0]
            require(np.array_equal(got, want), "plugin {} is timed with {} = {} instead of {}", i, dep, got, want)
            rec.checked()
    text = printed.getvalue()
    if case["verbose"]:
        check_printed(text, results)
    else:
        require(not text.strip(), "prints {} although not verbose", text)
    rec.checked(3 + len(results))
    require(set(component.needed_parameters) == needed_parameters, "profiling changes the needed parameters")
    if before is not None:
        after = component.simulate(key, case["batch"], PARAMS)
        component.compile()
        again = component.simulate(key, case["batch"], PARAMS)
        for x in (after, again):
            require(kit.key_bits(x[0]) == kit.key_bits(before[0]) and same(x[1], before[1]), "profiling changes what is simulated")
    # the tables
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        apt.print_worksheet(component)
    rows = [line for line in printed.getvalue().splitlines() if re.match(r"\d+ ", line)]
    require(len(rows) == len(order), "{} rows for {} plugins", len(rows), len(order))
    for k, (row, i) in enumerate(zip(rows, order), 1):
        p = by_id[i]
        # columns may touch if an entry is long
        squeezed = "".join(row.split())
        want = f"{k}{prefix}P{i}" + ",".join(p["provides"]) + ",".join(p["depends_on"])
        require(squeezed == want, "worksheet row {} instead of {}", squeezed, want)
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        apt.print_component_code(component)
    require(component.code in printed.getvalue(), "the code is not printed")
    rec.checked(len(rows) + 1)
    rec.nontrivial(len(used) >= 3 and (len(used) < len(spec["plugins"])))
    rec.label("overrides" if len(table) < sum(len(p["provides"]) for p in spec["plugins"]) else "plain")


def check_printed(text, results):
    """One line per plugin in order, and the total."""
    rows = re.findall(r"^(\S+)\s+([\d.]+)\s+([\d.]+)\s+(.*)$", text, re.M)
    rows = [r for r in rows if r[0] in {x["plugin"] for x in results}]
    require([r[0] for r in rows] == [x["plugin"] for x in results], "prints {} for {}", [r[0] for r in rows], [x["plugin"] for x in results])
    for r, x in zip(rows, results):
        require(
            abs(float(r[1]) - x["mean_time_ms"]) < 2e-3 and abs(float(r[2]) - x["std_time_ms"]) < 2e-3,
            "prints {} for {}", r, x,
        )
        require([v.strip() for v in r[3].split(",")] == list(x["provides"]), "prints {} for {}", r[3], x["provides"])
    total = re.findall(r"^TOTAL\s+([\d.]+) ms", text, re.M)
    expected = sum(x["mean_time_ms"] for x in results)
    require(len(total) == 1 and abs(float(total[0]) - expected) < 2e-3, "total {} instead of {}", total, expected)


# ---------------------------------------------------------------------- contexts
@st.composite
def context_cases(draw):
    rng = np.random.default_rng(draw(st.integers(0, 2**32 - 1)))
    llhs = []
    for i in range(int(rng.integers(1, 4))):
        comps = [str(rng.choice(["sim", "sim", "const", "fixed"])) for _ in range(int(rng.integers(1, 4)))]
        llhs.append({"components": comps, "alias": bool(rng.random() < 0.5), "shift": float(rng.integers(1, 90)) / 8})
    return {
        "llhs": llhs,
        "per_llh": bool(rng.random() < 0.6),
        "other": str(rng.choice(["no", "global", "context", "llhs only there"])),
        "given": bool(rng.random() < 0.6),
        "recompile": bool(rng.random() < 0.3),
        "verbose": bool(rng.random() < 0.6),
        "batch": int(rng.choice([1, 3, 6])),
        "warmup": int(rng.choice([0, 1, 2])),
        "runs": int(rng.choice([1, 2])),
        "values": [float(v) / 4 for v in rng.integers(1, 30, 8)],
        "key": int(rng.integers(2**31)),
    }


def context_case(case, rec):
    import appletree as apt
    import jax
    import jax.numpy as jnp
    from appletree import randgen

    kit.reset()
    tag = kit.unique("Prof")
    seen = []

    def tracing(*values):
        return any(isinstance(v, jax.core.Tracer) for v in values)

    def source(self, key, parameters, batch_size):
        key, u = randgen.uniform(key, 0.0, 1.0, shape=(batch_size,))
        return key, u

    def shifted(self, key, parameters, u):
        if not tracing(u):
            seen.append(("shifted", self.shift.value, parameters["q"], np.asarray(u)))
        return key, u + self.shift.value + parameters["q"], 0.5 + u / 2

    def const(self, key, parameters, u):
        # neither of the outputs is an array of jax
        if not tracing(u):
            seen.append(("const", self.shift.value, None, np.asarray(u)))
            return key, np.asarray(u) + self.shift.value, np.full(u.shape, 0.5)
        return key, u + self.shift.value, jnp.full(u.shape, 0.5)

    def option():
        return apt.Constant(name="shift", type=float, default=0.25)

    plugins = [
        kit.make_plugin(tag + "Source", ["batch_size"], ["u"], source),
        kit.make_plugin(tag + "Shifted", ["u"], ["cs1", "eff"], shifted, parameters=["q"], configs=[option()]),
        kit.make_plugin(tag + "Const", ["u"], ["cs1", "eff"], const, configs=[option()]),
    ]
    kit.make_component(tag + "Sim", [plugins[0], plugins[1]])
    kit.make_component(tag + "Const", [plugins[0], plugins[2]])
    kit.make_fixed(tag + "Fixed")
    data = kit.write_csv(f"{tag}.csv", {"cs1": [0.1, 0.4, 0.6, 0.9, 1.2]})

    def likelihood(i, llh):
        comps = {}
        for j, kind in enumerate(llh["components"]):
            cls = tag + kind.capitalize()
            comps[f"c{j}"] = {"component_cls": cls, "file_name": data} if kind == "fixed" else cls
        spec = {
            "components": comps,
            "copy_parameters": {},
            "data_file_name": data,
            "bins_type": "irreg",
            "bins_on": "cs1",
            "bins": [[0.0, 0.5, 1.0, 300.0]],
            "clip": [0, 2],
        }
        if llh["alias"]:
            spec["parameter_alias"] = {f"own_q{i}": "q"}
        return spec

    names = [f"{tag}l{i}" for i in range(len(case["llhs"]))]
    shifts = {n: llh["shift"] if case["per_llh"] else case["llhs"][0]["shift"] for n, llh in zip(names, case["llhs"])}
    instruct = {
        "configs": {"shift": dict(shifts) if case["per_llh"] else case["llhs"][0]["shift"]},
        "likelihoods": {n: likelihood(i, llh) for i, (n, llh) in enumerate(zip(names, case["llhs"]))},
    }
    config = {}
    for k, v in zip(["q", "own_q0", "own_q1", "own_q2", "c0_rate", "c1_rate", "c2_rate"], case["values"]):
        config[k] = {
            "prior_type": "free",
            "prior_args": {},
            "allowed_range": [-99, 99],
            "init_mean": v,
            "init_std": 0.01,
            "unit": "1",
            "doc": "",
        }
    context = apt.Context(instruct, par_config=config)
    if case["other"] == "global":
        apt.set_global_config({"shift": 111.5})
    elif case["other"] != "no":
        # another one whose likelihoods have other names or other values
        others = names if case["other"] == "context" else [n + "other" for n in names]
        kit.forget_functions()
        other = {
            "configs": {"shift": {n: 77.0 + i for i, n in enumerate(others)}},
            "likelihoods": {n: likelihood(i, llh) for i, (n, llh) in enumerate(zip(others, case["llhs"]))},
        }
        apt.Context(other, par_config=config)

    sims = {
        f"{n}/c{j}": (i, kind)
        for i, (n, llh) in enumerate(zip(names, case["llhs"]))
        for j, kind in enumerate(llh["components"])
        if kind != "fixed"
    }
    parameters = None
    if case["given"]:
        parameters = {k: v["init_mean"] + 1.0 for k, v in config.items()}
        context.par_manager.sample_init()
    key = kit.key_of(case["key"])
    fixed_parameters = {k: v["init_mean"] for k, v in config.items()}

    def state():
        result = []
        for n in names:
            likelihood = context[n]
            p = likelihood.replace_alias(dict(fixed_parameters))
            for component in likelihood.components.values():
                if isinstance(component, apt.component.ComponentSim):
                    k, outputs = component.simulate(key, case["batch"], p)
                    result += [np.asarray(kit.key_bits(k))] + list(outputs)
            result.append(sorted(likelihood.needed_parameters))
        return result + [sorted(context.needed_parameters)]

    before = state()
    lineage = context.lineage_hash
    values = dict(context.par_manager.get_all_parameter()) if case["given"] else None
    arguments = dict(batch_size=case["batch"], n_warmup=case["warmup"], n_runs=case["runs"], parameters=parameters)
    del seen[:]
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        results = apt.profile_context(context, verbose=case["verbose"], **arguments)
    require(list(results) == list(sims), "profiles {} instead of {}", list(results), list(sims))
    given = {k: v["init_mean"] + 1.0 for k, v in config.items()}
    used = given if case["given"] else context.par_manager.get_all_parameter()
    n = case["warmup"] + case["runs"]
    require(len(seen) == n * len(sims), "{} runs instead of {}", len(seen), n * len(sims))
    for k, (name, (i, kind)) in enumerate(sims.items()):
        plugin = "Shifted" if kind == "sim" else "Const"
        require(len(results[name]) == 2, "{} plugins of {}", len(results[name]), name)
        check_result(results[name][0], tag + "Source", ["u"], ["batch_size"])
        check_result(results[name][1], tag + plugin, ["cs1", "eff"], ["u"])
        for what, shift, q, u in seen[k * n : (k + 1) * n]:
            llh = case["llhs"][i]
            require(what == plugin.lower(), "runs the plugin {} for {}", what, name)
            require(shift == shifts[names[i]], "{} is profiled with option {} instead of {}", name, shift, shifts[names[i]])
            if q is not None:
                want = used[f"own_q{i}" if llh["alias"] else "q"]
                require(q == want, "{} is profiled with parameter {} instead of {}", name, q, want)
            require(u.shape == (case["batch"],) and np.all((u >= 0) & (u < 1)), "{} is profiled with input {}", name, u)
        rec.checked(2 + 2 * n)
    text = printed.getvalue()
    if case["verbose"]:
        check_summary(text, results)
        n_fixed = sum(c == "fixed" for llh in case["llhs"] for c in llh["components"])
        require(len(re.findall("^Skipping", text, re.M)) == n_fixed, "fixed components are not reported as skipped")
    else:
        require(not text.strip(), "prints {} although not verbose", text)
    require(context.lineage_hash == lineage, "profiling changes the lineage")
    require(same_state(state(), before), "profiling changes what is simulated or needed")

    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        full = apt.profile_full_simulation(context, verbose=case["verbose"], **arguments)
    require(list(full) == list(sims), "profiles {} instead of {}", list(full), list(sims))
    for name, r in full.items():
        for k in ["mean_time_ms", "std_time_ms"]:
            require(np.isfinite(r[k]) and r[k] >= 0, "{} of {} is {}", k, name, r[k])
        if case["verbose"]:
            row = re.findall(rf"^{name}: ([\d.]+) \+/- ([\d.]+) ms", printed.getvalue(), re.M)
            require(
                len(row) == 1 and abs(float(row[0][0]) - r["mean_time_ms"]) < 2e-3 and abs(float(row[0][1]) - r["std_time_ms"]) < 2e-3,
                "prints {} for {}", row, r,
            )
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        apt.compare_plugin_vs_full(context, **arguments)
    rows = re.findall(r"^(\S+/c\d)\s+([\d.]+)\s+([\d.]+)\s+([-+][\d.]+)%$", printed.getvalue(), re.M)
    require([r[0] for r in rows] == list(sims), "compares {} instead of {}", [r[0] for r in rows], list(sims))
    for _, a, b, overhead in rows:
        a, b = float(a), float(b)
        if b > 0:
            tol = 0.06 + 100 * (6e-4 / b + a / b * 6e-4 / b)
            require(abs(float(overhead) - (a / b - 1) * 100) <= tol, "overhead {} of {} over {}", overhead, a, b)
    require(same_state(state(), before), "profiling changes what is simulated or needed")
    if case["given"]:
        require(parameters == given, "profiling changes the given parameters")
        require(dict(context.par_manager.get_all_parameter()) == values, "profiling with given parameters changes those of the context")
    rec.checked(5)
    rec.nontrivial(len(sims) >= 2 and (case["per_llh"] or case["other"] != "no" or any(llh["alias"] for llh in case["llhs"])))
    rec.label("other: " + case["other"], "given" if case["given"] else "sampled")


def same_state(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


def check_summary(text, results):
    """Every component's report, and the sums over them."""
    parts = re.split(r"^Profiling component: ", text, flags=re.M)[1:]
    require(len(parts) == len(results), "{} reports for {} components", len(parts), len(results))
    for part, (name, r) in zip(parts, results.items()):
        llh, comp = name.split("/")
        require(part.splitlines()[0] == comp and f"Likelihood: {llh}\n" in part, "report of {} is titled {}", name, part.splitlines()[:2])
        check_printed(part, r)
    summary = text[text.rindex("SUMMARY") :]
    rows = re.findall(r"^(\S+): ([\d.]+) ms \((\d+) plugins\)", summary, re.M)
    require([r[0] for r in rows] == list(results), "summary of {} instead of {}", [r[0] for r in rows], list(results))
    sums = [sum(x["mean_time_ms"] for x in r) for r in results.values()]
    for row, total, r in zip(rows, sums, results.values()):
        require(abs(float(row[1]) - total) < 2e-3 and int(row[2]) == len(r), "summary {} instead of {} of {}", row, total, len(r))
    grand = re.findall(r"^Grand total: ([\d.]+) ms", summary, re.M)
    require(len(grand) == 1 and abs(float(grand[0]) - sum(sums)) < 2e-3, "grand total {} instead of {}", grand, sum(sums))
    slowest = re.findall(r"^(\d+)\. (\S+): ([\d.]+) ms \((\S+)\)", summary, re.M)
    times = sorted((x["mean_time_ms"] for r in results.values() for x in r), reverse=True)[:5]
    require(len(slowest) == len(times), "{} slowest plugins of {}", len(slowest), len(times))
    for (rank, plugin, t, name), want in zip(slowest, times):
        require(abs(float(t) - want) < 2e-3, "number {} of the slowest plugins takes {} instead of {}", rank, t, want)
        require(any(x["plugin"] == plugin and abs(x["mean_time_ms"] - want) < 2e-3 for x in results.get(name, [])), "{} of {} is not that slow", plugin, name)


# ---------------------------------------------------------------------- times
def timing(case, rec):
    """What takes known time is reported with that time: slow plugins sleep, in the warm-up runs or in the timed ones."""
    import appletree as apt
    import jax

    kit.reset()
    tag = kit.unique("Slow")
    count = [0]
    # in ms, one per run
    warm, timed = case["warm"], case["timed"]
    schedule = warm + timed

    def fast(self, key, parameters, batch_size):
        return key, jax.numpy.ones(batch_size)

    def slow(self, key, parameters, u):
        def wait(v):
            if not count[1:]:
                time.sleep(schedule[count[0] % len(schedule)] / 1000)
                count[0] += 1
            return np.asarray(v)

        u = jax.pure_callback(wait, jax.ShapeDtypeStruct(u.shape, u.dtype), u)
        return key, u, u

    plugins = [
        kit.make_plugin(tag + "Fast", ["batch_size"], ["u"], fast),
        kit.make_plugin(tag + "Slow", ["u"], ["cs1", "eff"], slow),
    ]
    kit.make_component(tag + "Comp", plugins)
    data = kit.write_csv(f"{tag}.csv", {"cs1": [0.1, 0.4, 0.6]})
    instruct = {
        "likelihoods": {
            tag: {
                "components": {"c": tag + "Comp"},
                "copy_parameters": {},
                "data_file_name": data,
                "bins_type": "irreg",
                "bins_on": "cs1",
                "bins": [[0.0, 0.5, 2.0]],
                "clip": [0, 2],
            }
        }
    }
    parameters = {"c_rate": 1.0}
    context = apt.Context(
        instruct,
        par_config={
            "c_rate": {"prior_type": "free", "prior_args": {}, "allowed_range": [0, 9], "init_mean": 1.0, "init_std": 0.1, "unit": "", "doc": ""}
        },
    )
    # compile everything first
    count.append(1)
    context[tag].components["c"].simulate(kit.key_of(1), 3, parameters)
    jax.effects_barrier()
    del count[1:]
    mean, std = float(np.mean(timed)), float(np.std(timed))
    for attempt in range(4):
        count[0] = 0
        arguments = dict(batch_size=3, n_warmup=len(warm), n_runs=len(timed), parameters=parameters, verbose=False)
        results = apt.profile_context(context, **arguments)[f"{tag}/c"]
        plugins_mean, plugins_std = results[1]["mean_time_ms"], results[1]["std_time_ms"]
        require(count[0] == len(schedule), "the plugin is run {} times instead of {}", count[0], len(schedule))
        count[0] = 0
        full = apt.profile_full_simulation(context, **arguments)[f"{tag}/c"]
        require(count[0] == len(schedule), "the simulation is run {} times instead of {}", count[0], len(schedule))
        for got in (plugins_mean, full["mean_time_ms"]):
            # sleeping never takes less
            require(got >= 0.98 * mean, "takes {} ms instead of at least {} ms", got, mean)
        good = all(
            abs(s - std) < 0.3 * std + 30 and m < mean + 60
            for m, s in [(plugins_mean, plugins_std), (full["mean_time_ms"], full["std_time_ms"])]
        ) and results[0]["mean_time_ms"] < 60
        if good:
            break
    else:
        # four times in a row: not the load of the machine
        require(False, "{} and {} instead of {} +- {} ms, and {} ms for a fast one", results[1], full, mean, std, results[0])
    rec.checked(6)
    rec.nontrivial()


# ---------------------------------------------------------------------- the shipped simulations
def shipped_case(case, rec):
    import appletree as apt

    kit.reset()
    kind = case["kind"]
    component = shipped.build(kind, data_names=case["data_names"])
    rng = np.random.RandomState(case["seed"])
    parameters = shipped.parameters(kind, component, rng)
    given = dict(parameters)
    needed = set(component.needed_parameters)
    results = apt.profile_component(component, parameters, batch_size=shipped.batch(kind, 11), n_warmup=0, n_runs=1, verbose=False)
    require(parameters == given, "profiling changes the given parameters")
    registry = component._plugin_class_registry
    todo = list(case["data_names"]) + ["eff"]
    classes = set()
    while todo:
        name = todo.pop()
        if name != "batch_size" and registry[name] not in classes:
            classes.add(registry[name])
            todo += list(registry[name].depends_on)
    require(sorted(r["plugin"] for r in results) == sorted(c.__name__ for c in classes), "profiles {}", [r["plugin"] for r in results])
    done = {"batch_size"}
    by_name = {c.__name__: c for c in classes}
    for r in results:
        c = by_name[r["plugin"]]
        check_result(r, r["plugin"], c.provides, c.depends_on)
        require(done >= set(c.depends_on), "{} is run before its inputs {}", r["plugin"], c.depends_on)
        done |= {n for n in c.provides if registry[n] is c}
        rec.checked()
    require(set(component.needed_parameters) == needed, "profiling changes the needed parameters")
    rec.nontrivial()
    rec.label(kind)


PARTS = {"graph": graph_case, "context": context_case, "timing": timing, "shipped": shipped_case}


def timings(n, seed):
    rng = np.random.default_rng(seed)
    cases = []
    for _ in range(n):
        warm = [float(rng.choice([0, 250])) for _ in range(int(rng.integers(0, 3)))]
        timed = [float(rng.choice([0, 20, 40, 160])) for _ in range(int(rng.integers(1, 4)))]
        cases.append({"warm": warm, "timed": timed})
    return [{"warm": [250.0], "timed": [0.0, 160.0]}] + cases


def run(check, only=None):
    check.assumptions += [
        "a workflow starts from batch_size, as in every likelihood",
        "time spent is only compared with sleeping plugins: at least that long, and at most tens of milliseconds more in one of four attempts",
    ]
    if only in (None, "graph"):
        check.search("graph", graph_cases(), graph_case, check.n(40, 1200))
    if only in (None, "context"):
        check.search("context", context_cases(), context_case, check.n(25, 800))
    if only in (None, "timing"):
        check.sweep("timing", timings(check.n(2, 40), check.seed), timing)
    if only in (None, "shipped"):
        rng = np.random.default_rng(check.seed)
        kinds = list(rng.permutation(shipped.SIM))[: check.n(2, 99)] + list(shipped.YIELDS)
        cases = []
        for kind in kinds:
            names = ["energy", "light_yield"] if kind in shipped.YIELDS else ["cs1", "cs2"]
            cases.append({"kind": str(kind), "data_names": names, "seed": int(rng.integers(2**31))})
        check.sweep("shipped", cases, shipped_case)
