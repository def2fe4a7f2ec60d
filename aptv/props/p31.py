"""P31: malformed plugins, components and instructions are refused when registered."""

import types

import numpy as np
from hypothesis import strategies as st

from aptv import kit
from aptv.harness import require

RULE = "something malformed, or a history with a name used twice"

DEFECTS = [
    "none",
    "none",
    "no inputs",
    "no outputs",
    "no key",
    "key renamed",
    "parameters renamed",
    "key and parameters swapped",
    "inputs swapped",
    "input renamed",
    "input missing",
    "input inserted",
    "parameters last",
    "parameters elsewhere",
    "key elsewhere",
    "default at the end",
]


@st.composite
def plugin_cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    return {
        "defect": str(rng.choice(DEFECTS)),
        "inputs": [f"in{i}" for i in rng.permutation(9)[: rng.randint(1, 5)]],
        "outputs": int(rng.randint(1, 4)),
        "provides": str(rng.choice(["list", "tuple", "str"])),
        "depends": str(rng.choice(["list", "tuple"])),
        "jit": bool(rng.rand() < 0.5),
        "at": int(rng.randint(9)),
        "inherited": bool(rng.rand() < 0.3),
        "register": str(rng.choice(["class", "module", "list", "tuple"])),
    }


def plugin_case(case, rec):
    import jax
    import appletree as apt
    from functools import partial

    kit.reset()
    inputs = list(case["inputs"])
    args = ["key", "parameters"] + inputs
    defect = case["defect"]
    at = case["at"]
    if defect == "inputs swapped" and len(inputs) < 2:
        inputs.append("another")
        args = ["key", "parameters"] + inputs
    if defect == "no inputs":
        inputs = []
    elif defect == "no key":
        args = args[1:]
    elif defect == "key renamed":
        args[0] = "seed"
    elif defect == "parameters renamed":
        args[1] = "pars"
    elif defect == "key and parameters swapped":
        args[:2] = args[1::-1]
    elif defect == "inputs swapped":
        i = 2 + at % (len(inputs) - 1)
        args[i], args[i + 1] = args[i + 1], args[i]
    elif defect == "input renamed":
        args[2 + at % len(inputs)] = "something"
    elif defect == "input missing":
        del args[2 + at % len(inputs)]
    elif defect == "input inserted":
        args.insert(2 + at % len(inputs), "something")
    elif defect == "parameters last":
        args = [args[0]] + args[2:] + ["parameters"]
    elif defect == "parameters elsewhere":
        args = [args[0], "pars"] + args[2:] + ["parameters"]
    elif defect == "key elsewhere":
        args = ["seed"] + args[1:] + ["key"]
    outputs = [f"out{i}" for i in range(case["outputs"])]
    if case["provides"] == "str":
        outputs = outputs[:1]
    space = {"n": len(outputs)}
    signature = ", ".join(["self"] + args + (["more=1.0"] if defect == "default at the end" else []))
    total = " + ".join(a for a in args if a.startswith(("in", "another", "something"))) or "0.0"
    first = args[0]
    exec(f"def simulate({signature}):\n    return ({first},) + tuple({total} + i for i in range(n))\n", space)
    simulate = space["simulate"]
    if case["jit"]:
        simulate = partial(jax.jit, static_argnums=(0,))(simulate)
    body = {
        "depends_on": tuple(inputs) if case["depends"] == "tuple" else inputs,
        "provides": [] if defect == "no outputs" else outputs[0] if case["provides"] == "str" else tuple(outputs) if case["provides"] == "tuple" else outputs,
        "simulate": simulate,
        "__module__": "aptv.generated",
    }
    if case["inherited"]:
        # the signature counts wherever it comes from
        base = type(kit.unique("Base"), (apt.Plugin,), {"simulate": body.pop("simulate"), "__module__": "aptv.generated"})
        cls = type(kit.unique("Shape"), (base,), body)
    else:
        cls = type(kit.unique("Shape"), (apt.Plugin,), body)
    good = defect in ("none", "default at the end")
    require(
        kit.refused(cls, llh_name="llh") != good,
        "a plugin with defect '{}' and inputs {} is {}",
        defect,
        inputs,
        "refused" if good else "accepted",
    )
    rec.nontrivial(not good)
    rec.label(defect)
    rec.checked()
    if not good:
        return
    # it becomes usable under its name
    apt.plugin._add_plugin_extension(apt.plugins, cls)
    require(getattr(apt.plugins, cls.__name__) is cls, "is not found under its name")
    sources = [
        kit.make_plugin(kit.unique("Source"), ["batch_size"], inputs, lambda self, key, parameters, batch_size: tuple([key] + [np.full(3, 2.0**i) for i in range(len(inputs))]))
    ]
    how = case["register"]
    component = kit.make_component(kit.unique("Shaped"), sources + [cls] if how == "class" else [], register=False)(llh_name=kit.unique("llh"))
    if how != "class":
        modules = [types.ModuleType("first"), types.ModuleType("second")]
        for i, c in enumerate(sources + [cls]):
            setattr(modules[i if how != "module" else 0], c.__name__, c)
        modules[0].number, modules[0].Plugin = 3, apt.Plugin
        component.register_all({"module": modules[0], "list": modules, "tuple": tuple(modules)}[how])
    component.deduce(data_names=outputs, force_no_eff=True)
    component.compile()
    _, result = component.simulate(kit.key_of(1), 3, {})
    for i, r in enumerate(result):
        require(kit.close(r, np.full(3, 2.0 ** len(inputs) - 1 + i)), "output {} is {}", i, np.asarray(r))
    rec.checked(len(result))


@st.composite
def config_cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    groups = [[f"o{int(i)}" for i in rng.permutation(6)[: rng.randint(1, 3)]] for _ in range(rng.randint(1, 4))]
    if rng.rand() < 0.2:
        g = groups[rng.randint(len(groups))]
        g.append(g[0])
    plugins = []
    for _ in range(rng.randint(2, 5)):
        options = {f"s{int(i)}": int(rng.choice([0, 0, 0, 1])) for i in rng.permutation(4)[: rng.randint(0, 4)]}
        # some replace an output of an earlier one
        plugins.append([int(rng.randint(1, 3)), options, int(rng.randint(len(plugins))) if plugins and rng.rand() < 0.3 else None])
    return {
        "groups": groups,
        "where": [str(rng.choice(["stacked", "subclass"])) for _ in groups],
        "plugins": plugins,
        "kind": str(rng.choice(["number", "string", "list"])),
        "tuple": bool(rng.rand() < 0.4),
    }


def config_case(case, rec):
    import appletree as apt

    kit.reset()

    # one plugin, possibly with an option declared twice
    def declare():
        cls = type(kit.unique("Conf"), (apt.Plugin,), {"__module__": "aptv.generated", "depends_on": ["batch_size"], "provides": ["x"]})
        for group, where in zip(case["groups"], case["where"]):
            if where == "subclass":
                cls = type(kit.unique("Conf"), (cls,), {"__module__": "aptv.generated"})
            cls = apt.takes_config(*[apt.Constant(name=n, type=float, default=1.0) for n in group])(cls)
        return cls

    names = [n for g in case["groups"] for n in g]
    twice = len(set(names)) < len(names)
    try:
        cls, failed = declare(), False
    except Exception:
        failed = True
    require(failed == twice, "options {} are {}", case["groups"], "refused" if failed else "accepted")
    if not failed:
        require(set(cls.takes_config) == set(names), "takes {} instead of {}", sorted(cls.takes_config), sorted(names))
    require(kit.refused(apt.takes_config("o"), apt.Plugin), "an option which is not a Config")
    require(kit.refused(apt.Constant, name="o", type=float, default={"a": 1.0}), "a dictionary as default")
    rec.checked(4)

    # several plugins of a component which share options
    values = {"number": [1.0, 2.0], "string": ["a.json", "b.json"], "list": [[["u"], [[1, 2]]], [["u"], [[1, 3]]]]}[case["kind"]]
    cls_of = {"number": apt.Constant, "string": apt.Map, "list": apt.ConstantSet}[case["kind"]]
    classes = []
    for i, (n, options, replaces) in enumerate(case["plugins"]):
        configs = []
        for name, choice in options.items():
            kwargs = {"name": name, "default": values[choice]}
            if case["kind"] == "number":
                kwargs["type"] = float
            configs.append(cls_of(**kwargs))
        provides = [f"y{i}_{j}" for j in range(n)] + ([] if replaces is None else [f"y{replaces}_0"])
        classes.append((kit.make_plugin(kit.unique("Share"), ["batch_size"], provides, None, configs=configs, register=False), provides))
    component = kit.make_component(kit.unique("Sharing"), [], register=False)(llh_name="llh")
    provider = {}
    every = sorted({name for _, provides in classes for name in provides})
    disagree = False
    for (cls, provides), (_, options, _) in zip(classes, case["plugins"]):
        # those that are not replaced completely by the new one
        others = {i for name, i in provider.items() if name not in provides}
        seen = {k: v for i in others for k, v in case["plugins"][i][1].items()}
        wrong = any(seen.get(k, v) != v for k, v in options.items())
        failed = kit.refused(component.register, (cls,) if case["tuple"] else cls)
        require(failed == wrong, "defaults {} after {} are {}", options, seen, "refused" if failed else "accepted")
        disagree = disagree or wrong
        if not failed:
            provider.update({name: [c for c, _ in classes].index(cls) for name in provides})
        # what was refused is not there, the others are
        for name in every:
            kit.reset()
            if name not in provider:
                require(kit.refused(component.deduce, [name], func_name=kit.unique("sim"), force_no_eff=True), "{} is provided by a plugin that was refused", name)
            else:
                component.deduce([name], func_name=kit.unique("sim"), force_no_eff=True)
                used = [work[0] for work in component.worksheet]
                require(used == [classes[provider[name]][0].__name__], "{} comes from {}", name, used)
        rec.checked(1 + len(every))
    rec.nontrivial(twice or disagree)
    rec.label("declared twice" if twice else "declared once", "disagreeing" if disagree else "agreeing")


@st.composite
def history_cases(draw):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    ops = []
    for _ in range(rng.randint(2, 7)):
        if rng.rand() < 0.5:
            ops.append(["class", draw_class(rng), bool(rng.rand() < 0.3)])
        else:
            classes = [draw_class(rng) for _ in range(rng.randint(0, 4))]
            # one name once within a module
            classes = list({c[0]: c for c in classes}.values())
            # modules of a package are known under the last part of their name
            package = str(rng.choice(["", "", "one.", "two.sub."]))
            ops.append(["module", [f"{package}mod{int(rng.randint(3))}", classes], bool(rng.rand() < 0.3)])
    return {"ops": ops, "what": str(rng.choice(["plugin", "component"]))}


def draw_class(rng):
    kind = str(rng.choice(["leaf", "leaf", "leaf", "leaf of base", "base", "other"]))
    prefix = "_" if kind == "base" and rng.rand() < 0.3 else ""
    return [f"{prefix}{'B' if kind == 'base' else 'N'}{int(rng.randint(5))}", kind]


def history(case, rec):
    import appletree as apt

    kit.reset()
    root = apt.Plugin if case["what"] == "plugin" else apt.component.ComponentSim
    add_class = apt.plugin._add_plugin_extension if case["what"] == "plugin" else apt.component._add_component_extension
    add_module = apt.add_plugin_extensions if case["what"] == "plugin" else apt.add_component_extensions
    target = types.ModuleType("target")
    model = {}
    modules = {}
    conflicts = False

    def make(name, kind):
        if kind == "base":
            # as the sources do it, the name is mangled by the compiler
            space = {"root": root}
            exec(f"class {name}(root):\n    __is_base = True\n", space)
            return space[name]
        parent = root
        if kind == "leaf of base":
            space = {"root": root}
            exec("class Parent(root):\n    __is_base = True\n", space)
            parent = space["Parent"]
        if kind == "other":
            parent = object
        return type(name, (parent,), {"__module__": "aptv.generated"})

    for op, what, force in case["ops"]:
        if op == "class":
            name, kind = what
            cls = make(name, kind)
            if kind == "base" and name in ("B0", "B1", "_B0", "_B1"):
                # the bases of the package themselves
                shipped = {"plugin": [apt.Plugin], "component": [apt.component.ComponentSim, apt.component.ComponentFixed, apt.component.Component]}
                shipped = shipped[case["what"]]
                cls = shipped[len(model) % len(shipped)]
                name = cls.__name__
            added = kind.startswith("leaf")
            refusal = added and name in model and not force
            failed = kit.refused(add_class, target, cls, **({"force": True} if force else {}))
            require(failed == refusal, "adding {} {} to {} is {}", kind, name, sorted(model), "refused" if failed else "accepted")
            if added and not refusal:
                model[name] = cls
            conflicts = conflicts or (added and refusal) or kind == "base"
            partial = {}
        else:
            name, classes = what
            module = types.ModuleType(name)
            name = name.split(".")[-1]
            made = {}
            for cname, kind in classes:
                made[cname] = (make(cname, kind), kind)
                setattr(module, cname, made[cname][0])
            setattr(module, "number", 3)
            setattr(module, "root", root)
            setattr(module, "function", make)
            leaves = {k: v[0] for k, v in made.items() if v[1].startswith("leaf")}
            refusal = not force and (name in modules or any(k in model for k in leaves))
            failed = kit.refused(add_module, target, module, **({"force": True} if force else {}))
            require(failed == refusal, "adding the module {} with {} to {} is {}", name, classes, sorted(model), "refused" if failed else "accepted")
            conflicts = conflicts or refusal
            if refusal:
                # what was there stays; what is new may be added or not
                for k, v in leaves.items():
                    if k not in model and getattr(target, k, None) is v:
                        model[k] = v
                if getattr(target, name, None) is module:
                    modules[name] = module
            else:
                model.update(leaves)
                modules[name] = module
        classes = {k: v for k, v in vars(target).items() if isinstance(v, type)}
        require(classes == model, "{} classes are {} instead of {}", case["what"], sorted(classes), sorted(model))
        for k, v in modules.items():
            require(getattr(target, k) is v, "the module {} was replaced", k)
        rec.checked(2 + len(modules))
    rec.nontrivial(conflicts)
    rec.label(case["what"], "conflict" if conflicts else "no conflict")


PARTS = {"plugin": plugin_case, "config": config_case, "history": history}


def run(check, only=None):
    if only in (None, "plugin"):
        check.search("plugin", plugin_cases(), plugin_case, check.n(150, 2000))
    if only in (None, "config"):
        check.search("config", config_cases(), config_case, check.n(200, 3000))
    if only in (None, "history"):
        check.search("history", history_cases(), history, check.n(300, 5000))
