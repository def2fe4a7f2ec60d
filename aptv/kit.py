"""Shared building blocks of the checks: dynamic plugins, files and small contexts (public API only)."""

import itertools
import json
import os

import numpy as np

_counter = itertools.count()


def unique(prefix):
    """A name that was not used before in this process."""
    return f"{prefix}{next(_counter)}"


def reset():
    """Start from empty caches, as a new process would."""
    from appletree.share import _cached_configs, _cached_functions

    _cached_configs.clear()
    _cached_functions.clear()


def add_plugin(cls):
    """Make a plugin class known under its name."""
    import appletree as apt

    add = getattr(apt.plugin, "_add_plugin_extension", None)
    if add is None:
        setattr(apt.plugins, cls.__name__, cls)
    else:
        add(apt.plugins, cls, force=True)


def add_component(cls):
    """Make a component class known under its name."""
    import appletree as apt

    add = getattr(apt.component, "_add_component_extension", None)
    if add is None:
        setattr(apt.components, cls.__name__, cls)
    else:
        add(apt.components, cls, force=True)


def forget_functions():
    """The names of the likelihoods may be used again."""
    import appletree as apt

    getattr(apt.share, "_cached_functions", {}).clear()


def make_plugin(name, depends_on, provides, body, parameters=(), configs=(), register=True, args=None):
    """A plugin class whose ``simulate`` has the right signature and calls
    ``body(self, key, parameters, *inputs)``."""
    import appletree as apt

    args = depends_on if args is None else args
    namespace = {"_body": body}
    sig = ", ".join(["self", "key", "parameters"] + list(args))
    exec(
        f"def simulate({sig}):\n    return _body({sig})\n",
        namespace,
    )
    cls = type(
        name,
        (apt.Plugin,),
        {
            "depends_on": list(depends_on),
            "provides": list(provides),
            "parameters": tuple(parameters),
            "simulate": namespace["simulate"],
            "__module__": "aptv.generated",
        },
    )
    if configs:
        cls = apt.takes_config(*configs)(cls)
    if register:
        add_plugin(cls)
    return cls


def make_component(name, plugins, norm_type="on_pdf", add_eps_to_hist=False, force_no_eff=False, register=True):
    """A simulated component class which registers ``plugins`` in this order."""
    import appletree as apt

    def __init__(self, *args, **kwargs):
        super(cls, self).__init__(*args, **kwargs)
        for p in plugins:
            self.register(p)

    cls = type(
        name,
        (apt.component.ComponentSim,),
        {
            "norm_type": norm_type,
            "add_eps_to_hist": add_eps_to_hist,
            "force_no_eff": force_no_eff,
            "__init__": __init__,
            "__module__": "aptv.generated",
        },
    )
    if register:
        add_component(cls)
    return cls


def table_component(name, columns, eff, outputs, **kwargs):
    """A simulated component which returns fixed columns (one value per event, whatever the key)."""
    import jax.numpy as jnp

    data = {k: np.asarray(v, dtype=np.float32) for k, v in columns.items()}
    eff = np.asarray(eff, dtype=np.float32)

    def body(self, key, parameters, batch_size):
        return tuple([key] + [jnp.asarray(data[k]) for k in outputs] + [jnp.asarray(eff)])

    plugin = make_plugin(unique(name + "Plugin"), ["batch_size"], list(outputs) + ["eff"], body)
    return make_component(name, [plugin], **kwargs)


def make_fixed(name, norm_type="on_pdf", add_eps_to_hist=False, register=True):
    import appletree as apt

    cls = type(
        name,
        (apt.component.ComponentFixed,),
        {"norm_type": norm_type, "add_eps_to_hist": add_eps_to_hist, "__module__": "aptv.generated"},
    )
    if register:
        add_component(cls)
    return cls


def write_json(path, data):
    with open(path, "w") as f:
        json.dump(data, f)
    return os.path.abspath(path)


def write_csv(path, columns):
    import pandas as pd

    pd.DataFrame(columns).to_csv(path, index=False, float_format="%.17g")
    return os.path.abspath(path)


def point_map(path, x, y, name="x", kind="point"):
    return write_json(
        path,
        {
            "coordinate_type": kind,
            "coordinate_name": name,
            "coordinate_system": list(map(float, x)),
            "map": list(map(float, y)),
        },
    )


def regbin_map(path, lowers, uppers, values, names=None, kind="regbin"):
    values = np.asarray(values)
    return write_json(
        path,
        {
            "coordinate_type": kind,
            "coordinate_name": names or [f"c{i}" for i in range(len(lowers))],
            "coordinate_lowers": list(map(float, lowers)),
            "coordinate_uppers": list(map(float, uppers)),
            "map": values.tolist(),
        },
    )


def f32(x):
    """What single precision makes of x."""
    return np.asarray(x, dtype=np.float32).astype(np.float64)


def close(a, b, rtol=1e-5, atol=0.0):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        return bool(np.all(same | (np.abs(a - b) <= atol + rtol * np.abs(b))))


def key_of(n):
    from appletree import randgen

    return randgen.get_key(int(n))


def key_bits(key):
    return tuple(int(v) for v in np.asarray(key).ravel())


def refused(fn, *args, **kwargs):
    """Whether the call raises an ordinary exception."""
    try:
        fn(*args, **kwargs)
    except Exception:
        return True
    return False
