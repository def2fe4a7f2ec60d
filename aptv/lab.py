"""Small likelihoods and contexts whose simulated events are known exactly.

The components return a table of events which is given with the parameters, so that one compiled likelihood can be
evaluated for many tables.
"""

import numpy as np

from aptv import kit


def table_class(name, axes, n_events, tag, norm_type="on_pdf", add_eps=False, no_eff=False, parameters=()):
    """Component class returning ``parameters[f"{tag}_{axis}"]`` and ``parameters[f"{tag}_eff"]``.

    ``parameters`` are further declared parameters; each multiplies the efficiency.
    """
    import jax.numpy as jnp

    names = [f"{tag}_{a}" for a in axes] + [f"{tag}_eff"]

    def body(self, key, pars, batch_size):
        outputs = [jnp.asarray(pars[n], dtype=jnp.float32) for n in names]
        for p in parameters:
            outputs[-1] = outputs[-1] * pars[p]
        return tuple([key] + outputs + [jnp.ones(n_events)])

    plugin = kit.make_plugin(
        kit.unique(name + "Table"), ["batch_size"], list(axes) + ["eff", "energy"], body, parameters=parameters
    )
    return kit.make_component(name, [plugin], norm_type=norm_type, add_eps_to_hist=add_eps, force_no_eff=no_eff)


def tables(tag, axes, columns, eff):
    """The parameters that carry a table."""
    result = {f"{tag}_{a}": np.asarray(c, dtype=np.float32) for a, c in zip(axes, columns)}
    result[f"{tag}_eff"] = np.asarray(eff, dtype=np.float32)
    return result


def ref_hist(columns, eff, bins):
    """Irregular histogram in double precision: upper edges included, lower ones not."""
    eff = np.asarray(eff, dtype=np.float64)
    x = np.asarray(columns[0], dtype=np.float64)
    bx = np.asarray(bins[0], dtype=np.float64)
    if len(bins) == 1:
        return np.array([eff[(x > a) & (x <= b)].sum() for a, b in zip(bx[:-1], bx[1:])])
    y = np.asarray(columns[1], dtype=np.float64)
    hist = np.zeros((len(bx) - 1, len(bins[1][0]) - 1))
    for i in range(len(bx) - 1):
        col = (x > bx[i]) & (x <= bx[i + 1])
        by = np.asarray(bins[1][i], dtype=np.float64)
        for j in range(len(by) - 1):
            hist[i, j] = eff[col & (y > by[j]) & (y <= by[j + 1])].sum()
    return hist


def ref_mesh(columns, eff, bins):
    """Mesh histogram in double precision: lower edges included, upper ones not, except the last one."""
    return np.histogramdd(np.array(columns, dtype=np.float64).T, bins=[np.asarray(b, dtype=np.float64) for b in bins], weights=eff)[0]


def poisson_llh(counts, model):
    """Reference of the binned likelihood, and the scale of its rounding error."""
    counts, model = np.asarray(counts, dtype=np.float64), np.asarray(model, dtype=np.float64)
    if not np.all(np.isfinite(model)) or np.any(model <= 0):
        return -np.inf, 0.0
    terms = counts * np.log(model) - model
    return float(terms.sum()), float(np.sum(np.abs(counts * np.log(model)) + model + counts) + 1)


def fixed_parameter(value, lo=-1e30, hi=1e30):
    return {
        "prior_type": "fixed",
        "prior_args": {"val": value},
        "allowed_range": [lo, hi],
        "init_mean": value,
        "init_std": 1.0,
        "unit": "1",
        "doc": "",
    }


def free_parameter(mean, lo=-1e30, hi=1e30, std=1.0):
    return {
        "prior_type": "free",
        "prior_args": {},
        "allowed_range": [lo, hi],
        "init_mean": mean,
        "init_std": std,
        "unit": "1",
        "doc": "",
    }
