"""The samplers of binomials that are chosen by the environment or by the version of JAX."""

import contextlib
import importlib.util
import io
import os
import warnings

_cache = {}

NAMES = {
    # name: (environment, without the sampler of JAX)
    "binomial set to hybrid": ({"APPLETREE_USE_HYBRID": "1"}, False),
    "binomial without JAX's": ({}, True),
    "binomial without JAX's nor approximation": ({"DO_NOT_USE_APPROX_IN_BINOM": "1"}, True),
}


def get(name):
    """The sampler of this name; the module is loaded a second time as it would be in that environment."""
    from appletree import randgen

    if name not in NAMES:
        return getattr(randgen, name.split()[0])
    if name not in _cache:
        from jax import random

        env, without = NAMES[name]
        saved = {k: os.environ.get(k) for k in env}
        original = random.__dict__.get("binomial")
        os.environ.update(env)
        if without and original is not None:
            del random.binomial
        try:
            spec = importlib.util.spec_from_file_location("randgen_variant", randgen.__file__)
            module = importlib.util.module_from_spec(spec)
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                spec.loader.exec_module(module)
        finally:
            if original is not None:
                random.binomial = original
            for k, v in saved.items():
                if v is None:
                    os.environ.pop(k)
                else:
                    os.environ[k] = v
        _cache[name] = module.binomial
    return _cache[name]


def available(name):
    if NAMES.get(name, ({}, False))[1]:
        return importlib.util.find_spec("numpyro") is not None
    return True
