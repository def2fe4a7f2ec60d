"""Components whose energies come from a file of external events, bootstrapped when they are built."""

import os

import numpy as np

from aptv import kit

BUILT = []


def component_class(parameters_used=True):
    """A component with an option ``g4``: [file, batch size, seed], globally or per likelihood, or empty."""
    import appletree as apt
    import jax.numpy as jnp
    from appletree import randgen

    class ExternalEvents(apt.config.Config):
        def build(self, llh_name=None):
            value = self._resolve_cached_config(llh_name)
            if not value:
                self.energy = np.full(7, 3.0)
                self.n_events_selected = 7
                return
            file_name, batch_size, seed = value
            pool = np.load(file_name)
            self.n_events_selected = len(pool)
            self.energy = np.random.RandomState(seed % 2**32).choice(pool, batch_size)
            BUILT.append([llh_name, file_name, batch_size, seed, self.energy])

        @property
        def lineage(self):
            return {}

    def source(self, key, parameters, batch_size):
        return key, jnp.asarray(self.g4.energy)

    def rest(self, key, parameters, energy):
        key, u = randgen.uniform(key, 0.0, 1.0, shape=energy.shape)
        return key, energy * 2, energy + u, jnp.where(energy > 3, 1.0, 0.0)

    plugins = [
        kit.make_plugin(kit.unique("Bootstrap"), ["batch_size"], ["energy"], source, configs=[ExternalEvents(name="g4", default=[])]),
        kit.make_plugin(kit.unique("After"), ["energy"], ["double", "moved", "eff"], rest),
    ]
    return kit.make_component(kit.unique("External"), plugins, norm_type="on_sim", register=False)


def pool(rng, n):
    path = os.path.join(os.getcwd(), kit.unique("events") + ".npy")
    values = rng.permutation(n) * 0.01
    np.save(path, values)
    return path, values
