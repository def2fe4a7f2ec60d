"""The simulations that appletree ships, with parameters from the shipped parameter files."""

import json
import os

import numpy as np

from aptv import kit
from aptv.harness import REPO

SIM = ["ERBand", "ERPeak", "ERBandNestV2", "ERPeakNestV2", "NR", "NestNR"]
YIELDS = ["MonoEnergiesYields", "BandEnergiesYields"]
FILES = {
    "ERBand": "er.json",
    "ERPeak": "er.json",
    "ERBandNestV2": "er_nestv2.json",
    "ERPeakNestV2": "er_nestv2.json",
    "NR": "nr_low.json",
    "NestNR": "nestv2.json",
    "MonoEnergiesYields": "nestv2_yield_only.json",
    "BandEnergiesYields": "nestv2_yield_only.json",
}
# parameters which are declared by used plugins but are not in the parameter file of the simulation
EXTRA = {"field": 23.0}


def batch(kind, n):
    """The batch size: literature yields at several energies are simulated once."""
    return 1 if kind == "MonoEnergiesYields" else n


def folder():
    return os.path.join(REPO, "appletree")


def read(kind, name):
    with open(os.path.join(folder(), kind, name)) as f:
        return json.load(f)


def component_class(kind):
    import appletree as apt

    if kind != "NestNR":
        return getattr(apt.components, kind)
    if not hasattr(apt.components, "NestNR"):

        class NestNR(apt.component.ComponentSim):
            """The full simulation of nuclear recoils which one can build of the shipped plugins."""

            norm_type = "on_pdf"
            add_eps_to_hist = False

            def __init__(self, *args, **kwargs):
                super().__init__(*args, **kwargs)
                p = apt.plugins
                self.register(p.UniformEnergySpectra)
                self.register(p.PositionSpectra)
                for name in (
                    "TotalQuanta ThomasImelBox QyNR LyNR MeanNphNe MeanExcitonIon TrueExcitonIonNR OmegaNR TruePhotonElectronNR"
                ).split():
                    self.register(getattr(p.nestv2, name))
                self.register_all(p.detector)
                self.register_all(p.reconstruction)
                self.register_all(p.efficiency)

        kit.add_component(NestNR)
    return apt.components.NestNR


def configuration(kind, llh_name, rng=None):
    """Configuration options that the simulation cannot do without."""
    configs = {}
    if kind == "MonoEnergiesYields":
        n = 4 if rng is None else int(rng.randint(1, 7))
        mu = np.linspace(0.7, 9.0, n) if rng is None else np.sort(rng.uniform(0.5, 12, n))
        s = mu * 0.08
        configs["energy_twohalfnorm"] = {
            llh_name: [["mu", "sigma_pos", "sigma_neg"], [mu.tolist(), s.tolist(), (0.7 * s).tolist()]]
        }
    return configs


def all_parameters():
    """Central values of every parameter in the shipped parameter files."""
    result = {}
    for name in sorted(os.listdir(os.path.join(folder(), "parameters"))):
        for k, v in read("parameters", name).items():
            result.setdefault(k, v["prior_args"]["val"] if v["prior_type"] == "fixed" else v["init_mean"])
    return result


def parameters(kind, component=None, rng=None):
    """A point of the allowed region of the parameter file (the centre without ``rng``)."""
    spec = read("parameters", FILES[kind])
    if kind == "NestNR":
        for k, v in read("parameters", "nr_low.json").items():
            spec.setdefault(k, v)
    result = {}
    for k, v in spec.items():
        if v["prior_type"] == "fixed":
            x = v["prior_args"]["val"]
        elif rng is None:
            x = v["init_mean"]
        else:
            lo, hi = v["allowed_range"]
            mean, std = v["init_mean"], v["init_std"]
            if rng.rand() < 0.5:
                # near the start of the fit
                x = np.clip(mean + 3 * std * rng.normal(), lo, hi)
            else:
                lo, hi = max(lo, mean - 30 * std), min(hi, mean + 30 * std)
                x = rng.uniform(lo, hi)
        result[k] = float(x)
    result.setdefault("field", EXTRA["field"])
    if component is not None:
        for k in component.needed_parameters:
            result.setdefault(k, 0.0)
    return result


def build(kind, llh_name=None, data_names=None, func_name="simulate", name=None, no_eff=False):
    """Deduced and compiled component."""
    from appletree.share import _cached_configs

    llh_name = llh_name or kit.unique("llh")
    for k, v in configuration(kind, llh_name).items():
        if isinstance(_cached_configs.get(k), dict):
            _cached_configs[k].update(v)
        else:
            _cached_configs[k] = v
    component = component_class(kind)(name=name or kind.lower(), llh_name=llh_name)
    if data_names is None:
        data_names = ["energy", "light_yield"] if kind in YIELDS else ["cs1", "cs2"]
    component.deduce(data_names=list(data_names), func_name=func_name, force_no_eff=no_eff)
    component.compile()
    return component
