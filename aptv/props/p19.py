"""P19: conservation and bounds in the shipped simulations."""

import json
import os

import numpy as np
from hypothesis import strategies as st

from aptv import kit, physics, shipped
from aptv.harness import require

RULE = "at least a tenth of the events have quanta (or yields) and none of the results is constant zero"

BATCH = 1500
POINTS = 8

DETECTOR = (
    "x y z s1_lce s2_lce num_photon num_electron num_s1_phd num_s1_pe drift_survive_prob num_electron_drifted num_s2_pe "
    "rec_x rec_y rec_z rec_r s1_area s2_area s1_correction s2_correction cs1 cs2 "
    "acc_s2_threshold acc_s1_recon_eff cut_acc_s1 cut_acc_s2"
).split()
ER = "field num_quanta num_ion recomb_mean recomb_std recomb".split()
ERNEST = "field nex_ni_ratio alf charge_yield light_yield _Nph _Ne elecFrac recombProb fano_nq Ni Nex Nq omega Variance".split()
NEST = "field _Nq ThomasImel charge_yield light_yield _Nph _Ne _Ni nex_ni_ratio elecFrac recombProb Ni Nex Nq omega Variance".split()
NAMES = {
    "ERBand": ["energy"] + ER + DETECTOR,
    "ERPeak": ["energy"] + ER + DETECTOR,
    "ERBandNestV2": ["energy"] + ERNEST + DETECTOR,
    "ERPeakNestV2": ["energy"] + ERNEST + DETECTOR,
    "NR": ["energy", "light_yield", "charge_yield"] + DETECTOR,
    "NestNR": ["energy"] + NEST + DETECTOR,
    "MonoEnergiesYields": "energy energy_center field _Nq ThomasImel charge_yield light_yield x y z".split(),
    "BandEnergiesYields": "energy field _Nq ThomasImel charge_yield light_yield x y z".split(),
}
CONFIGS = {
    "ERBand": ["lower_energy", "upper_energy"],
    "ERPeak": ["mono_energy"],
    "ERBandNestV2": ["lower_energy", "upper_energy"],
    "ERPeakNestV2": ["mono_energy"],
    "NR": ["energy_spectrum", "ly_median", "qy_median"],
    "NestNR": ["lower_energy", "upper_energy"],
    "MonoEnergiesYields": ["energy_twohalfnorm", "clip_lower_energy", "clip_upper_energy"],
    "BandEnergiesYields": ["clip_lower_energy", "clip_upper_energy"],
}
POSITION = ["z_min", "z_max", "r_max"]
MAPS = [
    "efield_position_dependence", "efield_map", "s1_lce", "s2_lce", "elife", "gas_gain_relative", "posrec_reso",
    "s1_bias_3f", "s1_smear_3f", "s2_bias", "s2_smear", "s1_correction", "s2_correction", "s1_eff_3f", "s1_cut_acc", "s2_cut_acc",
]  # fmt: skip


def kinds_of_config():
    result = {}
    for m in physics.MODELS.values():
        result.update(m.configs)
    return result


def draw_configs(rng, kind):
    known = kinds_of_config()
    names = [n for n in CONFIGS[kind] + POSITION if rng.rand() < 0.8]
    if "lower_energy" in CONFIGS[kind] and rng.rand() < 0.5:
        names = [n for n in names if n != "lower_energy"]
    if kind not in shipped.YIELDS:
        names += [n for n in MAPS if rng.rand() < 0.8]
    if kind == "MonoEnergiesYields":
        names = list(dict.fromkeys(names + ["energy_twohalfnorm"]))
    result = {n: known[n].generate(rng) for n in names}
    if "lower_energy" in CONFIGS[kind] and rng.rand() < 0.4:
        result["lower_energy"] = 0.0
    if kind == "ERPeakNestV2" and rng.rand() < 0.3:
        result["mono_energy"] = 0.0
    return result


def draw_point(rng, kind):
    """Anywhere in the allowed ranges; where they have no physical end, within five spreads of the start."""
    spec = shipped.read("parameters", shipped.FILES[kind])
    if kind == "NestNR":
        for k, v in shipped.read("parameters", "nr_low.json").items():
            spec.setdefault(k, v)
    result = {}
    for k, v in spec.items():
        if v["prior_type"] == "fixed":
            result[k] = float(v["prior_args"]["val"])
            continue
        lo, hi = v["allowed_range"]
        mean, std = v["init_mean"], v["init_std"]
        if k == "w":
            lo, hi = 0.005, 0.05
        elif k == "elife_sigma":
            # without any lifetime of electrons the charge signal is not defined
            lo = max(lo, -0.9)
        elif lo < -1e9 or hi > 1e9:
            positive = lo >= 0 or k in ("py0", "py1", "py4", "rf0", "rf1")
            lo, hi = max(lo, mean - 5 * std), min(hi, mean + 5 * std)
            if positive:
                lo = max(lo, mean / 50)
        how = rng.choice(["near", "any", "edge"], p=[0.5, 0.4, 0.1])
        x = {"near": mean + std * rng.normal(), "any": rng.uniform(lo, hi), "edge": rng.choice([lo, hi])}[how]
        result[k] = float(np.clip(x, lo, hi))
    result.setdefault("field", float(rng.choice([23.0, 80.0, 200.0, 500.0])))
    # scalers of generated maps with uncertainty
    for k in ("some_scaler", "s1_eff_3f_sigma", "s1_cut_acc_sigma", "s2_cut_acc_sigma"):
        result.setdefault(k, float(rng.uniform(-3, 3)))
    return result


@st.composite
def cases(draw, kind, number):
    rng = np.random.RandomState(draw(st.integers(0, 2**32 - 1)))
    crng = np.random.RandomState([number, sum(map(ord, kind))])
    configs = draw_configs(crng, kind) if number else draw_configs(np.random.RandomState(1), kind) if kind == "MonoEnergiesYields" else {}
    return {"kind": kind, "configs": configs, "parameters": draw_point(rng, kind), "key": int(rng.randint(2**31))}


_components = {}


def component_of(case):
    import appletree as apt

    kind = case["kind"]
    identity = json.dumps([kind, case["configs"]], sort_keys=True)
    if identity not in _components:
        _components.clear()
        kit.reset()
        known = kinds_of_config()
        llh = kit.unique("llh")
        seen = {}
        for name, spec in case["configs"].items():
            value, seen[name] = known[name].value(spec, os.getcwd(), name)
            apt.set_global_config({name: {llh: value}})
        component = shipped.component_class(kind)(name=kind.lower(), llh_name=llh)
        component.deduce(data_names=NAMES[kind], func_name="simulate")
        component.compile()
        _components[identity] = (component, seen)
    return _components[identity]


def bounded(data, name, lo, hi, slack=0.0):
    v = data[name]
    bad = ~((v >= lo - slack) & (v <= hi + slack))
    if np.any(bad):
        j = np.argmax(bad.ravel())
        b = lambda x: np.broadcast_to(x, v.shape).ravel()[j]
        require(False, "{} = {} is outside {} to {}", name, v.ravel()[j], b(lo), b(hi))


def whole(data, *names):
    for name in names:
        v = data[name]
        require(np.all(v == np.round(v)) and np.all(v >= 0), "{} is not a count: {}", name, v[(v != np.round(v)) | (v < 0)][:3])


def simulate(case, rec):
    kind = case["kind"]
    component, seen = component_of(case)
    p = case["parameters"]
    n = shipped.batch(kind, BATCH)
    missing = set(component.needed_parameters) - set(p) - {component.rate_name}
    require(not missing, "parameters {} are not in the shipped file", missing)
    key, out = component.simulate(kit.key_of(case["key"]), n, p)
    names = NAMES[kind] + ["eff"]
    require(len(out) == len(names), "{} results for {}", len(out), names)
    data = {k: np.asarray(v, dtype=float) for k, v in zip(names, out)}
    for k, v in data.items():
        finite = np.isfinite(v)
        require(finite.all(), "{} of {} is {} for {}", k, kind, v[~finite][:3], {q: p[q] for q in sorted(component.needed_parameters) if q in p})
    rec.checked(len(data))
    c = dict(seen)
    get = lambda name, default: c.get(name, default)

    # where it happens
    slack = 1e-4
    bounded(data, "z", get("z_min", -133.97), get("z_max", -13.35), slack)
    require(np.all(np.hypot(data["x"], data["y"]) <= get("r_max", 60.0) * (1 + 1e-5) + 1e-6), "positions outside the radius")
    # energies
    if "lower_energy" in CONFIGS[kind]:
        bounded(data, "energy", get("lower_energy", 0.01), get("upper_energy", 20.0), 1e-6)
    elif "mono_energy" in CONFIGS[kind]:
        bounded(data, "energy", get("mono_energy", 2.82), get("mono_energy", 2.82), 1e-6)
    elif "energy_spectrum" in c:
        bounded(data, "energy", *[float(c["energy_spectrum"](np.array(v))[0]) for v in (0.0, 1.0)], 1e-5)
    elif kind == "BandEnergiesYields":
        bounded(data, "energy", get("clip_lower_energy", 0.5), get("clip_upper_energy", 2.5), 1e-6)
    require(np.all(data["energy"] >= 0), "negative energies")

    if kind in shipped.YIELDS:
        for k in ("charge_yield", "light_yield", "_Nq"):
            require(np.all(data[k] >= 0), "{} is negative", k)
        require(np.all(np.isin(data["eff"], [0, 1])), "efficiency {}", data["eff"])
        rec.nontrivial(np.ptp(data["energy"]) > 0 and data["charge_yield"].max() > 0)
        rec.label(kind, "generated configuration" if case["configs"] else "shipped configuration")
        return

    # quanta
    if "num_quanta" in data:
        whole(data, "num_quanta", "num_ion")
        bounded(data, "num_ion", 0, data["num_quanta"])
        bounded(data, "num_electron", 0, data["num_ion"])
        bounded(data, "recomb", 0, 1)
        bounded(data, "recomb_std", 0, np.inf)
        require(np.all(data["num_photon"] + data["num_electron"] == data["num_quanta"]), "photons and electrons are not all quanta")
    if "Nq" in data:
        whole(data, "Nq", "Ni", "Nex")
        bounded(data, "Ni", 0, data["Nq"])
        require(np.all(data["Ni"] + data["Nex"] == data["Nq"]), "ions and excitons are not all quanta")
        bounded(data, "num_electron", 0, data["Ni"])
        require(np.all(data["num_photon"] + data["num_electron"] == data["Nq"]), "photons and electrons are not all quanta")
        bounded(data, "num_photon", data["Nex"], data["Nq"])
        bounded(data, "recombProb", 0, 1, 1e-5)
        bounded(data, "elecFrac", 0, 1, 1e-6)
        bounded(data, "omega", 0, np.inf)
        for k in ("charge_yield", "light_yield", "_Nph", "_Ne"):
            bounded(data, k, 0, np.inf)
    if "alf" in data:
        bounded(data, "alf", 0, 1)
    whole(data, "num_photon", "num_electron", "num_s1_phd", "num_s1_pe", "num_electron_drifted", "num_s2_pe")

    # detection
    bounded(data, "num_s1_phd", 0, data["num_photon"])
    bounded(data, "num_s1_pe", data["num_s1_phd"], 2 * data["num_s1_phd"])
    bounded(data, "drift_survive_prob", 0, 1)
    bounded(data, "num_electron_drifted", 0, data["num_electron"])
    require(np.all(data["num_s2_pe"][data["num_electron_drifted"] == 0] == 0), "charge signal without electrons")
    # no more than what all drifted electrons can give
    gain = p["gas_gain"] * (1.4 if "gas_gain_relative" in c else 1.0) * data["s2_lce"]
    top = data["num_electron_drifted"] * gain / (1 + p["p_dpe"])
    # a Poisson variable beyond this has a probability below 1e-15
    top = 2 * (top + 9 * np.sqrt(top) + 30)
    bounded(data, "num_s2_pe", 0, top)
    require(np.all(data["s1_area"][data["num_s1_pe"] == 0] == 0), "area without photoelectrons")
    require(np.all(data["s2_area"][data["num_s2_pe"] == 0] == 0), "area without photoelectrons")
    require(np.all(data["rec_z"] == data["z"]), "the depth changes in the reconstruction")
    require(kit.close(data["rec_r"], np.hypot(data["rec_x"], data["rec_y"]), 1e-5, 1e-5), "the radius is not that of the reconstructed position")

    # efficiency
    for k in ("acc_s2_threshold", "acc_s1_recon_eff", "cut_acc_s1", "cut_acc_s2", "eff"):
        bounded(data, k, 0, 1)
    product = data["acc_s2_threshold"] * data["acc_s1_recon_eff"] * data["cut_acc_s1"] * data["cut_acc_s2"]
    require(kit.close(data["eff"], product, 1e-5, 1e-30), "the efficiency is not the product of its factors")
    rec.checked(20)
    busy = (data["num_photon"] + data["num_electron"] > 0).mean() >= 0.1
    rec.nontrivial(busy and all(data[k].max() > 0 for k in ("num_s1_pe", "num_s2_pe", "eff")))
    rec.label(kind, "generated configuration" if case["configs"] else "shipped configuration")


PARTS = {"simulate": simulate}


def run(check, only=None):
    check.assumptions = [
        "Where an allowed range has no physical end (beyond 1e9) parameters lie within five initial spreads, scales are positive; w is 5 to 50 eV and "
        "elife_sigma at least -0.9: without any lifetime of electrons the corrected charge signal is not defined.",
        "The fraction of ions of nuclear recoils may exceed one at the border of NEST's validity; the drawn numbers of ions and excitons still add up.",
    ]
    for kind in shipped.SIM + shipped.YIELDS:
        for number in range(check.n(2, 30)):
            salt = f"{kind} {number}"
            check.search("simulate", cases(kind, number and number + 1000 * check.seed), simulate, check.n(24, 150), salt=salt)
    _components.clear()
    return check
