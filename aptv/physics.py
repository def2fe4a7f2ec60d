"""Reference of the shipped plugins: formulas and samplers in double precision, from their documentation.

A formula returns for every output its value, or (value, size of the largest term).  A sampler draws outputs with
numpy.  ``i`` holds the inputs by data name, ``p`` the parameters, ``c`` the configuration.
"""

import os
from types import SimpleNamespace

import numpy as np
from scipy import special

from aptv import kit

MODELS = {}


class Model:
    def __init__(self, where, depends, provides, formula=None, sampler=None, configs=None, fixed_shape=False):
        self.where = where
        self.module, self.name = where.split(".")
        self.depends = depends.split()
        self.provides = provides.split()
        self.formula = formula
        self.sampler = sampler
        self.configs = configs or {}
        self.fixed_shape = fixed_shape

    def plugin_class(self):
        import appletree as apt

        return getattr(getattr(apt.plugins, self.module), self.name)


def formula(where, depends, provides, **configs):
    def add(fn):
        MODELS[where] = Model(where, depends, provides, formula=fn, configs=configs)
        return fn

    return add


def sampler(where, depends, provides, **configs):
    def add(fn):
        MODELS[where] = Model(where, depends, provides, sampler=fn, configs=configs)
        return fn

    return add


# ----------------------------------------------------------------------
# configurations: how to generate them, and what the reference sees of them


class Const:
    def __init__(self, low, high):
        self.low, self.high = low, high

    def generate(self, rng):
        return float(np.float32(rng.uniform(self.low, self.high)))

    def value(self, spec, folder, name):
        return spec, spec


class Flag:
    def generate(self, rng):
        return bool(rng.randint(2))

    def value(self, spec, folder, name):
        return spec, spec


class HalfNorms:
    def generate(self, rng):
        n = int(rng.randint(1, 5))
        mu = np.sort(rng.uniform(0.2, 12, n))
        # with wide lower halves part of the energies is cut at zero
        pos, neg = mu * rng.uniform(0.02, 0.3, n), mu * rng.uniform(0.02, 0.8, n)
        return [np.float32(v).astype(float).tolist() for v in (mu, pos, neg)]

    def value(self, spec, folder, name):
        return [["mu", "sigma_pos", "sigma_neg"], spec], dict(zip(["mu", "sigma_pos", "sigma_neg"], np.array(spec)))


class Point:
    """Map of one coordinate."""

    def __init__(self, method, x, y, increasing=False):
        self.method, self.x, self.y, self.increasing = method, x, y, increasing

    def generate(self, rng):
        n = int(rng.choice([2, 4, 9]))
        lo, hi = self.x
        x = np.sort(np.concatenate([[lo, hi], rng.uniform(lo, hi, n - 2)]))
        keep = np.concatenate([[True], np.diff(x) > 1e-3 * (hi - lo)])
        keep[-1] = True
        if n > 2:
            keep[-2] &= x[-1] - x[-2] > 1e-3 * (hi - lo)
        keep[0] = True
        x = x[keep]
        y = rng.uniform(*self.y, len(x))
        if self.increasing:
            y = np.sort(y)
        return {"x": np.float32(x).astype(float).tolist(), "y": np.float32(y).astype(float).tolist()}

    def value(self, spec, folder, name):
        path = kit.point_map(os.path.join(folder, kit.unique(name) + ".json"), spec["x"], spec["y"])
        return path, self.reference(spec)

    def reference(self, spec):
        from aptv.props import p13

        def apply(pos):
            shape = np.shape(pos)
            v, e = p13.reference(spec["x"], spec["y"], np.ravel(pos), False, self.method)
            return v.reshape(shape), e.reshape(shape)

        return apply


class Grid:
    """Map of the position; the interpolation itself is decided elsewhere (P14), so the reference is a map of its own."""

    def __init__(self, dims, y, method="IDW"):
        self.dims, self.y, self.method = dims, y, method
        self.lowers = {"x": -70.0, "y": -70.0, "z": -140.0, "r": 0.0}
        self.uppers = {"x": 70.0, "y": 70.0, "z": 0.0, "r": 70.0}

    def generate(self, rng):
        shape = [int(rng.randint(2, 5)) for _ in self.dims]
        return {"values": np.float32(rng.uniform(*self.y, shape)).astype(float).tolist()}

    def value(self, spec, folder, name):
        import appletree as apt

        path = kit.regbin_map(
            os.path.join(folder, kit.unique(name) + ".json"),
            [self.lowers[d] for d in self.dims],
            [self.uppers[d] for d in self.dims],
            spec["values"],
            names=list(self.dims),
        )
        m = apt.Map(method=self.method, name=kit.unique("reference_map"), default=path)
        m.build()

        def apply(*pos):
            pos = np.stack([np.float32(v) for v in pos], axis=-1)
            return np.asarray(m.apply(np.reshape(pos, (-1, len(self.dims)))), dtype=float).reshape(pos.shape[:-1])

        return path, apply


class Sigma:
    """Map with uncertainty: median, lower, upper and the name of the scaler."""

    def __init__(self, method, x, scaler):
        self.method, self.x, self.scaler = method, x, scaler

    def generate(self, rng):
        median = Point(self.method, self.x, (0.2, 0.9)).generate(rng)
        y = np.array(median["y"])
        lower = np.float32(y - rng.uniform(0, 0.3, len(y))).astype(float)
        upper = np.float32(y + rng.uniform(0, 0.3, len(y))).astype(float)
        return {"x": median["x"], "maps": [y.tolist(), lower.tolist(), upper.tolist()], "four": bool(rng.randint(2))}

    def value(self, spec, folder, name):
        paths = [kit.point_map(os.path.join(folder, kit.unique(name) + ".json"), spec["x"], y) for y in spec["maps"]]
        scaler = self.scaler if not spec["four"] else "some_scaler"
        if spec["four"]:
            paths.append(scaler)
        refs = [Point(self.method, self.x, None).reference({"x": spec["x"], "y": y}) for y in spec["maps"]]

        def apply(pos, p):
            (m, e), (lo, e1), (up, e2) = [r(pos) for r in refs]
            s = p[scaler]
            v = m + (s * (up - m) if s > 0 else s * (m - lo))
            return np.clip(v, 0, 1), ((e + e1 + e2) * (1 + abs(s)) + 1e-6) / 3e-5

        return paths, apply


# ----------------------------------------------------------------------
# parameters and inputs


def draw_parameters(rng):
    """A point of the physical region, some of it at its borders."""
    u = lambda a, b: float(np.float32(rng.uniform(a, b)))
    lu = lambda a, b: float(np.float32(np.exp(rng.uniform(np.log(a), np.log(b)))))
    sign = lambda: float(rng.choice([-1, 1]))
    p = {
        "w": u(0.009, 0.019),
        "fano": lu(0.01, 2),
        "nex_ni_ratio": u(0.06, 0.2),
        "gas_gain": u(15, 40),
        "drift_velocity": u(0.04, 0.2),
        "field": lu(10, 500),
        "s2_threshold": float(rng.choice([0.0, 100.0, 500.0, u(0, 1000)])),
        "g1": float(rng.choice([u(0.05, 1.0), u(0.7, 2.0)], p=[0.7, 0.3])),
        "g2": float(rng.choice([u(5, 30), u(30, 100)], p=[0.8, 0.2])),
        "p_dpe": float(rng.choice([0.0, 1.0, u(0, 1), u(0, 1), u(0, 1)])),
        "elife_sigma": float(rng.choice([0.0, u(-0.8, 1)])),
        "py0": lu(0.01, 1),
        "py1": lu(1, 100),
        "py2": u(-0.6, 0.3),
        "py3": u(-2, 5),
        "py4": lu(0.1, 3),
        "rf0": float(rng.choice([u(0, 0.3), u(0, 3)], p=[0.8, 0.2])),
        "rf1": lu(0.05, 5),
        "liquid_xe_density": u(2.7, 3.0),
        "m1": u(-20, 20),
        "m2": u(60, 100),
        "m3": u(0.45, 0.55),
        "m4": u(1.0, 4),
        "m7": u(10, 1000),
        "m8": u(2, 10),
        "m9": u(0.15, 0.45),
        "m10": u(0, 1),
        "delta_f": float(rng.choice([1.0, u(0.01, 3), -u(0.0005, 0.01)])),
        "A_er": u(0, 0.2),
        "xi_er": u(0.3, 0.6),
        "omega_er": u(0.1, 0.4),
        "alpha3_er": u(-3, 3),
        "alpha": u(8, 20),
        "beta": u(0.9, 1.3),
        "gamma": u(0.02, 0.1),
        "delta": u(-0.1, 0.05),
        "epsilon": u(5, 25),
        "zeta": u(0.1, 1),
        "eta": u(0.5, 4),
        "theta": u(0.1, 1),
        "iota": u(0.5, 4),
        "fano_ni": lu(0.05, 2),
        "fano_nex": lu(0.05, 2),
        "A": u(0.01, 0.2),
        "xi": u(0.3, 0.7),
        "omega": u(0.05, 0.4),
        "alpha2": sign() * float(rng.choice([0.0, u(0, 4), 2.25])),
        "t_ly": float(rng.choice([0.0, u(-0.9, 2), -1.5])),
        "t_qy": float(rng.choice([0.0, u(-0.9, 2), -1.5])),
        # no two scalers have the same value
        "s1_cut_acc_sigma": u(-2, 2),
        "s2_cut_acc_sigma": u(-2, 2),
        "s1_eff_3f_sigma": u(-2, 2),
        "some_scaler": u(-2, 2),
    }
    return p


def draw_inputs(rng, n):
    """Values of every data name, independent where nothing relates them."""
    energy = np.where(rng.rand(n) < 0.5, rng.uniform(0, 20, n), np.exp(rng.uniform(np.log(0.02), np.log(100), n)))
    if rng.rand() < 0.3:
        energy[rng.randint(n)] = 0.0
    big = lambda top: np.where(rng.rand(n) < 0.4, rng.randint(0, 12, n), np.exp(rng.uniform(0, np.log(top), n)).astype(int))
    quanta = big(2000)
    ion = (quanta * rng.uniform(0, 1, n)).round()
    r, t = 66 * np.sqrt(rng.rand(n)), rng.uniform(0, 2 * np.pi, n)
    rr, rt = 66 * np.sqrt(rng.rand(n)), rng.uniform(0, 2 * np.pi, n)
    electron = big(500)
    nph, ne = energy * rng.uniform(0, 60, n), energy * rng.uniform(0, 60, n)
    if rng.rand() < 0.3:
        j = rng.randint(n)
        nph[j] = ne[j] = 0.0
    nn = big(1500)
    ni = (nn * rng.uniform(0.3, 1, n)).round()
    ratio = rng.uniform(0.02, 1.5, n)
    recomb = rng.uniform(0, 1, n)
    s1 = np.where(rng.rand(n) < 0.5, rng.uniform(0, 12, n), rng.uniform(0, 150, n))
    s2 = np.where(rng.rand(n) < 0.5, rng.uniform(0, 1200, n), rng.uniform(0, 2e4, n))
    data = {
        "energy": energy,
        "energy_center": np.maximum(energy + rng.normal(0, 0.2, n), 0),
        "x": r * np.cos(t),
        "y": r * np.sin(t),
        "z": -rng.uniform(-20, 139, n),
        "rec_x": rr * np.cos(rt),
        "rec_y": rr * np.sin(rt),
        "rec_z": -rng.uniform(0, 139, n),
        "rec_r": rr,
        "field": np.exp(rng.uniform(np.log(10), np.log(500), n)),
        "s1_lce": rng.uniform(0.5, 1.6, n),
        "s2_lce": rng.uniform(0.5, 1.6, n),
        "num_quanta": quanta,
        "num_ion": ion,
        "num_photon": big(1500),
        "num_electron": electron,
        "num_electron_drifted": big(300),
        "num_s1_phd": np.where(rng.rand(n) < 0.5, rng.randint(0, 8, n), big(150)),
        "num_s1_pe": np.where(rng.rand(n) < 0.5, rng.randint(0, 8, n), big(150)),
        "num_s2_pe": big(20000),
        "s1_area": s1,
        "s2_area": s2,
        "s1_correction": rng.uniform(0.5, 1.6, n),
        "s2_correction": rng.uniform(0.5, 1.6, n),
        "drift_survive_prob": np.where(rng.rand(n) < 0.1, 1.0, rng.uniform(0.2, 1, n)),
        "recomb_mean": rng.uniform(0, 1, n),
        "recomb_std": rng.choice([0.0, 1.0], n) * rng.uniform(0, 0.3, n),
        "recomb": recomb,
        "acc_s2_threshold": rng.randint(0, 2, n),
        "acc_s1_recon_eff": rng.uniform(0, 1, n),
        "cut_acc_s1": rng.uniform(0, 1, n),
        "cut_acc_s2": rng.uniform(0, 1, n),
        "nex_ni_ratio": ratio,
        "alf": 1 / (1 + ratio),
        "charge_yield": rng.uniform(0, 80, n),
        "light_yield": rng.uniform(0, 80, n),
        "_Nq": energy * rng.uniform(5, 90, n),
        "ThomasImel": rng.uniform(0.02, 0.08, n),
        "_Nph": nph,
        "_Ne": ne,
        "elecFrac": rng.uniform(0, 1, n),
        "recombProb": rng.choice([0.0, 1.0, 2.0], n) if rng.rand() < 0.05 else recomb,
        "fano_nq": rng.uniform(0.05, 3, n),
        "Ni": ni,
        "Nq": nn,
        "Nex": nn - ni,
        "omega": rng.uniform(0, 0.1, n),
        "Variance": ni * rng.uniform(0, 0.3, n) + (ni * rng.uniform(0, 0.05, n)) ** 2,
    }
    data["recombProb"] = np.clip(data["recombProb"], 0, 1)
    # _Ne far below one is where differences of exponentials lose their digits
    if rng.rand() < 0.5:
        data["_Ne"] = np.where(rng.rand(n) < 0.3, data["_Ne"] * 10 ** rng.uniform(-6, -1, n), data["_Ne"])
    return {k: np.float32(v).astype(float) for k, v in data.items()}


INTEGERS = {
    "num_quanta", "num_ion", "num_photon", "num_electron", "num_electron_drifted", "num_s1_phd", "num_s1_pe", "Ni", "Nq", "Nex",
}  # fmt: skip


def namespace(d):
    return SimpleNamespace(**d)


def undecided(value, bad):
    """(value, tolerance nan where bad)"""
    return value, np.where(bad, np.nan, np.abs(value))


# ----------------------------------------------------------------------
# common

BATCH = "batch_size"


@sampler("common.UniformEnergySpectra", BATCH, "energy", lower_energy=Const(0, 5), upper_energy=Const(5.5, 60))
def _(rng, n, i, p, c):
    return [rng.uniform(c["lower_energy"], c["upper_energy"], n)]


@sampler("common.FixedEnergySpectra", BATCH, "energy", energy_spectrum=Point("LERP", (0.0, 1.0), (0.1, 20), increasing=True))
def _(rng, n, i, p, c):
    return [c["energy_spectrum"](rng.rand(n))[0]]


@sampler("common.MonoEnergySpectra", BATCH, "energy", mono_energy=Const(0.1, 60))
def _(rng, n, i, p, c):
    return [np.full(n, c["mono_energy"])]


@sampler("common.PositionSpectra", BATCH, "x y z", z_min=Const(-140, -80), z_max=Const(-60, 60), r_max=Const(5, 70))
def _(rng, n, i, p, c):
    z = rng.uniform(c["z_min"], c["z_max"], n)
    r, t = c["r_max"] * np.sqrt(rng.rand(n)), rng.uniform(-np.pi, np.pi, n)
    return [r * np.cos(t), r * np.sin(t), z]


# ----------------------------------------------------------------------
# detector


@formula("detector.EField", "x y z", "field", efield_position_dependence=Flag(), efield_map=Grid("rz", (10, 300)))
def _(i, p, c):
    if not c["efield_position_dependence"]:
        return [np.full(i.x.shape, p["field"])]
    return [c["efield_map"](np.sqrt(np.float32(i.x) ** 2 + np.float32(i.y) ** 2), i.z)]


@formula("detector.S1LCE", "x y z", "s1_lce", s1_lce=Grid("xyz", (0.5, 1.6)))
def _(i, p, c):
    return [c["s1_lce"](i.x, i.y, i.z)]


@formula("detector.S2LCE", "x y", "s2_lce", s2_lce=Grid("xy", (0.5, 1.6)))
def _(i, p, c):
    return [c["s2_lce"](i.x, i.y)]


@sampler("detector.PhotonDetection", "num_photon s1_lce", "num_s1_phd")
def _(rng, n, i, p, c):
    return [rng.binomial(int(i.num_photon), np.clip(p["g1"] * i.s1_lce / (1 + p["p_dpe"]), 0, 1), n)]


@sampler("detector.S1PE", "num_s1_phd", "num_s1_pe")
def _(rng, n, i, p, c):
    return [i.num_s1_phd + rng.binomial(int(i.num_s1_phd), p["p_dpe"], n)]


@sampler("detector.DriftLoss", "z", "drift_survive_prob", elife=Point("LERP", (0.0, 1.0), (500, 15000), increasing=True))
def _(rng, n, i, p, c):
    life = c["elife"](rng.rand(n))[0] * (1 + p["elife_sigma"])
    return [np.exp(-np.abs(i.z) / p["drift_velocity"] / life)]


@sampler("detector.ElectronDrifted", "num_electron drift_survive_prob", "num_electron_drifted")
def _(rng, n, i, p, c):
    return [rng.binomial(int(i.num_electron), i.drift_survive_prob, n)]


@sampler("detector.S2PE", "num_electron_drifted s2_lce x y", "num_s2_pe", gas_gain_relative=Grid("xy", (0.7, 1.4)))
def _(rng, n, i, p, c):
    gain = p["gas_gain"] * float(c["gas_gain_relative"](i.x, i.y))
    extracted = rng.binomial(int(i.num_electron_drifted), min(p["g2"] / gain, 1), n)
    phd = rng.poisson(extracted * gain * i.s2_lce / (1 + p["p_dpe"]))
    return [phd + rng.binomial(phd, p["p_dpe"])]


# ----------------------------------------------------------------------
# reconstruction


@sampler("reconstruction.PositionRecon", "x y z num_electron_drifted", "rec_x rec_y rec_z rec_r", posrec_reso=Point("LERP", (0, 300), (0.1, 5)))
def _(rng, n, i, p, c):
    std = float(c["posrec_reso"](i.num_electron_drifted)[0]) / np.sqrt(2)
    x, y = rng.normal(i.x, std, n), rng.normal(i.y, std, n)
    return [x, y, np.full(n, i.z), np.sqrt(x**2 + y**2)]


@sampler("reconstruction.S1", "num_s1_pe", "s1_area", s1_bias_3f=Point("LERP", (0, 100), (-0.1, 0.1)), s1_smear_3f=Point("LERP", (0, 100), (0.01, 0.3)))
def _(rng, n, i, p, c):
    bias = rng.normal(float(c["s1_bias_3f"](i.num_s1_pe)[0]), float(c["s1_smear_3f"](i.num_s1_pe)[0]), n)
    return [i.num_s1_pe * (1 + bias)]


@sampler("reconstruction.S2", "num_s2_pe", "s2_area", s2_bias=Point("LERP", (0, 9000), (-0.1, 0.1)), s2_smear=Point("LERP", (0, 9000), (0.01, 0.3)))
def _(rng, n, i, p, c):
    bias = rng.normal(float(c["s2_bias"](i.num_s2_pe)[0]), float(c["s2_smear"](i.num_s2_pe)[0]), n)
    return [i.num_s2_pe * (1 + bias)]


@formula("reconstruction.S1Correction", "rec_x rec_y rec_z", "s1_correction", s1_correction=Grid("xyz", (0.5, 1.6)))
def _(i, p, c):
    return [c["s1_correction"](i.rec_x, i.rec_y, i.rec_z)]


@formula("reconstruction.S2Correction", "rec_x rec_y", "s2_correction", s2_correction=Grid("xy", (0.5, 1.6)))
def _(i, p, c):
    return [c["s2_correction"](i.rec_x, i.rec_y)]


@formula("reconstruction.cS1", "s1_area s1_correction", "cs1")
def _(i, p, c):
    return [i.s1_area / i.s1_correction]


@formula("reconstruction.cS2", "s2_area s2_correction drift_survive_prob", "cs2")
def _(i, p, c):
    return [i.s2_area / i.s2_correction / i.drift_survive_prob]


# ----------------------------------------------------------------------
# efficiency


@formula("efficiency.S2Threshold", "s2_area", "acc_s2_threshold")
def _(i, p, c):
    return [undecided((i.s2_area > p["s2_threshold"]) * 1.0, np.abs(i.s2_area - p["s2_threshold"]) < 1e-4)]


@formula("efficiency.S1ReconEff", "num_s1_phd", "acc_s1_recon_eff", s1_eff_3f=Sigma("NN", (0, 12), "s1_eff_3f_sigma"))
def _(i, p, c):
    return [c["s1_eff_3f"](i.num_s1_phd, p)]


@formula("efficiency.S1CutAccept", "s1_area", "cut_acc_s1", s1_cut_acc=Sigma("LERP", (0, 100), "s1_cut_acc_sigma"))
def _(i, p, c):
    return [c["s1_cut_acc"](i.s1_area, p)]


@formula("efficiency.S2CutAccept", "s2_area", "cut_acc_s2", s2_cut_acc=Sigma("LERP", (0, 8000), "s2_cut_acc_sigma"))
def _(i, p, c):
    return [c["s2_cut_acc"](i.s2_area, p)]


@formula("efficiency.Eff", "acc_s2_threshold acc_s1_recon_eff cut_acc_s1 cut_acc_s2", "eff")
def _(i, p, c):
    return [i.acc_s2_threshold * i.acc_s1_recon_eff * i.cut_acc_s1 * i.cut_acc_s2]


# ----------------------------------------------------------------------
# ER microphysics


def rounded_normal(rng, mean, std, n):
    return np.round(np.maximum(rng.normal(mean, std, n), 0))


@sampler("er_microphys.Quanta", "energy", "num_quanta")
def _(rng, n, i, p, c):
    mean = i.energy / p["w"]
    return [rounded_normal(rng, mean, np.sqrt(mean * p["fano"]), n)]


@sampler("er_microphys.IonizationER", "num_quanta", "num_ion")
def _(rng, n, i, p, c):
    return [rng.binomial(int(i.num_quanta), 1 / (1 + p["nex_ni_ratio"]), n)]


@formula("er_microphys.mTI", "energy field", "recomb_mean")
def _(i, p, c):
    ni = i.energy / p["w"] / (1 + p["nex_ni_ratio"])
    ti = ni * p["py0"] * np.exp(-i.energy / p["py1"]) * i.field ** p["py2"] / 4
    fd = 1 / (1 + np.exp(-(i.energy - p["py3"]) / p["py4"]))
    with np.errstate(divide="ignore", invalid="ignore"):
        r = np.where(ti < 1e-2, ti / 2 - ti * ti / 3, 1 - np.log1p(ti) / ti)
        # the logarithm of almost one has few digits
        size = np.where(ti < 9.9e-3, ti, 1 + 0.01 / ti)
    return [(r * fd, size * fd)]


@formula("er_microphys.RecombFluct", "energy", "recomb_std")
def _(i, p, c):
    v = p["rf0"] * -np.expm1(-i.energy / p["rf1"])
    return [(np.clip(v, 0, 1), p["rf0"] + 0 * v)]


@sampler("er_microphys.TrueRecombER", "recomb_mean recomb_std", "recomb")
def _(rng, n, i, p, c):
    return [np.clip(rng.normal(i.recomb_mean, i.recomb_std, n), 0, 1)]


@sampler("er_microphys.RecombinationER", "num_quanta num_ion recomb", "num_photon num_electron")
def _(rng, n, i, p, c):
    e = rng.binomial(int(i.num_ion), 1 - i.recomb, n)
    return [i.num_quanta - e, e]


# ----------------------------------------------------------------------
# NEST v2 electronic recoils


@formula("er_nestv2.ExcitonIonRatioER", "energy", "nex_ni_ratio alf")
def _(i, p, c):
    ratio = (0.067366 + 0.039693 * p["liquid_xe_density"]) * special.erf(i.energy * 0.05)
    return [ratio, 1 / (1 + ratio)]


@formula("er_nestv2.QyER", "energy nex_ni_ratio field", "charge_yield")
def _(i, p, c):
    def at_field(zero, other, scale, power, outer=1.0):
        # interpolation between two limits of the field
        return other + (zero - other) / (1 + (i.field / scale) ** power) ** outer

    m1 = at_field(p["m1"], 30.66, 73.855, 2.0318, 0.41883)
    m3 = np.log10(i.field) * 0.13946236 + p["m3"]
    m4 = at_field(p["m4"], 1.82217496, 144.65029656, -2.80532006)
    m7 = at_field(p["m7"], 7.02921301, 256.48156448, 1.29119251)
    m10 = at_field(p["m10"], 0.0508273937, 139.260460, -0.65763592)
    m5 = 1 / p["w"] / (1 + i.nex_ni_ratio) - m1
    a = (p["m2"] - m1) / (1 + (i.energy / m3) ** m4) ** p["m9"]
    b = m5 / (1 + (i.energy / m7) ** p["m8"]) ** m10
    qy = m1 + a + m5 - b
    return [(np.maximum(qy, 0), np.abs(m1) + np.abs(a) + np.abs(m5) + np.abs(b))]


@formula("er_nestv2.LyER", "charge_yield", "light_yield")
def _(i, p, c):
    return [(np.maximum(1 / p["w"] - i.charge_yield, 0), 1 / p["w"] + i.charge_yield)]


@formula("er_nestv2.MeanNphNeER", "light_yield charge_yield energy", "_Nph _Ne")
def _(i, p, c):
    return [i.light_yield * i.energy, i.charge_yield * i.energy]


def electron_fraction(i):
    nq = i._Nph + i._Ne
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(nq > 0, i._Ne / nq, 0)


@formula("er_nestv2.MeanExcitonIonER", "nex_ni_ratio _Nph _Ne", "elecFrac recombProb")
def _(i, p, c):
    f = electron_fraction(i)
    return [f, (np.maximum(1 - (i.nex_ni_ratio + 1) * f, 0), 1 + i.nex_ni_ratio)]


@formula("er_nestv2.FanoFactorER", "_Nph _Ne field", "fano_nq")
def _(i, p, c):
    if p["delta_f"] > 0:
        return [np.full(i.field.shape, p["delta_f"])]
    d = p["liquid_xe_density"]
    const = 0.12707 - 0.029623 * d - 0.0057042 * d**2 + 0.0015957 * d**3
    return [(const - p["delta_f"] * np.sqrt((i._Nph + i._Ne) * i.field), 0.5)]


@sampler("er_nestv2.TrueExcitonIonER", "_Nph _Ne fano_nq alf", "Ni Nex Nq")
def _(rng, n, i, p, c):
    mean = i._Nph + i._Ne
    nq = rounded_normal(rng, mean, np.sqrt(i.fano_nq * mean), n)
    ni = rng.binomial(nq.astype(int), i.alf)
    return [ni, nq - ni, nq]


@formula("er_nestv2.OmegaER", "elecFrac recombProb Ni _Ne _Nph field", "omega Variance")
def _(i, p, c):
    amplitude = 0.086036 + (p["A_er"] - 0.086036) / (1 + (i.field / 295.2) ** 251.6) ** 0.0069114
    skew, wide, center = p["alpha3_er"], p["omega_er"], p["xi_er"]

    def shape(x):
        return np.exp(-0.5 * (x - center) ** 2 / wide**2) * (1 + special.erf(skew * (x - center) / (wide * np.sqrt(2))))

    mode = center + np.sqrt(2 / np.pi) * skew * wide / np.sqrt(1 + skew**2)
    omega = np.maximum(amplitude * shape(i.elecFrac) / shape(mode), 0)
    variance = i.recombProb * (1 - i.recombProb) * i.Ni + omega**2 * i.Ni**2
    return [(omega, np.maximum(omega, 1e-3)), (variance, np.maximum(variance, i.Ni**2 * 1e-6))]


@sampler("er_nestv2.TruePhotonElectronER", "recombProb Variance Ni Nq", "num_photon num_electron")
def _(rng, n, i, p, c):
    e = np.clip(np.round(rng.normal((1 - i.recombProb) * i.Ni, np.sqrt(i.Variance), n)), 0, i.Ni)
    return [np.maximum(i.Nq - e, 0), e]


@formula("er_nestv2.BandEnergiesClipEff", "energy", "eff")
def _(i, p, c):
    return [np.ones(i.energy.shape)]


# ----------------------------------------------------------------------
# light and charge yield of nuclear recoils from maps


@formula("lyqy.LightYield", "energy", "light_yield", ly_median=Point("LERP", (0.1, 20), (0, 9)))
def _(i, p, c):
    v, e = c["ly_median"](i.energy)
    return [(np.maximum(v * (1 + p["t_ly"]), 0), e * 3e5)]


@sampler("lyqy.NumberPhoton", "energy light_yield", "num_photon")
def _(rng, n, i, p, c):
    return [rng.poisson(i.light_yield * i.energy, n)]


@formula("lyqy.ChargeYield", "energy", "charge_yield", qy_median=Point("LERP", (0.1, 20), (0, 9)))
def _(i, p, c):
    v, e = c["qy_median"](i.energy)
    return [(np.maximum(v * (1 + p["t_qy"]), 0), e * 3e5)]


@sampler("lyqy.NumberElectron", "energy charge_yield", "num_electron")
def _(rng, n, i, p, c):
    return [rng.poisson(i.charge_yield * i.energy, n)]


# ----------------------------------------------------------------------
# NEST v2 nuclear recoils


@sampler("nestv2.MonoEnergiesSpectra", BATCH, "energy energy_center", energy_twohalfnorm=HalfNorms())
def _(rng, n, i, p, c):
    s = c["energy_twohalfnorm"]
    up = rng.rand(n, len(s["mu"])) < s["sigma_pos"] / (s["sigma_pos"] + s["sigma_neg"])
    z = np.abs(rng.normal(size=up.shape))
    e = np.maximum(s["mu"] + np.where(up, z * s["sigma_pos"], -z * s["sigma_neg"]), 0)
    return [e, np.broadcast_to(s["mu"], e.shape)]


@sampler("nestv2.UniformEnergiesSpectra", BATCH, "energy", clip_lower_energy=Const(0, 2), clip_upper_energy=Const(2.5, 20))
def _(rng, n, i, p, c):
    return [rng.uniform(c["clip_lower_energy"], c["clip_upper_energy"], n)]


@formula("nestv2.TotalQuanta", "energy", "_Nq")
def _(i, p, c):
    return [p["alpha"] * i.energy ** p["beta"]]


@formula("nestv2.ThomasImelBox", "energy field", "ThomasImel")
def _(i, p, c):
    return [p["gamma"] * i.field ** p["delta"] * (p["liquid_xe_density"] / 2.9) ** 0.3]


@formula("nestv2.QyNR", "energy ThomasImel", "charge_yield")
def _(i, p, c):
    a = 1 / i.ThomasImel / np.sqrt(i.energy + p["epsilon"])
    return [(np.maximum(a * (1 - 1 / (1 + (i.energy / p["zeta"]) ** p["eta"])), 0), a)]


@formula("nestv2.LyNR", "energy _Nq charge_yield", "light_yield")
def _(i, p, c):
    with np.errstate(divide="ignore", invalid="ignore"):
        a = np.where(i.energy > 0, i._Nq / i.energy, 0)
    v = (a - i.charge_yield) * (1 - 1 / (1 + (i.energy / p["theta"]) ** p["iota"]))
    return [(np.where(i.energy > 0, np.maximum(v, 0), 0), a + i.charge_yield)]


@formula("nestv2.MeanNphNe", "light_yield charge_yield energy", "_Nph _Ne")
def _(i, p, c):
    a, b = i.light_yield * i.energy, i.charge_yield * i.energy
    keep = a + b >= 1
    near = np.abs(a + b - 1) < 1e-5
    return [undecided(np.where(keep, v, 0), near) for v in (a, b)]


@formula("nestv2.MeanExcitonIon", "ThomasImel _Nph _Ne", "_Nex _Ni nex_ni_ratio alf elecFrac recombProb")
def _(i, p, c):
    x = i._Ne * i.ThomasImel / 4
    # an overflow of the exponential is beyond the model
    wild = x > 12
    x = np.minimum(x, 12)
    ni = 4 / i.ThomasImel * np.expm1(x)
    total = i._Nph + i._Ne
    nex = total - ni
    with np.errstate(divide="ignore", invalid="ignore"):
        ratio = np.where(ni > 0, nex / ni, 1)
        ratio_size = np.where(ni > 0, (total + ni) / ni, 1)
        alf = 1 / (1 + ratio)
        frac = electron_fraction(i)
        recomb = 1 - (ratio + 1) * frac
        # few ions of many quanta: ratio and fraction almost compensate
    alf_size = np.abs(alf) * (1 + ratio_size / np.abs(1 + ratio))
    return [
        (np.where(wild, 0, v), np.where(wild, np.nan, s))
        for v, s in [
            (nex, total + ni),
            (ni, ni),
            (ratio, ratio_size),
            (alf, alf_size),
            (frac, frac),
            (recomb, 1 + (ratio_size + 1) * frac),
        ]
    ]


@sampler("nestv2.TrueExcitonIonNR", "_Nph _Ne nex_ni_ratio alf", "Ni Nex Nq")
def _(rng, n, i, p, c):
    mean = (i._Nph + i._Ne) * i.alf
    ni = rounded_normal(rng, mean, np.sqrt(p["fano_ni"] * mean), n)
    mean = mean * i.nex_ni_ratio
    nex = rounded_normal(rng, mean, np.sqrt(p["fano_nex"] * mean), n)
    return [ni, nex, ni + nex]


@formula("nestv2.OmegaNR", "elecFrac recombProb Ni", "omega Variance")
def _(i, p, c):
    omega = p["A"] * np.exp(-0.5 * (i.elecFrac - p["xi"]) ** 2 / p["omega"] ** 2)
    return [omega, i.recombProb * (1 - i.recombProb) * i.Ni + omega**2 * i.Ni**2]


@sampler("nestv2.TruePhotonElectronNR", "recombProb Variance Ni Nex Nq", "num_photon num_electron")
def _(rng, n, i, p, c):
    # skew normal whose mean and variance are those of the recombination
    a = p["alpha2"]
    delta = a / np.sqrt(1 + a**2)
    scale = np.sqrt(i.Variance) / np.sqrt(1 - 2 / np.pi * delta**2)
    loc = (1 - i.recombProb) * i.Ni - scale * delta * np.sqrt(2 / np.pi)
    skewed = delta * np.abs(rng.normal(size=n)) + np.sqrt(1 - delta**2) * rng.normal(size=n)
    e = np.clip(np.round(loc + scale * skewed), 0, i.Ni)
    return [np.maximum(i.Nq - e, i.Nex), e]


@formula("nestv2.MonoEnergiesClipEff", "energy_center", "eff", clip_lower_energy=Const(0, 5), clip_upper_energy=Const(6, 50))
def _(i, p, c):
    lo, hi = c["clip_lower_energy"], c["clip_upper_energy"]
    near = (np.abs(i.energy_center - lo) < 1e-4) | (np.abs(i.energy_center - hi) < 1e-4)
    inside = (i.energy_center >= lo) & (i.energy_center <= hi)
    return [(inside * 1.0, np.where(near, np.nan, 1.0))]


@formula("nestv2.BandEnergiesClipEff", "energy", "eff")
def _(i, p, c):
    return [np.ones(i.energy.shape)]
