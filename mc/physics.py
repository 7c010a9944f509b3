"""The built-in plugins with typical inputs and parameters."""

import inspect
import os

import numpy as np

import appletree as apt
from appletree.utils import load_json

F = np.float32


def classes():
    """Every built-in plugin class, by name (from the modules of the package, not registered toys)."""
    out = {}
    for modname in sorted(dir(apt.plugins)):
        mod = getattr(apt.plugins, modname)
        if not inspect.ismodule(mod) or not mod.__name__.startswith("appletree.plugins"):
            continue
        for name in sorted(dir(mod)):
            cls = getattr(mod, name)
            if isinstance(cls, type) and issubclass(cls, apt.Plugin) and cls is not apt.Plugin:
                out[f"{modname}.{name}"] = cls
    return out


def parameters():
    out = {}
    for f in ["nestv2.json", "nr_low.json", "er_nestv2.json", "er.json"]:
        for k, v in load_json(f).items():
            out[k] = float(v["prior_args"]["val"] if v["prior_type"] == "fixed" else v["init_mean"])
    out["liquid_xe_density"] = 2.8619
    return out


# typical values of every data name: (values, is a count)
TYPICAL = {
    "batch_size": None,
    "energy": [1.0, 5.0, 12.0],
    "energy_center": [1.0, 5.0, 12.0],
    "x": [0.0, 20.0, -30.0],
    "y": [5.0, -25.0, 40.0],
    "z": [-20.0, -60.0, -120.0],
    "field": [23.0, 23.0, 23.0],
    "s1_lce": [0.9, 1.0, 1.2],
    "s2_lce": [0.9, 1.0, 1.1],
    "num_quanta": [70, 350, 900],
    "num_ion": [60, 310, 800],
    "recomb_mean": [0.1, 0.3, 0.5],
    "recomb_std": [0.01, 0.03, 0.03],
    "recomb": [0.1, 0.3, 0.5],
    "num_photon": [20, 150, 500],
    "num_electron": [50, 200, 400],
    "num_s1_phd": [3, 20, 60],
    "num_s1_pe": [4, 24, 75],
    "num_electron_drifted": [30, 150, 350],
    "drift_survive_prob": [0.9, 0.8, 0.7],
    "num_s2_pe": [800.0, 4000.0, 9000.0],
    "s1_area": [4.0, 24.0, 75.0],
    "s2_area": [800.0, 4000.0, 9000.0],
    "rec_x": [0.0, 20.0, -30.0],
    "rec_y": [5.0, -25.0, 40.0],
    "rec_z": [-20.0, -60.0, -120.0],
    "rec_r": [5.0, 32.0, 50.0],
    "s1_correction": [0.9, 1.0, 1.2],
    "s2_correction": [0.9, 1.0, 1.1],
    "acc_s2_threshold": [1.0, 0.0, 1.0],
    "acc_s1_recon_eff": [0.5, 1.0, 0.9],
    "cut_acc_s1": [0.9, 0.8, 1.0],
    "cut_acc_s2": [0.7, 0.9, 1.0],
    "light_yield": [20.0, 30.0, 40.0],
    "charge_yield": [50.0, 45.0, 35.0],
    "_Nph": [20.0, 150.0, 480.0],
    "_Ne": [50.0, 225.0, 420.0],
    "_Nq": [11.0, 60.0, 160.0],
    "ThomasImel": [0.04, 0.04, 0.04],
    "nex_ni_ratio": [0.1, 0.2, 0.9],
    "alf": [0.9, 0.83, 0.53],
    "elecFrac": [0.7, 0.6, 0.47],
    "recombProb": [0.1, 0.28, 0.4],
    "fano_nq": [1.0, 1.0, 1.0],
    "Ni": [60, 310, 700],
    "Nex": [10, 65, 200],
    "Nq": [70, 375, 900],
    "omega": [0.03, 0.04, 0.02],
    "Variance": [6.0, 100.0, 900.0],
}
COUNTS = {"num_quanta", "num_ion", "num_photon", "num_electron", "num_s1_phd", "num_s1_pe", "num_electron_drifted", "Ni", "Nex", "Nq"}


def array(name, values):
    return np.asarray(values, dtype=np.int32 if name in COUNTS else F)


def typical(name, size=3):
    if name == "batch_size":
        return size
    v = TYPICAL[name]
    return array(name, [v[i % len(v)] for i in range(size)])
