"""C21: the built-in physics conserves quanta and keeps probabilities and counts in bounds.

Every built-in plugin is executed on the full product of a lattice of inputs and a lattice of
parameters (corners of the domain and interior points) for a finite set of keys. The plugins are
called through their public interface with inputs by the names they declare.
"""

import itertools
import os

import jax
import numpy as np

import appletree as apt
import appletree.share as share
from mc import physics, toys

F = np.float32
I = np.int32


def grid(**axes):
    """All combinations as one array per name."""
    names = list(axes)
    cols = list(zip(*itertools.product(*axes.values())))
    return {n: physics.array(n, c) if n in physics.TYPICAL else np.asarray(c, dtype=F) for n, c in zip(names, cols)}


def take(data, mask):
    return {k: v[mask] for k, v in data.items()}


class Bench:
    """Runs plugins on lattices."""

    def __init__(self, r):
        self.r = r
        self.keys = np.stack([np.asarray(apt.randgen.get_key(s)) for s in range(12 if r.thorough else 4)])
        self.points = 0
        self.calls = 0
        self.done = set()
        self.classes = physics.classes()

    def make(self, name, options=()):
        toys.reset()
        apt.set_global_config(dict(options))
        cls = self.classes[name]
        return cls("llh")

    def run(self, name, parameters, data, options=(), key_axis=True):
        """parameters: name -> 1d array (all of one length P). Returns name -> array of shape
        (P, K, events...), with the inputs broadcast to the same shape."""
        p = self.make(name, options)
        self.done.add(name)
        names = sorted(parameters)
        size = len(parameters[names[0]]) if names else 1
        fixed = physics.parameters()
        keys = self.keys if key_axis else self.keys[:1]
        inputs = [data[d] if d == "batch_size" else np.asarray(data[d]) for d in p.depends_on]

        def one(key, *values):
            par = dict(fixed)
            par.update(zip(names, values))
            return tuple(p(key, par, *inputs)[1:])

        f = jax.vmap(one, in_axes=(0,) + (None,) * len(names))
        if names:
            f = jax.vmap(f, in_axes=(None,) + (0,) * len(names))
        out = f(keys, *[np.asarray(parameters[n], dtype=F) for n in names])
        self.calls += 1
        r = self.r
        if len(out) != len(p.provides):
            r.fail(f"{name}/one-array-per-output", name, got=len(out), want=len(p.provides))
        res = {}
        lead = (size, len(keys)) if names else (len(keys),)
        for k, v in zip(p.provides, out):
            v = np.asarray(v)
            res[k] = v if names else v[None]
        events = data["batch_size"] if "batch_size" in p.depends_on else len(inputs[0])
        for k, v in res.items():
            r.expect(
                v.shape[2:3] == (events,), f"{name}/aligned-with-inputs", name, output=k, shape=v.shape[len(lead):], events=events
            )
            bad = ~np.isfinite(v)
            if bad.any():
                at = tuple(np.argwhere(bad)[0])
                self.report(f"{name}/not-a-number", name, names, parameters, data, p.depends_on, at, output=k, value=float(v[at]))
        self.points += int(np.prod(next(iter(res.values())).shape))
        r.case((name, size, events), sample={"plugin": name, "parameters": size, "events": events})
        for n in names:
            res["@" + n] = np.asarray(parameters[n], dtype=F)[:, None, None]
        return res

    def report(self, sig, name, names, parameters, data, depends, at, **detail):
        point = {n: float(np.asarray(parameters[n])[at[0]]) for n in names}
        event = {d: float(np.asarray(data[d])[at[2]]) for d in depends if d in data and np.ndim(data[d])}
        self.r.fail(sig, {"plugin": name, "parameters": point, "event": event, "key": int(at[1])}, **detail)


def check(b, name, clause, ok, res=None, data=None, **shown):
    """ok: boolean array (P, K, events) or broadcastable."""
    ok = np.asarray(ok)
    if ok.all():
        return
    at = tuple(int(i) for i in np.argwhere(~ok)[0])
    def pick(v):
        v = np.asarray(v)
        v = np.broadcast_to(v, np.broadcast_shapes(v.shape, ok.shape))
        return float(v[at])
    b.r.fail(f"{name}/{clause}", {"plugin": name, "point": {k: pick(v) for k, v in shown.items()}, "index": at})


def whole(v):
    return np.round(v) == v


def between(v, lo, hi, tol=0.0):
    return (v >= np.asarray(lo) - tol) & (v <= np.asarray(hi) + tol)


def counts(b, name, what, v, parent, **shown):
    check(b, name, f"{what}-is-whole-number", whole(v), value=v, **shown)
    check(b, name, f"{what}-between-0-and-parent", between(v, 0, parent), value=v, parent=parent, **shown)


N = [0, 1, 2, 3, 10, 127, 128, 129, 1000, 40000]


def pars(**axes):
    return grid(**axes)


# ---------------------------------------------------------------------- detector
def maps(r):
    """Maps that vary with position, with values on both sides of 1."""
    d = os.path.join(r.scratch, "maps")
    os.makedirs(d, exist_ok=True)
    xy = [[0.5, 1.0, 1.5], [0.75, 1.25, 2.0], [1.0, 0.625, 1.75]]
    xyz = np.linspace(0.25, 3.0, 27).reshape(3, 3, 3)
    f = {}
    f["s1"] = toys.regbin_map(os.path.join(d, "s1.json"), [-70, -70, -140], [70, 70, 0], xyz, names=["x", "y", "z"])
    f["s2"] = toys.regbin_map(os.path.join(d, "s2.json"), [-70, -70], [70, 70], xy, names=["x", "y"])
    f["field"] = toys.regbin_map(os.path.join(d, "f.json"), [0, -150], [70, 0], [[10.0, 23.0], [50.0, 200.0]], names=["r", "z"])
    f["elife"] = toys.point_map(os.path.join(d, "e.json"), [0.0, 0.5, 1.0], [500.0, 10000.0, 20000.0], name="cdf")
    f["reso"] = toys.point_map(os.path.join(d, "pr.json"), [0, 100, 1000], [2.0, 0.5, 0.0], name="n")
    f["bias"] = toys.point_map(os.path.join(d, "b.json"), [0, 10, 100], [0.125, -0.125, 0.0], name="n")
    f["smear"] = toys.point_map(os.path.join(d, "sm.json"), [0, 10, 100], [0.0, 0.25, 0.125], name="n")
    f["eff_lo"] = toys.point_map(os.path.join(d, "l.json"), [0, 3, 10, 100], [0.0, 0.25, 0.75, 0.5], name="n")
    f["eff_md"] = toys.point_map(os.path.join(d, "m.json"), [0, 3, 10, 100], [0.0, 0.5, 0.875, 0.75], name="n")
    f["eff_hi"] = toys.point_map(os.path.join(d, "h.json"), [0, 3, 10, 100], [0.25, 0.625, 1.0, 1.0], name="n")
    f["ly"] = toys.point_map(os.path.join(d, "ly.json"), [0.5, 2.0, 10.0], [0.0, 4.0, 8.0], name="e")
    return f


XY = [0.0, 1.0, -25.0, 46.0, -46.0, 69.0]


def check_detector(b, f):
    run = b.run
    d = grid(num_photon=N, s1_lce=[0.0, 0.25, 1.0, 3.0, 20.0])
    o = run("detector.PhotonDetection", pars(g1=[0.0, 0.1515, 1.0], p_dpe=[0.0, 0.227, 1.0]), d)
    n, l = d["num_photon"], d["s1_lce"]
    v = o["num_s1_phd"]
    q = o["@g1"] * l / (1 + o["@p_dpe"])
    counts(b, "PhotonDetection", "detected-photons", v, n, g1=o["@g1"], p_dpe=o["@p_dpe"], lce=l)
    check(b, "PhotonDetection", "certain-detection", (q < 1.00001) | (v == n), value=v, parent=n, p=q)
    check(b, "PhotonDetection", "impossible-detection", (q > 0) | (v == 0), value=v, parent=n, p=q)

    d = grid(num_s1_phd=N)
    o = run("detector.S1PE", pars(p_dpe=[0.0, 0.227, 0.5, 1.0]), d)
    n, v, p = d["num_s1_phd"], o["num_s1_pe"], o["@p_dpe"]
    check(b, "S1PE", "photoelectrons-whole", whole(v), value=v)
    check(b, "S1PE", "photoelectrons-one-or-two-per-photon", between(v, n, 2 * n), value=v, photons=n, p=p)
    check(b, "S1PE", "single-or-double-certain", ((p > 0) | (v == n)) & ((p < 1) | (v == 2 * n)), value=v, photons=n, p=p)

    d = grid(num_electron=N, drift_survive_prob=[0.0, 1e-3, 0.5, 0.9, 1.0])
    o = run("detector.ElectronDrifted", {}, d)
    n, p, v = d["num_electron"], d["drift_survive_prob"], o["num_electron_drifted"]
    counts(b, "ElectronDrifted", "drifted-electrons", v, n, p=p)
    check(b, "ElectronDrifted", "certain-survival", ((p > 0) | (v == 0)) & ((p < 1) | (v == n)), value=v, parent=n, p=p)

    d = grid(z=[0.0, -1e-3, -13.35, -70.0, -133.97, -150.0])
    for opt in ({}, {"elife": f["elife"]}):
        o = run("detector.DriftLoss", pars(drift_velocity=[0.05, 0.0677, 0.2], elife_sigma=[-0.9, 0.0, 1.0, 5.0]), d, opt)
        v = o["drift_survive_prob"]
        check(b, "DriftLoss", "survival-probability-in-0-1", between(v, 0, 1), value=v, z=d["z"], sigma=o["@elife_sigma"])
        check(b, "DriftLoss", "no-drift-no-loss", (d["z"] != 0) | (v == 1), value=v, z=d["z"])

    d = grid(num_electron_drifted=N, s2_lce=[0.0, 0.5, 1.0, 2.0], x=[0.0, 45.0], y=[-45.0, 10.0])
    for opt, low in (({}, 1.0), ({"gas_gain_relative": f["s2"]}, 0.5)):
        P = pars(g2=[0.0, low * 16.45, low * 31.3], gas_gain=[31.3], p_dpe=[0.0, 0.227, 1.0])
        o = run("detector.S2PE", P, d, opt)
        v, n = o["num_s2_pe"], d["num_electron_drifted"]
        check(b, "S2PE", "whole", whole(v), value=v)
        check(b, "S2PE", "not-negative", v >= 0, value=v)
        none = (n == 0) | (d["s2_lce"] == 0) | (o["@g2"] == 0)
        check(b, "S2PE", "nothing-from-nothing", ~none | (v == 0), value=v, electrons=n, lce=d["s2_lce"])
        check(b, "S2PE", "pairs-when-always-double", (o["@p_dpe"] < 1) | (v % 2 == 0), value=v)
        some = (n >= 1000) & (d["s2_lce"] > 0) & (o["@g2"] > 1)
        check(b, "S2PE", "something-from-many", ~some | (v > 0), value=v, electrons=n)

    d = grid(x=XY, y=XY, z=[0.0, -13.35, -70.0, -133.97, -149.0])
    d = take(d, np.hypot(d["x"], d["y"]) < 69.5)
    for on, opt in itertools.product((False, True), ({}, {"efield_map": f["field"]})):
        lo, hi = (23.0, 23.0) if not opt else (10.0, 200.0)
        o = run("detector.EField", pars(field=[0.5, 23.0, 200.0]), d, dict(opt, efield_position_dependence=on))
        v = o["field"]
        if on:
            check(b, "EField", "within-map", between(v, lo, hi, 1e-3), value=v)
            if opt:
                hand = (v.std(axis=2) > 0).all()
                check(b, "EField", "map-followed", hand, value=v)
        else:
            check(b, "EField", "uniform-field", v == o["@field"], value=v)
    for plug, name, opt, lo, hi in (
        ("S1LCE", "s1_lce", {}, 1, 1),
        ("S1LCE", "s1_lce", {"s1_lce": f["s1"]}, 0.25, 3.0),
        ("S2LCE", "s2_lce", {}, 1, 1),
        ("S2LCE", "s2_lce", {"s2_lce": f["s2"]}, 0.5, 2.0),
    ):
        v = run("detector." + plug, {}, d, opt)[name]
        check(b, plug, "within-map", between(v, lo, hi, 1e-3), value=v, x=d["x"], y=d["y"], z=d["z"])


# ---------------------------------------------------------------------- electronic recoils
ENERGY = [0.0, 1e-6, 1e-3, 0.01, 0.1, 0.5, 1.0, 2.82, 10.0, 41.5, 200.0]


def check_er(b):
    run = b.run
    d = grid(energy=ENERGY + [5000.0])
    o = run("er_microphys.Quanta", pars(w=[0.01, 0.0137, 0.1], fano=[0.0, 0.059, 1.0]), d)
    v = o["num_quanta"]
    check(b, "Quanta", "whole", whole(v), value=v)
    check(b, "Quanta", "not-negative", v >= 0, value=v, energy=d["energy"])
    check(b, "Quanta", "zero-energy-zero-quanta", (d["energy"] > 0) | (v == 0), value=v, energy=d["energy"])
    m = d["energy"] / o["@w"]
    check(b, "Quanta", "mean-without-fluctuation", (o["@fano"] > 0) | (np.abs(v - m) <= 0.51 + 1e-5 * m), value=v, mean=m)

    d = grid(num_quanta=N)
    o = run("er_microphys.IonizationER", pars(nex_ni_ratio=[0.0, 0.06, 0.2, 1.0]), d)
    counts(b, "IonizationER", "ions", o["num_ion"], d["num_quanta"], ratio=o["@nex_ni_ratio"])
    check(b, "IonizationER", "no-excitons", (o["@nex_ni_ratio"] > 0) | (o["num_ion"] == d["num_quanta"]), value=o["num_ion"])

    d = grid(energy=ENERGY, field=[1.0, 23.0, 200.0, 1000.0])
    P = dict(w=[0.0131, 0.0143], nex_ni_ratio=[0.06, 0.2], py0=[0.0, 0.126, 1.0], py1=[1.0, 43.1], py2=[-1.0, -0.3, 0.0], py3=[0.0, 0.94, 5.0], py4=[0.05, 0.59, 3.0])
    o = run("er_microphys.mTI", pars(**P), d, key_axis=False)
    v = o["recomb_mean"]
    check(b, "mTI", "recombination-in-0-1", between(v, 0, 1), value=v, energy=d["energy"], field=d["field"])
    check(b, "mTI", "no-ions-no-recombination", (d["energy"] > 0) | (v == 0), value=v)
    # the two branches of the formula meet (a smooth function of energy)
    d = grid(energy=ENERGY)
    o = run("er_microphys.RecombFluct", pars(rf0=[0.0, 0.029, 0.5, 1.0, 3.0], rf1=[0.05, 0.26, 10.0]), d)
    v = o["recomb_std"]
    check(b, "RecombFluct", "fluctuation-in-0-1", between(v, 0, 1), value=v, energy=d["energy"])
    check(b, "RecombFluct", "zero-energy-no-fluctuation", (d["energy"] > 0) | (v == 0), value=v)

    d = grid(recomb_mean=[0.0, 0.01, 0.5, 0.99, 1.0], recomb_std=[0.0, 0.03, 0.5, 1.0])
    v = run("er_microphys.TrueRecombER", {}, d)["recomb"]
    check(b, "TrueRecombER", "probability", between(v, 0, 1), value=v, mean=d["recomb_mean"], std=d["recomb_std"])
    check(b, "TrueRecombER", "exact-without-fluctuation", (d["recomb_std"] > 0) | (v == d["recomb_mean"]), value=v)

    d = grid(num_quanta=N, num_ion=N, recomb=[0.0, 0.01, 0.5, 0.99, 1.0])
    d = take(d, d["num_ion"] <= d["num_quanta"])
    o = run("er_microphys.RecombinationER", {}, d)
    split(b, "RecombinationER", o, d["num_quanta"], d["num_ion"], recomb=d["recomb"])
    v, p = o["num_electron"], d["recomb"]
    check(b, "RecombinationER", "certain-recombination", ((p > 0) | (v == d["num_ion"])) & ((p < 1) | (v == 0)), value=v, p=p)


def split(b, name, o, quanta, ions, **shown):
    ph, el = o["num_photon"], o["num_electron"]
    counts(b, name, "electrons", el, ions, **shown)
    counts(b, name, "photons", ph, quanta, **shown)
    check(b, name, "photons-plus-electrons-is-quanta", ph + el == quanta, photons=ph, electrons=el, quanta=quanta, **shown)


def feed(o, data, names, size):
    """The outputs of one plugin as inputs of the next, events and parameter points flattened."""
    out = {}
    for k in names:
        v = o[k]
        out[k] = v[:, 0].reshape(-1)
    for k, v in data.items():
        out[k] = np.tile(v, size)
    return out


def check_er_nestv2(b):
    run, r = b.run, b.r
    rho = [2.8, 2.9]
    d = grid(energy=ENERGY)
    o = run("er_nestv2.ExcitonIonRatioER", pars(liquid_xe_density=[2.5, 2.8619, 3.0]), d)
    v, a = o["nex_ni_ratio"], o["alf"]
    check(b, "ExcitonIonRatioER", "ratio-not-negative", v >= 0, value=v)
    check(b, "ExcitonIonRatioER", "ion-fraction-in-0-1", between(a, 0, 1), value=a)
    check(b, "ExcitonIonRatioER", "ion-fraction-is-1-over-1-plus-ratio", np.isclose(a * (1 + v), 1, rtol=1e-5), value=a, ratio=v)

    base = grid(energy=ENERGY, field=[10.0, 23.0, 200.0])
    full = r.thorough
    P = pars(
        m1=[-20.0, -1.35, 20.0], m2=[60.0, 100.0], m3=[0.45, 0.55],
        m4=[2.0, 2.825] if full else [2.825], m7=[10.0, 99.13, 1000.0], m8=[2.0, 3.453, 10.0], m9=[0.15, 0.45],
        m10=[0.0, 0.117, 1.0], w=[0.0131, 0.0143] if full else [0.0137], liquid_xe_density=[2.8619, 2.9] if full else [2.9],
    )
    size = len(P["m1"])
    rat = b.run("er_nestv2.ExcitonIonRatioER", pars(liquid_xe_density=[2.9]), base)
    data = dict(base, nex_ni_ratio=rat["nex_ni_ratio"][0, 0])
    alf = rat["alf"][0, 0]
    o = run("er_nestv2.QyER", P, data, key_axis=False)
    cy = o["charge_yield"]
    check(b, "QyER", "yield-not-negative", cy >= 0, value=cy, energy=base["energy"])
    # one chain per parameter point: flatten (parameters, events)
    flat = feed(o, dict(data, alf=alf), ["charge_yield"], size)
    lyo = run("er_nestv2.LyER", pars(w=[0.0131, 0.0137, 0.0143]), flat, key_axis=False)
    check(b, "LyER", "yield-not-negative", lyo["light_yield"] >= 0, value=lyo["light_yield"])
    flat["light_yield"] = lyo["light_yield"][1, 0]
    m = run("er_nestv2.MeanNphNeER", {}, flat, key_axis=False)
    for k in ("_Nph", "_Ne"):
        check(b, "MeanNphNeER", "mean-not-negative", m[k] >= 0, value=m[k])
        check(b, "MeanNphNeER", "zero-energy-zero-mean", (flat["energy"] > 0) | (m[k] == 0), value=m[k])
        flat[k] = m[k][0, 0]
    m = run("er_nestv2.MeanExcitonIonER", {}, flat, key_axis=False)
    check(b, "MeanExcitonIonER", "electron-fraction-in-0-1", between(m["elecFrac"], 0, 1), value=m["elecFrac"])
    check(b, "MeanExcitonIonER", "recombination-in-0-1", between(m["recombProb"], 0, 1), value=m["recombProb"])
    flat["recombProb"], flat["elecFrac"] = m["recombProb"][0, 0], m["elecFrac"][0, 0]
    # thin the chain for the samplers: distinct parameter points, all energies
    keep = np.arange(len(flat["energy"])) % (1 if full else 7) == 0
    flat = {k: v[keep] for k, v in flat.items()}
    m = run("er_nestv2.FanoFactorER", pars(delta_f=[0.0, 1.0, 3.0, -0.0015, -0.1], liquid_xe_density=[2.8619, 2.9]), flat, key_axis=False)
    check(b, "FanoFactorER", "fano-factor-not-negative", m["fano_nq"] >= 0, value=m["fano_nq"], delta_f=m["@delta_f"])
    for fano in (m["fano_nq"][2, 0], m["fano_nq"][8, 0]):
        flat["fano_nq"] = fano
        t = run("er_nestv2.TrueExcitonIonER", {}, flat)
        ions(b, "TrueExcitonIonER", t, flat["_Nph"] + flat["_Ne"])
        flat["Ni"], flat["Nq"] = t["Ni"][0, 0], t["Nq"][0, 0]
        m2 = run("er_nestv2.OmegaER", pars(A_er=[0.0, 0.035, 0.2], xi_er=[0.3, 0.46], omega_er=[0.1, 0.205], alpha3_er=[-0.2, 0.0, 2.0]), flat, key_axis=False)
        variance(b, "OmegaER", m2, flat["Ni"])
        for i in (0, 17, 35):
            flat["Variance"] = m2["Variance"][i, 0]
            s = run("er_nestv2.TruePhotonElectronER", {}, flat)
            split(b, "TruePhotonElectronER", s, flat["Nq"], flat["Ni"])

    # each sampler on its own product
    d = grid(_Nph=[0.0, 0.3, 20.0, 3000.0], _Ne=[0.0, 0.3, 50.0, 3000.0], fano_nq=[0.0, 0.1, 1.0, 4.0], alf=[0.0, 0.5, 0.9, 1.0])
    t = run("er_nestv2.TrueExcitonIonER", {}, d)
    ions(b, "TrueExcitonIonER", t, d["_Nph"] + d["_Ne"])
    a = d["alf"]
    check(b, "TrueExcitonIonER", "all-or-no-ions", ((a > 0) | (t["Ni"] == 0)) & ((a < 1) | (t["Ni"] == t["Nq"])), ions=t["Ni"], quanta=t["Nq"], p=a)
    d = grid(recombProb=[0.0, 0.01, 0.5, 1.0], Variance=[0.0, 1.0, 100.0, 1e6], Ni=N, Nq=N)
    d = take(d, d["Ni"] <= d["Nq"])
    s = run("er_nestv2.TruePhotonElectronER", {}, d)
    split(b, "TruePhotonElectronER", s, d["Nq"], d["Ni"], variance=d["Variance"])
    exact_mean(b, "TruePhotonElectronER", s, d)
    d = grid(elecFrac=[0.0, 0.2, 0.46, 1.0], recombProb=[0.0, 0.01, 0.5, 1.0], Ni=N, _Ne=[0.0, 50.0], _Nph=[0.0, 20.0], field=[10.0, 200.0])
    m2 = run("er_nestv2.OmegaER", pars(A_er=[0.0, 0.035, 0.2], xi_er=[0.3, 0.46], omega_er=[0.1, 0.205], alpha3_er=[-0.2, 0.0, 2.0]), d, key_axis=False)
    variance(b, "OmegaER", m2, d["Ni"])
    d = grid(_Nph=[0.0, 20.0, 3000.0], _Ne=[0.0, 50.0, 3000.0])
    m = run("er_nestv2.MeanExcitonIonER", {}, dict(d, nex_ni_ratio=np.full(9, 0.1, F)), key_axis=False)
    check(b, "MeanExcitonIonER", "electron-fraction-in-0-1", between(m["elecFrac"], 0, 1), value=m["elecFrac"])
    check(b, "MeanExcitonIonER", "recombination-in-0-1", between(m["recombProb"], 0, 1), value=m["recombProb"])


def exact_mean(b, name, s, d):
    want = (1 - d["recombProb"]) * d["Ni"]
    ok = (d["Variance"] > 0) | (np.abs(s["num_electron"] - want) <= 0.51 + 1e-5 * want)
    check(b, name, "mean-without-fluctuation", ok, electrons=s["num_electron"], want=want)


def ions(b, name, t, mean):
    for k in ("Ni", "Nex", "Nq"):
        check(b, name, f"{k}-whole", whole(t[k]), value=t[k])
        check(b, name, f"{k}-not-negative", t[k] >= 0, value=t[k])
        check(b, name, f"zero-mean-zero-{k}", (mean > 0) | (t[k] == 0), value=t[k])
    check(b, name, "ions-plus-excitons-is-quanta", t["Ni"] + t["Nex"] == t["Nq"], ions=t["Ni"], excitons=t["Nex"], quanta=t["Nq"])


def variance(b, name, o, ni):
    check(b, name, "variance-not-negative", o["Variance"] >= 0, value=o["Variance"])
    check(b, name, "width-not-negative", o["omega"] >= 0, value=o["omega"])
    check(b, name, "no-ions-no-variance", (ni > 0) | (o["Variance"] == 0), value=o["Variance"])


# ---------------------------------------------------------------------- nuclear recoils
def check_nr_nestv2(b):
    run, r = b.run, b.r
    base = grid(energy=ENERGY, field=[10.0, 23.0, 200.0])
    o = run("nestv2.TotalQuanta", pars(alpha=[9.5, 11.0, 17.0], beta=[0.95, 1.1, 1.25]), base, key_axis=False)
    v = o["_Nq"]
    check(b, "TotalQuanta", "quanta-not-negative", v >= 0, value=v)
    check(b, "TotalQuanta", "zero-energy-zero-quanta", (base["energy"] > 0) | (v == 0), value=v)
    o = run("nestv2.ThomasImelBox", pars(gamma=[0.0417, 0.048, 0.0543], delta=[-0.0737, -0.0533, -0.0329], liquid_xe_density=[2.8619, 2.9]), base, key_axis=False)
    check(b, "ThomasImelBox", "positive", o["ThomasImel"] > 0, value=o["ThomasImel"])

    # one chain: parameters and events flattened as the model goes on
    A = pars(alpha=[9.5, 11.0, 17.0], beta=[0.95, 1.1, 1.25])
    o = run("nestv2.TotalQuanta", A, base, key_axis=False)
    flat = feed(o, base, ["_Nq"], len(A["alpha"]))
    for gamma, delta in itertools.product([0.0417, 0.0543], [-0.0737, -0.0329]) if r.thorough else [(0.0417, -0.0737), (0.0543, -0.0329)]:
        o = run("nestv2.ThomasImelBox", pars(gamma=[gamma], delta=[delta]), flat, key_axis=False)
        flat["ThomasImel"] = o["ThomasImel"][0, 0]
        B = pars(epsilon=[4.0, 12.6, 22.0], zeta=[0.05, 0.3, 0.6], eta=[-1.0, 0.5, 2.0, 5.0])
        o = run("nestv2.QyNR", B, flat, key_axis=False)
        check(b, "QyNR", "yield-not-negative", o["charge_yield"] >= 0, value=o["charge_yield"], energy=flat["energy"])
        f2 = feed(o, flat, ["charge_yield"], len(B["eta"]))
        C = pars(theta=[0.15, 0.3, 0.45], iota=[0.5, 2.0, 3.5])
        o = run("nestv2.LyNR", C, f2, key_axis=False)
        check(b, "LyNR", "yield-not-negative", o["light_yield"] >= 0, value=o["light_yield"], energy=f2["energy"])
        for row in range(len(C["iota"])) if r.thorough else (0, 4, 8):
            nr_rest(b, dict(f2, light_yield=o["light_yield"][row, 0]))
    d = grid(_Nph=[0.0, 0.3, 20.0, 3000.0], _Ne=[0.0, 0.3, 50.0, 3000.0], nex_ni_ratio=[0.0, 0.1, 1.0, 5.0])
    d["alf"] = (1 / (1 + d["nex_ni_ratio"])).astype(F)
    t = run("nestv2.TrueExcitonIonNR", pars(fano_ni=[0.0, 0.4, 1.0], fano_nex=[0.0, 0.4, 1.0]), d)
    ions(b, "TrueExcitonIonNR", t, d["_Nph"] + d["_Ne"])
    d = grid(elecFrac=[0.0, 0.2, 0.5, 1.0], recombProb=[0.0, 0.01, 0.5, 1.0], Ni=N)
    o = run("nestv2.OmegaNR", pars(A=[0.0, 0.04, 0.2], xi=[0.3, 0.5], omega=[0.1, 0.19]), d, key_axis=False)
    variance(b, "OmegaNR", o, d["Ni"])
    d = grid(recombProb=[0.0, 0.01, 0.5, 1.0], Variance=[0.0, 1.0, 100.0, 1e6], Ni=N, Nex=N)
    d["Nq"] = d["Ni"] + d["Nex"]
    s = run("nestv2.TruePhotonElectronNR", pars(alpha2=[-2.25, 0.0, 2.25]), d)
    split(b, "TruePhotonElectronNR", s, d["Nq"], d["Ni"])
    check(b, "TruePhotonElectronNR", "every-exciton-a-photon", s["num_photon"] >= d["Nex"], photons=s["num_photon"], excitons=d["Nex"])
    exact_mean(b, "TruePhotonElectronNR", s, d)


def nr_rest(b, f):
    run = b.run
    m = run("nestv2.MeanNphNe", {}, f, key_axis=False)
    for k in ("_Nph", "_Ne"):
        check(b, "MeanNphNe", "mean-not-negative", m[k] >= 0, value=m[k])
        check(b, "MeanNphNe", "zero-energy-zero-mean", (f["energy"] > 0) | (m[k] == 0), value=m[k])
        f[k] = m[k][0, 0]
    m = run("nestv2.MeanExcitonIon", {}, f, key_axis=False)
    ne, ti = f["_Ne"].astype(float), f["ThomasImel"].astype(float)
    ni = 4 / ti * np.expm1(ne * ti / 4)
    # the box model has a solution with a non-negative number of excitons (always so near the priors' means)
    ok = (f["_Nph"] + ne - ni > 1e-3 * (1 + ni)) & (ni < 1e6)
    b.physical = (b.physical[0] + int(ok.sum()), b.physical[1] + len(ok))
    check(b, "MeanExcitonIon", "ions-not-negative", m["_Ni"] >= 0, value=m["_Ni"])
    check(b, "MeanExcitonIon", "excitons-not-negative", ~ok | (m["_Nex"] >= -1e-2), value=m["_Nex"])
    check(b, "MeanExcitonIon", "ratio-not-negative", ~ok | (m["nex_ni_ratio"] >= 0), value=m["nex_ni_ratio"])
    check(b, "MeanExcitonIon", "ion-fraction-in-0-1", ~ok | between(m["alf"], 0, 1), value=m["alf"])
    check(b, "MeanExcitonIon", "electron-fraction-in-0-1", between(m["elecFrac"], 0, 1), value=m["elecFrac"])
    check(b, "MeanExcitonIon", "recombination-in-0-1", ~ok | between(m["recombProb"], 0, 1, 1e-3), value=m["recombProb"], ne=ne, nph=f["_Nph"])
    for k in ("nex_ni_ratio", "alf", "elecFrac", "recombProb"):
        f[k] = m[k][0, 0]
    f = {k: v[ok | (f["energy"] == 0)] for k, v in f.items()}
    keep = np.arange(len(f["energy"])) % (1 if b.r.thorough else 5) == 0
    f = {k: v[keep] for k, v in f.items()}
    t = run("nestv2.TrueExcitonIonNR", pars(fano_ni=[0.4]), f)
    ions(b, "TrueExcitonIonNR", t, f["_Nph"] + f["_Ne"])
    for k in ("Ni", "Nex", "Nq"):
        f[k] = t[k][0, 0]
    o = run("nestv2.OmegaNR", pars(A=[0.04]), f, key_axis=False)
    variance(b, "OmegaNR", o, f["Ni"])
    f["Variance"] = o["Variance"][0, 0]
    s = run("nestv2.TruePhotonElectronNR", pars(alpha2=[2.25]), f)
    split(b, "TruePhotonElectronNR", s, f["Nq"], f["Ni"])


def check_lyqy(b, f):
    run = b.run
    d = grid(energy=ENERGY)
    for plug, name, par, opt in (("LightYield", "light_yield", "t_ly", "ly_median"), ("ChargeYield", "charge_yield", "t_qy", "qy_median")):
        for o in ({}, {opt: f["ly"]}):
            v = run("lyqy." + plug, {par: [-2.0, -1.0, -0.5, 0.0, 1.0, 2.0]}, d, o)
            y = v[name]
            check(b, plug, "yield-not-negative", y >= 0, value=y, t=v["@" + par])
            check(b, plug, "no-yield-at-minus-one", (v["@" + par] > -1) | (y == 0), value=y)
            check(b, plug, "yield-scales", np.allclose(y, np.maximum(1 + v["@" + par], 0) * y[3:4]), value=y)
    d = grid(energy=ENERGY, light_yield=[0.0, 0.5, 8.0, 60.0])
    d["charge_yield"] = d["light_yield"]
    for plug, name in (("NumberPhoton", "num_photon"), ("NumberElectron", "num_electron")):
        v = run("lyqy." + plug, {}, d)[name]
        check(b, plug, "whole", whole(v), value=v)
        check(b, plug, "not-negative", v >= 0, value=v)
        check(b, plug, "nothing-from-nothing", (d["energy"] * d["light_yield"] > 0) | (v == 0), value=v)


# ---------------------------------------------------------------------- spectra and positions
def check_spectra(b, f):
    run, r = b.run, b.r
    n = 4000 if r.thorough else 500
    batch = {"batch_size": n}
    for lo, hi in ((0.01, 20.0), (0.5, 0.5), (2.0, 10.0), (0.0, 1.0)):
        v = run("common.UniformEnergySpectra", {}, batch, {"lower_energy": lo, "upper_energy": hi})["energy"]
        check(b, "UniformEnergySpectra", "energy-within-limits", between(v, F(lo), F(hi), 1e-5), value=v)
        if lo < hi:
            w = hi - lo
            r.expect(v.min() < lo + 0.1 * w and v.max() > hi - 0.1 * w, "UniformEnergySpectra/range-covered", (lo, hi))
        v = run("nestv2.UniformEnergiesSpectra", {}, batch, {"clip_lower_energy": lo, "clip_upper_energy": hi})["energy"]
        check(b, "UniformEnergiesSpectra", "energy-within-limits", between(v, F(lo), F(hi), 1e-5), value=v)
        if lo < hi:
            r.expect(v.min() < lo + 0.1 * w and v.max() > hi - 0.1 * w, "UniformEnergiesSpectra/range-covered", (lo, hi))
    for e in (0.0, 2.82, 41.5):
        v = run("common.MonoEnergySpectra", {}, batch, {"mono_energy": e})["energy"]
        check(b, "MonoEnergySpectra", "energy-is-the-line", v == F(e), value=v, want=e)
    v = run("common.FixedEnergySpectra", {}, batch)["energy"]
    check(b, "FixedEnergySpectra", "energy-within-spectrum", between(v, 0.3, 4.0, 1e-4), value=v)
    spec = toys.point_map(os.path.join(r.scratch, "spec.json"), [0.0, 0.5, 1.0], [1.0, 2.0, 8.0], name="cdf")
    v = run("common.FixedEnergySpectra", {}, batch, {"energy_spectrum": spec})["energy"]
    check(b, "FixedEnergySpectra", "energy-within-spectrum", between(v, 1, 8, 1e-4), value=v)
    for z0, z1, rm in ((-133.97, -13.35, 60.0), (-100.0, -99.0, 1.0), (-148.0, 0.0, 66.4), (-10.0, -5.0, 0.0)):
        o = run("common.PositionSpectra", {}, batch, {"z_min": z0, "z_max": z1, "r_max": rm})
        rr = np.hypot(o["x"].astype(float), o["y"].astype(float))
        check(b, "PositionSpectra", "inside-radius", between(rr, 0, rm, 1e-4 * (1 + rm)), radius=rr, limit=rm)
        check(b, "PositionSpectra", "inside-height", between(o["z"], z0, z1, 1e-3), z=o["z"], low=z0, high=z1)
        if rm:
            # the cylinder is filled: every quadrant, the outer half of the area, both ends
            q = o["x"], o["y"]
            quads = {(bool(a), bool(c)) for a, c in zip((q[0] > 0).ravel(), (q[1] > 0).ravel())}
            r.expect(len(quads) == 4, "PositionSpectra/all-quadrants", (z0, z1, rm), got=sorted(quads))
            r.expect((rr > 0.9 * rm).any() and (rr < 0.3 * rm).any(), "PositionSpectra/radii-covered", (z0, z1, rm))
            w = z1 - z0
            r.expect(o["z"].min() < z0 + 0.1 * w and o["z"].max() > z1 - 0.1 * w, "PositionSpectra/heights-covered", (z0, z1, rm))
    sets = [
        [["mu", "sigma_pos", "sigma_neg"], [[1.0], [0.1], [0.1]]],
        [["mu", "sigma_pos", "sigma_neg"], [[0.1, 1.0, 5.0], [2.0, 0.1, 0.5], [2.0, 0.2, 4.0]]],
    ]
    for s in sets:
        o = run("nestv2.MonoEnergiesSpectra", {}, batch, {"energy_twohalfnorm": s})
        mu = np.asarray(s[1][0], F)
        e, c = o["energy"], o["energy_center"]
        check(b, "MonoEnergiesSpectra", "energy-not-negative", e >= 0, value=e)
        r.expect(c.shape == e.shape and e.shape[-1] == len(mu), "MonoEnergiesSpectra/one-energy-per-line", s, shape=e.shape)
        r.expect(bool((c == mu).all()), "MonoEnergiesSpectra/center-is-the-line", s)


def check_clip(b):
    run = b.run
    d = grid(energy_center=[0.0, 0.49, 0.5, 1.0, 2.5, 2.51, 100.0])
    for lo, hi in ((0.5, 2.5), (1.0, 1.0), (0.0, 50.0)):
        v = run("nestv2.MonoEnergiesClipEff", {}, d, {"clip_lower_energy": lo, "clip_upper_energy": hi})["eff"]
        c = d["energy_center"]
        want = np.where((c >= F(lo)) & (c <= F(hi)), 1.0, 0.0)
        check(b, "MonoEnergiesClipEff", "weight-one-inside-zero-outside", v == want, value=v, want=want, center=c)
    d = grid(energy=ENERGY)
    for mod in ("nestv2", "er_nestv2"):
        if f"{mod}.BandEnergiesClipEff" in b.classes:
            v = run(f"{mod}.BandEnergiesClipEff", {}, d)["eff"]
            check(b, "BandEnergiesClipEff", "weight-one", v == 1, value=v)


# ---------------------------------------------------------------------- efficiency
def check_efficiency(b, f):
    run = b.run
    areas = [-5.0, 0.0, 1.0, 5.0, 99.0, 499.0, 500.0, 501.0, 1e5]
    d = grid(s2_area=areas)
    o = run("efficiency.S2Threshold", pars(s2_threshold=[0.0, 100.0, 500.0]), d)
    v, a, t = o["acc_s2_threshold"], d["s2_area"], o["@s2_threshold"]
    check(b, "S2Threshold", "nothing-below-everything-above", ((a >= t) | (v == 0)) & ((a <= t) | (v == 1)), value=v, area=a, threshold=t)
    check(b, "S2Threshold", "zero-or-one", (v == 0) | (v == 1), value=v)
    three = [f["eff_md"], f["eff_lo"], f["eff_hi"]]
    for plug, out, inp, opt, xs in (
        ("S1ReconEff", "acc_s1_recon_eff", "num_s1_phd", "s1_eff_3f", N),
        ("S1CutAccept", "cut_acc_s1", "s1_area", "s1_cut_acc", areas),
        ("S2CutAccept", "cut_acc_s2", "s2_area", "s2_cut_acc", areas),
    ):
        d = grid(**{inp: xs})
        for o in ({}, {opt: three}, {opt: f["eff_md"]}, {opt: three + ["my_sigma"]}):
            par = "my_sigma" if o and len(o[opt]) == 4 else opt + "_sigma"
            sig = [-5.0, -1.0, 0.0, 1.0, 5.0]
            res = run("efficiency." + plug, {par: sig}, d, o)
            v = res[out]
            check(b, plug, "efficiency-in-0-1", between(v, 0, 1), value=v, x=d[inp], sigma=res["@" + par])
            if o and isinstance(o[opt], list):
                spread = (np.ptp(v, axis=0) > 0).any()
                check(b, plug, "sigma-moves-the-efficiency", spread, value=v)
            flat = (np.ptp(v[1:4], axis=0) == 0).all()
            if o and not isinstance(o[opt], list):
                check(b, plug, "single-map-has-no-uncertainty", flat, value=v)
    ax = [0.0, 0.25, 0.5, 1.0]
    d = grid(acc_s2_threshold=[0.0, 1.0], acc_s1_recon_eff=ax, cut_acc_s1=ax, cut_acc_s2=ax)
    v = run("efficiency.Eff", {}, d)["eff"]
    want = d["acc_s2_threshold"] * d["acc_s1_recon_eff"] * d["cut_acc_s1"] * d["cut_acc_s2"]
    check(b, "Eff", "product-of-the-factors", np.isclose(v, want, rtol=1e-5), value=v, want=want)


# ---------------------------------------------------------------------- reconstruction
def check_reconstruction(b, f):
    run, r = b.run, b.r
    d = grid(x=[0.0, -25.0, 46.0], y=[0.0, 33.0], z=[-13.35, -133.97], num_electron_drifted=[0, 1, 100, 1000, 5000])
    for opt, quiet_from in (({}, None), ({"posrec_reso": f["reso"]}, 1000)):
        o = run("reconstruction.PositionRecon", {}, d, opt)
        x, y = o["rec_x"], o["rec_y"]
        check(b, "PositionRecon", "radius-of-the-position", np.isclose(o["rec_r"], np.hypot(x.astype(float), y), rtol=1e-4, atol=1e-4), r=o["rec_r"], x=x, y=y)
        check(b, "PositionRecon", "depth-kept", o["rec_z"] == d["z"], value=o["rec_z"], want=d["z"])
        if quiet_from:
            n = d["num_electron_drifted"]
            exact = np.isclose(x, d["x"], atol=1e-4) & np.isclose(y, d["y"], atol=1e-4)
            check(b, "PositionRecon", "exact-without-resolution", (n < quiet_from) | exact, x=x, want=d["x"])
            moved = ((x != d["x"]) & (y != d["y"])) | (n >= quiet_from)
            check(b, "PositionRecon", "both-coordinates-smeared", moved, x=x, y=y)
            differ = ((x - d["x"]) != (y - d["y"])) | (n >= quiet_from)
            check(b, "PositionRecon", "coordinates-smeared-independently", differ, x=x, y=y)
    for plug, inp, out, ob, os_ in (
        ("S1", "num_s1_pe", "s1_area", "s1_bias_3f", "s1_smear_3f"),
        ("S2", "num_s2_pe", "s2_area", "s2_bias", "s2_smear"),
    ):
        d = grid(**{inp: [0, 1, 5, 10, 50, 100, 10000]})
        for opt in ({}, {ob: f["bias"], os_: f["smear"]}):
            v = run("reconstruction." + plug, {}, d, opt)[out]
            n = d[inp]
            check(b, plug, "nothing-from-nothing", (n > 0) | (v == 0), value=v, n=n)
            if opt:
                bias = np.interp(n, [0, 10, 100], [0.125, -0.125, 0.0])
                std = np.interp(n, [0, 10, 100], [0.0, 0.25, 0.125])
                # twelve standard deviations: far outside anything a finite set of keys can show
                check(b, plug, "area-near-biased-count", np.abs(v - n * (1 + bias)) <= 12 * n * std + 1e-3 * (n + 1), value=v, n=n)
    d = grid(rec_x=XY, rec_y=XY, rec_z=[-1.0, -70.0, -139.0])
    for plug, out, opt, lo, hi in (
        ("S1Correction", "s1_correction", {"s1_correction": f["s1"]}, 0.25, 3.0),
        ("S2Correction", "s2_correction", {"s2_correction": f["s2"]}, 0.5, 2.0),
        ("S1Correction", "s1_correction", {}, 1.0, 1.0),
        ("S2Correction", "s2_correction", {}, 1.0, 1.0),
    ):
        v = run("reconstruction." + plug, {}, d, opt)[out]
        check(b, plug, "within-map", between(v, lo, hi, 1e-3), value=v)
        if opt:
            # the correction of a reconstructed position is the light collection of that position
            same = {"s1_lce": f["s1"]} if plug[1] == "1" else {"s2_lce": f["s2"]}
            q = {"x": d["rec_x"], "y": d["rec_y"], "z": d["rec_z"]}
            w = run("detector.S1LCE" if plug[1] == "1" else "detector.S2LCE", {}, q, same)["s1_lce" if plug[1] == "1" else "s2_lce"]
            check(b, plug, "correction-is-the-light-collection-map", np.isclose(v, w, rtol=1e-4), value=v, want=w)
    d = grid(s1_area=[-1.0, 0.0, 3.0, 100.0], s1_correction=[0.25, 1.0, 3.0])
    v = run("reconstruction.cS1", {}, d)["cs1"]
    check(b, "cS1", "area-over-correction", np.isclose(v, d["s1_area"] / d["s1_correction"], rtol=1e-5), value=v)
    d = grid(s2_area=[-1.0, 0.0, 300.0, 1e5], s2_correction=[0.25, 1.0, 3.0], drift_survive_prob=[0.25, 0.9, 1.0])
    v = run("reconstruction.cS2", {}, d)["cs2"]
    want = d["s2_area"] / d["s2_correction"] / d["drift_survive_prob"]
    check(b, "cS2", "area-over-correction-and-survival", np.isclose(v, want, rtol=1e-5), value=v, want=want)


# ---------------------------------------------------------------------- what is drawn
def moments(b, name, out, parameters, data, mean, std, options=()):
    """Average and spread of what a plugin draws, over many events and keys at every point of a lattice.
    The points are chosen away from the bounds of the outputs."""
    reps = 600 if b.r.thorough else 250
    size = len(next(iter(data.values())))
    o = b.run(name, parameters, {k: np.repeat(v, reps) for k, v in data.items()}, options)
    p = {k[1:]: v[:, :, 0].astype(float) for k, v in o.items() if k[0] == "@"}
    v = o[out].astype(float)
    v = v.reshape(v.shape[0], v.shape[1], size, reps)
    d = {k: x.astype(float) for k, x in data.items()}
    n = v.shape[1] * reps
    m, sd = np.broadcast_to(mean(p, d), (len(v), size)), np.broadcast_to(std(p, d), (len(v), size))
    got, spread = v.mean(axis=(1, 3)), v.std(axis=(1, 3))
    # six standard errors, and whole numbers
    tol = 6 * sd / np.sqrt(n) + 1e-3 * np.abs(m) + np.where((sd < 1) & whole(v).all(), 0.51, 1e-3)
    short = name.split(".")[1]
    shown = {"declared": m, **{k: np.broadcast_to(x, m.shape) for k, x in p.items()}, **{k: np.broadcast_to(x, m.shape) for k, x in d.items()}}
    check(b, short, f"{out}-scatters-around-its-mean", np.abs(got - m) <= tol, average=got, **shown)
    lo, hi = 0.8 * sd - 0.02, 1.25 * sd + 0.35
    check(b, short, f"{out}-has-its-spread", (spread >= lo) & (spread <= hi), spread=spread, width=sd, **shown)
    for x in np.ndindex(m.shape):
        b.r.case((name, out, "moments", x))


def check_moments(b, f):
    sq = np.sqrt
    binom = lambda n, p: sq(n * p * (1 - p))
    mo = lambda *a, **k: moments(b, *a, **k)
    q = lambda p, d: np.clip(p["g1"] * d["s1_lce"] / (1 + p["p_dpe"]), 0, 1)
    mo("detector.PhotonDetection", "num_s1_phd", pars(g1=[0.1515, 0.3], p_dpe=[0.0, 0.227, 1.0]), grid(num_photon=[3, 100, 1000], s1_lce=[0.5, 1.0, 1.75]),
       lambda p, d: d["num_photon"] * q(p, d), lambda p, d: binom(d["num_photon"], q(p, d)))
    mo("detector.S1PE", "num_s1_pe", pars(p_dpe=[0.0, 0.227, 0.75]), grid(num_s1_phd=[1, 3, 50, 1000]),
       lambda p, d: d["num_s1_phd"] * (1 + p["p_dpe"]), lambda p, d: binom(d["num_s1_phd"], p["p_dpe"]))
    mo("detector.ElectronDrifted", "num_electron_drifted", {}, grid(num_electron=[1, 3, 50, 1000], drift_survive_prob=[0.1, 0.5, 0.9, 0.99]),
       lambda p, d: d["num_electron"] * d["drift_survive_prob"], lambda p, d: binom(d["num_electron"], d["drift_survive_prob"]))

    relative = [np.ones(1)]

    def s2(p, d):
        e = p["g2"] / p["gas_gain"] / relative[0]
        return e, p["gas_gain"] * relative[0] * d["s2_lce"] / (1 + p["p_dpe"])

    def s2_std(p, d):
        e, gain = s2(p, d)
        n = d["num_electron_drifted"]
        var = n * e * gain + gain**2 * n * e * (1 - e)
        return sq((1 + p["p_dpe"]) ** 2 * var + n * e * gain * p["p_dpe"] * (1 - p["p_dpe"]))

    mo("detector.S2PE", "num_s2_pe", pars(g2=[8.0, 16.45, 30.0], gas_gain=[31.3], p_dpe=[0.0, 0.227, 0.75]), grid(num_electron_drifted=[1, 10, 200], s2_lce=[0.5, 1.5], x=[0.0], y=[10.0]),
       lambda p, d: d["num_electron_drifted"] * p["g2"] * d["s2_lce"], s2_std)
    # a gain that varies with position changes the spread, not the mean
    d = grid(num_electron_drifted=[1, 10, 200], s2_lce=[0.5, 1.5], x=[-40.0, 40.0], y=[-30.0, 45.0])
    relative[0] = b.run("detector.S2LCE", {}, d, {"s2_lce": f["s2"]})["s2_lce"][0, 0].astype(float)
    mo("detector.S2PE", "num_s2_pe", pars(g2=[5.0, 12.0], gas_gain=[31.3], p_dpe=[0.0, 0.227]), d,
       lambda p, d: d["num_electron_drifted"] * p["g2"] * d["s2_lce"], s2_std, options={"gas_gain_relative": f["s2"]})

    mean = lambda p, d: d["energy"] / p["w"]
    mo("er_microphys.Quanta", "num_quanta", pars(w=[0.01, 0.0137, 0.05], fano=[0.0, 0.059, 0.5]), grid(energy=[1.0, 2.82, 41.5]), mean, lambda p, d: sq(mean(p, d) * p["fano"]))
    mo("er_microphys.IonizationER", "num_ion", pars(nex_ni_ratio=[0.06, 0.2, 1.0]), grid(num_quanta=[1, 10, 200, 5000]),
       lambda p, d: d["num_quanta"] / (1 + p["nex_ni_ratio"]), lambda p, d: binom(d["num_quanta"], 1 / (1 + p["nex_ni_ratio"])))
    mo("er_microphys.TrueRecombER", "recomb", {}, grid(recomb_mean=[0.3, 0.5, 0.7], recomb_std=[0.0, 0.02, 0.05]), lambda p, d: d["recomb_mean"], lambda p, d: d["recomb_std"])
    # the widths are small numbers, their scale counts
    d = grid(num_quanta=[6000], num_ion=[1, 10, 200, 5000], recomb=[0.05, 0.4, 0.9])
    mo("er_microphys.RecombinationER", "num_electron", {}, d, lambda p, d: d["num_ion"] * (1 - d["recomb"]), lambda p, d: binom(d["num_ion"], d["recomb"]))

    d = grid(_Nph=[100.0, 900.0], _Ne=[150.0, 1000.0], fano_nq=[0.0, 0.1, 1.0, 4.0], alf=[0.1, 0.5, 0.9])
    total = lambda p, d: d["_Nph"] + d["_Ne"]
    mo("er_nestv2.TrueExcitonIonER", "Nq", {}, d, total, lambda p, d: sq(d["fano_nq"] * total(p, d)))
    for out, f in (("Ni", lambda a: a), ("Nex", lambda a: 1 - a)):
        mo("er_nestv2.TrueExcitonIonER", out, {}, d, lambda p, d: total(p, d) * f(d["alf"]),
           lambda p, d: sq(total(p, d) * d["alf"] * (1 - d["alf"]) + f(d["alf"]) ** 2 * d["fano_nq"] * total(p, d)))
    d = grid(_Nph=[150.0, 900.0], _Ne=[250.0, 1000.0], nex_ni_ratio=[0.25, 1.0, 3.0])
    d["alf"] = (1 / (1 + d["nex_ni_ratio"])).astype(F)
    P = pars(fano_ni=[0.0, 0.4, 1.0], fano_nex=[0.0, 0.5, 1.5])
    ni, nex = lambda d: total(None, d) * d["alf"], lambda d: total(None, d) * (1 - d["alf"])
    mo("nestv2.TrueExcitonIonNR", "Ni", P, d, lambda p, d: ni(d), lambda p, d: sq(p["fano_ni"] * ni(d)))
    mo("nestv2.TrueExcitonIonNR", "Nex", P, d, lambda p, d: nex(d), lambda p, d: sq(p["fano_nex"] * nex(d)))
    mo("nestv2.TrueExcitonIonNR", "Nq", P, d, total, lambda p, d: sq(p["fano_ni"] * ni(d) + p["fano_nex"] * nex(d)))
    d = grid(recombProb=[0.2, 0.5, 0.7], Variance=[0.0, 25.0, 400.0], Ni=[400, 2000], Nex=[100])
    d["Nq"] = d["Ni"] + d["Nex"]
    for name, par in (("er_nestv2.TruePhotonElectronER", {}), ("nestv2.TruePhotonElectronNR", pars(alpha2=[-2.25, 0.0, 1.0, 2.25]))):
        mo(name, "num_electron", par, d, lambda p, d: d["Ni"] * (1 - d["recombProb"]), lambda p, d: sq(d["Variance"]))
    for name, y, out in (("NumberPhoton", "light_yield", "num_photon"), ("NumberElectron", "charge_yield", "num_electron")):
        mo("lyqy." + name, out, {}, grid(energy=[0.25, 2.0, 40.0], **{y: [0.5, 8.0, 20.0]}), lambda p, d: d["energy"] * d[y], lambda p, d: sq(d["energy"] * d[y]))


def check_yields(b):
    """The yields account for all quanta, and the means are the yields times the energy."""
    run = b.run
    d = grid(charge_yield=[0.0, 10.0, 40.0, 69.0])
    o = run("er_nestv2.LyER", pars(w=[0.0131, 0.0137, 0.0143]), d, key_axis=False)
    check(b, "LyER", "yields-account-for-all-quanta", np.isclose(o["light_yield"] + d["charge_yield"], 1 / o["@w"], rtol=1e-4), light=o["light_yield"], charge=d["charge_yield"], w=o["@w"])
    for name in ("nestv2.MeanNphNe", "er_nestv2.MeanNphNeER"):
        d = grid(light_yield=[0.0, 0.5, 8.0, 60.0], charge_yield=[0.0, 0.25, 5.0, 40.0], energy=ENERGY)
        o = run(name, {}, d, key_axis=False)
        ph, el = d["light_yield"] * d["energy"].astype(float), d["charge_yield"] * d["energy"].astype(float)
        # fewer than one quantum may count as none
        some = ph + el >= 1.001
        for k, want in (("_Nph", ph), ("_Ne", el)):
            ok = np.isclose(o[k], want, rtol=1e-4) | (~some & ((o[k] == 0) | np.isclose(o[k], want, rtol=1e-4)))
            check(b, name.split(".")[1], "yield-times-energy", ok, value=o[k], want=want, energy=d["energy"])
    # light yield of a nuclear recoil: what charge leaves of all quanta, reduced at small energies
    d = grid(energy=[0.5, 3.0, 20.0], charge_yield=[1.0, 4.0])
    d["_Nq"] = (11 * d["energy"] ** 1.1).astype(F)
    o = run("nestv2.LyNR", pars(theta=[0.01, 0.3], iota=[2.0, 3.5]), d, key_axis=False)
    rest = d["_Nq"] / d["energy"] - d["charge_yield"]
    part = 1 - 1 / (1 + (d["energy"] / o["@theta"]) ** o["@iota"])
    check(b, "LyNR", "part-of-what-charge-leaves", np.isclose(o["light_yield"], rest * part, rtol=1e-3), value=o["light_yield"], want=rest * part)
    # quanta of the box model
    d = grid(ThomasImel=[0.03, 0.05], _Nph=[20.0, 200.0], _Ne=[15.0, 60.0])
    o = run("nestv2.MeanExcitonIon", {}, d, key_axis=False)
    tot = d["_Nph"] + d["_Ne"]
    check(b, "MeanExcitonIon", "ions-plus-excitons-is-quanta", np.isclose(o["_Ni"] + o["_Nex"], tot, rtol=1e-3), ions=o["_Ni"], excitons=o["_Nex"], quanta=tot)
    check(b, "MeanExcitonIon", "ratio-of-excitons-to-ions", np.isclose(o["nex_ni_ratio"] * o["_Ni"], o["_Nex"], rtol=1e-3, atol=1e-3), ratio=o["nex_ni_ratio"])
    check(b, "MeanExcitonIon", "ion-fraction", np.isclose(o["alf"] * tot, o["_Ni"], rtol=1e-3), value=o["alf"])
    check(b, "MeanExcitonIon", "electron-fraction", np.isclose(o["elecFrac"] * tot, d["_Ne"], rtol=1e-4), value=o["elecFrac"])
    check(b, "MeanExcitonIon", "electrons-are-the-ions-left", np.isclose((1 - o["recombProb"]) * o["_Ni"], d["_Ne"], rtol=1e-3), value=o["recombProb"])
    d = grid(_Nph=[20.0, 200.0], _Ne=[15.0, 60.0], nex_ni_ratio=[0.0, 0.06, 0.2])
    o = run("er_nestv2.MeanExcitonIonER", {}, d, key_axis=False)
    tot = d["_Nph"] + d["_Ne"]
    check(b, "MeanExcitonIonER", "electron-fraction", np.isclose(o["elecFrac"] * tot, d["_Ne"], rtol=1e-4), value=o["elecFrac"])
    ni = tot / (1 + d["nex_ni_ratio"])
    check(b, "MeanExcitonIonER", "electrons-are-the-ions-left", (ni < d["_Ne"]) | np.isclose((1 - o["recombProb"]) * ni, d["_Ne"], rtol=1e-3), value=o["recombProb"])
    # binomial fluctuations and those growing with the square
    d = grid(elecFrac=[0.1, 0.46, 0.8], recombProb=[0.0, 0.25, 1.0], Ni=[10, 1000], _Ne=[50.0], _Nph=[20.0], field=[23.0])
    for name, par in (("er_nestv2.OmegaER", pars(A_er=[0.0, 0.035])), ("nestv2.OmegaNR", pars(A=[0.0, 0.04]))):
        o = run(name, par, {k: v for k, v in d.items() if k in b.classes[name].depends_on}, key_axis=False)
        p, n, w = d["recombProb"], d["Ni"], o["omega"].astype(float)
        check(b, name.split(".")[1], "variance-of-recombination", np.isclose(o["Variance"], p * (1 - p) * n + (w * n) ** 2, rtol=1e-3, atol=1e-6), value=o["Variance"], width=w)


# ---------------------------------------------------------------------- every plugin, alone and aligned
def check_alignment(b):
    """One array per declared output and one entry per event, for one and for several events, and
    plugins that draw nothing treat every event by itself."""
    r = b.r
    par = physics.parameters()
    n = 0
    for name, cls in b.classes.items():
        p = b.make(name)
        key = apt.randgen.get_key(7)
        for size in (1, 3, 4) if r.thorough else (1, 3):
            data = [physics.typical(d, size) for d in p.depends_on]
            with r.guard("plugin", (name, size)):
                k, *out = p(key, par, *data)
                r.expect(len(out) == len(p.provides), f"{name}/one-array-per-output", (name, size), got=len(out), want=list(p.provides))
                for o, want in zip(out, p.provides):
                    r.expect(np.shape(o)[:1] == (size,), f"{name}/aligned-with-inputs", (name, size), output=want, shape=np.shape(o))
                    r.expect(bool(np.isfinite(np.asarray(o)).all()), f"{name}/not-a-number", (name, size), output=want)
                if "batch_size" not in p.depends_on and np.array_equal(np.asarray(k), np.asarray(key)):
                    _, *rev = p(key, par, *[d[::-1] for d in data])
                    for o, q, want in zip(out, rev, p.provides):
                        r.expect(np.allclose(np.asarray(o), np.asarray(q)[::-1], rtol=1e-5), f"{name}/event-by-event", (name, size), output=want)
                n += 1
                r.case((name, "alone", size))
    r.part("alone", cases=n, plugins=len(b.classes))


COMPONENTS = {
    "ERBand": {},
    "ERPeak": {},
    "NR": {},
    "ERBandNestV2": {},
    "ERPeakNestV2": {},
    "MonoEnergiesYields": {},
    "BandEnergiesYields": {},
}
YIELDS = ["energy", "_Nq", "light_yield", "charge_yield", "eff"]
SIGNALS = [
    "energy", "x", "y", "z", "num_photon", "num_electron", "num_electron_drifted", "num_s1_phd", "num_s1_pe", "num_s2_pe",
    "s1_area", "s2_area", "s1_correction", "s2_correction", "drift_survive_prob", "cs1", "cs2",
    "acc_s2_threshold", "acc_s1_recon_eff", "cut_acc_s1", "cut_acc_s2", "eff",
]
QUANTA = {"ERBand": "num_quanta", "ERPeak": "num_quanta", "ERBandNestV2": "Nq", "ERPeakNestV2": "Nq"}


def check_components(b, f):
    """The whole built-in models, event by event."""
    r = b.r
    par = physics.parameters()
    n = 0
    opts = {"s1_lce": f["s1"], "s1_correction": f["s1"], "s2_lce": f["s2"], "s2_correction": f["s2"], "elife": f["elife"]}
    opts["energy_twohalfnorm"] = [["mu", "sigma_pos", "sigma_neg"], [[0.1, 1.0, 5.0], [2.0, 0.1, 0.5], [2.0, 0.2, 4.0]]]
    for nm in COMPONENTS:
        cls = getattr(apt.components, nm, None)
        if cls is None:
            continue
        toys.reset()
        apt.set_global_config(opts)
        names = [x for x in (YIELDS if "Yields" in nm else SIGNALS) + [QUANTA.get(nm, "energy")] if x != "eff"] + ["eff"]
        names = list(dict.fromkeys(names))
        with r.guard("component", nm):
            c = cls(name="comp", llh_name="llh")
            c.rate_name = "er_rate"
            c.deduce(data_names=names, func_name="simulate_c21")
            c.compile()
            for seed in range(6 if r.thorough else 2):
                # several lines of energy are simulated as one event (as literature constraints do)
                for size in (1,) if nm == "MonoEnergiesYields" else ((1, 300) if r.thorough else (300,)):
                    key, out = c.simulate(apt.randgen.get_key(seed), size, par)
                    d = dict(zip(names, (np.asarray(v).astype(float) for v in out)))
                    n += 1
                    case = (nm, seed, size)
                    r.case(case)
                    r.expect(len(out) == len(names), f"{nm}/one-array-per-name", case)
                    width = 3 if nm == "MonoEnergiesYields" else size
                    for k, v in d.items():
                        r.expect(np.size(v) == width and np.isfinite(v).all(), f"{nm}/aligned-and-finite", case, name=k, shape=np.shape(v))
                    r.expect((between(d["eff"], 0, 1)).all() and (d["energy"] >= 0).all(), f"{nm}/bounds", case)
                    if "Yields" in nm:
                        r.expect((d["light_yield"] >= 0).all() and (d["charge_yield"] >= 0).all() and (d["_Nq"] >= 0).all(), f"{nm}/bounds", case)
                        continue
                    prod = d["acc_s2_threshold"] * d["acc_s1_recon_eff"] * d["cut_acc_s1"] * d["cut_acc_s2"]
                    r.expect(np.allclose(d["eff"], prod, rtol=1e-5), f"{nm}/efficiency-is-the-product", case)
                    r.expect((between(d["num_s1_phd"], 0, d["num_photon"])).all(), f"{nm}/detected-photons", case)
                    r.expect((between(d["num_s1_pe"], d["num_s1_phd"], 2 * d["num_s1_phd"])).all(), f"{nm}/photoelectrons", case)
                    r.expect((between(d["num_electron_drifted"], 0, d["num_electron"])).all(), f"{nm}/drifted-electrons", case)
                    r.expect((between(d["drift_survive_prob"], 0, 1)).all(), f"{nm}/survival", case)
                    r.expect(((d["num_electron_drifted"] > 0) | (d["num_s2_pe"] == 0)).all(), f"{nm}/no-electrons-no-s2", case)
                    r.expect(np.allclose(d["cs1"], d["s1_area"] / d["s1_correction"], rtol=1e-4), f"{nm}/cs1", case)
                    r.expect(np.allclose(d["cs2"], d["s2_area"] / d["s2_correction"] / d["drift_survive_prob"], rtol=1e-4), f"{nm}/cs2", case)
                    if nm in QUANTA:
                        r.expect((d["num_photon"] + d["num_electron"] == d[QUANTA[nm]]).all(), f"{nm}/photons-plus-electrons-is-quanta", case)
                    for k in ("num_photon", "num_electron", "num_s1_phd", "num_s1_pe", "num_electron_drifted", "num_s2_pe"):
                        r.expect((whole(d[k]) & (d[k] >= 0)).all(), f"{nm}/whole-counts", case, name=k)
    r.part("components", cases=n)


def run(r):
    r.rule = (
        "every built-in plugin on the full product of a lattice of inputs (zero, tiny, typical, threshold and large values) and "
        "a lattice of parameters (corners of the allowed ranges or three widths of the prior, and interior points) for a finite set of keys; "
        "the microphysics also as chains in which every plugin sees what the one before it returned"
    )
    r.assumptions = [
        "positive drift velocity, lifetime scale, field and work function; extraction probability at most one; "
        "nuclear-recoil parameters for which the box model has a non-negative number of excitons",
        "float32 rounding is tolerated where a limit is computed",
    ]
    b = Bench(r)
    b.physical = (0, 0)
    f = maps(r)
    for part in (
        lambda: check_detector(b, f),
        lambda: check_er(b),
        lambda: check_er_nestv2(b),
        lambda: check_nr_nestv2(b),
        lambda: check_lyqy(b, f),
        lambda: check_spectra(b, f),
        lambda: check_clip(b),
        lambda: check_efficiency(b, f),
        lambda: check_reconstruction(b, f),
        lambda: check_moments(b, f),
        lambda: check_yields(b),
        lambda: check_alignment(b),
        lambda: check_components(b, f),
    ):
        if r.turn():
            with r.guard("physics"):
                part()
    missing = [n for n in b.classes if n not in b.done]
    r.part("lattice", points=b.points, calls=b.calls, keys=len(b.keys), only_typical=missing)
    r.part("nuclear_recoil_points", with_solution=b.physical[0], all=b.physical[1])
    r.states = b.points
    r.traces = b.points
    toys.reset()
