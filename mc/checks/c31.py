"""C31: the bundled components, parameters, maps, instructions and contexts work together as shipped."""

import contextlib
import glob
import io
import itertools
import json
import os
import warnings

import numpy as np
import pandas as pd

import appletree as apt
import appletree.share as share
from appletree import randgen
from mc import toys

PKG = os.path.dirname(apt.__file__)
SIM = {
    "ERBand": "uniform",
    "ERPeak": "mono",
    "ERBandNestV2": "uniform",
    "ERPeakNestV2": "mono",
    "NR": "spectrum",
    "MonoEnergiesYields": "monos",
    "BandEnergiesYields": "band",
}
INSTRUCTS = ["rn220", "rn220_ar37", "neutron_low", "literature_lyqy"]
CLASSES = {"rn220": "ContextRn220", "rn220_ar37": "ContextRn220Ar37"}
# parameters a bundled file does not have because its instruction needs none
EXTRA = {"field": 100.0, "s1_eff_3f_sigma": 0.0}


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def read(kind, name):
    with open(os.path.join(PKG, kind, name + ".json")) as f:
        return json.load(f)


def start(par):
    """The central values of a parameter file."""
    return {k: v["prior_args"]["val"] if v["prior_type"] == "fixed" else v["init_mean"] for k, v in par.items()}


def fresh(configs):
    toys.reset()
    apt.set_global_config(configs)


# ------------------------------------------------------------------------------------------- components
def settings(r, kind):
    """Options of the energy spectrum and the energies they allow."""
    if kind == "uniform":
        for lo, up in ((0.01, 20.0), (5.0, 6.0), (1.0, 1.5)):
            yield {"lower_energy": lo, "upper_energy": up}, lo, up
    elif kind == "mono":
        for e in (2.82, 0.5, 10.0):
            yield {"mono_energy": e}, e, e
    elif kind == "spectrum":
        m = read("maps", "_nr_spectrum")["map"]
        yield {}, min(m), max(m)
        for lo, up in ((1.0, 2.0), (8.0, 9.0)):
            d = dict(coordinate_type="point", coordinate_name="cdf", coordinate_system=[0.0, 1.0], map=[lo, up])
            yield {"energy_spectrum": toys.write_json(os.path.join(r.scratch, f"spec{lo}.json"), d)}, lo, up


UNIT = ("eff", "recomb", "recomb_mean", "drift_survive_prob", "cut_acc_s1", "cut_acc_s2", "acc_s1_recon_eff")
COUNTS = ("num_ion", "num_quanta", "num_photon", "num_electron", "num_electron_drifted", "num_s1_phd", "num_s1_pe", "num_s2_pe")


def judge_outputs(r, names, out, lo, up, batch, wide_spectrum, case):
    out = {n: np.asarray(o, dtype=float) for n, o in zip(names, out)}
    for n, o in out.items():
        r.expect(o.shape == (batch,), "one-value-per-event", case, name=n, got=o.shape)
        r.expect(bool(np.all(np.isfinite(o))), "finite-values", case, name=n)
        if n in UNIT:
            r.expect(bool(np.all((o >= 0) & (o <= 1 + 1e-6))), "probability-within-0-and-1", case, name=n, got=[o.min(), o.max()])
        if n in COUNTS:
            r.expect(bool(np.all((o >= 0) & (o == np.round(o)))), "counts-are-counts", case, name=n, got=[o.min(), o.max()])
    e = out["energy"]
    tol = 1e-5 * max(abs(lo), abs(up))
    r.expect(bool(np.all((e >= lo - tol) & (e <= up + tol))), "energy-within-the-declared-spectrum", case, got=[e.min(), e.max()], want=[lo, up])
    if up > lo and batch > 1 and wide_spectrum:
        # flat in what the settings declare: 1 - 40/n can not be missed by chance
        r.expect(np.ptp(e) > (up - lo) * max(0.5, 1 - 40 / batch), "energy-covers-the-declared-spectrum", case, got=[e.min(), e.max()], want=[lo, up])
    if "num_electron_drifted" in out:
        r.expect(bool(np.all(out["num_electron_drifted"] <= out["num_electron"])), "drift-loses-electrons-only", case)
    return out


def base_of(cls):
    if cls == "NR":
        return read("instructs", "neutron_low")["configs"], read("parameters", "nr_low")
    return read("instructs", "rn220")["configs"], read("parameters", "er_nestv2" if "Nest" in cls else "er")


def check_components(r):
    n = 0
    for cls, kind in SIM.items():
        if kind in ("monos", "band"):
            continue
        configs, par = base_of(cls)
        P = {**EXTRA, **start(par), "c_rate": 1.0}
        for i, (opt, lo, up) in enumerate(settings(r, kind)):
            for wide in (False, True) if i == 0 or r.thorough else (False,):
                if not r.turn():
                    continue
                case = ("component", cls, opt, "all" if wide else "energy and position")
                fresh({**configs, **opt})
                with r.guard("component", case):
                    c = getattr(apt.components, cls)(name="c", llh_name="l")
                    c.rate_name = "c_rate"
                    names = ["energy", "x", "y", "z"]
                    if wide:
                        names = [x for x in c._plugin_class_registry if x not in ("batch_size", "eff")] + ["eff"]
                        need = {"energy", "x", "y", "z", "cs1", "cs2", "eff", "num_s1_phd", "rec_r"}
                        r.expect(need <= set(names), "provides-signals-and-efficiencies", case, missing=sorted(need - set(names)))
                    quiet(c.deduce, list(names), force_no_eff=not wide)
                    quiet(c.compile)
                    r.expect(set(c.needed_parameters) <= set(P), "parameters-in-the-bundled-file", case, missing=sorted(set(c.needed_parameters) - set(P)))
                    for batch in ((1, 64, 2000, 10000) if r.thorough else (1, 64, 2000)) if not wide else ((400, 5000) if r.thorough else (400,)):
                        key, out = c.simulate(randgen.get_key(batch), batch, P)
                        r.case((case, batch))
                        n += 1
                        judge_outputs(r, names, out, lo, up, batch, bool(opt), case)
    r.part("components", simulations=n)


# --------------------------------------------------------------------------------------------- contexts
def selected(spec):
    """The data inside the clip range, counted from the bundled file."""
    f = os.path.join(PKG, "data", spec["data_file_name"])
    d = pd.read_csv(f) if f.endswith("csv") else pd.read_pickle(f)
    on = spec["bins_on"]
    on = [on] if isinstance(on, str) else on
    mask = np.ones(len(d), bool)
    for name, clip in zip(on, (spec["x_clip"], spec["y_clip"])):
        mask &= (d[name] > clip[0]).values & (d[name] < clip[1]).values
    return int(mask.sum())


def wired(spec, L, p):
    """Whether likelihood L is to follow parameter p, by the instruction and the needs of its plugins."""
    alias = spec.get("parameter_alias", {})
    if p in alias:
        return True
    inner = set()
    for name, c in L.components.items():
        for q in c.needed_parameters:
            inner.add(spec["copy_parameters"].get(q, q))
    return p in inner and p not in alias.values()


def answers(L, P, lit, batch):
    """What a likelihood says about parameters, from one key."""
    if lit:
        # one event per evaluation, several keys
        return [np.array([L.get_log_likelihood(randgen.get_key(k), 1, dict(P))[1] for k in range(1 if lit == "mono" else 8)])]
    _, out = L.simulate_weighted_data(randgen.get_key(5), batch, dict(P))
    return [np.asarray(o) for o in out]


def differ(a, b):
    return any(x.shape != y.shape or not np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def check_context(r, name):
    ins = read("instructs", name)
    pc = read("parameters", ins["par_config"][:-5])
    lit_file = name == "literature_lyqy"
    # few of the neutron events are in the range of the data
    batch = 5000 if name == "neutron_low" else 400
    toys.reset()
    n = 0
    with r.guard("context", (name,)):
        ctx = quiet(apt.Context, name + ".json")
        case = (name, "wired")
        r.case(case)
        r.expect(list(ctx.likelihoods) == list(ins["likelihoods"]), "likelihoods-of-the-instruction", case)
        want = {k: v for k, v in pc.items()}
        for k, v in ctx.par_manager.par_config.items():
            src = next((s["copy_parameters"][k] for s in ins["likelihoods"].values() if k in s["copy_parameters"]), k)
            r.expect(v == want.get(src), "parameters-of-the-bundled-file", case, parameter=k, got=v, want=want.get(src))
        ctx.par_manager.sample_init()
        P = dict(ctx.par_manager.get_all_parameter())
        P.update({k: want[k]["init_mean"] for k in ctx.par_manager.parameter_fit if k in want})
        if name == "neutron_low":
            # few of the bundled low-energy events are above the threshold of the file
            P["s2_threshold"] = 50.0
        kinds = {}
        for lname, spec in ins["likelihoods"].items():
            L = ctx[lname]
            comps = {k: v if isinstance(v, str) else v["component_cls"] for k, v in spec["components"].items()}
            r.expect({k: type(c).__name__ for k, c in L.components.items()} == comps, "components-of-the-instruction", case, llh=lname)
            kinds[lname] = lit_file and ("mono" if "MonoEnergiesYields" in comps.values() else "band")
            if lit_file:
                continue
            r.expect(float(np.sum(L.data_hist)) == selected(spec), "all-selected-data-binned", case, llh=lname, got=float(np.sum(L.data_hist)), want=selected(spec))
            # the declared rates are the expected number of events
            rates = sorted({k + "_rate" for k in comps})
            for f in itertools.product((1.0, 3.0), repeat=len(rates)):
                Q = {**P, **{k: P[k] * x for k, x in zip(rates, f)}}
                got = float(quiet(L.get_num_events_accepted, batch, Q))
                want_n = sum(Q[k] for k in rates)
                r.case((name, lname, "rates", f))
                n += 1
                r.expect(abs(got - want_n) <= 2e-3 * want_n, "rates-are-the-expected-counts", (name, lname, f), got=got, want=want_n)
        # every fitted parameter is followed by the likelihoods it belongs to, and by no other
        base = {k: quiet(answers, L, P, kinds[k], batch) for k, L in ctx.likelihoods.items()}
        r.expect(not any(np.isnan(x).any() for o in base.values() for x in o), "finite-values", case)
        for p in sorted(set(P)):
            if any(p in s["copy_parameters"] or p in s["copy_parameters"].values() for s in ins["likelihoods"].values()):
                continue  # rates are judged above
            moves = ([0.5, 3.0] if P[p] else [1.0, -1.0]) + ([0.9, 1.1, 2.0] if r.thorough else [])
            follows = needs = False
            for lname, L in ctx.likelihoods.items():
                changed = False
                for m in moves:
                    out = quiet(answers, L, {**P, p: P[p] * m if P[p] else m}, kinds[lname], batch)
                    r.case((name, lname, p, m))
                    n += 1
                    changed |= differ(base[lname], out)
                if wired(ins["likelihoods"][lname], L, p):
                    needs, follows = True, follows or changed
                else:
                    r.expect(not changed, "no-other-likelihood-follows-the-parameter", (name, lname, p))
            # the bundled maps have no width, their scaling changes nothing
            if needs and p in ctx.par_manager.parameter_fit and "_sigma" not in p:
                r.expect(follows, "a-likelihood-follows-the-parameter", (name, p))
        lp = quiet(ctx.log_posterior, {k: P[k] for k in ctx.par_manager.parameter_fit}, batch_size=1 if lit_file else batch)
        r.expect(not np.isnan(lp[0] if isinstance(lp, tuple) else lp), "posterior-is-a-number", case)
        if name in CLASSES:
            toys.reset()
            ctx2 = quiet(getattr(apt, CLASSES[name]))
            r.expect(list(ctx2.likelihoods) == list(ctx.likelihoods), "context-class-is-its-instruction", case)
            r.expect(ctx2.par_manager.par_config == ctx.par_manager.par_config, "context-class-is-its-instruction", case)
            for k in ctx.likelihoods:
                r.expect(not differ(base[k], quiet(answers, ctx2[k], P, False, batch)), "context-class-is-its-instruction", case, llh=k)
    r.part("context-" + name, evaluations=n)


# ---------------------------------------------------------------------------------- parameters and maps
def check_files(r):
    n = 0
    for path in sorted(glob.glob(os.path.join(PKG, "parameters", "*.json"))):
        name = os.path.basename(path)
        pc = json.load(open(path))
        case = ("parameters", name)
        r.case(case)
        with r.guard("parameters", case):
            got = quiet(apt.Context, {"likelihoods": {}, "par_config": name}).get_parameter_config(name)
            r.expect(got == pc, "file-read-as-written", case)
            M = apt.Parameter(pc)
            r.expect(M.parameter_fit == sorted(k for k, v in pc.items() if v["prior_type"] != "fixed"), "fitted-are-those-not-fixed", case)
            for how in ("sample_init", "sample_prior"):
                getattr(M, how)()
                for k, v in M.get_all_parameter().items():
                    s = pc[k]
                    n += 1
                    r.case((case, how, k))
                    if s["prior_type"] == "fixed":
                        r.expect(v == s["prior_args"]["val"], "fixed-value-of-the-file", case, parameter=k)
                    else:
                        r.expect(s["allowed_range"][0] <= v <= s["allowed_range"][1], "within-the-allowed-range", case, parameter=k, got=v)
                r.expect(np.isfinite(M.log_prior), "start-has-a-prior", case, how=how)
    for path in sorted(glob.glob(os.path.join(PKG, "maps", "*.json"))):
        name = os.path.basename(path)
        d = json.load(open(path))
        case = ("map", name)
        r.case(case)
        toys.reset()
        with r.guard("map", case):
            m = apt.Map(name="m", default=name, method="LERP")
            quiet(m.build, "l")
            if "point" in d["coordinate_type"]:
                # the pdf of the file is read as the cdf; anything else has the values of the file
                if d["coordinate_name"] != "pdf":
                    at = np.asarray(d["coordinate_system"], float)
                    got = np.asarray(m.apply(at))
                    # nodes that single precision can not tell apart are left out
                    f = at.astype(np.float32)
                    far = (np.diff(f, prepend=-np.inf) > 1e-6 * np.abs(f)) & (np.diff(f, append=np.inf) > 1e-6 * np.abs(f))
                    r.expect(np.allclose(got[far], np.asarray(d["map"])[far], rtol=1e-3, atol=1e-3 * np.ptp(d["map"])), "values-of-the-file-at-its-nodes", case)
            else:
                lo, up = d["coordinate_lowers"], d["coordinate_uppers"]
                pos = np.array(list(itertools.product(*zip(lo, up))))
                if len(lo) == 1:
                    pos = pos[:, 0]
                got = np.asarray(m.apply(pos)).reshape(-1)
                t = np.asarray(d["map"], float)
                r.expect(bool(np.all((got >= t.min() - 1e-4 * abs(t.min())) & (got <= t.max() + 1e-4 * abs(t.max())))), "values-within-those-of-the-file", case)
            n += 1
    r.part("files", cases=n)


def run(r):
    r.rule = "one case per simulation, move of a parameter, parameter of a file or map"
    r.assumptions = ["the bundled files are those next to the code"]
    warnings.simplefilter("ignore")
    for name in INSTRUCTS:
        if r.turn():
            check_context(r, name)
    check_components(r)
    if r.turn():
        check_files(r)
    toys.reset()
    r.states += r.evaluations
    r.transitions += r.evaluations
