"""C12: maps with uncertainty shift by the right band and name their parameter."""

import itertools
import os

import jax
import numpy as np

import appletree as apt
import appletree.share as share
from mc import toys

F = np.float32
X = [0.0, 1.0, 2.0]
Q = [0.0, 0.5, 1.0, 1.25, 2.0, -3.0, 5.0]
SIGMAS = [-300.0, -5.0, -3.0, -1.0, -0.5, -1e-3, 0.0, 1e-3, 0.25, 1.0, 2.0, 4.5, 40.0]
# values at the nodes of the files: ordered bands, crossing bands, one-sided, constant
VALUES = {
    "a": [1.0, 2.0, 4.0],
    "b": [0.5, 1.0, 3.5],
    "c": [3.0, 2.5, 9.0],
    "d": [2.0, 1.0, 0.0],
    "e": [1.0, 1.0, 1.0],
}


def files(r):
    out = {}
    for k, v in VALUES.items():
        p = os.path.join(r.scratch, f"c12_{k}.json")
        toys.point_map(p, X, v)
        out[k] = p
    return out


def ref(setting, x, sigma):
    """setting: (median, lower, upper)."""
    m, lo, up = (np.interp(x, X, VALUES[k]) for k in setting)
    return m + sigma * ((up - m) if sigma > 0 else (m - lo))


def form(P, setting, scaler):
    """How a setting is written down."""
    if isinstance(setting, str):
        return P[setting]
    return [P[k] for k in setting] + ([scaler] if scaler else [])


def triple(setting):
    return (setting,) * 3 if isinstance(setting, str) else setting


def plugin_of(default, name="mc_map", cname="C12P", method="LERP"):
    def f(self, key, parameters, batch_size):
        pos = parameters["pos"]
        return key, getattr(self, name).apply(pos, parameters)

    return toys.plugin(cname, ["batch_size"], ["a"], f, (), [apt.SigmaMap(name=name, default=default, method=method)])


def eff_plugin():
    import jax.numpy as jnp

    return toys.plugin("C12E", ["batch_size"], ["eff"], lambda self, key, parameters, batch_size: (key, jnp.ones(len(Q))))


def check_values(r, P):
    n = 0
    triples = list(itertools.product("abcd", repeat=3)) if r.thorough else list(itertools.permutations("abcd", 3)) + [
        ("a", "a", "b"), ("a", "b", "a"), ("a", "a", "a"), ("e", "b", "c")]
    pos = np.array(Q, dtype=F)
    for t in triples:
        for scaler in ("my_scale", None):
            for where in ("default", "config", "dict"):
                toys.reset()
                setting = form(P, t, scaler)
                cls = plugin_of(setting if where == "default" else form(P, ("e", "e", "e"), "not_this"))
                if where == "config":
                    share.set_global_config({"mc_map": setting})
                if where == "dict":
                    share.set_global_config({"mc_map": {"L": setting, "other": form(P, "d", None)}})
                name = scaler or "mc_map_sigma"
                case0 = (t, scaler, where)
                with r.guard("build", case0):
                    p = cls("L")
                    r.expect(p.mc_map.required_parameter() == name, "parameter-name", case0, got=p.mc_map.required_parameter())
                    for s in SIGMAS if r.thorough or where == "default" else (-0.5, 0.0, 2.0):
                        pars = {"pos": pos, name: s, "mc_map_sigma" if scaler else "my_scale": 7.0, "not_this": -9.0}
                        case = case0 + (s,)
                        _, got = p.simulate(None, pars, 1)
                        want = ref(t, np.array(Q), s)
                        r.case(case)
                        n += 1
                        r.expect(np.allclose(got, want, rtol=1e-5, atol=1e-5), "shifted-by-the-right-band", case, got=got, want=want)
    # a single file needs no parameter
    for k in VALUES:
        for where in ("default", "config", "dict"):
            toys.reset()
            cls = plugin_of(P[k] if where == "default" else form(P, ("a", "b", "c"), "not_this"))
            if where == "config":
                share.set_global_config({"mc_map": P[k]})
            if where == "dict":
                share.set_global_config({"mc_map": {"L": P[k], "other": form(P, ("a", "b", "c"), None)}})
            case = ("single", k, where)
            with r.guard("single-file", case):
                p = cls("L")
                r.expect(p.mc_map.required_parameter() is None, "single-file-needs-no-parameter", case)
                _, got = p.simulate(None, {"pos": pos}, 1)
                r.case(case)
                r.expect(np.allclose(got, np.interp(Q, X, VALUES[k]), rtol=1e-5, atol=1e-5), "single-file-is-the-map", case, got=got)
    # every interpolation method is handed to all three maps
    for method in ("IDW", "NN", "LERP"):
        toys.reset()
        p = plugin_of(form(P, ("a", "b", "c"), None), method=method)("L")
        ms = {}
        for k in "abc":
            toys.reset()
            m = apt.Map(name="mc_" + k, default=P[k], method=method)
            m.build("L")
            ms[k] = np.asarray(m.apply(pos))
        for s in (-2.0, 0.5):
            _, got = p.simulate(None, {"pos": pos, "mc_map_sigma": s}, 1)
            want = ms["a"] + s * ((ms["c"] - ms["a"]) if s > 0 else (ms["a"] - ms["b"]))
            r.case(("method", method, s))
            r.expect(np.allclose(got, want, rtol=1e-5, atol=1e-5), "declared-method-used", (method, s), got=got, want=want)
    r.part("values", cases=n)


# the name of one likelihood is the beginning of the other's
LLH = {"A": "er", "B": "er_2"}


def check_components(r, P):
    """Several likelihoods and components, in every order of building."""
    n = 0
    eff = eff_plugin()
    pos = np.array(Q, dtype=F)
    forms = {
        "A": [(("a", "b", "c"), "pA"), (("a", "b", "c"), None), ("d", None)],
        "B": [(("b", "a", "d"), "pB"), (("b", "a", "d"), "pA"), ("a", None)],
    }
    for fa, fb in itertools.product(forms["A"], forms["B"]):
        for dflt in ((("c", "d", "a"), "dflt"), ("c", None)):
            for how in ("dict", "default"):
                if how == "default" and (fa, fb) != (forms["A"][0], forms["B"][0]):
                    continue
                for order in itertools.permutations(["A1", "B1", "A2", "B0"]):
                    if not r.thorough and order[-1] != "A2":
                        continue
                    toys.reset()
                    cls = plugin_of(form(P, *dflt))
                    plain = toys.plugin("C12N", ["batch_size"], ["a"], lambda self, key, parameters, batch_size: (key, parameters["pos"]), ("plain",))
                    if how == "dict":
                        share.set_global_config({"mc_map": {LLH["A"]: form(P, *fa), LLH["B"]: form(P, *fb)}})
                    case = (fa, fb, dflt, how, order)
                    with r.guard("components", case):
                        comps = {}
                        for c in order:
                            llh = LLH[c[0]]
                            comp = apt.ComponentSim(name="n" + c, llh_name=llh)
                            comp.rate_name = c + "_rate"
                            # component B0 does not use the map
                            comp.register([plain if c == "B0" else cls, eff])
                            comp.deduce(data_names=["a"], func_name="f" + c)
                            comp.compile()
                            comps[c] = comp
                        r.case(case)
                        n += 1
                        pars = {"pos": pos, "pA": 1.5, "pB": -0.5, "mc_map_sigma": 0.25, "dflt": -2.0, "plain": 0.0}
                        for c, comp in comps.items():
                            setting, scaler = (dflt if how == "default" else {"A": fa, "B": fb}[c[0]])
                            name = None if isinstance(setting, str) else (scaler or "mc_map_sigma")
                            need = {c + "_rate"} | ({"plain"} if c == "B0" else ({name} if name else set()))
                            r.expect(comp.needed_parameters == need, "needed-parameters", (case, c), got=comp.needed_parameters, want=need)
                            given = {k: v for k, v in pars.items() if k in need | {"pos"}}
                            with jax.disable_jit():
                                _, (a, _) = comp.simulate(np.zeros(2, dtype=np.uint32), len(Q), given)
                            want = np.array(Q) if c == "B0" else ref(triple(setting), np.array(Q), pars[name] if name else 1.0)
                            if c != "B0" and isinstance(setting, str):
                                want = np.interp(Q, X, VALUES[setting])
                            r.expect(np.allclose(a, want, rtol=1e-5, atol=1e-5), "own-files-and-parameter", (case, c), got=a, want=want)
    r.traces += n
    r.part("components", cases=n)


def check_malformed(r, P):
    good = form(P, ("a", "b", "c"), None)
    bad = {
        "five": [P["a"]] * 3 + ["s", "t"],
        "two": [P["a"], P["b"]],
        "none": [],
        "number": 3.0,
        "integer": 3,
        "absent-file": [P["a"], P["b"], "/nowhere/c12.json"],
        "no-entry": {"other": good},
    }
    for name, v in bad.items():
        for where in ("config", "default", "dict"):
            if name == "no-entry" and where != "config":
                continue
            toys.reset()
            case = ("malformed", name, where)
            r.case(case)

            def go():
                cls = plugin_of(v if where == "default" else good)
                if where == "config":
                    share.set_global_config({"mc_map": v})
                if where == "dict":
                    share.set_global_config({"mc_map": {"L": v}})
                cls("L")

            r.raises(Exception, "malformed-setting-raises", go, case)
    # the needed parameter is not given
    for scaler in (None, "my_scale"):
        toys.reset()
        share.set_global_config({"mc_map": form(P, ("a", "b", "c"), scaler)})
        p = plugin_of(good)("L")
        for given in ({}, {"mc_map_sigma" if scaler else "my_scale": 1.0}):
            case = ("missing-parameter", scaler, sorted(given))
            r.case(case)
            r.raises(Exception, "missing-parameter-raises", lambda: p.simulate(None, {"pos": np.array(Q, dtype=F), **given}, 1), case)
    # a plugin with a setting per likelihood can not be built without likelihood
    toys.reset()
    share.set_global_config({"mc_map": {"L": good}})
    r.case("no-likelihood")
    r.raises(Exception, "no-likelihood-raises", lambda: plugin_of(good)(), "no-likelihood")
    r.part("malformed", cases=len(bad) * 3)


def check_reset(r, P):
    """Setting other files and clearing the cache in between."""
    n = 0
    settings = [(("a", "b", "c"), "s1"), (("b", "c", "d"), "s2"), (("d", "a", "b"), None), ("c", None)]
    pos = np.array(Q, dtype=F)
    for h in itertools.product(range(4), repeat=3 if r.thorough else 2):
        toys.reset()
        cls = plugin_of(form(P, ("e", "e", "e"), None))
        alive = []
        with r.guard("reset", h):
            for i in h:
                apt.clear_cache()
                share.set_global_config({"mc_map": form(P, *settings[i])})
                alive.append((cls("L"), settings[i]))
            # every plugin keeps the band it was built with
            for p, (s, scaler) in alive:
                for sig in (-1.0, 2.0):
                    pars = {"pos": pos, "s1": 0.1, "s2": 0.2, "mc_map_sigma": 0.3, scaler or "mc_map_sigma": sig}
                    _, got = p.simulate(None, pars, 1)
                    want = np.interp(Q, X, VALUES[s]) if isinstance(s, str) else ref(s, np.array(Q), sig)
                    r.expect(np.allclose(got, want, rtol=1e-5, atol=1e-5), "built-band-stays", (h, sig), got=got, want=want)
            for p, (s, scaler) in alive:
                t = triple(s)
                for nm, k in zip(("median", "lower", "upper"), t):
                    got = np.asarray(getattr(p.mc_map, nm).apply(pos))
                    r.expect(np.allclose(got, np.interp(Q, X, VALUES[k])), "built-maps-stay", (h, nm), got=got)
        r.case(("reset", h))
        r.traces += 1
        n += 1
    r.part("resets", histories=n)


def check_change(r, P):
    """A setting that changes without clearing is seen by plugins built afterwards."""
    a, b = form(P, ("a", "b", "c"), None), form(P, ("b", "c", "d"), None)
    pos = np.array(Q, dtype=F)
    for llh1, llh2 in (("L", "L"), ("L", "M")):
        toys.reset()
        cls = plugin_of(a)
        case = ("changed", llh1, llh2)
        r.case(case)
        cls(llh1)
        share.set_global_config({"mc_map": b})
        try:
            p = cls(llh2)
        except Exception as e:
            kind = "conflict" if isinstance(e, ValueError) and "different values" in str(e) else "raises"
            r.fail(f"change-without-clearing:{llh1}-{llh2}/{kind}", case, exception=f"{type(e).__name__}: {e}"[:300])
            continue
        _, got = p.simulate(None, {"pos": pos, "mc_map_sigma": 2.0}, 1)
        want = ref(("b", "c", "d"), np.array(Q), 2.0)
        r.expect(np.allclose(got, want, rtol=1e-5, atol=1e-5), f"change-without-clearing:{llh1}-{llh2}/value", case, got=got, want=want)
    r.part("changes", cases=2)


def run(r):
    r.rule = "one case per setting x scaling value, each evaluated at nodes, inside cells and outside"
    r.assumptions = ["linear interpolation of one-dimensional maps, checked by C09, is the reference between nodes"]
    P = files(r)
    check_values(r, P)
    check_components(r, P)
    check_malformed(r, P)
    check_reset(r, P)
    check_change(r, P)
    r.states += len(VALUES) ** 3
    r.transitions += r.evaluations
