"""C27: options that nothing built has taken are reported, the others never; listing of options."""

import copy
import itertools
import os
import re
import warnings

import numpy as np

import appletree as apt
import appletree.share as share
from appletree.share import set_global_config
from appletree.utils import check_unused_configs
from mc import toys

F = np.float32


def setup(r):
    import jax.numpy as jnp

    d = r.scratch
    r.files = {}
    for n, v in (("m_default", 1.0), ("m_other", 2.0), ("g_a", 3.0), ("g_b", 4.0), ("g_c", 5.0), ("h_a", 6.0)):
        r.files[n] = toys.point_map(os.path.join(d, n + ".json"), [0.0, 1.0], [v, v])
    xs = jnp.asarray(np.array([0.5, 0.75, 1.25, 1.5, 1.75, 1.6], F))

    def pa(self, key, parameters, batch_size):
        return key, xs * self.u_alpha.value

    def pb(self, key, parameters, ca):
        return key, ca * self.u_beta.value, ca * 0 + 1.0

    def pm(self, key, parameters, ca):
        return key, self.u_map.apply(ca)

    def pg(self, key, parameters, ca):
        return key, self.u_sigma.apply(ca, parameters)

    def po(self, key, parameters, ca):
        return key, ca * self.u_set.value["v"][0] * self.u_alpha.value

    C = apt.Constant
    toys.plugin("UAlpha", ["batch_size"], ["ca"], pa, configs=[C(name="u_alpha", default=1.0, help="first")])
    toys.plugin("UBeta", ["ca"], ["cb", "eff"], pb, configs=[C(name="u_beta", default=1.5, help="second")])
    toys.plugin("UMap", ["ca"], ["cm"], pm, configs=[apt.Map(name="u_map", default=r.files["m_default"], method="LERP")])
    toys.plugin(
        "USigma", ["ca"], ["cg"], pg,
        configs=[apt.SigmaMap(name="u_sigma", default=[r.files["g_a"], r.files["g_b"], r.files["g_c"]], method="LERP")],
    )
    toys.plugin(
        "USet", ["ca"], ["cs"], po,
        configs=[apt.ConstantSet(name="u_set", default=[["v"], [[2.0]]]), C(name="u_alpha", default=1.0, help="first")],
    )
    toys.plugin("UNone", ["ca"], ["cn"], lambda self, key, parameters, ca: (key, ca))
    allp = [getattr(apt.plugins, n) for n in ("UAlpha", "UBeta", "UMap", "USigma", "USet", "UNone")]
    toys.component_cls("UComp", allp, "on_sim")
    r.csv = toys.write_csv(os.path.join(d, "u.csv"), {"ca": [0.6, 1.5, 0.7, 1.9], "cb": [0.6, 1.5, 0.7, 1.9]})


TAKES = {
    "UAlpha": ["u_alpha"],
    "UBeta": ["u_beta"],
    "UMap": ["u_map"],
    "USigma": ["u_sigma", "u_sigma_median", "u_sigma_lower", "u_sigma_upper"],
    "USet": ["u_set", "u_alpha"],
    "UNone": [],
}
NEEDS = {"ca": ["UAlpha"], "cb": ["UAlpha", "UBeta"], "eff": ["UAlpha", "UBeta"], "cm": ["UAlpha", "UMap"],
         "cg": ["UAlpha", "USigma"], "cs": ["UAlpha", "USet"], "cn": ["UAlpha", "UNone"]}


def values(r):
    return {
        "u_alpha": {"scalar": 2.0, "dict": {"l": 2.0, "m": 3.0}},
        "u_beta": {"scalar": 2.5, "dict": {"l": 2.5, "m": 3.5}},
        "u_map": {"scalar": r.files["m_other"], "dict": {"l": r.files["m_other"], "m": r.files["m_default"]}},
        "u_sigma": {
            "scalar": [r.files["g_a"], r.files["g_b"], r.files["g_c"], "u_scale"],
            "dict": {"l": [r.files["g_a"], r.files["g_b"], r.files["g_c"], "u_scale"], "m": r.files["g_a"]},
        },
        "u_set": {"scalar": [["v"], [[3.0]]], "dict": {"l": [["v"], [[3.0]]], "m": [["v"], [[4.0]]]}},
        "u_junk": {"scalar": 5.0, "dict": {"l": 5.0, "m": 6.0}},
    }


def reported():
    """The options named in the warnings of the check for unused ones."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        check_unused_configs()
    text = " ".join(str(x.message) for x in w)
    return set(re.findall(r"\bu_\w+", text)), len(w)


def component(name, llh="l", kind="UComp"):
    return getattr(apt.components, kind)(name=name, llh_name=llh)


def judge(r, must, maybe, case, sig):
    got, n = reported()
    ok = must <= got <= (must | maybe)
    r.expect(ok, sig, case, reported=sorted(got), want=sorted(must), either=sorted(maybe))
    if not must and not maybe:
        r.expect(n == 0, "silent-if-none", case, warnings=n)
    if must:
        r.expect(n == 1, "one-warning", case, warnings=n)
    return got


class Model:
    def __init__(self):
        self.present, self.used, self.maybe = set(), set(), set()

    def take(self, names):
        self.present |= set(names)
        self.used |= set(names)


def apply_op(r, op, model, vals, n):
    kind = op[0]
    if kind == "set":
        _, name, form = op
        set_global_config({name: copy.deepcopy(vals[name][form])})
        model.present.add(name)
    elif kind == "build":
        getattr(apt.plugins, op[1])("l")
        model.take(TAKES[op[1]])
    elif kind == "compile":
        c = component(f"c{n}")
        c.deduce(data_names=list(op[1]), func_name=f"f{n}")
        c.compile()
        for d in (*op[1], "eff"):
            for p in NEEDS[d]:
                model.take(TAKES[p])
    elif kind == "show":
        component("s").show_config(list(op[1]))
        for d in op[1]:
            for p in NEEDS[d]:
                model.maybe |= set(TAKES[p])
    elif kind == "set_config":
        component("s").set_config({op[1]: copy.deepcopy(vals[op[1]]["scalar"])})
        model.present.add(op[1])
    elif kind == "read":
        repr(share._cached_configs)
        dict(share._cached_configs.items())
        list(share._cached_configs)
        "u_beta" in share._cached_configs
    elif kind == "clear":
        share.clear_cache()
        model.present, model.used, model.maybe = set(), set(), set()


def run_history(r, hist, vals, seen):
    toys.reset()
    model = Model()
    for i, op in enumerate(hist):
        case = hist[: i + 1]
        fresh = case not in seen
        seen.add(case)
        with r.guard("history", case):
            apply_op(r, op, model, vals, i)
            if fresh:
                must = model.present - model.used - model.maybe
                judge(r, must, (model.present - model.used) & model.maybe, case, "reports-exactly-the-unused")
                # asking does not use anything
                judge(r, must, (model.present - model.used) & model.maybe, case, "asking-uses-nothing")
                r.case(case, nontrivial=bool(must) or bool(model.used))
        r.transitions += 1


def check_histories(r):
    vals = values(r)
    sets = [("set", "u_alpha", "scalar"), ("set", "u_beta", "dict"), ("set", "u_sigma", "scalar"), ("set", "u_junk", "scalar")]
    ops = sets + [
        ("build", "UAlpha"), ("build", "USigma"), ("compile", ("cb",)), ("show", ("cb",)), ("read",), ("clear",),
    ]
    wide = ops + [
        ("set", "u_map", "dict"), ("set", "u_set", "scalar"), ("set", "u_junk", "dict"), ("set", "u_sigma", "dict"),
        ("set_config", "u_beta"), ("set_config", "u_junk"), ("build", "UBeta"), ("build", "UMap"), ("build", "USet"), ("build", "UNone"),
        ("compile", ("cm", "cg")), ("compile", ("cn", "cs")), ("show", ("cg", "cm")),
    ]
    seen = set()
    n = 0
    for menu, depth in ((wide, 4 if r.thorough else 3), (ops, 5 if r.thorough else 4)):
        for h in itertools.product(menu, repeat=depth):
            # a history is judged at all of its prefixes; clearing first or last adds nothing
            if h[0] == ("clear",) or any(a == b == ("clear",) for a, b in zip(h, h[1:])):
                continue
            # the same dictionary option of two forms
            run_history(r, h, vals, seen)
            n += 1
    r.traces += n
    r.states += len(seen)
    r.part("histories", histories=n, prefixes=len(seen), operations=len(wide))


# ---------------------------------------------------------------------------------------- contexts
def make_context(r, configs, two, kind):
    def llh():
        return {
            "data_file_name": r.csv, "bins_type": "irreg", "bins_on": ["ca"], "bins": [[0.0, 1.0, 20.0]], "clip": [0.0, 20.0],
            "components": {"er": kind}, "copy_parameters": {},
        }

    ins = {"likelihoods": {"l": llh()}, "configs": copy.deepcopy(configs)}
    if two:
        ins["likelihoods"]["m"] = llh()
    pars = {}
    if kind == "UCompSig":
        # the scaler of the default, of the option, or of both likelihoods
        pars["u_scale" if "u_sigma" in configs else "u_sigma_sigma"] = toys.par(val=1.0)
    pars["er_rate"] = toys.par("uniform", prior_args={"lower": 0.5, "upper": 9.0}, allowed_range=[0.5, 9.0], init_mean=4.0, init_std=0.5)
    ins["par_config"] = toys.write_json(os.path.join(r.scratch, "pars.json"), pars)
    return ins


def check_contexts(r):
    vals = values(r)
    n = 0
    # components that need the map, the sigma map, both or neither
    kinds = {
        "UCompPlain": (["UAlpha", "UBeta", "UMap", "USigma"], ["UAlpha", "UBeta"]),
        "UCompMap": (["UAlpha", "UMapEff", "USigma", "UBeta"], ["UAlpha", "UMapEff"]),
        "UCompSig": (["UAlpha", "UBeta", "USigEff"], ["UAlpha", "USigEff"]),
    }

    def meff(self, key, parameters, ca):
        return key, self.u_map.apply(ca)

    def seff(self, key, parameters, ca):
        return key, self.u_sigma.apply(ca, parameters)

    um, us = apt.plugins.UMap.takes_config["u_map"], apt.plugins.USigma.takes_config["u_sigma"]
    toys.plugin("UMapEff", ["ca"], ["eff"], meff, configs=[apt.Map(name="u_map", default=um.default, method="LERP")])
    toys.plugin("USigEff", ["ca"], ["eff"], seff, configs=[apt.SigmaMap(name="u_sigma", default=us.default, method="LERP")])
    takes = {**TAKES, "UMapEff": TAKES["UMap"], "USigEff": TAKES["USigma"]}
    for k, (plugs, _) in kinds.items():
        if k != "UCompPlain":
            plugs = [p for p in plugs if p != "UBeta"]
        toys.component_cls(k, [getattr(apt.plugins, p) for p in plugs], "on_sim")
    names = ["u_alpha", "u_beta", "u_map", "u_sigma", "u_junk"]
    for kind, (_, used_plugins) in kinds.items():
        used = set().union(*[takes[p] for p in used_plugins])
        for chosen in toys.subsets(names):
            for two in (False, True):
                for form in ("scalar", "dict"):
                    if form == "dict" and not two:
                        continue
                    configs = {c: vals[c][form] for c in chosen}
                    case = ("context", kind, list(chosen), two, form)
                    r.case(case)
                    n += 1
                    want = set(chosen) - used
                    with r.guard("context", case):
                        toys.reset()
                        ctx = apt.Context(make_context(r, configs, two, kind))
                        judge(r, want, set(), case, "context-reports-exactly-the-unused")
                        if n % 16 == 1 or r.thorough:
                            ctx.print_context_summary(short=False)
                            ctx.lineage
                            ctx.par_manager.sample_init()
                            p = {k: 1.0 for k in ctx.par_manager.parameter_fit}
                            ctx.log_posterior(p, batch_size=6)
                            judge(r, want, set(), case, "using-a-context-uses-no-other-options")
                        # options set afterwards are not used by what was built before
                        set_global_config({"u_late": 1.0})
                        judge(r, want | {"u_late"}, set(), case, "set-after-building-is-unused")
                        share.clear_cache()
                        judge(r, set(), set(), case, "clearing-resets")
    # a fit writes options to its file
    for chosen in (["u_alpha", "u_beta", "u_junk"], ["u_junk", "u_map"]):
        case = ("fit", chosen)
        r.case(case)
        with r.guard("fit", case):
            toys.reset()
            ins = make_context(r, {c: vals[c]["scalar"] for c in chosen}, False, "UCompPlain")
            ins["backend_h5"] = os.path.join(r.scratch, f"{len(chosen)}.h5")
            ctx = apt.Context(ins)
            ctx.fitting(nwalkers=4, iteration=1, batch_size=6)
            judge(r, set(chosen) - {"u_alpha", "u_beta"}, set(), case, "fitting-uses-no-other-options")
    r.states += n
    r.part("contexts", contexts=n)


# ---------------------------------------------------------------------------------------- listing
def check_listing(r):
    vals = values(r)
    takes_direct = {"UAlpha": ["u_alpha"], "UBeta": ["u_beta"], "UMap": ["u_map"], "USigma": ["u_sigma"], "USet": ["u_set", "u_alpha"], "UNone": [], "UBare": ["u_bare"]}
    provides = {"UAlpha": ["ca"], "UBeta": ["cb", "eff"], "UMap": ["cm"], "USigma": ["cg"], "USet": ["cs"], "UNone": ["cn"], "UBare": ["cx", "cy"]}
    toys.plugin("UBare", ["cb", "cm"], ["cx", "cy"], lambda self, key, parameters, cb, cm: (key, cb, cm), configs=[apt.Constant(name="u_bare", help="no default")])
    toys.component_cls("UShow", [getattr(apt.plugins, p) for p in provides], "on_sim")
    needs = {**NEEDS, "cx": ["UAlpha", "UBeta", "UMap", "UBare"], "cy": ["UAlpha", "UBeta", "UMap", "UBare"]}
    defaults = {n: c.default for p in provides for n, c in getattr(apt.plugins, p).takes_config.items()}
    helps = {n: c.help for p in provides for n, c in getattr(apt.plugins, p).takes_config.items()}
    data = ["ca", "cb", "cm", "cg", "cs", "cn", "cx", "cy", "eff"]
    states = [{}] + [{o: f} for o in ("u_alpha", "u_beta", "u_map", "u_sigma", "u_set") for f in ("scalar", "dict")]
    states += [{o: f for o in vals} for f in ("scalar", "dict")]
    n = 0
    for names in toys.subsets(data, 1, 9 if r.thorough else 3):
        for order in ((names, names[::-1]) if len(names) > 1 else (names,)):
            plugins = set().union(*[needs[d] for d in order])
            for si, st in enumerate(states):
                for llh in ("l", "m"):
                    case = ("list", list(order), st, llh)
                    r.case(case, nontrivial=any(takes_direct[p] for p in plugins))
                    n += 1
                    with r.guard("list", case):
                        toys.reset()
                        set_global_config({o: copy.deepcopy(vals[o][f]) for o, f in st.items()})
                        before = copy.deepcopy(dict(dict.items(share._cached_configs)))
                        c = component("s", llh, "UShow")
                        df = c.show_config(list(order))
                        rows = df.to_dict("records") if len(df) else []
                        want = []
                        for p in plugins:
                            for o in takes_direct[p]:
                                cur = None
                                if o in st:
                                    cur = vals[o][st[o]] if st[o] == "scalar" else vals[o]["dict"][llh]
                                d = defaults[o]
                                want.append((o, repr(d), repr(cur), tuple(provides[p]), helps[o]))
                        got = [
                            (x["option"], repr(x["default"]), "None" if x["current"] is None or x["current"] != x["current"] else repr(x["current"]),
                             (x["applies_to"],) if isinstance(x["applies_to"], str) else tuple(x["applies_to"]), x["help"])
                            for x in rows
                        ]
                        r.expect(sorted(got) == sorted(want), "lists-the-options-concerned-with-the-values-in-force", case, got=got, want=want)
                        r.expect(dict(dict.items(share._cached_configs)) == before, "listing-changes-nothing", case)
                        got_unused, _ = reported()
                        concerned = {o for p in plugins for o in takes_direct[p]}
                        r.expect(set(st) - concerned <= got_unused, "listing-uses-only-options-concerned", case, got=sorted(got_unused))
    # after building, the values in force are those of the plugins
    for order in toys.subsets([d for d in data if d not in ("cx", "cy")], 1, 2):
        case = ("list-built", list(order))
        with r.guard("list", case):
            toys.reset()
            c = component("s", "l", "UComp")
            c.deduce(data_names=[d for d in order], func_name="f")
            c.compile()
            df = c.show_config(list(order))
            for x in df.to_dict("records") if len(df) else []:
                r.expect(x["current"] == x["default"], "default-in-force", case, row=x)
            r.expect(not reported()[0], "used-ones-never", case)
        r.case(case)
        n += 1
    # two plugins in use which both provide a piece of data: the later one makes it, the other one its other output
    f2 = lambda self, key, parameters, batch_size: (key, None, None)  # noqa: E731
    f1 = lambda self, key, parameters, batch_size: (key, None)  # noqa: E731
    u = lambda name, d: [apt.Constant(name=name, default=d, help=name)]  # noqa: E731
    pieces = {
        "UOv1": toys.plugin("UOv1", ["batch_size"], ["ca", "cz"], f2, configs=u("u_alpha", 1.0)),
        "UOv2": toys.plugin("UOv2", ["batch_size"], ["ca"], f1, configs=u("u_beta", 2.0)),
        "UOv3": toys.plugin("UOv3", ["batch_size"], ["cz"], f1, configs=u("u_set", 3.0)),
        "UOv4": toys.plugin("UOv4", ["batch_size"], ["cz", "cw"], f2, configs=u("u_map", 4.0)),
    }
    for h in itertools.permutations(pieces):
        for k in (1, 2, 3, 4):
            case = ("list-overlap", h[:k])
            with r.guard("list-overlap", case):
                toys.reset()
                c = apt.ComponentSim(name="ov", llh_name="l")
                owner = {}
                for x in h[:k]:
                    c.register(pieces[x])
                    owner.update({d: x for d in {"UOv1": ["ca", "cz"], "UOv2": ["ca"], "UOv3": ["cz"], "UOv4": ["cz", "cw"]}[x]})
                for names in toys.subsets(sorted(owner), 1):
                    df = c.show_config(list(names))
                    want = sorted({next(iter(pieces[owner[d]].takes_config)) for d in names})
                    r.expect(sorted(df["option"]) == want, "lists-the-options-concerned-with-the-values-in-force", (case, names), got=sorted(df["option"]), want=want)
                    r.case((case, names))
                    n += 1
    # an option that can not be found is not invented
    r.raises(ValueError, "unknown-data-raises", lambda: component("s", "l", "UShow").show_config(["nothing"]), ("list", "nothing"))
    r.states += n
    r.part("listing", cases=n, data_names=len(data))


def run(r):
    r.rule = "one case per history prefix, per context with a subset of options set, and per listing"
    r.assumptions = ["used means taken by a plugin that was built since the options were cleared", "listing an option may or may not count as using it", "an option shared by two plugins is listed once for each"]
    warnings.simplefilter("ignore")
    setup(r)
    check_histories(r)
    check_contexts(r)
    check_listing(r)
