"""C17: instructions wire every parameter to the right likelihood and component."""

import copy
import itertools
import os
import warnings

import numpy as np
from jax import numpy as jnp

import appletree as apt
from mc import toys

F = np.float32
N = 4  # simulated events per component
KEY = jnp.array([0, 7], dtype=jnp.uint32)

# component classes: which parameters their plugins use and what they put in the observables
#   a = first parameter (plus the option for the first plugin), b = tag of the component class
PLUGINS = {"C17P": ("p", 100.0), "C17Q": ("q", 200.0), "C17PQ": (None, 300.0)}
USES = {"CP": ["p"], "CQ": ["q"], "CPQ": ["p", "q"], "FX": []}
TAG = {"CP": 100.0, "CQ": 200.0, "CPQ": 300.0}
FIXED = [(1.0, 1.5), (2.0, 2.5)]


def make_plugins(r):
    def maker(tag, fn, params):
        def func(self, key, parameters, batch_size):
            a = fn(parameters) + 0.0 * jnp.zeros(batch_size)
            return key, a + self.c17_opt.value, jnp.full(batch_size, tag)

        return func

    def one(self, key, parameters, ca):
        return key, jnp.ones_like(ca)

    toys.plugin("C17Eff", ["ca"], ["eff"], one)
    for c, fn in (("CP", lambda x: x["p"]), ("CQ", lambda x: x["q"]), ("CPQ", lambda x: x["p"] + 10.0 * x["q"])):
        pl = toys.plugin(
            "C17" + c, ["batch_size"], ["ca", "cb"], maker(TAG[c], fn, USES[c]), USES[c],
            [apt.Constant(name="c17_opt", default=0.5)],
        )
        toys.component_cls("C17" + c + "Comp", [pl, apt.plugins.C17Eff])
    toys.fixed_cls("C17FXComp")
    r.data = toys.write_csv(os.path.join(r.scratch, "d.csv"), {"ca": [1.0, 2.0, 3.0], "cb": [1.0, 100.0, 300.0]})
    r.fix = toys.write_csv(os.path.join(r.scratch, "f.csv"), {"ca": [x for x, _ in FIXED], "cb": [y for _, y in FIXED]})


def instruct_of(r, spec):
    """spec: list of (likelihood name, [(component name, class)], copies, alias)."""
    llhs = {}
    for name, comps, copies, alias in spec["llhs"]:
        d = {
            "data_file_name": r.data, "bins_type": "irreg", "bins_on": ["ca", "cb"],
            "bins": [[-1e4, 1e4], [[-1e4, 1e4]]], "x_clip": [-1e4, 1e4], "y_clip": [-1e4, 1e4],
            "components": {},
            "copy_parameters": dict(copies),
        }
        for cn, cc in comps:
            if cc == "FX":
                d["components"][cn] = {"component_cls": "C17FXComp", "file_name": r.fix}
            elif spec.get("dict"):
                d["components"][cn] = {"component_cls": f"C17{cc}Comp"}
            else:
                d["components"][cn] = f"C17{cc}Comp"
        if alias:
            d["parameter_alias"] = dict(alias)
        llhs[name] = d
    ins = {"likelihoods": llhs}
    if spec.get("opt") is not None:
        ins["configs"] = {"c17_opt": spec["opt"]}
    return ins


def wiring(spec):
    """The reference: parameters every likelihood needs (by their public names), and how it uses them."""
    use = {}
    for name, comps, copies, alias in spec["llhs"]:
        back = {v: k for k, v in alias.items()}
        inner = set()
        for cn, cc in comps:
            inner |= {cn + "_rate"} | set(USES[cc])
        use[name] = {back.get(x, x) for x in inner}
    return use


def provided(spec):
    """name -> source name whose configuration it has."""
    rates = {cn + "_rate" for _, comps, _, _ in spec["llhs"] for cn, _ in comps}
    conf = {k: k for k in spec["given"]}
    src = []
    for _, _, copies, _ in spec["llhs"]:
        for k, v in copies.items():
            conf[k] = conf[v]
            src.append(v)
    for v in src:
        if v not in rates:
            conf.pop(v, None)
    return conf


def expected_rows(spec, name, comps, alias, pars):
    p = dict(pars)
    for k, v in alias.items():
        if k in p:
            p[v] = p.pop(k)
    opt = spec.get("opt")
    opt = 0.5 if opt is None else (opt[name] if isinstance(opt, dict) else opt)
    rows = []
    for cn, cc in comps:
        rate = p[cn + "_rate"]
        if cc == "FX":
            rows += [(x, y, rate / len(FIXED)) for x, y in FIXED]
        else:
            a = {"CP": lambda: p["p"], "CQ": lambda: p["q"], "CPQ": lambda: p["p"] + 10 * p["q"]}[cc]() + opt
            rows += [(a, TAG[cc], rate / N)] * N
    return np.array(rows)


def entry(i, fixed=False):
    """A distinguishable parameter configuration."""
    if fixed:
        return toys.par(val=1.0 + i)
    return toys.par(
        "uniform", prior_args={"lower": 0.0, "upper": 100.0 + i}, allowed_range=[0.0, 100.0 + i],
        init_mean=1.0 + i, init_std=0.01, doc=f"entry {i}",
    )


def par_config(names, fixed=()):
    return {n: entry(i, n in fixed) for i, n in enumerate(names)}


def rows_of(llh, pars):
    _, res = llh.simulate_weighted_data(KEY, N, pars)
    return np.stack([np.asarray(x, dtype=float) for x in res], axis=1)


def judge(r, spec, case, deep=True):
    toys.reset()
    ins = instruct_of(r, spec)
    pc = par_config(spec["given"], spec.get("fixed", ()))
    ins0, pc0 = copy.deepcopy(ins), copy.deepcopy(pc)
    r.case(case)
    use = wiring(spec)
    conf = provided(spec)
    with r.guard("context", case):
        ctx = apt.Context(ins, par_config=pc)
        r.expect(ins == ins0, "instructions-not-altered", case)
        r.expect(pc == pc0, "parameter-configuration-not-altered", case)
        r.expect(list(ctx.likelihoods) == [x[0] for x in spec["llhs"]], "likelihoods", case, got=list(ctx.likelihoods))
        for name, comps, copies, alias in spec["llhs"]:
            llh = ctx[name]
            r.expect(list(llh.components) == [c for c, _ in comps], "components-as-declared", case, got=list(llh.components))
            r.expect(llh.needed_parameters == use[name], "needed-parameters-of-the-likelihood", case, llh=name, got=sorted(llh.needed_parameters), want=sorted(use[name]))
            for cn, cc in comps:
                r.expect(llh[cn].rate_name == cn + "_rate", "component-has-its-own-rate", case, got=llh[cn].rate_name)
        allneed = set().union(*use.values()) | {k for _, _, c, _ in spec["llhs"] for k in c}
        r.expect(set(ctx.needed_parameters) == allneed, "needed-parameters-of-the-context", case, got=sorted(ctx.needed_parameters), want=sorted(allneed))
        got = ctx.par_manager.get_all_parameter()
        r.expect(set(got) == set(conf), "parameters-provided", case, got=sorted(got), want=sorted(conf))
        have = ctx.par_manager.par_config
        for k, src in conf.items():
            r.expect(k in have and have[k] == pc0[src], "copied-parameter-has-the-configuration-of-its-source", case, par=k, source=src)
        # every likelihood uses the parameters that belong to it
        missing = set().union(*use.values()) - set(conf)
        if missing:
            r.raises(Exception, "missing-parameter-raises", lambda: [rows_of(x, got) for x in ctx.likelihoods.values()], case)
            return
        base = {k: 1.25 + 0.5 * i for i, k in enumerate(sorted(conf))}
        before = {}
        for name, comps, _, alias in spec["llhs"]:
            given = dict(base)
            before[name] = rows_of(ctx[name], given)
            r.expect(given == base, "parameters-passed-in-unchanged", case)
            want = expected_rows(spec, name, comps, alias, base)
            ok = before[name].shape == want.shape and np.allclose(before[name], want, rtol=1e-5)
            r.expect(ok, "likelihood-simulates-what-it-declares", case, llh=name, got=before[name], want=want)
        if not deep:
            return
        for k in conf:
            pars = {**base, k: base[k] + 7.0}
            for name, comps, _, alias in spec["llhs"]:
                after = rows_of(ctx[name], pars)
                changed = not np.array_equal(after, before[name])
                r.expect(changed == (k in use[name]), "one-parameter-changes-exactly-its-likelihoods", case, par=k, llh=name, changed=changed)
        # the posterior goes through the same wiring
        n = float(len(np.loadtxt(r.data, delimiter=",", skiprows=1)))
        fit = {k: base[k] for k in ctx.par_manager.parameter_fit}
        cur = {**ctx.par_manager.get_all_parameter(), **fit}
        want = 0.0
        for name, comps, _, alias in spec["llhs"]:
            mu = expected_rows(spec, name, comps, alias, cur)[:, 2].sum()
            want += n * np.log(mu) - mu
        post, prior = ctx.log_posterior(fit, batch_size=N)
        r.expect(abs(post - prior - want) < 1e-3 * (1 + abs(want)), "posterior-of-the-wired-likelihoods", case, got=post - prior, want=want)


def sanity(r, spec, case):
    """A parameter nothing needs is refused before anything is fitted; without it nothing is refused."""
    for extra in ([], ["zz"], ["aa", "p_other"], ["spare_rate"], ["_rate"]):
        toys.reset()
        sp = {**spec, "given": list(spec["given"]) + extra}
        c = case + ("extra", tuple(extra))
        r.case(c)
        with r.guard("sanity", c):
            ctx = apt.Context(instruct_of(r, sp), par_config=par_config(sp["given"]))
            calls = []
            post = ctx.log_posterior

            def spy(*a, **k):
                calls.append(1)
                return post(*a, **k)

            ctx.log_posterior = spy

            def fit():
                ctx.fitting(nwalkers=2 * len(sp["given"]) + 2, iteration=1, batch_size=N)

            if extra:
                r.raises(RuntimeError, "not-needed-parameter-refused", fit, c)
                r.expect(not calls, "refused-before-fitting", c, calls=len(calls))
                r.raises(RuntimeError, "not-needed-parameter-refused-in-summary", ctx.print_context_summary, c)
            else:
                ctx.print_context_summary()
                ctx.print_context_summary(short=False)
                fit()
                r.expect(len(calls) > 0, "accepted-context-is-fitted", c)


COMPS = [
    [("er", "CP")],
    [("er", "CPQ")],
    [("er", "CP"), ("ac", "CQ")],
    [("ac", "CQ"), ("er", "FX")],
    [("nr", "CP"), ("er", "CPQ")],
    [("nr", "FX")],
]
ALIAS = [{}, {"p_L": "p"}, {"q_L": "q", "p_L": "p"}, {"er_rate_L": "er_rate"}, {"unused_L": "unused"}]


def local(alias, name):
    return {k.replace("_L", "_" + name): v for k, v in alias.items()}


def needed_list(llhs):
    return sorted(set().union(*wiring({"llhs": llhs}).values()))


def useful(alias, comps):
    inner = {x for cn, cc in comps for x in [cn + "_rate", *USES[cc]]}
    return all(v in inner or v == "unused" for v in alias.values())


def check_single(r):
    n = 0
    for comps, alias in itertools.product(COMPS, ALIAS):
        if not useful(alias, comps) or not r.turn():
            continue
        llhs = [("one", comps, {}, local(alias, "one"))]
        for opt, asdict in itertools.product((None, 2.0, {"one": 4.0, "two": 8.0}), (False, True)):
            spec = {"llhs": llhs, "given": needed_list(llhs), "opt": opt, "dict": asdict}
            judge(r, spec, ("single", comps, alias, opt, asdict))
            n += 1
        sanity(r, {"llhs": llhs, "given": needed_list(llhs)}, ("single", comps, alias))
    r.part("one-likelihood", cases=n)


def check_pairs(r):
    n = i = 0
    for (c1, a1), (c2, a2) in itertools.product(itertools.product(COMPS, ALIAS), repeat=2):
        if not (useful(a1, c1) and useful(a2, c2)):
            continue
        if not r.thorough and (ALIAS.index(a1) + ALIAS.index(a2) + COMPS.index(c1) + COMPS.index(c2)) % 2:
            continue
        i += 1
        if not r.turn():
            continue
        llhs = [("one", c1, {}, local(a1, "one")), ("two", c2, {}, local(a2, "two"))]
        opt = [None, 2.0, {"two": 8.0, "one": 4.0}][i % 3]
        spec = {"llhs": llhs, "given": needed_list(llhs), "opt": opt}
        judge(r, spec, ("pair", c1, a1, c2, a2, opt), deep=r.thorough or i % 2 == 0 or not (a1 or a2))
        n += 1
    r.part("two-likelihoods", cases=n)


def check_copies(r):
    """Copied parameters: from an unrelated source, from a rate that is needed, one source for several."""
    n = i = 0
    menus = [
        {}, {"er_rate": "base"}, {"ac_rate": "base"}, {"er_rate": "base", "ac_rate": "base"}, {"ac_rate": "er_rate"},
        {"er_rate": "ac_rate"}, {"p_L": "p_shared"}, {"er_rate": "base", "ac_rate": "other"},
    ]
    comps = [[("er", "CP"), ("ac", "CQ")], [("er", "CP")], [("ac", "CPQ")]]
    for (c1, m1), (c2, m2) in itertools.product(itertools.product(comps, menus), repeat=2):
        llhs, ok, src = [], True, []
        for name, c, m in (("one", c1, m1), ("two", c2, m2)):
            m = {k.replace("_L", "_" + name): v for k, v in m.items()}
            alias = {f"p_{name}": "p"} if f"p_{name}" in m else {}
            use = wiring({"llhs": [(name, c, m, alias)]})[name]
            ok &= set(m) <= use
            llhs.append((name, c, m, alias))
            src += list(m.items())
        # one target has one source, and a source is not a target itself
        targets = {}
        for k, v in src:
            ok &= targets.setdefault(k, v) == v
        ok &= not (set(targets) & set(targets.values()))
        if not ok:
            continue
        need = set(needed_list(llhs))
        rates = {cn + "_rate" for _, c, _, _ in llhs for cn, _ in c}
        # every needed parameter that is not copied is given, and every source
        given = sorted((need - set(targets)) | set(targets.values()))
        if any(v in need and v not in rates for v in targets.values()):
            continue
        i += 1
        if i % 3 == 1:
            # names with several parts
            ren = lambda x: {"er": "er_x", "ac": "ac_x_y", "er_rate": "er_x_rate", "ac_rate": "ac_x_y_rate"}.get(x, x)  # noqa: E731
            llhs = [(l, [(ren(cn), cc) for cn, cc in c], {ren(k): ren(v) for k, v in m.items()}, a) for l, c, m, a in llhs]
            given = sorted(map(ren, given))
            targets = {ren(k): ren(v) for k, v in targets.items()}
        if i % 4 < 2:
            # an own entry of a copied parameter does not count
            given = given + sorted(targets)
        if not r.turn():
            continue
        # a source which is a rate nobody needs would be refused, keep to the declared use
        spec = {"llhs": llhs, "given": given, "fixed": [v for v in ("other",) if v in given]}
        judge(r, spec, ("copy", c1, m1, c2, m2), deep=r.thorough or i % 3 == 0)
        n += 1
    r.part("copies", cases=n)


def check_three(r):
    """Three likelihoods, shared and own rates, every order."""
    n = 0
    base = [
        ("one", [("er", "CP"), ("ac", "CQ")], {}, {"p_one": "p"}),
        ("two", [("er", "CP")], {"er2_rate": "base"}, {"er2_rate": "er_rate"}),
        ("three", [("nr", "CPQ"), ("er", "FX")], {}, {"q_three": "q"}),
    ]
    for order in r.mine(itertools.permutations(base)):
        for opt in (None, {"one": 1.0, "two": 2.0, "three": 3.0}):
            llhs = list(order)
            given = sorted(set(needed_list(llhs)) - {"er2_rate"} | {"base"})
            judge(r, {"llhs": llhs, "given": given, "opt": opt}, ("three", [x[0] for x in order], opt))
            n += 1
    r.part("three-likelihoods", cases=n)


def check_many(r):
    """More likelihoods, each with several components and its own copies and aliases."""
    n = 0
    menu = [
        [("er", "CP"), ("ac", "CQ"), ("nr", "FX")],
        [("er", "CPQ")],
        [("wall", "FX"), ("er", "CP"), ("nr", "CPQ"), ("ac", "CP"), ("dd", "CQ")],
        [("nr", "CQ"), ("er", "FX")],
    ]
    for size in (4, 5, 7) if not r.thorough else (4, 5, 6, 7, 8, 9):
        for shift in r.mine(range(4)):
            for style in range(4):
                llhs = []
                for i in range(size):
                    name = f"l{size - i}"
                    comps = menu[(i + shift) % len(menu)]
                    copies, alias = {}, {}
                    if style in (1, 3) and i % 2:
                        # the rate of its own, with the configuration of a shared one
                        comps = [(f"{c}{i}", k) if c == "er" else (c, k) for c, k in comps]
                        copies = {f"er{i}_rate": "er_rate" if i % 4 == 1 else "base"}
                    if style in (2, 3) and i % 3 != 1:
                        alias = {f"p_{i}": "p"} if any("p" in USES[k] for _, k in comps) else {}
                    llhs.append((name, comps, copies, alias))
                copied = {k for _, _, c, _ in llhs for k in c}
                sources = {v for _, _, c, _ in llhs for v in c.values()}
                given = sorted(set(needed_list(llhs)) - copied | sources)
                opt = [None, 2.0, {x[0]: 1.0 + i for i, x in enumerate(llhs)}][(shift + style) % 3]
                judge(r, {"llhs": llhs, "given": given, "opt": opt}, ("many", size, shift, style))
                n += 1
    r.part("many-likelihoods", cases=n)


def check_refusals(r):
    llhs = [("one", [("er", "CP")], {}, {"p_one": "p"}), ("two", [("ac", "CQ")], {}, {})]
    spec = {"llhs": llhs, "given": needed_list(llhs)}
    pc = par_config(spec["given"])
    pars = {"er_rate": 2.0, "p_one": 3.0, "ac_rate": 4.0, "q": 5.0}
    for what in ("likelihood", "component", "component-other-class"):
        toys.reset()
        case = ("duplicate", what)
        r.case(case)
        with r.guard("duplicate", case):
            ctx = apt.Context(instruct_of(r, spec), par_config=copy.deepcopy(pc))
            before = {k: rows_of(v, pars) for k, v in ctx.likelihoods.items()}
            objs = dict(ctx.likelihoods)
            cobj = ctx["one"]["er"]
            conf = instruct_of(r, spec)["likelihoods"]["two"]
            if what == "likelihood":
                r.raises(ValueError, "duplicate-likelihood", lambda: ctx.register_likelihood("one", conf), case)
            else:
                cls = apt.components.C17CPComp if what == "component" else apt.components.C17CQComp
                r.raises(ValueError, "duplicate-component", lambda: ctx.register_component("one", cls, "er"), case)
            r.expect(all(ctx[k] is v for k, v in objs.items()) and len(ctx.likelihoods) == 2, "duplicate-leaves-the-likelihoods", case)
            r.expect(ctx["one"]["er"] is cobj and list(ctx["one"].components) == ["er"], "duplicate-leaves-the-component", case)
            for k, v in ctx.likelihoods.items():
                r.expect(np.array_equal(rows_of(v, pars), before[k]), "duplicate-leaves-the-simulation", case, llh=k)
    for bad in ("NoSuchComponent", "", "er"):
        for form in (bad, {"component_cls": bad}):
            toys.reset()
            ins = instruct_of(r, spec)
            ins["likelihoods"]["two"]["components"]["ac"] = form
            case = ("unknown-component", form)
            r.case(case)
            r.raises(Exception, "unknown-component", lambda: apt.Context(ins, par_config=copy.deepcopy(pc)), case)
    toys.reset()
    ins = instruct_of(r, spec)
    ins["likelihoods"]["two"]["type"] = "NoSuchLikelihood"
    r.raises(Exception, "unknown-likelihood-type", lambda: apt.Context(ins, par_config=copy.deepcopy(pc)), "type")
    # a copy of a parameter that does not exist
    toys.reset()
    ins = instruct_of(r, spec)
    ins["likelihoods"]["two"]["copy_parameters"] = {"ac_rate": "nowhere"}
    r.raises(Exception, "copy-from-an-unknown-parameter", lambda: apt.Context(ins, par_config=copy.deepcopy(pc)), "copy")


def check_files(r):
    """The same instructions as a file, with the parameters in a file."""
    for i, llhs in enumerate((
        [("one", [("er", "CP"), ("ac", "CQ")], {"er_rate": "base"}, {"p_one": "p"})],
        [("one", [("er", "CP")], {}, {}), ("two", [("er", "CPQ")], {}, {"p_two": "p"})],
    )):
        given = sorted(set(needed_list(llhs)) - set(llhs[0][2]) | set(llhs[0][2].values()))
        pc = par_config(given)
        for as_file, manual in itertools.product((False, True), (False, True)):
            toys.reset()
            spec = {"llhs": llhs, "given": given, "opt": 2.0}
            ins = instruct_of(r, spec)
            other = par_config(given)
            for v in other.values():
                v["doc"] = "other"
            ins["par_config"] = toys.write_json(os.path.join(r.scratch, f"p{i}.json"), pc)
            arg = toys.write_json(os.path.join(r.scratch, f"i{i}.json"), ins) if as_file else ins
            case = ("files", i, as_file, manual)
            r.case(case)
            with r.guard("files", case):
                ctx = apt.Context(arg, par_config=other) if manual else apt.Context(arg)
                src = provided(spec)
                want = {k: (other if manual else pc)[v] for k, v in src.items()}
                r.expect(ctx.par_manager.par_config == want, "parameters-from-where-they-were-given", case)
                base = {k: 1.25 + 0.5 * j for j, k in enumerate(sorted(src))}
                for name, comps, _, alias in llhs:
                    got = rows_of(ctx[name], base)
                    r.expect(np.allclose(got, expected_rows(spec, name, comps, alias, base)), "likelihood-simulates-what-it-declares", case, llh=name)


def run(r):
    r.rule = "one case per instruction set of the grammar (likelihoods x components x copies x aliases x options)"
    r.assumptions = ["a copied parameter is one that something needs"]
    warnings.simplefilter("ignore")
    make_plugins(r)
    check_single(r)
    check_copies(r)
    check_three(r)
    check_many(r)
    if r.turn():
        check_refusals(r)
    if r.turn():
        check_files(r)
    check_pairs(r)
    r.transitions += r.evaluations
