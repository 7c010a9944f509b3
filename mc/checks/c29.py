"""C29: what is defined is what runs: malformed definitions are refused, well-formed ones used as written."""

import itertools
import os

import jax
import numpy as np
from jax import numpy as jnp

import appletree as apt
from mc import toys

KEY = jnp.array([0, 3], dtype=jnp.uint32)
POOL = ("a", "b", "batch_size")
HEADS = [
    ("self", "key", "parameters"), ("self", "parameters", "key"), ("self", "key"), ("self", "parameters"), ("self",),
    ("self", "k", "parameters"), ("self", "key", "pars"), ("key", "parameters"), ("self", "key", "batch_size", "parameters"),
]
EXTRA = [None, "z", "z=5.0"]


def build(name, head, tail, extra, depends_on, provides=("c",), n_out=1):
    args = list(head) + list(tail) + ([extra] if extra else [])
    if len(set(args)) != len(args):
        return None
    inputs = [x for x in tail]
    terms = " + ".join(f"{10 ** (i + 1)} * jnp.asarray({x}, dtype=float) * jnp.ones(2)" for i, x in enumerate(inputs)) or "jnp.ones(2)"
    ns = {"jnp": jnp}
    outs = ", ".join(f"v + {i}" for i in range(n_out))
    head_key = "key" if "key" in head else "None"
    exec(f"def simulate({', '.join(args)}):\n    v = {terms}\n    return ({head_key}, {outs})\n", ns)
    cls = type(name, (apt.Plugin,), dict(depends_on=list(depends_on), provides=list(provides), simulate=ns["simulate"], __module__="mc.toys"))
    setattr(apt.plugins, name, cls)
    return cls


def source():
    return toys.plugin(
        "C29Src", ["batch_size"], ["a", "b"], lambda self, key, parameters, batch_size: (key, jnp.full(2, 1.0), jnp.full(2, 2.0))
    )


def run_component(plugins, names):
    toys.clear_functions()
    c = apt.ComponentSim(name="c29", llh_name="c29")
    for p in plugins:
        c.register(p)
    c.deduce(data_names=list(names), func_name="f29", force_no_eff=True)
    c.compile()
    with jax.disable_jit():
        _, out = c.simulate(KEY, 2, {})
    return [np.asarray(x) for x in out]


def seqs(pool, n):
    for k in range(n + 1):
        yield from itertools.permutations(pool, k)


def check_signatures(r):
    n = good = 0
    src = source()
    value = {"a": 1.0, "b": 2.0, "batch_size": 2.0}
    top = 3
    for dep in seqs(POOL, top):
        for head, tail, extra in itertools.product(HEADS, seqs(POOL, top), EXTRA):
            if not r.thorough and len(dep) == 3 and len(tail) < 2:
                continue
            cls = build("C29P", head, tail, extra, dep)
            if cls is None:
                continue
            case = ("signature", dep, head + tail + ((extra,) if extra else ()))
            r.case(case)
            n += 1
            if not dep:
                r.raises(Exception, "no-inputs-refused", lambda: cls("c29"), case)
                continue
            ok = head == HEADS[0] and tail == dep and extra != "z"
            # an argument without default behind the inputs can only show when it is simulated
            late = head == HEADS[0] and tail[: len(dep)] == dep and not ok
            if ok:
                good += 1
                with r.guard("consistent-definition-accepted", case):
                    cls("c29")
                    out = run_component([src, cls], ["c"])
                    want = 0.0
                    for i, x in enumerate(dep):
                        want += 10 ** (i + 1) * value[x]
                    r.expect(len(out) == 1 and np.all(out[0] == want), "inputs-passed-as-declared", case, got=out, want=want)
            else:
                if not late:
                    r.raises(Exception, "inconsistent-definition-refused", lambda: cls("c29"), case)
                if late or len(dep) + len(tail) < (6 if r.thorough else 4):
                    r.raises(Exception, "inconsistent-definition-not-simulated", lambda: run_component([src, cls], ["c"]), case)
    r.part("signatures", definitions=n, consistent=good)


def check_outputs(r):
    n = 0
    src = source()
    names = ["c", "d", "e"]
    for k, m in itertools.product(range(0, 4), range(0, 5)):
        if m == 0:
            continue
        for order in itertools.permutations(names[:k]):
            cls = build("C29O", HEADS[0], ("a",), None, ("a",), provides=order, n_out=m)
            case = ("outputs", order, m)
            r.case(case)
            n += 1
            if k == 0:
                r.raises(Exception, "no-outputs-refused", lambda: cls("c29"), case)
                continue
            for ask in itertools.permutations(order):
                if k == m:
                    with r.guard("consistent-definition-accepted", case):
                        out = run_component([src, cls], ask)
                        want = [10.0 + order.index(x) for x in ask]
                        r.expect(
                            len(out) == len(ask) and all(np.all(o == w) for o, w in zip(out, want)),
                            "outputs-named-in-declared-order", case + (ask,), got=out, want=want,
                        )
                else:
                    r.raises(Exception, "number-of-outputs-refused", lambda: run_component([src, cls], ask), case + (ask,))
    r.part("outputs", definitions=n)


def check_options(r):
    """Options along a class hierarchy: grandparent, parent, child and a sibling of the child."""
    n = 0
    names = ["o1", "o2"]
    subsets = [None] + [c for k in range(3) for c in itertools.combinations(names, k)]
    who = ["grand", "parent", "child", "sibling"]
    above = {"grand": [], "parent": ["grand"], "child": ["grand", "parent"], "sibling": ["grand", "parent"]}

    def sim(self, key, parameters, batch_size):
        return key, jnp.ones(2)

    for opts in itertools.product(subsets, repeat=4):
        toys.reset()
        own = dict(zip(who, opts))
        case = ("options", own)
        classes = {}
        refused = False
        for i, w in enumerate(who):
            base = apt.Plugin if w == "grand" else classes["parent" if w != "parent" else "grand"]
            cls = type("C29" + w, (base,), dict(depends_on=["batch_size"], provides=[w], simulate=sim, __module__="mc.toys"))
            classes[w] = cls
            if own[w] is None:
                continue
            twice = {o for a in above[w] if own[a] for o in own[a]} & set(own[w])
            # what a name means differs from class to class, so that a mix-up shows
            conf = [apt.Constant(name=f"c29_{o}", default=100.0 * i + j) for j, o in enumerate(own[w])]
            if twice:
                r.raises(Exception, "option-declared-twice-refused", lambda: apt.takes_config(*conf)(cls), case)
                refused = True
                break
            with r.guard("option-declaration", case):
                got = apt.takes_config(*conf)(cls)
                r.expect(got is cls, "decorated-class-is-the-class", case)
        r.case(case)
        n += 1
        if refused:
            continue
        for i, w in enumerate(who):
            want = {}
            for a in above[w] + [w]:
                for j, o in enumerate(own[a] or ()):
                    want[f"c29_{o}"] = 100.0 * who.index(a) + j
            with r.guard("options", case):
                r.expect(set(classes[w].takes_config) == set(want), "own-and-inherited-options", case, cls=w, got=sorted(classes[w].takes_config), want=sorted(want))
                toys.reset()
                p = classes[w]("c29")
                got = {k: getattr(p, k).value for k in want if hasattr(p, k)}
                r.expect(got == want, "options-have-the-declared-defaults", case, cls=w, got=got, want=want)
    for bad in (1.0, "o1", None, dict(name="o1"), apt.Constant):
        cls = type("C29bad", (apt.Plugin,), dict(depends_on=["batch_size"], provides=["x"], simulate=sim))
        r.case(("not-an-option", repr(bad)))
        r.raises(Exception, "not-an-option-refused", lambda: apt.takes_config(bad)(cls), repr(bad))
        r.raises(Exception, "not-an-option-refused", lambda: apt.takes_config(apt.Constant(name="ok", default=1), bad)(cls), repr(bad))
    for kind in (apt.Constant, apt.Map, apt.SigmaMap, apt.ConstantSet):
        r.raises(Exception, "dictionary-default-refused", lambda: kind(name="x", default={"l": 1.0}), kind.__name__)
    r.part("options", hierarchies=n)


BINS = {
    "one": ((np.array([0.0, 1.0, 3.0]),), "irreg"),
    "two": ((np.array([0.0, 1.0, 3.0]), np.array([[0.0, 1.0], [2.0, 4.0]])), "irreg"),
    "mesh": ((np.array([0.0, 1.0, 3.0]), np.array([0.0, 5.0])), "meshgrid"),
}


def same_bins(a, b):
    return len(a) == len(b) and all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a, b))


def check_new_component(r):
    """A new component has the class and the binning, and shares nothing that changes afterwards."""
    n = 0

    def val(v):
        return lambda self, key, parameters, batch_size: (key, jnp.full(2, v) * (parameters["t"] if v == 1.0 else 1.0))

    v1 = toys.plugin("C29V1", ["batch_size"], ["a"], val(1.0), ("t",))
    v2 = toys.plugin("C29V2", ["batch_size"], ["a"], val(2.0), ())
    cls = toys.component_cls("C29New", [v1])
    ops = ["reg0", "reg1", "ded0", "ded1", "rate0", "rate1"]
    depth = 5 if r.thorough else 4
    for llh in ("c29x", None):
        for hist in itertools.product(ops, repeat=depth):
            if not r.thorough and hist[0].endswith("1") and llh is None:
                continue
            if hist.count("ded0") > 1 or hist.count("ded1") > 1:
                continue  # deducing again needs a cleared cache, which C26 explores
            toys.reset()
            case = ("new-component", llh, hist)
            n += 1
            with r.guard("new-component", case):
                old = cls(name="er", llh_name="c29", bins=BINS["one"][0], bins_type="irreg")
                new = old.new_component(llh_name=llh)
                cs = [old, new]
                cur = ["C29V1", "C29V1"]
                compiled = [None, None]
                rates = ["", ""]
                for op in hist:
                    i = int(op[-1])
                    if op[:3] == "reg":
                        cs[i].register(v2)
                        cur[i] = "C29V2"
                    elif op[:3] == "rat":
                        rates[i] = f"rate{i}"
                        cs[i].rate_name = rates[i]
                    else:
                        cs[i].deduce(data_names=["a"], func_name=f"f29_{i}", force_no_eff=True)
                        cs[i].compile()
                        compiled[i] = (cur[i], {"t"} if cur[i] == "C29V1" else set(), rates[i])
                    for j in (0, 1):
                        if compiled[j] is None:
                            r.expect(set(cs[j].needed_parameters) == set(), "not-deduced-needs-nothing", case, which=j)
                            continue
                        name, need, rate = compiled[j]
                        r.expect(
                            set(cs[j].needed_parameters) == need | ({rate} - {""}), "own-needed-parameters", case + (op,), which=j,
                            got=sorted(cs[j].needed_parameters),
                        )
                        with jax.disable_jit():
                            out = np.asarray(cs[j].simulate(KEY, 2, {"t": 3.0})[1][0])
                        r.expect(np.all(out == (3.0 if name == "C29V1" else 2.0)), "own-simulation", case + (op,), which=j, got=out)
                r.case(case)
    for (bn, (bins, kind)), passed, llh in itertools.product(BINS.items(), (True, False), ("m", None)):
        for c in [getattr(apt.components, x) for x in sorted(dir(apt.components))]:
            if not (isinstance(c, type) and issubclass(c, apt.ComponentSim) and c is not apt.ComponentSim):
                continue
            if c.__name__.startswith("C") and c is not cls:
                continue
            case = ("new-component", c.__name__, bn, passed, llh)
            r.case(case)
            n += 1
            with r.guard("new-component", case):
                old = c(name="er", llh_name="c29", bins=bins, bins_type=kind)
                new = old.new_component(llh_name=llh, pass_binning=passed)
                r.expect(type(new) is c and new is not old, "same-class", case)
                r.expect(new.llh_name == llh if llh else new.llh_name == c.__name__ + "_llh", "own-likelihood-name", case, got=new.llh_name)
                r.expect(new.name != old.name and old.name == "er" and old.llh_name == "c29", "own-name", case, got=new.name)
                if passed:
                    r.expect(same_bins(new.bins, bins) and new.bins_type == kind, "same-binning", case)
                else:
                    r.expect(getattr(new, "bins", None) is None, "no-binning", case)
                r.expect(same_bins(old.bins, bins) and old.bins_type == kind, "old-one-unchanged", case)
    bare = cls(name="er", llh_name="c29")
    r.raises(ValueError, "no-binning-to-pass-refused", lambda: bare.new_component(llh_name="m"), "bare")
    with r.guard("new-component", "bare"):
        r.expect(type(bare.new_component(llh_name="m", pass_binning=False)) is cls, "same-class", "bare")
    r.part("new-components", histories=n, depth=depth)


def check_refusals(r):
    """Components and likelihoods that can not be simulated as asked."""
    n = 0
    src = source()
    eff = toys.plugin("C29Eff", ["a"], ["eff"], lambda self, key, parameters, a: (key, jnp.ones(2)))
    edges = [np.array([0.0, 1.0, 3.0])]
    mk = dict(name="c", llh_name="c29")

    def refuse(what, fn):
        nonlocal n
        n += 1
        r.case(("refused", what))
        toys.reset()
        r.raises(Exception, "refused", fn, what)

    for t in ("regular", "", "equiprob", "IRREG", 1):
        refuse(("bins_type", t), lambda: apt.ComponentSim(bins=edges, bins_type=t, **mk))
    for kw in ({"bins": edges}, {"bins_type": "irreg"}, {}):
        refuse(("set_binning", sorted(kw)), lambda: apt.ComponentSim(**mk).set_binning(**kw))
    for names in (None, {"a", "b"}, 3, {"a": 1}):
        def f():
            c = apt.ComponentSim(**mk)
            c.register(src)
            c.deduce(data_names=names, force_no_eff=True)
            c.compile()
            c.simulate(KEY, 2, {})
        if not isinstance(names, (set, dict)):
            refuse(("data_names", repr(names)), f)
    for names in (["nothing"], ["a", "nothing"]):
        def f():
            c = apt.ComponentSim(**mk)
            c.register(src)
            c.deduce(data_names=names, force_no_eff=True)
        refuse(("unknown-data", tuple(names)), f)
    for norm in ("", "on_data", None, "ON_PDF"):
        for what in ("simulate_hist", "simulate_weighted_data"):
            def f():
                c = toys.component_cls("C29Norm", [src, eff], norm_type=norm, register=False)(bins=edges, bins_type="irreg", **mk)
                c.rate_name = "rate"
                c.deduce(data_names=["a"], func_name="fn29")
                c.compile()
                getattr(c, what)(KEY, 2, {"rate": 1.0})
            refuse(("norm_type", norm, what), f)
    for d in (3, 4):
        def f():
            src3 = toys.plugin("C29S3", ["batch_size"], ["u", "v", "w", "x"], lambda self, key, parameters, batch_size: (key, *[jnp.ones(2)] * 4))
            e3 = toys.plugin("C29E3", ["u"], ["eff"], lambda self, key, parameters, u: (key, jnp.ones(2)))
            c = toys.component_cls("C29D3", [src3, e3], register=False)(bins=[np.array([0.0, 2.0])] * d, bins_type="irreg", **mk)
            c.rate_name = "rate"
            c.deduce(data_names=["u", "v", "w", "x"][:d], func_name="fd29")
            c.compile()
            c.simulate_hist(KEY, 2, {"rate": 1.0})
        refuse(("dimensions", d), f)
    fixed = toys.fixed_cls("C29Fixed")
    path = toys.write_csv(os.path.join(r.scratch, "c29.csv"), {"a": [0.5, 1.5]})
    for kw in ({}, {"file_name": None}, {"file_name": ""}):
        refuse(("fixed-without-file", repr(kw)), lambda: fixed(bins=edges, bins_type="irreg", **mk, **kw))
    refuse("fixed-unknown-file", lambda: fixed(file_name="c29_nothere.csv", bins=edges, bins_type="irreg", **mk).deduce(data_names=["a"]))
    refuse("fixed-unknown-column", lambda: fixed(file_name=path, bins=edges, bins_type="irreg", **mk).deduce(data_names=["zz"]))
    refuse("fixed-simulate", lambda: fixed(file_name=path, bins=edges, bins_type="irreg", **mk).simulate())
    llh = lambda: apt.Likelihood(name="c29", data_file_name=path, bins_type="irreg", bins_on="a", bins=edges, clip=[0, 3])
    for bad in (apt.Component, apt.Plugin, int):
        def f():
            x = llh()
            x.register_component(bad, "c")
            x.get_log_likelihood(KEY, 2, {"c_rate": 1.0})
        refuse(("not-a-component", bad.__name__), f)
    base = toys.plugin("C29Abs", ["batch_size"], ["q"], lambda self, key, parameters, batch_size: (key, jnp.ones(2)), register=False)
    refuse("abstract-plugin-simulate", lambda: apt.Plugin.simulate(base("c29"), KEY, {}))
    refuse("abstract-plugin", lambda: apt.Plugin("c29"))
    r.part("refusals", cases=n)


def run(r):
    r.rule = "one case per definition or history; refused ones must raise, accepted ones are simulated and compared"
    r.assumptions = ["an extra argument without default may be noticed as late as when the plugin is simulated"]
    check_signatures(r)
    check_outputs(r)
    check_options(r)
    check_new_component(r)
    check_refusals(r)
    r.states += r.evaluations
    r.transitions += r.evaluations
    r.traces += r.evaluations
