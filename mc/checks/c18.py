"""C18: registering extensions never silently replaces something."""

import itertools
import os
import pkgutil
import importlib
import types
import warnings

import jax
import numpy as np

import appletree as apt
from appletree.component import _add_component_extension, add_component_extensions
from appletree.plugin import _add_plugin_extension, add_plugin_extensions
from mc import toys

F = np.float32


def new_plugin(name, bases=None, **attrs):
    """A plugin class that is not registered anywhere."""
    return type(name, bases or (apt.Plugin,), {"depends_on": ["batch_size"], "provides": ["x"], "__module__": "mc.ext", **attrs})


def new_component(name, bases=None, **attrs):
    return type(name, bases or (apt.ComponentSim,), {"norm_type": "on_pdf", "__module__": "mc.ext", **attrs})


def module(name, **members):
    m = types.ModuleType(name)
    for k, v in members.items():
        setattr(m, k, v)
    return m


class Plain:
    """Neither plugin nor component."""


def helper():
    """A function."""


class World:
    """The registrations to choose from, and which members of a module are to become available."""

    def __init__(self, kind):
        make, base = (new_plugin, apt.Plugin) if kind == "plugin" else (new_component, apt.Component)
        other = new_component("Other") if kind == "plugin" else new_plugin("Other")
        E1, E2, E3, E4, E1b = make("E1"), make("E2"), make("E3"), make("E4"), make("E1")
        UBase = make("UBase", _UBase__is_base=True)
        USub = make("USub", bases=(UBase,))
        ext = make("ext")
        members = dict(Plain=Plain, helper=helper, number=3, text="E9", Other=other)
        bases = {"Plugin": apt.Plugin, "ComponentSim": apt.ComponentSim, "ComponentFixed": apt.ComponentFixed, "Component": apt.Component}
        bases.update({"Map": apt.Map, "np": np, "instance": object()})
        self.modules = {
            "pkg.ext": module("pkg.ext", E1=E1, E2=E2, **members, **bases),
            "other.ext": module("other.ext", E3=E3),
            "extb": module("extb", E1=E1b, E4=E4),
            "extc": module("extc", Other=other, **bases),
            "deep.pkg.E1": module("deep.pkg.E1", E3=E3, UBase=UBase, USub=USub),
            "exte": module("exte", ext=ext, E2=E2),
        }
        self.singles = {"E1b": E1b, "E1": E1, "E4": E4, "UBase": UBase, "USub": USub, "base": base, "Plain": Plain, "Other": other, "ext": ext}
        if kind == "component":
            self.singles["ComponentSim"] = apt.ComponentSim
        bad = {id(UBase), id(apt.Plugin), id(apt.Component), id(apt.ComponentSim), id(apt.ComponentFixed)}

        def wanted(x):
            return isinstance(x, type) and issubclass(x, base) and id(x) not in bad

        self.offers = {n: {v.__name__: v for v in vars(m).values() if wanted(v)} for n, m in self.modules.items()}
        self.single_offers = {n: ({v.__name__: v} if wanted(v) else {}) for n, v in self.singles.items()}
        if kind == "plugin":
            self.add, self.add_one = add_plugin_extensions, _add_plugin_extension
        else:
            self.add, self.add_one = add_component_extensions, _add_component_extension

    def ops(self):
        for n in self.modules:
            for force in (False, True):
                yield ("module", n, force)
        for n in self.singles:
            for force in (False, True):
                yield ("single", n, force)


def visible(ns):
    return {k: v for k, v in vars(ns).items() if not (k.startswith("__") and k.endswith("__"))}


def step(r, w, ns, others, op, case):
    """One registration, judged against the namespace before."""
    kind, name, force = op
    before = visible(ns)
    if kind == "module":
        m = w.modules[name]
        asked = {m.__name__.split(".")[-1]: m}
        clash = set(asked) & set(before) or set(w.offers[name]) & set(before)
        # a class of the module with the name of the module itself
        asked_all = {**asked, **w.offers[name]}
    else:
        asked_all = dict(w.single_offers[name])
        clash = set(asked_all) & set(before)
    content = {n: visible(m) for n, m in w.modules.items()}
    try:
        if kind == "module":
            w.add(ns, w.modules[name], **({"force": True} if force else {}))
        else:
            w.add_one(ns, w.singles[name], **({"force": True} if force else {}))
        raised = False
    except ValueError:
        raised = True
    after = visible(ns)
    if clash and not force:
        r.expect(raised, "taken-name-raises", case, taken=sorted(clash))
        r.expect(all(after.get(k) is v for k, v in before.items()), "taken-name-stays", case, changed=[k for k in before if after.get(k) is not before[k]])
        new = set(after) - set(before)
        r.expect(all(asked_all.get(k) is after[k] for k in new), "nothing-else-appears", case, new=sorted(new))
    else:
        if not r.expect(not raised, "free-name-is-registered", case, force=force):
            return
        want = {**before, **asked_all}
        r.expect(set(after) == set(want), "exactly-its-members-become-available", case, got=sorted(set(after) ^ set(want)))
        r.expect(all(after.get(k) is v for k, v in want.items()), "available-under-its-own-name", case, wrong=[k for k in want if after.get(k) is not want[k]])
    r.expect(all(visible(o) == c for o, c in others), "only-the-namespace-asked-for", case)
    r.expect(all(visible(m) == content[n] for n, m in w.modules.items()), "extension-is-not-changed", case)


def check_extensions(r):
    for kind in ("plugin", "component"):
        w = World(kind)
        ops = list(w.ops())
        depth = 4 if r.thorough else 3
        n = 0
        other = types.ModuleType("other_target")
        watched = [(other, visible(other)), (apt.plugins, visible(apt.plugins)), (apt.components, visible(apt.components))]
        seen = set()
        for h in itertools.product(ops, repeat=depth):
            if depth == 4 and sum(op[2] for op in h) > 2:
                continue
            ns = types.ModuleType("target")
            ns.helper2 = helper
            for d, op in enumerate(h):
                case = (kind,) + h[: d + 1]
                # later steps are judged whether or not this prefix was seen before
                with r.guard("register", case):
                    fresh = case not in seen
                    if fresh:
                        seen.add(case)
                        step(r, w, ns, watched if d == 0 else watched[:1], op, case)
                        r.case(case)
                    else:
                        try:
                            if op[0] == "module":
                                w.add(ns, w.modules[op[1]], force=op[2])
                            else:
                                w.add_one(ns, w.singles[op[1]], force=op[2])
                        except ValueError:
                            pass
                r.transitions += 1
            n += 1
        r.traces += n
        r.states += len(seen)
        r.part(f"{kind}-registrations", histories=n, prefixes=len(seen), operations=len(ops), depth=depth)


def interface(x):
    return (
        tuple(getattr(x, "depends_on", ())), tuple(getattr(x, "provides", ())), tuple(getattr(x, "parameters", ())),
        {k: repr(v.default) for k, v in getattr(x, "takes_config", {}).items()}, getattr(x, "norm_type", None),
    )


def check_package(r):
    """Everything the package defines is available under its own name."""
    for pkg, base in ((apt.plugins, apt.Plugin), (apt.components, apt.Component)):
        for info in pkgutil.iter_modules(pkg.__path__):
            m = importlib.import_module(f"{pkg.__name__}.{info.name}")
            for x in vars(m).values():
                if isinstance(x, type) and issubclass(x, base) and x.__module__ == m.__name__:
                    case = ("package", m.__name__, x.__name__)
                    r.case(case)
                    got = getattr(pkg, x.__name__, None)
                    # one plugin is defined twice with the same meaning
                    r.expect(got is x or (got is not None and interface(got) == interface(x)), "packaged-class-available", case)


# ---------------------------------------------------------------------------------------- in use
def check_use(r):
    """What is registered is what a component or context uses."""
    import jax.numpy as jnp

    xs = np.array([0.5, 0.75, 1.25, 1.5], F)
    csv = toys.write_csv(os.path.join(r.scratch, "x.csv"), {"x": [0.6, 1.5]})

    def plug(value, provides=("x", "eff")):
        def func(self, key, parameters, batch_size):
            return (key, *[jnp.asarray(xs * 0 + (value if p == "x" else 1.0)) for p in provides])

        return toys.plugin("ExtPlug", ["batch_size"], list(provides), func, register=False)

    P1, P2 = plug(1.0), plug(2.0)

    def comp(p):
        def __init__(self, *a, **k):
            apt.ComponentSim.__init__(self, *a, **k)
            self.register(p)

        return new_component("ExtComp", __init__=__init__, norm_type="on_sim")

    C1, C2 = comp(P1), comp(P2)
    mods = {"P1": module("ext_one", ExtPlug=P1), "P2": module("ext_two", ExtPlug=P2)}
    cmods = {"C1": module("extc_one", ExtComp=C1), "C2": module("extc_two", ExtComp=C2)}
    pars = toys.write_json(os.path.join(r.scratch, "p.json"), {"er_rate": toys.par("uniform", prior_args={"lower": 0.5, "upper": 9.0}, allowed_range=[0.5, 9.0], init_mean=4.0, init_std=0.5)})
    names = ["ExtPlug", "ExtComp", "ext_one", "ext_two", "extc_one", "extc_two"]

    def clean():
        for pkg in (apt.plugins, apt.components):
            for x in names:
                if hasattr(pkg, x):
                    delattr(pkg, x)

    n = 0
    ops = [("p", a, f) for a in mods for f in (False, True)] + [("c", a, f) for a in cmods for f in (False, True)]
    for h in itertools.product(ops, repeat=3):
        case = ("use",) + h
        clean()
        toys.reset()
        now = {"p": None, "c": None}
        try:
            with r.guard("use", case):
                for k, a, f in h:
                    target, ms, add = (apt.plugins, mods, add_plugin_extensions) if k == "p" else (apt.components, cmods, add_component_extensions)
                    try:
                        add(target, ms[a], force=f)
                        now[k] = a
                    except ValueError:
                        # the module might be there while its class is not
                        now[k] = now[k] or a
                if now["c"]:
                    r.expect(getattr(apt.components, "ExtComp", None) is (C1 if now["c"] == "C1" else C2), "registered-component-is-the-one-in-use", case)
                if now["p"] is None or now["c"] is None:
                    continue
                ins = {
                    "likelihoods": {"l": {
                        "data_file_name": csv, "bins_type": "irreg", "bins_on": ["x"], "bins": [[0.0, 1.5, 20.0]], "clip": [0.0, 20.0],
                        "components": {"er": "ExtComp"}, "copy_parameters": {},
                    }},
                    "par_config": pars,
                }
                with jax.disable_jit():
                    ctx = apt.Context(ins)
                    _, out = ctx["l"]["er"].simulate(jax.random.PRNGKey(0), 4, {"er_rate": 1.0})
                want = 1.0 if now["p"] == "P1" else 2.0
                r.expect(np.all(np.asarray(out[0]) == want), "registered-plugin-is-the-one-simulated", case, got=out[0], want=want)
                r.case(case)
                n += 1
        finally:
            clean()
    r.traces += n
    r.part("registrations-in-use", histories=n)


# ---------------------------------------------------------------------------------------- to a component
def check_component(r):
    import jax.numpy as jnp

    def make(name, provides, value, options, as_str=False):
        def func(self, key, parameters, batch_size):
            return (key, *[jnp.full(2, F(value)) for _ in provides])

        cls = toys.plugin(name, ["batch_size"], list(provides), func, configs=[apt.Constant(name=o, default=d) for o, d in options.items()])
        if as_str:
            cls.provides = provides[0]
        return cls

    spec = {
        "RA1": (["a"], {"x": 1.0}, False),
        "RA2": (["a", "b"], {"x": 1.0, "y": 5.0}, False),
        "RB1": (["b"], {"x": 2.0}, False),
        "RB2": (["b"], {"y": 5.0}, True),
        "RC1": (["c"], {"x": 2.0}, False),
        "RC2": (["c", "a"], {}, False),
        "RY": (["c"], {"y": 6.0}, False),
        "RS": (["b"], {"x": "1.0"}, False),
        "RL": (["b", "c"], {"z": [1.0, 2.0]}, False),
        "RM": (["c"], {"z": [1.0, 2.5]}, False),
    }
    value = {n: float(i + 1) for i, n in enumerate(spec)}
    cls = {n: make(n, p, value[n], o, s) for n, (p, o, s) in spec.items()}
    singles = [(n,) for n in spec]
    lists = [("RA1", "RB2"), ("RB2", "RA1"), ("RA1", "RC2"), ("RA1", "RC1"), ("RL", "RA2")]
    mods = {"mod1": module("mod1", RA1=cls["RA1"], RB2=cls["RB2"], helper=helper, Plain=Plain), "mod2": module("mod2", RC2=cls["RC2"], RL=cls["RL"], np=np, Map=apt.Map)}
    mod_order = {"mod1": ("RA1", "RB2"), "mod2": ("RC2", "RL")}
    ops = [("register", s) for s in singles + lists] + [("all", (m,)) for m in mods] + [("all", ("mod1", "mod2")), ("all", ("mod2", "mod1"))]
    n = conflicts = 0
    for h in itertools.product(ops, repeat=4 if r.thorough else 3):
        case = ("component",) + h
        c = apt.ComponentSim(name="c", llh_name="l")
        registry, history, stop = {}, [], False
        with r.guard("component", case):
            for d, (how, what) in enumerate(h):
                flat = what if how == "register" else sum((mod_order[m] for m in what), ())
                refuse = maybe = False
                for x in flat:
                    for p in spec[x][0]:
                        registry[p] = x
                    history.append(x)
                    for y in history:
                        clash = any(spec[x][1][o] != spec[y][1][o] for o in set(spec[x][1]) & set(spec[y][1]))
                        if clash and y in registry.values():
                            refuse = True
                        elif clash:
                            maybe = True  # with a plugin which is not in use any more
                try:
                    if how == "register":
                        c.register(cls[what[0]] if len(what) == 1 else [cls[x] for x in what] if d % 2 else tuple(cls[x] for x in what))
                    else:
                        c.register_all(mods[what[0]] if len(what) == 1 else [mods[m] for m in what])
                    raised = False
                except ValueError:
                    raised = True
                if refuse:
                    conflicts += 1
                    r.expect(raised, "conflicting-default-is-refused", case[: d + 2])
                    stop = True
                elif not maybe:
                    r.expect(not raised, "agreeing-plugins-are-accepted", case[: d + 2])
                if raised or stop:
                    stop = True
                    break
            r.case(case)
            n += 1
            if stop:
                continue
            got = {}
            with jax.disable_jit():
                toys.reset()
                for p in registry:
                    toys.clear_functions()
                    c.deduce(data_names=[p], func_name="f", force_no_eff=True)
                    c.compile()
                    _, out = c.simulate(jax.random.PRNGKey(0), 2, {"c_rate": 1.0})
                    got[p] = float(out[0][0])
            r.expect(got == {p: value[x] for p, x in registry.items()}, "latest-provider-is-in-use", case, got=got, want=registry)
            for p in {"a", "b", "c"} - set(registry):
                r.raises(ValueError, "unregistered-data-raises", lambda: c.deduce(data_names=[p], func_name="g", force_no_eff=True), case + (p,))
    r.traces += n
    r.part("component-registrations", histories=n, refused=conflicts)


def run(r):
    r.rule = "one case per prefix of a history of registrations"
    r.assumptions = ["after a refused registration of a module, members registered before the collision may be available", "a default in conflict with one of a plugin that is no longer in use may or may not be refused"]
    warnings.simplefilter("ignore")
    check_package(r)
    check_component(r)
    check_use(r)
    check_extensions(r)
