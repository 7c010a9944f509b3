"""C26: components never overwrite each other's compiled simulations."""

import itertools

import jax

import appletree as apt
import appletree.share as share
from mc import toys

OPT = "mc_option"


def make_plugins():
    def src(self, key, parameters, batch_size):
        return key, (type(self).__name__, self.llh_name, self.mc_option.value, batch_size)

    def nxt(self, key, parameters, a):
        return key, (type(self).__name__, self.llh_name, self.mc_option.value, a)

    def eff(self, key, parameters, b):
        return key, ("eff", self.llh_name, b)

    def cfg():
        return [apt.Constant(name=OPT, default=0)]

    toys.plugin("NsA", ["batch_size"], ["a"], src, (), cfg())
    toys.plugin("NsA2", ["batch_size"], ["a"], src, (), cfg())
    toys.plugin("NsB", ["a"], ["b"], nxt, (), cfg())
    toys.plugin("NsE", ["b"], ["eff"], eff)


class Toy(apt.ComponentSim):
    norm_type = "on_pdf"


# name: (likelihood, component name, function name, plugin of a, requested data)
COMPS = {
    "1": ("A", "X", "f1", "NsA", ["b"]),
    "2": ("A", "Y", "f2", "NsA", ["a", "b"]),
    "3": ("A", "X", "f3", "NsA", ["b"]),  # same instances as 1
    "4": ("A", "Z", "f1", "NsA2", ["b"]),  # same function as 1
    "5": ("B", "X", "f1", "NsA2", ["a"]),  # another likelihood
}


def names_of(i):
    llh, name, func, pa, _ = COMPS[i]
    return {func} | {f"{p}_{name}" for p in (pa, "NsB", "NsE")}


def expected(i, opt):
    llh, _, _, pa, req = COMPS[i]
    a = (pa, llh, opt, 77)
    b = ("NsB", llh, opt, a)
    vals = {"a": a, "b": b, "eff": ("eff", llh, b)}
    return [vals[x] for x in req + ["eff"]]


class Model:
    def __init__(self):
        self.taken = {}  # likelihood -> names
        self.built = {}  # component -> option value at the last compilation
        self.fresh = set()  # components whose code belongs to the current cache
        self.opt = 0

    def key(self):
        return (
            tuple(sorted((k, tuple(sorted(v))) for k, v in self.taken.items())),
            tuple(sorted(self.built.items())),
            tuple(sorted(self.fresh)),
            self.opt,
        )


def step(m, op):
    """Reference semantics; returns (new model, outcome)."""
    n = Model()
    n.taken = {k: set(v) for k, v in m.taken.items()}
    n.built, n.fresh, n.opt = dict(m.built), set(m.fresh), m.opt
    kind, _, i = op.partition(" ")
    if kind == "make":
        llh = COMPS[i][0]
        if names_of(i) & n.taken.get(llh, set()):
            return n, "raises"
        n.taken.setdefault(llh, set()).update(names_of(i))
        n.built[i] = n.opt
        n.fresh.add(i)
    elif kind == "recompile":
        n.built[i] = n.opt
    elif kind == "option":
        n.opt = 1 - n.opt
    elif kind == "clear":
        n.taken = {}
        n.fresh = set()
    return n, "ok"


def enabled(m):
    ops = [f"make {i}" for i in COMPS]
    ops += [f"recompile {i}" for i in sorted(m.fresh)]
    ops += ["option", "clear"]
    return ops


def run_history(r, hist, models):
    toys.reset()
    comps = {}
    for d, op in enumerate(hist):
        case = list(hist[: d + 1])
        kind, _, i = op.partition(" ")
        after = models[d + 1]
        if kind == "make":
            llh, name, func, pa, req = COMPS[i]
            c = comps.get(i)
            if c is None:
                c = Toy(name=name, llh_name=llh)
                for p in (pa, "NsB", "NsE"):
                    c.register(getattr(apt.plugins, p))
            if step(models[d], op)[1] == "raises":
                r.raises(Exception, "overwriting-deduction-refused",
                         lambda: (c.deduce(list(req), func_name=func), c.compile()), case)
            else:
                with r.guard("deduce", case):
                    c.deduce(list(req), func_name=func)
                    c.compile()
                comps[i] = c
        elif kind == "recompile":
            with r.guard("recompile", case):
                comps[i].compile()
        elif kind == "option":
            share._cached_configs[OPT] = after.opt
        else:
            share._cached_functions.clear()
        # every component still runs its own plugins
        for i, built in after.built.items():
            with r.guard("run", case):
                key, out = comps[i].simulate("key", 77, {})
                r.expect(list(out) == expected(i, built), "runs-its-own-plugins", [case, f"component {i}"],
                         got=list(out), want=expected(i, built))
    r.case(tuple(hist))


def likelihood_level(r):
    """Any number of differently named components in one likelihood; same names in two likelihoods."""
    csv = toys.write_csv(r.scratch + "/d.csv", {"a": [0.5, 1.5], "b": [0.5, 1.5]})
    toys.component_cls("NsComp", [apt.plugins.NsA, apt.plugins.NsB, apt.plugins.NsE])
    toys.component_cls("NsComp2", [apt.plugins.NsA2, apt.plugins.NsB, apt.plugins.NsE])
    kinds = ["NsComp", "NsComp2"]
    n = 0
    for names in itertools.product(["X", "Y", "X_copy"], repeat=3):
        for cls in itertools.product(kinds, repeat=3) if len(set(names)) == 3 else [("NsComp", "NsComp2", "NsComp")]:
            toys.reset()
            llhs = {}
            for llh_name in ("L1", "L2"):
                llhs[llh_name] = apt.Likelihood(
                    name=llh_name, data_file_name=csv, bins_type="meshgrid", bins_on=["a", "b"], bins=[2, 2],
                    x_clip=[0, 2], y_clip=[0, 2],
                )
                seen = set()
                for name, c in zip(names, cls):
                    case = [names, cls, llh_name, name]
                    n += 1
                    r.case((names, cls, llh_name, name))
                    if name in seen:
                        r.raises(Exception, "duplicate-component-refused",
                                 lambda: llhs[llh_name].register_component(getattr(apt.components, c), name), case)
                    else:
                        with r.guard("register-component", case):
                            llhs[llh_name].register_component(getattr(apt.components, c), name)
                        seen.add(name)
            first = {}
            for name, c in zip(names, cls):
                first.setdefault(name, c)
            for llh_name, llh in llhs.items():
                for name, c in first.items():
                    with r.guard("run-component", [names, cls, llh_name, name]):
                        _, out = llh[name].simulate("key", 77, {})
                        pa = "NsA" if c == "NsComp" else "NsA2"
                        a = (pa, llh_name, 0, 77)
                        b = ("NsB", llh_name, 0, a)
                        r.expect(list(out) == [a, b, ("eff", llh_name, b)], "likelihood-component-runs-its-own",
                                 [names, cls, llh_name, name], got=list(out))
    r.part("components of likelihoods", cases=n)


def copies(r):
    """A copy under its own name and the original do not disturb each other."""
    for order in itertools.permutations(["orig", "copy"]):
        toys.reset()
        c = Toy(name="X", llh_name="A")
        case = list(order)
        with r.guard("copy", case):
            d = c.new_component(llh_name="A", pass_binning=False)
            for x in (c, d):
                for p in ("NsA", "NsB", "NsE"):
                    x.register(getattr(apt.plugins, p))
            for what in order:
                share._cached_configs[OPT] = 5 if what == "copy" else 3
                (c if what == "orig" else d).deduce(["b"], func_name="f_" + what)
                (c if what == "orig" else d).compile()
            r.case(("copy", order))
            r.expect(c.simulate("k", 77, {})[1][0] == ("NsB", "A", 3, ("NsA", "A", 3, 77)), "original-after-copy", case)
            r.expect(d.simulate("k", 77, {})[1][0] == ("NsB", "A", 5, ("NsA", "A", 5, 77)), "copy-after-original", case)


def run(r):
    r.rule = "every history up to the depth; after each step every component compiled so far is run and compared"
    r.assumptions = ["jit is disabled", "deduction and compilation of a component happen together, as likelihoods do"]
    make_plugins()
    with jax.disable_jit():
        r.bfs(
            "make/recompile/option/clear histories",
            Model(),
            lambda m: [(op, step(m, op)[0]) for op in enabled(m)],
            lambda h, ms: run_history(r, h, ms),
            lambda m: m.key(),
            depth=6 if r.thorough else 4,
        )
        likelihood_level(r)
        copies(r)
    toys.reset()
