"""C11: configuration values resolve to the latest setting, per likelihood."""

import itertools
import os
from copy import deepcopy

import numpy as np

import appletree as apt
import appletree.share as share
from mc import toys

F = np.float32
NODEF = "<none>"
# the name of one likelihood is the beginning of the other's
A, B = "L", "L1"


class Model:
    """Options set by the user; a built plugin keeps what it saw."""

    def __init__(self, defaults):
        self.defaults = defaults
        self.opts = {}

    def clear(self):
        self.opts = {}

    def set(self, configs):
        self.opts.update(deepcopy(configs))

    def resolve(self, name, llh):
        if name not in self.opts:
            if self.defaults[name] == NODEF:
                raise ValueError(name)
            return deepcopy(self.defaults[name])
        v = self.opts[name]
        if isinstance(v, dict):
            if llh not in v:
                raise ValueError((name, llh))
            v = v[llh]
        return deepcopy(v)


def setter_forms():
    """Ways a user sets options."""

    class C(apt.ComponentSim):
        pass

    comp = C(name="c11", llh_name="c11")
    return [share.set_global_config, comp.set_config]


def run_history(r, part, hist, ops, plugins, takes, defaults, read, probes):
    """ops: label -> ('set', dict) | ('clear',) | ('build', plugin, llh)"""
    toys.reset()
    setters = setter_forms()
    model = Model(defaults)
    alive = []  # (plugin object, {name: value it was built with}, label)
    case = (part, hist)
    for i, label in enumerate(hist):
        op = ops[label]
        if op[0] == "clear":
            apt.clear_cache()
            model.clear()
        elif op[0] == "set":
            given = deepcopy(op[1])
            with r.guard(part + "/set", case):
                setters[i % 2](given)
            r.expect(given == op[1], part + "/settings-passed-in-unchanged", case)
            model.set(op[1])
            # the user's own object changing later is not a setting
            for v in given.values():
                if isinstance(v, dict):
                    v.clear()
        else:
            _, pname, llh = op
            try:
                want = {n: model.resolve(n, llh) for n in takes[pname]}
            except ValueError:
                want = None
            if want is None:
                r.raises(Exception, part + "/unresolvable-option-raises", lambda: plugins[pname](llh), case)
                # which of the other options a failed build touched does not matter
            else:
                with r.guard(part + "/build", case):
                    p = plugins[pname](llh)
                    alive.append((p, want, f"{label}@{i}"))
        for p, want, where in alive:
            for n, v in want.items():
                got = read(p, n)
                ok = np.array_equal(got, probes(v)) if not isinstance(got, float) else got == probes(v)
                r.expect(ok, part + "/plugin-has-its-value", (case, where, n, i), got=got, want=probes(v))
    r.case(case, nontrivial=bool(alive))
    r.traces += 1


def src(self, key, parameters, batch_size):
    return key, 0.0


def check_constants(r):
    toys.reset()
    cfg = lambda *names: [  # noqa: E731
        apt.Constant(name=n, **({} if d[n] == NODEF else {"default": d[n]})) for n in names
    ]
    d = {"mc_a": 1.0, "mc_b": 10.0, "mc_n": NODEF}
    takes = {"P": ["mc_a"], "Q": ["mc_a", "mc_b"], "R": ["mc_n"]}
    plugins = {k: toys.plugin(f"C11{k}", ["batch_size"], [f"o{k}"], src, (), cfg(*v)) for k, v in takes.items()}
    ops = {
        "a=2": ("set", {"mc_a": 2.0}),
        "a={A,B}": ("set", {"mc_a": {A: 3.0, B: 4.0}}),
        "a={A}": ("set", {"mc_a": {A: 0}}),
        "b,n": ("set", {"mc_b": 20.0, "mc_n": 0}),
        "b=0": ("set", {"mc_b": 0, "mc_n": 5}),
        "clear": ("clear",),
        "P(A)": ("build", "P", A),
        "P(B)": ("build", "P", B),
        "Q(A)": ("build", "Q", A),
        "Q(B)": ("build", "Q", B),
        "R(B)": ("build", "R", B),
    }

    def read(p, n):
        return float(getattr(p, n).value)

    depth = 5 if r.thorough else 4
    for k in range(1, depth + 1):
        for h in itertools.product(ops, repeat=k):
            if not h[-1].endswith(")"):
                continue  # the last operation has to observe something
            run_history(r, "constant", h, ops, plugins, takes, d, read, float)
    r.part("constants", alphabet=len(ops), depth=depth)


def check_sets(r):
    """Sets of constants, and list values whose list changes afterwards."""
    toys.reset()
    d = {"mc_s": [["q", "p"], [[1.0], [2.0]]]}
    takes = {"P": ["mc_s"], "Q": ["mc_s"]}
    mk = lambda: [apt.ConstantSet(name="mc_s", default=d["mc_s"])]  # noqa: E731
    plugins = {k: toys.plugin(f"C11S{k}", ["batch_size"], [f"o{k}"], src, (), mk()) for k in takes}
    v1, v2 = [["q", "p"], [[3.0, 4.0], [5.0, 6.0]]], [["q"], [[7.0]]]
    ops = {
        "s=1": ("set", {"mc_s": v1}),
        "s={A,B}": ("set", {"mc_s": {A: v2, B: v1}}),
        "s={B}": ("set", {"mc_s": {B: v2}}),
        "clear": ("clear",),
        "P(A)": ("build", "P", A),
        "P(B)": ("build", "P", B),
        "Q(A)": ("build", "Q", A),
    }

    def flat(v):
        return [(k, list(x)) for k, x in zip(*v)]

    def read(p, n):
        s = getattr(p, n)
        return np.array([str((k, v.tolist())) for k, v in sorted(s.value.items())] + [f"volume {s.set_volume}"])

    def probe(v):
        return np.array([str((k, list(x))) for k, x in sorted(zip(*v))] + [f"volume {len(v[1][0])}"])

    depth = 5 if r.thorough else 4
    for k in range(1, depth + 1):
        for h in itertools.product(ops, repeat=k):
            if h[-1].endswith(")"):
                run_history(r, "constant-set", h, ops, plugins, takes, d, read, probe)
    # malformed sets
    for bad in ([["p"]], [["p", "q"], [[1.0]]], [["p", "q"], [[1.0], [1.0, 2.0]]], [["p"], [[1.0]], [[2.0]]]):
        toys.reset()
        share.set_global_config({"mc_s": bad})
        r.case(("bad-set", bad))
        r.raises(Exception, "malformed-set-raises", lambda: plugins["P"](A), bad)
    # the list handed in changes after the plugin was built
    for per in (False, True):
        toys.reset()
        lst = deepcopy(v1)
        share.set_global_config({"mc_s": {A: lst} if per else lst})
        p = plugins["P"](A)
        want = probe(v1)
        lst[1][0][0] = 99.0
        share._cached_configs["mc_s"] = {A: v2}
        r.case(("mutated", per))
        r.expect(np.array_equal(read(p, "mc_s"), want), "plugin-keeps-its-values", ("mutated", per))
    r.part("constant sets", alphabet=len(ops), depth=depth)


def check_maps(r):
    toys.reset()
    files = {}
    dirs = [os.path.join(r.scratch, x) for x in ("one", "two")]
    for di, dd in enumerate(dirs):
        os.makedirs(dd, exist_ok=True)
        for k in range(3):
            v = [1.0 + 10 * di + 100 * k, 2.0 + 10 * di + 100 * k]
            path = os.path.join(dd, f"c11_{k}.json")
            toys.point_map(path, [0.0, 1.0], v)
            files[path] = v
    default = os.path.join(dirs[0], "c11_0.json")
    d = {"mc_m": default, "url": None}
    takes = {"P": ["mc_m"], "Q": ["mc_m"]}
    mk = lambda: [apt.Map(name="mc_m", default=default, method="LERP")]  # noqa: E731
    plugins = {k: toys.plugin(f"C11M{k}", ["batch_size"], [f"o{k}"], src, (), mk()) for k in takes}
    f1, f2 = os.path.join(dirs[0], "c11_1.json"), os.path.join(dirs[1], "c11_2.json")
    ops = {
        "m=1": ("set", {"mc_m": f1}),
        "m={A,B}": ("set", {"mc_m": {A: f2, B: f1}}),
        "m={B}": ("set", {"mc_m": {B: f2}}),
        "clear": ("clear",),
        "P(A)": ("build", "P", A),
        "P(B)": ("build", "P", B),
        "Q(B)": ("build", "Q", B),
    }
    q = np.array([0.0, 1.0], dtype=F)

    def read(p, n):
        return np.asarray(getattr(p, n).apply(q), dtype=float)

    def probe(v):
        return np.array(files[v])

    depth = 4 if r.thorough else 3
    for k in range(1, depth + 1):
        for h in itertools.product(ops, repeat=k):
            if h[-1].endswith(")"):
                run_history(r, "map", h, ops, plugins, takes, d, read, probe)
    # file names are searched when they are set
    for per in (False, True):
        for order in (0, 1):
            toys.reset()
            case = ("search", per, order)
            with r.guard("search", case):
                share.set_global_config({"url_base": dirs[order]})
                v = {A: "c11_2.json"} if per else "c11_2.json"
                share.set_global_config({"mc_m": v})
                p = plugins["P"](A)
                share.set_global_config({"url_base": dirs[1 - order]})
                p2 = plugins["P"](A)
                want = np.array(files[os.path.join(dirs[order], "c11_2.json")])
                r.case(case)
                for x in (p, p2):
                    r.expect(np.array_equal(read(x, "mc_m"), want), "name-resolved-by-search", case, got=read(x, "mc_m"), want=want)
    for v in ("c11_absent.json", {A: "c11_absent.json"}):
        toys.reset()
        r.case(("absent", v))
        r.raises(Exception, "absent-file-raises", lambda: share.set_global_config({"mc_m": v}), v)
    r.part("maps", alphabet=len(ops), depth=depth)


def check_generated(r):
    """The same through components: code compiled before a change keeps its values."""
    toys.reset()

    def f(self, key, parameters, batch_size):
        return key, (self.llh_name, self.mc_a.value)

    def e(self, key, parameters, a):
        return key, ("eff", self.llh_name, self.mc_a.value, a)

    import jax

    pa = toys.plugin("C11GA", ["batch_size"], ["a"], f, (), [apt.Constant(name="mc_a", default=1.0)])
    pe = toys.plugin("C11GE", ["a"], ["eff"], e, (), [apt.Constant(name="mc_a", default=1.0)])
    ops = {
        "a=2": {"mc_a": 2.0},
        "a={A,B}": {"mc_a": {A: 3.0, B: 4.0}},
        "a={B,A}": {"mc_a": {B: 6.0, A: 5.0}},
    }
    acts = list(ops) + ["make(A)", "make(B)"]
    depth = 5 if r.thorough else 4
    n = 0
    with jax.disable_jit():
        for k in range(1, depth + 1):
            for h in itertools.product(acts, repeat=k):
                if not h[-1].startswith("make"):
                    continue
                toys.reset()
                model = Model({"mc_a": 1.0})
                made = []
                case = ("generated", h)
                with r.guard("generated", case):
                    for i, a in enumerate(h):
                        if a in ops:
                            share.set_global_config(deepcopy(ops[a]))
                            model.set(ops[a])
                        else:
                            llh = {"A": A, "B": B}[a[5]]
                            c = apt.ComponentSim(name=f"c{i}", llh_name=llh)
                            c.register([pa, pe])
                            c.deduce(data_names=["a"], func_name=f"f{i}")
                            c.compile()
                            made.append((c, llh, model.resolve("mc_a", llh)))
                    for c, llh, v in made:
                        _, (a, eff) = c.simulate(0, 3, {})
                        r.expect(a == (llh, v) and eff == ("eff", llh, v, (llh, v)), "simulation-uses-its-values", case, got=[a, eff], want=v)
                r.case(case)
                r.traces += 1
                n += 1
    r.part("generated code", histories=n, depth=depth)


def run(r):
    r.rule = "one case per history; after every operation all plugins built so far are read again"
    r.assumptions = ["plugins that share an option declare the same default (C18 refuses others)"]
    check_constants(r)
    check_sets(r)
    check_maps(r)
    check_generated(r)
    r.states += 10 + 7 + 7 + 5
    r.transitions += r.traces
