"""C04: the deduced workflow computes the requested data for every plugin graph."""

import itertools

import jax

import appletree as apt
from mc import graphs, toys

KEY0 = ("key0",)
PARAMS = {"some": "parameters"}


class Toy(apt.ComponentSim):
    norm_type = "on_pdf"


def build(specs, name="toy", llh="llh", rate=""):
    c = Toy(name=name, llh_name=llh)
    c.rate_name = rate
    for s in specs:
        c.register(graphs.spec_plugin(*s))
    return c


def check_run(r, c, ref, request, no_eff, case, source=77, rate=""):
    """Run the compiled workflow and compare with the reference."""
    final = graphs.final_request(request, no_eff)
    needed = ref.plan(final)
    graphs.TRACE.clear()
    with r.guard("simulate", case):
        key, out = c.simulate(KEY0, source, PARAMS)
        trace = list(graphs.TRACE)
        want = ref.terms(final, source)
        r.expect(list(out) == want, "returns-the-requested-data-in-order", case, got=list(out), want=want)
        ran = [t[0] for t in trace]
        r.expect(sorted(ran) == sorted(s[0] for s in needed), "runs-each-needed-plugin-once-and-no-other",
                 case, got=ran, want=[s[0] for s in needed])
        pos = {n: i for i, n in enumerate(ran)}
        for s in needed:
            for d in s[1]:
                if d != ref.nodep:
                    r.expect(pos.get(ref.provider[d][0], 99) < pos.get(s[0], -1), "providers-run-first", case,
                             plugin=s[0], input=d)
        # the key is handed from plugin to plugin
        k = KEY0
        for t in trace:
            r.expect(t[1] == k, "key-is-threaded", case, plugin=t[0])
            k = ("k", t[0], t[1])
            r.expect(t[2] == PARAMS, "parameters-handed-on", case, plugin=t[0])
        r.expect(key == k, "returned-key-is-the-last", case)
        want_par = {p for s in needed for p in s[3]} | ({rate} if rate else set())
        r.expect(set(c.needed_parameters) == want_par, "needed-parameters-exact", case,
                 got=sorted(c.needed_parameters), want=sorted(want_par))


def one(r, specs, request, no_eff, nodep="batch_size", rate="", as_tuple=False):
    """One graph and one request. Returns whether it was in the domain."""
    ref = graphs.Ref(specs, nodep)
    final = graphs.final_request(request, no_eff)
    if not final or not ref.is_acyclic(final):
        return False
    case = {"plugins": [list(s[:3]) for s in specs], "request": list(request), "force_no_eff": no_eff,
            "nodep": nodep}
    toys.clear_functions()
    try:
        ref.plan(final)
        missing = False
    except graphs.Missing:
        missing = True
    c = build(specs, rate=rate)
    kw = dict(data_names=tuple(request) if as_tuple else list(request), func_name="sim", force_no_eff=no_eff)
    if nodep != "batch_size":
        kw["nodep_data_name"] = nodep
    r.case((tuple(s[:3] for s in specs), tuple(request), no_eff, nodep), sample=None)
    if missing:
        r.raises(Exception, "missing-provider", lambda: c.deduce(**kw), case)
        return True
    with r.guard("deduce", case):
        c.deduce(**kw)
        c.compile()
    if hasattr(c, "simulate"):
        check_run(r, c, ref, request, no_eff, case, rate=rate)
    r.transitions += 1
    return True


def family_small(r):
    """Two plugins over {a, b, eff}: every graph, every registration order, every request."""
    pool = ["a", "b", "eff"]
    opts = graphs.plugin_options(pool, pool, 3 if r.thorough else 2, 2)
    reqs = list(toys.ordered(pool, 1, 3))
    n = 0
    for k in (1, 2):
        for combo in itertools.product(opts, repeat=k):
            specs = [(f"P{i}", d, p, (f"par{i}", "shared")) for i, (d, p) in enumerate(combo)]
            for req in reqs if (k == 1 or r.thorough) else [("a",), ("eff", "b"), ("b", "a"), ("a", "eff", "b")]:
                for no_eff in (False, True):
                    n += one(r, specs, req, no_eff, rate="toy_rate" if n % 2 else "", as_tuple=bool(n % 3))
    r.part("two plugins over {a,b,eff}", options=len(opts), cases=n)
    r.states += n


def family_overlap(r):
    """Three plugins over {a, b, c}: overlapping providers, multi-output, diamonds, all orders."""
    pool = ["a", "b", "c"]
    opts = graphs.plugin_options(pool, pool, 2, 2, ordered=r.thorough)
    reqs = [("a",), ("c", "a", "b")] if not r.thorough else [("a",), ("b", "a"), ("c", "a", "b")]
    n = 0
    for combo in itertools.product(opts, repeat=3):
        specs = [(f"P{i}", d, p, (f"par{i}",)) for i, (d, p) in enumerate(combo)]
        for req in reqs:
            n += one(r, specs, req, True)
    r.part("three plugins over {a,b,c}", options=len(opts), cases=n)
    r.states += n


def family_dags(r):
    """Every graph of n single-output plugins, registered in both orders."""
    names = ["a", "b", "c", "d", "e", "f"]
    n_cases = 0
    for n in (3, 4, 5) if not r.thorough else (3, 4, 5, 6):
        ids = names[: n - 1] + ["eff"]
        for deps in graphs.dags(n, ids):
            specs = [(f"G{i}", tuple(reversed(d)) if i % 2 else d, (ids[i],), (f"q{i}",)) for i, d in enumerate(deps)]
            if n <= 4:
                reqs = list(toys.ordered(ids[:-1], 1, 2))
            else:
                reqs = [(ids[n - 2], ids[0])]
            for req in reqs:
                order = specs if n_cases % 2 else list(reversed(specs))
                n_cases += one(r, order, req, False)
    r.part("all graphs of single-output plugins", cases=n_cases)
    r.states += n_cases


def family_sizes(r):
    """Graphs of any size up to a bound, in several orders of registration."""
    n_cases = 0
    top = 12 if r.thorough else 9
    for n in range(4, top + 1):
        for name, specs, reqs in graphs.shapes(n):
            orders = [specs, specs[::-1], specs[1::2] + specs[::2], specs[n // 2 :] + specs[: n // 2]]
            for order in orders[: 4 if n <= 6 or r.thorough else 2]:
                for req in reqs:
                    if name == "ladder" and n > 7:
                        continue  # terms double with every level
                    n_cases += one(r, list(order), req, True, rate="toy_rate")
    # a ladder expands to one entry per path, i.e. thousands; only the workflow is looked at
    for n in (8, 9, 10, 11):
        toys.reset()
        name, specs, _ = next(x for x in graphs.shapes(n) if x[0] == "ladder")
        case = ("long ladder", n)
        with r.guard("deduce", case):
            c = toys.apt.ComponentSim(name="lad", llh_name="lad")
            c.register([graphs.spec_plugin(*s) for s in specs])
            last = specs[-1][2][-1]
            c.deduce(data_names=[last], func_name="f", force_no_eff=True)
            got = [w[0] for w in c.worksheet]
            plan = [s[0] for s in graphs.Ref(specs).plan([last])]
            r.expect(sorted(got) == sorted(plan), "runs-each-needed-plugin-once-and-no-other", case, got=got, want=plan)
            seen = set()
            for x in got:
                s = next(s for s in specs if s[0] == x)
                r.expect(all(d == "batch_size" or d in seen for d in s[1]), "providers-run-first", case, plugin=x)
                seen |= set(s[2])
        r.case(case)
        n_cases += 1
    r.part("graphs of growing size", cases=n_cases, size=top)
    r.states += n_cases


def family_nodep(r):
    """Workflows that start from another input than the batch size."""
    pool = ["a", "b"]
    opts = graphs.plugin_options(pool, pool, 2, 2, nodep="energy")
    n = 0
    for k in (1, 2):
        for combo in itertools.product(opts, repeat=k):
            specs = [(f"N{i}", d, p, ()) for i, (d, p) in enumerate(combo)]
            # the source has a provider, too, which must not be used
            specs.append(("Source", ("batch_size",), ("energy",), ("unused",)))
            for req in [("a",), ("b", "a")]:
                n += one(r, specs, req, True, nodep="energy")
    r.part("other sources", cases=n)
    r.states += n


BASE = [
    ("H0", ("batch_size",), ("a", "x"), ("pa",)),
    ("H1", ("a",), ("b",), ("pb",)),
    ("H2", ("b", "a"), ("c",), ("pc",)),
    ("H3", ("a", "x"), ("eff",), ("pe",)),
]
EXTRA = {
    "register new b": ("H4", ("x",), ("b",), ("pb2",)),
    "register new x": ("H5", ("batch_size",), ("x",), ("px",)),
    "register a+eff": ("H6", ("batch_size",), ("eff", "a"), ("pae",)),
}
REQS = {
    "deduce c": (("c",), False),
    "deduce b,a": (("b", "a"), False),
    "deduce eff,c": (("eff", "c"), False),
    "deduce c no eff": (("c",), True),
    "deduce x no eff": (("x",), True),
    "deduce missing": (("a", "nobody"), False),
}


def family_histories(r):
    """Every sequence of registering and deducing on one component."""

    def history(h):
        toys.clear_functions()
        specs = list(BASE)
        c = build(specs, rate="t_rate")
        last = None  # (ref, request, no_eff)
        for i, op in enumerate(h):
            case = list(h[: i + 1])
            if op in EXTRA:
                specs.append(EXTRA[op])
                with r.guard("register", case):
                    c.register(graphs.spec_plugin(*EXTRA[op]))
            else:
                req, no_eff = REQS[op]
                ref = graphs.Ref(specs)
                toys.clear_functions()
                if op == "deduce missing":
                    r.raises(Exception, "missing-provider", lambda: c.deduce(list(req), func_name="f"), case)
                    last = None
                    continue
                with r.guard("deduce", case):
                    c.deduce(list(req), func_name="f", force_no_eff=no_eff)
                    c.compile()
                last = (ref, req, no_eff)
                check_run(r, c, *last, case, rate="t_rate")
        r.case(h)
        r.transitions += len(h)

    n = r.sequences("register/deduce histories", list(EXTRA) + list(REQS), 4 if r.thorough else 3, history)
    r.states += n


def arguments(r):
    """Malformed requests."""
    toys.clear_functions()
    for bad in ("c", {"c"}, None, 5):
        c = build(BASE)
        r.case(("bad", repr(bad)))
        r.raises(Exception, "malformed-request", lambda: c.deduce(bad), repr(bad))
    # the lists handed in are not altered
    c = build(BASE)
    req = ["eff", "c"]
    with r.guard("request-unaltered"):
        c.deduce(req, func_name="g")
        r.expect(req == ["eff", "c"], "request-list-unaltered", None, got=req)


class NeedsPar(apt.Config):
    """An option which demands a parameter that depends on the likelihood."""

    def build(self, llh_name=None):
        self.value = llh_name

    def required_parameter(self, llh_name=None):
        return None if self.default is None else f"{self.default}_{llh_name}"

    @property
    def lineage(self):
        return {}


def config_parameters(r):
    """Parameters demanded by options of the plugins that run, and of no other plugin."""
    n = 0
    for flags in itertools.product((None, "u", "v"), repeat=3):
        for req in [("a",), ("b",), ("c",)]:
            toys.reset()
            classes = []
            for i, (name, deps, prov) in enumerate(
                [("C0", ("batch_size",), ("a",)), ("C1", ("a",), ("b",)), ("C2", ("a",), ("c",))]
            ):
                cfgs = [NeedsPar(name=f"opt{i}", default=flags[i]), NeedsPar(name=f"more{i}", default=None)]
                classes.append(
                    toys.plugin(name, deps, prov, lambda self, key, p, x: (key, x), (f"own{i}",), cfgs)
                )
            for llh in ("one", "two"):
                c = Toy(name="comp", llh_name=llh)
                c.rate_name = "comp_rate"
                c.register(classes)
                case = [flags, req, llh]
                with r.guard("config-parameters", case):
                    c.deduce(list(req), func_name="f", force_no_eff=True)
                    runs = {"a": [0], "b": [0, 1], "c": [0, 2]}[req[0]]
                    want = {"comp_rate"} | {f"own{i}" for i in runs}
                    want |= {f"{flags[i]}_{llh}" for i in runs if flags[i]}
                    n += 1
                    r.case(("cfg", flags, req, llh))
                    r.expect(set(c.needed_parameters) == want, "config-parameters-exact", case,
                             got=sorted(c.needed_parameters), want=sorted(want))
    r.part("parameters of options", cases=n)


def run(r):
    r.rule = ("every plugin graph of the families x registration orders x requests; non-trivial when the graph is "
              "acyclic and the generated code was compiled and run on symbolic terms, or had to be refused")
    r.assumptions = ["jit is disabled so that symbolic terms flow through the generated code"]
    with jax.disable_jit():
        family_histories(r)
        arguments(r)
        config_parameters(r)
        family_small(r)
        family_nodep(r)
        family_dags(r)
        family_sizes(r)
        family_overlap(r)
    r.traces = r.evaluations
    toys.reset()
