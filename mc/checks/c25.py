"""C25: profiling reports every executed plugin once and with its own data."""

import contextlib
import copy
import io
import itertools
import os
import re
import time

import jax
import numpy as np

import appletree as apt
import appletree.share as share
from appletree import profiler
from mc import graphs, toys


class Term(tuple):
    """A symbolic array."""

    def block_until_ready(self):
        CLOCK.tick(0.25)  # finishing the computation is part of its time
        return self


class Clock:
    """Scripted time: the n-th execution of a plugin takes a chosen number of seconds."""

    def __init__(self):
        self.reset({}, 0)

    def reset(self, cost, warmup):
        self.now, self.cost, self.warmup, self.count = 1000.0, cost, warmup, {}

    def tick(self, dt):
        self.now += dt

    def run(self, name):
        i = self.count.get(name, 0)
        self.count[name] = i + 1
        # warming up takes for ever, later runs get slower and slower
        self.tick(900.0 if i < self.warmup else self.cost.get(name, 1.0) * (1 + i - self.warmup))


CLOCK = Clock()
TRACE = []
_classes = {}


def spec_plugin(name, depends_on, provides, parameters=()):
    ident = (name, tuple(depends_on), tuple(provides), tuple(parameters))
    if ident not in _classes:

        def func(self, key, params, *deps):
            TRACE.append((name, params, deps, getattr(self, "llh_name", None)))
            CLOCK.run(name)
            return (key, *[Term(("d", name, p, deps)) for p in ident[2]])

        _classes[ident] = toys.plugin(name, depends_on, provides, func, parameters, register=False)
    setattr(apt.plugins, name, _classes[ident])
    return _classes[ident]


@contextlib.contextmanager
def scripted_time():
    names = ["perf_counter", "monotonic", "time", "process_time"]
    old = {n: getattr(time, n) for n in names}
    old_ns = {n + "_ns": getattr(time, n + "_ns") for n in names}
    old_mod = {n: getattr(profiler, n) for n in [*names, *old_ns] if callable(getattr(profiler, n, None))}
    try:
        for n in names:
            setattr(time, n, lambda: CLOCK.now)
            setattr(time, n + "_ns", lambda: int(CLOCK.now * 1e9))
        for n in old_mod:
            setattr(profiler, n, getattr(time, n))
        yield
    finally:
        for n, f in {**old, **old_ns}.items():
            setattr(time, n, f)
        for n, f in old_mod.items():
            setattr(profiler, n, f)


def expected_times(name, n_out, warmup, runs, cost):
    ts = [(cost.get(name, 1.0) * (1 + i) + 0.25 * n_out) * 1000 for i in range(runs)]
    return float(np.mean(ts)), float(np.std(ts))


def floats(line):
    return [float(x) for x in re.findall(r"-?\d+\.\d+", line.replace(",", ""))]


def snapshot(c):
    return (
        copy.deepcopy(c.worksheet), c.code, set(c.needed_parameters), dict(getattr(c, "_plugin_class_registry", {})),
        c.name, c.llh_name, c.force_no_eff, c.rate_name,
        {k: id(v) for k, v in share._cached_functions.get(c.llh_name, {}).items() if not k.startswith("__")},
        dict(dict.items(share._cached_configs)),
    )


def reference(c, params, batch):
    """What the simulation itself executes: plugin, parameters and data, in order."""
    TRACE.clear()
    CLOCK.reset({}, 0)
    _, out = c.simulate(("k",), batch, params)
    return list(TRACE), out


def check_records(r, records, ref, specs, warmup, runs, cost, case):
    """Records and executions of one component against what its simulation executes."""
    byname = {s[0]: s for s in specs}
    names = [t[0] for t in ref]
    got = [x["plugin"] for x in records]
    if not r.expect(got == names, "one-record-per-executed-plugin-in-order", case, got=got, want=names):
        return
    for x, t in zip(records, ref):
        s = byname[t[0]]
        r.expect(list(x["provides"]) == list(s[2]) and list(x["depends_on"]) == list(s[1]), "record-describes-its-plugin", case, got=x)
        m, sd = expected_times(t[0], len(s[2]), warmup, runs, cost)
        r.expect(abs(x["mean_time_ms"] - m) < 1e-3 * m and abs(x["std_time_ms"] - sd) < 1e-3 * m, "timed-runs-only",
                 case, plugin=t[0], got=(x["mean_time_ms"], x["std_time_ms"]), want=(m, sd))


def check_trace(r, trace, ref, times, llh, case):
    """Every execution while profiling was on the data and parameters of the simulation."""
    for t in ref:
        mine = [x for x in trace if x[0] == t[0]]
        r.expect(len(mine) == times, "number-of-executions", case, plugin=t[0], got=len(mine), want=times)
        for x in mine:
            r.expect(x[2] == t[2], "profiled-on-the-data-of-its-dependencies", case, plugin=t[0], got=x[2], want=t[2])
            r.expect(x[1] == t[1], "profiled-at-the-parameters", case, plugin=t[0], got=x[1], want=t[1])
            r.expect(x[3] == llh, "profiled-for-its-likelihood", case, plugin=t[0], got=x[3])
    extra = {x[0] for x in trace} - {t[0] for t in ref}
    r.expect(not extra, "only-executed-plugins-are-profiled", case, extra=sorted(extra))


class Toy(apt.ComponentSim):
    norm_type = "on_pdf"


def one(r, specs, request, no_eff=False, warmup=1, runs=2, verbose=False):
    ref_sem = graphs.Ref(specs)
    final = graphs.final_request(request, no_eff)
    try:
        if not final or not ref_sem.is_acyclic(final):
            return False
        ref_sem.plan(final)
    except graphs.Missing:
        return False
    case = {"plugins": [list(s[:3]) for s in specs], "request": list(request), "runs": (warmup, runs)}
    toys.clear_functions()
    c = Toy(name="toy", llh_name="llh")
    for s in specs:
        c.register(spec_plugin(*s))
    c.deduce(data_names=list(request), func_name="sim", force_no_eff=no_eff)
    c.compile()
    params = {"p": 1.5, "q": 2}
    batch = 7
    ref, out = reference(c, params, batch)
    before = snapshot(c)
    cost = {s[0]: 1.0 + 2.0 * i for i, s in enumerate(specs)}
    CLOCK.reset(cost, warmup)
    TRACE.clear()
    sink = io.StringIO()
    r.case((tuple(s[:3] for s in specs), tuple(request), warmup, runs, no_eff))
    with r.guard("profile", case):
        with contextlib.redirect_stdout(sink):
            records = profiler.profile_component(c, params, batch_size=batch, n_warmup=warmup, n_runs=runs, verbose=verbose)
        trace = list(TRACE)
        check_records(r, records, ref, specs, warmup, runs, cost, case)
        check_trace(r, trace, ref, warmup + runs, "llh", case)
        r.expect(params == {"p": 1.5, "q": 2}, "parameters-unchanged", case, got=params)
        r.expect(snapshot(c) == before, "component-unchanged", case)
        ref2, out2 = reference(c, params, batch)
        r.expect((ref2, out2) == (ref, out), "simulates-the-same-afterwards", case)
        if verbose:
            total = [floats(x) for x in sink.getvalue().splitlines() if "TOTAL" in x]
            want = sum(x["mean_time_ms"] for x in records)
            r.expect(len(total) == 1 and total[0] and abs(total[0][-1] - want) < 1e-2, "total-is-the-sum", case, got=total, want=want)
    return True


def check_graphs(r):
    n = 0
    # chains, diamonds and everything between: one output per plugin
    names = ["a", "b", "c", "eff"]
    for deps in graphs.dags(4, names):
        specs = [(f"C25P{i}", deps[i], (names[i],), ("p",)) for i in range(4)]
        for order in ([0, 1, 2, 3], [3, 2, 1, 0]):
            n += one(r, [specs[i] for i in order], ["c"], verbose=order[0] == 3)
    # several outputs, and outputs overridden by a plugin registered later
    prov = list(toys.subsets(["a", "b"], 1))
    for p1, p2, p3 in itertools.product(prov, prov, [("eff",), ("eff", "a"), ("b", "eff")]):
        for d1 in (("batch_size",), ("batch_size", "b")):
            for d2 in (("batch_size",), ("a",), ("batch_size", "b")):
                for d3 in (("a",), ("b",), ("a", "b"), ("batch_size",)):
                    specs = [("C25X", d1, p1, ()), ("C25Y", d2, p2, ("p",)), ("C25Z", d3, p3, ("q",))]
                    orders = itertools.permutations(specs)
                    for order in orders:
                        for request in (["a"], ["b"], ["a", "b"]) if r.thorough else (["a", "b"],):
                            n += one(r, list(order), request)
    # chains, ladders, many inputs and outputs, of growing size
    for size in (4, 5, 6, 7, 8) if r.thorough else (5, 7):
        for name, specs, reqs in graphs.shapes(size):
            for order in (specs, specs[::-1], specs[1::2] + specs[::2]):
                for request in reqs:
                    n += one(r, list(order), list(request), no_eff=True, runs=1)
    # repetitions
    specs = [("C25X", ("batch_size",), ("a", "b"), ()), ("C25Y", ("b", "a"), ("eff",), ())]
    for warmup, runs in itertools.product(range(4), range(1, 5)):
        for no_eff in (False, True):
            n += one(r, specs, ["a", "b"], no_eff=no_eff, warmup=warmup, runs=runs, verbose=True)
    r.part("graphs", cases=n)


def make_context(r, llhs):
    """llhs: name -> (components, aliases)."""
    toys.reset()
    path = os.path.join(r.scratch, "c25.csv")
    toys.write_csv(path, {"a": [0.5, 1.5, 0.7]})
    toys.component_cls("C25A", [spec_plugin(*s) for s in SPECS["C25A"]])
    toys.component_cls("C25B", [spec_plugin(*s) for s in SPECS["C25B"]])
    toys.fixed_cls("C25F")
    instruct = {"configs": {}, "likelihoods": {}}
    for llh, (comps, alias) in llhs.items():
        instruct["likelihoods"][llh] = {
            "data_file_name": path, "bins_type": "irreg", "bins_on": "a", "bins": [[0.0, 1.0, 2.0]], "clip": [0.0, 2.0],
            "components": {k: ({"component_cls": v, "file_name": path} if v == "C25F" else v) for k, v in comps.items()},
            "copy_parameters": {}, "parameter_alias": alias,
        }
    return instruct


SPECS = {
    "C25A": [("C25K", ("batch_size",), ("a",), ("p",)), ("C25L", ("a",), ("eff",), ("q",))],
    "C25B": [("C25M", ("batch_size",), ("z", "a"), ("p",)), ("C25N", ("z", "a"), ("eff",), ())],
}


def check_contexts(r):
    comps = [
        {"u": "C25A"}, {"u": "C25F"}, {"u": "C25A", "v": "C25B"}, {"u": "C25F", "v": "C25A"}, {"u": "C25B", "v": "C25F", "w": "C25A"},
    ]
    aliases = [{}, {"p1": "p"}, {"p1": "p", "q1": "q"}]
    base = {"p": 1.0, "p1": 2.0, "q": 3.0, "q1": 4.0, "u_rate": 5.0, "v_rate": 6.0, "w_rate": 7.0}
    n = 0
    for c1, c2 in itertools.product(range(len(comps)), repeat=2):
        for a1, a2 in itertools.product(range(3), repeat=2):
            if not r.thorough and (a1 + a2 + c1) % 2:
                continue
            llhs = {"one": (comps[c1], aliases[a1]), "two": (comps[c2], aliases[a2])}
            case = ("context", llhs)
            instruct = make_context(r, llhs)
            used = set()
            for cs, al in llhs.values():
                for k, v in cs.items():
                    used.add(k + "_rate")
                    if v == "C25A":
                        used |= {"p", "q"} | set(al)
                    if v == "C25B":
                        used |= {"p"} | set(al)
            params = {k: base[k] for k in base}
            with r.guard("context", case):
                ctx = apt.Context(instruct, par_config={k: toys.par("fixed", val=base[k]) for k in base})
                want = {}
                before = {}
                for llh, L in ctx.likelihoods.items():
                    renamed = dict(params)
                    for k, v in llhs[llh][1].items():
                        renamed[v] = renamed.pop(k)
                    for name, c in L.components.items():
                        if llhs[llh][0][name] == "C25F":
                            continue
                        want[f"{llh}/{name}"] = (reference(c, renamed, 11)[0], llhs[llh][0][name])
                        before[f"{llh}/{name}"] = snapshot(c)
                cost = {s: 1.0 + i for i, s in enumerate(["C25K", "C25L", "C25M", "C25N"])}
                for mode in ("given", "sampled"):
                    # the plugins of a class are run once per component: make them equally slow every time
                    TRACE.clear()
                    CLOCK.reset(cost, 0)
                    sink = io.StringIO()
                    with contextlib.redirect_stdout(sink):
                        res = profiler.profile_context(ctx, 11, 1, 2, params if mode == "given" else None, True)
                    trace = list(TRACE)
                    n += 1
                    r.case(case + (mode,))
                    r.expect(list(res) == list(want), "one-entry-per-simulated-component", case, got=list(res), want=list(want))
                    flat = []
                    for key, (ref, cls) in want.items():
                        recs = res.get(key, [])
                        r.expect([x["plugin"] for x in recs] == [t[0] for t in ref], "one-record-per-executed-plugin-in-order", case + (key,), got=[x["plugin"] for x in recs])
                        flat += [t for t in ref for _ in range(3)]
                    r.expect(trace == flat, "profiled-on-own-data-and-renamed-parameters", case + (mode,), got=trace[:6], want=flat[:6])
                    r.expect(params == base, "parameters-unchanged", case, got=params)
                    lines = sink.getvalue().splitlines()
                    total = 0.0
                    for key in res:
                        s = sum(x["mean_time_ms"] for x in res[key])
                        total += s
                        mine = [floats(x) for x in lines if x.startswith(key + ":")]
                        r.expect(len(mine) == 1 and abs(mine[0][-1] - s) < 1e-2, "summary-is-the-sum", case, got=mine, want=s)
                    grand = [floats(x) for x in lines if "Grand total" in x]
                    r.expect(len(grand) == 1 and abs(grand[0][-1] - total) < 1e-2, "grand-total-is-the-sum", case, got=grand, want=total)
                # whole pipeline
                TRACE.clear()
                CLOCK.reset(cost, 10**9)
                CLOCK.warmup = 0
                with contextlib.redirect_stdout(io.StringIO()):
                    full = FULL(ctx, params)
                r.expect(set(full) == set(want), "pipeline-per-simulated-component", case, got=sorted(full))
                flat = [t for ref, _ in want.values() for _ in range(3) for t in ref]
                r.expect(TRACE == flat, "pipeline-runs-the-simulation", case, got=TRACE[:4], want=flat[:4])
                r.expect(params == base, "parameters-unchanged", case, got=params)
                for key, (ref, _) in want.items():
                    llh, name = key.split("/")
                    r.expect(snapshot(ctx[llh][name]) == before[key], "component-unchanged", case + (key,))
            r.traces += 1
    r.part("contexts", cases=n)


def FULL(ctx, params):
    """profile_full_simulation finishes the arrays of the result it gets, which here is symbolic."""
    return profiler.profile_full_simulation(ctx, 11, 1, 2, params, True)


def check_summary(r):
    """print_profile_summary on every small set of records."""
    vals = [0.5, 2.0, 10.0]
    n = 0
    for sizes in itertools.product(range(3), repeat=2):
        for ms in itertools.product(vals, repeat=sum(sizes)):
            it = iter(ms)
            res = {f"l/{k}": [{"plugin": f"P{k}{i}", "mean_time_ms": next(it) + 0.01 * i, "std_time_ms": 0.0} for i in range(s)] for k, s in enumerate(sizes)}
            for top in (1, 2, 5):
                sink = io.StringIO()
                before = copy.deepcopy(res)
                case = ("summary", res, top)
                with r.guard("summary", case), contextlib.redirect_stdout(sink):
                    profiler.print_profile_summary(res, top_n=top)
                n += 1
                r.case(case)
                text = sink.getvalue()
                lines = text.splitlines()
                for k, recs in res.items():
                    s = sum(x["mean_time_ms"] for x in recs)
                    mine = [floats(x) for x in lines if x.startswith(k + ":")]
                    r.expect(len(mine) == 1 and abs(mine[0][-1] - s) < 1e-2, "summary-is-the-sum", case, got=mine, want=s)
                g = [floats(x) for x in lines if "Grand total" in x]
                r.expect(g and abs(g[0][-1] - sum(x["mean_time_ms"] for v in res.values() for x in v)) < 1e-2, "grand-total-is-the-sum", case, got=g)
                tops = [floats(x)[-1] for x in lines if re.match(r"^\s*\d+\.\s", x)]
                exp = sorted((x["mean_time_ms"] for v in res.values() for x in v), reverse=True)[:top]
                r.expect(np.allclose(tops, exp, atol=1e-2) if len(tops) == len(exp) else False, "slowest-first", case, got=tops, want=exp)
                r.expect(res == before, "records-unchanged", case)
    r.part("summaries", cases=n)


def check_refusal(r):
    c = Toy(name="toy", llh_name="llh")
    c.register(spec_plugin(*SPECS["C25A"][0]))
    r.case("no-workflow")
    r.raises(Exception, "no-workflow-raises", lambda: profiler.profile_component(c, {}, 1, 0, 1, False), "no-workflow")


def run(r):
    r.rule = "one case per profiled component or context; every plugin execution is compared with the simulation's own"
    r.assumptions = ["plugins are symbolic and the clock is scripted, so times and data are exact"]
    with jax.disable_jit(), scripted_time():
        check_graphs(r)
        check_contexts(r)
        check_summary(r)
        check_refusal(r)
    r.states += r.evaluations
    r.transitions += r.evaluations
