"""C30: listings, saved code and drawings show exactly what is simulated."""

import contextlib
import copy
import io
import itertools
import os
import re

import jax
import matplotlib.pyplot as plt
import numpy as np
from jax import numpy as jnp
from matplotlib.patches import Rectangle

import appletree as apt
from appletree import profiler, utils
from mc import graphs, toys


class Recorder:
    """Stand-in for a graphviz graph."""

    def __init__(self):
        self.nodes, self.edges_ = [], []

    def node(self, name, label=None, **kw):
        self.nodes.append((name, label))

    def edge(self, a, b, *args, **kw):
        self.edges_.append((a, b))


def text_of(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return out.getvalue()


def words(x):
    return re.findall(r"[A-Za-z_0-9]+", x)


def rows(text):
    """Lines of a listing that begin with a number."""
    return [words(x) for x in text.splitlines() if re.match(r"^\s*\d+\s", x)]


def make(specs, request, old=None):
    toys.clear_functions()
    c = old or apt.ComponentSim(name="c30", llh_name="c30")
    for s in specs:
        c.register(graphs.spec_plugin(*s))
    c.deduce(data_names=list(request), func_name="f30", force_no_eff=True)
    c.compile()
    return c


def expected_graphs(ref, request):
    """Data names and plugins reachable from the request with their edges."""
    data, edges, todo = set(), set(), list(request)
    while todo:
        d = todo.pop()
        if d in data:
            continue
        data.add(d)
        if d == "batch_size":
            continue
        for x in ref.provider[d][1]:
            edges.add((d, x))
            todo.append(x)
    plugins = {ref.provider[d][0] for d in data if d != "batch_size"}
    pedges = {
        (ref.provider[d][0], ref.provider[x][0]) for d, x in edges if x != "batch_size"
    }
    # a plugin is drawn with all of its inputs
    return data, edges, plugins, pedges


def judge_component(r, c, ref, request, case):
    plan = ref.plan(request)
    before = (copy.deepcopy(c.worksheet), c.code, set(c.needed_parameters))
    # ------------------------------------------------------------------ the listing against an execution
    graphs.TRACE.clear()
    with jax.disable_jit():
        c.simulate(("key",), 2, {})
    ran = [t[0] for t in graphs.TRACE]
    want = [[str(i + 1), n, *ref_spec(plan, n)[2], *ref_spec(plan, n)[1]] for i, n in enumerate(ran)]
    got = rows(text_of(lambda: profiler.print_worksheet(c)))
    r.expect(got == want, "worksheet-lists-what-runs-in-order", case, got=got, want=want)
    # ------------------------------------------------------------------ the code
    shown = text_of(lambda: profiler.print_component_code(c))
    r.expect(c.code.strip() in shown, "shown-code-is-the-code", case, got=shown)
    path = os.path.join(r.scratch, "code.py")
    c.save_code(path)
    with open(path) as f:
        saved = f.read()
    r.expect(saved == c.code, "saved-code-is-the-code", case, got=saved)
    # ------------------------------------------------------------------ the graphs
    data, edges, plugins, pedges = expected_graphs(ref, request)
    g = Recorder()
    utils.add_deps_to_graph_tree(c, g, list(request))
    r.expect({n for n, _ in g.nodes} == data, "graph-has-the-needed-data", case, got=sorted(n for n, _ in g.nodes), want=sorted(data))
    r.expect(set(g.edges_) == edges, "graph-has-the-inputs-of-each-data", case, got=sorted(set(g.edges_)), want=sorted(edges))
    names = [n for n, _ in g.nodes if n != "batch_size"]
    r.expect(len(names) == len(set(names)), "each-data-drawn-once", case, got=names)
    for labelled in (False, True):
        g = Recorder()
        utils.add_plugins_to_graph_tree(c, g, list(request), with_data_names=labelled)
        names = [n for n, _ in g.nodes]
        r.expect(sorted(names) == sorted(plugins), "graph-has-each-needed-plugin-once", case, got=sorted(names), want=sorted(plugins))
        r.expect(set(g.edges_) == pedges, "graph-has-the-edges-of-each-plugin", case, got=sorted(set(g.edges_)), want=sorted(pedges))
        for n, label in g.nodes:
            s = ref_spec(plan, n)
            full = [n, *s[1], *s[2]] if labelled else [n]
            r.expect(words(label) == full, "plugins-labelled-as-asked", case, labelled=labelled, got=label, want=full)
    after = (copy.deepcopy(c.worksheet), c.code, set(c.needed_parameters))
    r.expect(before == after, "drawing-changes-nothing", case)


def ref_spec(plan, name):
    return next(s for s in plan if s[0] == name)


def check_graphs(r):
    n = 0
    top = 4 if r.thorough else 3
    letters = "abcd"[:top]
    # single outputs: every acyclic graph
    for deps in graphs.dags(top, letters):
        specs = [(f"G{i}", d, (letters[i],), ()) for i, d in enumerate(deps)]
        ref = graphs.Ref(specs)
        for request in toys.ordered(letters, 1, 2):
            case = ("graph", [s[1] for s in specs], request)
            r.case(case)
            n += 1
            with r.guard("graph", case):
                judge_component(r, make(specs, request), ref, request, case)
    # several outputs: three plugins, the first two with two outputs, every choice of inputs
    outs = [("a", "b"), ("c", "d"), ("e",)]
    for d1, d2 in itertools.product(
        list(toys.ordered(["batch_size", "a", "b"], 1, 3)), list(toys.ordered(["batch_size", "a", "b", "c", "d"], 1, 3 if r.thorough else 2))
    ):
        specs = [("M0", ("batch_size",), outs[0], ()), ("M1", d1, outs[1], ()), ("M2", d2, outs[2], ())]
        ref = graphs.Ref(specs)
        for request in (("e",), ("d", "e"), ("b", "c"), ("e", "a")):
            case = ("outputs", d1, d2, request)
            r.case(case)
            n += 1
            with r.guard("graph", case):
                judge_component(r, make(specs, request), ref, request, case)
    # chains, ladders, many inputs and outputs, of growing size
    for size in (4, 5, 6, 7, 8) if r.thorough else (5, 7):
        for name, specs, reqs in graphs.shapes(size):
            for order in (specs, specs[::-1]):
                for request in reqs:
                    case = ("size", name, size, request, order is specs)
                    r.case(case)
                    n += 1
                    with r.guard("graph", case):
                        judge_component(r, make(order, request), graphs.Ref(order), request, case)
    r.part("graphs", components=n)


def check_histories(r):
    """What is shown is what was deduced last, also after another provider was registered."""
    n = 0
    base = [("H0", ("batch_size",), ("a",), ()), ("H1", ("a",), ("b",), ()), ("H2", ("b",), ("c",), ())]
    more = {"b": ("H3", ("batch_size", "a"), ("b",), ()), "c": ("H4", ("a",), ("c", "d"), ())}
    requests = {"A": ("a",), "C": ("c",), "BC": ("b", "c")}
    ops = [("reg", k) for k in more] + [("ded", k) for k in requests]
    for hist in itertools.product(ops, repeat=4 if r.thorough else 3):
        if hist[-1][0] != "ded":
            continue
        case = ("history", hist)
        r.case(case)
        n += 1
        with r.guard("history", case):
            specs, c = list(base), make(base, ("c",))
            for op, k in hist:
                if op == "reg":
                    specs.append(more[k])
                    c.register(graphs.spec_plugin(*more[k]))
                else:
                    toys.clear_functions()
                    c.deduce(data_names=list(requests[k]), func_name="f30", force_no_eff=True)
                    c.compile()
                    judge_component(r, c, graphs.Ref(specs), requests[k], case)
    # nothing to show
    c = apt.ComponentSim(name="fresh", llh_name="c30")
    c.register(graphs.spec_plugin(*base[0]))
    with r.guard("not-deduced", "fresh"):
        for fn in (profiler.print_worksheet, profiler.print_component_code):
            text = text_of(lambda: fn(c))
            r.case(("not-deduced", fn.__name__))
            r.expect("H0" not in text and rows(text) == [], "nothing-shown-before-deduction", fn.__name__, got=text)
    r.part("histories", histories=n)


# ---------------------------------------------------------------------------------------- summaries
def check_summaries(r):
    """Likelihood summaries: each component once, with its kind, rate and parameters."""
    n = 0
    path = toys.write_csv(os.path.join(r.scratch, "c30.csv"), {"a": [0.5, 1.5, 0.75, 9.0]})

    def sim(self, key, parameters, batch_size):
        return key, jnp.ones(batch_size) * parameters["s1"]

    def eff(self, key, parameters, a):
        return key, jnp.ones(len(a)) * parameters["s2"]

    obs = toys.plugin("C30Obs", ["batch_size"], ["a"], sim, ("s1",))
    ef = toys.plugin("C30Eff", ["a"], ["eff"], eff, ("s2",))
    kinds = {"sim": toys.component_cls("C30Sim", [obs, ef]), "fix": toys.fixed_cls("C30Fix")}
    for k in range(0, 4):
        for combo in itertools.product(kinds, repeat=k):
            for short in (True, False):
                case = ("summary", combo, short)
                r.case(case)
                n += 1
                toys.reset()
                with r.guard("summary", case):
                    llh = apt.Likelihood(name="c30l", data_file_name=path, bins_type="irreg", bins_on="a", bins=[[0.0, 1.0, 2.0]], clip=[0, 2])
                    for i, kind in enumerate(combo):
                        llh.register_component(kinds[kind], f"x{i}", **({"file_name": path} if kind == "fix" else {}))
                    needed = {n_: set(c.needed_parameters) for n_, c in llh.components.items()}
                    text = text_of(lambda: llh.print_likelihood_summary(short=short))
                    blocks = re.split(r"COMPONENT \d+: ", text)[1:]
                    r.expect([words(b)[0] for b in blocks] == [f"x{i}" for i in range(k)], "each-component-once-in-order", case, got=text)
                    for i, (kind, b) in enumerate(zip(combo, blocks)):
                        w = set(words(b))
                        r.expect(("simulation" in w) == (kind == "sim") and ("fixed" in w) == (kind == "fix"), "kind-of-component", case, got=b)
                        pars = {p for p in ("s1", "s2", "x0_rate", "x1_rate", "x2_rate") if p in w}
                        want = {f"x{i}_rate"} | ({"s1", "s2"} if kind == "sim" else set())
                        r.expect(pars == want, "own-parameters-shown", case, got=b, want=want)
                        r.expect((path in b) == (kind == "fix"), "file-shown", case, got=b)
                        r.expect(("C30Obs" in w and "C30Eff" in w) == (kind == "sim" and not short), "worksheet-shown-if-asked", case, got=b)
                    m = re.search(r"data_rate: ([0-9.]+)", text)
                    r.expect(m and float(m.group(1)) == 3.0, "number-of-selected-events-shown", case, got=text)
                    r.expect(needed == {n_: set(c.needed_parameters) for n_, c in llh.components.items()}, "showing-changes-nothing", case)
    r.part("summaries", likelihoods=n)


# ---------------------------------------------------------------------------------------- histogram
def drawn(bins_x, bins_y, hist, **kw):
    plt.close("all")
    ax = utils.plot_irreg_histogram_2d(bins_x, bins_y, hist, **kw)
    recs = [p for p in ax.patches if isinstance(p, Rectangle)]
    out = {}
    for p in recs:
        x, y = p.get_xy()
        key = tuple(np.round([x, y, x + p.get_width(), y + p.get_height()], 9).tolist())
        out.setdefault(key, []).append(tuple(np.round(p.get_facecolor(), 6).tolist()))
    lim = ax.get_xlim() + ax.get_ylim()
    plt.close("all")
    return out, lim


def check_histogram(r):
    n = 0
    xs = np.array([0.0, 1.0, 3.0])
    shapes = [np.array([[0.0, 1.0, 2.0], [0.5, 4.0, 4.5]]), np.array([[0.0, 1.0], [-2.0, 0.5]]), np.array([[0.0, 1.0, 1.5, 8.0], [1.0, 2.0, 3.0, 4.0]])]
    levels = [0.0, 2.0, 5.0]
    for ys in shapes:
        k = ys.shape[1] - 1
        cells = [(i, j) for i in range(2) for j in range(k)]
        area = {(i, j): (xs[i + 1] - xs[i]) * (ys[i, j + 1] - ys[i, j]) for i, j in cells}
        where = {
            c: tuple(np.round([xs[c[0]], ys[c], xs[c[0] + 1], ys[c[0], c[1] + 1]], 9).tolist()) for c in cells
        }
        values = itertools.product(levels if r.thorough or len(cells) < 5 else levels[::2], repeat=len(cells))
        values = list(values)
        for vals, density, scale in itertools.product(values, (False, True), (None, (0.0, 6.0))):
            if len(set(vals)) == 1:
                continue
            case = ("histogram", ys.tolist(), vals, density, scale)
            r.case(case)
            n += 1
            with r.guard("histogram", case):
                h = np.array(vals).reshape(2, k)
                kw = dict(density=True) if density else {}
                if scale:
                    kw.update(vmin=scale[0], vmax=scale[1])
                given = h.copy()
                out, lim = drawn(xs, ys, h, **kw)
                r.expect(np.array_equal(given, h), "drawing-changes-nothing", case)
                r.expect(set(out) == set(where.values()) and all(len(v) == 1 for v in out.values()), "one-rectangle-per-bin", case, got=sorted(out))
                if set(out) != set(where.values()):
                    continue
                shown = {c: vals[i] / area[c] if density else vals[i] for i, c in enumerate(cells)}
                # with a given scale everything outside it looks the same
                lo, hi = scale or (min(shown.values()), max(shown.values()))
                level = {c: (min(max(v, lo), hi) - lo) / (hi - lo) for c, v in shown.items()}
                for c, d in itertools.combinations(cells, 2):
                    same = out[where[c]] == out[where[d]]
                    if abs(level[c] - level[d]) < 1e-9:
                        r.expect(same, "equal-contents-equal-colours", case, cells=(c, d), got=shown)
                    elif abs(level[c] - level[d]) > 0.05:
                        r.expect(not same, "different-contents-different-colours", case, cells=(c, d), got=shown)
                r.expect(
                    np.allclose(lim, (0.0, 3.0, ys.min(), ys.max())), "all-bins-inside-the-axes", case, got=lim,
                )
    r.part("histograms", drawings=n)


def check_text(r):
    n = 0
    for k in range(0, 4):
        for ls in itertools.product(["", "x", "  y", "a b"], repeat=k):
            for given in ([x + "\n" for x in ls], "\n".join(ls)):
                case = ("add_spaces", given)
                r.case(case)
                n += 1
                with r.guard("add-spaces", case):
                    got = utils.add_spaces(given)
                    lines = got.splitlines()
                    want = ["    " + x for x in (ls if isinstance(given, list) else given.splitlines())]
                    # a trailing empty line may or may not be indented
                    r.expect([x for x in lines if x.strip()] == [x for x in want if x.strip()], "every-line-indented", case, got=got, want=want)
    for how in ("bare", "call", "indent"):
        calls = []

        def f(*a, **k):
            calls.append((a, k))
            if k.get("bad"):
                raise KeyError("x")
            return ("res", a, k)

        case = ("timeit", how)
        r.case(case)
        n += 1
        with r.guard("timeit", case):
            g = {"bare": lambda: utils.timeit(f), "call": lambda: utils.timeit()(f), "indent": lambda: utils.timeit("  ")(f)}[how]()
            out = []
            text = text_of(lambda: out.append(g(1, b=2)))
            r.expect(out == [("res", (1,), {"b": 2})] and calls == [((1,), {"b": 2})], "timed-function-runs-once-with-its-result", case, got=out)
            r.expect(text.count("<f>") >= 1, "timed-function-named", case, got=text)
            r.raises(KeyError, "timed-function-raises", lambda: text_of(lambda: g(bad=True)), case)
    r.part("text", cases=n)


def run(r):
    r.rule = "one case per deduced component, history, summary or drawing; what is shown is compared with an execution or with the bins"
    r.assumptions = ["the graph object is a stand-in that records nodes and edges"]
    check_text(r)
    check_graphs(r)
    check_histories(r)
    check_summaries(r)
    check_histogram(r)
    plt.close("all")
    r.states += r.evaluations
    r.transitions += r.evaluations
    r.traces += r.evaluations
