"""C07: expected counts are normalised to the rate, with the efficiency as weight."""

import itertools
import os

import numpy as np
from jax import numpy as jnp

import appletree as apt
from mc import toys

F = np.float32

E1 = [0.0, 1.0, 3.0]
EX = [0.0, 1.0, 3.0]
EY = [[0.0, 1.0, 2.0], [0.5, 1.5, 4.0]]
MY = [0.0, 1.25, 2.0]
# slices whose lowest and highest edges are neither stored first nor last
EYB = [[0.75, 1.5, 4.0], [0.0, 1.25, 2.0]]
BINNINGS = {
    "irreg1": ("irreg", (jnp.array(E1),)),
    "mesh1": ("meshgrid", (jnp.array(E1),)),
    "irreg2": ("irreg", (jnp.array(EX), jnp.array(EY))),
    "irregb2": ("irreg", (jnp.array(EX), jnp.array(EYB))),
    "mesh2": ("meshgrid", (jnp.array(EX), jnp.array(MY))),
}
# points off every edge: inside the first and last bins, outside on both sides
P1 = [(0.5,), (2.0,), (-1.0,), (5.0,)]
P2 = [(0.5, 0.5), (0.5, 1.75), (2.0, 1.0), (2.0, 3.0), (0.5, 3.0), (2.0, 0.25), (9.0, 1.0), (0.5, -2.0)]


def cell(binning, p):
    """Index of the bin that contains the point, or None."""
    i = next((i for i in range(2) if E1[i] < p[0] < E1[i + 1]), None)
    if i is None or binning.endswith("1"):
        return None if i is None else (i,)
    ey = {"irreg2": EY, "irregb2": EYB, "mesh2": [MY, MY]}[binning][i]
    j = next((j for j in range(2) if ey[j] < p[1] < ey[j + 1]), None)
    return None if j is None else (i, j)


def box(binning, p):
    """Inside the bounding box of all bins."""
    if not 0 < p[0] < 3:
        return False
    return len(p) == 1 or 0 < p[1] < (2 if binning == "mesh2" else 4)


def reference(binning, pts, eff, floor, mean_eff):
    h = np.zeros((2,) if binning.endswith("1") else (2, 2))
    for p, w in zip(pts, eff):
        c = cell(binning, p)
        if c is not None:
            h[c] += w
    if floor:
        h = np.maximum(h, 1e-10 + mean_eff)
    return h


def bootstrap_plugin():
    class G4:
        n_events_selected = 40

    cls = toys.plugin(
        "C7Bootstrap", ["batch_size"], ["energy"], lambda self, key, parameters, batch_size: (key, jnp.zeros(1))
    )
    cls.g4 = G4
    return cls


def close(a, b):
    return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=2e-5, atol=1e-7)


def make(name, binning, norm, floor, no_eff, plugins, data_names, llh):
    kind, bins = BINNINGS[binning]
    # the floor is used unless declared otherwise
    eps = None if floor and norm == "on_pdf" else floor
    cls = toys.component_cls("C7Comp", plugins, norm_type=norm, eps=eps, register=False)
    c = cls(name=name, llh_name=llh, bins=bins, bins_type=kind)
    c.rate_name = "rate"
    c.deduce(data_names=data_names, func_name="f_" + name, force_no_eff=no_eff)
    c.compile()
    return c


def judge(r, c, binning, norm, floor, no_eff, pts, eff, rate, n_sim, case):
    dim = int(binning[-1])
    n = len(pts)
    pars = {"rate": rate, "te": np.array(eff, dtype=F)}
    for i, k in enumerate(["tx", "ty"][:dim]):
        pars[k] = np.array([p[i] for p in pts], dtype=F)
    before = {k: np.array(v) for k, v in pars.items()}
    key = jnp.array([0, 7], dtype=jnp.uint32)
    w = [1.0] * n if no_eff else list(eff)
    h = reference(binning, pts, w, floor, float(np.mean(w)))
    if norm == "on_pdf" and h.sum() == 0:
        return
    factor = rate / h.sum() if norm == "on_pdf" else rate / n_sim
    with r.guard("simulate-hist", case):
        out_key, got = c.simulate_hist(key, n, pars)
        r.case(case)
        got = np.asarray(got)
        r.expect(got.shape == h.shape and close(got, h * factor), "expected-counts", case, got=got, want=h * factor)
        if norm == "on_pdf":
            r.expect(close(got.sum(), rate), "sum-is-the-rate", case, got=got.sum(), want=rate)
        r.expect(np.array_equal(out_key, key), "key-of-the-simulation", case)
        r.expect(all(np.array_equal(before[k], pars[k]) for k in before), "parameters-unchanged", case)
    if no_eff:
        return
    inside = [box(binning, p) for p in pts]
    # the floor uses the mean efficiency, which is only that of the events kept if all are kept
    if floor and not all(inside):
        return
    if norm == "on_pdf" and reference(binning, pts, w, False, 0).sum() == 0:
        return
    with r.guard("simulate-weighted", case):
        out_key, cols = c.simulate_weighted_data(key, n, pars)
        cols = [np.asarray(x) for x in cols]
        r.expect(len(cols) == dim + 1, "one-column-per-observable-and-weight", case, got=len(cols))
        want = [tuple(p) + (e * factor,) for p, e, k in zip(pts, eff, inside) if k]
        got_rows = list(zip(*[x.tolist() for x in cols]))
        r.expect(
            len(got_rows) == len(want) and close(got_rows, want), "weighted-events", case,
            got=got_rows, want=want,
        )
        if not floor:
            again = reference(binning, [g[:-1] for g in got_rows], [g[-1] for g in got_rows], False, 0)
            r.expect(close(again, h * factor), "weighted-events-reproduce-counts", case, got=again, want=h * factor)
        r.expect(np.array_equal(out_key, key), "key-of-the-simulation", case)


def check_simulated(r):
    n = 0
    effs = [0.0, 0.25, 1.0]
    for binning in BINNINGS:
        dim = int(binning[-1])
        P = P1 if dim == 1 else P2
        names = ["a", "b"][:dim]
        col = dict(zip(names, ["tx", "ty"]))
        toys.reset()
        obs = toys.table_plugin("C7Obs", col)
        eff = toys.table_plugin("C7Eff", {"eff": "te"})
        boot = bootstrap_plugin()
        obs_mc = toys.plugin(
            "C7ObsMC", ["energy"], names,
            lambda self, key, parameters, energy: (key, *[jnp.asarray(parameters[col[x]]) for x in names]),
        )
        for i, (norm, floor, no_eff, mc) in enumerate(
            itertools.product(["on_pdf", "on_sim"], [False, True], [False, True], [False, True])
        ):
            if mc and (norm == "on_pdf" or floor):
                continue
            # with mc the energy comes from a bootstrapped sample, which is then what is simulated
            plugins = [boot, obs_mc, eff] if mc else [obs, eff]
            data = list(names)
            c = make(f"c{i}", binning, norm, floor, no_eff, plugins, data, "c7")
            sizes = (1, 2, 3) if (dim == 1 or r.thorough) else (1, 2)
            for k in sizes:
                for pts in itertools.product(P, repeat=k):
                    es = list(itertools.product(effs, repeat=k))
                    if k == 3 and not (r.thorough and dim == 1):
                        es = es[::5]
                    if k == 3 and dim == 2:
                        es = es[::4]
                    if no_eff:
                        es = es[:2]
                    for e in es:
                        rate = [1.5, 1000.0, 0.0][n % 3]
                        n_sim = 40 if mc else k
                        case = (binning, norm, floor, no_eff, mc, pts, e, rate)
                        judge(r, c, binning, norm, floor, no_eff, pts, e, rate, n_sim, case)
                        n += 1
                if k == 3 and dim == 2 and not r.thorough:
                    break
    r.part("simulated", cases=n)


def check_larger(r):
    """Samples of growing size, simulated and fixed."""
    n = 0
    path = os.path.join(r.scratch, "c07_large.csv")
    for binning in BINNINGS:
        dim = int(binning[-1])
        P = P1 if dim == 1 else P2
        names = ["a", "b"][:dim]
        kind, bins = BINNINGS[binning]
        toys.reset()
        obs = toys.table_plugin("C7Obs", dict(zip(names, ["tx", "ty"])))
        eff = toys.table_plugin("C7Eff", {"eff": "te"})
        for i, (norm, floor, no_eff) in enumerate(itertools.product(["on_pdf", "on_sim"], [False, True], [False, True])):
            c = make(f"l{i}", binning, norm, floor, no_eff, [obs, eff], list(names), "c7l")
            cls = toys.fixed_cls("C7FixedL", norm, None if floor and norm == "on_pdf" else floor)
            for size in (5, 8, 33, 200, 3000):
                pts = [P[(j * j + j // 3) % len(P)] for j in range(size)]
                es = [[0.0, 0.25, 1.0, 0.5][(j + j // 4) % 4] for j in range(size)]
                case = ("larger", binning, norm, floor, no_eff, size)
                judge(r, c, binning, norm, floor, no_eff, pts, es, 30.0, size, case)
                for rate in (1e-3, 4e6) if size == 33 else ():
                    judge(r, c, binning, norm, floor, no_eff, pts, es, rate, size, case + (rate,))
                n += 1
                if no_eff:
                    continue
                toys.write_csv(path, {x: [p[k] for p in pts] for k, x in enumerate(names)})
                with r.guard("fixed", case):
                    f = cls(name="fix", llh_name="c7f", bins=bins, bins_type=kind, file_name=path)
                    f.rate_name = "fix_rate"
                    f.deduce(data_names=names)
                    f.compile()
                    h = reference(binning, pts, [1.0] * size, floor, 1.0)
                    factor = 30.0 / (h.sum() if norm == "on_pdf" else size)
                    r.expect(close(np.asarray(f.simulate_hist({"fix_rate": 30.0})), h * factor), "fixed-expected-counts", case)
                    res = [np.asarray(x) for x in f.simulate_weighted_data({"fix_rate": 30.0})]
                    want = [tuple(p) + (factor,) for p in pts if box(binning, p)]
                    r.expect(close(np.stack(res, axis=1), want) if len(res[0]) == len(want) else False, "fixed-weighted-events", case)
    # the rate is not given
    toys.reset()
    obs, eff = toys.table_plugin("C7Obs", {"a": "tx"}), toys.table_plugin("C7Eff", {"eff": "te"})
    for norm in ("on_pdf", "on_sim"):
        c = make("norate" + norm, next(b for b in BINNINGS if b.endswith("1")), norm, False, False, [obs, eff], ["a"], "c7n")
        pars = {"tx": np.array([p[0] for p in P1[:3]], dtype=F), "te": np.ones(3, dtype=F), "other_rate": 2.0}
        r.case(("no-rate", norm))
        r.raises(Exception, "missing-rate-raises", lambda: c.simulate_hist(jnp.array([0, 7], dtype=jnp.uint32), 3, pars), ("no-rate", norm))
    r.part("larger", cases=n)


def check_fixed(r):
    n = 0
    path = os.path.join(r.scratch, "c07.csv")
    for binning, norm, floor in itertools.product(BINNINGS, ["on_pdf", "on_sim"], [False, True]):
        kind, bins = BINNINGS[binning]
        dim = int(binning[-1])
        P = P1 if dim == 1 else P2
        names = ["a", "b"][:dim]
        cls = toys.fixed_cls("C7Fixed", norm, None if floor and norm == "on_pdf" else floor)
        sizes = (1, 2, 3) if (dim == 1 or r.thorough) else (1, 2)
        for k in sizes:
            for pts in itertools.product(P, repeat=k):
                if k == 3 and dim == 2 and P2.index(pts[0]) % 4:
                    continue
                case = ("fixed", binning, norm, floor, pts)
                h = reference(binning, pts, [1.0] * k, floor, 1.0)
                if norm == "on_pdf" and h.sum() == 0:
                    continue
                # a column order in the file that differs from the one asked for, and a spare one
                cols = {"z": [float("nan")] + [9.0] * (k - 1)}
                for i in reversed(range(dim)):
                    cols[names[i]] = [p[i] for p in pts]
                toys.write_csv(path, cols)
                with r.guard("fixed", case):
                    c = cls(name="fix", llh_name="c7f", bins=bins, bins_type=kind, file_name=path)
                    c.rate_name = "fix_rate"
                    c.deduce(data_names=names)
                    c.compile()
                    r.expect("fix_rate" in c.needed_parameters, "rate-needed", case)
                    # rates in sequence: nothing of one evaluation may stay
                    for rate in (2.0, 500.0, 2.0):
                        pars = {"fix_rate": rate, "other": 3.0}
                        factor = rate / h.sum() if norm == "on_pdf" else rate / k
                        got = np.asarray(c.simulate_hist(pars))
                        r.case(case + (rate,))
                        n += 1
                        r.expect(close(got, h * factor), "fixed-expected-counts", case, got=got, want=h * factor)
                        inside = [box(binning, p) for p in pts]
                        want = [tuple(p) + (factor,) for p, k2 in zip(pts, inside) if k2]
                        res = [np.asarray(x) for x in c.simulate_weighted_data(pars)]
                        rows = list(zip(*[x.tolist() for x in res]))
                        r.expect(
                            len(rows) == len(want) and close(rows, want), "fixed-weighted-events", case,
                            got=rows, want=want,
                        )
                        r.expect(pars == {"fix_rate": rate, "other": 3.0}, "parameters-unchanged", case)
    r.part("fixed", cases=n)


def check_histories(r):
    """A component is deduced again and again; only the last deduction counts."""
    n = 0
    pts = [(0.5, 0.5), (0.5, 1.75), (2.0, 1.0), (9.0, 1.0)]
    eff = [0.5, 0.25, 1.0, 0.5]
    depth = 4 if r.thorough else 3
    toys.reset()
    obs = toys.table_plugin("C7Obs", {"a": "tx", "b": "ty"})
    e = toys.table_plugin("C7Eff", {"eff": "te"})
    ops = ["eff", "no_eff", "eff-listed", "no_eff-listed"]
    for norm in ("on_pdf", "on_sim"):
        for d in range(1, depth + 1):
            for h in itertools.product(ops, repeat=d):
                case = ("history", norm, h)
                with r.guard("history", case):
                    toys.clear_functions()
                    cls = toys.component_cls("C7Comp", [obs, e], norm_type=norm, eps=False, register=False)
                    kind, bins = BINNINGS["irreg2"]
                    c = cls(name="c", llh_name="c7h", bins=bins, bins_type=kind)
                    c.rate_name = "rate"
                    for i, op in enumerate(h):
                        names = ["a", "b"] + (["eff"] if op.endswith("listed") else [])
                        toys.clear_functions()
                        c.deduce(data_names=names, func_name="f", force_no_eff=op.startswith("no_eff"))
                        c.compile()
                        if i < len(h) - 1:
                            continue
                        no = op.startswith("no_eff")
                        judge(r, c, "irreg2", norm, False, no, pts, eff, 7.0, len(pts), case + (i,))
                        n += 1
                r.traces += 1
    # the same for a fixed component: its data, binning, normalisation and rate name may change
    path = os.path.join(r.scratch, "c07_history.csv")
    pts = [(0.5, 0.75), (0.5, 1.75), (2.0, 1.125), (9.0, 1.125)]
    toys.write_csv(path, {"a": [p[0] for p in pts], "b": [p[1] for p in pts]})
    ops = [(kind, norm, rate) for kind in ("irreg1", "irreg2") for norm in ("on_pdf", "on_sim") for rate in ("r1", "r2")]
    for h in itertools.product(ops, repeat=2):
        for column in ("a", "b"):
            case = ("fixed-history", h, column)
            r.case(case)
            with r.guard("history", case):
                c = toys.fixed_cls("C7Fixed", "on_pdf", False)(name="fix", llh_name="c7f", bins=BINNINGS["irreg1"][1], bins_type="irreg", file_name=path)
                for i, (binning, norm, rate) in enumerate(h):
                    dim = int(binning[-1])
                    kind, bins = BINNINGS[binning]
                    c.set_binning(bins=bins, bins_type=kind)
                    c.norm_type, c.rate_name = norm, rate
                    names = ["a", "b"] if dim == 2 else [column if i else "a"]
                    c.deduce(data_names=names)
                    c.compile()
                    sample = pts if dim == 2 else [(p["ab".index(names[0])],) for p in pts]
                    want = reference(binning, sample, [1.0] * len(sample), False, 1.0)
                    want = want * (7.0 / want.sum() if norm == "on_pdf" else 7.0 / len(sample))
                    for _ in range(2):
                        got = np.asarray(c.simulate_hist({rate: 7.0}))
                        r.expect(close(got, want), "fixed-expected-counts", case + (i,), got=got, want=want)
                n += 1
    r.part("histories", cases=n, depth=depth)


def run(r):
    r.rule = "one case per component x sample x efficiency x rate; each compared with a per-event reference"
    r.assumptions = ["events lie off the bin edges (edges are decided by C06)"]
    check_simulated(r)
    check_fixed(r)
    check_larger(r)
    check_histories(r)
