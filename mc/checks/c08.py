"""C08: the binned log likelihood is the Poisson one, and minus infinity when it must be."""

import itertools
import math
import os
import warnings
from copy import deepcopy

import numpy as np
from jax import numpy as jnp

import appletree as apt
from mc import toys

F = np.float32
INF = float("inf")
NAN = float("nan")

EX = [0.0, 1.0, 3.0]
EY = [[0.0, 1.0, 2.0], [0.5, 1.5, 4.0]]
CONF = {
    1: dict(bins_on="a", bins=[EX], clip=[0.0, 3.0]),
    2: dict(bins_on=["a", "b"], bins=[EX, EY], x_clip=[0.0, 3.0], y_clip=[0.0, 4.0]),
}
# samples (events of a component) per dimension: everywhere, one bin left empty, nothing inside
SAMPLES = {
    1: {
        "all": ([(0.5,), (2.0,), (2.5,), (0.25,)], [1.0, 0.5, 0.25, 0.5]),
        "hole": ([(0.5,), (0.25,), (0.75,), (5.0,)], [1.0, 0.5, 1.0, 1.0]),
        "zero": ([(0.5,), (2.0,), (2.5,), (0.25,)], [1.0, 0.0, 0.0, 0.5]),
        "out": ([(5.0,), (-2.0,), (7.0,), (8.0,)], [1.0, 1.0, 1.0, 1.0]),
        # a single bin that is undefined, infinite or negative
        "nan": ([(0.5,), (2.0,), (2.5,), (0.25,)], [1.0, NAN, 1.0, 0.5]),
        "inf": ([(0.5,), (2.0,), (2.5,), (0.25,)], [1.0, INF, 1.0, 0.5]),
        "neg": ([(0.5,), (2.0,), (2.5,), (0.25,)], [1.0, -0.75, 0.5, 0.5]),
    },
    2: {
        "all": ([(0.5, 0.5), (0.5, 1.5), (2.0, 1.0), (2.0, 3.0), (0.5, 0.75)], [1.0, 0.5, 0.25, 0.5, 1.0]),
        "hole": ([(0.5, 0.5), (0.5, 1.5), (2.0, 1.0), (2.0, 9.0), (0.5, 3.0)], [1.0, 0.5, 0.25, 0.5, 1.0]),
        "zero": ([(0.5, 0.5), (0.5, 1.5), (2.0, 1.0), (2.0, 3.0), (0.5, 0.75)], [1.0, 0.0, 0.25, 0.5, 1.0]),
        "out": ([(0.5, 3.0), (2.0, 0.25), (9.0, 1.0), (0.5, -1.0), (4.0, 1.0)], [1.0] * 5),
        "nan": ([(0.5, 0.5), (0.5, 1.5), (2.0, 1.0), (2.0, 3.0), (0.5, 0.75)], [1.0, 0.5, 0.25, NAN, 1.0]),
    },
}
FIXED = {
    1: [(0.5,), (2.0,), (2.5,), (7.0,)],
    2: [(0.5, 0.5), (0.5, 1.5), (2.0, 1.0), (2.0, 3.0), (2.0, 3.5)],
}
DATA = {
    1: {"some": [(0.5,), (0.5,), (2.0,), (9.0,)], "none": [(-1.0,)], "lop": [(2.0,)] * 5},
    2: {
        "some": [(0.5, 0.5), (0.5, 1.5), (2.0, 1.0), (2.0, 1.0), (2.0, 0.25)],
        "none": [(0.5, -1.0)],
        "lop": [(2.0, 3.0)] * 5,
    },
}
RATES = [2.0, 37.5, 0.0, -1.0, INF, NAN]


def binned(dim, pts, w):
    h = np.zeros((2,) if dim == 1 else (2, 2))
    for p, e in zip(pts, w):
        i = next((i for i in range(2) if EX[i] < p[0] < EX[i + 1]), None)
        if i is None:
            continue
        if dim == 1:
            h[i] += e
        else:
            j = next((j for j in range(2) if EY[i][j] < p[1] < EY[i][j + 1]), None)
            if j is not None:
                h[i, j] += e
    return h


def inside(dim, p):
    return 0 < p[0] < 3 and (dim == 1 or 0 < p[1] < 4)


def expected(dim, comps, pars):
    """Model histogram as declared; parameters after renaming."""
    mu = np.zeros((2,) if dim == 1 else (2, 2))
    rows = []
    with np.errstate(all="ignore"):
        for name, kind, norm in comps:
            rate = pars[name + "_rate"]
            if kind == "fixed":
                pts, w = FIXED[dim], [1.0] * len(FIXED[dim])
            else:
                pts = list(zip(*[pars[f"{name}_{c}"].tolist() for c in "xy"[:dim]]))
                w = pars[f"{name}_e"].tolist()
            h = binned(dim, pts, w)
            f = np.float64(rate) / (h.sum() if norm == "on_pdf" else len(pts))
            mu = mu + h * f
            rows += [tuple(p) + (float(e * f),) for p, e in zip(pts, w) if inside(dim, p)]
    return mu, rows


def build(r, dim, data, comps, alias, name="c8"):
    path = os.path.join(r.scratch, f"c08_{dim}_{data}.csv")
    pts = DATA[dim][data]
    toys.write_csv(path, {c: [p[i] for p in pts] for i, c in enumerate("ab"[:dim])})
    fix = os.path.join(r.scratch, f"c08_fix_{dim}.csv")
    toys.write_csv(fix, {c: [p[i] for p in FIXED[dim]] for i, c in enumerate("ab"[:dim])})
    llh = apt.Likelihood(
        name=name, data_file_name=path, bins_type="irreg", parameter_alias=alias, **CONF[dim]
    )
    for c, kind, norm in comps:
        if kind == "fixed":
            llh.register_component(toys.fixed_cls("C8Fixed", norm), c, file_name=fix)
        else:
            cols = dict(zip("ab"[:dim], [f"{c}_x", f"{c}_y"]))
            obs = toys.table_plugin(f"C8Obs{c}{dim}", cols)
            eff = toys.table_plugin(f"C8Eff{c}{dim}", {"eff": f"{c}_e"})
            llh.register_component(toys.component_cls("C8Comp", [obs, eff], norm), c)
    return llh


def parameters(dim, comps, samples, rates):
    pars = {}
    for (c, kind, _), s, rate in zip(comps, samples, rates):
        pars[c + "_rate"] = rate
        if kind == "sim":
            pts, eff = SAMPLES[dim][s]
            for i, k in enumerate("xy"[:dim]):
                pars[f"{c}_{k}"] = np.array([p[i] for p in pts], dtype=F)
            pars[f"{c}_e"] = np.array(eff, dtype=F)
    pars["spare"] = 3.25
    return pars


def same(a, b):
    return a.keys() == b.keys() and all(np.array_equal(a[k], b[k], equal_nan=True) for k in a)


def judge(r, llh, dim, data, comps, passed, actual, case):
    mu, rows = expected(dim, comps, actual)
    n = binned(dim, DATA[dim][data], [1.0] * len(DATA[dim][data]))
    key = jnp.array([0, 5], dtype=jnp.uint32)
    before = deepcopy(passed)
    batch = max([len(v) for v in passed.values() if np.ndim(v)] + [1])
    r.case(case)
    with r.guard("log-likelihood", case):
        d0 = np.array(llh.data)
        _, got = llh.get_log_likelihood(key, batch, passed)
        r.expect(isinstance(got, float), "a-number", case, got=type(got))
        r.expect(got == got and got != INF, "never-nan-or-plus-infinity", case, got=got)
        bad = not np.isfinite(mu).all() or (mu <= 0).any()
        if bad:
            r.expect(got == -INF, "minus-infinity-when-it-must-be", case, got=got, mu=mu)
        else:
            want = float((n * np.log(mu) - mu).sum())
            ok = math.isfinite(got) and abs(got - want) < 2e-5 * (1 + np.abs(n * np.log(mu)).sum() + mu.sum())
            r.expect(ok, "poisson-sum", case, got=got, want=want)
        r.expect(same(before, passed), "parameters-unchanged", case)
        hist = np.asarray(llh.data_hist)
        r.expect(np.array_equal(hist, n), "data-histogram-unchanged", case, got=hist, want=n)
        r.expect(np.array_equal(d0, llh.data), "data-unchanged", case)
    if not np.isfinite(mu).all():
        return
    with r.guard("accepted-events", case):
        acc = float(llh.get_num_events_accepted(batch, passed))
        r.expect(abs(acc - mu.sum()) < 2e-5 * (1 + np.abs(mu).sum()), "accepted-is-model-sum", case, got=acc, want=mu.sum())
        r.expect(same(before, passed), "parameters-unchanged", case)
    with r.guard("weighted-data", case):
        _, cols = llh.simulate_weighted_data(key, batch, passed)
        got = np.array([np.asarray(c) for c in cols]).T
        want = np.array(rows).reshape(-1, dim + 1)
        r.expect(
            got.shape == want.shape and np.allclose(got, want, rtol=2e-5, atol=1e-7),
            "weighted-is-concatenation", case, got=got, want=want,
        )
        r.expect(same(before, passed), "parameters-unchanged", case)
        hist = np.asarray(llh.data_hist)
        r.expect(np.array_equal(hist, n), "data-histogram-unchanged", case, got=hist, want=n)


SETS = [
    [("A", "sim", "on_pdf")],
    [("A", "sim", "on_sim")],
    [("F", "fixed", "on_pdf")],
    [("A", "sim", "on_pdf"), ("F", "fixed", "on_pdf")],
    [("F", "fixed", "on_sim"), ("A", "sim", "on_pdf")],
    [("A", "sim", "on_pdf"), ("B", "sim", "on_sim")],
    [("B", "sim", "on_pdf"), ("A", "sim", "on_pdf"), ("F", "fixed", "on_pdf")],
]


def aliases(comps):
    first, last = comps[0][0], comps[-1][0]
    yield {}
    yield {"al_rate": first + "_rate"}
    if len(comps) > 1:
        yield {"al_rate": last + "_rate", "be_rate": first + "_rate"}
    yield {"absent": first + "_rate"}  # not among the parameters: nothing to rename
    if comps[0][1] == "sim":
        yield {"al_x": first + "_x", "al_e": first + "_e"}


def check_products(r):
    count = 0
    for dim in (1, 2):
        for si, comps in enumerate(SETS):
            for ai, alias in enumerate(aliases(comps)):
                for data in DATA[dim]:
                    if ai and data != "some":
                        continue
                    toys.reset()
                    with r.guard("build", (dim, comps, alias, data)):
                        llh = build(r, dim, data, comps, alias)
                    kinds = [list(SAMPLES[dim]) if k == "sim" else ["-"] for _, k, _ in comps]
                    for samples in itertools.product(*kinds):
                        full = r.thorough or len(comps) == 1 or (ai == 0 and data == "some" and dim == 1)
                        rates = RATES if full else [2.0, 37.5]
                        if len(comps) == 3 and not (r.thorough and dim == 1):
                            rates = [2.0, 0.0, NAN] if ai == 0 else [2.0]
                        for rs in itertools.product(rates, repeat=len(comps)):
                            # different components get different rates
                            rs = tuple(v * (1 + 0.25 * i) for i, v in enumerate(rs))
                            pars = parameters(dim, comps, samples, rs)
                            passed = dict(pars)
                            for k, v in alias.items():
                                if k != "absent":
                                    passed[k] = passed.pop(v)
                                    # the original name may exist too; the alias wins here
                                    if ai == 1 and k.endswith("_rate"):
                                        passed[v] = 1e3
                            case = (dim, comps, alias, data, samples, rs)
                            judge(r, llh, dim, data, comps, passed, pars, case)
                            count += 1
    r.part("products", cases=count)


def check_larger(r):
    """More bins, more events, more components, and counts of very different sizes."""
    n = 0
    shapes = [(5,), (17,), (60,), (3, 4), (7, 5), (12, 12)] + ([(200,), (30, 20)] if r.thorough else [])
    kinds = [("sim", "on_pdf"), ("fixed", "on_sim"), ("sim", "on_sim"), ("fixed", "on_pdf")]
    scales = [(1.0,), (1e-4,), (1e5,), (3e6, 1e-3), (0.5, 20.0, 1e4), (2.0,) * 6, (1e-3, 1e3, 1.0, 1e5, 1e-5)]
    for si, shape in enumerate(shapes):
        dim, size = len(shape), int(np.prod(shape))
        ex = [0.25 * i + 0.0625 * (i % 3) for i in range(shape[0] + 1)]
        ey = [[0.5 * j + 0.0625 * ((i + j) % 4) for j in range(shape[1] + 1)] for i in range(shape[0])] if dim == 2 else None

        def event(b, ex=ex, ey=ey, dim=dim, shape=shape):
            """An event in the bin of this number, float32 exact."""
            i = b if dim == 1 else b // shape[1]
            x = float(F(ex[i] + 0.3125 * (ex[i + 1] - ex[i])))
            if dim == 1:
                return (x,)
            j = b % shape[1]
            return (x, float(F(ey[i][j] + 0.625 * (ey[i][j + 1] - ey[i][j]))))

        conf = dict(bins_on="a", bins=[ex], clip=[-1.0, 1e3]) if dim == 1 else dict(bins_on=["a", "b"], bins=[ex, ey], x_clip=[-1.0, 1e3], y_clip=[-1.0, 1e3])
        counts = np.array([(b * b + si) % 7 + (1500 if b == size // 2 else 0) for b in range(size)])
        path = os.path.join(r.scratch, f"c08_large_{si}.csv")
        pts = [event(b) for b in range(size) for _ in range(counts[b])]
        toys.write_csv(path, {c: [p[i] for p in pts] for i, c in enumerate("ab"[:dim])})
        for sc in scales:
            toys.reset()
            comps = [(f"K{i}", *kinds[(i + len(sc)) % 4]) for i in range(len(sc))]
            with r.guard("build", ("larger", shape, sc)):
                llh = apt.Likelihood(name="c8l", data_file_name=path, bins_type="irreg", **conf)
                base = {}
                for i, (c, kind, norm) in enumerate(comps):
                    order = [(7 * b + 3 * i) % size if size % 7 else b for b in range(size)]
                    sample = [event(b) for b in order for _ in range(1 + b % 3)]
                    where = [b for b in order for _ in range(1 + b % 3)]
                    base[c] = (sample, where)
                    if kind == "fixed":
                        f = os.path.join(r.scratch, f"c08_large_fix_{i}.csv")
                        toys.write_csv(f, {x: [p[k] for p in sample] for k, x in enumerate("ab"[:dim])})
                        llh.register_component(toys.fixed_cls("C8FixL", norm), c, file_name=f)
                    else:
                        obs = toys.table_plugin(f"C8LObs{c}{dim}", dict(zip("ab"[:dim], [f"{c}_x", f"{c}_y"])))
                        eff = toys.table_plugin(f"C8LEff{c}{dim}", {"eff": f"{c}_e"})
                        llh.register_component(toys.component_cls("C8CompL", [obs, eff], norm), c)
            for hole in (None, size // 3, size - 1):
                case = ("larger", shape, sc, hole)
                mu, pars, rows, batch = np.zeros(size), {}, 0, 1
                for i, ((c, kind, norm), rate) in enumerate(zip(comps, sc)):
                    sample, where = base[c]
                    w = [1.0 if kind == "fixed" else [0.25, 1.0, 0.5][k % 3] for k in range(len(sample))]
                    if kind == "sim" and hole is not None:
                        w = [0.0 if b == hole else x for b, x in zip(where, w)]
                    pars[c + "_rate"] = rate
                    if kind == "sim":
                        for k, x in enumerate("xy"[:dim]):
                            pars[f"{c}_{x}"] = np.array([p[k] for p in sample], dtype=F)
                        pars[f"{c}_e"] = np.array(w, dtype=F)
                        batch = len(sample)
                    h = np.bincount(where, weights=w, minlength=size)
                    mu = mu + h * rate / (h.sum() if norm == "on_pdf" else len(sample))
                    rows += len(sample)
                sizes = {len(v) for v in pars.values() if np.ndim(v)}
                if len(sizes) > 1:
                    r.fail("samples-of-one-size", case, sizes=sizes)
                r.case(case)
                n += 1
                with r.guard("log-likelihood", case):
                    key = jnp.array([0, 5], dtype=jnp.uint32)
                    _, got = llh.get_log_likelihood(key, batch, pars)
                    if (mu <= 0).any():
                        r.expect(got == -INF, "minus-infinity-when-it-must-be", case, got=got)
                    else:
                        want = float((counts * np.log(mu) - mu).sum())
                        tol = 2e-5 * (1 + np.abs(counts * np.log(mu)).sum() + mu.sum())
                        r.expect(math.isfinite(got) and abs(got - want) < tol, "poisson-sum", case, got=got, want=want)
                    acc = float(llh.get_num_events_accepted(batch, pars))
                    r.expect(abs(acc - mu.sum()) < 2e-5 * mu.sum(), "accepted-is-model-sum", case, got=acc, want=mu.sum())
                    _, cols = llh.simulate_weighted_data(key, batch, pars)
                    cols = [np.asarray(c, dtype=float) for c in cols]
                    r.expect(len(cols) == dim + 1 and {len(c) for c in cols} == {rows}, "weighted-is-concatenation", case, got=[len(c) for c in cols], want=rows)
                    r.expect(abs(cols[-1].sum() - mu.sum()) < 2e-5 * mu.sum(), "weighted-is-concatenation", case, got=cols[-1].sum(), want=mu.sum())
                    r.expect(np.array_equal(np.asarray(llh.data_hist).ravel(), counts), "data-histogram-unchanged", case)
    r.part("larger", cases=n)


def check_histories(r):
    """Evaluations of two likelihoods interleaved in every order do not influence each other."""
    toys.reset()
    comps1 = [("A", "sim", "on_pdf"), ("F", "fixed", "on_pdf")]
    comps2 = [("F", "fixed", "on_sim"), ("B", "sim", "on_sim")]
    l1 = build(r, 2, "some", comps1, {}, "one")
    l2 = build(r, 1, "lop", comps2, {"al_rate": "B_rate"}, "two")
    p1 = [parameters(2, comps1, (s, "-"), (v, 5.0)) for s, v in (("all", 2.0), ("hole", 30.0), ("out", 1.0))]
    p2 = [parameters(1, comps2, ("-", s), (v, 5.0)) for s, v in (("all", 2.0), ("zero", -3.0))]
    jobs = [(l1, 2, "some", comps1, p, p) for p in p1]
    for p in p2:
        q = dict(p)
        q["al_rate"] = q.pop("B_rate")
        jobs.append((l2, 1, "lop", comps2, q, p))
    depth = 4 if r.thorough else 3
    n = 0
    for h in itertools.product(range(len(jobs)), repeat=depth):
        for i in h:
            llh, dim, data, comps, passed, actual = jobs[i]
            judge(r, llh, dim, data, comps, passed, actual, ("history", h, i))
        n += 1
        r.traces += 1
    r.part("histories", sequences=n, depth=depth)


def check_context(r):
    """The events accepted in a context are those of all its binned likelihoods."""
    toys.reset()
    choices = {
        "one": (1, SETS[3], {}),
        "two": (2, SETS[1], {}),
        "rev": (2, SETS[4], {"al_rate": "F_rate"}),
        "lit": None,
    }
    for k in (1, 2, 3, 4):
        for names in itertools.permutations(choices, k):
            for samples in ("all", "hole", "zero"):
                case = ("context", names, samples)
                r.case(case)
                with r.guard("context", case):
                    toys.reset()
                    llhs, pars, want = {}, {}, 0.0
                    for j, name in enumerate(names):
                        if choices[name] is None:
                            toys.table_plugin("C8LitObs", {"a": "lit_x", "b": "lit_y"})
                            toys.table_plugin("C8LitEff", {"eff": "lit_e"})
                            toys.component_cls("C8LitComp", [apt.plugins.C8LitObs, apt.plugins.C8LitEff])
                            llhs[name] = {
                                "type": "LikelihoodLit", "components": {"Z": "C8LitComp"}, "copy_parameters": {}, "bins_on": ["a", "b"],
                                "variable_type": "norm", "logpdf_args": [["loc", "scale"], [1.0, 2.0]],
                            }
                            pars.update({"Z_rate": 1.0, "lit_x": np.ones(1), "lit_y": np.ones(1), "lit_e": np.ones(1)})
                            continue
                        dim, comps, alias = choices[name]
                        own = parameters(dim, comps, [samples if kind == "sim" else "-" for _, kind, _ in comps], [2.0 + j, 7.5][: len(comps)])
                        # the likelihoods share the columns of their components: keep them apart by aliases
                        names_here = {n: f"{name}_{n}" for n in own}
                        mu, _ = expected(dim, comps, own)
                        want += mu.sum()
                        llh = build(r, dim, "some", comps, {}, "built_" + name)
                        conf = {
                            "data_file_name": os.path.join(r.scratch, f"c08_{dim}_some.csv"), "bins_type": "irreg", "copy_parameters": {},
                            "parameter_alias": {v: n for n, v in names_here.items()}, **CONF[dim], "components": {},
                        }
                        for c, kind, norm in comps:
                            cls = type(llh.components[c])
                            cls_name = f"C8{name}{c}"
                            setattr(apt.components, cls_name, cls)
                            conf["components"][c] = (
                                {"component_cls": cls_name, "file_name": os.path.join(r.scratch, f"c08_fix_{dim}.csv")} if kind == "fixed" else cls_name
                            )
                        llhs[name] = conf
                        pars.update({names_here[n]: v for n, v in own.items()})
                    ctx = apt.Context({"likelihoods": llhs}, par_config={n: toys.par(val=1.0) for n in pars})
                    before = deepcopy(pars)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        got = float(ctx.get_num_events_accepted(pars, batch_size=5))
                    r.expect(abs(got - want) < 2e-5 * (1 + abs(want)), "accepted-is-the-sum-over-likelihoods", case, got=got, want=want)
                    r.expect(same(before, pars), "parameters-unchanged", case)


def run(r):
    r.rule = "one case per likelihood x data x samples x rates x alias; compared with the Poisson reference"
    r.assumptions = ["events lie off the bin edges (edges are decided by C06)"]
    check_products(r)
    check_larger(r)
    check_histories(r)
    check_context(r)
