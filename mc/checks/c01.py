"""C01: parameter values survive any history of writes, reads and draws."""

import copy
import itertools
import json
import math
import os
import subprocess
import sys

import numpy as np

from appletree import Parameter

CONFIG = {
    "t": {
        "prior_type": "twohalfnorm",
        "prior_args": {"mu": 1.0, "sigma_pos": 0.5, "sigma_neg": 1.5},
        "allowed_range": [0.0, 2.0],
        "init_mean": 1.0,
        "init_std": 0.3,
    },
    "b": {"prior_type": "fixed", "prior_args": {"val": 3.5}, "allowed_range": None,
          "init_mean": None, "init_std": None},
    "n": {
        "prior_type": "norm",
        "prior_args": {"mean": 0.0, "std": 2.0},
        "allowed_range": [-1.0, 1.5],
        "init_mean": 0.5,
        "init_std": 1.0,
    },
    "u": {
        "prior_type": "uniform",
        "prior_args": {"lower": 0.0, "upper": 4.0},
        "allowed_range": [1.0, 3.0],
        "init_mean": 2.0,
        "init_std": 1.0,
    },
    "f": {
        "prior_type": "free",
        "prior_args": {},
        "allowed_range": [10.0, 20.0],
        "init_mean": 12.0,
        "init_std": 5.0,
    },
    "a": {"prior_type": "fixed", "prior_args": {"val": 7}, "allowed_range": None,
          "init_mean": None, "init_std": None},
}
FIXED = {"b": 3.5, "a": 7}
FIT = ["f", "n", "t", "u"]
NAMES = list(CONFIG)
DRAWN = "drawn"

# accepted writes: label -> (call, effect)
WRITES = {
    "set n=0.25": (lambda p: p.set_parameter("n", 0.25), {"n": 0.25}),
    "set u=2 (int)": (lambda p: p.set_parameter("u", 2), {"u": 2}),
    "set fixed b=9.0": (lambda p: p.set_parameter("b", 9.0), {"b": 9.0}),
    "set [u,n]=[1.5,-0.5]": (lambda p: p.set_parameter(["u", "n"], [1.5, -0.5]), {"u": 1.5, "n": -0.5}),
    "set {t:1.25,f:11}": (lambda p: p.set_parameter({"t": 1.25, "f": 11.0}), {"t": 1.25, "f": 11.0}),
    "set n=99 (outside)": (lambda p: p.set_parameter({"n": 99.0}), {"n": 99.0}),
    "set []": (lambda p: p.set_parameter([], []), {}),
}
REJECTED = {
    "set unknown": lambda p: p.set_parameter("zz", 1.0),
    "set [n,unknown]": lambda p: p.set_parameter(["n", "zz"], [5.0, 6.0]),
    "set {u,unknown}": lambda p: p.set_parameter({"u": 5.0, "zz": 6.0}),
    "set too few values": lambda p: p.set_parameter(["n", "u"], [5.0]),
    "set too many values": lambda p: p.set_parameter(["n", "u"], [5.0, 6.0, 7.0]),
    "set text": lambda p: p.set_parameter("n", "5"),
    "set None": lambda p: p.set_parameter("n"),
    "set number as name": lambda p: p.set_parameter(5, 1.0),
    "get unknown": lambda p: p.get_parameter("zz"),
    "get [n,unknown]": lambda p: p.get_parameter(["n", "zz"]),
    "get {unknown}": lambda p: p.get_parameter({"zz"}),
    "get number": lambda p: p.get_parameter(3),
    "[number]": lambda p: p[3],
    "[unknown]": lambda p: p["zz"],
    "[[n,unknown]]": lambda p: p[["n", "zz"]],
}
DRAWS = {
    "sample_prior": lambda p: p.sample_prior(),
    "sample_init": lambda p: p.sample_init(),
    "init_parameter": lambda p: p.init_parameter(),
    "init_parameter(seed=3)": lambda p: p.init_parameter(seed=3),
}
READS = {
    "read all": lambda p: (p.get_all_parameter(), p.get_parameter(NAMES), p.log_prior),
}


def effect(model, label):
    m = dict(model)
    if label in WRITES:
        m.update(WRITES[label][1])
    elif label in DRAWS:
        m.update({k: DRAWN for k in FIT})
        m.update(FIXED)
    return m


def check_state(r, p, model, case):
    """All reads agree with the model (drawn values: admissible, and all ways to read agree)."""
    everything = p.get_all_parameter()
    r.expect(set(everything) == set(NAMES), "holds-exactly-the-configured-parameters", case,
             got=sorted(everything))
    for n in NAMES:
        v = p.get_parameter(n)
        if model[n] is DRAWN:
            lo, hi = CONFIG[n]["allowed_range"]
            r.expect(lo <= v <= hi, "draw-inside-range", case, name=n, value=v)
        else:
            r.expect(v == model[n], "read-returns-latest-value", case, name=n, got=v, want=model[n])
        r.expect(everything[n] == v and p[n] == v, "all-reads-agree", case, name=n)
    r.expect(p.parameter_fit == FIT, "fit-names-are-the-sorted-non-fixed", case, got=p.parameter_fit)
    want = [p.get_parameter(n) for n in FIT]
    r.expect(list(p.parameter_fit_array) == want, "fit-vector-in-name-order", case,
             got=list(p.parameter_fit_array), want=want)


def run_history(r, hist, models):
    case = list(hist)
    given = copy.deepcopy(CONFIG)
    np.random.seed(11)
    with r.guard("history", case):
        p = Parameter(given)
    check_state(r, p, models[0], case[:0])
    for label, model in zip(hist, models[1:]):
        before = dict(p.get_all_parameter())
        if label in REJECTED:
            r.raises(Exception, "rejected", lambda: REJECTED[label](p), case)
            r.expect(dict(p.get_all_parameter()) == before, "rejected-call-changes-nothing", case)
        else:
            with r.guard("accepted", case):
                {**{k: v[0] for k, v in WRITES.items()}, **DRAWS, **READS}[label](p)
            if label in READS:
                r.expect(dict(p.get_all_parameter()) == before, "reading-changes-nothing", case)
        check_state(r, p, model, case)
    r.expect(given == CONFIG, "given-configuration-unaltered", case)
    r.case(tuple(hist))
    return dict(p.get_all_parameter())


def histories(r):
    init = {**{k: DRAWN for k in FIT}, **FIXED}
    labels = list(WRITES) + list(DRAWS) + list(READS) + list(REJECTED)

    def ops(model):
        return [(x, effect(model, x)) for x in labels]

    r.bfs(
        "write/read/draw histories (states merged by reference state)",
        init,
        ops,
        lambda h, ms: run_history(r, h, ms),
        lambda m: tuple(sorted((k, str(v)) for k, v in m.items())),
        depth=8 if r.thorough else 4,
    )
    # no merging: effects hidden from the reference state (e.g. remembered lists)
    short = ["set n=0.25", "set fixed b=9.0", "set {t:1.25,f:11}", "set [n,unknown]", "set too few values",
             "sample_prior", "sample_init", "init_parameter(seed=3)"]

    def one(h):
        ms = [init]
        for x in h:
            ms.append(effect(ms[-1], x))
        a = run_history(r, h, ms)
        b = run_history(r, h, ms)
        r.expect(a == b, "same-seed-same-values", list(h), a=a, b=b)

    n = r.sequences("all sequences", short, 5 if r.thorough else 4, one)
    r.transitions += n


def draws(r):
    """Location and width of the draws: equivariance for every seed of a finite set."""
    wide = [-1e9, 1e9]
    seeds = range(400 if r.thorough else 120)

    def draw(entry, seed, how):
        p = Parameter({"x": entry})
        if how == "prior":
            p.init_parameter(seed=seed)
        else:
            np.random.seed(seed)
            p.sample_init()
        return float(p.get_parameter("x"))

    def norm(m, s, im=0.0, js=1.0):
        return dict(prior_type="norm", prior_args=dict(mean=m, std=s), allowed_range=wide,
                    init_mean=im, init_std=js)

    def thn(m, sp, sn, im=0.0, js=1.0):
        return dict(prior_type="twohalfnorm", prior_args=dict(mu=m, sigma_pos=sp, sigma_neg=sn),
                    allowed_range=wide, init_mean=im, init_std=js)

    def uni(lo, hi, im=0.0, js=1.0):
        return dict(prior_type="uniform", prior_args=dict(lower=lo, upper=hi), allowed_range=wide,
                    init_mean=im, init_std=js)

    def free(im, js):
        return dict(prior_type="free", prior_args={}, allowed_range=wide, init_mean=im, init_std=js)

    families = {
        # name: (standard, transformed, a, b): transformed draw = a + b * standard draw
        "norm": (norm(0, 1, 50, 9), norm(5, 3, -20, 4), 5, 3, "prior"),
        "twohalfnorm": (thn(0, 1, 2, 50, 9), thn(-4, 3, 6, -20, 4), -4, 3, "prior"),
        "uniform": (uni(0, 1, 50, 9), uni(-3, 2, -20, 4), -3, 5, "prior"),
        "free": (free(0, 1), free(7, 0.5), 7, 0.5, "prior"),
        "init of norm": (norm(50, 9, 0, 1), norm(-20, 4, 6, 2), 6, 2, "init"),
        "init of twohalfnorm": (thn(50, 9, 7, 0, 1), thn(-20, 4, 5, 6, 2), 6, 2, "init"),
        "init of uniform": (uni(50, 59, 0, 1), uni(-20, -4, 6, 2), 6, 2, "init"),
        "init of free": (free(0, 1), free(6, 2), 6, 2, "init"),
    }
    for name, (std, tr, a, b, how) in families.items():
        zs = []
        for s in seeds:
            case = [name, s]
            with r.guard("draw", case):
                z, y = draw(std, s, how), draw(tr, s, how)
                r.case((name, s))
                zs.append(z)
                r.expect(abs(y - (a + b * z)) < 1e-6 * (1 + abs(y)), "draw-follows-location-and-width",
                         case, got=y, want=a + b * z)
                r.expect(draw(std, s, how) == z, "same-seed-same-draw", case)
        zs = np.array(zs)
        if len(zs) == len(seeds):
            r.expect(len(set(zs)) == len(zs), "different-seeds-differ", name)
            if name == "uniform":
                r.expect(zs.min() >= 0 and zs.max() <= 1 and zs.min() < 0.1 and zs.max() > 0.9,
                         "uniform-covers-its-interval", name, lo=zs.min(), hi=zs.max())
            elif name != "twohalfnorm":
                r.expect(abs(zs.mean()) < 0.5 and 0.6 < zs.std() < 1.5, "standard-draw", name,
                         mean=zs.mean(), std=zs.std())
            else:
                r.expect(abs(np.mean(zs > 0) - 0.35) < 0.2 and zs.min() < -1 and zs.max() > 0.5,
                         "both-halves-drawn", name, share=np.mean(zs > 0))
    # clipping: narrow ranges on either side of the prior
    for rng in ([0.3, 0.4], [-0.4, -0.3], [5.0, 6.0], [0.0, 0.0]):
        for std in (norm(0, 1), thn(0, 1, 2), uni(0, 1), free(0, 1)):
            e = dict(std, allowed_range=rng)
            for s in list(seeds)[:20]:
                for how in ("prior", "init"):
                    with r.guard("clipped-draw", [std["prior_type"], rng, s, how]):
                        v = draw(e, s, how)
                        r.case((std["prior_type"], tuple(rng), s, how))
                        z = draw(std, s, how)
                        want = min(max(z, rng[0]), rng[1])
                        r.expect(v == want, "draw-clipped-to-range",
                                 [std["prior_type"], rng, s, how], got=v, want=want)


def forms(r):
    """Ways to hand in the configuration, and isolation from it."""
    path = os.path.join(r.scratch, "par.json")
    json.dump(CONFIG, open(path, "w"))
    with r.guard("file-configuration"):
        a, b = Parameter(path), Parameter(copy.deepcopy(CONFIG))
        a.init_parameter(seed=5)
        b.init_parameter(seed=5)
        r.expect(dict(a.get_all_parameter()) == dict(b.get_all_parameter()), "file-and-dictionary-agree")
    for bad in (5, None, [CONFIG], 1.5):
        r.raises(Exception, "bad-configuration", lambda: Parameter(bad), repr(bad)[:20])
    with r.guard("isolation"):
        given = copy.deepcopy(CONFIG)
        p = Parameter(given)
        given["n"]["allowed_range"][0] = 1.4
        given["b"]["prior_args"]["val"] = -1
        del given["u"]
        p.init_parameter(seed=1)
        q = Parameter(copy.deepcopy(CONFIG))
        q.init_parameter(seed=1)
        r.expect(dict(p.get_all_parameter()) == dict(q.get_all_parameter()), "isolated-from-the-given-dictionary")
        vals = {"n": 0.5, "u": 1.5}
        p.set_parameter(vals)
        vals["n"] = 3.0
        r.expect(p.get_parameter("n") == 0.5, "written-values-are-copied")
        p.set_parameter({"n": 1.25})
        q.set_parameter({"n": -0.25})
        r.expect(p.get_parameter("n") == 1.25 and q.get_parameter("n") == -0.25, "managers-are-independent")
    # every subset of fixed parameters, every order of the configuration
    base = ["d", "a", "c", "b"]
    for order in itertools.permutations(base):
        for mask in itertools.product((0, 1), repeat=4):
            cfg = {}
            for n in order:
                if mask[base.index(n)]:
                    cfg[n] = {"prior_type": "fixed", "prior_args": {"val": 1.0 + base.index(n)},
                              "allowed_range": None, "init_mean": None, "init_std": None}
                else:
                    cfg[n] = {"prior_type": "free", "prior_args": {}, "allowed_range": [0, 10],
                              "init_mean": 5, "init_std": 1}
            case = [order, mask]
            with r.guard("fit-names", case):
                p = Parameter(cfg)
                want = sorted(n for n in base if not mask[base.index(n)])
                r.case((order, mask))
                r.expect(p.parameter_fit == want, "fit-names", case, got=p.parameter_fit)
                p.set_parameter({n: 2.0 * base.index(n) + 0.5 for n in base})
                arr = list(p.parameter_fit_array)
                r.expect(arr == [2.0 * base.index(n) + 0.5 for n in want], "fit-vector", case, got=arr)
                sub = list(order)[:3]
                got = list(p.get_parameter(sub))
                r.expect(got == [2.0 * base.index(n) + 0.5 for n in sub], "read-in-requested-order", case)
                p.init_parameter(seed=2)
                r.expect(p.parameter_fit == want, "fit-names-after-reinit", case, got=p.parameter_fit)
                r.expect(all(p.get_parameter(n) == 1.0 + base.index(n) for n in base if mask[base.index(n)]),
                         "fixed-value-after-reinit", case)
                ok, missing = p.check_parameter_exist(["a", "x", "c", "y"], return_not_exist=True)
                r.expect(ok is False and missing == ["x", "y"], "missing-names-reported", case, got=missing)
                r.expect(p.check_parameter_exist("a") is True and p.check_parameter_exist("x") is False
                         and p.check_parameter_exist(["a", "b"]) is True
                         and p.check_parameter_exist({"a": 1, "x": 2}) is False, "existence", case)


def larger(r):
    """Tables of up to a dozen parameters, whose names do not sort like their numbers."""
    n_cases = 0
    for size in range(5, 14):
        for step in (1, 3, 5):
            if math.gcd(size, step) != 1:
                continue
            order = [(i * step) % size for i in range(size)]
            for fixed in (set(), {size - 1}, set(range(0, size, 3))):
                name = [f"p{i}" if i % 4 else f"P_{i}" for i in range(size)]
                cfg = {}
                for i in order:
                    if i in fixed:
                        cfg[name[i]] = {"prior_type": "fixed", "prior_args": {"val": -1.0 - i}, "allowed_range": None, "init_mean": None, "init_std": None}
                    else:
                        cfg[name[i]] = {"prior_type": "free", "prior_args": {}, "allowed_range": [i, i + 0.5], "init_mean": i + 0.25, "init_std": 1}
                case = ["larger", size, step, sorted(fixed)]
                r.case((size, step, tuple(sorted(fixed))))
                n_cases += 1
                with r.guard("larger", case):
                    p = Parameter(cfg)
                    want = sorted(name[i] for i in range(size) if i not in fixed)
                    r.expect(list(p.parameter_fit) == want, "fit-names", case, got=p.parameter_fit)
                    for draw in (p.sample_prior, p.sample_init, p.init_parameter):
                        draw()
                        for i in range(size):
                            v = p.get_parameter(name[i])
                            ok = v == -1.0 - i if i in fixed else i <= v <= i + 0.5
                            r.expect(ok, "every-parameter-drawn-from-its-own-entry", case, name=name[i], got=v)
                    vals = {name[i]: 100.0 + i for i in range(size)}
                    p.set_parameter(list(vals), list(vals.values()))
                    r.expect(dict(p.get_all_parameter()) == vals, "values-belong-to-their-names", case)
                    r.expect(list(p.parameter_fit_array) == [vals[k] for k in want], "fit-vector", case, got=p.parameter_fit_array)
                    p.set_parameter({name[i]: 200.0 + i for i in order[::2]})
                    vals.update({name[i]: 200.0 + i for i in order[::2]})
                    ask = [name[i] for i in reversed(order)]
                    r.expect(list(p.get_parameter(ask)) == [vals[k] for k in ask], "read-in-requested-order", case)
    r.part("larger tables", tables=n_cases)


def reconfigured(r):
    """The configuration a manager holds may be edited; drawing afresh follows it, whatever it was before."""
    fixed = lambda v: {"prior_type": "fixed", "prior_args": {"val": v}, "allowed_range": None, "init_mean": None, "init_std": None}
    norm = dict(CONFIG["n"], allowed_range=[-1.0, 1.5])
    uni = dict(CONFIG["u"], allowed_range=[1.0, 3.0])
    entries = {"fixed": fixed(0.5), "fixed elsewhere": fixed(2.5), "norm": norm, "uniform": uni, "absent": None}
    worlds = list(itertools.product(entries, repeat=2))
    depth = 3 if r.thorough else 2
    n = 0
    for hist in itertools.product(worlds, repeat=depth):
        case = ["reconfigured", hist]
        r.case(("reconfigured", hist))
        n += 1
        conf = lambda w: {k: copy.deepcopy(entries[e]) for k, e in zip(("x", "y"), w) if entries[e] is not None}
        keep = {"k": copy.deepcopy(CONFIG["f"])}
        with r.guard("reconfigured", case):
            p = Parameter({**conf(hist[0]), **keep})
            for i, w in enumerate(hist):
                if i:
                    p.par_config = {**conf(w), **keep}
                    p.init_parameter(seed=i)
                names = {k: e for k, e in zip(("x", "y"), w) if entries[e] is not None}
                fit = sorted(["k"] + [k for k, e in names.items() if not e.startswith("fixed")])
                r.expect(p.parameter_fit == fit, "fit-names-follow-the-configuration", case, step=i, got=p.parameter_fit, want=fit)
                r.expect(set(p.get_all_parameter()) == set(names) | {"k"}, "holds-exactly-the-configured-parameters", case, step=i)
                r.expect(list(p.parameter_fit_array) == [p[k] for k in fit], "fit-vector-in-name-order", case, step=i)
                for k, e in names.items():
                    if e.startswith("fixed"):
                        r.expect(p[k] == entries[e]["prior_args"]["val"], "fixed-value-after-reinit", case, step=i, got=p[k])
                r.expect(np.isfinite(p.log_prior), "prior-of-a-draw-is-finite", case, step=i, got=p.log_prior)
                q = Parameter({**conf(w), **keep})
                q.set_parameter(dict(p.get_all_parameter()))
                r.expect(p.log_prior == q.log_prior, "prior-follows-the-configuration", case, step=i, got=p.log_prior, want=q.log_prior)
    r.part("reconfigured", histories=n, depth=depth, alphabet=len(worlds))


def seeded_draws():
    """Everything drawn from a few seeds with a configuration of many parameters."""
    kinds = [
        ("norm", {"mean": 2.0, "std": 1.0}), ("twohalfnorm", {"mu": 3.0, "sigma_pos": 0.5, "sigma_neg": 1.0}),
        ("uniform", {"lower": 0.5, "upper": 4.5}), ("free", {}), ("fixed", {"val": 3.5}),
    ]
    conf = {}
    for i, name in enumerate("qwertyuiopasdfghjkl"):
        k, a = kinds[i % 5]
        conf[name * (1 + i % 3)] = {"prior_type": k, "prior_args": a, "allowed_range": [0.0, 6.0], "init_mean": 2.0 + 0.1 * i, "init_std": 0.5}
    out = []
    for seed in (0, 1, 20):
        p = Parameter(conf)
        p.init_parameter(seed=seed)
        out.append([float(p[k]) for k in conf])
        p.sample_init()
        out.append([float(p[k]) for k in conf])
        p.sample_prior()
        out.append([float(v) for v in p.parameter_fit_array])
    return out


def processes(r):
    """The same draws from the same seed in another process, whatever the order of sets there."""
    want = seeded_draws()
    running = []
    for seed in ("0", "1", "2", "77"):
        code = "import json; from mc.checks import c01; print('DRAWS ' + json.dumps(c01.seeded_draws()))"
        running.append((seed, subprocess.Popen(
            [sys.executable, "-W", "ignore", "-c", code], env={**os.environ, "PYTHONHASHSEED": seed}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    for seed, p in running:
        case = ("process", seed)
        r.case(case)
        try:
            o, e = p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
        got = next((json.loads(x[6:]) for x in o.splitlines() if x.startswith("DRAWS ")), None)
        if r.expect(got is not None, "draws-in-another-process/raises", case, stderr=e[-1500:]):
            r.expect(got == want, "same-draws-in-another-process", case, got=got, want=want)
    r.part("processes", cases=len(running))


def run(r):
    r.rule = ("histories of writes, rejected calls, reads and draws up to the depth; a case is non-trivial "
              "when its whole history was executed and every read compared with the reference table")
    r.assumptions = ["numpy.random is deterministic given its seed"]
    histories(r)
    draws(r)
    forms(r)
    larger(r)
    reconfigured(r)
    processes(r)
