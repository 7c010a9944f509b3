"""C23: the literature likelihood weights each event's log density by its efficiency."""

import itertools
import math
import os
import warnings
from copy import deepcopy

import jax
import numpy as np
from jax import numpy as jnp

import appletree as apt
from mc import toys

F = np.float32
INF = float("inf")
NAN = float("nan")


# ------------------------------------------------------------------------------- reference densities
def two_half(y, mu, up, lo):
    s = lo if y < mu else up
    return math.log(2 / ((up + lo) * math.sqrt(2 * math.pi))) - (y - mu) ** 2 / (2 * s * s)


def gauss(y, mu, s):
    return -math.log(s * math.sqrt(2 * math.pi)) - (y - mu) ** 2 / (2 * s * s)


BAND = dict(x=[1.0, 2.0, 4.0], y=[3.0, 5.0, 4.0], yerr_upper=[1.0, 2.0, 0.5], yerr_lower=[0.5, 0.25, 3.0])


def at(x, col):
    xs = BAND["x"]
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            t = (x - xs[i]) / (xs[i + 1] - xs[i])
            return BAND[col][i] * (1 - t) + BAND[col][i + 1] * t
    return None


def band(x, y):
    if at(x, "y") is None:
        return -INF
    return two_half(y, at(x, "y"), at(x, "yerr_upper"), at(x, "yerr_lower"))


MU, UP, LO = [2.0, 3.0, 5.0], [1.0, 0.5, 2.0], [0.5, 2.0, 1.0]


def args_of(kind, n):
    if kind == "norm":
        return [["loc", "scale"], [MU[:n], UP[:n]]]
    if kind == "twohalfnorm":
        return [["mu", "sigma_pos", "sigma_neg"], [MU[:n], UP[:n], LO[:n]]]
    return [list(BAND), [BAND[k] for k in BAND]]


def density(kind, i, x, y):
    if kind == "norm":
        return gauss(y, MU[i], UP[i])
    if kind == "twohalfnorm":
        return two_half(y, MU[i], UP[i], LO[i])
    return band(x, y)


def reference(kind, xs, ys, es):
    total = 0.0
    for i, (x, y, e) in enumerate(zip(xs, ys, es)):
        if e == 0:
            continue
        if any(map(math.isnan, (x, y, e))):
            return -INF
        total += e * (density(kind, i, x, y) if math.isfinite(y) else -INF)
    return -INF if math.isnan(total) else total


# ------------------------------------------------------------------------------- likelihoods
def make_plugins():
    def obs(self, key, parameters, batch_size):
        # more than one set of events would be seen in the yields
        shift = jnp.float32(1000.0 * (batch_size - 1))
        return key + jnp.uint32(1), jnp.asarray(parameters["xs"]), jnp.asarray(parameters["ys"]) + shift

    def eff(self, key, parameters, en):
        return key + jnp.uint32(1), jnp.asarray(parameters["es"])

    def gain(self, key, parameters, batch_size):
        return key, jnp.asarray(parameters["xs"]), jnp.asarray(parameters["ys"]) * parameters["gain"]

    toys.plugin("C23Obs", ["batch_size"], ["en", "yi"], obs, ("xs", "ys"))
    toys.plugin("C23Eff", ["en"], ["eff"], eff, ("es",))
    toys.plugin("C23Gain", ["batch_size"], ["en", "yi"], gain, ("xs", "ys", "gain"))
    toys.component_cls("C23Comp", [apt.plugins.C23Obs, apt.plugins.C23Eff])
    toys.component_cls("C23Scaled", [apt.plugins.C23Gain, apt.plugins.C23Eff])


def config(kind, n=3, **kw):
    return {"variable_type": kind, "bins_on": ["en", "yi"], "logpdf_args": args_of(kind, n), **kw}


def build(kind, n, name="lit", cls="C23Comp", **kw):
    llh = apt.LikelihoodLit(name=name, **config(kind, n, **kw))
    llh.register_component(getattr(apt.components, cls), "rn")
    return llh


def close(got, want):
    if math.isinf(want):
        return got == want
    return math.isfinite(got) and abs(got - want) < 1e-4 * (1 + abs(want))


KEY = jnp.array([0, 7], dtype=jnp.uint32)


def judge(r, llh, kind, xs, ys, es, batch, case):
    pars = {"xs": np.array(xs, F), "ys": np.array(ys, F), "es": np.array(es, F), "rn_rate": 3.0, "spare": 1.0}
    before = deepcopy(pars)
    r.case(case)
    with r.guard("literature", case):
        key, got = llh.get_log_likelihood(KEY, batch, pars)
        want = reference(kind, xs, ys, es)
        r.expect(isinstance(got, float), "a-number", case, got=type(got))
        r.expect(got == got, "never-undefined", case, got=got)
        r.expect(close(got, want), "sum-of-efficiency-times-log-density", case, got=got, want=want)
        r.expect(np.array_equal(np.asarray(key), np.asarray(KEY) + 2), "key-of-the-single-simulation", case, got=np.asarray(key))
        r.expect(
            pars.keys() == before.keys() and all(np.array_equal(pars[k], before[k], equal_nan=True) for k in pars),
            "parameters-unchanged", case,
        )


def check_points(r):
    """Every combination of predicted yields and efficiencies."""
    n = 0
    effs = [0.0, 0.25, 1.0]
    for kind in ("norm", "twohalfnorm", "band"):
        for size in (1, 2, 3):
            toys.reset()
            llh = build(kind, size)
            xs_alph = [1.0, 1.5, 4.0, 0.5, 4.5] if kind == "band" else [1.0]
            ys_alph = [1.0, 2.0, 4.5] if size > 1 else [-3.0, 1.0, 2.0, 2.5, 3.0, 4.5, 9.0, INF, -INF, NAN]
            if size == 2:
                ys_alph = ys_alph + [NAN, INF]
            if size == 3:
                xs_alph = xs_alph[::2] if kind == "band" else xs_alph
                ys_alph = [1.0, 4.5] if kind == "band" else [1.0, 3.0, NAN]
            pts = list(itertools.product(xs_alph, ys_alph, effs))
            # an efficiency that is not defined
            pts += [(x, y, NAN) for x, y in itertools.product(xs_alph[:1], ys_alph[:2])] if size < 3 else []
            if size == 3 and not r.thorough:
                pts = [p for p in pts if p[2] != 0.25]
            combos = itertools.product(pts, repeat=size)
            if size == 2 and kind == "band" and not r.thorough:
                combos = (c for c in combos if c[0][2] != 1.0)
            for c in combos:
                xs, ys, es = (list(v) for v in zip(*c))
                judge(r, llh, kind, xs, ys, es, 1, (kind, c))
                n += 1
    r.part("points", cases=n)


def check_batch(r):
    """Whatever batch size is asked for, one set of events is simulated."""
    for kind, batch in itertools.product(("norm", "twohalfnorm", "band"), (1, 2, 5, 1000, 1_000_000)):
        toys.reset()
        llh = build(kind, 3)
        judge(r, llh, kind, [1.0, 2.0, 3.0], [2.0, 4.0, 4.5], [1.0, 0.5, 0.0], batch, ("batch", kind, batch))


def check_alias(r):
    """Aliases are renamed before simulating; they reach only the likelihood that declares them."""
    for alias in ({}, {"gain_l": "gain"}, {"gain_l": "gain", "es_l": "es"}):
        for kind in ("norm", "twohalfnorm", "band"):
            toys.reset()
            llh = build(kind, 2, cls="C23Scaled", parameter_alias=dict(alias))
            plain = build(kind, 2, name="other", cls="C23Scaled")
            back = {v: k for k, v in alias.items()}
            needed = {back.get(k, k) for k in ("rn_rate", "xs", "ys", "gain", "es")}
            case = ("alias", kind, alias)
            r.case(case)
            # the rate of a component does not enter the literature likelihood, either way is fine
            r.expect(llh.needed_parameters | {"rn_rate"} == needed, "needed-parameters", case, got=sorted(llh.needed_parameters))
            for g, gl in itertools.product((1.0, 2.0), (0.5, 3.0)):
                pars = {
                    "xs": np.array([1.5, 3.0], F), "ys": np.array([1.0, 2.0], F), "gain": g, "gain_l": gl, "rn_rate": 1.0,
                    "es": np.array([1.0, 0.5], F), "es_l": np.array([0.0, 1.0], F),
                }
                before = deepcopy(pars)
                use = pars["gain_l"] if "gain_l" in alias else g
                es = pars["es_l"] if "es_l" in alias else pars["es"]
                r.case(case + (g, gl))
                with r.guard("alias", case):
                    _, got = llh.get_log_likelihood(KEY, 1, pars)
                    want = reference(kind, [1.5, 3.0], [1.0 * use, 2.0 * use], es.tolist())
                    r.expect(close(got, want), "alias-is-renamed-before-simulating", case, got=got, want=want)
                    _, got = plain.get_log_likelihood(KEY, 1, pars)
                    want = reference(kind, [1.5, 3.0], [1.0 * g, 2.0 * g], pars["es"].tolist())
                    r.expect(close(got, want), "alias-of-another-likelihood", case, got=got, want=want)
                    r.expect(pars.keys() == before.keys(), "parameters-unchanged", case)


def check_many(r):
    """Several literature likelihoods keep their own densities, in every order of building."""
    kinds = ("norm", "twohalfnorm", "band")
    for order in itertools.permutations([("norm", 2), ("norm", 3), ("twohalfnorm", 3), ("band", 3)]):
        toys.reset()
        built = [(k, n, build(k, n, name=f"{k}{n}")) for k, n in order]
        for k, n, llh in built + built[::-1]:
            judge(r, llh, k, [1.0, 2.0, 3.0][:n], [2.0, 4.0, 4.5][:n], [1.0, 0.5, 0.25][:n], 1, ("many", order, k, n))
    r.part("orders", kinds=len(kinds), orders=24)


def check_malformed(r):
    toys.reset()
    for kind in ("norm", "twohalfnorm", "band"):
        for on in (["yi"], ["en", "yi", "en"], []):
            case = ("observables", kind, on)
            r.case(case)
            r.raises(Exception, "two-observables", lambda: apt.LikelihoodLit(name="x", **{**config(kind), "bins_on": on}), case)
        toys.reset()
        llh = apt.LikelihoodLit(name="m", **config(kind))
        pars = {"xs": np.array([1.0, 2, 3], F), "ys": np.array([2.0, 3, 4], F), "es": np.ones(3, F), "rn_rate": 1.0, "rn2_rate": 1.0}
        case = ("components", kind)
        r.case(case)
        r.raises(Exception, "no-component", lambda: llh.get_log_likelihood(KEY, 1, pars), case)
        llh.register_component(apt.components.C23Comp, "rn")
        for second in ("rn2", "rn"):
            r.raises(Exception, "second-component", lambda: llh.register_component(apt.components.C23Comp, second), case)
            r.expect(list(llh.components) == ["rn"], "exactly-one-component", case, got=list(llh.components))
            judge(r, llh, kind, [1.0, 2.0, 3.0], [2.0, 3.0, 4.0], [1.0, 1.0, 0.5], 1, ("after-second", kind, second))
    for kind in ("uniform", "", "Norm", "band2", None, 3):
        case = ("type", kind)
        r.case(case)
        r.raises(Exception, "supported-type", lambda: apt.LikelihoodLit(name="x", **{**config("norm"), "variable_type": kind}), case)


def check_context(r):
    """In a context: the sum counts it, the number of accepted events does not."""
    path = toys.write_csv(os.path.join(r.scratch, "c23.csv"), {"en": [0.5, 1.5, 0.7]})
    for kind, binned, first in itertools.product(("norm", "twohalfnorm", "band"), (False, True), (False, True)):
        toys.reset()
        lit = {"type": "LikelihoodLit", "components": {"rn": "C23Comp"}, "copy_parameters": {}, **config(kind, 3)}
        llhs = {"lit": lit}
        if binned:
            b = {
                "data_file_name": path, "bins_type": "irreg", "bins_on": "en", "bins": [[0.0, 2.5, 5.0]], "clip": [0.0, 5.0],
                "components": {"er": "C23Comp"}, "copy_parameters": {},
            }
            llhs = {"b": b, "lit": lit} if first else {"lit": lit, "b": b}
        fixed = {"er_rate": 4.0, "rn_rate": 9.0}
        xs, ys, es = [1.0, 3.0, 2.0], [2.0, 4.0, 4.5], [1.0, 0.5, 0.25]
        case = ("context", kind, list(llhs))
        r.case(case)
        with r.guard("context", case):
            pc = {k: toys.par(val=v) for k, v in fixed.items() if k != "er_rate" or binned}
            for k, v in (("xs", xs), ("ys", ys), ("es", es)):
                pc[k] = toys.par(val=np.array(v, F))
            ctx = apt.Context({"configs": {}, "likelihoods": llhs}, par_config=pc)
            # three events whatever the batch size, so the histogram divides by the batch size asked for
            mu = np.array([4.0 * 0.75 * 0 + 4.0 * 1.25 / 1.75, 4.0 * 0.5 / 1.75])
            want = reference(kind, xs, ys, es)
            if binned:
                want += float((np.array([3, 0]) * np.log(mu) - mu).sum())
            got = ctx.log_posterior({}, batch_size=3)[0]
            r.expect(abs(got - want) < 1e-3, "part-of-the-posterior", case, got=got, want=want)
            n = ctx.get_num_events_accepted(ctx.par_manager.get_all_parameter(), batch_size=3)
            r.expect(abs(float(n) - (4.0 if binned else 0.0)) < 1e-4, "not-part-of-the-number-of-events", case, got=n)


def run(r):
    r.rule = "one case per likelihood type x points (position, yield, efficiency each), batch size, alias, order of building, malformed setting"
    r.assumptions = ["jit compilation is left out (jax.disable_jit); the batch size cases are repeated compiled"]
    warnings.simplefilter("ignore")
    make_plugins()
    with jax.disable_jit():
        check_points(r)
        check_batch(r)
        check_alias(r)
        check_many(r)
        check_malformed(r)
        check_context(r)
    check_batch(r)
    r.transitions += r.evaluations
