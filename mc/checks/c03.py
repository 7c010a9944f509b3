"""C03: log posterior = log prior + all log likelihoods, bypassed outside the prior, averaged."""

import itertools
import math
import os

import numpy as np

import appletree as apt
import appletree.share as share
from mc import toys

PAR = {
    "alpha": toys.par("norm", prior_args={"mean": 1.0, "std": 0.5}, allowed_range=[0.0, 3.0]),
    "beta": toys.par("free", allowed_range=[-1.0, 2.0]),
    "gamma": toys.par("fixed", val=4.0),
    "x0_rate": toys.par("uniform", prior_args={"lower": 0.0, "upper": 10.0}, allowed_range=[0.0, 10.0]),
    "x1_rate": toys.par("fixed", val=2.0),
    "x2_rate": toys.par("fixed", val=3.0),
}
GOOD = [
    {"alpha": 0.5, "beta": 1.0, "x0_rate": 1.0},
    {"alpha": 3.0, "beta": -1.0, "x0_rate": 10.0},
]
BAD = [
    {"alpha": 3.5, "beta": 1.0, "x0_rate": 1.0},
    {"alpha": 0.5, "beta": 1.0, "x0_rate": -0.1},
]
INF = -float("inf")


class Token:
    """A stand-in key."""

    n = 0

    def __init__(self):
        Token.n += 1
        self.name = f"key{Token.n}"

    def __repr__(self):
        return self.name


class Script:
    """The environment: what every likelihood answers, and what it saw."""

    outcome = None  # function (llh name, call number of this llh) -> value
    calls = []
    count = {}


class ScriptedLikelihood(apt.Likelihood):
    def get_log_likelihood(self, key, batch_size, parameters):
        i = Script.count.get(self.name, 0)
        Script.count[self.name] = i + 1
        out = Token()
        value = Script.outcome(self.name, i)
        Script.calls.append(
            dict(llh=self.name, key=key, out=out, batch=batch_size, par=dict(parameters), value=value)
        )
        return out, value


def make_context(r, n):
    toys.reset()
    path = os.path.join(r.scratch, "c03.csv")
    toys.write_csv(path, {"a": [0.5, 1.5, 0.7]})
    xs = [0.4, 0.6, 1.2]
    toys.sample_plugin("C3A", ["a"], [np.array(xs, dtype=np.float32)])
    toys.sample_plugin("C3E", ["eff"], [np.ones(3, dtype=np.float32)])
    toys.component_cls("C3Comp", [apt.plugins.C3A, apt.plugins.C3E])
    apt.ScriptedLikelihood = ScriptedLikelihood
    instruct = {
        "configs": {},
        "likelihoods": {
            f"l{i}": {
                "type": "ScriptedLikelihood" if n else "Likelihood",
                "data_file_name": path,
                "bins_type": "irreg",
                "bins_on": "a",
                "bins": [[0.0, 1.0, 2.0]],
                "clip": [0.0, 2.0],
                "components": {f"x{i}": "C3Comp"},
                "copy_parameters": {},
            }
            for i in range(n or 2)
        },
    }
    return apt.Context(instruct, par_config={k: dict(v) for k, v in PAR.items()})


def ref_prior(pars):
    p = apt.Parameter({k: dict(v) for k, v in PAR.items()})
    p.set_parameter(dict(pars))
    return float(p.log_prior)


def keyid(k):
    return k.name if isinstance(k, Token) else ("raw", tuple(np.asarray(k).ravel().tolist()))


def evaluate(r, ctx, case, pars, batch, repeat, values, used_keys, form, given=None):
    """values[rep][llh] is what each likelihood answers in each repetition; given: a dict to be used again."""
    names = list(ctx.likelihoods)
    Script.calls, Script.count = [], {}
    Script.outcome = lambda name, i: values[i % len(values)][names.index(name)]
    if given is None:
        given = {}
    given.clear()
    given.update(pars)
    with r.guard("posterior", case):
        if form == "default":
            got = ctx.log_posterior(given)
            batch, repeat = None, 1
        elif repeat == 1 and form == "once":
            got = ctx.log_posterior(given, batch_size=batch)
        else:
            got = ctx.log_posterior(given, batch_size=batch, repeat_times=repeat)
        r.case(case)
        r.expect(given == pars, "parameters-passed-in-unchanged", case)
        r.expect(len(got) == 2, "returns-posterior-and-prior", case)
        post, prior = float(got[0]), float(got[1])
        want_prior = ref_prior(pars)
        r.expect(
            prior == want_prior or abs(prior - want_prior) < 1e-6, "prior-returned", case,
            got=prior, want=want_prior,
        )
        calls = Script.calls
        if not math.isfinite(want_prior):
            r.expect(post == INF, "outside-prior-minus-infinity", case, got=post)
            r.expect(not calls, "outside-prior-nothing-simulated", case, calls=len(calls))
            return
        # nothing further can change a sum that is already minus infinity: an evaluation may
        # stop there, a whole one may not leave anything out
        blocks = []
        for c in calls:
            same = blocks and len(blocks[-1]) < len(names) and c["llh"] not in [x["llh"] for x in blocks[-1]]
            if same:
                blocks[-1].append(c)
            else:
                blocks.append([c])
        settled = any(c["value"] == INF for c in calls)
        if not r.expect(
            len(blocks) == repeat or (settled and 0 < len(blocks) < repeat),
            "every-likelihood-once-per-repetition", case, calls=[c["llh"] for c in calls],
        ):
            return
        sums = []
        for block in blocks:
            r.expect(
                sorted(c["llh"] for c in block) == sorted(names) or block[-1]["value"] == INF,
                "every-likelihood-once", case, calls=[c["llh"] for c in block],
            )
            for a, b in zip(block, block[1:]):
                r.expect(
                    b["key"] is a["out"], "key-left-by-the-previous-likelihood", case,
                    got=repr(b["key"]), want=repr(a["out"]),
                )
            first = keyid(block[0]["key"])
            r.expect(first not in used_keys, "independently-seeded", case, key=first)
            used_keys.add(first)
            for c in block:
                if batch is not None:
                    r.expect(c["batch"] == batch, "batch-size-reaches-likelihood", case, got=c["batch"])
                want = {k: v["prior_args"].get("val") for k, v in PAR.items()}
                want.update(pars)
                r.expect(c["par"] == want, "evaluated-at-this-parameter-set", case, got=c["par"], want=want)
            sums.append(sum(c["value"] for c in block) + want_prior)
        want = sum(sums) / len(sums)
        ok = post == want or abs(post - want) < 1e-5 * max(1.0, abs(want))
        r.expect(ok, "posterior-is-prior-plus-likelihoods", case, got=post, want=want)


def run(r):
    r.rule = "one case per posterior evaluation; every evaluation compares result, prior, keys and parameters"
    r.assumptions = ["likelihoods answer from a script; a real two-likelihood context is compared in the last part"]
    vals = [-2.5, 3.0, INF]
    used = set()
    trans = 0
    # one evaluation, every outcome, every repetition
    for n in (1, 2, 3):
        ctx = make_context(r, n)
        for pars in GOOD + BAD:
            for repeat in (1, 2, 3) if (r.thorough or n < 3) else (1, 2):
                alphabet = vals if n * repeat <= 4 else [-2.5, INF]
                if n * repeat > 6 and not r.thorough:
                    continue
                if n * repeat > 6:
                    alphabet = [-2.5, INF]
                for flat in itertools.product(alphabet, repeat=n * repeat):
                    # distinct finite values so that a forgotten or doubled term shows
                    flat = [v if v == INF else v * (1 + 0.37 * i) for i, v in enumerate(flat)]
                    values = [flat[i * n : (i + 1) * n] for i in range(repeat)]
                    case = ("single", n, pars, repeat, values)
                    evaluate(r, ctx, case, pars, 10 + repeat, repeat, values, used, "rep")
                    trans += 1
                    if pars in BAD:
                        break
        if n == 1:
            for pars in GOOD + BAD:
                evaluate(r, ctx, ("default", pars), pars, None, 1, [[-1.25]], used, "default")
                evaluate(r, ctx, ("once", pars), pars, 3, 1, [[-1.25]], used, "once")
                trans += 2
    r.part("outcomes", evaluations=trans)

    # more likelihoods and repetitions: all finite, and minus infinity at every single place
    for n in (4, 5, 7):
        ctx = make_context(r, n)
        for repeat in (1, 2, 3, 5, 8, 12):
            base = [[-1.5 * (1 + 0.37 * (i * n + j)) for j in range(n)] for i in range(repeat)]
            places = [None] + list(itertools.product(range(repeat), range(n)))
            for at in places if repeat <= 5 else places[:: 5]:
                values = [list(x) for x in base]
                if at:
                    values[at[0]][at[1]] = INF
                evaluate(r, ctx, ("larger", n, repeat, at), GOOD[0], 10, repeat, values, used, "rep")
                trans += 1
            evaluate(r, ctx, ("larger", n, repeat, "outside"), BAD[0], 10, repeat, base, used, "rep")
    # histories on one context: state left by one evaluation must not leak into the next
    ops = [
        (GOOD[0], 1, [[-1.0, -2.0]]),
        (GOOD[1], 1, [[-4.0, 0.5]]),
        (BAD[0], 1, [[-1.0, -2.0]]),
        (BAD[1], 2, [[-1.0, -2.0], [0.0, 0.0]]),
        (GOOD[0], 2, [[-1.0, -2.0], [INF, 0.0]]),
        (GOOD[1], 2, [[-1.0, -2.0], [-5.0, 0.25]]),
    ]
    # what else a user does with the context in between
    touches = [
        lambda ctx: ctx.par_manager.sample_init(),
        lambda ctx: ctx.par_manager.sample_prior(),
        lambda ctx: ctx.par_manager.set_parameter({"alpha": 2.9, "beta": 0.0, "x0_rate": 9.0}),
        lambda ctx: ctx.par_manager.set_parameter("alpha", 3.5),
    ]
    depth = 4 if r.thorough else 3
    n_h = 0
    ctx = make_context(r, 2)
    np.random.seed(3)
    given = {}
    for same in (False, True):
        for d in range(1, depth + 1):
            for h in itertools.product(range(len(ops) + len(touches)), repeat=d):
                if h[-1] >= len(ops) or (d == depth and r.thorough and sum(j >= len(ops) for j in h) > 2):
                    continue
                for j in h:
                    if j >= len(ops):
                        touches[j - len(ops)](ctx)
                        continue
                    pars, repeat, values = ops[j]
                    case = ("history", h, "one-dict" if same else "new-dicts")
                    evaluate(r, ctx, case, pars, 100 + j, repeat, values, used, "rep", given if same else None)
                n_h += 1
                r.traces += 1
    r.part("histories", sequences=n_h, depth=depth, alphabet=len(ops) + len(touches))
    r.states += len(ops) + len(touches)
    r.transitions += trans + n_h

    # a context with real likelihoods: the sum of what they answer when asked directly
    ctx = make_context(r, 0)
    for pars in GOOD + BAD:
        for repeat in (1, 2):
            case = ("real", pars, repeat)
            with r.guard("real", case):
                post, prior = ctx.log_posterior(dict(pars), batch_size=3, repeat_times=repeat)
                want = ref_prior(pars)
                full = {k: v["prior_args"].get("val") for k, v in PAR.items()}
                full.update(pars)
                if math.isfinite(want):
                    key = apt.randgen.get_key(seed=1)
                    for llh in ctx.likelihoods.values():
                        key, v = llh.get_log_likelihood(key, 3, dict(full))
                        want += v
                r.case(case)
                r.traces += 1
                ok = post == want or abs(post - want) < 1e-4 * max(1, abs(want))
                r.expect(ok, "real-likelihoods-summed", case, got=post, want=want)
