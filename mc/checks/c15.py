"""C15: a fit keeps every finished step through continuation and interruption."""

import contextlib
import copy
import itertools
import math
import os
import shutil
import warnings

import emcee
import h5py
import numpy as np

import appletree as apt
from mc import toys

# not in the order of their names
PAR = {
    "zeta": toys.par("norm", prior_args={"mean": 1.0, "std": 0.5}, allowed_range=[0.0, 3.0], init_mean=1.0, init_std=0.3),
    "fix": toys.par("fixed", val=4.0),
    "alpha": toys.par("uniform", prior_args={"lower": 0.5, "upper": 10.0}, allowed_range=[0.5, 10.0], init_mean=9.5, init_std=0.6),
    "x_rate": toys.par("fixed", val=2.0),
}
FIT = ["alpha", "zeta"]
BATCH = 17


def likelihood_of(p):
    return -0.5 * ((p["alpha"] - 8.0) / 1.5) ** 2 - 2.0 * (p["zeta"] - 1.5) ** 2 + 0.1 * p["fix"]


def posterior_of(alpha, zeta):
    if not (0.5 <= alpha <= 10.0 and 0.0 <= zeta <= 3.0):
        return -math.inf
    return likelihood_of({"alpha": alpha, "zeta": zeta, "fix": 4.0}) - (zeta - 1.0) ** 2 / (2 * 0.25)


class Env:
    """What was evaluated, and where the run is to be interrupted."""

    log = []  # (alpha, zeta, names, batch sizes of its simulations, result)
    n = 0
    stop_at = None
    exc = KeyboardInterrupt
    snap = None  # (file, directory)
    sims = []  # batch sizes of the simulations

    @classmethod
    def reset(cls, stop_at=None, exc=KeyboardInterrupt, snap=None):
        cls.log, cls.n, cls.stop_at, cls.exc, cls.snap = [], 0, stop_at, exc, snap
        cls.sims = []


class C15Likelihood(apt.Likelihood):
    def get_log_likelihood(self, key, batch_size, parameters):
        Env.sims.append(batch_size)
        return key, likelihood_of(parameters)


class Move(emcee.moves.StretchMove):
    """Counts the steps it is asked for."""

    def __init__(self):
        super().__init__()
        self.asked = 0

    def propose(self, model, state):
        self.asked += 1
        return super().propose(model, state)


class Spy(apt.Context):
    def log_posterior(self, parameters, batch_size=None, repeat_times=1):
        Env.n += 1
        if Env.snap and os.path.exists(Env.snap[0]):
            shutil.copy(Env.snap[0], os.path.join(Env.snap[1], f"s{Env.n}.h5"))
        if Env.stop_at == Env.n:
            raise Env.exc("interrupted")
        had = len(Env.sims)
        out = super().log_posterior(parameters, batch_size=batch_size, repeat_times=repeat_times)
        Env.log.append((parameters.get("alpha"), parameters.get("zeta"), list(parameters), Env.sims[had:], out))
        return out


def setup(r):
    toys.reset()
    apt.C15Likelihood = C15Likelihood
    r.csv = toys.write_csv(os.path.join(r.scratch, "c15.csv"), {"a": [0.5, 1.5, 0.7]})
    toys.sample_plugin("C15A", ["a"], [np.array([0.4, 0.6, 1.2], dtype=np.float32)])
    toys.sample_plugin("C15E", ["eff"], [np.ones(3, dtype=np.float32)])
    toys.component_cls("C15Comp", [apt.plugins.C15A, apt.plugins.C15E])


def context(r, path, conf=None):
    toys.clear_functions()
    ins = {
        "configs": {},
        "likelihoods": {
            "l": {
                "type": "C15Likelihood", "data_file_name": r.csv, "bins_type": "irreg", "bins_on": "a", "bins": [[0.0, 1.0, 2.0]],
                "clip": [0.0, 2.0], "components": {"x": "C15Comp"}, "copy_parameters": {},
                "parameter_alias": {"alpha": "c15_alpha", "zeta": "c15_zeta", "fix": "c15_fix"},
            }
        },
    }
    if path:
        ins["backend_h5"] = path
    ctx = Spy(ins, par_config=copy.deepcopy(conf or PAR))
    # the analytic likelihood needs them
    ctx.needed_parameters |= set(PAR)
    return ctx


def stored(ctx_or_path):
    """(chain, log probability, log prior) of a file or of the sampler in memory."""
    if isinstance(ctx_or_path, str):
        b = emcee.backends.HDFBackend(ctx_or_path, read_only=True)
    else:
        b = ctx_or_path.sampler.backend
    if b.iteration == 0:
        return np.zeros((0, 0, 2)), np.zeros((0, 0)), None
    return b.get_chain(), b.get_log_prob(), b.get_blobs()


def judge_chain(r, case, before, after, evaluated, start=None):
    """after = before + new steps; every new position was evaluated since or was there before."""
    chain, logp, blobs = after
    old = before[0]
    ok = len(chain) >= len(old) and (len(old) == 0 or np.array_equal(chain[: len(old)], old))
    ok = ok and (len(old) == 0 or np.array_equal(logp[: len(old)], before[1]))
    if not r.expect(ok, "earlier-steps-kept", case, had=len(old), has=len(chain)):
        return
    for i in range(chain.shape[0]):
        for w in range(chain.shape[1]):
            want = posterior_of(*chain[i, w])
            r.expect(abs(logp[i, w] - want) < 1e-6 or logp[i, w] == want, "log-posterior-computed-for-that-step", case, step=i, got=logp[i, w], want=want)
            if blobs is not None:
                b = np.ravel(blobs[i, w])[-1]
                pr = -((chain[i, w, 1] - 1.0) ** 2) / 0.5
                r.expect(abs((b - np.ravel(blobs[0, 0])[-1]) - (pr + (chain[0, 0, 1] - 1.0) ** 2 / 0.5)) < 1e-4, "log-prior-computed-for-that-step", case, step=i)
    n_new, walkers = len(chain) - len(old), chain.shape[1] if chain.ndim == 3 else 0
    if start is not None and n_new and len(evaluated) >= walkers * (n_new + 1):
        # the starting points were evaluated again, they are no proposals
        evaluated = evaluated[walkers:]
    points = {(a, z) for a, z, *_ in evaluated}
    prev = start if start is not None else (old[-1] if len(old) else None)
    moved = 0
    for i in range(len(old), len(chain)):
        for w in range(chain.shape[1]):
            p = tuple(chain[i, w])
            stay = prev is not None and len(prev) > w and tuple(prev[w]) == p
            moved += not stay
            if prev is None:
                stay = False
            r.expect(stay or p in points, "steps-follow-the-last-state", case, step=i, walker=w, got=p)
        prev = chain[i]


def judge_points(r, case, init=None, repeat=1):
    """Every evaluated point has the fitted parameters; a fit starts inside the allowed ranges."""
    for i, (a, z, names, sims, out) in enumerate(Env.log):
        r.expect(sorted(names) == FIT, "parameters-of-an-evaluated-point", case, got=names)
        r.expect(set(sims) <= {BATCH}, "batch-size-asked-for", case, got=sims)
        want = posterior_of(a, z)
        r.expect(len(sims) == (repeat if math.isfinite(want) else len(sims)), "repetitions-asked-for", case, got=len(sims), want=repeat)
        r.expect(out[0] == want or abs(out[0] - want) < 1e-6, "posterior-of-an-evaluated-point", case, got=out[0], want=want)
        if init and i < init:
            r.expect(0.5 <= a <= 10.0 and 0.0 <= z <= 3.0, "initial-points-in-the-allowed-ranges", case, got=(a, z))


def judge_moves(r, case, move, steps, op):
    """Every step is proposed by the moves that were asked for."""
    if move is not None:
        ok = move.asked == steps if not op.startswith("stop") else 0 < move.asked <= steps
        r.expect(ok, "steps-proposed-by-the-moves-asked-for", case, asked=move.asked, steps=steps)


def judge_meta(r, case, path, names=("par_config", "post_parameters", "parameter_fit", "instruct", "batch_size")):
    with h5py.File(path) as f:
        attrs = dict(f["mcmc"].attrs)
    r.expect(all(k in attrs for k in names), "metadata-complete-after-a-finished-run", case, got=sorted(attrs))
    if "parameter_fit" in attrs:
        got = [x.decode() if isinstance(x, bytes) else str(x) for x in attrs["parameter_fit"]]
        r.expect(got == FIT, "order-of-the-parameters-in-the-file", case, got=got)


# ---------------------------------------------------------------------------------------- histories
OPS = ["fit", "fit8", "cont1", "cont2", "stop-cont", "stop-fit", "restart", "other"]


def run_history(r, hist, with_file):
    path = os.path.join(r.scratch, f"h{r.traces % 7}.h5")
    other_path = path[:-3] + "_o.h5"
    for p in (path, other_path):
        if os.path.exists(p):
            os.remove(p)
    ctx = context(r, path if with_file else None)
    source = path if with_file else None
    state = (np.zeros((0, 0, 2)), np.zeros((0, 0)), None)
    walkers = 0
    for d, op in enumerate(hist):
        case = (list(hist[: d + 1]), "file" if with_file else "memory")
        if walkers and not len(state[0]) and op not in ("fit", "fit8", "stop-fit"):
            return  # nothing to continue
        r.case(case)
        r.transitions += 1
        # how it is to be sampled differs from operation to operation
        repeat = 1 + (d + len(op)) % 3
        move = Move() if (d + len(op)) % 2 else None
        kw = {"batch_size": BATCH, "repeat_times": repeat, "moves": move if len(op) % 4 else move and [(move, 1.0)]}
        with r.guard("history", case):
            np.random.seed(1000 + d)
            if op in ("fit", "fit8", "stop-fit"):
                walkers = 8 if op == "fit8" else 6
                n = 1 if op == "fit8" else 2
                Env.reset(stop_at=2 * walkers + 3 if op == "stop-fit" else None)
                try:
                    ctx.fitting(nwalkers=walkers, iteration=n, **kw)
                except KeyboardInterrupt:
                    pass
                judge_moves(r, case, move, n, op)
                done = n if op != "stop-fit" else 1
                after = stored(source or ctx)
                r.expect(len(after[0]) == done and after[0].shape[1:] == (walkers, 2), "fresh-fit-discards-the-old-chain", case, got=after[0].shape, want=(done, walkers, 2))
                judge_chain(r, case, (np.zeros((0, 0, 2)), None, None), after, Env.log)
                judge_points(r, case, init=walkers, repeat=repeat)
                state = after
            elif op in ("cont1", "cont2", "stop-cont"):
                n = 1 if op == "cont1" else 2
                last = state[0][-1]
                Env.reset(stop_at=walkers + 2 if op == "stop-cont" else None)
                try:
                    ctx.continue_fitting(iteration=n, **kw)
                except KeyboardInterrupt:
                    pass
                judge_moves(r, case, move, n, op)
                finished = n if op != "stop-cont" else None
                after = stored(source or ctx)
                # in memory the chain is the continuation
                before = state if with_file else (np.zeros((0, 0, 2)), None, None)
                added = len(after[0]) - len(before[0])
                # a continuation may or may not evaluate its starting points again
                want = {n} if finished else {0, 1}
                r.expect(added in want, "continuing-appends-the-finished-steps", case, added=added, want=sorted(want))
                judge_chain(r, case, before, after, Env.log, start=last)
                judge_points(r, case, repeat=repeat)
                if not (len(after[0]) == 0 and not with_file):
                    state = after
                else:
                    return
            elif op == "restart":
                if not with_file:
                    return
                ctx = context(r, path)
                ctx.pre_fitting(nwalkers=walkers, batch_size=BATCH)
                after = stored(source)
                r.expect(np.array_equal(after[0], state[0]) and np.array_equal(after[1], state[1]), "reading-a-chain-leaves-it", case)
                r.expect(np.array_equal(ctx.sampler.get_chain(), state[0]), "restarted-context-has-the-chain", case)
            elif op == "other":
                last = state[0][-1]
                new = context(r, other_path if with_file else None)
                had = stored(other_path) if with_file and os.path.exists(other_path) else (np.zeros((0, 0, 2)), None, None)
                if len(had[0]) and had[0].shape[1] != walkers:
                    return
                Env.reset()
                new.continue_fitting(context=ctx, iteration=2, **kw)
                judge_moves(r, case, move, 2, op)
                after = stored(other_path if with_file else new)
                r.expect(len(after[0]) == len(had[0]) + 2, "continuing-another-chain-appends-to-the-own-file", case, got=len(after[0]), had=len(had[0]))
                judge_chain(r, case, had, after, Env.log, start=last)
                judge_points(r, case, repeat=repeat)
                mine = stored(source or ctx)
                r.expect(np.array_equal(mine[0], state[0]), "the-other-chain-is-left-as-it-is", case)
            if with_file and op in ("fit", "fit8", "cont1", "cont2"):
                judge_meta(r, case, path)


def check_histories(r):
    depth = 4 if r.thorough else 3
    n = 0
    for with_file in (True, False):
        for first in ("fit", "stop-fit") if with_file else ("fit",):
            for rest in itertools.product(OPS, repeat=depth - 1):
                if not with_file and ("restart" in rest):
                    continue
                run_history(r, (first,) + rest, with_file)
                r.traces += 1
                n += 1
    r.states += n
    r.part("histories", histories=n, depth=depth, operations=len(OPS))


# ---------------------------------------------------------------------------------------- interruptions
def finish(r, case, path, ctx, state, walkers):
    """What was left can be continued, by the context itself and by a new one on a copy of the file."""
    if not len(state[0]):
        return
    copy_path = path[:-3] + "_c.h5" if path else None
    if path:
        shutil.copy(path, copy_path)
        new = context(r, copy_path)
        new.pre_fitting(nwalkers=walkers, batch_size=BATCH)
        Env.reset()
        new.continue_fitting(iteration=1, batch_size=BATCH)
        after = stored(copy_path)
        r.expect(len(after[0]) == len(state[0]) + 1, "continued-by-a-new-context", case, got=len(after[0]), had=len(state[0]))
        judge_chain(r, case, state, after, Env.log)
        judge_meta(r, case, copy_path)
    if ctx is not None:
        Env.reset()
        ctx.continue_fitting(iteration=1, batch_size=BATCH)
        after = stored(path or ctx)
        before = state if path else (np.zeros((0, 0, 2)), None, None)
        r.expect(len(after[0]) == len(before[0]) + 1, "continued-by-the-context-itself", case, got=len(after[0]), had=len(before[0]))
        judge_chain(r, case, before, after, Env.log, start=state[0][-1])


def check_interruptions(r):
    """Every evaluation of a fit and of a continuation raises once."""
    walkers, steps = 6, 2
    n = 0
    for with_file, kind in itertools.product((True, False), ("fit", "refit", "continue", "continue-other")):
        if kind == "refit" and not with_file:
            continue
        for exc in (KeyboardInterrupt, ZeroDivisionError):
            k = 0
            while True:
                k += 1
                if exc is ZeroDivisionError and k % 3 and not r.thorough:
                    if k < 3 * walkers:
                        continue
                case = ("interrupt", kind, "file" if with_file else "memory", exc.__name__, k)
                path = os.path.join(r.scratch, "i.h5") if with_file else None
                if path and os.path.exists(path):
                    os.remove(path)
                stopped = False
                with r.guard("interruption", case):
                    ctx = context(r, path)
                    base = (np.zeros((0, 0, 2)), None, None)
                    start = None
                    np.random.seed(k)
                    if kind != "fit":
                        Env.reset()
                        ctx.fitting(nwalkers=walkers, iteration=1, batch_size=BATCH)
                        base = stored(path or ctx)
                    target = ctx
                    tpath = path
                    if kind == "continue-other":
                        start = base[0][-1]
                        tpath = path[:-3] + "_x.h5" if path else None
                        if tpath and os.path.exists(tpath):
                            os.remove(tpath)
                        target = context(r, tpath)
                        base = (np.zeros((0, 0, 2)), None, None)
                    elif kind == "continue":
                        start = base[0][-1]
                        if not with_file:
                            base = (np.zeros((0, 0, 2)), None, None)
                    elif kind == "refit":
                        base = (np.zeros((0, 0, 2)), None, None)
                    Env.reset(stop_at=k, exc=exc)
                    try:
                        if kind in ("fit", "refit"):
                            target.fitting(nwalkers=walkers, iteration=steps, batch_size=BATCH)
                        else:
                            target.continue_fitting(context=ctx if kind == "continue-other" else None, iteration=steps, batch_size=BATCH)
                    except exc:
                        stopped = True
                    r.case(case)
                    after = stored(tpath or target)
                    added = len(after[0]) - len(base[0])
                    # whole rounds of evaluations before this one, with or without one for the starting points
                    rounds = (k - 1) // walkers
                    allowed = {max(0, rounds - 1)} if kind in ("fit", "refit", "continue-other") else {rounds, max(0, rounds - 1)}
                    if not stopped:
                        allowed = {steps}
                    r.expect(added in allowed, "an-interruption-loses-only-the-unfinished-step", case, added=added, allowed=sorted(allowed))
                    log = list(Env.log)
                    judge_chain(r, case, base, after, log, start=start)
                    judge_points(r, case, init=walkers if kind in ("fit", "refit") else None)
                    if stopped and (r.thorough or k % walkers in (0, 1, 4)):
                        finish(r, case, tpath, target, after, walkers)
                    n += 1
                if not stopped:
                    break
    r.traces += n
    r.part("interruptions", points=n, walkers=walkers, steps=steps)


def check_snapshots(r):
    """The file as a crash at any evaluation would leave it."""
    walkers, steps = 6, 4 if r.thorough else 2
    n = 0
    snaps = os.path.join(r.scratch, "snaps")
    for kind in ("fit", "continue"):
        os.makedirs(snaps, exist_ok=True)
        path = os.path.join(r.scratch, "snap.h5")
        if os.path.exists(path):
            os.remove(path)
        ctx = context(r, path)
        np.random.seed(5)
        base = (np.zeros((0, 0, 2)), None, None)
        with r.guard("crash", (kind,)):
            if kind == "continue":
                Env.reset()
                ctx.fitting(nwalkers=walkers, iteration=1, batch_size=BATCH)
                base = stored(path)
            Env.reset(snap=(path, snaps))
            if kind == "fit":
                ctx.fitting(nwalkers=walkers, iteration=steps, batch_size=BATCH)
            else:
                ctx.continue_fitting(iteration=steps, batch_size=BATCH)
            total = Env.n
            whole = stored(path)
            for k in range(1, total + 1):
                case = ("crash", kind, k)
                snap = os.path.join(snaps, f"s{k}.h5")
                if not os.path.exists(snap):
                    continue
                r.case(case)
                n += 1
                got = stored(snap)
                rounds = (k - 1) // walkers
                allowed = {max(0, rounds - 1)} | ({rounds} if kind == "continue" else set())
                added = len(got[0]) - len(base[0])
                r.expect(added in allowed, "a-crash-loses-only-the-unfinished-step", case, added=added, allowed=sorted(allowed))
                m = len(got[0])
                r.expect(m == 0 or (np.array_equal(got[0], whole[0][:m]) and np.array_equal(got[1], whole[1][:m])), "a-crash-leaves-the-finished-steps", case)
                if k % walkers in (1, 4):
                    finish(r, case, snap, None, got, walkers)
        shutil.rmtree(os.path.join(r.scratch, "snaps"), ignore_errors=True)
    r.traces += n
    r.part("crash-points", points=n)


EMCEE_OWN = ("version", "nwalkers", "ndim", "has_blobs", "iteration")


@contextlib.contextmanager
def failing_metadata(at):
    """The at-th attribute the repository writes to the file fails."""
    cls = h5py.AttributeManager
    old = cls.__setitem__
    count = [0]

    def new(self, name, value):
        if name not in EMCEE_OWN and not name.startswith("random_state"):
            count[0] += 1
            if count[0] == at:
                raise OSError(28, "No space left on device")
        return old(self, name, value)

    cls.__setitem__ = new
    try:
        yield count
    finally:
        cls.__setitem__ = old


def check_metadata(r):
    walkers = 6
    n = 0
    for kind in ("fit", "continue"):
        at = 0
        while at < 40:
            at += 1
            case = ("metadata", kind, at)
            path = os.path.join(r.scratch, "m.h5")
            if os.path.exists(path):
                os.remove(path)
            failed = False
            with r.guard("metadata", case):
                ctx = context(r, path)
                np.random.seed(at)
                base = (np.zeros((0, 0, 2)), None, None)
                if kind == "continue":
                    Env.reset()
                    ctx.fitting(nwalkers=walkers, iteration=1, batch_size=BATCH)
                    base = stored(path)
                Env.reset()
                with failing_metadata(at):
                    try:
                        if kind == "fit":
                            ctx.fitting(nwalkers=walkers, iteration=2, batch_size=BATCH)
                        else:
                            ctx.continue_fitting(iteration=2, batch_size=BATCH)
                    except OSError:
                        failed = True
                r.case(case)
                n += 1
                after = stored(path)
                r.expect(len(after[0]) == len(base[0]) + 2, "chain-survives-a-failed-metadata-write", case, got=len(after[0]))
                judge_chain(r, case, base, after, Env.log)
                if failed:
                    finish(r, case, path, ctx, after, walkers)
                else:
                    judge_meta(r, case, path)
            if not failed:
                break
    r.traces += n
    r.part("metadata-writes", points=n)


def check_defaults(r):
    """A fit for which neither repetitions nor moves are asked evaluates every point once."""
    for with_file in (True, False):
        path = os.path.join(r.scratch, "d.h5") if with_file else None
        if path and os.path.exists(path):
            os.remove(path)
        case = ("defaults", "file" if with_file else "memory")
        r.case(case)
        r.traces += 1
        with r.guard("defaults", case):
            ctx = context(r, path)
            np.random.seed(1)
            for call in (
                lambda: ctx.fitting(nwalkers=6, iteration=2, batch_size=BATCH),
                lambda: ctx.continue_fitting(iteration=2, batch_size=BATCH),
                lambda: ctx.pre_fitting(nwalkers=6, batch_size=BATCH),
            ):
                Env.reset()
                call()
                judge_points(r, case)
            Env.reset()
            ctx.sampler.compute_log_prob([[9.0, 1.0]] * 6)
            judge_points(r, case)


def check_long(r):
    """Longer runs with more walkers, continued and restarted several times."""
    n = 0
    for with_file in (True, False):
        for walkers, steps in ((40, (3, 2)), (12, (15, 1, 1, 9)), (7, (1,) * 8), (6, (40, 25))):
            path = os.path.join(r.scratch, "long.h5") if with_file else None
            if path and os.path.exists(path):
                os.remove(path)
            state = (np.zeros((0, 0, 2)), None, None)
            for d, k in enumerate(steps):
                case = ("long", walkers, steps[: d + 1], "file" if with_file else "memory")
                r.case(case)
                n += 1
                with r.guard("long", case):
                    np.random.seed(d)
                    if d == 0 or (with_file and d % 2):
                        ctx = context(r, path)
                    Env.reset()
                    last = None
                    if d == 0:
                        ctx.fitting(nwalkers=walkers, iteration=k, batch_size=BATCH)
                    else:
                        if with_file and d % 2:
                            ctx.pre_fitting(nwalkers=walkers, batch_size=BATCH)
                        last = state[0][-1]
                        ctx.continue_fitting(iteration=k, batch_size=BATCH)
                    after = stored(path or ctx)
                    before = state if with_file else (np.zeros((0, 0, 2)), None, None)
                    r.expect(len(after[0]) == len(before[0]) + k, "continuing-appends-the-finished-steps", case, got=len(after[0]), had=len(before[0]))
                    judge_chain(r, case, before, after, Env.log, start=last)
                    judge_points(r, case, init=walkers if d == 0 else None)
                    if with_file:
                        judge_meta(r, case, path)
                    state = after
                    # another context that goes on from here
                    new = context(r, None)
                    Env.reset()
                    new.continue_fitting(context=ctx, iteration=1, batch_size=BATCH)
                    got = stored(new)
                    r.expect(len(got[0]) == 1, "continuing-another-chain-appends-to-the-own-file", case, got=len(got[0]))
                    judge_chain(r, case + ("other",), (np.zeros((0, 0, 2)), None, None), got, Env.log, start=after[0][-1])
    r.part("long-runs", fits=n)


def check_initial(r):
    """The walkers start at the initial guess, not anywhere in the prior."""
    at = {"low": (0.6, 0.1), "mid": (5.0, 1.5), "high": (9.9, 2.9), "out": (12.0, -0.5), "swapped": (1.5, 0.9)}
    priors = {
        "norm": {"mean": 1.4, "std": 40.0},
        "uniform": {"lower": -1e3, "upper": 1e3},
        "twohalfnorm": {"mu": 1.4, "sigma_pos": 40.0, "sigma_neg": 30.0},
        "free": {},
    }
    std = 1e-3
    n = 0
    for place, (alpha, zeta) in at.items():
        for kinds in itertools.product(priors, repeat=2):
            for walkers in (6, 20):
                conf = copy.deepcopy(PAR)
                want = {}
                for name, mean, kind in zip(FIT, (alpha, zeta), kinds):
                    lo, hi = conf[name]["allowed_range"]
                    conf[name] = toys.par(kind, prior_args=priors[kind], allowed_range=[lo, hi], init_mean=mean, init_std=std)
                    want[name] = (max(lo, min(hi, mean - 8 * std)), min(hi, max(lo, mean + 8 * std)))
                case = ("initial", place, kinds, walkers)
                r.case(case)
                n += 1
                with r.guard("initial", case):
                    ctx = context(r, None, conf)
                    np.random.seed(2)
                    Env.reset()
                    try:
                        ctx.fitting(nwalkers=walkers, iteration=1, batch_size=BATCH)
                    except ValueError as e:
                        # walkers clipped to the same point are linearly dependent
                        if place != "out":
                            raise
                    first = Env.log[:walkers]
                    for a, z, *_ in first:
                        ok = want["alpha"][0] <= a <= want["alpha"][1] and want["zeta"][0] <= z <= want["zeta"][1]
                        r.expect(ok, "walkers-start-at-the-initial-guess", case, got=(a, z), want=want)
                    if place != "out":
                        r.expect(len({x[0] for x in first}) == walkers, "walkers-start-at-different-points", case, got=first)
    r.states += n
    r.part("initial-points", fits=n)


def run(r):
    r.rule = "one case per operation of a history, per interrupted evaluation, per crash point and per failing metadata write"
    r.assumptions = [
        "the likelihood is replaced by an analytic one, the sampler and the file are the real ones",
        "a single HDF5 write of the chain is atomic (crash points lie at the evaluations, when the file is closed)",
        "a chain in memory is replaced by its continuation",
    ]
    warnings.simplefilter("ignore")
    setup(r)
    check_histories(r)
    check_interruptions(r)
    check_snapshots(r)
    check_metadata(r)
    check_defaults(r)
    check_initial(r)
    check_long(r)
