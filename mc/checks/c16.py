"""C16: a restored context is the context that ran, and posterior summaries are current."""

import copy
import itertools
import json
import math
import os
import warnings

import emcee
import h5py
import numpy as np

import appletree as apt
from appletree import randgen
from appletree.share import set_global_config
from mc import toys

F = np.float32
BATCH = 6
SEEN = []


class Spy(apt.Context):
    """Records the batch size of every evaluation."""

    def log_posterior(self, parameters, batch_size=None, repeat_times=1):
        SEEN.append((batch_size, repeat_times))
        return super().log_posterior(parameters, batch_size=batch_size, repeat_times=repeat_times)


def setup(r):
    import jax.numpy as jnp

    xs = jnp.asarray(np.array([0.5, 0.75, 1.25, 1.5, 1.75, 1.6], F))

    def weight(flag):
        if flag is True:
            return 0.75
        if flag is False:
            return 0.25
        return 0.1 * float(flag)

    def obs(self, key, parameters, batch_size):
        return key, xs, xs * parameters["p"] * weight(self.c16_flag.value)

    def eff(self, key, parameters, cb):
        return key, jnp.clip(cb * 0.3 + 0.01 * parameters["q"], 0.0, 1.0)

    toys.plugin("C16Obs", ["batch_size"], ["ca", "cb"], obs, ("p",), [apt.Constant(name="c16_flag", default=7.0)])
    toys.plugin("C16Eff", ["cb"], ["eff"], eff, ("q",))
    toys.component_cls("C16Comp", [apt.plugins.C16Obs, apt.plugins.C16Eff], "on_sim")
    toys.fixed_cls("C16Fixed")
    r.csv = toys.write_csv(os.path.join(r.scratch, "c16.csv"), {"ca": [0.6, 1.5, 0.7, 1.9]})


FLAGS = [True, False, 2.5, {"l": True, "m": 2.0}, {"m": 3, "l": False}]
COPIES = [{}, {"er_rate": "base"}, {"er_rate": "base", "fx_rate": "base"}, {"er_rate": "fx_rate"}]


def entries(r, copies, fixed):
    """The parameters given: sources of the copies instead of the copies."""
    def rate(hi):
        return toys.par("uniform", prior_args={"lower": 0.5, "upper": hi}, allowed_range=[0.5, hi], init_mean=4.0, init_std=0.5)

    pc = {
        "q": toys.par("twohalfnorm", prior_args={"mu": 2.0, "sigma_pos": 0.5, "sigma_neg": 1.0}, allowed_range=[0.0, 5.0], init_mean=2.0, init_std=0.3),
        "p": toys.par("norm", prior_args={"mean": 1.0, "std": 0.25}, allowed_range=[0.25, 2.0], init_mean=1.0, init_std=0.1),
        "fx_rate": rate(9.0),
        "er_rate": rate(11.0),
    }
    if fixed:
        pc["q"] = toys.par("fixed", val=1.5)
    for k, v in copies.items():
        pc.pop(k)
    if "base" in copies.values():
        pc["base"] = rate(12.0)
    return pc


def instruct_of(r, g, path):
    def llh(alias):
        d = {
            "data_file_name": r.csv, "bins_type": "irreg", "bins_on": "ca", "bins": [[0.0, 1.0, 2.0]], "clip": [0.0, 2.0],
            "components": {"er": "C16Comp", "fx": {"component_cls": "C16Fixed", "file_name": r.csv}},
            "copy_parameters": dict(COPIES[g["copies"]]),
        }
        if alias:
            d["parameter_alias"] = {"p_l": "p"}
        return d

    ins = {"likelihoods": {"l": llh(g["alias"])}}
    if g["two"]:
        ins["likelihoods"]["m"] = {**llh(False), "copy_parameters": {}}
    if g["flag"] is not None:
        ins["configs"] = {"c16_flag": copy.deepcopy(FLAGS[g["flag"]])}
    if path:
        ins["backend_h5"] = path
    return ins


def make(r, g, path):
    toys.reset()
    pc = entries(r, COPIES[g["copies"]], g["fixed"])
    if g["alias"]:
        pc["p_l"] = {**pc["p"], "init_mean": 1.2}
        if not g["two"]:
            pc.pop("p")
    ins = instruct_of(r, g, path)
    if g["manual"]:
        # a decoy in the file, the parameters by hand
        ins["par_config"] = toys.write_json(os.path.join(r.scratch, "decoy.json"), {k: toys.par(val=3.0) for k in pc})
        return Spy(ins, par_config=pc)
    ins["par_config"] = toys.write_json(os.path.join(r.scratch, "pars.json"), pc)
    return Spy(ins)


class Move(emcee.moves.StretchMove):
    """Counts the steps it is asked for."""

    def __init__(self):
        super().__init__()
        self.asked = 0

    def propose(self, model, state):
        self.asked += 1
        return super().propose(model, state)


BASE = dict(flag=None, copies=0, alias=False, two=False, fixed=False, manual=False, rename=False, walkers=10, batch=BATCH, moves=False, touched=False)
MENU = dict(
    flag=[0, 1, 2, 3, 4], copies=[1, 2, 3], alias=[True], two=[True], fixed=[True], manual=[True], rename=[True], walkers=[14], batch=[3],
    moves=[True], touched=[True],
)


def points(ctx, k=3):
    """Parameter sets inside and outside the allowed ranges."""
    names = list(ctx.par_manager.parameter_fit)
    conf = ctx.par_manager.par_config
    out = []
    for j in range(k):
        p = {}
        for i, n in enumerate(names):
            lo, hi = conf[n]["allowed_range"]
            p[n] = lo + (hi - lo) * (0.2 + 0.17 * ((i + j) % 4))
        out.append(p)
    for n in names:
        lo, hi = conf[n]["allowed_range"]
        out.append({**out[0], n: lo})
        out.append({**out[0], n: hi + 0.125})
    return out


def post(ctx, p, batch):
    a, b = ctx.log_posterior(dict(p), batch_size=batch)
    return float(a), float(b)


def equal(a, b):
    return a == b or abs(a - b) <= 1e-5 * (1 + abs(b))


def run_config(r, g):
    path = os.path.join(r.scratch, "fit.h5")
    moved = os.path.join(r.scratch, "renamed.h5")
    for p in (path, moved):
        if os.path.exists(p):
            os.remove(p)
    case = ("restore", {k: v for k, v in g.items() if v != BASE[k]})
    r.case(case)
    r.traces += 1
    with r.guard("restore", case):
        ctx = make(r, g, path)
        np.random.seed(3)
        ctx.fitting(nwalkers=g["walkers"], iteration=2, batch_size=g["batch"])
        pts = points(ctx)
        want = [post(ctx, p, g["batch"]) for p in pts]
        conf = copy.deepcopy(ctx.par_manager.par_config)
        chain = ctx.sampler.get_chain().copy()
        fit = list(ctx.par_manager.parameter_fit)
        mpe = ctx.get_post_parameters("mpe")
        llhs = {k: (list(v.components), sorted(v.needed_parameters)) for k, v in ctx.likelihoods.items()}
        data = {k: np.asarray(v.data_hist).tolist() for k, v in ctx.likelihoods.items()}
        if g["touched"]:
            # the parameter file is edited after the fit
            for f in ("pars.json", "decoy.json"):
                fn = os.path.join(r.scratch, f)
                if os.path.exists(fn):
                    toys.write_json(fn, {k: toys.par(val=9.0) for k in conf})
        if g["rename"]:
            os.rename(path, moved)
        file = moved if g["rename"] else path
        # a new session: nothing is set
        toys.reset()
        move = Move() if g["moves"] else None
        new = Spy.from_backend(file, moves=move)
        r.expect(list(new.likelihoods) == list(llhs), "same-likelihoods", case, got=list(new.likelihoods))
        got = {k: (list(v.components), sorted(v.needed_parameters)) for k, v in new.likelihoods.items()}
        r.expect(got == llhs, "same-components-and-parameters", case, got=got, want=llhs)
        r.expect({k: np.asarray(v.data_hist).tolist() for k, v in new.likelihoods.items()} == data, "same-data", case)
        r.expect(list(new.par_manager.parameter_fit) == fit, "same-fitted-parameters", case, got=list(new.par_manager.parameter_fit), want=fit)
        r.expect(new.par_manager.par_config == conf, "same-priors-and-ranges", case, got=new.par_manager.par_config, want=conf)
        for p, w in zip(pts, want):
            h = post(new, p, g["batch"])
            r.expect(equal(h[0], w[0]) and equal(h[1], w[1]), "same-posterior", case, at=p, got=h, want=w)
        r.expect(np.array_equal(new.sampler.get_chain(), chain), "same-chain", case)
        r.expect(new.sampler.nwalkers == g["walkers"], "same-walkers", case, got=new.sampler.nwalkers)
        SEEN.clear()
        new.sampler.compute_log_prob(chain[-1])
        r.expect({b for b, _ in SEEN} == {g["batch"]}, "same-batch-size", case, got=sorted(set(SEEN), key=repr))
        r.expect(new.get_post_parameters("mpe") == mpe, "same-best-parameters", case, got=new.get_post_parameters("mpe"), want=mpe)
        if move is not None:
            for _ in new.sampler.sample(chain[-1], iterations=2, store=False, skip_initial_state_check=True):
                pass
            r.expect(move.asked == 2, "moves-asked-for", case, got=move.asked)
        # it goes on in the file it was restored from
        new.continue_fitting(iteration=1, batch_size=g["batch"])
        b = emcee.backends.HDFBackend(file, read_only=True)
        r.expect(b.iteration == len(chain) + 1, "uses-the-file-it-was-restored-from", case, got=b.iteration)
        r.expect(np.array_equal(b.get_chain()[: len(chain)], chain), "uses-the-file-it-was-restored-from", case)
        r.expect(not (g["rename"] and os.path.exists(path)), "no-other-file-is-written", case)
        # and again
        toys.reset()
        third = Spy.from_backend(file)
        r.expect(len(third.sampler.get_chain()) == len(chain) + 1, "restored-a-second-time", case)
        for p, w in zip(pts[:2], want[:2]):
            h = post(third, p, g["batch"])
            r.expect(equal(h[0], w[0]), "same-posterior-after-a-second-restore", case, at=p, got=h, want=w)


def check_restore(r):
    keys = list(MENU)
    n = 0
    for k in range(0, 4 if r.thorough else 3):
        for ks in itertools.combinations(keys, k):
            for vals in r.mine(itertools.product(*[MENU[x] for x in ks])):
                g = {**BASE, **dict(zip(ks, vals))}
                if g["flag"] in (3, 4):
                    g["two"] = True
                run_config(r, g)
                n += 1
    r.states += n
    r.part("restored-configurations", configurations=n)


def check_batches(r):
    """The batch size and number of walkers are those of the last run of the chain in the file."""
    ops = ["fit", "cont", "restore-cont", "other", "fit-14"]
    n = 0
    for depth in (1, 2, 3):
        for rest in itertools.product(ops, repeat=depth - 1):
            for turn in range(2):
                if not r.turn():
                    continue
                hist = ("fit",) + rest
                case = ("batches", hist, turn)
                path = os.path.join(r.scratch, "batch.h5")
                source = os.path.join(r.scratch, "batch_s.h5")
                for p in (path, source):
                    if os.path.exists(p):
                        os.remove(p)
                r.case(case)
                n += 1
                with r.guard("batches", case):
                    ctx = make(r, BASE, path)
                    walkers = 10
                    for d, op in enumerate(hist):
                        batch = (BATCH, 3, 5)[(d + turn * (1 + d)) % 3]
                        np.random.seed(d)
                        if op.startswith("fit"):
                            walkers = 14 if op == "fit-14" else 10
                            ctx.fitting(nwalkers=walkers, iteration=1, batch_size=batch)
                        elif op == "cont":
                            ctx.continue_fitting(iteration=1, batch_size=batch)
                        elif op == "restore-cont":
                            toys.reset()
                            ctx = Spy.from_backend(path)
                            ctx.continue_fitting(iteration=1, batch_size=batch)
                        else:
                            first = make(r, BASE, source)
                            first.fitting(nwalkers=walkers, iteration=1, batch_size=BATCH + 1)
                            ctx = make(r, BASE, path)
                            ctx.continue_fitting(context=first, iteration=1, batch_size=batch)
                    toys.reset()
                    new = Spy.from_backend(path)
                    r.expect(new.sampler.nwalkers == walkers, "same-walkers", case, got=new.sampler.nwalkers, want=walkers)
                    SEEN.clear()
                    new.sampler.compute_log_prob(new.sampler.get_chain()[-1])
                    r.expect({b for b, _ in SEEN} == {batch}, "same-batch-size", case, got=sorted(set(SEEN), key=repr), want=batch)
    r.states += n
    r.part("batch-sizes", histories=n)


def check_edited(r):
    """Priors and ranges changed by hand before the fit are those of the restored context."""
    edits = {
        "prior": ("p", "prior_args", {"mean": 1.25, "std": 0.125}),
        "type": ("p", "prior_type", "free"),
        "range": ("q", "allowed_range", [1.0, 3.0]),
        "guess": ("q", "init_mean", 2.5),
        "rate": ("er_rate", "allowed_range", [1.0, 6.0]),
        "fixed": ("fx_rate", None, toys.par("fixed", val=2.0)),
    }
    n = 0
    for k in (1, 2):
        for names in itertools.combinations(edits, k):
            for manual in (False, True):
                if not r.turn():
                    continue
                case = ("edited", names, manual)
                path = os.path.join(r.scratch, "edited.h5")
                if os.path.exists(path):
                    os.remove(path)
                r.case(case)
                n += 1
                with r.guard("edited", case):
                    ctx = make(r, {**BASE, "manual": manual}, path)
                    conf = ctx.par_manager.par_config
                    for e in names:
                        name, field, value = edits[e]
                        if field is None:
                            conf[name] = copy.deepcopy(value)
                        else:
                            conf[name][field] = copy.deepcopy(value)
                    ctx.par_manager.init_parameter()
                    np.random.seed(5)
                    ctx.fitting(nwalkers=10, iteration=1, batch_size=BATCH)
                    pts = points(ctx)
                    want = [post(ctx, p, BATCH) for p in pts]
                    conf = copy.deepcopy(conf)
                    fit = list(ctx.par_manager.parameter_fit)
                    toys.reset()
                    new = Spy.from_backend(path)
                    r.expect(new.par_manager.par_config == conf, "same-priors-and-ranges", case, got=new.par_manager.par_config, want=conf)
                    r.expect(list(new.par_manager.parameter_fit) == fit, "same-fitted-parameters", case, got=list(new.par_manager.parameter_fit), want=fit)
                    for p, w in zip(pts, want):
                        h = post(new, p, BATCH)
                        r.expect(equal(h[0], w[0]) and equal(h[1], w[1]), "same-posterior", case, at=p, got=h, want=w)
    r.states += n
    r.part("edited-priors", contexts=n)


def check_relative(r):
    """The file is found through the search for files."""
    for how in ("relative", "url_base"):
        folder = os.path.join(r.scratch, "deep")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, "found.h5")
        case = ("restore", how)
        r.case(case)
        with r.guard("restore", case):
            ctx = make(r, BASE, path)
            ctx.fitting(nwalkers=10, iteration=2, batch_size=BATCH)
            chain = ctx.sampler.get_chain().copy()
            toys.reset()
            if how == "relative":
                with toys.chdir(folder):
                    new = Spy.from_backend("found.h5")
                    got = new.sampler.get_chain()
            else:
                set_global_config({"url_base": folder})
                new = Spy.from_backend("found.h5")
                got = new.sampler.get_chain()
            r.expect(np.array_equal(got, chain), "uses-the-file-it-was-restored-from", case)


# ---------------------------------------------------------------------------------------- summaries
def table(ctx, path):
    b = emcee.backends.HDFBackend(path, read_only=True) if path else ctx.sampler.backend
    return b.get_chain(flat=True), b.get_log_prob(flat=True)


def judge_summaries(r, ctx, path, case, fixed, draws=False):
    chain, logp = table(ctx, path)
    names = list(ctx.par_manager.parameter_fit)
    r.case(case)
    held = []
    for which in ("mpe", "median", "random", "random", None):
        got = ctx.get_post_parameters(which) if which else ctx.get_post_parameters()
        held.append((which, got, dict(got)))
        r.expect(set(got) == set(names) | set(fixed), "summary-has-all-parameters", case, which=which, got=sorted(got))
        r.expect(all(got[k] == v for k, v in fixed.items()), "fixed-parameters-included", case, which=which, got=got)
        row = np.array([got[n] for n in names])
        if which in ("mpe", None):
            ok = any(np.array_equal(row, chain[i]) for i in np.flatnonzero(logp == logp.max()))
            r.expect(ok, "best-is-the-stored-sample-of-highest-posterior", case, got=row, logp=logp)
        elif which == "median":
            want = [sorted(chain[:, i])[(len(chain) - 1) // 2 : len(chain) // 2 + 1] for i in range(len(names))]
            r.expect(np.allclose(row, [sum(w) / len(w) for w in want], rtol=1e-12), "median-per-parameter", case, got=row, want=want)
        else:
            r.expect(any(np.array_equal(row, c) for c in chain), "random-is-a-stored-sample", case, got=row)
    if draws:
        # every stored sample can be the random one
        want, seen = {tuple(c) for c in chain}, set()
        for k in range(100 * len(want)):
            np.random.seed(k)
            got = ctx.get_post_parameters("random")
            seen.add(tuple(got[n] for n in names))
            if seen >= want:
                break
        r.expect(seen == want, "random-may-be-any-stored-sample", case, missing=sorted(want - seen))
    for bad in ("best", "mean", "", None, 0):
        r.raises(ValueError, "unknown-kind-raises", lambda: ctx.get_post_parameters(bad), case + (bad,))
    # a summary belongs to who asked for it: neither an evaluation elsewhere nor a change of the returned
    # dictionary reaches other summaries
    ctx.log_posterior({n: 1.25 * v for n, v in zip(names, chain[0])}, batch_size=BATCH)
    best = ctx.get_post_parameters()
    for which, obj, copied in held:
        r.expect(obj == copied, "summary-keeps-its-values", case, which=which, got=obj, want=copied)
    r.expect(best == held[0][2], "best-is-the-same-after-an-evaluation", case, got=best, want=held[0][2])
    for k in held[0][1]:
        held[0][1][k] = -77.0
    r.expect(ctx.get_post_parameters() == best, "best-is-the-same-after-a-change-of-the-returned-one", case)
    best = ctx.get_post_parameters()
    out = os.path.join(ctx_dir(case, path, ctx), "post.json")
    ctx.dump_post_parameters(out)
    with open(out) as f:
        r.expect(json.load(f) == best, "dumped-parameters-are-the-best", case)
    for l, alias in (("l", True), ("m", False)):
        if l not in ctx.likelihoods:
            continue
        use = dict(best)
        if alias and "p_l" in use:
            use["p"] = use.pop("p_l")
        comp = ctx[l]["er"]
        _, want = comp.simulate(randgen.get_key(seed=4), BATCH, use)
        got = ctx.get_template(l, "er", batch_size=BATCH, seed=4)
        r.expect(len(got) == len(want) and all(np.array_equal(a, b) for a, b in zip(got, want)), "template-at-the-best-parameters", case, llh=l)


def ctx_dir(case, path, ctx):
    return os.path.dirname(path) if path else ctx._c16_dir


def judge_meta(r, ctx, path, case):
    with h5py.File(path) as f:
        a = dict(f["mcmc"].attrs)
    chain, logp = table(ctx, path)
    names = list(ctx.par_manager.parameter_fit)
    best = json.loads(a["post_parameters"])
    ok = any(all(best[n] == chain[i][j] for j, n in enumerate(names)) for i in np.flatnonzero(logp == logp.max()))
    r.expect(ok, "metadata-has-the-best-of-the-chain", case, got=best)
    r.expect([x.decode() if isinstance(x, bytes) else str(x) for x in a["parameter_fit"]] == names, "metadata-order-of-parameters", case)
    r.expect(json.loads(a["par_config"]) == ctx.par_manager.par_config, "metadata-has-the-priors", case)
    acc = np.asarray(a["acceptance_fraction"])
    r.expect(acc.shape == (chain.shape[0] // (a["iteration"] or 1),) and np.all((acc >= 0) & (acc <= 1)), "metadata-acceptance", case, got=acc)


def check_summaries(r):
    ops = ["fit", "fit14", "cont", "restore", "sum", "pre"]
    depth = 5 if r.thorough else 4
    n = 0
    for with_file in (True, False):
        g = {**BASE, "alias": True, "two": True, "fixed": True, "flag": 0}
        path = os.path.join(r.scratch, "sum.h5") if with_file else None
        fixed = {"q": 1.5}
        for rest in itertools.product(ops, repeat=depth - 1):
            if rest[-1] == "sum" or (not with_file and ({"restore", "pre"} & set(rest))):
                continue
            # a summary in between only matters before something changes the chain
            if any(a == b == "sum" for a, b in zip(rest, rest[1:])):
                continue
            if not r.thorough and rest.count("restore") + rest.count("pre") > 1:
                continue
            if not r.turn():
                continue
            hist = ("fit",) + rest
            n += 1
            r.traces += 1
            if path and os.path.exists(path):
                os.remove(path)
            with r.guard("summary", (hist, with_file)):
                ctx = make(r, g, path)
                ctx._c16_dir = r.scratch
                for d, op in enumerate(hist):
                    case = (list(hist[: d + 1]), "file" if with_file else "memory")
                    np.random.seed(d)
                    if op in ("fit", "fit14"):
                        ctx.fitting(nwalkers=10 if op == "fit" else 14, iteration=1, batch_size=BATCH)
                    elif op == "cont":
                        ctx.continue_fitting(iteration=1, batch_size=BATCH)
                    elif op == "restore":
                        toys.reset()
                        ctx = Spy.from_backend(path)
                    elif op == "pre":
                        ctx.pre_fitting(nwalkers=ctx.sampler.nwalkers, batch_size=BATCH)
                    elif op == "sum":
                        judge_summaries(r, ctx, path, tuple(case), fixed)
                    if with_file and op in ("fit", "fit14", "cont"):
                        judge_meta(r, ctx, path, case)
                judge_summaries(r, ctx, path, tuple(case) + ("end",), fixed, draws=len(set(hist)) < 3)
    r.transitions += n * depth
    r.part("summaries", histories=n, depth=depth)


def run(r):
    r.rule = "one case per restored configuration (all single settings and pairs of settings), and per summary at the end of a history"
    r.assumptions = ["options belong to the instructions; options set by hand before the fit are not restored", "the simulation is deterministic so that posteriors can be compared"]
    warnings.simplefilter("ignore")
    setup(r)
    if r.turn():
        check_relative(r)
    check_batches(r)
    check_edited(r)
    check_summaries(r)
    check_restore(r)
