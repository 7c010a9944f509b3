"""C05: no random key is ever used twice, and equal keys give equal results."""

import inspect
import itertools
import os

import jax
import numpy as np

import appletree as apt
import appletree.share as share
from appletree import randgen
from mc import keyflow, physics, toys

F = np.float32
MON = keyflow.MON

# sampler -> lists of its parameters
SAMPLERS = {
    "uniform": [(0.0, 1.0), ([0.0, 1.0], 3.0), ([0.0, 1.0], [2.0, 3.0])],
    "poisson": [(3.0,), ([0.5, 20.0],), ([[1.0], [2.0]],)],
    "gamma": [(2.0, 1.0), ([0.5, 3.0], 2.0), ([0.5, 3.0], [1.0, 2.0])],
    "normal": [(0.0, 1.0), ([0.0, 5.0], 2.0), ([0.0, 5.0], [1.0, 2.0])],
    "truncate_normal": [(0.0, 1.0, -1.0, 1.0), ([0.0, 1.0], 1.0, 0.0, None), ([0.0, 1.0], [1.0, 2.0], None, 1.5)],
    "skewnormal": [(2.0, 0.0, 1.0), ([2.0, -1.0], 0.0, 1.0), ([2.0, -1.0], [0.0, 1.0], [1.0, 2.0])],
    "bernoulli": [(0.5,), ([0.3, 0.6],)],
    "binomial_hybrid": [(0.5, 10), ([0.3, 0.6], 40), (0.4, [10, 300])],
    "binomial": [(0.5, 10), ([0.3, 0.6], 40), (0.4, [10, 300])],
    "negative_binomial": [(0.5, 10.0), ([0.3, 0.6], 40.0), (0.4, [10.0, 30.0])],
    "generalized_poisson": [(3.0, 0.2), ([3.0, 8.0], 0.1), ([3.0, 8.0], [0.1, 0.5])],
    "twohalfnorm": [(0.0, 1.0, 2.0), ([0.0, 1.0], 1.0, 2.0), ([0.0, 1.0], [1.0, 2.0], [2.0, 0.5])],
}


def k2t(key):
    return tuple(int(v) for v in np.asarray(key))


def values(out):
    return [np.asarray(o) for o in out]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def observe(r, fn, key, case, draws_expected=True, keep=False):
    """Run fn(key) -> (key, outputs) under the monitor and check its key flow."""
    if not keep:
        MON.reset()
    before = len(MON.events)
    start = k2t(key)
    out_key, out = fn(key)
    end = k2t(out_key)
    n = len(MON.events) - before
    r.expect(not MON.reused, "key-used-twice", case, reused=MON.reused[:3])
    r.expect(end not in MON.used, "returned-key-was-consumed", case, by=MON.used.get(end))
    if n:
        r.expect(end != start, "key-handed-on-unchanged-after-a-draw", case)
    if draws_expected is not None and not MON.blind:
        r.expect((n > 0) == draws_expected, "draws-from-the-key-it-was-given", case, uses=n)
    if n and not MON.blind:
        r.expect(MON.events[before][1] == start, "draws-start-from-the-given-key", case, first=MON.events[before])
    return out_key, values(out)


def check_samplers(r):
    n = 0
    for name, argsets in r.mine(SAMPLERS.items()):
        fn = getattr(randgen, name)
        for args in argsets:
            base = np.broadcast_shapes(*[np.shape(a) for a in args if a is not None])
            shapes = [None, ()] + ([(3,), (2, 3), (1,)] if base == () else [base, (3,) + base])
            for shape in shapes:
                kw = {} if shape is None else {"shape": shape}
                a = [np.asarray(x, dtype=F) if isinstance(x, list) else x for x in args]
                for seed in range(3 if r.thorough else 1):
                    case = (name, args, shape, seed)
                    key = randgen.get_key(seed)

                    def draw(k):
                        k, x = fn(k, *a, **kw)
                        return k, [x]

                    with r.guard("sampler", case):
                        k1, x1 = observe(r, draw, key, case)
                        r.case(case)
                        n += 1
                        MON.reset()
                        k2, x2 = draw(key)
                        r.expect(k2t(k1) == k2t(k2) and same(x1, values(x2)), "equal-keys-equal-results", case, a=x1, b=x2)
                        # a chain of draws: every draw is new
                        if name not in ("bernoulli",) and seed == 0:
                            chain, k, keys = [], key, []
                            MON.reset()
                            for _ in range(4):
                                keys.append(k2t(k))
                                k, x = observe(r, draw, k, case, keep=True)
                                chain.append(x[0])
                            r.expect(len(set(keys + [k2t(k)])) == 5, "chain-of-keys-is-new", case, keys=keys)
                            if chain[0].dtype.kind == "f" and name != "truncate_normal" and (
                                name != "gamma"
                            ):
                                flat = [c.ravel().tolist() for c in chain]
                                allv = [v for c in flat for v in c]
                                r.expect(len(set(allv)) == len(allv), "draws-differ", case, got=flat)
    # jitted samplers (as shipped) do the same as observed without jit
    with jax.disable_jit(False):
        for name, argsets in r.mine(SAMPLERS.items()):
            fn = getattr(randgen, name)
            for args in argsets:
                a = [np.asarray(x, dtype=F) if isinstance(x, list) else x for x in args]
                k, x = fn(randgen.get_key(1), *a)
                k2, x2 = fn(randgen.get_key(1), *a)
                case = ("jit", name, args)
                r.case(case)
                r.expect(k2t(k) == k2t(k2) and same([np.asarray(x)], [np.asarray(x2)]), "equal-keys-equal-results", case)
                k3, x3 = fn(k, *a, shape=(64,) if np.shape(x) == () else (64,) + np.shape(x))
                k4, x4 = fn(k3, *a, shape=(64,) if np.shape(x) == () else (64,) + np.shape(x))
                r.expect(not same([np.asarray(x3)], [np.asarray(x4)]), "draws-differ", case)
                # the elements of one array are separate draws
                r.expect(len(np.unique(np.asarray(x3))) > 1, "elements-differ", case, got=np.asarray(x3))
    if r.turn():
        check_keys(r)
    r.part("samplers", cases=n)


def check_keys(r):
    # one uniform number per key
    keys = np.stack([np.asarray(randgen.get_key(i)) for i in range(6)])
    with jax.disable_jit(False):
        got = np.asarray(randgen.uniform_key_vectorized(keys))
        want = [float(jax.random.uniform(k)) for k in keys]
        again = np.asarray(randgen.uniform_key_vectorized(keys))
    r.case("uniform_key_vectorized")
    r.expect(got.shape == (6,) and np.array_equal(got, again) and len(set(got.tolist())) == 6, "one-draw-per-key", "uniform_key_vectorized", got=got, want=want)
    # seeds give keys
    with jax.disable_jit(False):
        ks = [k2t(randgen.get_key(s)) for s in range(50)]
        r.case("get_key")
        r.expect(len(set(ks)) == 50 and ks == [k2t(randgen.get_key(s)) for s in range(50)], "seeds-give-distinct-reproducible-keys", "get_key")


def uses_randomness(cls):
    return "randgen." in inspect.getsource(cls)


def check_plugins(r):
    n = 0
    pars = physics.parameters()
    settings = [{}, {"efield_position_dependence": 1}] if True else [{}]
    for name, cls in r.mine(physics.classes().items()):
        for extra in settings:
            if extra and "efield" not in str(list(cls.takes_config)):
                continue
            toys.reset()
            if extra:
                share._cached_configs.update({"efield_position_dependence": True})
            try:
                with jax.disable_jit(False):
                    p = cls("llh")
            except Exception as e:
                r.fail("plugin-can-be-built", name, exception=repr(e)[:300])
                continue
            for size in (1, 3):
                inputs = [physics.typical(d, size) for d in p.depends_on]
                for seed in range(3 if r.thorough else 2):
                    case = (name, size, seed)
                    key = randgen.get_key(seed)

                    def sim(k):
                        k, *out = p(k, pars, *inputs)
                        return k, out

                    with r.guard("plugin", case):
                        k1, x1 = observe(r, sim, key, case, draws_expected=None)
                        drew = bool(MON.events)
                        r.case(case)
                        n += 1
                        MON.reset()
                        k2, x2 = sim(key)
                        r.expect(k2t(k1) == k2t(k2) and same(x1, values(x2)), "equal-keys-equal-results", case)
                        if not drew:
                            r.expect(k2t(k1) == k2t(key), "key-untouched-without-draws", case)
                        MON.reset()
                        # a second event set from the returned key uses only new keys
                        k = key
                        for _ in range(3):
                            k, _x = observe(r, sim, k, case, draws_expected=None, keep=True)
    r.part("plugins", cases=n, classes=len(physics.classes()))


NAMES = ["cs1", "cs2", "num_electron_drifted", "z"]


def components():
    out = {}
    for nm in ("ERBand", "ERPeak", "NR", "ERBandNestV2", "ERPeakNestV2", "MonoEnergiesYields", "BandEnergiesYields"):
        cls = getattr(apt.components, nm, None)
        if cls is not None:
            out[nm] = (cls, ["energy", "light_yield"] if "Yields" in nm else ["cs1", "cs2"])
    return out


def compiled(cls, names, llh="c05"):
    with jax.disable_jit(False):
        c = cls(name="comp", llh_name=llh)
        c.rate_name = "er_rate"
        c.deduce(data_names=names, func_name="sim")
        c.compile()
    return c


def check_components(r):
    pars = physics.parameters()
    n = 0
    for nm, (cls, names) in r.mine(components().items()):
        toys.reset()
        with r.guard("component", nm):
            c = compiled(cls, names)
            for size, seed in itertools.product((1, 4), (0, 5)) if r.thorough else ((1, 0), (4, 5)):
                if True:
                    case = (nm, size, seed)
                    key = randgen.get_key(seed)
                    sim = lambda k: c.simulate(k, size, pars)
                    k1, x1 = observe(r, sim, key, case)
                    r.case(case)
                    n += 1
                    MON.reset()
                    k2, x2 = sim(key)
                    r.expect(k2t(k1) == k2t(k2) and same(x1, values(x2)), "equal-keys-equal-results", case)
                    # successive simulations and every way of repeating them
                    for times in (1, 2, 3):
                        for how in ("multiple_simulations", "multiple_simulations_compile"):
                            if not r.thorough and ((size, seed) != (1, 0) or times != (2 if how.endswith("compile") else 3)):
                                continue
                            kk, xx = observe(r, lambda k: getattr(c, how)(k, size, pars, times), key, case + (how, times))
                            if times == 1:
                                r.expect(same([np.ravel(v) for v in xx], [np.ravel(v) for v in x1]), "one-repetition-is-one-simulation", case)
                            n += 1
                    if "Yields" not in nm:
                        # drawing again gives other events
                        MON.reset()
                        _, x3 = sim(k1)
                        r.expect(size == 1 or not same(values(x3)[:2], x1[:2]), "returned-key-gives-new-events", case)
                        for which in ("simulate_hist", "simulate_weighted_data"):
                            c.set_binning(bins=[np.array([0.0, 50.0, 1e3]), np.array([[0.0, 1e3, 1e5]] * 2)], bins_type="irreg")
                            observe(r, lambda k: (lambda a, b: (a, [b] if which == "simulate_hist" else b))(*getattr(c, which)(k, size, pars)), key, case + (which,))
        r.traces += 1
    r.part("components", cases=n)


def toy_components():
    def src(self, key, parameters, batch_size):
        key, a = randgen.normal(key, parameters["mu"], 1.0, shape=(batch_size,))
        return key, a

    def eff(self, key, parameters, a):
        key, e = randgen.uniform(key, 0.1, 1.0, shape=np.shape(a))
        return key, e

    toys.plugin("C05A", ["batch_size"], ["a"], src, ("mu",))
    toys.plugin("C05E", ["a"], ["eff"], eff)
    toys.component_cls("C05C", [apt.plugins.C05A, apt.plugins.C05E], norm_type="on_sim", eps=True)
    toys.fixed_cls("C05F")


def check_likelihoods(r):
    """Every nesting of components in likelihoods and likelihoods in a posterior."""
    toy_components()
    path = os.path.join(r.scratch, "c05.csv")
    toys.write_csv(path, {"a": [0.5, 1.5, 0.7]})
    kinds = [("s",), ("s", "s"), ("f", "s"), ("s", "f", "s"), ("s", "s", "s")]
    par = {"mu": 1.0}
    n = 0

    def spec(kind, tag):
        comps = {}
        for i, k in enumerate(kind):
            comps[f"{tag}{i}"] = "C05C" if k == "s" else {"component_cls": "C05F", "file_name": path}
        return {
            "data_file_name": path, "bins_type": "irreg", "bins_on": "a", "bins": [[-9.0, 1.0, 9.0]], "clip": [-9.0, 9.0],
            "components": comps, "copy_parameters": {},
        }

    combos = [(k,) for k in kinds] + [(a, b) for a in kinds for b in kinds] + ([(a, b, c) for a in kinds[:3] for b in kinds[:3] for c in kinds[:3]] if r.thorough else [])
    for combo in r.mine(combos):
        toys.reset()
        instruct = {"configs": {}, "likelihoods": {f"l{i}": spec(k, f"c{i}") for i, k in enumerate(combo)}}
        rates = {f"c{i}{j}_rate": 10.0 for i, k in enumerate(combo) for j in range(len(k))}
        full = {**par, **rates}
        with r.guard("context", combo), jax.disable_jit(False):
            ctx = apt.Context(instruct, par_config={k: toys.par("fixed", val=v) for k, v in full.items()})
        for i, L in enumerate(ctx.likelihoods.values()):
            if len(combo) > 1:
                break
            nsim = sum(k == "s" for k in combo[i])
            for which in ("_simulate_model_hist", "get_log_likelihood", "simulate_weighted_data"):
                case = ("likelihood", combo[i], which)
                key = randgen.get_key(3)
                wrap = lambda k: (lambda a, b: (a, b if which == "simulate_weighted_data" else [b]))(*getattr(L, which)(k, 3, full))
                with r.guard("likelihood", case):
                    k1, x1 = observe(r, wrap, key, case)
                    draws = [e for e in MON.events if e[0] != "split"]
                    r.expect(len(draws) == 2 * nsim or MON.blind, "every-component-draws-anew", case, got=len(draws), want=2 * nsim)
                    MON.reset()
                    k2, x2 = wrap(key)
                    r.case(case)
                    n += 1
                    r.expect(k2t(k1) == k2t(k2) and same(x1, values(x2)), "equal-keys-equal-results", case)
        nsim = sum(k == "s" for c in combo for k in c)
        for repeat in (1, 2, 3):
            case = ("posterior", combo, repeat)
            MON.reset()
            with r.guard("posterior", case):
                ctx.log_posterior(dict(full), batch_size=3, repeat_times=repeat)
                r.case(case)
                n += 1
                r.expect(not MON.reused, "key-used-twice", case, reused=MON.reused[:2])
                draws = [e for e in MON.events if e[0] != "split"]
                r.expect(len(draws) == 2 * nsim * repeat or MON.blind, "every-component-draws-anew", case, got=len(draws), want=2 * nsim * repeat)
        r.traces += 1
    r.part("likelihoods", cases=n)


def check_literature(r):
    """The literature likelihood threads the key as well."""
    toys.reset()
    with r.guard("literature", None):
        with jax.disable_jit(False):
            ctx = apt.Context("literature_lyqy.json")
        ctx.par_manager.sample_init()
        pars = ctx.par_manager.get_all_parameter()
        for name, L in ctx.likelihoods.items():
            case = ("literature", name)
            key = randgen.get_key(2)
            k1, x1 = observe(r, lambda k: (lambda a, b: (a, [b]))(*L.get_log_likelihood(k, 1, pars)), key, case)
            MON.reset()
            k2, x2 = L.get_log_likelihood(key, 1, pars)
            r.case(case)
            r.expect(k2t(k1) == k2t(k2) and float(x1[0]) == float(x2), "equal-keys-equal-results", case)


def run(r):
    r.rule = "one case per sampler call form, plugin, component or nesting; every use of every key is recorded by value"
    r.assumptions = ["a draw inside jax itself counts as one use of the key it is given"]
    with keyflow.monitored():
        check_samplers(r)
        check_plugins(r)
        check_components(r)
        check_likelihoods(r)
        if r.turn():
            check_literature(r)
    r.states += r.evaluations
    r.transitions += r.evaluations
