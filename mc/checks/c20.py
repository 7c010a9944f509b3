"""C20: repeated simulation is the concatenation of single ones, efficiency applied."""

import itertools

import jax
import numpy as np

import appletree as apt
import appletree.share as share
from mc import toys

F = np.float32
EFFS = [0.0, 0.5, 1.0]
LOG = []  # (key in, batch size, option seen) of every single simulation


def key_of(i):
    return np.array([7, i], dtype=np.uint32)


def make_plugins():
    """One source of events: the n-th link of the key chain selects the row of a table."""

    def src(self, key, parameters, batch_size):
        LOG.append((int(key[0]), int(key[1]), batch_size, self.c20_opt.value))
        row = parameters["table"][int(key[1])]
        out = [np.asarray(row[0], dtype=F) + F(self.c20_opt.value), np.asarray(row[1], dtype=F)]
        return (key_of(int(key[1]) + 1), *out)

    def eff(self, key, parameters, batch_size, a):
        row = parameters["table"][int(key[1]) - 1]
        return key, np.asarray(row[2], dtype=F)

    opt = apt.Constant(name="c20_opt", type=float, default=0.0)
    toys.plugin("C20Src", ["batch_size"], ["a", "b"], src, (), [opt])
    toys.plugin("C20Eff", ["batch_size", "a"], ["eff"], eff, ())
    toys.component_cls("C20", [apt.plugins.C20Src, apt.plugins.C20Eff])


def component(names, no_eff, llh="c20"):
    c = apt.components.C20(name="sim", llh_name=llh)
    c.rate_name = "rate"
    c.deduce(data_names=list(names), func_name="f", force_no_eff=no_eff)
    c.compile()
    return c


def tables(times, size, effs):
    """Tables with all observables distinct and every efficiency pattern."""
    for flat in itertools.product(effs, repeat=times * size):
        t = []
        for i in range(times):
            a = [10.0 * i + j + 1 for j in range(size)]
            b = [-(100.0 * i + j + 1) for j in range(size)]
            t.append((a, b, list(flat[i * size : (i + 1) * size])))
        yield t


def want(table, start, times, names, no_eff, apply_eff, opt=0.0):
    cols = {"a": [], "b": [], "eff": []}
    for i in range(start, start + times):
        a, b, e = table[i]
        for j in range(len(a)):
            if apply_eff and e[j] <= 0:
                continue
            cols["a"].append(a[j] + opt)
            cols["b"].append(b[j])
            cols["eff"].append(e[j])
    final = [n for n in names if n != "eff"] + ([] if no_eff else ["eff"])
    return [cols[n] for n in final]


def compare(r, got, exp, case, sig):
    ok = len(got) == len(exp) and all(
        np.asarray(g).shape == (len(e),) and np.array_equal(np.asarray(g, dtype=F), np.asarray(e, dtype=F))
        for g, e in zip(got, exp)
    )
    r.expect(ok, sig, case, got=[np.asarray(g) for g in got], want=exp)


def call(c, compiled):
    return c.multiple_simulations_compile if compiled else c.multiple_simulations


def check_patterns(r):
    n = 0
    top = 3 if r.thorough else 2
    for names in (["a", "b"], ["b"], ["b", "eff", "a"]):
        toys.reset()
        c = component(names, False)
        shapes = [(t, s) for t in (1, 2, 3) for s in (0, 1, 2, 3) if t * s <= (6 if names == ["a", "b"] and r.thorough else 4)]
        for times, size in shapes:
            effs = [0.0, 1e-9, 0.5, 1.0] if times * size <= 3 else EFFS if times * size <= 4 or r.thorough else [0.0, 1.0]
            for t in tables(times, size, effs):
                for compiled in (False, True):
                    if compiled and times * size > 3 and not r.thorough:
                        continue
                    for apply_eff in (False, True):
                        case = (names, times, size, [x[2] for x in t], compiled, apply_eff)
                        LOG.clear()
                        with r.guard("repeat", case):
                            key, out = call(c, compiled)(key_of(0), size, {"table": t}, times, apply_eff=apply_eff)
                            r.case(case)
                            n += 1
                            compare(r, out, want(t, 0, times, names, False, apply_eff), case, "concatenation-of-single-simulations")
                            r.expect(np.array_equal(key, key_of(times)), "final-key-is-the-last", case, got=key)
                            r.expect([x[:3] for x in LOG] == [(7, i, size) for i in range(times)], "keys-and-batch-handed-on", case, got=LOG)
    r.part("efficiency-patterns", cases=n)


def check_larger(r):
    """More repetitions and more events than the complete patterns can have."""
    n = 0
    for names, no_eff in ((["a", "b"], False), (["b"], True)):
        toys.reset()
        c = component(names, no_eff)
        for times, size in ((1, 40), (2, 257), (5, 7), (9, 3), (12, 30), (33, 2)):
            t = []
            for i in range(times):
                a = [1000.0 * i + j + 1 for j in range(size)]
                t.append((a, [-x for x in a], [[0.0, 0.5, 1.0, 1e-6][(i + j * j) % 4] for j in range(size)]))
            for compiled in (False, True):
                for apply_eff in (False, True):
                    if no_eff and apply_eff:
                        continue
                    case = ("larger", names, times, size, compiled, apply_eff)
                    LOG.clear()
                    with r.guard("repeat", case):
                        key, out = call(c, compiled)(key_of(0), size, {"table": t}, times, apply_eff=apply_eff)
                        r.case(case)
                        n += 1
                        compare(r, out, want(t, 0, times, names, no_eff, apply_eff), case, "concatenation-of-single-simulations")
                        r.expect(np.array_equal(key, key_of(times)), "final-key-is-the-last", case, got=key)
    r.part("larger", cases=n)


def check_histories(r):
    """Runs, option changes and deductions in every order on one component."""
    t = [([i + 1.0, i + 1.5], [-i - 1.0, -i - 1.5], [float(i % 2), 0.5 * (i % 3)]) for i in range(40)]
    ops = ["run", "run-eff", "compiled", "compiled-eff", "set1", "set2", "no-eff", "with-eff", "other"]
    n = 0
    for depth in range(1, (5 if r.thorough else 4)):
        for h in itertools.product(ops, repeat=depth):
            if not any(o.startswith(("run", "compiled")) for o in h):
                continue
            toys.reset()
            c = component(["a", "b"], False)
            no_eff, setting, built, pos = False, 0.0, 0.0, 0
            stale = False  # deduced again but not compiled again
            case = ("history", h)
            with r.guard("history", case):
                for o in h:
                    if o in ("set1", "set2"):
                        setting = float(o[-1])
                        c.set_config({"c20_opt": setting})
                    elif o in ("no-eff", "with-eff"):
                        no_eff = o == "no-eff"
                        share._cached_functions.clear()
                        c.deduce(data_names=["a", "b"], func_name="f", force_no_eff=no_eff)
                        stale = True
                    elif o == "other":
                        # another component of another likelihood, left with its own options
                        d = component(["a"], True, llh="other") if "other" not in share._cached_functions else None
                        del d
                    else:
                        compiled, apply_eff = o.startswith("compiled"), o.endswith("eff")
                        if stale and not compiled:
                            c.compile()
                            built, stale = setting, False
                        if compiled:
                            built, stale = setting, False
                        if apply_eff and no_eff:
                            r.raises(Exception, "applying-ignored-efficiency-raises",
                                     lambda: call(c, compiled)(key_of(pos), 2, {"table": t}, 2, apply_eff=True), case)
                            continue
                        key, out = call(c, compiled)(key_of(pos), 2, {"table": t}, 2, apply_eff=apply_eff)
                        compare(r, out, want(t, pos, 2, ["a", "b"], no_eff, apply_eff, built), case, "events-with-options-in-force")
                        r.expect(np.array_equal(key, key_of(pos + 2)), "final-key-is-the-last", case, got=key)
                        pos = int(key[1])
            r.case(case)
            r.traces += 1
            n += 1
    r.states += 4 * 3 * 2
    r.part("histories", sequences=n, alphabet=len(ops))


def check_refusals(r):
    for compiled in (False, True):
        toys.reset()
        c = component(["a", "b"], False)
        t = [([1.0], [2.0], [1.0])] * 4
        for times in (0, -1):
            for apply_eff in (False, True):
                case = ("no-repetition", compiled, times, apply_eff)
                r.case(case)
                r.raises(Exception, "no-repetition-raises", lambda: call(c, compiled)(key_of(0), 1, {"table": t}, times, apply_eff), case)
        toys.reset()
        c = component(["a", "b"], True)
        for times in (1, 2):
            case = ("ignored-efficiency", compiled, times)
            r.case(case)
            r.raises(Exception, "applying-ignored-efficiency-raises", lambda: call(c, compiled)(key_of(0), 1, {"table": t}, times, True), case)
            _, out = call(c, compiled)(key_of(0), 1, {"table": t}, times)
            compare(r, out, want(t, 0, times, ["a", "b"], True, False), case, "concatenation-without-efficiency")


def check_bootstrap(r):
    """A component fed from a file of events gets a fresh selection for every compiled repetition."""
    seen = []

    def energy(self, key, parameters, batch_size):
        seen.append(list(self.g4.value))
        return key_of(int(key[1]) + 3), np.full(batch_size, F(self.g4.value[2]))

    def eff(self, key, parameters, energy):
        return key, np.ones(len(energy), dtype=F)

    n = 0
    for boot in (True, False):
        pname = "C20BootstrapE" if boot else "C20PlainE"
        toys.plugin(pname, ["batch_size"], ["energy"], energy, (), [apt.Constant(name="g4", type=list, default=["d", 1, 1])])
        toys.plugin("C20Eff2", ["energy"], ["eff"], eff)
        toys.component_cls("C20B", [getattr(apt.plugins, pname), apt.plugins.C20Eff2])
        for form in ("list", "dict", "unset"):
            for times in (1, 2, 3):
                for size in (1, 2):
                    for start in (0, 5):
                        if form == "unset" and boot:
                            continue  # nothing declares the file
                        toys.reset()
                        if form == "list":
                            share.set_global_config({"g4": ["file", 9, 8]})
                        if form == "dict":
                            share.set_global_config({"g4": {"L": ["file", 9, 8], "M": ["other", 6, 5]}})
                        case = ("bootstrap", boot, form, times, size, start)
                        with r.guard("bootstrap", case):
                            c = apt.components.C20B(name="sim", llh_name="L")
                            c.deduce(data_names=["energy"], func_name="f")
                            c.compile()
                            seen.clear()
                            key, (e, w) = c.multiple_simulations_compile(key_of(start), size, {}, times)
                            r.case(case)
                            n += 1
                            r.expect(np.array_equal(key, key_of(start + 3 * times)), "final-key-is-the-last", case, got=key)
                            seeds = [7 + start + 3 * i for i in range(times)]
                            plain = ["d", 1, 1] if form == "unset" else ["file", 9, 8]
                            exp = [["file", size, s] for s in seeds] if boot else [plain] * times
                            r.expect(seen == exp, "options-in-force-per-repetition", case, got=seen, want=exp)
                            r.expect(np.array_equal(e, np.repeat([F(x[2]) for x in exp], size)), "concatenation-of-single-simulations", case, got=e)
                            if form == "dict":
                                r.expect(dict.__getitem__(share._cached_configs, "g4")["M"] == ["other", 6, 5], "other-likelihood-untouched", case)
    r.part("bootstrap", cases=n)


def check_real(r):
    """A component with random numbers: repetition equals threading the key by hand."""
    toys.reset()

    def src(self, key, parameters, batch_size):
        key, a = apt.randgen.normal(key, parameters["mu"], 1.0, shape=(batch_size,))
        key, e = apt.randgen.bernoulli(key, 0.5, shape=(batch_size,))
        return key, a, e.astype(F)

    toys.plugin("C20Real", ["batch_size"], ["a", "eff"], src, ("mu",))
    toys.component_cls("C20R", [apt.plugins.C20Real])
    c = apt.components.C20R(name="sim", llh_name="R")
    c.deduce(data_names=["a"], func_name="f")
    c.compile()
    n = 0
    for seed in range(3):
        for size in (1, 4, 17):
            for times in (1, 2, 4):
                for apply_eff in (False, True):
                    for compiled in (False, True):
                        if compiled and (seed or size == 17):
                            continue
                        case = ("real", seed, size, times, apply_eff, compiled)
                        key = k0 = apt.randgen.get_key(seed)
                        rows = []
                        for _ in range(times):
                            key, (a, e) = c.simulate(key, size, {"mu": 2.0})
                            a, e = np.asarray(a), np.asarray(e)
                            m = e > 0 if apply_eff else np.ones(size, bool)
                            rows.append((a[m], e[m]))
                        exp = [np.concatenate([x[i] for x in rows]) for i in (0, 1)]
                        with r.guard("real", case):
                            kk, out = call(c, compiled)(k0, size, {"mu": 2.0}, times, apply_eff)
                            r.case(case)
                            n += 1
                            compare(r, out, exp, case, "real-component-concatenation")
                            r.expect(np.array_equal(kk, key), "final-key-is-the-last", case)
    r.traces += n
    r.part("real", cases=n)


def run(r):
    r.rule = "one case per repeated simulation, compared event by event with the single simulations"
    r.assumptions = ["events come from tables indexed by the key chain, executed without jit; jitted in the last part"]
    make_plugins()
    with jax.disable_jit():
        check_patterns(r)
        check_larger(r)
        check_histories(r)
        check_refusals(r)
        check_bootstrap(r)
    check_real(r)
    r.transitions += r.evaluations
