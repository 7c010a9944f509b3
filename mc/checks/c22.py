"""C22: random samplers return the declared distribution, shape and type."""

import contextlib
import importlib.util
import itertools
import math
import os

import jax
import jax.random
import numpy as np
from scipy import stats

import appletree as apt
from appletree import randgen
from mc import toys

F = np.float32


# --------------------------------------------------------------------------- source of randomness
class Grid:
    """Every draw of a run is an independent axis of a product grid of quantile cells."""

    def __init__(self, n, axes, lanes=1):
        self.n, self.axes, self.lanes = n, axes, lanes
        self.M = n**axes
        self.draws = 0
        self.kinds = []
        self.failed = None

    def quantiles(self, shape):
        """Mid points of the cells for the next draw(s)."""
        shape = tuple(shape)
        size = int(np.prod(shape)) if shape else 1
        if size % self.M:
            self.failed = f"draw of shape {shape} does not fit a grid of {self.M}"
            return np.full(shape, 0.5)
        per = size // self.M  # independent draws per element, along the last axis
        idx = np.arange(self.M)
        cols = []
        for j in range(per):
            if self.draws >= self.axes:
                self.failed = f"more than {self.axes} draws per element"
                return np.full(shape, 0.5)
            cols.append((idx // self.n**self.draws % self.n + 0.5) / self.n)
            self.draws += 1
        q = np.stack(cols, axis=-1) if per > 1 else cols[0]
        return q.reshape(shape)


class Script:
    """A stateless search over the outcomes of discrete draws: run, backtrack, run again."""

    def __init__(self, cut, cells):
        self.cut, self.cells = cut, cells
        self.prefix, self.path = [], []
        self.failed = None

    def choose(self, outcomes):
        """outcomes: list of (value, probability)."""
        i = len(self.path)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.path.append((c, len(outcomes)))
        v, p = outcomes[c]
        self.prob *= p
        return v

    def runs(self, fn):
        """Yield (result, probability) of every execution with probability above the cut."""
        while True:
            self.path, self.prob = [], 1.0
            res = fn()
            yield res, self.prob
            path = list(self.path)
            while path and path[-1][0] + 1 >= path[-1][1]:
                path.pop()
            if not path:
                return
            self.prefix = [c for c, _ in path[:-1]] + [path[-1][0] + 1]


SRC = {"grid": None, "script": None}


def ppf(kind, q, *a):
    if kind == "normal":
        return stats.norm.ppf(q)
    if kind == "uniform":
        return a[0] + q * (a[1] - a[0])
    if kind == "poisson":
        return stats.poisson.ppf(q, np.maximum(a[0], 1e-300))
    if kind == "gamma":
        return stats.gamma.ppf(q, a[0])
    if kind == "bernoulli":
        return q < a[0]
    if kind == "binomial":
        return stats.binom.ppf(q, a[0], a[1])
    if kind == "exponential":
        return -np.log1p(-q)
    raise KeyError(kind)


def draw(kind, shape, *a):
    a = [np.asarray(x, dtype=float) for x in a]
    shape = tuple(shape) if shape is not None else np.broadcast_shapes(*[x.shape for x in a]) if a else ()
    a = [np.broadcast_to(x, shape) for x in a]
    if SRC["grid"] is not None:
        SRC["grid"].kinds.append(kind)
        return ppf(kind, SRC["grid"].quantiles(shape), *a)
    s = SRC["script"]
    if int(np.prod(shape)) != 1:
        s.failed = f"draw of shape {shape}"
        return np.zeros(shape)
    a = [float(x.reshape(-1)[0]) for x in a]
    if kind == "poisson":
        lam = a[0]
        ks = np.arange(int(lam + 12 * math.sqrt(lam) + 12))
        ps = stats.poisson.pmf(ks, lam)
    elif kind == "binomial":
        ks = np.arange(int(a[0]) + 1)
        ps = stats.binom.pmf(ks, a[0], a[1])
    elif kind == "bernoulli":
        ks, ps = np.array([0, 1]), np.array([1 - a[0], a[0]])
    else:
        n = s.cells
        ks = ppf(kind, (np.arange(n) + 0.5) / n, *a)
        ps = np.full(n, 1.0 / n)
    keep = ps * s.prob > s.cut
    if not keep.any():
        keep[np.argmax(ps)] = True
    return np.full(shape, s.choose(list(zip(ks[keep], ps[keep]))))


@contextlib.contextmanager
def scripted_jax():
    """jax.random draws from the scripted source instead of the key."""
    jnp = jax.numpy

    def uniform(key, shape=(), dtype=F, minval=0.0, maxval=1.0, **kw):
        return jnp.asarray(draw("uniform", shape, minval, maxval), dtype=F)

    def normal(key, shape=(), dtype=F, **kw):
        return jnp.asarray(draw("normal", shape), dtype=F)

    def poisson(key, lam, shape=None, dtype=int, **kw):
        return jnp.asarray(draw("poisson", shape, lam), dtype=np.int32)

    def gamma(key, a, shape=None, dtype=F, **kw):
        return jnp.asarray(draw("gamma", shape, a), dtype=F)

    def bernoulli(key, p=0.5, shape=None, **kw):
        return jnp.asarray(draw("bernoulli", shape, p), dtype=bool)

    def binomial(key, n, p, shape=None, dtype=F, **kw):
        return jnp.asarray(draw("binomial", shape, n, p), dtype=F)

    def exponential(key, shape=(), dtype=F, **kw):
        return jnp.asarray(draw("exponential", shape), dtype=F)

    new = dict(uniform=uniform, normal=normal, poisson=poisson, gamma=gamma, bernoulli=bernoulli, binomial=binomial, exponential=exponential)
    old = {k: getattr(jax.random, k) for k in new}
    npold = {k: getattr(np.random, k) for k in ("uniform", "normal", "random", "rand", "randn", "standard_normal", "random_sample")}

    def sz(size):
        return () if size is None else ((size,) if np.isscalar(size) else tuple(size))

    def scalar(x):
        return float(x) if np.shape(x) == () else x

    npnew = dict(
        uniform=lambda low=0.0, high=1.0, size=None: scalar(draw("uniform", sz(size), low, high)),
        normal=lambda loc=0.0, scale=1.0, size=None: scalar(draw("normal", sz(size)) * scale + loc),
        random=lambda size=None: scalar(draw("uniform", sz(size), 0.0, 1.0)),
        random_sample=lambda size=None: scalar(draw("uniform", sz(size), 0.0, 1.0)),
        rand=lambda *s: scalar(draw("uniform", s, 0.0, 1.0)),
        randn=lambda *s: scalar(draw("normal", s)),
        standard_normal=lambda size=None: scalar(draw("normal", sz(size))),
    )
    try:
        for k, v in new.items():
            setattr(jax.random, k, v)
        for k, v in npnew.items():
            setattr(np.random, k, v)
        with jax.disable_jit():
            yield
    finally:
        for k, v in old.items():
            setattr(jax.random, k, v)
        for k, v in npold.items():
            setattr(np.random, k, v)


def image(fn, n, axes, r, case):
    """The image of the product grid under a sampler called as fn(shape)."""
    SRC["grid"] = g = Grid(n, axes)
    try:
        out = np.asarray(fn((g.M,)), dtype=float)
    finally:
        SRC["grid"] = None
    if g.failed or g.draws == 0:
        r.part("not-judged:" + str(case)[:60], why=g.failed or "no known draw")
        return None
    # unused axes only repeat every value
    return out


def cdf_distance(x, cdf, atol):
    """Largest difference between the image measure and a distribution function, between cells."""
    xs = np.unique(x)
    emp = np.searchsorted(np.sort(x), xs, side="right") / len(x)
    return float(np.max(np.abs(emp - cdf(xs))))


# --------------------------------------------------------------------------- checks
def load_hybrid():
    """The module as it is with the hybrid binomial switched on."""
    old = os.environ.get("APPLETREE_USE_HYBRID")
    os.environ["APPLETREE_USE_HYBRID"] = "1"
    try:
        spec = importlib.util.spec_from_file_location("mc_randgen_hybrid", randgen.__file__)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m
    finally:
        if old is None:
            del os.environ["APPLETREE_USE_HYBRID"]
        else:
            os.environ["APPLETREE_USE_HYBRID"] = old


KIND = {
    "uniform": "f", "poisson": "i", "gamma": "f", "normal": "f", "truncate_normal": "f", "skewnormal": "f", "bernoulli": "i",
    "binomial": "i", "binomial_hybrid": "i", "negative_binomial": "i", "generalized_poisson": "i", "twohalfnorm": "f",
}
# parameters of every sampler: alphabets, and the support given the parameters
ALPH = {
    "uniform": ([-1.0, 0.0], [0.5, 3.0]),
    "poisson": ([0.0, 0.3, 4.0, 300.0],),
    "gamma": ([0.5, 3.0], [0.5, 2.0]),
    "normal": ([-1.0, 4.0], [0.0, 2.0]),
    "truncate_normal": ([-1.0, 4.0], [0.0, 2.0], [-0.5], [2.5]),
    "skewnormal": ([-2.0, 3.0], [-1.0, 4.0], [0.0, 2.0]),
    "bernoulli": ([0.0, 0.3, 1.0],),
    "binomial": ([0.0, 0.3, 1.0], [0, 1, 20, 500]),
    "binomial_hybrid": ([0.0, 0.3, 0.8, 1.0], [0, 1, 20, 128, 129, 500]),
    "negative_binomial": ([0.3, 0.8], [1.0, 20.0]),
    "generalized_poisson": ([0.0, 0.3, 4.0], [0.0, 0.4]),
    "twohalfnorm": ([-1.0, 4.0], [0.5, 2.0], [1.0, 3.0]),
}
SUPPORT = {
    "uniform": lambda x, a, b: (x >= a) & (x <= b),
    "poisson": lambda x, l: (x >= 0) & ((l > 0) | (x == 0)),
    "gamma": lambda x, a, b: x >= 0,
    "normal": lambda x, m, s: np.isfinite(x) & ((s > 0) | (np.abs(x - m) < 1e-6)),
    "truncate_normal": lambda x, m, s, a, b: (x >= a) & (x <= b) & ((s > 0) | (np.abs(x - np.clip(m, a, b)) < 1e-6)),
    "skewnormal": lambda x, a, m, s: np.isfinite(x) & ((s > 0) | (np.abs(x - m) < 1e-6)),
    "bernoulli": lambda x, p: ((x == 0) | (x == 1)) & ((p > 0) | (x == 0)) & ((p < 1) | (x == 1)),
    "binomial": lambda x, p, n: (x >= 0) & (x <= n) & ((p > 0) | (x == 0)) & ((p < 1) | (x == n)),
    "negative_binomial": lambda x, p, n: x >= 0,
    "generalized_poisson": lambda x, l, e: (x >= 0) & ((l > 0) | (x == 0)),
    "twohalfnorm": lambda x, m, p, n: np.isfinite(x),
}
SUPPORT["binomial_hybrid"] = SUPPORT["binomial"]
QUICK_MIXES = {
    tuple({"s": "scalar", "v": "vector", "c": "column"}[ch] for ch in m)
    for m in ("s", "v", "c", "ss", "vv", "sv", "vs", "vc", "sss", "vvv", "vss", "svs", "ssv", "vcs")
}


def call(mod, name, key, args, shape):
    fn = getattr(mod, name)
    return fn(key, *args) if shape is None else fn(key, *args, shape=shape)


def check_forms(r, mod, names, tag):
    """Shape and type for every form of the arguments; support and degenerate cases."""
    n = 0
    for name in names:
        alph = ALPH[name]
        key = randgen.get_key(3)
        kinds = (np.integer,) if KIND[name] == "i" else (np.floating,)
        width = 4 if KIND[name] in "if" else None
        first = [a[-1] for a in alph]
        k = len(alph)
        # forms: scalars, vectors, a row against a column, mixtures
        forms = []
        for mix in itertools.product(["scalar", "vector", "column"], repeat=k):
            if k > 3 and mix[2:] != ("scalar", "scalar"):
                continue
            if not r.thorough and mix[:3] not in QUICK_MIXES:
                continue
            args, shp = [], []
            for m, a in zip(mix, alph):
                v = a[-1]
                if m == "scalar":
                    args.append(v)
                elif m == "vector":
                    args.append(np.asarray([a[i % len(a)] for i in range(3)]))
                else:
                    args.append(np.asarray([[a[i % len(a)]] for i in range(2)]))
                shp.append(np.shape(args[-1]))
            forms.append((mix, args, np.broadcast_shapes(*shp)))
        for mix, args, base in r.mine(forms):
            shapes = [None, base] + [s for s in [(3,), (2, 3), (4, 2, 3)] if s != base and fits(base, s)][: None if r.thorough else 1]
            for shape in shapes:
                case = (tag, name, mix, shape)
                with r.guard("form", case):
                    kk, x = call(mod, name, key, args, shape)
                    x = np.asarray(x)
                    want = base if not shape else shape
                    n += 1
                    r.case(case)
                    r.expect(x.shape == want, "shape", case, got=x.shape, want=want)
                    r.expect(issubclass(x.dtype.type, kinds) and x.dtype.itemsize == width, "type", case, got=str(x.dtype))
                    r.expect(np.asarray(kk).shape == (2,), "returns-a-key", case)
                    if x.shape == want:
                        full = [np.broadcast_to(np.asarray(a, dtype=F), want) for a in args]
                        r.expect(bool(np.all(SUPPORT[name](x, *full))), "support", case, got=x, args=args)
        # every combination of parameters, many draws each
        for combo in r.mine(itertools.product(*alph)):
            case = (tag, name, "support", combo)
            with r.guard("support", case):
                _, x = call(mod, name, key, combo, (257,))
                x = np.asarray(x)
                n += 1
                r.case(case)
                full = [np.full(257, a, dtype=F) for a in combo]
                r.expect(bool(np.all(SUPPORT[name](x, *full))), "support", case, got=x[~SUPPORT[name](x, *full)][:5])
    r.part("forms-" + tag, cases=n)


def fits(base, shape):
    try:
        return np.broadcast_shapes(base, shape) == tuple(shape)
    except ValueError:
        return False


def check_families(r):
    """Location-scale families are images of the same standard draw; clipping is clipping."""
    n = 0
    vals = [-3.0, 0.0, 2.5]
    scales = [0.5, 1.0, 4.0]
    for seed in range(3):
        key = randgen.get_key(seed)
        sh = (64,)
        std = {
            "normal": np.asarray(randgen.normal(key, 0.0, 1.0, shape=sh)[1], dtype=float),
            "uniform": np.asarray(randgen.uniform(key, 0.0, 1.0, shape=sh)[1], dtype=float),
        }
        gam = {a: np.asarray(randgen.gamma(key, a, 1.0, shape=sh)[1], dtype=float) for a in (0.5, 3.0)}
        skew = {a: np.asarray(randgen.skewnormal(key, a, 0.0, 1.0, shape=sh)[1], dtype=float) for a in (-2.0, 0.0, 3.0)}
        thn = {p: np.asarray(randgen.twohalfnorm(key, 0.0, p, 1.0, shape=sh)[1], dtype=float) for p in (0.5, 2.0)}
        for m, s in itertools.product(vals, scales):
            got = {
                "normal": (randgen.normal(key, m, s, shape=sh)[1], std["normal"] * s + m),
                "uniform": (randgen.uniform(key, m, m + s, shape=sh)[1], std["uniform"] * s + m),
            }
            for a in gam:
                got[f"gamma{a}"] = (randgen.gamma(key, a, s, shape=sh)[1], gam[a] / s)
            for a in skew:
                got[f"skewnormal{a}"] = (randgen.skewnormal(key, a, m, s, shape=sh)[1], skew[a] * s + m)
            for p in thn:
                got[f"twohalfnorm{p}"] = (randgen.twohalfnorm(key, m, p * s, s, shape=sh)[1], thn[p] * s + m)
            for lo, hi in ((None, m), (m, None), (m - s / 2, m + s)):
                got[f"truncate{lo},{hi}"] = (randgen.truncate_normal(key, m, s, lo, hi, shape=sh)[1], np.clip(std["normal"] * s + m, lo, hi))
            for k, (x, want) in got.items():
                case = ("family", k, m, s, seed)
                r.case(case)
                n += 1
                r.expect(np.allclose(np.asarray(x), want, rtol=1e-4, atol=1e-4), "image-of-the-standard-draw", case, got=np.asarray(x)[:4], want=want[:4])
    # arrays of parameters: every element has its own parameters
    for name, args in {
        "normal": ([0.0, 100.0, -100.0], [1e-3, 2e-3, 0.0]), "uniform": ([0.0, 100.0, -7.0], [1.0, 101.0, -6.0]),
        "poisson": ([0.0, 1e6, 10.0],), "binomial": ([0.0, 1.0, 0.5], [10, 1000, 0]), "bernoulli": ([0.0, 1.0, 0.0],),
        "binomial_hybrid": ([0.0, 1.0, 0.5], [10, 1000, 0]), "twohalfnorm": ([0.0, 100.0, -100.0], [1e-3] * 3, [1e-3] * 3),
        "skewnormal": ([1.0, 2.0, 3.0], [0.0, 100.0, -100.0], [1e-3] * 3), "gamma": ([1e6, 4e6, 9e6], [1e3, 1e6, 1e6]),
        "truncate_normal": ([0.0, 100.0, -100.0], [1e-3] * 3, [-1.0, 50.0, -200.0], [1.0, 200.0, -50.0]),
        "generalized_poisson": ([0.0, 1e6, 0.0], [0.3, 0.0, 0.1]),
        "negative_binomial": ([1 - 1e-6, 0.5, 0.999], [1e-3, 1e6, 1e-3]),
    }.items():
        centre = {
            "poisson": [0, 1e6, 10], "binomial": [0, 1000, 0], "binomial_hybrid": [0, 1000, 0], "bernoulli": [0, 1, 0], "gamma": [1e3, 4, 9],
            "normal": [0, 100, -100], "uniform": [0.5, 100.5, -6.5], "twohalfnorm": [0, 100, -100], "skewnormal": [0, 100, -100],
            "truncate_normal": [0, 100, -100], "generalized_poisson": [0, 1e6, 0], "negative_binomial": [0, 1e6, 0],
        }[name]
        tol = {"poisson": [0, 1e4, 30], "gamma": [20, 0.1, 0.1], "generalized_poisson": [0, 1e4, 0], "negative_binomial": [1, 2e4, 1]}.get(name, [0.6, 0.6, 0.6])
        case = ("aligned", name)
        with r.guard("aligned", case):
            x = np.asarray(getattr(randgen, name)(randgen.get_key(1), *[np.asarray(a, dtype=F) for a in args])[1], dtype=float)
            r.case(case)
            r.expect(x.shape == (3,) and np.all(np.abs(x - centre) <= tol), "own-parameters-per-element", case, got=x, want=centre)
    r.part("families", cases=n)


def check_images(r):
    """The distribution of each sampler, by pushing all quantile cells through it."""
    n = 0
    KEY = randgen.get_key(0)
    N = 400
    G = 60 if r.thorough else 40

    def judge(case, fn, cells, axes, cdf, tol):
        nonlocal n
        n += 1
        r.case(case)
        with r.guard("image", case):
            x = image(fn, cells, axes, r, case)
            if x is None:
                return
            d = cdf_distance(x, cdf, tol)
            r.states += cells**axes
            r.expect(d <= tol, "image-measure-is-the-declared-distribution", case, distance=d, tol=tol)

    for a, b in ((0.0, 1.0), (-2.0, 5.0)):
        judge(("uniform", a, b), lambda s: randgen.uniform(KEY, a, b, shape=s)[1], N, 1, stats.uniform(a, b - a).cdf, 2 / N)
    for m, s0 in ((0.0, 1.0), (-3.0, 0.25), (10.0, 5.0)):
        judge(("normal", m, s0), lambda s: randgen.normal(KEY, m, s0, shape=s)[1], N, 1, stats.norm(m, s0).cdf, 2 / N)
        lo, hi = m - s0, m + 0.5 * s0
        cdf = lambda x: np.where(x >= hi - 1e-5, 1.0, np.where(x < lo, 0.0, stats.norm(m, s0).cdf(x)))
        judge(("truncate_normal", m, s0), lambda s: randgen.truncate_normal(KEY, m, s0, lo, hi, shape=s)[1], N, 1, cdf, 2.5 / N)
        for a in (-3.0, 0.0, 2.25):
            judge(("skewnormal", a, m, s0), lambda s: randgen.skewnormal(KEY, a, m, s0, shape=s)[1], G, 2, stats.skewnorm(a, m, s0).cdf, 3 / G)
        for ratio in (0.2, 1.0, 4.0):
            judge(("twohalfnorm", m, s0, ratio), lambda s: randgen.twohalfnorm(KEY, m, s0 * ratio, s0, shape=s)[1], G, 2, thn_cdf(m, s0 * ratio, s0), 4 / G)
            judge(("rvs", m, s0, ratio), lambda s: randgen.TwoHalfNorm.rvs(m, s0 * ratio, s0, size=s), G, 2, thn_cdf(m, s0 * ratio, s0), 4 / G)
    for lam in (0.3, 4.0, 40.0):
        judge(("poisson", lam), lambda s: randgen.poisson(KEY, lam, shape=s)[1], N, 1, stats.poisson(lam).cdf, 2 / N)
    for a, b in ((0.5, 1.0), (3.0, 2.0), (20.0, 0.1)):
        judge(("gamma", a, b), lambda s: randgen.gamma(KEY, a, b, shape=s)[1], N, 1, stats.gamma(a, scale=1 / b).cdf, 2 / N)
    for p in (0.1, 0.5, 0.85):
        judge(("bernoulli", p), lambda s: randgen.bernoulli(KEY, p, shape=s)[1], N, 1, stats.bernoulli(p).cdf, 2 / N)
        for m in (1, 7, 60):
            judge(("binomial", p, m), lambda s: randgen.binomial(KEY, p, m, shape=s)[1], N, 1, stats.binom(m, p).cdf, 2 / N)
    # negative binomial: a Poisson number with a Gamma expectation
    for p, m in ((0.3, 2.0), (0.7, 5.0), (0.5, 1.0)):
        judge(("negative_binomial", p, m), lambda s: randgen.negative_binomial(KEY, p, m, shape=s)[1], G, 2, stats.nbinom(m, p).cdf, 5 / G)

    # hybrid binomial: all outcomes of the trials, exactly
    for thr in (1, 2, 3, 4):
        cells = 10 if thr < 4 else 5
        for p10 in range(0, cells + 1, 1 if thr < 4 or r.thorough else 2):
            p = p10 / cells
            for m in range(0, thr + 1):
                case = ("binomial_hybrid", "exact", thr, p, m)
                r.case(case)
                n += 1
                with r.guard("image", case):
                    # the first axis belongs to the unused normal path
                    SRC["grid"] = g = TrialGrid(cells, thr)
                    try:
                        x = np.asarray(randgen.binomial_hybrid(KEY, p, m, (g.M,), thr)[1])
                    finally:
                        SRC["grid"] = None
                    if g.failed:
                        r.part("not-judged:hybrid", why=g.failed)
                        continue
                    r.states += g.M
                    got = np.bincount(x, minlength=thr + 1) / g.M
                    want = np.append(stats.binom.pmf(np.arange(m + 1), m, p), np.zeros(thr - m))
                    r.expect(len(got) == thr + 1 and np.allclose(got, want, atol=1e-6), "exact-sum-of-trials-below-threshold", case, got=got, want=want)
    # above the threshold: whole numbers in range, close in distribution when n p q is large
    for thr, m in ((2, 3), (4, 50), (128, 129), (128, 1000)):
        for p in (0.02, 0.3, 0.5, 0.7, 0.98):
            case = ("binomial_hybrid", "large", thr, m, p)
            r.case(case)
            n += 1
            with r.guard("image", case):
                SRC["grid"] = g = TrialGrid(200, 0)
                try:
                    x = np.asarray(randgen.binomial_hybrid(KEY, p, m, (200,), thr)[1])
                finally:
                    SRC["grid"] = None
                r.expect(np.all((x >= 0) & (x <= m)), "in-range-above-threshold", case, got=[int(x.min()), int(x.max())])
                if m * p * (1 - p) > 9 and not g.failed:
                    d = cdf_distance(x, stats.binom(m, p).cdf, 0)
                    r.expect(d < 0.02, "large-counts-follow-the-binomial", case, distance=d)
    r.part("images", cases=n)


def check_switch(r, hybrid):
    KEY = randgen.get_key(0)
    # with the hybrid switched on, binomial is a binomial within range
    for p, m in itertools.product((0.0, 0.3, 0.8, 1.0), (0, 1, 5, 128, 129, 1000)):
        case = ("hybrid-switch", p, m)
        r.case(case)
        a = np.asarray(hybrid.binomial(KEY, p, m, (50,))[1])
        r.expect(np.all((a >= 0) & (a <= m)) and (0 < p < 1 or np.all(a == p * m)), "switched-binomial-in-range", case, got=a[:5])
        if 0 < p < 1 and m:
            r.expect(abs(a.mean() - m * p) < 8 * math.sqrt(m * p * (1 - p) / 50) + 1e-9, "switched-binomial-mean", case, got=float(a.mean()), want=m * p)


class TrialGrid(Grid):
    """The product grid for the hybrid binomial: the trials of an element are the axes, the
    normal draw gets its own quantiles and does not multiply the grid."""

    def __init__(self, n, trials):
        super().__init__(n, max(trials, 1))
        self.trials = trials

    def quantiles(self, shape):
        size = int(np.prod(shape))
        if size == self.M:
            self.draws = self.draws  # the normal path: quantiles over all elements
            return ((np.arange(self.M) + 0.5) / self.M).reshape(shape)
        if self.trials == 0:
            return np.full(shape, 0.5)
        if size != self.M * self.trials:
            self.failed = f"unexpected draw of shape {shape}"
            return np.full(shape, 0.5)
        idx = np.arange(self.M)
        return np.stack([(idx // self.n**j % self.n + 0.5) / self.n for j in range(self.trials)], axis=-1).reshape(shape)


def thn_cdf(mu, sp, sn):
    w = sn / (sp + sn)

    def cdf(x):
        x = np.asarray(x, dtype=float)
        return np.where(x < mu, 2 * w * stats.norm.cdf((x - mu) / sn), w + (1 - w) * (2 * stats.norm.cdf((x - mu) / sp) - 1))

    return cdf


def check_trees(r):
    """Samplers with a data-dependent number of draws: every sequence of outcomes."""
    n = 0
    KEY = randgen.get_key(0)
    cut = 1e-7 if r.thorough else 1e-5
    for lam, eta in ((0.5, 0.0), (0.5, 0.4), (1.5, 0.0), (1.5, 0.3), (0.0, 0.5), (2.5, 0.1)):
        s = Script(cut, 0)
        pm, paths = {}, 0
        SRC["script"] = s
        case = ("generalized_poisson", lam, eta)
        try:
            with r.guard("tree", case):
                for x, p in s.runs(lambda: int(np.asarray(randgen.generalized_poisson(KEY, lam, eta)[1]))):
                    pm[x] = pm.get(x, 0.0) + p
                    paths += 1
        finally:
            SRC["script"] = None
        r.case(case)
        n += paths
        if s.failed:
            r.part("not-judged:gpd", why=s.failed)
            continue
        total = sum(pm.values())
        r.traces += paths
        worst = 0.0
        theta = lam * (1 - eta)
        for x in range(0, 25):
            want = (theta * (theta + x * eta) ** (x - 1) * math.exp(-theta - x * eta) / math.factorial(x)) if theta > 0 else float(x == 0)
            worst = max(worst, abs(pm.get(x, 0.0) - want) - (1 - total))
        r.expect(total > 0.97 and worst < 1e-3, "generalized-poisson-distribution", case, total=total, worst=worst, got=sorted(pm.items())[:6])
    r.part("trees", paths=n)


def check_forms_numpy(r):
    for size, shape in ((None, ()), (1, (1,)), (3, (3,)), ((2, 3), (2, 3))):
        for mu in (0.0, -2.0):
            case = ("rvs-form", size, mu)
            with r.guard("rvs", case):
                np.random.seed(1)
                x = randgen.TwoHalfNorm.rvs(mu, 1.0, 2.0, size=size)
                r.case(case)
                r.expect(np.shape(x) == shape and np.all(np.isfinite(x)), "shape", case, got=np.shape(x))
    for bad in ((0.0, 1.0), (1.0, 0.0), (-1.0, 1.0), (1.0, -1.0)):
        r.case(("rvs-bad", bad))
        r.raises(Exception, "non-positive-width-raises", lambda: randgen.TwoHalfNorm.rvs(0.0, *bad), bad)


def check_halves(r):
    """Scalars are drawn on both sides, with all outcomes of both draws."""
    for sp, sn in ((1.0, 1.0), (3.0, 1.0), (0.25, 1.0)):
        s = Script(0.0, 40)
        SRC["script"] = s
        tot = {-1: 0.0, 1: 0.0}
        try:
            for x, p in s.runs(lambda: float(randgen.TwoHalfNorm.rvs(1.5, sp, sn))):
                tot[1 if x > 1.5 else -1] += p
        finally:
            SRC["script"] = None
        case = ("rvs-scalar", sp, sn)
        r.case(case)
        if s.failed:
            continue
        r.traces += 1600
        r.expect(abs(tot[1] - sp / (sp + sn)) < 0.03, "halves-in-proportion-to-their-widths", case, got=tot[1], want=sp / (sp + sn))


def check_densities(r):
    """The density of the two-half-normal and of a band, evaluated at the interpolated widths."""
    n = 0
    for mu, sp, sn in itertools.product((-1.0, 0.0, 3.0), (0.5, 1.0, 2.0), (0.5, 1.0, 2.0)):
        x = np.array([mu - 3, mu - 0.5, mu, mu + 0.25, mu + 4])
        want = np.where(x < mu, stats.norm.logpdf(x, mu, sn), stats.norm.logpdf(x, mu, sp))
        # both halves are continuous at mu: norm 2/(sp+sn)/sqrt(2 pi)
        want = np.log(2 / (sp + sn) / np.sqrt(2 * np.pi)) - np.where(x < mu, (x - mu) ** 2 / sn**2, (x - mu) ** 2 / sp**2) / 2
        got = randgen.TwoHalfNorm.logpdf(x, mu, sp, sn)
        case = ("logpdf", mu, sp, sn)
        r.case(case)
        n += 1
        r.expect(np.allclose(got, want), "density-of-the-two-half-normal", case, got=got, want=want)
        # integrates to one
        t = np.linspace(mu - 12 * sn, mu + 12 * sp, 20001)
        integral = np.trapezoid(np.exp(randgen.TwoHalfNorm.logpdf(t, mu, sp, sn)), t)
        r.expect(abs(integral - 1) < 1e-3, "density-is-normalised", case, got=integral)
    xs = [1.0, 2.0, 4.0]
    for ys, up, lo in itertools.product(([3.0, 5.0, 4.0], [0.0, 0.0, 1.0]), ([1.0, 2.0, 0.5], [1.0, 1.0, 1.0]), ([0.5, 0.25, 3.0],)):
        band = randgen.BandTwoHalfNorm(x=np.array(xs), y=np.array(ys), yerr_upper=np.array(up), yerr_lower=np.array(lo))
        for q in (1.0, 1.5, 2.0, 3.0, 3.999, 4.0, 0.999, 4.001, -5.0, 100.0):
            for y in (-1.0, 2.0, 4.0, 6.0):
                case = ("band", ys, up, lo, q, y)
                r.case(case)
                n += 1
                got = float(band.logpdf(np.array([q]), np.array([y]))[0])
                if 1.0 <= q <= 4.0:
                    m, u, l = (np.interp(q, xs, v) for v in (ys, up, lo))
                    want = math.log(2 / (u + l) / math.sqrt(2 * math.pi)) - (y - m) ** 2 / (l if y < m else u) ** 2 / 2
                    r.expect(abs(got - want) < 1e-6 * max(1, abs(want)), "band-at-interpolated-widths", case, got=got, want=want)
                else:
                    r.expect(got == -math.inf, "outside-the-band", case, got=got)
    r.part("densities", cases=n)


def run(r):
    r.rule = "one case per sampler x parameters x shape form, and per distribution whose quantile cells are all pushed through"
    r.assumptions = ["jax.random and numpy.random draw the distribution they name; the grid replaces them by all their quantile cells"]
    hybrid = load_hybrid()
    check_forms(r, randgen, list(KIND), "default")
    check_forms(r, hybrid, ["binomial"], "hybrid")
    if r.turn():
        check_families(r)
    if r.turn():
        check_switch(r, hybrid)
    for part in (check_images, check_trees, check_halves):
        if r.turn():
            with scripted_jax():
                part(r)
    if r.turn():
        check_forms_numpy(r)
    if r.turn():
        check_densities(r)
    r.transitions += r.evaluations
