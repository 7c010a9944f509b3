"""C02: the log prior is the declared prior inside the range and -inf exactly outside it."""

import copy
import itertools
import math

import numpy as np
from scipy.stats import norm as scipy_norm

from appletree import Parameter
from appletree.randgen import TwoHalfNorm
from appletree.utils import errors_to_two_half_norm_sigmas

Q16 = scipy_norm.cdf(-1.0)


def thn_cdf(x, sp, sn):
    """CDF of the two-half-normal with mode 0: density c*exp(-x^2/2s^2), s by side."""
    w = sn / (sp + sn)
    if x < 0:
        return w * 2 * scipy_norm.cdf(x / sn)
    return w + (1 - w) * (2 * scipy_norm.cdf(x / sp) - 1)


def ref_sigmas(err_pos, err_neg):
    """Solve the 16th and 84th percentile conditions by bisection on the ratio of the widths."""

    def widths(w):  # w = sn / (sp + sn)
        # lower tail: 2 w Phi(-en/sn) = Q16 ; upper tail: 2 (1-w) Phi(-ep/sp) = Q16
        sn = -err_neg / scipy_norm.ppf(Q16 / (2 * w))
        sp = -err_pos / scipy_norm.ppf(Q16 / (2 * (1 - w)))
        return sp, sn

    lo, hi = Q16 / 1 + 1e-9, 1 - Q16 - 1e-9

    def f(w):
        sp, sn = widths(w)
        return sn / (sp + sn) - w

    flo = f(lo)
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if (f(mid) > 0) == (flo > 0):
            lo = mid
        else:
            hi = mid
    return widths(0.5 * (lo + hi))


ENTRIES = {
    "norm": dict(prior_type="norm", prior_args={"mean": 0.5, "std": 0.7}, allowed_range=[-1.0, 2.0]),
    "norm2": dict(prior_type="norm", prior_args={"mean": -3.0, "std": 2.0}, allowed_range=[-2.5, 4.0]),
    "thn": dict(prior_type="twohalfnorm", prior_args={"mu": 1.0, "sigma_pos": 0.4, "sigma_neg": 0.9},
                allowed_range=[0.0, 3.0]),
    "thn2": dict(prior_type="twohalfnorm", prior_args={"mu": 0.0, "sigma_pos": 1.2, "sigma_neg": 0.5},
                 allowed_range=[-4.0, 4.0]),
    "uni": dict(prior_type="uniform", prior_args={"lower": -1.0, "upper": 5.0}, allowed_range=[0.0, 4.0]),
    # allowed beyond the interval of the flat prior, and very far from the mode in units of its width
    "uni2": dict(prior_type="uniform", prior_args={"lower": 0.5, "upper": 1.5}, allowed_range=[-2.0, 4.0]),
    "normn": dict(prior_type="norm", prior_args={"mean": 0.25, "std": 0.01}, allowed_range=[-1.0, 3.0]),
    "thnn": dict(prior_type="twohalfnorm", prior_args={"mu": 0.5, "sigma_pos": 0.02, "sigma_neg": 0.01}, allowed_range=[-1.0, 3.0]),
    "free": dict(prior_type="free", prior_args={}, allowed_range=[-2.0, 2.0]),
    "fix": dict(prior_type="fixed", prior_args={"val": 1.0}, allowed_range=None),
    "fixr": dict(prior_type="fixed", prior_args={"val": 1.0}, allowed_range=[0.0, 2.0]),
}
for e in ENTRIES.values():
    e["init_mean"], e["init_std"] = 0.0, 1.0
    if e["prior_type"] == "fixed":
        e["init_mean"] = e["init_std"] = None

MODE = {"uni2": 1.0, "normn": 0.25, "thnn": 0.5, "norm": 0.5, "norm2": -3.0, "thn": 1.0, "thn2": 0.0, "uni": 2.0, "free": 0.25, "fix": 1.0, "fixr": 1.0}
INSIDE = {"uni2": 1.0, "normn": 0.25, "thnn": 0.5, "norm": 0.5, "norm2": 0.0, "thn": 1.0, "thn2": 0.0, "uni": 2.0, "free": 0.25, "fix": 1.0, "fixr": 1.0}


def lattice(kind, fine):
    e = ENTRIES[kind]
    lo, hi = e["allowed_range"] or (0.0, 2.0)
    m = MODE[kind]
    pts = [lo - 1.0, math.nextafter(lo, -math.inf), lo, math.nextafter(lo, math.inf)]
    pts += [m - 0.3, m, m + 0.3]
    pts += [math.nextafter(hi, -math.inf), hi, math.nextafter(hi, math.inf), hi + 10.0]
    if not fine:
        pts = [lo - 1.0, lo, m - 0.3, m + 0.3, hi, hi + 10.0]
    return pts


SIGMAS = {}


def ref_log(kind, v):
    """Reference log density up to a constant of the kind."""
    e = ENTRIES[kind]
    a = e["prior_args"]
    if e["prior_type"] == "fixed":
        return 0.0
    lo, hi = e["allowed_range"]
    if not (lo <= v <= hi):
        return -math.inf
    if e["prior_type"] == "norm":
        return -0.5 * ((v - a["mean"]) / a["std"]) ** 2
    if e["prior_type"] == "twohalfnorm":
        if kind not in SIGMAS:
            SIGMAS[kind] = ref_sigmas(a["sigma_pos"], a["sigma_neg"])
        sp, sn = SIGMAS[kind]
        s = sp if v >= a["mu"] else sn
        return -0.5 * ((v - a["mu"]) / s) ** 2
    return 0.0


def tables(r):
    sizes = (1, 2, 3) if not r.thorough else (1, 2, 3, 4)
    kinds = list(ENTRIES)
    for size in sizes:
        combos = itertools.combinations_with_replacement(kinds, size)
        if size >= 3:
            combos = itertools.combinations(["thn", "norm", "uni", "free", "fix", "thn2"][: 5 if size == 3 else 6], size)
        for combo in combos:
            names = [f"p{i}" for i in range(size)]
            cfg = {n: dict(ENTRIES[k]) for n, k in zip(names, combo)}
            with r.guard("construction", combo):
                p = Parameter(cfg)
                p.set_parameter({n: INSIDE[k] for n, k in zip(names, combo)})
                base = float(p.log_prior)
            r.expect(math.isfinite(base), "finite-inside", combo, got=base)
            ref0 = sum(ref_log(k, INSIDE[k]) for k in combo)
            lat = [lattice(k, size <= 2) for k in combo]
            for vals in itertools.product(*lat):
                case = [combo, vals]
                with r.guard("log-prior", case):
                    p.set_parameter(dict(zip(names, vals)))
                    got = float(p.log_prior)
                want = sum(ref_log(k, v) for k, v in zip(combo, vals))
                r.case((combo, vals))
                if want == -math.inf:
                    r.expect(got == -math.inf, "minus-infinity-outside-range", case, got=got)
                else:
                    r.expect(math.isfinite(got) and abs((got - base) - (want - ref0)) < 1e-5 * (1 + abs(want)),
                             "declared-density", case, got=got - base, want=want - ref0)
    # larger tables: every single parameter moved, on the edge, or outside
    for size in range(4, 15 if r.thorough else 13):
        for shift in range(len(kinds)):
            combo = tuple(kinds[(i * 3 + shift) % len(kinds)] for i in range(size))
            names = [f"p{i}" for i in range(size)]
            with r.guard("construction", combo):
                p = Parameter({n: copy.deepcopy(ENTRIES[k]) for n, k in zip(names, combo)})
                inside = {n: INSIDE[k] for n, k in zip(names, combo)}
                p.set_parameter(inside)
                base = float(p.log_prior)
                r.expect(math.isfinite(base), "finite-inside", combo, got=base)
                for i, k in enumerate(combo):
                    for v in lattice(k, False):
                        case = ["large", combo, i, v]
                        r.case((combo, i, v))
                        p.set_parameter({**inside, names[i]: v})
                        got = float(p.log_prior)
                        want = ref_log(k, v)
                        if want == -math.inf:
                            r.expect(got == -math.inf, "minus-infinity-outside-range", case, got=got)
                        else:
                            want -= ref_log(k, INSIDE[k])
                            r.expect(math.isfinite(got) and abs((got - base) - want) < 1e-4 * (1 + abs(want)), "declared-density", case, got=got - base, want=want)
    r.part("tables", sizes=sizes, kinds=len(kinds))


def errors(r):
    ratios = [1, 1.2, 1.5, 2, 2.5, 3]
    scales = [1e-3, 0.02, 0.3, 1, 7, 150, 1e4]
    n = 0
    for s in scales:
        for q in ratios + [1 / x for x in ratios[1:]]:
            ep, en = s * q, s
            case = [ep, en]
            with r.guard("error-conversion", case):
                sp, sn = errors_to_two_half_norm_sigmas([ep, en])
                n += 1
                r.case(("err", ep, en))
                r.expect(sp > 0 and sn > 0, "widths-positive", case, sp=sp, sn=sn)
                r.expect(abs(thn_cdf(-en, sp, sn) - Q16) < 1e-4, "16th-percentile-is-the-lower-error", case,
                         got=thn_cdf(-en, sp, sn))
                r.expect(abs(thn_cdf(ep, sp, sn) - (1 - Q16)) < 1e-4, "84th-percentile-is-the-upper-error", case,
                         got=thn_cdf(ep, sp, sn))
    r.part("error conversion", pairs=n)


def density(r):
    """TwoHalfNorm.logpdf is a normalised density with the declared widths."""
    for sp, sn, mu in itertools.product([0.2, 1.0, 3.0], [0.2, 1.0, 3.0], [-2.0, 0.0, 5.0]):
        case = [sp, sn, mu]
        with r.guard("density", case):
            # midpoint sums on each side, which are exact enough for a smooth half
            total = 0.0
            for side, s in ((-1, sn), (1, sp)):
                h = s / 400
                x = mu + side * (np.arange(0, 8 * 400) + 0.5) * h
                total += np.sum(np.exp(TwoHalfNorm.logpdf(x, mu, sp, sn))) * h
                share = np.sum(np.exp(TwoHalfNorm.logpdf(x, mu, sp, sn))) * h
                r.expect(abs(share - s / (sp + sn)) < 1e-3, "mass-per-side", case, side=side, got=share)
            r.case(("pdf", sp, sn, mu))
            r.expect(abs(total - 1) < 2e-3, "normalised", case, got=total)
            for d in (0.5, 1.0, 2.0):
                a = float(TwoHalfNorm.logpdf(mu + d * sp, mu, sp, sn) - TwoHalfNorm.logpdf(mu, mu, sp, sn))
                b = float(TwoHalfNorm.logpdf(mu - d * sn, mu, sp, sn) - TwoHalfNorm.logpdf(mu, mu, sp, sn))
                r.expect(abs(a + d * d / 2) < 1e-6 and abs(b + d * d / 2) < 1e-6, "width-per-side", case, got=[a, b])
            arr = TwoHalfNorm.logpdf(np.array([mu - 1, mu, mu + 1]), mu, sp, sn)
            one = [float(TwoHalfNorm.logpdf(v, mu, sp, sn)) for v in (mu - 1, mu, mu + 1)]
            r.expect(np.allclose(arr, one), "array-and-scalar-agree", case)


def shares(r):
    """Share of draws on each side over an enumerated set of seeds, scalar and array form."""
    seeds = range(600 if r.thorough else 300)
    for sp, sn in itertools.product([0.3, 1.0, 4.0], repeat=2):
        case = [sp, sn]
        want = sp / (sp + sn)
        with r.guard("share", case):
            ups = []
            for s in seeds:
                np.random.seed(s)
                v = float(TwoHalfNorm.rvs(2.0, sp, sn))
                ups.append(v > 2.0)
            r.case(("rvs", sp, sn))
            got = np.mean(ups)
            tol = 6 * math.sqrt(want * (1 - want) / len(ups))
            r.expect(abs(got - want) < tol, "share-per-side-scalar", case, got=got, want=want)
            np.random.seed(5)
            x = TwoHalfNorm.rvs(2.0, sp, sn, size=40000)
            r.expect(np.shape(x) == (40000,), "shape", case)
            got = np.mean(x > 2.0)
            r.expect(abs(got - want) < 6 * math.sqrt(want * (1 - want) / 40000), "share-per-side", case,
                     got=got, want=want)
            up, dn = x[x > 2] - 2, 2 - x[x < 2]
            for half, s in ((up, sp), (dn, sn)):
                m2 = np.mean(half**2) / s**2
                r.expect(abs(m2 - 1) < 6 * math.sqrt(2 / len(half)), "width-of-each-half", case, got=m2)
                m1 = np.mean(half) / s
                r.expect(abs(m1 - math.sqrt(2 / math.pi)) < 6 * math.sqrt(0.37 / len(half)),
                         "shape-of-each-half", case, got=m1)


def prior_shares(r):
    """The same through the parameter manager, where the errors are percentiles."""
    n = 1500 if r.thorough else 500
    for ep, en in ((0.4, 1.2), (1.2, 0.4), (1.0, 1.0)):
        sp, sn = ref_sigmas(ep, en)
        e = dict(prior_type="twohalfnorm", prior_args={"mu": 3.0, "sigma_pos": ep, "sigma_neg": en},
                 allowed_range=[-1e6, 1e6], init_mean=-50.0, init_std=1.0)
        case = [ep, en]
        with r.guard("prior-share", case):
            p = Parameter({"x": e})
            v = []
            for s in range(n):
                p.init_parameter(seed=s)
                v.append(float(p.get_parameter("x")))
            v = np.array(v) - 3.0
            r.case(("prior-share", ep, en))
            for what, got, want in (
                ("share-above-mode", np.mean(v > 0), sp / (sp + sn)),
                ("16th-percentile-of-draws", np.mean(v < -en), Q16),
                ("84th-percentile-of-draws", np.mean(v > ep), Q16),
            ):
                tol = 6 * math.sqrt(want * (1 - want) / n)
                r.expect(abs(got - want) < tol, what, case, got=got, want=want)


def invariances(r):
    """Order of the table, fixed parameters and repeated evaluation do not matter."""
    kinds = ["norm", "thn", "uni", "free", "fix"]
    vals = {"norm": 0.1, "thn": 1.7, "uni": 3.0, "free": -1.0, "fix": 123.0}
    results = set()
    for order in itertools.permutations(kinds):
        with r.guard("order", order):
            p = Parameter({k: dict(ENTRIES[k]) for k in order})
            p.set_parameter(vals)
            results.add(round(float(p.log_prior), 9))
            a, b = float(p.log_prior), float(p.log_prior)
            r.case(("order", order))
            r.expect(a == b, "repeatable", order)
            for v in (-1e9, 0.0, 1e9, float("inf")):
                p.set_parameter("fix", v)
                r.expect(float(p.log_prior) == a, "fixed-parameters-never-matter", [order, v])
    r.expect(len(results) == 1, "order-does-not-matter", None, got=sorted(results))


def run(r):
    r.rule = ("every combination of prior kinds up to the size x every tuple of lattice values; non-trivial when "
              "the log prior of the real object was compared with the closed form")
    r.assumptions = ["shares of draws are measured over an enumerated set of seeds with a six-sigma tolerance"]
    tables(r)
    errors(r)
    density(r)
    shares(r)
    prior_shares(r)
    invariances(r)
