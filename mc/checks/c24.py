"""C24: fit plots show the stored chain, map plots the maps actually used."""

import copy
import itertools
import json
import math
import os
import warnings

import h5py
import matplotlib.pyplot as plt
import numpy as np

import appletree as apt
import appletree.share as share
from appletree import Plotter, randgen
from appletree.plot import plot_maps
from appletree.share import set_global_config
from mc import toys

F = np.float32
plt.rcParams["figure.max_open_warning"] = 0

PRIORS = {
    "a": toys.par("norm", prior_args={"mean": 3.0, "std": 2.0}),
    "b": toys.par("uniform", prior_args={"lower": -50.0, "upper": 150.0}),
    "c": toys.par("twohalfnorm", prior_args={"mu": 10.0, "sigma_pos": 6.0, "sigma_neg": 9.0}),
    "d": toys.par("free"),
}


def write_chain(path, names, chain, logp, blobs):
    """A backend file as a fit leaves it."""
    n, w, k = chain.shape
    if os.path.exists(path):
        os.remove(path)
    with h5py.File(path, "w") as f:
        g = f.create_group("mcmc")
        g.attrs["version"], g.attrs["nwalkers"], g.attrs["ndim"] = "3.1.4", w, k
        g.attrs["has_blobs"], g.attrs["iteration"] = True, n
        g.create_dataset("accepted", data=np.ones(w))
        g.create_dataset("chain", data=chain)
        g.create_dataset("log_prob", data=logp)
        g.create_dataset("blobs", data=blobs)
        g.attrs["parameter_fit"] = list(names)
        # alphabetical and with parameters that are not fitted, as the file may have it
        g.attrs["par_config"] = json.dumps({**{k: PRIORS[k] for k in sorted(PRIORS)}, "fix": toys.par(val=2.0)})
    return path


def values_of(n, w, k):
    """Every stored number is different."""
    i, j, p = np.indices((n, w, k))
    return 1.0 + 0.25 * i + 20.0 * p + 0.03125 * ((j * 5 + i * 3 + p) % 7) + 1e-3 * (i * w + j)


def reference(chain, logp, blobs, discard, thin):
    """Stored steps discard+thin-1, +thin, ... in order."""
    steps = [s for s in range(chain.shape[0]) if s >= discard and (s - discard) % thin == thin - 1]
    return steps, [(chain[s, j], logp[s, j], blobs[s, j]) for s in steps for j in range(chain.shape[1]) if np.isfinite(logp[s, j])]


def judge_chain(r, p, names, chain, logp, blobs, discard, thin, case):
    steps, flat = reference(chain, logp, blobs, discard, thin)
    r.expect(len(p.flat_chain) == len(flat), "samples-after-burn-in-and-thinning", case, got=len(p.flat_chain), want=len(flat))
    r.expect(
        np.array_equal(p.flat_chain, np.array([x[0] for x in flat])) and np.array_equal(p.flat_posterior, [x[1] for x in flat])
        and np.array_equal(p.flat_prior, [x[2] for x in flat]),
        "exactly-the-stored-samples", case,
    )
    keep = [s for s in steps if np.all(np.isfinite(logp[s]))]
    r.expect(np.array_equal(p.chain, chain[keep]) and np.array_equal(p.posterior, logp[keep]) and np.array_equal(p.prior, blobs[keep]), "exactly-the-stored-iterations", case)
    r.expect(list(p.param_names) == list(names), "names-in-the-order-of-the-columns", case, got=list(p.param_names))
    top = max(x[1] for x in flat)
    best = [x[0] for x in flat if x[1] == top]
    got = p.param_mpe
    r.expect(set(got) == set(names) and any(all(got[n] == b[i] for i, n in enumerate(names)) for b in best), "best-fit-is-the-stored-sample-of-highest-posterior", case, got=got, want=best)


def check_chains(r):
    path = os.path.join(r.scratch, "chain.h5")
    n_cases = 0
    orders = [o for k in (1, 2, 3) for o in itertools.permutations("abc", k)]
    orders = orders if r.thorough else [o for o in orders if o in (("a",), ("b", "a"), ("a", "b"), ("c", "a", "b"), ("b", "c", "a"))]
    for names in orders:
        for w in (2, 3):
            for n in (1, 2, 3, 4, 5) if r.thorough else (2, 4):
                chain = values_of(n, w, len(names))
                size = n * w
                # the best sample at every position; ties; every pair of samples not finite
                patterns = [("best", b) for b in range(size)] + [("tie", b) for b in range(size - 1)]
                patterns += [("bad", x) for x in itertools.combinations(range(size), 1)]
                if size <= 8:
                    patterns += [("bad", x) for x in itertools.combinations(range(size), 2)]
                for kind, at in r.mine(patterns):
                    logp = -2.0 - 0.125 * ((np.arange(size) * 7) % size).astype(float)
                    if kind == "best":
                        logp[at] = 5.0
                    elif kind == "tie":
                        logp[[at, at + 1]] = 5.0
                    else:
                        # the worst offenders are those which would be the best
                        for i, x in enumerate(at):
                            logp[x] = [np.inf, np.nan, -np.inf][(i + x) % 3]
                    logp = logp.reshape(n, w)
                    blobs = -1.0 - 0.01 * np.arange(size).reshape(n, w)
                    write_chain(path, names, chain, logp, blobs)
                    for discard in range(0, min(n, 3)):
                        for thin in (1, 2, 3):
                            _, flat = reference(chain, logp, blobs, discard, thin)
                            if not flat:
                                continue
                            case = ("chain", names, w, n, kind, at, discard, thin)
                            r.case(case)
                            n_cases += 1
                            with r.guard("chain", case):
                                judge_chain(r, Plotter(path, discard=discard, thin=thin), names, chain, logp, blobs, discard, thin, case)
    # longer chains
    for names, w, n in ((("b", "a"), 9, 40), (("c", "a", "b"), 6, 101), (tuple(f"p{i}" for i in (3, 10, 2, 1, 7)), 12, 64)):
        size = n * w
        chain = values_of(n, w, len(names))
        for kind in r.mine(range(6)):
            logp = -2.0 - 0.01 * ((np.arange(size) * 7) % size).astype(float)
            logp[(size * (kind + 1)) // 7] = 5.0
            for x in range(kind):
                logp[(x * 131 + 17 * kind) % size] = [np.inf, np.nan, -np.inf][x % 3]
            logp = logp.reshape(n, w)
            blobs = -1.0 - 0.01 * np.arange(size).reshape(n, w)
            write_chain(path, names, chain, logp, blobs)
            for discard in (0, 1, 7, 20):
                for thin in (1, 2, 5, 11):
                    case = ("long-chain", names, w, n, kind, discard, thin)
                    r.case(case)
                    n_cases += 1
                    with r.guard("chain", case):
                        judge_chain(r, Plotter(path, discard=discard, thin=thin), names, chain, logp, blobs, discard, thin, case)
    r.states += n_cases
    r.part("chains", chains=n_cases)


def prior_density(name, x):
    c = PRIORS[name]
    a = c["prior_args"]
    if c["prior_type"] == "norm":
        return np.exp(-((x - a["mean"]) ** 2) / 2 / a["std"] ** 2) / (a["std"] * math.sqrt(2 * math.pi))
    if c["prior_type"] == "uniform":
        return np.full_like(x, 1 / (a["upper"] - a["lower"]))
    return None


def prior_shape_used(name, xs):
    """The density the fit itself uses, up to a factor."""
    pm = apt.Parameter({name: {**copy.deepcopy(PRIORS[name]), "allowed_range": [-1e6, 1e6]}})
    out = []
    for x in xs:
        pm.set_parameter(name, float(x))
        out.append(float(pm.log_prior))
    return np.array(out)


def judge_prior(r, ax_lines, name, case, sig):
    """Among the lines there is the prior of this parameter."""
    if name == "d":
        return
    ok = False
    for ln in ax_lines:
        x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if len(x) < 10 or np.any(y <= 0):
            continue
        want = prior_density(name, x)
        if want is not None:
            ok |= np.allclose(y, want, rtol=1e-5)
        else:
            lp = prior_shape_used(name, x)
            ok |= np.allclose(np.log(y) - np.log(y[0]), lp - lp[0], atol=1e-3)
    r.expect(ok, sig, case, parameter=name)


def check_figures(r):
    path = os.path.join(r.scratch, "figures.h5")
    n_cases = total = 0
    orders = [("a",), ("d",), ("b", "a"), ("c", "a", "b"), ("a", "b", "c", "d")]
    if r.thorough:
        orders = [o for k in (1, 2, 3) for o in itertools.permutations("abcd", k)] + [("a", "b", "c", "d"), ("d", "c", "b", "a")]
    for names in orders:
        k = len(names)
        for w, n, discard, thin in ((4, 12, 0, 1), (3, 20, 3, 2), (5, 15, 1, 1)) if not r.thorough else itertools.product((3, 5), (12, 20), (0, 3), (1, 2)):
            total += 1
            if not r.turn():
                continue
            chain = values_of(n, w, k) + np.sin(np.arange(n * w * k)).reshape(n, w, k)
            # walkers that do not move in some steps
            for s in range(1, n):
                for j in range(w):
                    if (s * s + s * j + 2 * j) % 7 < 3:
                        chain[s, j] = chain[s - 1, j]
            logp = -1.0 - np.abs(np.cos(np.arange(n * w))).reshape(n, w)
            logp[n - 2, 1] = 4.0
            blobs = -0.5 - np.abs(np.sin(np.arange(n * w))).reshape(n, w)
            write_chain(path, names, chain, logp, blobs)
            case = ("figures", names, w, n, discard, thin)
            r.case(case)
            n_cases += 1
            steps, flat = reference(chain, logp, blobs, discard, thin)
            used = chain[steps]
            m = len(steps)
            with r.guard("figures", case):
                p = Plotter(path, discard=discard, thin=thin)
                fig, axes = p.plot_burn_in()
                for i, name in enumerate(names):
                    lines = [np.asarray(ln.get_ydata()) for ln in axes[i].get_lines()]
                    r.expect(axes[i].get_ylabel() == name, "column-with-its-own-name", case, got=axes[i].get_ylabel())
                    r.expect(len(lines) == w and all(np.array_equal(lines[j], used[:, j, i]) for j in range(w)), "every-walker-of-the-stored-chain", case, parameter=name)
                for ax, src in ((axes[k], logp), (axes[k + 1], blobs)):
                    lines = [np.asarray(ln.get_ydata()) for ln in ax.get_lines()]
                    r.expect(len(lines) == w and all(np.array_equal(lines[j], src[steps][:, j]) for j in range(w)), "posterior-and-prior-of-the-stored-chain", case, label=ax.get_ylabel())
                r.expect([axes[k].get_ylabel(), axes[k + 1].get_ylabel()] == ["log posterior", "log prior"], "column-with-its-own-name", case)
                # one tick per kept iteration, the same in every panel
                for ax in axes:
                    for ln in ax.get_lines():
                        x = np.asarray(ln.get_xdata(), float)
                        ok = len(x) == m and np.all(np.diff(x) == thin) and discard <= x[0] and x[-1] < discard + thin * m
                        r.expect(ok, "iterations-counted-from-the-burn-in-on", case, label=ax.get_ylabel(), got=x)
                fig, axes = p.plot_marginal_posterior(bins=7, histtype="bar")
                for i, name in enumerate(names):
                    ax = axes[i]
                    r.expect(ax.get_xlabel() == name, "column-with-its-own-name", case, got=ax.get_xlabel())
                    bars = sorted((b.get_x(), b.get_width(), b.get_height()) for b in ax.patches)
                    col = np.array([x[0][i] for x in flat])
                    h, e = np.histogram(col, bins=7, density=True)
                    r.expect(
                        len(bars) == 7 and np.allclose([b[0] for b in bars], e[:-1]) and np.allclose([b[2] for b in bars], h),
                        "marginal-of-the-stored-samples", case, parameter=name, got=bars,
                    )
                    judge_prior(r, ax.get_lines(), name, case, "prior-of-the-parameter")
                with np.errstate(all="ignore"):
                    fig, axes = p.plot_corner()
                best = p.param_mpe
                for i, name in enumerate(names):
                    vertical = [ln.get_xdata()[0] for ln in axes[i][i].get_lines() if len(ln.get_xdata()) == 2 and ln.get_xdata()[0] == ln.get_xdata()[1]]
                    r.expect(any(v == best[name] for v in vertical), "best-fit-marked-in-its-own-column", case, parameter=name, got=vertical, want=best[name])
                    judge_prior(r, axes[i][i].get_lines(), name, case, "prior-of-the-parameter")
                columns = {name: [x[0][i] for x in flat] for i, name in enumerate(names)}
                columns.update({"log posterior": [x[1] for x in flat], "log prior": [x[2] for x in flat]})
                seen = [axes[k + 1][i].get_xlabel() for i in range(k + 2)]
                r.expect(sorted(seen) == sorted(columns), "column-with-its-own-name", case, got=seen)
                for yi in range(k + 2):
                    for xi in range(yi + 1):
                        ax = axes[yi][xi]
                        want = [min(columns[seen[xi]]), max(columns[seen[xi]])]
                        r.expect(np.allclose(ax.get_xlim(), want), "column-with-its-own-name", case, label=seen[xi], got=ax.get_xlim(), want=want)
                        if xi < yi:
                            want = [min(columns[seen[yi]]), max(columns[seen[yi]])]
                            r.expect(np.allclose(ax.get_ylim(), want), "column-with-its-own-name", case, label=seen[yi], got=ax.get_ylim(), want=want)
                fig, axes = p.plot_acceptance_fraction(window_length=3)
                moved = np.array([[np.any(used[s, j] != used[s - 1, j]) for j in range(w)] for s in range(1, m)], float)
                cum = [moved[: s + 1].mean() for s in range(m - 1)]
                win = [moved[s - 3 : s].mean() for s in range(3, m)]
                lines = [np.asarray(ln.get_ydata()) for ln in axes[0].get_lines()]
                r.expect(any(len(y) == len(cum) and np.allclose(y, cum) for y in lines), "acceptance-of-the-stored-chain", case, got=lines, want=cum)
                r.expect(any(len(y) == len(win) and np.allclose(y, win) for y in lines), "moving-acceptance-of-the-stored-chain", case, got=lines, want=win)
                Plotter.min_autocorr_time, old = 3, Plotter.min_autocorr_time
                try:
                    fig, axes = p.plot_autocorr()
                finally:
                    Plotter.min_autocorr_time = old
                r.expect(len(axes) == k and all(names[i] in axes[i].get_ylabel() for i in range(k)), "column-with-its-own-name", case, got=[a.get_ylabel() for a in axes])
                if total <= 2:
                    out = os.path.join(r.scratch, f"out{total}")
                    os.makedirs(out)
                    with np.errstate(all="ignore"):
                        p.make_all_plots(save=True, save_path=out, fmt="png", dpi=20)
                    r.expect(len(os.listdir(out)) == 5, "all-plots-are-saved", case, got=os.listdir(out))
            plt.close("all")
    r.states += n_cases
    r.part("figures", chains=n_cases)


# ---------------------------------------------------------------------------------------- maps
def nodes(lo, hi, n, log):
    return np.geomspace(lo, hi, n) if log else np.linspace(lo, hi, n)


def toy_component(name, plugs, **attrs):
    toys.component_cls(name, plugs, "on_sim", **attrs)


def eff_plugin(name, configs, parameters=()):
    import jax.numpy as jnp

    def func(self, key, parameters, ca):
        return key, jnp.ones(len(ca))

    return toys.plugin(name, ["ca"], ["eff"], func, parameters, configs=configs)


def setup(r):
    import jax.numpy as jnp

    xs = jnp.asarray(np.array([0.5, 0.75, 1.25, 1.5], F))
    toys.plugin("MpObs", ["batch_size"], ["ca"], lambda self, key, parameters, batch_size: (key, xs))
    r.csv = toys.write_csv(os.path.join(r.scratch, "m.csv"), {"ca": [0.6, 1.5]})
    toys.fixed_cls("MpFixed")


def make_context(r, llhs, configs=None, scalers=()):
    """llhs: likelihood name -> {component name: component}."""
    toys.reset()
    ins = {"likelihoods": {}, "configs": configs or {}}
    pars = {s: toys.par(val=0.5) for s in scalers}
    for l, comps in llhs.items():
        ins["likelihoods"][l] = {
            "data_file_name": r.csv, "bins_type": "irreg", "bins_on": ["ca"], "bins": [[0.0, 1.0, 2.0]], "clip": [0.0, 2.0],
            "components": dict(comps), "copy_parameters": {},
        }
        for c in comps:
            pars[c + "_rate"] = toys.par("uniform", prior_args={"lower": 0.5, "upper": 9.0}, allowed_range=[0.5, 9.0], init_mean=4.0, init_std=0.5)
    ins["par_config"] = toys.write_json(os.path.join(r.scratch, "mp.json"), pars)
    return apt.Context(ins)


def quiet_plot(ctx, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        figs = plot_maps(ctx, **kw)
    return figs, [str(x.message) for x in w]


def judge_saved(r, figs, out, bases, case):
    """Every figure is in its own file, which is named after a map shown in it (bases: the possible names of each figure)."""
    import io

    saved = {n: plt.imread(os.path.join(out, n)) for n in sorted(os.listdir(out)) if n.endswith(".png")}
    options = []
    for (fig, _), names in zip(figs, bases):
        buf = io.BytesIO()
        fig.savefig(buf, format="png")
        buf.seek(0)
        img = plt.imread(buf)
        options.append([n for n, x in saved.items() if x.shape == img.shape and np.array_equal(x, img) and any(n.startswith(b) for b in names)])
    r.expect(
        all(options) and len(set(o[0] for o in options if len(o) == 1)) == sum(len(o) == 1 for o in options), "saved-file-shows-the-map-it-is-named-after", case,
        saved=sorted(saved), found=options,
    )


def drawn(fig, ax):
    """Values shown in a figure: image (in map order), bars or lines."""
    if ax.images:
        return "image", np.asarray(ax.images[0].get_array()).T
    bars = [b for b in ax.patches if b.get_height() != 0 or b.get_width() != 0]
    if bars:
        bars = sorted((b.get_x() + b.get_width() / 2, b.get_height()) for b in bars)
        return "bars", np.array(bars)
    return "lines", [np.array([np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)]) for ln in ax.get_lines()]


MAPS = {
    # name: (axes, lowers, uppers, shape, types)
    "q1": (["u"], [0.0], [4.0], (5,), "regbin"),
    "q1log": (["u"], [1.0], [1000.0], (4,), "log_regbin"),
    "q2": (["u", "v"], [0.0, -2.0], [4.0, 1.0], (5, 4), "regbin"),
    "q2mix": (["u", "v"], [-1.0, 1.0], [1.0, 100.0], (3, 3), ["regbin", "log_regbin"]),
    "q2log": (["v", "u"], [1.0, 10.0], [100.0, 1000.0], (3, 4), "log_regbin"),
    "q3": (["u", "v", "w"], [0.0, -2.0, 10.0], [4.0, 1.0, 14.0], (5, 4, 3), "regbin"),
    "q3mix": (["w", "u", "v"], [1.0, 0.0, 0.0], [16.0, 2.0, 3.0], (3, 3, 4), ["log_regbin", "regbin", "regbin"]),
}
SMAPS = {"s1": MAPS["q1"], "s2": MAPS["q2"], "s3": MAPS["q3mix"], "s1log": MAPS["q1log"]}


def data_of(shape, offset):
    idx = np.indices(shape)
    v = offset + sum((i + 1) ** 2 * (3 ** d) for d, i in enumerate(idx))
    return v.astype(float)


def reduced(spec, data, ranges):
    """Average over the nodes in range, axis by axis; what remains."""
    names, lows, ups, shape, types = spec
    logs = [t == "log_regbin" for t in types] if isinstance(types, list) else [types == "log_regbin"] * len(names)
    empty = False
    keep, weights = [], []
    for i, n in enumerate(names):
        x = nodes(lows[i], ups[i], shape[i], logs[i])
        if n in ranges:
            rg = ranges[n]
            m = np.ones(len(x), bool) if rg is None else (x >= rg[0] - 1e-9) & (x <= rg[1] + 1e-9)
            if not m.any():
                empty = True
                m = np.ones(len(x), bool)
            weights.append(np.flatnonzero(m))
        else:
            keep.append((n, x, logs[i]))
            weights.append(None)
    out = data
    for ax in reversed(range(len(names))):
        if weights[ax] is not None:
            out = sum(np.take(out, j, axis=ax) for j in weights[ax]) / len(weights[ax])
    return out, keep, empty


def ranges_of(spec, axis):
    """None, and ranges between, on and outside of the nodes."""
    names, lows, ups, shape, types = spec
    i = names.index(axis)
    log = types[i] == "log_regbin" if isinstance(types, list) else types == "log_regbin"
    x = nodes(lows[i], ups[i], shape[i], log)
    mid = [x[0] - (0.5 if not log else x[0] / 2)] + list((x[1:] + x[:-1]) / 2) + [x[-1] * 1.5 + 1]
    out = [None]
    out += [(a, b) for a, b in itertools.combinations(mid, 2)]
    out.append((mid[-1], mid[-1] + 1.0))  # nothing inside
    if not log and all(float(F(v)) == float(v) for v in x):
        out += [(float(a), float(b)) for a, b in itertools.combinations_with_replacement(x, 2)]
    return out


def judge_figure(r, fig_ax, spec, data, ranges, case, label):
    fig, ax = fig_ax
    want, keep, _ = reduced(spec, data, ranges)
    kind, got = drawn(fig, ax)
    if len(keep) == 2:
        ok = kind == "image" and got.shape == want.shape and np.allclose(got, want, rtol=1e-5)
        r.expect(ok, "average-of-the-nodes-in-range", case, map=label, got=got, want=want)
        ext = ax.images[0].get_extent() if ax.images else None
        pos = []
        for name, x, log in keep:
            t = np.log10(x) if log else x
            h = (t[1] - t[0]) / 2
            pos += [t[0] - h, t[-1] + h]
        r.expect(ext is not None and np.allclose(ext, pos, atol=1e-4), "nodes-at-their-positions", case, map=label, got=ext, want=pos)
        labels = [ax.get_xlabel(), ax.get_ylabel()]
        r.expect(all(keep[i][0] in labels[i] for i in (0, 1)), "axes-with-their-own-names", case, map=label, got=labels)
    else:
        if kind == "bars":
            ok = len(got) == len(want) and np.allclose(got[:, 1], want, rtol=1e-5)
            r.expect(ok, "average-of-the-nodes-in-range", case, map=label, got=got, want=want)
        else:
            ok = any(g.shape[1] == len(want) and np.allclose(g[1], want, rtol=1e-5) and np.allclose(g[0], keep[0][1], rtol=1e-4) for g in got)
            r.expect(ok, "average-of-the-nodes-in-range", case, map=label, got=got, want=want)
        r.expect(keep[0][0] in ax.get_xlabel(), "axes-with-their-own-names", case, map=label, got=ax.get_xlabel())


def check_collapse(r):
    d = os.path.join(r.scratch, "maps")
    os.makedirs(d)
    configs, datas, smaps = [], {}, {}
    for i, (name, spec) in enumerate(MAPS.items()):
        datas[name] = data_of(spec[3], 1.0 + 1000 * i)
        f = os.path.join(d, f"{name}.json")
        toys.write_json(f, {"coordinate_type": spec[4], "coordinate_name": spec[0], "coordinate_lowers": spec[1], "coordinate_uppers": spec[2], "map": datas[name].tolist()})
        configs.append(apt.Map(name=name, default=f))
    for i, (name, spec) in enumerate(SMAPS.items()):
        files = []
        for j, which in enumerate(("median", "lower", "upper")):
            smaps[name, which] = data_of(spec[3], 20000.0 + 1000 * i + 100 * j)
            f = os.path.join(d, f"{name}_{which}.json")
            toys.write_json(f, {"coordinate_type": spec[4], "coordinate_name": spec[0], "coordinate_lowers": spec[1], "coordinate_uppers": spec[2], "map": smaps[name, which].tolist()})
            files.append(f)
        configs.append(apt.SigmaMap(name=name, default=files))
    n = 0
    for config in r.mine(configs):
        name = config.name
        sigma = name in SMAPS
        spec = SMAPS[name] if sigma else MAPS[name]
        toy_component("MpOne", [apt.plugins.MpObs, eff_plugin("MpEff", [config])])
        with r.guard("collapse", name):
            ctx = make_context(r, {"l": {"er": "MpOne"}}, scalers=[name + "_sigma"] if sigma else [])
        todo = []
        for axes in toys.subsets(spec[0]):
            lists = [ranges_of(spec, a) for a in axes]
            if len(axes) >= 2 and not r.thorough:
                # one axis takes all its ranges, the others a few
                combos = set()
                for i in range(len(axes)):
                    for full in lists[i]:
                        for rest in itertools.product(*[(l[:2] + l[-1:]) for j, l in enumerate(lists) if j != i]):
                            c = list(rest)
                            c.insert(i, full)
                            combos.add(tuple(c))
                combos = sorted(combos, key=repr)[::3]
            else:
                combos = list(itertools.product(*lists))
            todo += [dict(zip(axes, c)) for c in combos]
        before = (copy.deepcopy(dict(dict.items(share._cached_configs))), dict(ctx.par_manager._parameter_dict), copy.deepcopy(ctx.par_manager.par_config))
        for ranges in todo:
            left = len(spec[0]) - len(ranges)
            case = ("collapse", name, ranges)
            with r.guard("collapse", case):
                # other keys do not matter
                collapse = {name: {**ranges, "nothing": (0, 1)}, "other": {a: None for a in spec[0]}}
                out = os.path.join(r.scratch, f"figs_{name}_{n}")
                save = (sigma and n % 5 == 0) or not ranges
                figs, warned = quiet_plot(ctx, collapse=collapse if ranges else {"other": {a: None for a in spec[0]}}, save=save, save_path=out)
                r.case(case, nontrivial=bool(ranges))
                n += 1
                if save and sigma and left == 2 and len(figs) == 3:
                    texts = [" ".join(a.get_ylabel() + a.get_title() for a in f[0].axes) for f in figs]
                    judge_saved(r, figs, out, [[f"{name}_{w}" for w in ("median", "lower", "upper") if w in t] for t in texts], case)
                elif save and left in (1, 2):
                    judge_saved(r, figs, out, [[name]] * len(figs), case)
                _, _, empty = reduced(spec, smaps[name, "median"] if sigma else datas[name], ranges)
                r.expect(any("No bins found" in x for x in warned) == empty, "empty-range-is-reported", case, warned=warned)
                if left not in (1, 2):
                    r.expect(len(figs) == 0 and warned, "not-plottable-is-reported", case, figures=len(figs))
                elif not sigma:
                    if r.expect(len(figs) == 1, "one-figure-per-map", case, figures=len(figs)):
                        judge_figure(r, figs[0], spec, datas[name], ranges, case, name)
                elif left == 1:
                    if r.expect(len(figs) == 1, "one-figure-per-map", case, figures=len(figs)):
                        for which in ("median", "lower", "upper"):
                            judge_figure(r, figs[0], spec, smaps[name, which], ranges, case, f"{name} {which}")
                else:
                    if r.expect(len(figs) == 3, "one-figure-per-map", case, figures=len(figs)):
                        for which in ("median", "lower", "upper"):
                            mine = []
                            for f in figs:
                                text = " ".join(a.get_ylabel() + a.get_title() for a in f[0].axes)
                                if which in text:
                                    mine.append(f)
                            if r.expect(len(mine) == 1, "figure-of-each-of-the-three-maps", case, which=which):
                                judge_figure(r, mine[0], spec, smaps[name, which], ranges, case, f"{name} {which}")
            plt.close("all")
        after = (dict(dict.items(share._cached_configs)), dict(ctx.par_manager._parameter_dict), ctx.par_manager.par_config)
        r.expect(before == after, "plotting-changes-nothing", ("collapse", name))
    r.states += n
    r.part("collapsed-maps", cases=n, maps_given=len(configs))


# ---------------------------------------------------------------------------------------- which maps
def check_collection(r):
    """Every assignment of files to two likelihoods, with components that need some of the maps."""
    root = os.path.join(r.scratch, "files")
    files = {}
    for i, n in enumerate(("f0", "f1", "f2", "s0", "s1")):
        sub = os.path.join(root, n)
        os.makedirs(sub, exist_ok=True)
        # different files with the same name
        base = "same" if n in ("f0", "f1") else n
        files[n] = toys.point_map(os.path.join(sub, base + ".json"), [0.0, 1.0, 2.0], [i + 10.0, i + 10.25, i + 10.5])
    number = {f: n for n, f in files.items()}

    def maps():
        return apt.Map(name="ma", default=files["f0"], method="LERP")

    def mbs():
        return apt.Map(name="mb", default=files["f0"], method="LERP")

    def sgs():
        return apt.SigmaMap(name="sg", default=[files["s0"], files["s1"], files["f0"], "scale"], method="LERP")

    def eff(name, cfgs):
        return eff_plugin(name, cfgs)

    A = eff("MpA", [maps()])
    B = eff("MpB", [mbs()])
    AB = eff("MpAB", [maps(), mbs()])
    S = eff("MpS", [sgs()])
    SA = eff("MpSA", [sgs(), maps()])
    # a second output is overridden by a later plugin, the first stays in use
    two = toys.plugin("MpTwo", ["batch_size"], ["cz", "eff"], lambda self, key, parameters, batch_size: (key, None, None), configs=[maps()])
    chain = toys.plugin("MpChain", ["ca"], ["cb"], lambda self, key, parameters, ca: (key, ca), configs=[mbs()])
    last = toys.plugin("MpLast", ["cb"], ["eff"], lambda self, key, parameters, cb: (key, cb * 0 + 1.0), configs=[maps()])
    O = apt.plugins.MpObs
    kinds = {
        # component: (plugins registered, options its simulation uses)
        "KA": ([O, A], ["ma"]),
        "KB": ([O, B, chain], ["mb"]),
        "KAB": ([O, AB], ["ma", "mb"]),
        "KS": ([O, A, S], ["sg"]),
        "KSA": ([O, SA], ["sg", "ma"]),
        "KOver": ([O, two, B], ["mb"]),
        "KChain": ([O, B, chain, last], ["mb", "ma"]),
    }
    for k, (ps, _) in kinds.items():
        toy_component(k, ps)
    n = num = 0
    options = {
        "ma": [None, "f1", ("f1", "f2")],
        "mb": [None, "f2", ("f0", "f1")],
        "sg": [None, "s0", ["s1", "s0", "s0"], (["s0", "s1", "f2"], ["s0", "s1", "f1"]), (["s0", "f2", "f1"], ["s0", "s1", "f1"]), (["s1", "s0", "f1"], ["s0", "s0", "f1"])],
    }
    pairs = [((a,), (b,)) for a in kinds for b in kinds] + [((a, b), ("KB",)) for a in kinds for b in kinds if a < b and (r.thorough or (a, b) in (("KA", "KS"), ("KB", "KOver"), ("KAB", "KChain")))]
    for left, right in pairs:
        used = {"l": [o for k in left for o in kinds[k][1]], "m": [o for k in right for o in kinds[k][1]]}
        relevant = sorted(set(used["l"]) | set(used["m"]))
        menus = [options[o] if o in relevant else [None] for o in ("ma", "mb", "sg")]
        for vals in itertools.product(*menus):
            if not r.thorough and sum(v is not None for v in vals) > (1 if len(left) == 2 else 2):
                continue
            num += 1
            if not r.turn():
                continue
            configs = {}
            for o, v in zip(("ma", "mb", "sg"), vals):
                if isinstance(v, str):
                    configs[o] = files[v]
                elif isinstance(v, list):
                    configs[o] = [files[x] for x in v] + ["scale"]
                elif isinstance(v, tuple):
                    configs[o] = {l: files[x] if isinstance(x, str) else [files[y] for y in x] + ["scale"] for l, x in zip(("l", "m"), v)}
            case = ("maps", left, right, vals)
            want = set()
            for i, l in enumerate(("l", "m")):
                for o in used[l]:
                    v = configs.get(o)
                    if isinstance(v, dict):
                        v = v[l]
                    if v is None:
                        v = files["f0"] if o != "sg" else [files["s0"], files["s1"], files["f0"]]
                    if o == "sg":
                        v = tuple(v[:3]) if isinstance(v, list) else (v, v, v)
                    want.add(v)
            scalers = []
            if "sg" in relevant and not isinstance(configs.get("sg"), str):
                scalers = ["scale"]
            with r.guard("maps", case):
                llhs = {"l": {f"c{i}": k for i, k in enumerate(left)}, "m": {"d0": right[0], "fx": {"component_cls": "MpFixed", "file_name": r.csv}}}
                ctx = make_context(r, llhs, configs, scalers)
                r.case(case)
                n += 1
                out = os.path.join(r.scratch, f"saved{num}")
                save = num % 9 == 0
                changed = num % 2 == 0
                if changed:
                    # options set after the simulation was built are not those it uses
                    set_global_config({"ma": files["f2"], "mb": files["s1"]})
                before = (copy.deepcopy(dict(dict.items(share._cached_configs))), copy.deepcopy(ctx.par_manager._parameter_dict), {l: v.components.keys() for l, v in ctx.likelihoods.items()})
                figs, _ = quiet_plot(ctx, save=save, save_path=out, fmt=["png", "svg"] if num % 18 == 0 else "png")
                after = (dict(dict.items(share._cached_configs)), ctx.par_manager._parameter_dict, {l: v.components.keys() for l, v in ctx.likelihoods.items()})
                r.expect(before == after, "plotting-changes-nothing", case)
                got = []
                for f in figs:
                    kind, lines = drawn(*f)
                    lines = [g for g in lines if g.shape[1] == 3] if kind == "lines" else []
                    got.append(tuple(files[n2] for g in lines for i, n2 in enumerate(("f0", "f1", "f2", "s0", "s1")) if np.allclose(g[1], [i + 10.0, i + 10.25, i + 10.5])))
                want_seen = sorted(tuple([v]) if isinstance(v, str) else v for v in want)
                r.expect(
                    sorted(got, key=repr) == sorted(want_seen, key=repr), "each-map-in-use-once", case,
                    got=[[number[x] for x in g] for g in got], want=[[number[x] for x in w] for w in want_seen], changed=changed,
                )
                if save:
                    names = os.listdir(out)
                    r.expect(len(names) == len(figs) * (2 if num % 18 == 0 else 1), "saved-under-distinct-names", case, saved=names, figures=len(figs))
                    judge_saved(r, figs, out, [[os.path.splitext(os.path.basename(x))[0] for x in g] for g in got], case)
            plt.close("all")
    r.states += n
    r.part("map-collections", contexts=n)


def run(r):
    r.rule = "one case per chain, burn-in and thinning; per set of averaged axes and ranges; per assignment of map files"
    r.assumptions = ["ranges that end on a node are used where the node is an exact number", "what a figure shows is read back from the matplotlib objects"]
    warnings.simplefilter("ignore")
    setup(r)
    check_chains(r)
    check_figures(r)
    check_collection(r)
    check_collapse(r)
