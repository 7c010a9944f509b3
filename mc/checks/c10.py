"""C10: a map is built as declared in its file, or rejected."""

import itertools
import os

import numpy as np

import appletree as apt
from appletree.utils import cumulative_integrate_midpoint, integrate_midpoint
from mc import toys

F = np.float32
POINT_KINDS = {"point", "log_point"}
REG_KINDS = {"regbin", "log_regbin"}
METHODS = ["IDW", "NN", "LERP"]


def accepted(data, method):
    """Reference: is this file a valid map?"""
    kind = data["coordinate_type"]
    if isinstance(kind, list):
        if any(k not in REG_KINDS for k in kind):
            return False
        if len(kind) != len(data["coordinate_lowers"]):
            return False
        flags = [k == "log_regbin" for k in kind]
    elif kind in POINT_KINDS:
        flags = [kind == "log_point"]
    elif kind in REG_KINDS:
        flags = [kind == "log_regbin"] * len(data["coordinate_lowers"])
    else:
        return False
    if method not in METHODS:
        return False
    if kind in ("point", "log_point"):
        if flags[0] and data["coordinate_name"] in ("pdf", "cdf"):
            return False
        return not (flags[0] and min(data["coordinate_system"]) <= 0)
    if len(flags) > 3:
        return False
    for name, f in zip(data["coordinate_name"], flags):
        if f and name in ("pdf", "cdf"):
            return False
    return not any(
        f and (lo <= 0 or hi <= 0)
        for f, lo, hi in zip(flags, data["coordinate_lowers"], data["coordinate_uppers"])
    )


def build(r, data, method):
    toys.reset()
    path = toys.write_json(os.path.join(r.scratch, "c10.json"), data)
    m = apt.Map(name="c10map", method=method, default=path)
    m.build("llh")
    return m


def nodes_of(data):
    """Declared coordinates and values."""
    kind = data["coordinate_type"]
    if kind in ("point", "log_point"):
        return [(x,) for x in data["coordinate_system"]], list(data["map"])
    vals = np.array(data["map"])
    n = vals.ndim
    kinds = kind if isinstance(kind, list) else [kind] * n
    axes = []
    for k, lo, hi, s in zip(kinds, data["coordinate_lowers"], data["coordinate_uppers"], vals.shape):
        axes.append(np.geomspace(lo, hi, s) if k == "log_regbin" else np.linspace(lo, hi, s))
    return list(itertools.product(*axes)), list(vals.ravel())


def judge(r, data, method, case):
    ok = accepted(data, method)
    r.case(case)
    if not ok:
        r.raises(Exception, "malformed-rejected", lambda: build(r, data, method), case)
        return
    with r.guard("well-formed-accepted", case):
        m = build(r, data, method)
        pts, want = nodes_of(data)
        arr = np.array(pts, dtype=F)
        arr = arr[:, 0] if arr.shape[1] == 1 else arr
        got = np.asarray(m.apply(arr))
        tol = 2e-4 * (max(want) - min(want)) + 3e-6 * max(abs(v) for v in want)
        r.expect(
            got.shape == (len(want),) and np.allclose(got, want, rtol=0, atol=tol), "declared-values", case,
            got=got, want=want,
        )
        # between two nodes of the first axis: the declared method decides
        kind = data["coordinate_type"]
        first = kind[0] if isinstance(kind, list) else kind
        axis0 = sorted({p[0] for p in pts})
        a, b = axis0[0], axis0[1]
        t = 0.3
        x = a * (b / a) ** t if first.startswith("log") else a + t * (b - a)
        q = np.array([(x, *pts[0][1:])], dtype=F)
        q = q[:, 0] if q.shape[1] == 1 else q
        g = float(np.asarray(m.apply(q))[0])
        va = want[0]
        vb = want[[i for i, p in enumerate(pts) if p[0] == b][0]]
        lin = (1 - t) * va + t * vb
        if method == "NN":
            r.expect(abs(g - va) <= tol, "declared-method", case, got=g, want=va)
        elif method == "LERP" or len(pts[0]) == 1:
            r.expect(abs(g - lin) <= 10 * tol, "declared-axis-type", case, got=g, want=lin)
        r.expect(m.coordinate_type == data["coordinate_type"], "declared-type-kept", case)


def check_point(r):
    n = 0
    kinds = ["point", "log_point", "POINT", "points", "regbins", "", "lin", "log"]
    names = ["x", "energy", "cdf", "pdf"]
    systems = [(1.0, 2.0, 4.0), (0.0, 0.5, 1.0), (-1.0, 2.0, 3.0), (0.25, 0.5, 1.0), (1e-3, 1.0, 1e3), (-3.0, -2.0, -1.0)]
    maps = [(1.0, 3.0, 4.0), (0.0, 0.0, 1.0), (5.0, -2.0, 7.0)]
    for kind, name, cs, v, method in itertools.product(
        kinds, names, systems, maps, METHODS + ["idw", "LIN", "", None]
    ):
        if name == "pdf" and kind == "point":
            continue
        data = dict(coordinate_type=kind, coordinate_name=name, coordinate_system=list(cs), map=list(v))
        judge(r, data, method, ("point", kind, name, cs, v, method))
        n += 1
    r.part("point files", cases=n)


def check_regbin(r):
    n = 0
    values = {1: [1.0, 3.0, 4.0], 2: [[1.0, 3.0], [4.0, 8.0], [2.0, -1.0]], 3: [[[1.0, 2.0], [5.0, 3.0]], [[0.0, 7.0], [4.0, 6.0]]]}
    lows = [1.0, 0.0, -2.0]
    for ndim in (1, 2, 3):
        kinds = ["regbin", "log_regbin", "regbins", "log"]
        for length in (ndim - 1, ndim, ndim + 1):
            if length >= 1:
                kinds += [list(k) for k in itertools.product(["regbin", "log_regbin"], repeat=length)]
        kinds += [["point"] * ndim, ["log_point"] + ["regbin"] * (ndim - 1), ["regbin"] * (ndim - 1) + ["lin"], []]
        for kind in kinds:
            for low in itertools.product(lows, repeat=ndim):
                ups = [[v + 3.0 for v in low]]
                if ndim == 1 and low[0] < 0:
                    ups.append([-0.5])
                if low == (1.0,) * ndim and isinstance(kind, (list, str)):
                    # an upper end that is not positive, on an axis that has to be
                    logs = kind if isinstance(kind, list) else [kind] * ndim
                    for j in range(min(ndim, len(logs))):
                        if logs[j] == "log_regbin":
                            for bad in (0.0, -1.0):
                                ups.append([v + 3.0 if i != j else bad for i, v in enumerate(low)])
                for up in ups:
                    names = [["x", "y", "z"][:ndim]]
                    if low[0] == 1.0:
                        for j in range(ndim):
                            for p in ("pdf", "cdf"):
                                nm = ["x", "y", "z"][:ndim]
                                nm[j] = p
                                names.append(nm)
                    for nm in names:
                        methods = METHODS + (["LIN", None] if low == (1.0,) * ndim else [])
                        if ndim == 3 and low != (1.0,) * ndim and not r.thorough:
                            methods = ["LERP"]
                        for method in methods:
                            data = dict(
                                coordinate_type=kind, coordinate_name=nm, coordinate_lowers=list(low),
                                coordinate_uppers=list(up), map=values[ndim],
                            )
                            judge(r, data, method, ("regbin", kind, nm, low, up, method))
                            n += 1
    data = dict(
        coordinate_type="regbin", coordinate_name=list("wxyz"), coordinate_lowers=[0.0] * 4,
        coordinate_uppers=[1.0] * 4, map=np.arange(16.0).reshape(2, 2, 2, 2).tolist(),
    )
    for method in METHODS:
        judge(r, data, method, ("regbin", "4d", method))
    r.part("regular files", cases=n)


def check_broken_files(r):
    """Files which are no map at all."""
    toys.reset()
    good = dict(coordinate_type="point", coordinate_name="x", coordinate_system=[0.0, 1.0], map=[1.0, 2.0])
    for drop in good:
        data = {k: v for k, v in good.items() if k != drop}
        r.case(("missing", drop))
        r.raises(Exception, "missing-entry-rejected", lambda: build(r, data, "IDW"), drop)
    for text in ("", "{", "[1, 2", "not json"):
        path = os.path.join(r.scratch, "broken.json")
        with open(path, "w") as f:
            f.write(text)
        toys.reset()
        r.case(("broken", text))
        r.raises(Exception, "unreadable-rejected", lambda: apt.Map(name="m", default=path).build("l"), text)
    toys.reset()
    r.raises(Exception, "absent-rejected", lambda: apt.Map(name="m", default="/nowhere/x.json").build("l"), "absent")
    r.part("broken files", cases=9)


def ref_cdf(x, pdf):
    """The share of the density below each declared position (trapezoids between them)."""
    mids, acc, total = [], [0.0], 0.0
    for a, b, p, q in zip(x, x[1:], pdf, pdf[1:]):
        mids.append(0.5 * (a + b))
        total += (b - a) * 0.5 * (p + q)
        acc.append(total)
    return mids, [v / total for v in acc] if total else acc, total


def check_pdf(r):
    n = 0
    xs = [(0.0, 1.0, 2.0, 3.0), (0.0, 0.5, 2.0, 5.0), (-2.0, -1.0, 3.0, 4.0), (1.0, 10.0, 100.0, 1000.0)]
    alphabet = [0.0, 1.0, 4.0] + ([0.25, 50.0] if r.thorough else [])
    cases = [(x, p) for x in xs for p in itertools.product(alphabet, repeat=4)]
    cases += [((0.0, 1.0, 3.0), p) for p in itertools.product(alphabet, repeat=3)]
    cases += [(tuple(np.linspace(0, 1, 12)), tuple(((7 * i) % 5) + 0.1 * j for i in range(12))) for j in range(6)]
    for x, p in cases:
        mids, cdf, total = ref_cdf(x, p)
        if not total:
            continue
        case = ("pdf", x, p)
        with r.guard("integration", case):
            xm, c = cumulative_integrate_midpoint(list(x), list(p))
            r.expect(np.allclose(xm, mids) and np.allclose(c, np.array(cdf[1:]) * total), "cumulative-integral", case, got=[xm, c])
            r.expect(np.isclose(integrate_midpoint(np.array(x), np.array(p)), total), "integral", case)
        for method in METHODS:
            with r.guard("density", case):
                m = build(r, dict(coordinate_type="point", coordinate_name="pdf", coordinate_system=list(x), map=list(p)), method)
                n += 1
                r.case(case + (method,))
                cs, v = np.asarray(m.coordinate_system), np.asarray(m.map)
                r.expect(m.coordinate_name == "cdf", "becomes-inverse-cdf", case, got=m.coordinate_name)
                r.expect((np.diff(cs) >= 0).all() and cs[0] >= 0, "non-decreasing", case, got=cs)
                r.expect(cs[-1] == 1.0, "ends-at-one", case, got=cs)
                u = np.linspace(0.0, 1.0, 41)
                got = np.asarray(m.apply(np.array(u, dtype=F)))
                r.expect(np.isfinite(got).all() and (np.diff(got) >= -1e-3 * (x[-1] - x[0])).all(), "monotone-in-probability", case, got=got)
                if method == "NN":
                    continue
                # equal steps of probability: the share of the density below each value is
                # the probability it was made from, at the declared positions exactly and
                # elsewhere up to the shape of the density within one cell
                tol = 1e-3 * (x[-1] - x[0])
                # the cells that hold some of the density, the value is free where it has none
                held = [i for i in range(len(cdf) - 1) if cdf[i + 1] - cdf[i] > 1e-6]
                probe = [(uu, [(x[i], x[i + 1]) for i in held if cdf[i] - 1e-6 <= uu <= cdf[i + 1] + 1e-6]) for uu in u[1:-1]]
                got = np.asarray(m.apply(np.array([uu for uu, _ in probe], dtype=F)))
                ok = [min(lo for lo, _ in cells) - tol <= g <= max(hi for _, hi in cells) + tol for g, (_, cells) in zip(got, probe)]
                r.expect(all(ok), "reproduces-the-density", case, got=got, want=probe)
                # positions with density on both sides are reached at exactly their probability
                inner = [i for i in range(len(cdf)) if (i == 0 or i - 1 in held) and (i == len(cdf) - 1 or i in held)]
                got = np.asarray(m.apply(np.array([cdf[i] for i in inner] + [0.5], dtype=F)))[:-1]
                want = [x[i] for i in inner]
                r.expect(np.allclose(got, want, rtol=0, atol=tol), "quantiles-of-the-density", case, got=got, want=want)
    # the same numbers declared as an inverse cdf are left alone
    for cs, v in [((0.0, 0.25, 1.0), (3.0, 5.0, 6.0)), ((0.1, 0.1, 1.0), (3.0, 5.0, 6.0))]:
        with r.guard("cdf", cs):
            m = build(r, dict(coordinate_type="point", coordinate_name="cdf", coordinate_system=list(cs), map=list(v)), "LERP")
            r.case(("cdf", cs))
            r.expect(np.allclose(m.coordinate_system, cs) and np.allclose(m.map, v), "cdf-left-alone", cs)
    r.part("densities", cases=n)


def run(r):
    r.rule = "one case per map file x method; accepted files are evaluated at every declared node"
    r.assumptions = ["the shape of the values matches the declared coordinates"]
    check_point(r)
    check_regbin(r)
    check_broken_files(r)
    check_pdf(r)
