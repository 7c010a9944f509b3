"""C09: every interpolator reproduces nodes, stays in range and uses its own cell."""

import itertools
import os

import numpy as np

import appletree as apt
from appletree import interpolation as I
from mc import toys

F = np.float32


# ------------------------------------------------------------------ references (float64)
def bracket(nodes, x):
    """Cells (pairs of node indices) a point may use; both neighbours if it is (almost) on a node."""
    n = len(nodes)
    if x <= nodes[0]:
        first = [0]
    elif x >= nodes[-1]:
        first = [n - 2]
    else:
        first = [i for i in range(n - 1) if nodes[i] <= x <= nodes[i + 1]]
    tol = 1e-5 * (abs(nodes[-1] - nodes[0]) + abs(x) * 1e-2)
    for i in range(n - 1):
        if i not in first and (abs(x - nodes[i]) < tol or abs(x - nodes[i + 1]) < tol):
            first.append(i)
    return first


def outside(nodes, x):
    return x < nodes[0] or x > nodes[-1]


def nearest(nodes, x):
    d = [abs(x - v) for v in nodes]
    m = min(d)
    tol = 1e-5 * (abs(nodes[-1] - nodes[0]) + m * 1e-1)
    return [i for i, v in enumerate(d) if v <= m + tol]


def lerp_axis(nodes, x):
    """Clipped weight of each node on one axis."""
    x = min(max(x, nodes[0]), nodes[-1])
    i = min(max(int(np.searchsorted(nodes, x, side="right")) - 1, 0), len(nodes) - 2)
    t = (x - nodes[i]) / (nodes[i + 1] - nodes[i])
    w = np.zeros(len(nodes))
    w[i] += 1 - t
    w[i + 1] += t
    return w


def ref_values(method, axes, vals, x):
    """Acceptable values at x as a list of (lo, hi) intervals."""
    ndim = len(axes)
    tol = 2e-4 * float(vals.max() - vals.min()) + 3e-6 * float(np.abs(vals).max()) + 1e-12
    if method == "NN":
        return [(v - tol, v + tol) for v in (vals[i] for i in itertools.product(*[nearest(a, c) for a, c in zip(axes, x)]))]
    if method == "LERP" or ndim == 1:
        v = vals
        for a, c in zip(axes, x):
            v = np.tensordot(lerp_axis(a, c), v, axes=(0, 0))
        return [(float(v) - tol, float(v) + tol)]
    out = []
    for cell in itertools.product(*[bracket(a, c) for a, c in zip(axes, x)]):
        corners = list(itertools.product(*[(i, i + 1) for i in cell]))
        vs = np.array([vals[c] for c in corners])
        if any(outside(a, c) for a, c in zip(axes, x)):
            out.append((vs.min() - tol, vs.max() + tol))
            continue
        d = np.array([np.sqrt(sum((a[i] - c) ** 2 for a, i, c in zip(axes, corner, x))) for corner in corners])
        scale = np.sqrt(sum((a[-1] - a[0]) ** 2 for a in axes))
        if d.min() < 1e-9 * scale:
            v = vs[d.argmin()]
            out.append((v - tol, v + tol))
        elif d.min() < 1e-4 * scale:
            # so close to a node that single precision decides the weight
            v = vs[d.argmin()]
            out.append((min(v, vs.min()) - tol, max(v, vs.max()) + tol))
        else:
            v = float((vs / d).sum() / (1 / d).sum())
            out.append((v - tol, v + tol))
    # beyond the last node on an axis the phantom cell repeats the edge nodes
    if any(c >= a[-1] - 1e-5 * abs(a[-1] - a[0]) for a, c in zip(axes, x)):
        sub = []
        for a, c in zip(axes, x):
            if c >= a[-1] - 1e-5 * abs(a[-1] - a[0]):
                sub.append([len(a) - 1])
            else:
                sub.append(sorted({k for i in bracket(a, c) for k in (i, i + 1)}))
        vs = [vals[i] for i in itertools.product(*sub)]
        out.append((min(vs) - tol, max(vs) + tol))
    return out


def on_node(axes, x):
    idx = []
    for a, c in zip(axes, x):
        hit = [i for i, v in enumerate(a) if v == c]
        if not hit:
            return None
        idx.append(hit[0])
    return tuple(idx)


def queries(nodes, log=False, rich=True):
    n = [float(v) for v in nodes]
    span = n[-1] - n[0]
    q = list(n)
    for a, b in zip(n, n[1:]):
        q += [a + f * (b - a) for f in ((0.25, 0.5, 0.8) if rich else (0.3,))]
    if log:
        q += [n[0] / 3, n[-1] * 7, n[0] * 1e-3]
    else:
        q += [n[0] - 0.5 * span, n[-1] + 0.7 * span, n[0] - 1e3, n[-1] + 1e3]
    return [float(F(v)) for v in q] if rich else [float(F(v)) for v in q]


# ------------------------------------------------------------------ driving the code
def build(r, content, method, i=[0]):
    toys.reset()
    path = os.path.join(r.scratch, "map.json")
    toys.write_json(path, content)
    m = apt.Map(name="c9map", method=method, default=path)
    m.build("llh")
    return m


def judge(r, got, method, axes, vals, pts, case, single=None):
    """axes: node positions in the space in which the interpolation happens, as are the points."""
    got = np.asarray(got, dtype=float)
    r.expect(got.shape == (len(pts),), "one-value-per-point", case, got=got.shape)
    tol = 1e-3 * float(vals.max() - vals.min()) + 3e-6 * float(np.abs(vals).max()) + 1e-12
    for g, x in zip(got, pts):
        node = on_node(axes, x)
        if node is not None:
            r.expect(abs(g - vals[node]) <= tol, "node-value", (case, x), got=g, want=vals[node])
        ok = any(lo <= g <= hi for lo, hi in ref_values(method, axes, vals, x))
        r.expect(ok, f"{method}-value", (case, x), got=g, want=ref_values(method, axes, vals, x)[:4])
        r.expect(vals.min() - tol <= g <= vals.max() + tol, "stays-in-range", (case, x), got=g)
    r.case(case)


def batch_check(r, fn, arr, got, case):
    """Order, company and batch size of the other points do not matter."""
    got = np.asarray(got)
    rev = np.asarray(fn(arr[::-1]))[::-1]
    r.expect(np.allclose(rev, got, rtol=1e-5, atol=1e-6), "batch-order-independent", case, got=rev, want=got)
    k = len(arr) // 2
    one = np.asarray(fn(arr[k : k + 1]))
    r.expect(np.allclose(one, got[k : k + 1], rtol=1e-5, atol=1e-6), "points-independent", case, got=one, want=got[k])


def check_point(r):
    n = 0
    lat = [0.5, 1.0, 2.5, 4.0, 8.0]
    sizes = (2, 3, 4, 5) if r.thorough else (2, 3, 4)
    valset = [-1.0, 0.0, 2.0, 5.0] if r.thorough else [-1.0, 0.0, 5.0]
    for k in sizes:
        for nodes in r.mine(itertools.combinations(lat, k)):
            vs = list(itertools.product(valset, repeat=k))
            if k >= 4:
                vs = vs[:: (7 if k == 4 else 41)]
            for v in vs:
                vals = np.array(v)
                for kind in ("point", "log_point"):
                    if kind == "log_point" and (k > 3 or v[0] != valset[-1]):
                        continue
                    log = kind == "log_point"
                    q = queries(nodes, log)
                    ax = [np.log10(nodes) if log else np.array(nodes)]
                    pts = [(float(np.log10(x)) if log else x,) for x in q]
                    for method in ("IDW", "NN", "LERP"):
                        case = (kind, method, nodes, v)
                        with r.guard("point-map", case):
                            m = build(
                                r,
                                dict(coordinate_type=kind, coordinate_name="x", coordinate_system=list(nodes), map=list(v)),
                                method,
                            )
                            arr = np.array(q, dtype=F)
                            got = m.apply(arr)
                            judge(r, got, method, ax, vals, pts, case)
                            if n % 7 == 0:
                                batch_check(r, m.apply, arr, got, case)
                            n += 1
    # repeated coordinates (a cumulative distribution with a flat part): any of the values there
    for nodes, v in r.mine([((0.0, 0.5, 0.5, 1.0), (1.0, 2.0, 7.0, 9.0)), ((0.0, 0.0, 1.0), (3.0, 4.0, 5.0)), ((0.0, 1.0, 1.0), (3.0, 4.0, 5.0))]):
        for method in ("IDW", "NN", "LERP"):
            case = ("repeated", method, nodes, v)
            with r.guard("repeated", case):
                m = build(r, dict(coordinate_type="point", coordinate_name="x", coordinate_system=list(nodes), map=list(v)), method)
                q = queries(sorted(set(nodes)))
                got = np.asarray(m.apply(np.array(q, dtype=F)))
                r.case(case)
                n += 1
                r.expect(np.isfinite(got).all() and (got >= min(v)).all() and (got <= max(v)).all(), "repeated-in-range", case, got=got)
                for x, g in zip(q, got):
                    near = [b for a, b in zip(nodes, v) if a == x]
                    if near:
                        r.expect(min(near) - 1e-4 <= g <= max(near) + 1e-4, "repeated-node", (case, x), got=g)
    r.part("point maps", maps=n)


def value_sets(shape, thorough):
    size = int(np.prod(shape))
    for i in range(size):  # every node alone: decides which nodes a point uses and with what weight
        v = np.zeros(size)
        v[i] = 1.0
        yield v.reshape(shape)
    yield np.full(shape, 2.5)
    yield np.array([(7 * i * i + 3 * i) % 11 - 3.0 for i in range(size)]).reshape(shape)
    grids = np.meshgrid(*[np.arange(s, dtype=float) for s in shape], indexing="ij")
    for k, g in enumerate(grids):
        yield (k + 1.0) * g - 0.5
    if thorough:
        yield np.array([1e6 * (-1.0) ** i for i in range(size)]).reshape(shape)
        yield np.array([1e-6 * i for i in range(size)]).reshape(shape)


def check_regbin(r):
    n = 0
    boxes = [([0.0, -1.0, 2.0], [3.0, 4.0, 2.5]), ([0.5, 1.0, 10.0], [8.0, 100.0, 20.0])]
    shapes = [(2,), (3,), (5,), (2, 2), (2, 3), (5, 2), (4, 3), (2, 2, 2), (2, 5, 2), (3, 2, 4)]
    if r.thorough:
        shapes += [(3, 3), (3, 2), (2, 3, 2), (2, 5), (3, 3, 3), (2, 2, 5)]
    for shape in shapes:
        ndim = len(shape)
        for bi, (lo, hi) in enumerate(boxes):
            lo, hi = lo[:ndim], hi[:ndim]
            kinds = [("regbin",) * ndim]
            if bi == 1:
                kinds = list(itertools.product(("regbin", "log_regbin"), repeat=ndim))[1:]
                if ndim == 3 and not r.thorough:
                    kinds = [kinds[0], kinds[3], kinds[-1]]
            for kind in r.mine(kinds):
                tr = [np.log10 if k == "log_regbin" else (lambda z: np.asarray(z, dtype=float)) for k in kind]
                axes = [np.linspace(float(t(a)), float(t(b)), s) for t, a, b, s in zip(tr, lo, hi, shape)]
                real = [10**a if k == "log_regbin" else a for a, k in zip(axes, kind)]
                qs = [queries(a, k == "log_regbin", rich=ndim < 3) for a, k in zip(real, kind)]
                arr = np.array(list(itertools.product(*qs)), dtype=F)
                pts = [tuple(float(t(np.float64(c))) for t, c in zip(tr, p)) for p in arr]
                # a node stays a node after rounding to single precision
                snap = []
                for p in pts:
                    s = []
                    for a, c in zip(axes, p):
                        j = int(np.abs(a - c).argmin())
                        s.append(float(a[j]) if abs(a[j] - c) < 1e-6 * (1 + abs(c)) else c)
                    snap.append(tuple(s))
                feed = arr[:, 0] if ndim == 1 else arr
                sets = list(value_sets(shape, r.thorough))
                if not r.thorough and (ndim == 3 or bi == 1) and len(sets) > 8:
                    sets = sets[:: max(1, len(sets) // 7)]
                for vi, vals in enumerate(sets):
                    for method in ("IDW", "NN", "LERP"):
                        kk = list(kind) if len(set(kind)) > 1 or vi % 2 else kind[0]
                        case = (kk, method, shape, bi, vi)
                        with r.guard("regbin-map", case):
                            m = build(
                                r,
                                dict(
                                    coordinate_type=kk,
                                    coordinate_name=[f"x{i}" for i in range(ndim)],
                                    coordinate_lowers=lo,
                                    coordinate_uppers=hi,
                                    map=vals.tolist(),
                                ),
                                method,
                            )
                            got = m.apply(feed)
                            judge(r, got, method, axes, vals, snap, case)
                            if vi == 0:
                                batch_check(r, m.apply, feed, got, case)
                            n += 1
    r.part("regular maps", maps=n)


def check_sizes(r):
    """Longer maps: unequal nodes in one dimension, regular ones in up to three."""
    n = 0
    for k in r.mine((6, 7, 9, 16, 17, 33, 64, 100)):
        nodes = [float(F(v)) for v in np.cumsum([0.5 + 0.25 * (i * i % 5) for i in range(k)])]
        vals = np.array([(7 * i * i + 3 * i) % 11 - 3.0 + i for i in range(k)])
        for kind, method in itertools.product(("point", "log_point"), ("IDW", "NN", "LERP")):
            log = kind == "log_point"
            q = queries(nodes, log)
            case = ("long", kind, method, k)
            with r.guard("point-map", case):
                m = build(r, dict(coordinate_type=kind, coordinate_name="x", coordinate_system=nodes, map=vals.tolist()), method)
                ax = [np.log10(nodes) if log else np.array(nodes)]
                judge(r, m.apply(np.array(q, dtype=F)), method, ax, vals, [(float(np.log10(x)) if log else x,) for x in q], case)
                n += 1
    for shape in r.mine([(9,), (17,), (40,), (128,), (8, 6), (3, 17), (20, 2), (6, 3, 5), (2, 9, 4), (12, 2, 2)]):
        ndim = len(shape)
        lo, hi = [1.0, -2.0, 10.0][:ndim], [8.0, 5.0, 20.0][:ndim]
        axes = [np.linspace(a, b, s) for a, b, s in zip(lo, hi, shape)]
        size = int(np.prod(shape))
        vals = np.array([(7 * i * i + 3 * i) % 11 - 3.0 + 0.5 * i for i in range(size)]).reshape(shape)
        qs = []
        for a in axes:
            q = list(a) + [x + 0.3 * (y - x) for x, y in zip(a, a[1:])] + [a[0] - 2.0, a[-1] + 3.0]
            qs.append(q if ndim < 3 else q[:: 2])
        arr = np.array(list(itertools.product(*qs)), dtype=F)
        pts = []
        for p in arr.astype(float):
            pts.append(tuple(float(a[np.abs(a - c).argmin()]) if np.abs(a - c).min() < 1e-6 * (1 + abs(c)) else c for a, c in zip(axes, p)))
        feed = arr[:, 0] if ndim == 1 else arr
        for method in ("IDW", "NN", "LERP"):
            case = ("long", method, shape)
            with r.guard("regbin-map", case):
                m = build(
                    r,
                    dict(coordinate_type="regbin", coordinate_name=[f"x{i}" for i in range(ndim)], coordinate_lowers=lo, coordinate_uppers=hi, map=vals.tolist()),
                    method,
                )
                judge(r, m.apply(feed), method, axes, vals, pts, case)
                n += 1
    r.part("long maps", maps=n)


def check_scales(r):
    """The same maps in other units: coordinates and values of very different sizes."""
    n = 0
    for scale in r.mine((1e-12, 1e-9, 1e-4, 1e4, 1e9, 1e12)):
        nodes = [float(F(v)) for v in np.array([1.0, 2.5, 4.0, 80.0]) * scale]
        vals = np.array([5.0, -1.0, 0.0, 2.0])
        for kind, method in itertools.product(("point", "log_point"), ("IDW", "NN", "LERP")):
            log = kind == "log_point"
            q = nodes + [float(F(a + f * (b - a))) for a, b in zip(nodes, nodes[1:]) for f in (0.25, 0.8)] + [float(F(nodes[0] / 3)), float(F(nodes[-1] * 7))]
            case = ("scale", kind, method, scale)
            with r.guard("point-map", case):
                m = build(r, dict(coordinate_type=kind, coordinate_name="x", coordinate_system=nodes, map=vals.tolist()), method)
                ax = [np.log10(nodes) if log else np.array(nodes)]
                judge(r, m.apply(np.array(q, dtype=F)), method, ax, vals, [(float(np.log10(x)) if log else x,) for x in q], case)
                n += 1
        for shape in ((4,), (3, 4)):
            ndim = len(shape)
            lo, hi = [scale, 2 * scale][:ndim], [100 * scale, 64 * scale][:ndim]
            axes = [np.linspace(np.log10(a), np.log10(b), s) for a, b, s in zip(lo, hi, shape)]
            size = int(np.prod(shape))
            grid = np.array([(7 * i * i + 3 * i) % 11 - 3.0 for i in range(size)]).reshape(shape)
            qs = [list(a) + [x + 0.3 * (y - x) for x, y in zip(a, a[1:])] + [a[0] - 0.5, a[-1] + 0.5] for a in axes]
            pts = list(itertools.product(*qs))
            arr = np.array([[10.0**c for c in p] for p in pts], dtype=F)
            feed = arr[:, 0] if ndim == 1 else arr
            for method in ("IDW", "NN", "LERP"):
                case = ("scale", "log_regbin", method, shape, scale)
                with r.guard("regbin-map", case):
                    m = build(
                        r,
                        dict(coordinate_type="log_regbin", coordinate_name=[f"x{i}" for i in range(ndim)], coordinate_lowers=lo, coordinate_uppers=hi, map=grid.tolist()),
                        method,
                    )
                    judge(r, m.apply(feed), method, axes, grid, pts, case)
                    n += 1
    r.part("other units", maps=n)


def check_knn(r):
    """Inverse-distance mean over the k nearest reference points, any dimension."""
    n = 0
    for dim in (1, 2, 3):
        base = [(0.0, 0.0, 0.0), (1.0, 0.2, 0.1), (0.3, 2.0, -1.0), (3.0, 1.1, 0.7), (-2.0, -0.6, 4.0)]
        for m in r.mine((3, 4, 5)):
            for ref in itertools.combinations(base, m):
                ref = np.array([p[:dim] for p in ref])
                val = np.array([(3 * i * i - 5 * i) % 7 - 2.0 for i in range(m)])
                q = [p for p in ref] + [np.array(p[:dim]) for p in [(0.4, 0.3, 0.2), (5.0, 5.2, 1.0), (-1.0, 0.7, 2.3), (0.9, 1.9, -0.3)]]
                for k in (1, 2, 3):
                    case = ("knn", dim, m, k, ref.tolist())
                    with r.guard("knn", case):
                        got = np.asarray(I.map_interpolator_knn(np.array(q, dtype=F), ref.astype(F), val.astype(F), k))
                        r.case(case)
                        n += 1
                        for x, g in zip(q, got):
                            d = np.sqrt(((ref - x) ** 2).sum(axis=1))
                            order = np.argsort(d)
                            if k < m and d[order[k]] - d[order[k - 1]] < 1e-3:
                                continue  # a tie decides which neighbour is used
                            d = np.maximum(d[order[:k]], 1e-6)
                            want = (val[order[:k]] / d).sum() / (1 / d).sum()
                            r.expect(abs(g - want) < 2e-3, "knn-value", (case, x), got=g, want=want)
    r.part("k nearest", cases=n)


def run(r):
    r.rule = "one case per map x method; every map is evaluated on its nodes, in its cells and outside"
    r.assumptions = [
        "single precision: points closer to a cell face than 1e-5 of the map may use either cell",
        "inverse-distance maps in 2D/3D continue outside with values of the nearest edge cell",
    ]
    check_point(r)
    check_regbin(r)
    check_sizes(r)
    check_scales(r)
    check_knn(r)
