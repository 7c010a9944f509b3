"""C06: every event lands in exactly the bin that contains it."""

import itertools
import os

import numpy as np

import appletree as apt
from appletree import hist as H
from mc import toys

F = np.float32
INF = float("inf")
NAN = float("nan")


def near(v):
    if v == 0:  # the numerical backend flushes denormal numbers to zero
        return [-2e-38, 2e-38]
    return [float(np.nextafter(F(v), F(-1e30))), float(np.nextafter(F(v), F(1e30)))]


def allowed_1d(edges, x):
    """Bin indices in which an event may be counted; None in the set: it may be counted nowhere."""
    edges = [float(e) for e in edges]
    if not np.isfinite(x) or x < edges[0] or x > edges[-1]:
        return {None}
    inside = [i for i in range(len(edges) - 1) if edges[i] < x < edges[i + 1]]
    if inside:
        return {inside[0]}
    # on an edge: any of the bins that touch it; on the outermost edges it may be dropped
    touch = {i for i in range(len(edges) - 1) if edges[i] == x or edges[i + 1] == x}
    if x in (edges[0], edges[-1]):
        touch.add(None)
    return touch


def allowed_2d(ex, ey, x, y):
    out = set()
    if np.isnan(x) or np.isnan(y):
        return {None}
    for i in allowed_1d(ex, x):
        if i is None:
            out.add(None)
            continue
        for j in allowed_1d(ey[i], y):
            out.add(None if j is None else (i, j))
    return out


def queries(edges, far=True):
    pts = []
    e = sorted(set(float(v) for v in edges))
    for v in e:
        pts += [v] + near(v)
    pts += [(a + b) / 2 for a, b in zip(e, e[1:])]
    pts += [e[0] - 1.0, e[-1] + 1.0]
    if far:
        pts += [INF, -INF, NAN, 1e30, -1e30]
    return [float(F(p)) for p in pts]


def place(hist):
    """Where a single event of weight 1 landed."""
    h = np.asarray(hist)
    nz = np.argwhere(h != 0)
    if len(nz) == 0:
        return None
    if len(nz) > 1:
        return "many"
    idx = tuple(int(v) for v in nz[0])
    if h[idx] != 1:
        return "weight"
    return idx if len(idx) > 1 else idx[0]


def edge_sets(thorough):
    lat = [0.0, 1.0, 2.5, 3.0] + ([4.0, 7.0] if thorough else [])
    for k in (2, 3, 4):
        yield from itertools.combinations(lat, k)
    yield (-3.0, -1.0, 0.0, 0.5)
    yield (2.0**-10, 1.0, 1024.0, 2.0**20)
    yield (0.0, 1.0, 1.0, 2.0)  # an empty bin
    yield (0.0, 0.0, 1.0)
    yield (0.0, 1.0, 1.0)


def check_1d(r):
    n = 0
    for edges in edge_sets(r.thorough):
        e = np.array(edges, dtype=F)
        qs = queries(edges)
        where = {}
        for x in qs:
            case = ("1d", edges, x)
            with r.guard("irreg-1d", case):
                h = H.make_hist_irreg_bin_1d(np.array([x], dtype=F), e, np.ones(1, dtype=F))
                r.case(case)
                n += 1
                r.expect(h.shape == (len(edges) - 1,), "shape", case, got=h.shape)
                w = place(h)
                where[x if x == x else "nan"] = w
                r.expect(w in allowed_1d(edges, x), "event-in-its-bin", case, got=w)
            with r.guard("mesh-1d", case):
                if len(set(edges)) == len(edges):
                    h = H.make_hist_mesh_grid(
                        np.array([[x]], dtype=F), bins=(e,), weights=np.ones(1, dtype=F)
                    )
                    r.expect(h.shape == (len(edges) - 1,), "mesh-shape", case, got=h.shape)
                    r.expect(place(h) in allowed_1d(edges, x), "mesh-event-in-its-bin", case, got=place(h))
        # events of one sample do not influence each other; weights are exact powers of two
        for a, b in itertools.product(qs, repeat=2):
            case = ("1d-pair", edges, a, b)
            for wa, wb in ((1.0, 2.0), (0.0, 4.0), (-1.0, 2.0)):
                with r.guard("irreg-1d-pair", case):
                    h = np.asarray(
                        H.make_hist_irreg_bin_1d(
                            np.array([a, b], dtype=F), e, np.array([wa, wb], dtype=F)
                        )
                    )
                    want = np.zeros(len(edges) - 1)
                    for x, w in ((a, wa), (b, wb)):
                        i = where[x if x == x else "nan"]
                        if i is not None:
                            want[i] += w
                    r.case(case + (wa, wb))
                    n += 1
                    r.expect(np.array_equal(h, want), "events-add-up", case, got=h, want=want, w=(wa, wb))
            if not r.thorough and len(edges) > 3 and edges[0] == 0.0 and a != qs[0]:
                break
    r.part("1d", cases=n)


def slices(lat, nx, ny):
    """All choices of a second-axis binning with ny bins for each of nx slices."""
    return itertools.product(itertools.combinations(lat, ny + 1), repeat=nx)


def single_2d(points, ex, ey):
    """Histogram of each point alone."""
    import jax

    one = np.ones(1, dtype=F)
    try:
        return np.asarray(jax.vmap(lambda p: H.make_hist_irreg_bin_2d(p[None, :], ex, ey, one))(points))
    except Exception:
        return np.stack([np.asarray(H.make_hist_irreg_bin_2d(p[None, :], ex, ey, one)) for p in points])


def check_2d(r):
    n = 0
    xs_sets = [(0.0, 1.0), (0.0, 1.0, 3.0)] + ([(-1.0, 0.5, 1.0, 2.0)] if r.thorough else [])
    lat = [0.0, 1.0, 2.0, 4.0]
    for ex in xs_sets:
        for ny in (1, 2, 3):
            combos = list(slices(lat, len(ex) - 1, ny))
            if len(combos) > 40 and not r.thorough:
                combos = combos[::3] + [combos[-1]]
            for ey in combos:
                qx = queries(ex)
                qy = queries([v for s in ey for v in s])
                pts = [(x, y) for x in qx for y in qy]
                # one event at a time, vectorised: event k gets its own histogram
                arr = np.array(pts, dtype=F)
                case0 = ("2d", ex, ey)
                with r.guard("irreg-2d", case0):
                    hs = single_2d(arr, np.array(ex, dtype=F), np.array(ey, dtype=F))
                    r.expect(hs.shape[1:] == (len(ex) - 1, ny), "shape-2d", case0, got=hs.shape)
                    landed = []
                    for (x, y), h in zip(pts, hs):
                        w = place(h)
                        landed.append(w)
                        n += 1
                        r.expect(w in allowed_2d(ex, ey, x, y), "event-in-its-cell", case0 + ((x, y),), got=w)
                    r.case(case0)
                    # the whole lattice as one sample, weights 1..4
                    wts = np.array([1 + (i % 4) for i in range(len(pts))], dtype=F)
                    h = np.asarray(
                        H.make_hist_irreg_bin_2d(arr, np.array(ex, dtype=F), np.array(ey, dtype=F), wts)
                    )
                    want = np.zeros((len(ex) - 1, ny))
                    for w, wt in zip(landed, wts):
                        if w is not None and w != "many":
                            want[w] += wt
                    r.expect(np.array_equal(h, want), "events-add-up-2d", case0, got=h, want=want)
    r.part("2d", cases=n)
    n = 0
    for ex, ey in itertools.product(
        [(0.0, 1.0), (0.0, 1.0, 3.0), (-1.0, 0.5, 2.0)], [(0.0, 2.0), (0.0, 1.0, 2.0, 4.0)]
    ):
        pts = [(x, y) for x in queries(ex) for y in queries(ey)]
        for x, y in pts:
            case = ("mesh", ex, ey, x, y)
            with r.guard("mesh-2d", case):
                h = H.make_hist_mesh_grid(
                    np.array([[x, y]], dtype=F),
                    bins=(np.array(ex, dtype=F), np.array(ey, dtype=F)),
                    weights=np.ones(1, dtype=F),
                )
                r.case(case)
                n += 1
                r.expect(h.shape == (len(ex) - 1, len(ey) - 1), "mesh-shape-2d", case, got=h.shape)
                ok = place(h) in allowed_2d(ex, [ey] * (len(ex) - 1), x, y)
                r.expect(ok, "mesh-event-in-its-cell", case, got=place(h))
    r.part("meshgrid", cases=n)


def check_sizes(r):
    """Binnings and samples of growing size; the bins are of different widths and wider than the steps of float32."""
    n = 0
    for nx in (5, 6, 7, 9, 16, 33, 64, 130, 300):
        widths = [0.25 + 0.125 * (i * i % 5) for i in range(nx)]
        ex = np.concatenate([[-2.0], -2.0 + np.cumsum(widths)])
        mid = (ex[:-1] + ex[1:]) / 2
        for events in (nx, 10 * nx, 70_000):
            # event k sits in bin perm(k), with weights that tell the bins apart
            idx = (np.arange(events) * 7 + 3) % nx if nx % 7 else np.arange(events) % nx
            w = 1.0 + idx % 3
            want = np.zeros(nx)
            np.add.at(want, idx, w)
            case = ("size", nx, events)
            r.case(case)
            n += 1
            with r.guard("size-1d", case):
                x = mid[idx].astype(F)
                h = np.asarray(H.make_hist_irreg_bin_1d(x, ex.astype(F), w.astype(F)))
                r.expect(np.allclose(h, want, rtol=1e-5), "events-add-up", case)
                h = np.asarray(H.make_hist_mesh_grid(x[:, None], bins=(ex.astype(F),), weights=w.astype(F)))
                r.expect(np.allclose(h, want, rtol=1e-5), "mesh-events-add-up", case)
            ny = max(2, nx // 3)
            ey = np.array([np.concatenate([[0.0], np.cumsum([0.25 + 0.125 * ((i + j * j) % 4) for j in range(ny)])]) - i % 3 for i in range(nx)])
            iy = (np.arange(events) * 5 + idx * 3) % ny
            want = np.zeros((nx, ny))
            np.add.at(want, (idx, iy), w)
            with r.guard("size-2d", case):
                y = (ey[idx, iy] + ey[idx, iy + 1]) / 2
                s = np.stack([mid[idx], y], axis=1).astype(F)
                h = np.asarray(H.make_hist_irreg_bin_2d(s, ex.astype(F), ey.astype(F), w.astype(F)))
                r.expect(h.shape == want.shape and np.allclose(h, want, rtol=1e-5), "events-add-up-2d", case)
                e0 = ey[0]
                y = (e0[iy] + e0[iy + 1]) / 2
                s = np.stack([mid[idx], y], axis=1).astype(F)
                h = np.asarray(H.make_hist_mesh_grid(s, bins=(ex.astype(F), e0.astype(F)), weights=w.astype(F)))
                r.expect(h.shape == want.shape and np.allclose(h, want, rtol=1e-5), "mesh-events-add-up-2d", case)
    r.part("sizes", cases=n)


def check_dispatch(r):
    """Data histogram, fixed component and simulated component use the same convention."""
    n = 0
    jobs = []
    e1 = [0.0, 1.0, 2.0, 4.0]
    for kind in ("irreg", "meshgrid"):
        jobs.append((kind, "a", [e1], [[v] for v in queries(e1, far=False)]))
    ex = [0.0, 1.0, 3.0]
    ey = [[0.0, 1.0, 2.0], [0.5, 1.5, 4.0]]
    pts = [[x, y] for x in queries(ex, False) for y in queries(ey[0] + ey[1], False)]
    jobs.append(("irreg", ["a", "b"], [ex, ey], pts))
    jobs.append(("meshgrid", ["a", "b"], [ex, ey[0]], pts))
    for kind, on, bins, pts in jobs:
        dim = len(pts[0])
        cols = ["a", "b"][:dim]
        clip = {"clip": [-5.0, 9.0]} if dim == 1 else {"x_clip": [-5.0, 9.0], "y_clip": [-5.0, 9.0]}
        path = os.path.join(r.scratch, f"c06_{kind}{dim}.csv")
        # every prefix pattern of events alone and the whole lattice at once
        groups = [[p] for p in pts] + [pts, pts[::2]]
        if dim == 2 and not r.thorough:
            groups = [[p] for p in pts[::3]] + [pts, pts[::2]]
        toys.fixed_cls("C6Fixed", "on_sim")
        for g in groups:
            case = ("dispatch", kind, dim, g if len(g) < 3 else len(g))
            with r.guard("dispatch", case):
                toys.write_csv(path, {c: [float(p[i]) for p in g] for i, c in enumerate(cols)})
                llh = apt.Likelihood(
                    name="c6", data_file_name=path, bins_type=kind, bins_on=on, bins=bins, **clip
                )
                data = np.asarray(llh.data_hist)
                r.case(case)
                n += 1
                # model side: same events through the binning of a component
                comp = apt.ComponentSim(
                    name="m", llh_name="c6", bins=toys.bins_of(llh, path), bins_type=llh.component_bins_type
                )
                comp.add_eps_to_hist = False
                model = np.asarray(comp.implement_binning(np.array(g, dtype=F), np.ones(len(g), dtype=F)))
                r.expect(
                    np.array_equal(data, model), "data-and-model-same-convention", case, data=data, model=model
                )
                llh.register_component(apt.components.C6Fixed, "fix", file_name=path)
                fixed = np.asarray(llh["fix"].simulate_hist({"fix_rate": float(len(g))}))
                r.expect(np.allclose(data, fixed), "data-and-fixed-same-convention", case, data=data, fixed=fixed)
                want = np.zeros(data.shape)
                unsure = 0
                for p in g:
                    a = (
                        allowed_1d(bins[0], p[0])
                        if dim == 1
                        else allowed_2d(
                            bins[0], bins[1] if kind == "irreg" else [bins[1]] * (len(bins[0]) - 1), *p
                        )
                    )
                    if len(a) > 1:
                        unsure += 1
                    elif None not in a:
                        want[next(iter(a))] += 1
                extra = data - want
                r.expect(
                    (extra >= 0).all() and extra.sum() <= unsure, "data-histogram", case, got=data, want=want
                )
    r.part("dispatch", cases=n)


def run(r):
    r.rule = "one case per sample/binning; each histogram is compared with a per-event reference"
    r.assumptions = ["coordinates and edges are normal float32 numbers (the backend flushes denormals)", "an event exactly on the outermost edge may be kept or dropped"]
    toys.reset()
    check_1d(r)
    check_2d(r)
    check_sizes(r)
    check_dispatch(r)
