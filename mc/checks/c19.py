"""C19: likelihood binning keeps all selected data and rejects malformed bins."""

import itertools
import math
import os
import warnings

import numpy as np
import pandas as pd
from jax import numpy as jnp

import appletree as apt
from appletree.utils import get_equiprob_bins_1d, get_equiprob_bins_2d
from mc import toys

F = np.float32
INF, NAN = float("inf"), float("nan")
KEY = jnp.array([0, 7], dtype=jnp.uint32)


def make_files(r):
    r.n_files = 0


def data_file(r, columns, fmt="csv"):
    """columns in the given order."""
    path = os.path.join(r.scratch, f"d.{fmt}")
    if fmt == "csv":
        toys.write_csv(path, columns)
    else:
        pd.DataFrame(columns).to_pickle(path)
    return path


def make(r, columns, fmt="csv", **conf):
    return apt.Likelihood(name="c19", data_file_name=data_file(r, columns, fmt), **conf)


def bins_of(r, llh):
    return toys.bins_of(llh, os.path.join(r.scratch, "d.csv"))


def inside(v, clip):
    return clip[0] < v < clip[1]


def non_decreasing(e):
    e = np.asarray(e, dtype=float)
    return bool(np.all(e[1:] >= e[:-1]))


def near(a, b):
    return abs(float(a) - float(b)) <= 1e-6 * max(1.0, abs(float(b)))


def judge_data(r, llh, rows, case):
    got = np.asarray(llh.data, dtype=float)
    want = np.array(rows, dtype=float).reshape(len(rows), got.shape[1] if got.ndim == 2 else 1)
    r.expect(got.shape == want.shape and np.array_equal(got, want), "data-strictly-inside-the-clip-range", case, got=got, want=want)


def count_range(rows, edges_of):
    """Fewest and most events inside the edges, as events on the outermost edges are a matter of convention."""
    lo = hi = 0
    for row in rows:
        e = edges_of(row)
        if e is None:
            continue
        strict = all(a < v < b for v, (a, b) in zip(row, e))
        closed = all(a <= v <= b for v, (a, b) in zip(row, e))
        lo += strict
        hi += closed
    return lo, hi


# --------------------------------------------------------------------------------------- selection
def check_select_1d(r):
    """Every data set up to a size over a lattice with the clip limits, every binning type."""
    n = 0
    lattice = [-1.0, 0.0, 0.25, 1.0, 2.5, 3.0, INF, -INF, NAN]
    size = 4 if r.thorough else 3
    clips = [(0, 3), (-1.0, 2.5), (0.25, 1.0)]
    edges = [[0.0, 1.0, 3.0], [-5, 0, 2, 9], [0.5, 0.75]]
    for k in range(1, size + 1):
        for vals in itertools.combinations_with_replacement(lattice, k):
            i = n % 3
            clip = clips[i]
            rows = [(v,) for v in vals if inside(v, clip)]
            for kind in ("mesh-int", "mesh-edges", "irreg-edges"):
                if not r.thorough and k == 3 and kind != ("mesh-int", "mesh-edges", "irreg-edges")[(n + i) % 3]:
                    continue
                bins = 3 if kind == "mesh-int" else [edges[(n // 3) % 3]]
                on = "a" if n % 2 else ["a"]
                if on == ["a"] and kind == "mesh-int":
                    bins = [3]
                case = ("select-1d", vals, clip, kind, bins, on)
                r.case(case)
                with r.guard("select", case):
                    llh = make(
                        r, {"z": [7.0 if (i + n) % 2 else NAN for i in range(k)], "a": vals}, "csv" if n % 5 else "pkl",
                        bins_type="irreg" if kind == "irreg-edges" else "meshgrid", bins_on=on, bins=bins, clip=list(clip),
                    )
                    judge_data(r, llh, rows, case)
                    e = np.asarray(llh._bins[0], dtype=float)
                    if kind == "mesh-int":
                        ok = len(e) == 4 and near(e[0], clip[0]) and near(e[-1], clip[1])
                        r.expect(ok and non_decreasing(e), "edges-cover-the-clip-range", case, got=e)
                        lo = hi = len(rows)
                    else:
                        want = edges[(n // 3) % 3]
                        r.expect(np.array_equal(e, np.array(want, dtype=float)), "edges-are-those-given", case, got=e, want=want)
                        lo, hi = count_range(rows, lambda row: [(want[0], want[-1])])
                    h = np.asarray(llh.data_hist)
                    r.expect(h.shape == (len(e) - 1,), "one-count-per-bin", case, got=h.shape)
                    r.expect(lo <= float(h.sum()) <= hi, "histogram-sums-to-the-selected-events", case, got=h, lo=lo, hi=hi)
            n += 1
    r.part("selection-1d", data_sets=n)


def check_select_2d(r):
    n = 0
    xs, ys = [0.0, 0.5, 2.0, 3.0], [-1.0, 1.0, 1.5, 4.0]
    pts = list(itertools.product(xs, ys)) + [(NAN, 1.0), (1.0, NAN), (INF, 1.0)]
    clips = [((0.0, 3.0), (-1.0, 4.0)), ((-1, 2), (0, 4)), ((0.0, 9.0), (1.0, 1.5))]
    ex = [0.0, 1.0, 3.0]
    ey = [[-1.0, 1.25, 4.0], [0.0, 0.5, 2.0]]
    for vals in [(p,) for p in pts] + list(itertools.combinations_with_replacement(pts, 2)) + [tuple(pts)]:
        xc, yc = clips[n % 3]
        rows = [p for p in vals if inside(p[0], xc) and inside(p[1], yc)]
        for kind in ("mesh-int", "mesh-edges", "irreg"):
            if len(vals) == 2 and not r.thorough and kind != ("mesh-int", "mesh-edges", "irreg")[(n // 3) % 3]:
                continue
            bins = {"mesh-int": [2, 3], "mesh-edges": [ex, [0.0, 1.25, 5.0]], "irreg": [ex, ey]}[kind]
            cols = {"q": [v[1] for v in vals], "other": [1.0] * len(vals), "p": [v[0] for v in vals]}
            if n % 2:
                cols = {"p": cols["p"], "q": cols["q"]}
            case = ("select-2d", vals, xc, yc, kind)
            r.case(case)
            with r.guard("select", case):
                llh = make(
                    r, cols, bins_type="irreg" if kind == "irreg" else "meshgrid", bins_on=["p", "q"], bins=bins,
                    x_clip=list(xc), y_clip=list(yc),
                )
                judge_data(r, llh, rows, case)
                bx, by = (np.asarray(b, dtype=float) for b in llh._bins)
                if kind == "mesh-int":
                    ok = near(bx[0], xc[0]) and near(bx[-1], xc[1]) and near(by[0], yc[0]) and near(by[-1], yc[1])
                    r.expect(ok and len(bx) == 3 and len(by) == 4 and non_decreasing(bx) and non_decreasing(by), "edges-cover-the-clip-range", case, x=bx, y=by)
                    lo = hi = len(rows)
                else:
                    r.expect(np.array_equal(bx, bins[0]) and np.array_equal(by, np.array(bins[1])), "edges-are-those-given", case, x=bx, y=by)

                    def edges(row):
                        if kind == "mesh-edges":
                            return [(0.0, 3.0), (0.0, 5.0)]
                        i = next((i for i in range(2) if ex[i] <= row[0] <= ex[i + 1]), None)
                        return None if i is None else [(ex[0], ex[-1]), (ey[i][0], ey[i][-1])]

                    lo, hi = count_range(rows, edges)
                h = np.asarray(llh.data_hist)
                ny = by.shape[-1] - 1
                r.expect(h.shape == (len(bx) - 1, ny), "one-count-per-bin", case, got=h.shape)
                r.expect(lo <= float(h.sum()) <= hi, "histogram-sums-to-the-selected-events", case, got=h, lo=lo, hi=hi)
        n += 1
    r.part("selection-2d", data_sets=n)


# --------------------------------------------------------------------------------------- equal probability
VALS = [0.125, 0.25, 1.0, 1.5, 2.5, 4.0, 7.0, 7.5, 9.0]
CLIPS = [(0.0, 10.0), (0.25, 9.0), (-3.0, 7.25)]


def counts_1d(vals, edges):
    """Events per bin; an event on an inner edge belongs to the lower bin."""
    e = np.asarray(edges, dtype=float)
    return [int(sum((a < v <= b) if i else (a <= v <= b) for v in vals)) for i, (a, b) in enumerate(zip(e[:-1], e[1:]))]


def even(counts, total, slack=1.0):
    return all(abs(c - total / len(counts)) <= slack + 1e-9 for c in counts)


def judge_equi_1d(r, edges, sel, n_bins, clip, case):
    e = np.asarray(edges, dtype=float)
    r.expect(len(e) == n_bins + 1, "number-of-equal-probability-bins", case, got=e)
    r.expect(non_decreasing(e), "edges-do-not-decrease", case, got=e)
    r.expect(near(e[0], clip[0]) and near(e[-1], clip[1]), "edges-cover-the-clip-range", case, got=e)
    c = counts_1d(sel, e)
    r.expect(sum(c) == len(sel), "every-selected-event-in-a-bin", case, got=c)
    if len(sel) > n_bins:
        r.expect(even(c, len(sel)), "equal-numbers-up-to-rounding", case, got=c, edges=e)
    elif len(sel) == n_bins:
        # the library that places the edges puts them between each event and the first one
        u = sorted(sel)
        known = np.allclose(e[1:-1], [(v + u[0]) / 2 for v in u[1:]])
        sig = "equal-numbers-up-to-rounding/as-many-bins-as-events" + ("/edges-between-each-event-and-the-first" if known else "")
        r.expect(set(c) <= {1}, sig, case, got=c, edges=e)


def check_equi_1d(r):
    n = 0
    for k in range(1, len(VALS) + 1):
        for vals in itertools.combinations(VALS, k):
            for n_bins, clip in itertools.product((1, 2, 3, 4), CLIPS):
                sel = [v for v in vals if inside(v, clip)]
                order = list(vals)[::-1] if n % 2 else list(vals[1::2]) + list(vals[::2])
                case = ("equi-1d", vals, n_bins, clip)
                n += 1
                r.case(case)
                if len(sel) < n_bins:
                    r.raises(Exception, "too-few-events", lambda: get_equiprob_bins_1d(np.array(order), n_bins, clip=clip), case)
                    continue
                with r.guard("equal-probability", case):
                    given = np.array(order)
                    e = get_equiprob_bins_1d(given, n_bins, clip=clip)
                    judge_equi_1d(r, e, sel, n_bins, clip, case)
                    r.expect(np.array_equal(given, order), "data-unchanged", case)
                    if n % (1 if r.thorough else 7) == 0:
                        llh = make(r, {"a": order}, bins_type="equiprob", bins_on="a", bins=n_bins if n % 2 else [n_bins], clip=list(clip))
                        judge_data(r, llh, [(v,) for v in order if inside(v, clip)], case)
                        edges = bins_of(r, llh)[0]
                        judge_equi_1d(r, edges, sel, n_bins, clip, case)
                        h = np.asarray(llh.data_hist)
                        r.expect(h.tolist() == counts_1d(sel, np.asarray(edges, dtype=float)), "histogram-of-the-selected-events", case, got=h)
    r.part("equal-probability-1d", cases=n)


def judge_equi_2d(r, first, second, sel, parts, clips, case):
    """first: axis that is sliced first (0 or 1); sel: rows (first, second)."""
    a = np.asarray(first, dtype=float)
    b = np.asarray(second, dtype=float)
    r.expect(a.shape == (parts[0] + 1,) and b.shape == (parts[0], parts[1] + 1), "number-of-equal-probability-bins", case, first=a.shape, second=b.shape)
    r.expect(non_decreasing(a) and all(non_decreasing(x) for x in b), "edges-do-not-decrease", case, first=a, second=b)
    ok = near(a[0], clips[0][0]) and near(a[-1], clips[0][1]) and all(near(x[0], clips[1][0]) and near(x[-1], clips[1][1]) for x in b)
    r.expect(ok, "edges-cover-the-clip-range", case, first=a, second=b)
    xs = [p[0] for p in sel]
    c = counts_1d(xs, a)
    r.expect(sum(c) == len(sel), "every-selected-event-in-a-slice", case, got=c)
    if len(sel) > parts[0]:
        r.expect(even(c, len(sel)), "first-axis-equal-numbers-up-to-rounding", case, got=c, edges=a)
    hist = []
    on_edge = any(x in a[1:-1] for x in xs)
    for i in range(parts[0]):
        ys = [p[1] for p in sel if a[i] < p[0] <= a[i + 1] or (i == 0 and p[0] == a[0])]
        cy = counts_1d(ys, b[i])
        hist.append(cy)
        r.expect(sum(cy) == len(ys), "every-event-of-a-slice-in-a-bin", case, got=cy)
        # an event on the edge of a slice may be counted with its neighbour
        if len(ys) - on_edge > parts[1]:
            r.expect(even(cy, len(ys), 1 + on_edge), "slice-equal-numbers-up-to-rounding", case, slice=i, got=cy, first=a, second=b)
    return hist


X2 = [0.5, 1.0, 2.0, 3.5, 4.0, 6.0, 7.5, 8.0]
Y2 = [-2.0, -1.0, 0.5, 1.0, 4.0, 4.5, 5.0, 8.0]


def check_equi_2d(r):
    """Every relative order of the two axes."""
    n = 0
    top = 8 if r.thorough else 7
    for size in range(3, top + 1):
        perms = itertools.permutations(range(size))
        for perm in perms:
            rows = [(X2[i], Y2[j]) for i, j in enumerate(perm)]
            # the order of the events in the file must not matter
            data = np.array(rows[::2] + rows[1::2])
            menu = [(1, 2), (2, 2), (2, 1)] if size < 6 else [(2, 2), (3, 1), (2, 3)] if size > 6 else [(2, 2), (3, 2), (2, 1), (1, 3)]
            if size > 6:
                menu = menu[n % 3 : n % 3 + 1]
            for parts, order in itertools.product(menu, ((0, 1), (1, 0))):
                clips = [((0.0, 9.0), (-3.0, 9.0)), ((0.75, 8.5), (-2.5, 7.5))][n % 2]
                sel = [p for p in rows if inside(p[0], clips[0]) and inside(p[1], clips[1])]
                first = [(p[order[0]], p[order[1]]) for p in sel]
                npart = [0, 0]
                npart[order[0]], npart[order[1]] = parts
                case = ("equi-2d", perm, parts, order, clips)
                n += 1
                per = len(sel) // parts[0]
                if per - 1 <= parts[1] or len(sel) <= parts[0]:
                    continue
                r.case(case)
                with r.guard("equal-probability-2d", case):
                    a, b = get_equiprob_bins_2d(data, npart, order=order, x_clip=clips[0], y_clip=clips[1])
                    want = judge_equi_2d(r, a, b, first, parts, (clips[order[0]], clips[order[1]]), case)
                    if order == (0, 1) and (size <= 5 or n % 97 == 0):
                        llh = make(
                            r, {"v": data[:, 1], "u": data[:, 0]}, bins_type="equiprob", bins_on=["u", "v"], bins=list(npart),
                            x_clip=list(clips[0]), y_clip=list(clips[1]),
                        )
                        judge_data(r, llh, [tuple(p) for p in data.tolist() if tuple(p) in sel], case)
                        want = judge_equi_2d(r, *bins_of(r, llh), first, parts, clips, case)
                        h = np.asarray(llh.data_hist)
                        r.expect(np.array_equal(h, want), "histogram-of-the-selected-events", case, got=h, want=want)
                        r.expect(float(h.sum()) == len(sel), "histogram-sums-to-the-selected-events", case, got=h)
    r.part("equal-probability-2d", cases=n, orders="all permutations up to %d events" % top)


def check_larger(r):
    """Data sets of growing size, in several orders, with even and uneven spacing."""
    n = 0
    for size in (9, 10, 16, 25, 37, 60, 101, 200, 400):
        for law, order in itertools.product(("even", "square", "steps"), ("up", "down", "mixed")):
            v = {"even": lambda i: 0.5 + i, "square": lambda i: 0.5 + i * i / size, "steps": lambda i: 0.25 * i + 10.0 * (i // 7)}[law]
            vals = [float(v(i)) for i in range(size)]
            rows = {"up": vals, "down": vals[::-1], "mixed": vals[1::3] + vals[::3] + vals[2::3]}[order]
            for clip in ((vals[0] - 1.0, vals[-1] + 1.0), (vals[2] - 0.01, vals[-2] + 0.01)):
                sel = [x for x in vals if inside(x, clip)]
                for n_bins in (2, 3, 5, 8, 13, 30):
                    if len(sel) <= n_bins:
                        continue
                    case = ("larger", size, law, order, clip, n_bins)
                    n += 1
                    r.case(case)
                    with r.guard("equal-probability", case):
                        e = get_equiprob_bins_1d(np.array(rows), n_bins, clip=clip)
                        judge_equi_1d(r, e, sel, n_bins, clip, case)
                if order == "up":
                    continue
                # a second axis in another order
                ys = [float(v((k * 7 + 3) % size if size % 7 else (size - 1 - k))) for k in range(size)]
                for parts in ((2, 3), (4, 2), (5, 5), (3, 8)):
                    pts = [(x, y) for x, y in zip(vals, ys) if inside(x, clip) and inside(y, clip)]
                    if len(pts) // parts[0] - 1 <= parts[1]:
                        continue
                    data = np.array(pts[::2] + pts[1::2] if order == "mixed" else pts[::-1])
                    for first in (0, 1):
                        npart = [0, 0]
                        npart[first], npart[1 - first] = parts
                        case = ("larger-2d", size, law, order, clip, parts, first)
                        n += 1
                        r.case(case)
                        with r.guard("equal-probability-2d", case):
                            a, b = get_equiprob_bins_2d(data, npart, order=(first, 1 - first), x_clip=clip, y_clip=clip)
                            judge_equi_2d(r, a, b, [(p[first], p[1 - first]) for p in pts], parts, (clip, clip), case)
    # very many rows
    big = [0.25 + 0.5 * (i % 9) for i in range(130_001)]
    for fmt in ("csv", "pkl"):
        case = ("very-many", fmt)
        r.case(case)
        n += 1
        with r.guard("select", case):
            llh = make(r, {"a": big}, fmt, bins_type="irreg", bins_on="a", bins=[[0.5, 1.0, 2.0, 5.0]], clip=[0.5, 5.0])
            rows = [(v,) for v in big if v > 0.5]
            judge_data(r, llh, rows, case)
            r.expect(float(np.sum(llh.data_hist)) == len(rows), "histogram-sums-to-the-selected-events", case, got=float(np.sum(llh.data_hist)), want=len(rows))
    r.part("larger-data", cases=n)


def check_integer(r):
    """Integer observables: edges between the integers, from the side asked for; also passed on by the likelihood."""
    n = 0
    for k in range(2, 6):
        for vals in itertools.combinations_with_replacement([1, 2, 3, 5, 8, 9], k + 2):
            if len(set(vals)) <= 2:
                continue
            n += 1
            if n % (1 if r.thorough else 4):
                continue
            clip = (0.0, 20.0)
            for left in (True, False):
                case = ("integer", vals, left)
                r.case(case)
                with r.guard("integer", case):
                    data = np.array(vals, dtype=float)
                    e = get_equiprob_bins_1d(data, 2, clip=clip, integer=True, left=left)
                    mirror = get_equiprob_bins_1d(-data, 2, clip=(-20.0, 0.0), integer=True, left=not left)
                    r.expect(non_decreasing(e) and e[0] == 0 and e[-1] == 20, "edges-cover-the-clip-range", case, got=e)
                    r.expect(np.all(np.asarray(e[1:-1]) % 1 == 0.5), "integer-edges-between-integers", case, got=e)
                    r.expect(np.array_equal(e, -np.asarray(mirror)[::-1]), "search-starts-from-the-side-asked-for", case, got=e, want=mirror)
                    llh = make(r, {"a": data}, bins_type="equiprob", bins_on="a", bins=2, clip=list(clip), integer=True, left=left)
                    r.expect(np.array_equal(np.asarray(llh._bins[0]), e), "likelihood-passes-on-the-options", case, got=llh._bins, want=e)
                    r.expect(float(np.asarray(llh.data_hist).sum()) == len(vals), "histogram-sums-to-the-selected-events", case)
    # two axes, one of them integer
    for perm in itertools.permutations(range(6)):
        data = np.array([(X2[i], j + 1) for i, j in enumerate(perm)])
        for integer, left in itertools.product(([False, True], [False, False]), (True, False)):
            case = ("integer-2d", perm, integer, left)
            r.case(case)
            with r.guard("integer", case):
                kw = dict(integer=integer, left=left)
                a, b = get_equiprob_bins_2d(data, [2, 2], x_clip=(0, 9), y_clip=(0, 9), **kw)
                if integer[1]:
                    r.expect(np.all(np.asarray(b)[:, 1:-1] % 1 == 0.5), "integer-edges-between-integers", case, got=b)
                if perm[0] < perm[1] and perm[2] < perm[3]:
                    llh = make(
                        r, {"u": data[:, 0], "v": data[:, 1]}, bins_type="equiprob", bins_on=["u", "v"], bins=[2, 2],
                        x_clip=[0, 9], y_clip=[0, 9], **kw,
                    )
                    got = bins_of(r, llh)
                    r.expect(
                        np.array_equal(np.asarray(got[0]), a) and np.array_equal(np.asarray(got[1]), b),
                        "likelihood-passes-on-the-options", case, got=got, want=(a, b),
                    )
        n += 1
    r.part("integer", cases=n)


# --------------------------------------------------------------------------------------- malformed
def check_malformed(r):
    cols = {"p": [0.5, 1.0, 1.5, 2.0, 2.5], "q": [0.5, 2.0, 1.0, 2.5, 1.5], "s": [1.0, 2.0, 3.0, 4.0, 5.0]}
    one = dict(bins_on="p", clip=[0, 3])
    two = dict(bins_on=["p", "q"], x_clip=[0, 3], y_clip=[0, 3])
    three = dict(bins_on=["p", "q", "s"], x_clip=[0, 3], y_clip=[0, 3], clip=[0, 3])
    ex, ey = [0.0, 1.0, 3.0], [[0.0, 1.0, 3.0], [0.0, 2.0, 3.0]]
    good = [
        dict(one, bins_type="equiprob", bins=2), dict(one, bins_type="equiprob", bins=[2]), dict(one, bins_type="irreg", bins=[ex]),
        dict(one, bins_type="meshgrid", bins=[ex]), dict(one, bins_type="meshgrid", bins=2), dict(two, bins_type="equiprob", bins=[2, 1]),
        dict(two, bins_type="irreg", bins=[ex, ey]), dict(two, bins_type="meshgrid", bins=[ex, ex]), dict(two, bins_type="meshgrid", bins=[2, 2]),
    ]
    for c in good:
        case = ("well-formed", c)
        r.case(case)
        with r.guard("well-formed-accepted", case):
            make(r, cols, **c)
    bad = []
    for t in ("equiprob", "meshgrid", "irreg"):
        e1, e2 = (2, [2, 2]) if t == "equiprob" else ([ex], [ex, ey if t == "irreg" else ex])
        # lengths
        bad += [dict(two, bins_type=t, bins=b) for b in ([e2[0]], [*e2, e2[0]], [], 2, (2, 2))]
        bad += [dict(one, bins_type=t, bins=b) for b in ([2, 2], [ex, ex], [])]
        # dimensions
        bad += [dict(three, bins_type=t, bins=b) for b in ([2, 2, 2], [ex, ex, ex], [ex, ey])]
        bad += [dict(one, bins_type=t, bins=e1, bins_on=[]), dict(two, bins_type=t, bins=e2, bins_on=[])]
        # types
        bad += [dict(two, bins_type=t, bins=e2, bins_on=o) for o in (None, 3, ("p", "q"), {"p": 1, "q": 2})]
        # observables that are not in the data
        bad += [dict(two, bins_type=t, bins=e2, bins_on=["p", "nope"]), dict(one, bins_type=t, bins=e1, bins_on="nope")]
    for t in ("", "Irreg", "equi", None, 0, "mesh"):
        bad += [dict(one, bins_type=t, bins=2), dict(two, bins_type=t, bins=[2, 2]), dict(two, bins_type=t, bins=[ex, ey])]
    # equal probability takes numbers of bins only
    bad += [dict(one, bins_type="equiprob", bins=b) for b in ([ex], [2.0], ["2"], [None])]
    bad += [dict(two, bins_type="equiprob", bins=b) for b in ([2, ex], [ex, 2], [ex, ey], [2.0, 2], [2, 2.0])]
    # uneven slices, wrong number of slices
    bad += [dict(two, bins_type="irreg", bins=b) for b in (
        [ex, [[0.0, 1.0, 3.0], [0.0, 3.0]]], [ex, [[0.0, 1.0, 3.0]]], [ex, ey + [ey[0]]], [[0.0, 3.0], ey],
        [[0.0, 1.0, 2.0, 3.0], ey], [ex, [[0.0, 1.0, 2.0, 3.0], [0.0, 3.0]]],
    )]
    # more bins than events
    bad += [dict(one, bins_type="equiprob", bins=6), dict(two, bins_type="equiprob", bins=[6, 1]), dict(two, bins_type="equiprob", bins=[2, 4])]
    for c in bad:
        case = ("malformed", c)
        r.case(case)
        r.raises(Exception, "malformed-binning-raises", lambda: make(r, cols, **c), case)
    r.part("malformed", accepted=len(good), rejected=len(bad))


# --------------------------------------------------------------------------------------- components
def check_components(r):
    """Every component bins the same events like the data."""
    rows = [(X2[i], Y2[j]) for i, j in enumerate((3, 0, 2, 5, 1, 4))]
    for dim, kind in itertools.product((1, 2), ("equiprob", "meshgrid", "mesh-edges", "irreg")):
        toys.reset()
        names = ["u", "v"][:dim]
        obs = toys.table_plugin(f"C19Obs{dim}", dict(zip(names, ["xs", "ys"])))
        eff = toys.table_plugin("C19Eff", {"eff": "es"})
        toys.component_cls("C19Comp", [obs, eff])
        toys.component_cls("C19Sim", [obs, eff], "on_sim")
        cols = {n: [p[i] for p in rows] for i, n in enumerate(names)}
        ex, ey = [0.0, 1.5, 5.0, 9.0], [[-3.0, 0.0, 9.0], [-3.0, 4.25, 9.0], [-3.0, 1.0, 9.0]]
        bins = {"equiprob": [3, 1], "meshgrid": [3, 2], "mesh-edges": [ex, [-3.0, 1.0, 9.0]], "irreg": [ex, ey]}[kind][:dim]
        conf = dict(bins_type=kind.replace("mesh-edges", "meshgrid"), bins_on=names if dim == 2 else "u", bins=bins)
        conf.update({"clip": [0.0, 9.0]} if dim == 1 else {"x_clip": [0.0, 9.0], "y_clip": [-3.0, 9.0]})
        case = ("components", dim, kind)
        r.case(case)
        with r.guard("components", case):
            llh = make(r, cols, **conf)
            pars = {"xs": np.array([p[0] for p in rows], F), "ys": np.array([p[1] for p in rows], F), "es": np.ones(6, F)}
            want = np.asarray(llh.data_hist)
            for c, cls in (("one", apt.components.C19Comp), ("two", apt.components.C19Sim)):
                llh.register_component(cls, c)
                h = np.asarray(llh[c].simulate_hist(KEY, 6, {**pars, c + "_rate": 6.0})[1])
                r.expect(h.shape == want.shape and np.allclose(h, want, atol=1e-5), "component-binned-like-the-data", case, got=h, want=want)
            llh.register_component(toys.fixed_cls("C19Fix"), "three", file_name=data_file(r, cols))
            h = np.asarray(llh["three"].simulate_hist({"three_rate": 6.0}))
            r.expect(h.shape == want.shape and np.allclose(h, want, atol=1e-5), "component-binned-like-the-data", case, got=h, want=want)
            total = getattr(llh, "_simulate_model_hist", None)
            if total is not None:
                tot = np.asarray(total(KEY, 6, {**pars, "one_rate": 6.0, "two_rate": 6.0, "three_rate": 6.0})[1])
                r.expect(np.allclose(tot, 3 * want, atol=1e-4), "model-binned-like-the-data", case, got=tot)


def run(r):
    r.rule = "one case per data set x binning type x bins x clip range, per relative order of two axes, per malformed setting"
    r.assumptions = [
        "an event on an outermost edge may be counted or not; an event on the edge of a slice may be shared by its neighbours",
        "integer observables: only the position of the edges is judged",
    ]
    warnings.simplefilter("ignore")
    check_select_1d(r)
    check_select_2d(r)
    check_equi_1d(r)
    check_equi_2d(r)
    check_larger(r)
    check_integer(r)
    check_malformed(r)
    check_components(r)
    r.transitions += r.evaluations
