"""
Harnesses of the aggregation kernels: A01 - A07, A10, A13.

Expected values are declarative terms over the symbolic inputs (a sum is
written as the sum over all rows of `ite(row in interval, value, 0)`), never a
re-implementation of the traversal done by the code.
"""
from functools import partial

from symx.logic import agg_spec
from symx.logic import all_of
from symx.logic import any_of
from symx.logic import count
from symx.logic import eq
from symx.logic import implies
from symx.logic import ite
from symx.logic import no
from symx.logic import seq_eq

from . import case

FNS = ("first", "last", "min", "max", "sum")
LEFT, RIGHT = "left", "right"
FREQ = 10  # seconds


def ordered(ctx, name, n, lo, hi, strict=False):
    """n ascending integers."""
    out = []
    for i in range(n):
        v = ctx.int(f"{name}{i}", lo, hi)
        if out:
            ctx.assume(out[-1] < v if strict else out[-1] <= v)
        out.append(v)
    return out


def values(ctx, name, n, lo=-50, hi=50):
    return [ctx.int(f"{name}{i}", lo, hi) for i in range(n)]


def mk_agg(ctx, spec, df, kinds):
    """
    Aggregation set-up of `{out: (in, func)}`.

    Symbolic columns all have dtype `object`. A tag per kind stands for their
    dtype, so that there are as many groups of columns as with real data.
    """
    if not ctx.sym:
        return spec
    from oups.aggstream.cumsegagg import setup_cumsegagg

    return setup_cumsegagg(spec, {c: tag(k) for c, k in kinds.items()})


_TAGS = {}


def tag(kind):
    """Stand-in for the dtype of a kind of column: behaves as `object` for numpy."""
    import sys

    import numpy as np
    import pandas as pd

    class DT:
        dtype = np.dtype(object)

        def __repr__(self):
            return f"tag({kind})"

    f64 = np.dtype("float64")
    if kind not in _TAGS:
        _TAGS[kind] = DT()
    tables = [
        v
        for n, m in list(sys.modules.items())
        if n.startswith("oups")
        for v in list(vars(m).values())
        if isinstance(v, dict) and f64 in v and isinstance(v[f64], float)
    ]
    if not tables:
        # No table of null values: a single group of columns.
        return np.dtype(object)
    for v in tables:
        v[_TAGS[kind]] = pd.NA
    return _TAGS[kind]


def grouper(freq, closed, label, key="t", offset=None):
    import pandas as pd

    kw = {} if offset is None else {"offset": pd.Timedelta(offset, "s")}
    return pd.Grouper(key=key, freq=f"{freq}s", closed=closed, label=label, **kw)


def in_bin(t, lo, hi, closed):
    """Row at `t` is in the interval (None: unbounded)."""
    cs = []
    if lo is not None:
        cs.append(lo <= t if closed == LEFT else lo < t)
    if hi is not None:
        cs.append(t < hi if closed == LEFT else t <= hi)
    return all_of(cs)


def check_rows(ctx, label, df, spec, cols, sels, known=()):
    """`df` has one row per selection, with aggregations of the selected rows, or null."""
    ctx.check(f"{label}: one row each", len(df) == len(sels), known=known)
    ctx.check(f"{label}: columns", sorted(df.columns) == sorted(spec))
    for out, (inc, fn) in spec.items():
        got = ctx.plain(df[out], KINDS[inc])
        for i, sel in enumerate(sels):
            some = any_of(sel)
            g = got[i]
            if g is None:
                ctx.check(f"{label}: {fn} null only if no row", no(some), known=known)
            else:
                ctx.check(f"{label}: {fn} null if no row", some, known=known)
                ctx.check(f"{label}: {fn}", eq(g, agg_spec(fn, sel, cols[inc])), known=known)


# -- A01 -----------------------------------------------------------------
SPECS = {
    "fls": {"f": ("v", "first"), "l": ("v", "last"), "s": ("w", "sum"), "fx": ("x", "first")},
    "min": {"mi": ("v", "min"), "s": ("v", "sum"), "lx": ("x", "last")},
    "max": {"ma": ("w", "max"), "mx": ("x", "last"), "s": ("v", "sum")},
    "minx": {"mi": ("x", "min"), "f": ("w", "first")},
    "maxv": {"ma": ("v", "max"), "l": ("w", "last")},
    "all": {
        "f": ("v", "first"),
        "l": ("w", "last"),
        "s": ("v", "sum"),
        "mi": ("w", "min"),
        "ma": ("v", "max"),
    },
}
# Real values do not survive a conversion to another type.
KINDS = {"v": "num", "w": "half", "x": "tick"}


def data_of(ctx, ts, vs, tkind="ts"):
    """Columns of 3 dtypes having the same values, and the ordered one."""
    df = ctx.frame(
        {"t": (ts, tkind), **{c: (vs, k) for c, k in KINDS.items()}}
    )
    return df, {"v": vs, "w": vs, "x": vs}


def obs_df(ctx, df, spec, tkind="ts"):
    return {c: ctx.plain(df[c], KINDS[spec[c][0]]) for c in df.columns} | {
        "_idx": ctx.plain(df.index, tkind)
    }


def bins_by_freq(ctx, n, span, closed, label, spec, offset=None):
    from oups.aggstream.cumsegagg import cumsegagg

    ts = ordered(ctx, "t", n, 0, span)
    vs = values(ctx, "v", n)
    df, cols = data_of(ctx, ts, vs)
    spec = SPECS[spec]
    res = cumsegagg(
        df,
        mk_agg(ctx, spec, df, KINDS),
        grouper(FREQ, closed, label, offset=offset),
        error_on_0=False,
    )
    labels = ctx.plain(res.index)
    start = [x if label == LEFT else x - FREQ for x in labels]
    off = offset or 0
    ctx.check("bins are on the time grid", all_of([(s - off) % FREQ == 0 for s in start]))
    ctx.check(
        "bins are contiguous", all_of([a + FREQ == b for a, b in zip(start, start[1:])])
    )
    ctx.check("first bin is that of the first row", in_bin(ts[0], start[0], start[0] + FREQ, closed))
    ctx.check("last bin is that of the last row", in_bin(ts[-1], start[-1], start[-1] + FREQ, closed))
    sels = [[in_bin(t, s, s + FREQ, closed) for t in ts] for s in start]
    check_rows(ctx, "bins", res, spec, cols, sels)
    if len(labels) > 2:
        ctx.cover("several bins")
    return obs_df(ctx, res, spec)


def bins_by_ends(ctx, n, m, closed, spec, with_labels, tkind="int"):
    """Bins given by arbitrary ascending ends (and arbitrary labels)."""
    from oups.aggstream.cumsegagg import cumsegagg
    from oups.aggstream.segmentby import by_scale

    ts = ordered(ctx, "t", n, -9, 40)
    ends = ordered(ctx, "e", m, -9, 41, strict=True)
    vs = values(ctx, "v", n)
    df, cols = data_of(ctx, ts, vs, tkind)
    by = ctx.series(ends, tkind)
    lab = ends
    if with_labels:
        lab = values(ctx, "lab", m, 0, 60)
        by = (ctx.series(lab, tkind), by)
    spec = SPECS[spec]
    res = cumsegagg(
        df,
        mk_agg(ctx, spec, df, KINDS),
        partial(by_scale, by=by, closed=closed),
        ordered_on="t",
        error_on_0=False,
    )
    k = len(res)
    ctx.check("no more bins than ends", k <= m)
    # Bins up to the first end that lies after all the rows.
    past = [in_bin(ts[-1], None, e, closed) for e in ends]
    ctx.check("all needed bins", k == m or past[k - 1])
    ctx.check("bins past the last row are not reported", no(any_of(past[: k - 1])))
    ctx.check("labels", seq_eq(ctx.plain(res.index, tkind), lab[:k]))
    lows = [None] + ends
    sels = [[in_bin(t, lows[i], ends[i], closed) for t in ts] for i in range(k)]
    check_rows(ctx, "bins", res, spec, cols, sels)
    return obs_df(ctx, res, spec, tkind)


def bins_by_callable(ctx, n, m, spec):
    """Bins decided by a user function: any ascending starts of next bins."""
    import pandas as pd
    from oups.aggstream.cumsegagg import cumsegagg

    vs = values(ctx, "v", n)
    starts = [ctx.choice(f"s{i}", range(n + 1)) for i in range(m)]
    ctx.assume(all(a <= b for a, b in zip(starts, starts[1:])))
    df, cols = data_of(ctx, list(range(n)), vs, "int")

    def bin_by(on, buffer=None):
        import numpy as np

        n_null = sum(a == b for a, b in zip([0] + starts, starts))
        return (
            np.array(starts, dtype="int64"),
            pd.Series([100 + i for i in range(m)]),
            n_null,
            RIGHT,
            pd.Series([s - 1 for s in starts]),
            False,
        )

    spec = SPECS[spec]
    res = cumsegagg(
        df, mk_agg(ctx, spec, df, KINDS), bin_by, bin_on="t", error_on_0=False
    )
    lo = [0] + starts
    sels = [[lo[i] <= r < starts[i] for r in range(n)] for i in range(m)]
    ctx.check("labels", ctx.plain(res.index) == [100 + i for i in range(m)])
    check_rows(ctx, "bins", res, spec, cols, sels)
    return obs_df(ctx, res, spec)


for closed in (LEFT, RIGHT):
    for label in (LEFT, RIGHT):
        case("A01", bins_by_freq, f"freq-{closed}-{label}-fls", n=3, span=42, closed=closed,
             label=label, spec="fls", jit=(closed == label), replays=8, weight=4)
    for s in ("min", "max", "minx", "maxv"):
        case("A01", bins_by_freq, f"freq-{closed}-{s}", n=3, span=32, closed=closed, label=LEFT,
             spec=s, replays=6, weight=4)
    case("A01", bins_by_freq, f"freq-{closed}-offset", n=2, span=42, closed=closed, label=RIGHT,
         spec="all", offset=3)
    case("A01", bins_by_ends, f"ends-{closed}", n=3, m=3, closed=closed, spec="all",
         with_labels=False, tkind="num", jit=True, weight=3)
    case("A01", bins_by_ends, f"ends-labels-{closed}", n=2, m=3, closed=closed, spec="fls",
         with_labels=True, tkind="tick", weight=3)
    case("A01", bins_by_ends, f"ends4-{closed}", n=4, m=4, closed=closed, spec="fls",
         with_labels=False, tkind="half", tier="thorough", weight=9)
    case("A01", bins_by_freq, f"freq5-{closed}", n=5, span=32, closed=closed, label=LEFT,
         spec="fls", tier="thorough", weight=9)
    case("A01", bins_by_freq, f"freq4-all-{closed}", n=4, span=22, closed=closed, label=LEFT,
         spec="all", tier="thorough", weight=9)
for s in ("fls", "min", "max"):
    case("A01", bins_by_callable, f"callable-{s}", n=3, m=3, spec=s, weight=2)
    case("A01", bins_by_callable, f"callable4-{s}", n=4, m=4, spec=s, tier="thorough", weight=9)


# -- A02 -----------------------------------------------------------------
def low_edge_freq(p, f):
    """Largest multiple of f strictly below p."""
    return p - 1 - (p - 1) % f


def low_edge_ends(p, ends):
    """Largest end strictly below p (a value below everything if there is none)."""
    from symx.logic import ite

    r = -1000
    for e in ends:
        r = ite(e < p, e, r)
    return r


def snaps_by_freq(ctx, n, span, closed, label, sfreq, spec):
    """Bins and snapshots on two time grids."""
    from oups.aggstream.cumsegagg import cumsegagg

    ts = ordered(ctx, "t", n, 0, span)
    vs = values(ctx, "v", n)
    df, cols = data_of(ctx, ts, vs)
    spec = SPECS[spec]
    bins, snaps = cumsegagg(
        df,
        mk_agg(ctx, spec, df, KINDS),
        grouper(FREQ, closed, LEFT),
        snap_by=grouper(sfreq, closed, label),
        error_on_0=False,
    )
    check_freq_bins(ctx, bins, ts, spec, cols, closed, LEFT)
    points = [x if label == RIGHT else x + sfreq for x in ctx.plain(snaps.index)]
    ctx.check("points are on the grid", all_of([p % sfreq == 0 for p in points]))
    ctx.check("points contiguous", all_of([a + sfreq == b for a, b in zip(points, points[1:])]))
    ctx.check("first point", in_bin(ts[0], points[0] - sfreq, points[0], closed))
    ctx.check("last point", in_bin(ts[-1], points[-1] - sfreq, points[-1], closed))
    sels = [[in_bin(t, low_edge_freq(p, FREQ), p, closed) for t in ts] for p in points]
    check_rows(ctx, "snaps", snaps, spec, cols, sels)
    return [obs_df(ctx, bins, spec), obs_df(ctx, snaps, spec)]


def check_freq_bins(ctx, res, ts, spec, cols, closed, label):
    start = [x if label == LEFT else x - FREQ for x in ctx.plain(res.index)]
    ctx.check("bins on the grid", all_of([s % FREQ == 0 for s in start]))
    ctx.check("bins contiguous", all_of([a + FREQ == b for a, b in zip(start, start[1:])]))
    ctx.check("first bin", in_bin(ts[0], start[0], start[0] + FREQ, closed))
    ctx.check("last bin", in_bin(ts[-1], start[-1], start[-1] + FREQ, closed))
    sels = [[in_bin(t, s, s + FREQ, closed) for t in ts] for s in start]
    check_rows(ctx, "bins", res, spec, cols, sels)


def snaps_by_points(ctx, n, m, k, closed, spec, tkind="ts"):
    """Bins given by arbitrary ends, snapshots at arbitrary points."""
    from oups.aggstream.cumsegagg import cumsegagg
    from oups.aggstream.segmentby import by_scale

    ts = ordered(ctx, "t", n, -9, 30)
    ends = ordered(ctx, "e", m, -9, 31, strict=True)
    pts = ordered(ctx, "p", k, -9, 31, strict=True)
    vs = values(ctx, "v", n)
    df, cols = data_of(ctx, ts, vs, tkind)
    spec = SPECS[spec]
    bins, snaps = cumsegagg(
        df,
        mk_agg(ctx, spec, df, KINDS),
        partial(by_scale, by=ctx.series(ends, tkind), closed=closed),
        ordered_on="t",
        snap_by=ctx.series(pts, tkind),
        error_on_0=False,
    )
    nb = len(bins)
    ctx.check("labels of bins", seq_eq(ctx.plain(bins.index, tkind), ends[:nb]))
    lows = [None] + ends
    check_rows(
        ctx, "bins", bins, spec, cols,
        [[in_bin(t, lows[i], ends[i], closed) for t in ts] for i in range(nb)],
    )
    ns = len(snaps)
    ctx.check("labels of snapshots", seq_eq(ctx.plain(snaps.index, tkind), pts[:ns]))
    past = [in_bin(ts[-1], None, p, closed) for p in pts]
    ctx.check("all snapshots", ns == k or past[ns - 1])
    ctx.check("snapshots past the last row are not reported", no(any_of(past[: ns - 1])))
    sels = [[in_bin(t, low_edge_ends(p, ends), p, closed) for t in ts] for p in pts[:ns]]
    check_rows(ctx, "snaps", snaps, spec, cols, sels)
    return [obs_df(ctx, bins, spec, tkind), obs_df(ctx, snaps, spec, tkind)]


def snaps_by_rows(ctx, n, x, k, closed, spec, sfreq=None):
    """Bins of x rows, snapshots at arbitrary points, or at a frequency (whatever its own closed side)."""
    from oups.aggstream.cumsegagg import cumsegagg
    from oups.aggstream.segmentby import by_x_rows

    ts = ordered(ctx, "t", n, -9, 30)
    if sfreq is None:
        pts = ordered(ctx, "p", k, -9, 31, strict=True)
        snap_by = ctx.series(pts, "ts")
    else:
        side = ctx.choice("side", [LEFT, RIGHT])
        snap_by = grouper(sfreq, side, RIGHT)
        # Last point not after the first row, or first point if right-closed.
        p0 = ts[0] // sfreq * sfreq + sfreq
        if closed == RIGHT:
            p0 = ite(ts[0] % sfreq == 0, ts[0], p0)
        pts = [p0 + j * sfreq for j in range(k)]
    if closed == RIGHT:
        # A right-closed bin is an interval (.., end]: rows at its end are not shared with next bin.
        for i in range(x, n, x):
            ctx.assume(ts[i - 1] < ts[i])
    vs = values(ctx, "v", n)
    df, cols = data_of(ctx, ts, vs)
    spec = SPECS[spec]
    bins, snaps = cumsegagg(
        df,
        mk_agg(ctx, spec, df, KINDS),
        partial(by_x_rows, by=x, closed=closed),
        ordered_on="t",
        snap_by=snap_by,
        error_on_0=False,
    )
    starts = list(range(0, n, x))
    nb = len(starts)
    ctx.check("labels of bins", seq_eq(ctx.plain(bins.index), [ts[s] for s in starts]))
    check_rows(
        ctx, "bins", bins, spec, cols, [[s <= r < s + x for r in range(n)] for s in starts]
    )
    # End of each bin: first row of the next one (excluded), or its last row (included).
    ends = [
        (ts[s + x] if closed == LEFT else ts[s + x - 1]) if s + x < n or (closed == RIGHT and s + x == n)
        else None
        for s in starts
    ]
    ns = len(snaps)
    ctx.check("labels of snapshots", seq_eq(ctx.plain(snaps.index), pts[:ns]))
    past = [in_bin(ts[-1], None, p, closed) for p in pts]
    ctx.check("all snapshots", ns == k or past[ns - 1])
    sels = []
    for p in pts[:ns]:
        # Row r is in the bin in progress if its bin is not ended at p, and all previous are.
        sel = []
        for r in range(n):
            b = r // x
            before = all_of([ends[j] < p for j in range(b)])
            not_ended = True if ends[b] is None else no(ends[b] < p)
            sel.append(all_of(before, not_ended, in_bin(ts[r], None, p, closed)))
        sels.append(sel)
    check_rows(ctx, "snaps", snaps, spec, cols, sels)
    return [obs_df(ctx, bins, spec), obs_df(ctx, snaps, spec)]


for closed in (LEFT, RIGHT):
    for s in ("fls", "min", "max"):
        case("A02", snaps_by_freq, f"freq5-{closed}-{s}", n=3, span=22, closed=closed, label=RIGHT,
             sfreq=5, spec=s, jit=(s == "fls"), weight=5)
        case("A02", snaps_by_points, f"points-{closed}-{s}", n=2, m=2, k=3, closed=closed, spec=s,
             weight=5, jit=(s == "min"), tkind="tick" if s == "fls" else "num")
        case("A02", snaps_by_rows, f"rows-{closed}-{s}", n=4, x=2, k=2, closed=closed, spec=s,
             weight=5)
    case("A02", snaps_by_rows, f"rows-freq-{closed}", n=3, x=2, k=5, closed=closed, spec="fls",
         sfreq=10, weight=5)
    case("A02", snaps_by_freq, f"freq15-{closed}", n=2, span=40, closed=closed, label=LEFT,
         sfreq=15, spec="fls", weight=3)
    case("A02", snaps_by_points, f"points3-{closed}", n=3, m=2, k=2, closed=closed, spec="fls",
         tkind="half", weight=6)
    case("A02", snaps_by_points, f"points33-{closed}", n=3, m=3, k=3, closed=closed, spec="fls",
         tier="thorough", weight=20)
    case("A02", snaps_by_freq, f"freq5-4-{closed}", n=4, span=32, closed=closed, label=RIGHT,
         sfreq=5, spec="fls", tier="thorough", weight=20)
    case("A02", snaps_by_rows, f"rows6-{closed}", n=5, x=2, k=3, closed=closed, spec="all",
         tier="thorough", weight=20)


# -- A03 -----------------------------------------------------------------
def agg_rows(ctx, df, spec, kinds):
    """Rows (label, aggregations)."""
    vals = [ctx.plain(df[c], kinds[spec[c][0]]) for c in spec]
    return list(zip(ctx.plain(df.index, kinds.get("t")), *vals))


def run_pieces(ctx, df, cuts, spec, kinds, between=None, **kw):
    """
    cumsegagg on successive pieces; merged completed bins and last ones in progress.

    `between` is called with the buffer before the last piece.
    """
    from oups.aggstream.cumsegagg import cumsegagg

    buffer = {}
    lo = 0
    bins, snaps = [], []
    n_over = 0
    for hi in cuts + [len(df)]:
        if hi == lo:
            continue
        piece = df.iloc[lo:hi].reset_index(drop=True)
        if between and hi == len(df):
            between(buffer)
        res = cumsegagg(
            piece, mk_agg(ctx, spec, piece, kinds), buffer=buffer, error_on_0=False, **kw
        )
        b, s = res if isinstance(res, tuple) else (res, None)
        rows = agg_rows(ctx, b, spec, kinds)
        if bins:
            ctx.check("a piece continues the last bin of the previous one", bins[-1][0] == rows[0][0])
            bins.pop()
        bins.extend(rows)
        if s is not None:
            rows = agg_rows(ctx, s, spec, kinds)
            # A snapshot beyond the last row of a piece comes again in the next one.
            for r in rows:
                if snaps and not bool(snaps[-1][0] < r[0]):
                    ctx.check("snapshots come in order", snaps[-1][0] == r[0])
                    snaps.pop()
                    n_over += 1
                snaps.append(r)
        lo = hi
    return bins, snaps


def whole(ctx, df, spec, kinds, **kw):
    from oups.aggstream.cumsegagg import cumsegagg

    res = cumsegagg(df, mk_agg(ctx, spec, df, kinds), error_on_0=False, **kw)
    b, s = res if isinstance(res, tuple) else (res, None)
    bins = agg_rows(ctx, b, spec, kinds)
    snaps = [] if s is None else agg_rows(ctx, s, spec, kinds)
    return bins, snaps


def same_rows(ctx, label, got, exp):
    ctx.check(f"{label}: same number", len(got) == len(exp))
    for g, e in zip(got, exp):
        ctx.check(f"{label}: same row", seq_eq(list(g), list(e)))


def restart(ctx, n, by, spec, cuts, closed, span=22, snap=None, x=2, tkind="ts", freq=FREQ):
    from oups.aggstream.segmentby import by_scale
    from oups.aggstream.segmentby import by_x_rows

    ts = ordered(ctx, "t", n, 0, span)
    vs = values(ctx, "v", n)
    df, _ = data_of(ctx, ts, vs, tkind)
    spec = SPECS[spec]
    if by == "freq":
        kw = {"bin_by": grouper(freq, closed, LEFT)}
    elif by == "rows":
        kw = {"bin_by": partial(by_x_rows, by=x, closed=closed), "ordered_on": "t"}
        if closed == RIGHT and snap:
            for i in range(x, n, x):
                ctx.assume(ts[i - 1] < ts[i])
    else:
        # The whole scale is given at each piece, it reaches the end of data.
        ends = ordered(ctx, "e", by, 0, span + 1, strict=True)
        ctx.assume(in_bin(ts[-1], None, ends[-1], closed))
        kw = {
            "bin_by": partial(by_scale, by=ctx.series(ends, tkind), closed=closed),
            "ordered_on": "t",
        }
    if snap == "freq":
        kw["snap_by"] = grouper(5, closed, RIGHT)
    elif snap:
        pts = ordered(ctx, "p", snap, 0, span + 1, strict=True)
        kw["snap_by"] = pidx(ctx, pts, tkind)
    kinds = KINDS | {"t": tkind}
    exp = whole(ctx, df, spec, kinds, **kw)
    cut = []
    for i in range(cuts):
        cut.append(ctx.choice(f"cut{i}", range(1, n)))
    ctx.assume(all(a < b for a, b in zip(cut, cut[1:])))
    got = run_pieces(ctx, df, cut, spec, kinds, **kw)
    same_rows(ctx, "bins", got[0], exp[0])
    same_rows(ctx, "snaps", got[1], exp[1])
    return [list(map(list, got[0])), list(map(list, got[1]))]


def pidx(ctx, pts, kind):
    """Points as an Index (DatetimeIndex with real data)."""
    import pandas as pd

    return pd.Index(ctx.series(pts, kind))


for closed in (LEFT, RIGHT):
    for s in ("fls", "min", "max"):
        case("A03", restart, f"freq-{closed}-{s}", n=3, by="freq", spec=s, cuts=1, closed=closed,
             jit=(s == "fls"), weight=4)
        case("A03", restart, f"rows-{closed}-{s}", n=4, by="rows", spec=s, cuts=2, closed=closed,
             tkind="num" if s == "min" else "tick", weight=4)
    case("A03", restart, f"freq-snap-{closed}", n=3, by="freq", spec="fls", cuts=1, closed=closed,
         snap="freq", weight=6)
    case("A03", restart, f"freq-points-{closed}", n=3, by="freq", spec="fls", cuts=1,
         closed=closed, snap=2, weight=6)
    case("A03", restart, f"freq-points-3-{closed}", n=3, by="freq", spec="fls", cuts=2,
         closed=closed, snap=2, weight=6)
    case("A03", restart, f"freq-snap-4-{closed}", n=4, by="freq", spec="all", cuts=3, closed=closed,
         snap="freq", weight=20, tier="thorough")
    case("A03", restart, f"rows-points-{closed}", n=4, by="rows", spec="fls", cuts=1,
         closed=closed, snap=2, tkind="tick", weight=6)
    # Periods which do not divide a day, over several days.
    case("A03", restart, f"freq7h-{closed}", n=3, by="freq", spec="fls", cuts=1, closed=closed,
         span=3 * 86400, freq=25200, weight=8)
    case("A03", restart, f"freq36h-{closed}", n=3, by="freq", spec="fls", cuts=1, closed=closed,
         span=4 * 86400, freq=129600, weight=4)
    case("A03", restart, f"ends-{closed}", n=3, by=3, spec="fls", cuts=1, closed=closed,
         tkind="tick", weight=5)


# -- A04 -----------------------------------------------------------------
def check_segments(ctx, label, res, ts, ends, labels, tkind):
    """`res`, output of a segmentation of `ts`, is that of all (label, end), the last being last."""
    starts, labs, n_null, _, out_ends, unknown = res
    starts, labs, out_ends = ctx.plain(starts), ctx.plain(labs, tkind), ctx.plain(out_ends, tkind)
    k = len(starts)
    ctx.check(f"{label}: sizes", k == len(labs) == len(out_ends) == len(ends))
    ctx.check(f"{label}: ends", seq_eq(out_ends, ends))
    ctx.check(f"{label}: labels", seq_eq(labs, labels))
    return starts, n_null


def scale(ctx, n, m, closed, with_labels, tkind):
    from oups.aggstream.segmentby import by_scale

    ts = ordered(ctx, "t", n, -9, 60)
    ends = ordered(ctx, "e", m, -9, 62, strict=True)
    lab = ends
    by = ctx.series(ends, tkind)
    if with_labels:
        lab = values(ctx, "lab", m, 0, 60)
        by = (ctx.series(lab, tkind), by)
    res = by_scale(ctx.series(ts, tkind), by, closed=closed)
    k = len(res[0])
    past = [in_bin(ts[-1], None, e, closed) for e in ends]
    ctx.check("segments up to the end of data", k == m or past[k - 1])
    ctx.check("segments past the end of data not reported", no(any_of(past[: k - 1])))
    starts, n_null = check_segments(ctx, "scale", res, ts, ends[:k], lab[:k], tkind)
    exp = [count([in_bin(t, None, e, closed) for t in ts]) for e in ends[:k]]
    ctx.check("next starts", seq_eq(starts, exp))
    ctx.check("number of empty segments", n_null == count([a == b for a, b in zip([0] + exp, exp)]))
    ctx.check("closed side", res[3] == closed and res[5] is False)
    return [starts, ctx.plain(res[1], tkind), int(n_null), ctx.plain(res[4], tkind)]


def scale_freq(ctx, n, closed, label, override, span=45, freq=FREQ):
    """Time period, the closed side being that of the period or overridden."""
    from oups.aggstream.segmentby import by_scale

    ts = ordered(ctx, "t", n, 0, span)
    other = {LEFT: RIGHT, RIGHT: LEFT}[closed]
    res = by_scale(
        ctx.series(ts, "ts"),
        grouper(freq, other if override else closed, label),
        **({"closed": closed} if override else {}),
    )
    ends = ctx.plain(res[4])
    labs = ctx.plain(res[1])
    k = len(ends)
    ctx.check("contiguous", all_of([a + freq == b for a, b in zip(ends, ends[1:])]))
    ctx.check("on the grid", ends[0] % freq == 0)
    ctx.check("first segment", in_bin(ts[0], ends[0] - freq, ends[0], closed))
    ctx.check("last segment", in_bin(ts[-1], ends[-1] - freq, ends[-1], closed))
    ctx.check("labels", seq_eq(labs, ends if label == RIGHT else [e - freq for e in ends]))
    exp = [count([in_bin(t, None, e, closed) for t in ts]) for e in ends]
    ctx.check("next starts", seq_eq(ctx.plain(res[0]), exp))
    ctx.check("number of empty segments", res[2] == count([a == b for a, b in zip([0] + exp, exp)]))
    ctx.check("closed side", res[3] == closed)
    return [ctx.plain(res[0]), labs, int(res[2]), ends, k]


def scale_restart(ctx, n1, n2, m, closed, with_labels, index=False):
    """
    Restart with the same scale, or with any other scale.

    The second scale contains the completed ends or not, and is accepted only if
    it continues the first one.
    """
    from oups.aggstream.segmentby import by_scale

    K = "tick"
    ts = ordered(ctx, "t", n1 + n2, -9, 40)
    ends = ordered(ctx, "e", m, -9, 42, strict=True)
    lab = values(ctx, "lab", m, 0, 60) if with_labels else ends
    mk = (lambda v: pidx(ctx, v, K)) if index else (lambda v: ctx.series(v, K))
    drop = ctx.choice("drop", range(m))
    by1 = (mk(lab), mk(ends)) if with_labels else mk(ends)
    by2 = (mk(lab[drop:]), mk(ends[drop:])) if with_labels else mk(ends[drop:])
    buffer = {}
    a, b = ts[:n1], ts[n1:]
    r1 = by_scale(ctx.series(a, K), by1, closed=closed, buffer=buffer)
    r2, err = ctx.call(by_scale, ctx.series(b, K), by2, closed=closed, buffer=buffer)
    # Segments which may still receive data after the first call.
    k1 = len(r1[0])
    traversed = in_bin(a[-1], None, ends[k1 - 1], closed)
    # The last segment of 1st call is the restart point.
    if err is not None:
        ctx.check("refusal is explicit", isinstance(err, ValueError))
        ctx.check("only a scale without the restart point is refused", drop > k1 - 1)
        ctx.cover("refused")
        return ["refused"]
    ctx.check("a scale which does not contain the restart point is refused", drop <= k1 - 1)
    # First end of second call: that in progress, or the next one if it is completed.
    i = k1 - 1 if bool(traversed) else k1
    labs2, ends2 = ctx.plain(r2[1], K), ctx.plain(r2[4], K)
    k2 = len(r2[0])
    ctx.check("completed segments do not come back", len(ends2) == k2 and seq_eq(ends2, ends[i : i + k2]))
    ctx.check("labels after restart", seq_eq(labs2, lab[i : i + k2]))
    exp = [count([in_bin(t, None, e, closed) for t in b]) for e in ends[i : i + k2]]
    ctx.check("next starts after restart", seq_eq(ctx.plain(r2[0]), exp))
    ctx.check("empty segments after restart", r2[2] == count([x == y for x, y in zip([0] + exp, exp)]))
    past = [in_bin(b[-1], None, e, closed) for e in ends]
    ctx.check("all segments", i + k2 == m or past[i + k2 - 1])
    ctx.check("none past the end", no(any_of(past[i : i + k2 - 1])))
    return [ctx.plain(r2[0]), labs2, int(r2[2]), ends2]


def scale_other(ctx, n1, n2, m1, m2, closed):
    """
    Restart with another scale.

    Accepted if and only if it contains the last end of the 1st call, and the last
    value of the 1st call is not past the end coming next.
    """
    from oups.aggstream.segmentby import by_scale

    K = "tick"
    ts = ordered(ctx, "t", n1 + n2, -9, 40)
    e1 = ordered(ctx, "e", m1, -9, 42, strict=True)
    e2 = ordered(ctx, "g", m2, -9, 42, strict=True)
    a, b = ts[:n1], ts[n1:]
    buffer = {}
    r1 = by_scale(ctx.series(a, K), ctx.series(e1, K), closed=closed, buffer=buffer)
    last = e1[len(r1[0]) - 1]
    r2, err = ctx.call(by_scale, ctx.series(b, K), ctx.series(e2, K), closed=closed, buffer=buffer)
    ok = any_of([
        all_of([e2[j] == last, *([in_bin(a[-1], None, e2[j + 1], closed)] if j + 1 < m2 else [])])
        for j in range(m2)
    ])
    if err is not None:
        ctx.check("a scale which continues the previous one is not refused", no(ok))
        ctx.check("refusal is explicit", isinstance(err, ValueError))
        ctx.cover("refused")
        return ["refused"]
    ctx.check("a scale which does not continue the previous one is refused", ok)
    # First end of second call: that in progress, or the next one if it is completed.
    i = next(j for j in range(m2) if bool(e2[j] == last))
    i += not bool(in_bin(a[-1], None, last, closed))
    ends2, k2 = ctx.plain(r2[4], K), len(r2[0])
    ctx.check("completed segments do not come back", len(ends2) == k2 and seq_eq(ends2, e2[i : i + k2]))
    exp = [count([in_bin(t, None, e, closed) for t in b]) for e in e2[i : i + k2]]
    ctx.check("next starts after restart", seq_eq(ctx.plain(r2[0]), exp))
    return [ctx.plain(r2[0]), ends2]


def scale_calls(ctx, sizes, m, closed, stops=None):
    """
    Successive calls with a scale which gets known progressively (possibly empty at start).

    Refused if and only if the previous call ended past the end which comes next.
    """
    from oups.aggstream.segmentby import by_scale

    K = "tick"
    n = sum(sizes)
    ts = ordered(ctx, "t", n, -9, 40)
    ends = ordered(ctx, "e", m, -9, 42, strict=True)
    buffer = {}
    # Last end which has been reported, and last value if it lies past this end.
    last, done, lo, stop, obs = None, None, 0, 0, []
    for j, k in enumerate(sizes):
        on = ts[lo : lo + k]
        lo += k
        stop = stops[j] if stops else ctx.choice(f"stop{j}", range(stop, m + 1))
        if last is not None:
            ctx.assume(stop > last)
        res, err = ctx.call(by_scale, ctx.series(on, K), ctx.series(ends[:stop], K), closed=closed, buffer=buffer)
        i, ok = last or 0, True
        if done is not None and stop > i:
            if i + 1 < stop:
                ok = in_bin(done, None, ends[i + 1], closed)
            i += not bool(in_bin(done, None, ends[i], closed))
        if err is not None:
            ctx.check("refusal is explicit", isinstance(err, ValueError))
            ctx.check("only a scale with an end in data already seen is refused", no(ok))
            ctx.cover("refused")
            return obs + ["refused"]
        ctx.check("a scale with an end in data already seen is refused", ok)
        got = ctx.plain(res[4], K)
        c = len(res[0])
        ctx.check("segments come once", len(got) == c and seq_eq(got, ends[i : i + c]))
        exp = [count([in_bin(t, None, e, closed) for t in on]) for e in ends[i : i + c]]
        ctx.check("next starts", seq_eq(ctx.plain(res[0]), exp))
        past = [in_bin(on[-1], None, e, closed) for e in ends]
        ctx.check("all segments", i + c == stop or (c > 0 and past[i + c - 1]))
        ctx.check("none past the end", no(any_of(past[i : i + max(c - 1, 0)])))
        if c:
            last = i + c - 1
        done = None if c and bool(past[i + c - 1]) else on[-1]
        obs.append([ctx.plain(res[0]), got])
    return obs


def scale_freq_restart(ctx, n1, n2, closed, label, span=32, freq=FREQ):
    from oups.aggstream.segmentby import by_scale

    ts = ordered(ctx, "t", n1 + n2, 0, span)
    a, b = ts[:n1], ts[n1:]
    buffer = {}
    by = grouper(freq, closed, label)
    r1 = by_scale(ctx.series(a, "ts"), by, buffer=buffer)
    r2 = by_scale(ctx.series(b, "ts"), by, buffer=buffer)
    e1, e2 = ctx.plain(r1[4]), ctx.plain(r2[4])
    ctx.check("restart on the segment in progress", e2[0] == e1[-1])
    ctx.check("contiguous", all_of([x + freq == y for x, y in zip(e2, e2[1:])]))
    ctx.check("last segment", in_bin(ts[-1], e2[-1] - freq, e2[-1], closed))
    ctx.check("labels", seq_eq(ctx.plain(r2[1]), e2 if label == RIGHT else [e - freq for e in e2]))
    exp = [count([in_bin(t, None, e, closed) for t in b]) for e in e2]
    ctx.check("next starts after restart", seq_eq(ctx.plain(r2[0]), exp))
    ctx.check("empty segments after restart", r2[2] == count([x == y for x, y in zip([0] + exp, exp)]))
    return [ctx.plain(r2[0]), ctx.plain(r2[1]), int(r2[2]), e2]


for closed in (LEFT, RIGHT):
    case("A04", scale, f"series-{closed}", n=4, m=3, closed=closed, with_labels=False, tkind="tick",
         jit=True, weight=3)
    case("A04", scale, f"tuple-{closed}", n=3, m=4, closed=closed, with_labels=True, tkind="num",
         weight=3)
    case("A04", scale, f"series55-{closed}", n=5, m=5, closed=closed, with_labels=False,
         tkind="half", tier="thorough", weight=9)
    for label in (LEFT, RIGHT):
        case("A04", scale_freq, f"freq-{closed}-{label}", n=3, closed=closed, label=label,
             override=False)
        case("A04", scale_freq, f"freq-over-{closed}-{label}", n=2, closed=closed, label=label,
             override=True)
        case("A04", scale_freq_restart, f"freq-restart-{closed}-{label}", n1=2, n2=2,
             closed=closed, label=label, weight=2)
    case("A04", scale_freq_restart, f"freq-restart7h-{closed}", n1=1, n2=2, closed=closed,
         label=LEFT, span=2 * 86400, freq=25200, weight=2)
    case("A04", scale_restart, f"restart-{closed}", n1=2, n2=2, m=3, closed=closed,
         with_labels=False, weight=3)
    case("A04", scale_restart, f"restart-tuple-{closed}", n1=2, n2=1, m=3, closed=closed,
         with_labels=True, weight=3)
    case("A04", scale_restart, f"restart-index-{closed}", n1=1, n2=2, m=3, closed=closed,
         with_labels=False, index=True, weight=3)
    case("A04", scale_calls, f"calls-{closed}", sizes=(1, 1, 1), m=2, closed=closed, weight=3)
    case("A04", scale_calls, f"calls-same-{closed}", sizes=(1, 1, 1), m=3, stops=(3, 3, 3), closed=closed, weight=3)
    case("A04", scale_calls, f"calls4-{closed}", sizes=(1, 1, 1, 1), m=3, closed=closed, weight=6)
    case("A04", scale_other, f"other-{closed}", n1=1, n2=1, m1=2, m2=2, closed=closed, weight=2)
    case("A04", scale_other, f"other3-{closed}", n1=2, n2=1, m1=2, m2=3, closed=closed, weight=6)
    case("A04", scale_other, f"other3-more-{closed}", n1=2, n2=2, m1=3, m2=3, closed=closed,
         tier="thorough", weight=20)
    case("A04", scale_restart, f"restart4-{closed}", n1=2, n2=3, m=4, closed=closed,
         with_labels=True, tier="thorough", weight=9)


# -- A05 -----------------------------------------------------------------
def x_rows(ctx, sizes, x, closed):
    """Successive calls, with pieces of any sizes up to given ones."""
    from oups.aggstream.segmentby import by_x_rows

    buffer = {}
    lo = 0
    obs = []
    out = []  # (label, end, first row, last row excluded) over all the data
    ts = ordered(ctx, "t", sum(sizes), -9, 99)
    for i, smax in enumerate(sizes):
        s = ctx.choice(f"n{i}", range(1, smax + 1))
        r = by_x_rows(ctx.series(ts[lo : lo + s], "tick"), x, closed=closed, buffer=buffer)
        starts = [int(v) for v in r[0]]
        labs, ends = ctx.plain(r[1], "tick"), ctx.plain(r[4], "tick")
        k = len(starts)
        ctx.check("sizes", k == len(labs) == len(ends))
        ctx.check("starts ascend, and cover the data", starts == sorted(starts) and starts[-1] == s)
        ctx.check("empty bins", r[2] == sum(a == b for a, b in zip([0] + starts, starts)))
        ctx.check("closed side", r[3] == closed)
        for j in range(k):
            first = lo + (starts[j - 1] if j else 0)
            if j == 0 and out:
                ctx.check("continues the last bin", eq(labs[0], out[-1][0]))
                first = out.pop()[2]
            out.append((labs[j], ends[j], first, lo + starts[j]))
        last_full = out[-1][3] - out[-1][2] == x
        ctx.check(
            "last end is unknown unless right-closed and complete",
            bool(r[5]) == (not (closed == RIGHT and last_full)),
        )
        # Ends of bins which are completed.
        for j in range(k - 1):
            o = out[-k + j]
            e = ts[o[3]] if closed == LEFT else ts[o[3] - 1]
            ctx.check("bin end", eq(o[1], e))
        if closed == RIGHT:
            ctx.check("end of the last bin", eq(out[-1][1], ts[lo + s - 1]))
        lo += s
        obs.append([starts, labs, int(r[2]), ends, bool(r[5])])
    ctx.check("bins are contiguous", all(a[3] == b[2] for a, b in zip(out, out[1:])))
    ctx.check("x rows per bin", all(o[3] - o[2] == x for o in out[:-1]))
    ctx.check("last bin", 0 < out[-1][3] - out[-1][2] <= x)
    ctx.check("labels", seq_eq([o[0] for o in out], [ts[o[2]] for o in out]))
    return obs


for closed in (LEFT, RIGHT):
    for x in (1, 2, 3, 4):
        case("A05", x_rows, f"x{x}-{closed}", sizes=(5, 4, 4), x=x, closed=closed, replays=10)
    for x in (1, 2, 3, 5, 7):
        case("A05", x_rows, f"x{x}-{closed}-4", sizes=(8, 5, 5, 4), x=x, closed=closed,
             tier="thorough", replays=20)


# -- A06 -----------------------------------------------------------------
def interleave(ctx, n1, n2, force, tkind):
    from oups.aggstream.segmentby import mergesort

    k1 = ordered(ctx, "p", n1, -9, 50)
    k2 = ordered(ctx, "q", n2 - 1 if force else n2, -9, 50)
    if force:
        # Nominal position of the last bin end is of no importance.
        k2 = k2 + [ctx.int("last", 0, 50)]
    l1 = values(ctx, "a", n1)
    l2 = values(ctx, "b", n2)
    res, idx = mergesort(
        labels=(ctx.array(l1), ctx.array(l2)),
        keys=(ctx.array(k1, tkind), ctx.array(k2, tkind)),
        force_last_from_second=force,
    )
    res, idx = ctx.plain(res), [int(i) for i in idx]
    n = n1 + n2
    ctx.check("size", len(res) == n and len(idx) == n2)
    ctx.check("indices", sorted(set(idx)) == idx and all(0 <= i < n for i in idx))
    oth = [i for i in range(n) if i not in idx]
    ctx.check("second list at indices", seq_eq([res[i] for i in idx], l2))
    ctx.check("first list elsewhere", seq_eq([res[i] for i in oth], l1))
    # Place of each item of 2nd list: all the points at or before it come before.
    for j, i in enumerate(idx):
        if force and j == n2 - 1:
            ctx.check("last bin end is last", i == n - 1)
        else:
            ctx.check("order", count([p <= k2[j] for p in k1]) + j == i)
    return [res, idx]


def interleave_long(ctx, n, force, tkind):
    """
    Many positions, of a few distinct values.

    A sort keeping the order of few equal values only is not enough.
    """
    from oups.aggstream.segmentby import mergesort

    p = ordered(ctx, "p", 2, -9, 50)
    q = ordered(ctx, "q", 2, -9, 50)
    k1 = [p[i * 2 // n] for i in range(n)]
    k2 = [q[i * 2 // n] for i in range(n)]
    if force:
        k2 = k2 + [ctx.int("last", 0, 50)]
    l1, l2 = list(range(n)), list(range(n, n + len(k2)))
    res, idx = mergesort(
        labels=(ctx.array(l1), ctx.array(l2)),
        keys=(ctx.array(k1, tkind), ctx.array(k2, tkind)),
        force_last_from_second=force,
    )
    res, idx = [int(i) for i in ctx.plain(res)], [int(i) for i in idx]
    ctx.check("second list at indices", [res[i] for i in idx] == l2)
    ctx.check("first list elsewhere", [x for i, x in enumerate(res) if i not in idx] == l1)
    for j, i in enumerate(idx):
        if force and j == len(l2) - 1:
            ctx.check("last bin end is last", i == len(res) - 1)
        else:
            ctx.check("order", count([x <= k2[j] for x in k1]) + j == i)
    return [res, idx]


def interleave_sizes(ctx):
    """Keys and labels of different lengths are refused."""
    from oups.aggstream.segmentby import mergesort

    n = [ctx.choice(f"n{i}", range(3)) for i in range(4)]
    keys = [[i for i in range(k)] for k in n]
    r, err = ctx.call(
        mergesort,
        labels=(ctx.array(keys[0]), ctx.array(keys[1])),
        keys=(ctx.array(keys[2]), ctx.array(keys[3])),
    )
    if n[0] != n[2] or n[1] != n[3]:
        ctx.check("refused", isinstance(err, ValueError))
    else:
        ctx.check("accepted", err is None)
    return [err is None]


for force in (False, True):
    for n1, n2 in ((0, 2), (1, 1), (2, 2), (3, 2), (2, 3), (3, 3)):
        case("A06", interleave, f"{n1}-{n2}-{'force' if force else 'plain'}", n1=n1, n2=n2,
             force=force, tkind="tick" if n1 == 2 else "num", weight=n1 + n2)
    for n1, n2 in ((4, 4), (5, 3), (3, 5)):
        case("A06", interleave, f"{n1}-{n2}-{'force' if force else 'plain'}", n1=n1, n2=n2,
             force=force, tkind="int", tier="thorough", weight=20)
    case("A06", interleave_long, f"long-{'force' if force else 'plain'}", n=20, force=force,
         tkind="ts" if force else "int", weight=8)
    case("A06", interleave_long, f"long-{'force' if force else 'plain'}-more", n=60, force=force,
         tkind="int" if force else "ts", tier="thorough", weight=20)
case("A06", interleave_sizes, "sizes")


# -- A07 -----------------------------------------------------------------
def unordered(ctx, n, tkind, snap, how, null=False):
    """Data in any order: refused if and only if it is not ascending (a null is not)."""
    from oups.aggstream.cumsegagg import cumsegagg
    from oups.aggstream.segmentby import by_scale
    from oups.aggstream.segmentby import by_x_rows

    ts = values(ctx, "t", n, 0, 30)
    if null:
        ts[ctx.choice("null", range(n))] = float("nan")
    vs = values(ctx, "v", n, -9, 9)
    df, _ = data_of(ctx, ts, vs, tkind)
    kw = {}
    if how == "freq":
        bin_by = grouper(FREQ, LEFT, LEFT)
    elif how == "rows":
        bin_by = partial(by_x_rows, by=2)
        kw = {"ordered_on": "t"}
    else:
        bin_by = partial(by_scale, by=ctx.series([5, 40], tkind), closed=LEFT)
        kw = {"ordered_on": "t"}
    if snap:
        kw["snap_by"] = ctx.series([12, 41], tkind)
    spec = {"s": ("v", "sum"), "f": ("w", "first")}
    buffer = {} if ctx.choice("restartable", [False, True]) else None
    res, err = ctx.call(
        cumsegagg, df, mk_agg(ctx, spec, df, KINDS), bin_by, buffer=buffer, error_on_0=False, **kw
    )
    asc = not null and all_of([a <= b for a, b in zip(ts, ts[1:])])
    if err is None:
        ctx.check("not ascending is refused", asc)
    else:
        ctx.check("ascending is not refused", no(asc))
        ctx.check("explicit", isinstance(err, ValueError))
        ctx.cover("refused")
    return [err is None]


def refused_between(ctx, n, by, snap, tkind="ts", closed=LEFT, span=14):
    """A piece which is not in order is refused; it is then given in order, with the same buffer."""
    from oups.aggstream.cumsegagg import cumsegagg
    from oups.aggstream.segmentby import by_scale
    from oups.aggstream.segmentby import by_x_rows

    ts = ordered(ctx, "t", n, 0, span, strict=True)
    df, _ = data_of(ctx, ts, values(ctx, "v", n), tkind)
    if by == "freq":
        kw = {"bin_by": grouper(FREQ, closed, LEFT)}
    elif by == "rows":
        kw = {"bin_by": partial(by_x_rows, by=2, closed=closed), "ordered_on": "t"}
    else:
        ends = ctx.series([4, 9, span + 1], tkind)
        kw = {"bin_by": partial(by_scale, by=ends, closed=closed), "ordered_on": "t"}
    if snap:
        kw["snap_by"] = grouper(5, closed, RIGHT)
    spec, kinds = SPECS["fls"], KINDS | {"t": tkind}
    exp = whole(ctx, df, spec, kinds, **kw)
    i = ctx.choice("i", range(n - 1))
    j = ctx.choice("j", range(n - 1))
    ctx.assume(i <= j)

    def refuse(buffer):
        rows = list(range(i, n))
        rows[j - i], rows[j + 1 - i] = j + 1, j
        bad = df.iloc[rows].reset_index(drop=True)
        agg = mk_agg(ctx, spec, bad, kinds)
        _, err = ctx.call(cumsegagg, bad, agg, buffer=buffer, error_on_0=False, **kw)
        ctx.check("not ascending is refused", isinstance(err, ValueError))

    got = run_pieces(ctx, df, [i], spec, kinds, between=refuse, **kw)
    same_rows(ctx, "bins", got[0], exp[0])
    same_rows(ctx, "snaps", got[1], exp[1])
    return [list(map(list, got[0])), list(map(list, got[1]))]


def user_segments(ctx, n, m, restart, snap=False):
    """
    Whatever a user-defined binning returns: ascending starts (any), labels and ends of any size.

    Refused if and only if documented as invalid.
    """
    import numpy as np
    import pandas as pd
    from oups.aggstream.cumsegagg import cumsegagg

    vs = values(ctx, "v", n, -9, 9)
    df, _ = data_of(ctx, list(range(n)), vs, "int")
    starts = [ctx.choice(f"s{i}", range(n + 1)) for i in range(m)]
    ctx.assume(all(a <= b for a, b in zip(starts, starts[1:])))
    n_lab = ctx.choice("n_lab", range(m - 1, m + 2))
    n_end = ctx.choice("n_end", range(m - 1, m + 2))
    closed = ctx.choice("closed", [LEFT, RIGHT, "both", None])
    prev_label = ctx.choice("prev", [None, 100, 101]) if restart else None
    n_null = sum(a == b for a, b in zip([0] + starts, starts))

    def bin_by(on, buffer=None):
        return (
            np.array(starts, dtype="int64"),
            pd.Series([100 + i for i in range(n_lab)]),
            n_null,
            closed,
            pd.Series([s for s in (starts + [n] * 3)[:n_end]]),
            False,
        )

    buffer = None
    if restart:
        buffer = {}
        if prev_label is not None:
            # A first valid call, whose last bin has this label.
            first = df.iloc[:1].reset_index(drop=True)

            def first_by(on, buffer=None):
                one = np.array([1], dtype="int64")
                return one, pd.Series([prev_label]), 0, LEFT, pd.Series([1]), False

            segment_call(ctx, first, first_by, buffer)
    res, err = segment_call(ctx, df, bin_by, buffer)
    bad = n_lab != m or n_end != m or closed not in (LEFT, RIGHT)
    if not bad and restart:
        bad = starts[-1] != n or (m > 1 and starts[-2] == n)
        bad = bad or (prev_label is not None and prev_label != 100)
    ctx.check(f"{'invalid is' if bad else 'valid is not'} refused", bad == (err is not None))
    if err is not None:
        ctx.check("explicit", isinstance(err, (ValueError, TypeError)))
        ctx.cover("refused")
    return [err is None]


def segment_call(ctx, df, bin_by, buffer):
    from oups.aggstream.cumsegagg import cumsegagg

    spec = {"s": ("v", "sum")}
    return ctx.call(
        cumsegagg, df, mk_agg(ctx, spec, df, KINDS), bin_by, bin_on="t", buffer=buffer,
        error_on_0=False,
    )


def setup_conflicts(ctx):
    """Names of columns in conflict between parameters are refused at set-up."""
    from oups.aggstream.segmentby import by_x_rows
    from oups.aggstream.segmentby import setup_segmentby

    names = [None, "a", "b"]
    is_freq = ctx.choice("freq", [True, False])
    key = ctx.choice("key", names) if is_freq else None
    bin_on = ctx.choice("bin_on", names)
    ordered_on = ctx.choice("ordered_on", names)
    snap = ctx.choice("snap", ["no", "freq", "points"])
    snap_key = ctx.choice("snap_key", names) if snap == "freq" else None
    bclosed = ctx.choice("bclosed", [LEFT, RIGHT]) if is_freq else None
    sclosed = ctx.choice("sclosed", [LEFT, RIGHT]) if snap == "freq" else None
    bin_by = grouper(FREQ, bclosed, LEFT, key=key) if is_freq else by_x_rows
    snap_by = None
    if snap == "freq":
        snap_by = grouper(FREQ, sclosed, LEFT, key=snap_key)
    elif snap == "points":
        snap_by = ctx.series([1, 2], "ts")
    res, err = ctx.call(setup_segmentby, bin_by, bin_on, ordered_on, snap_by)
    on = bin_on or key
    if is_freq:
        bad = on is None or (key and bin_on and key != bin_on) or (ordered_on and ordered_on != on)
        order = on
    else:
        bad = bin_on is None and ordered_on is None
        order = ordered_on
    if snap == "freq":
        bad = bad or (snap_key and order and snap_key != order)
        bad = bad or (bclosed and sclosed != bclosed)
        order = order or snap_key
    elif snap == "points":
        bad = bad or not order
    ctx.check(f"{'conflict is' if bad else 'no conflict is not'} refused", bool(bad) == (err is not None))
    return [err is None]


for how in ("freq", "rows", "ends"):
    case("A07", unordered, f"order-{how}", n=3, tkind="ts", snap=False, how=how)
    case("A07", unordered, f"order-{how}-snap", n=3, tkind="ts", snap=True, how=how)
    if how != "freq":
        case("A07", unordered, f"null-{how}", n=3, tkind="ts", snap=False, how=how, null=True)
        case("A07", unordered, f"null-float-{how}", n=2, tkind="float", snap=False, how=how, null=True)
case("A07", unordered, "order4-int", n=4, tkind="num", snap=False, how="ends", weight=2)
case("A07", unordered, "order4-float", n=4, tkind="half", snap=False, how="rows", weight=2)
case("A07", user_segments, "user", n=2, m=2, restart=False, weight=2)
case("A07", user_segments, "user-restart", n=2, m=2, restart=True, weight=3)
case("A07", user_segments, "user-1", n=2, m=1, restart=True)
case("A07", user_segments, "user-restart-3", n=3, m=3, restart=True, tier="thorough", weight=9)
for by in ("freq", "rows", "ends"):
    for snap in (False, True)[: 1 + (by != "rows")]:
        for closed in (LEFT, RIGHT):
            case("A07", refused_between, f"between-{by}-{closed}{'-snap' * snap}", n=3, by=by, snap=snap,
                 closed=closed)
case("A07", setup_conflicts, "setup")


# -- A10 -----------------------------------------------------------------
FOPS = ["==", "=", "!=", "<", "<=", ">", ">=", "in", "not in", "~"]


def spec_op(op, x, val):
    if op in ("==", "="):
        return x == val
    if op == "!=":
        return x != val
    if op == "<":
        return x < val
    if op == "<=":
        return x <= val
    if op == ">":
        return x > val
    if op == ">=":
        return x >= val
    if op == "in":
        return any_of([x == v for v in val])
    if op == "not in":
        return no(any_of([x == v for v in val]))
    return no(x)


def filters(ctx, n, shape, ops, tkind="int", lists=False, cut=False):
    """
    `shape`: number of comparisons in each AND group.
    `lists`: number of values for `in` is symbolic, given as a list, a tuple or a set.
    `cut`: rows are the last ones of a larger dataframe (row labels do not start at 0).
    """
    dataframe_filter = ctx.need("oups.aggstream.utils", "dataframe_filter")
    xs = values(ctx, "x", n, 0, 4)
    ys = values(ctx, "y", n, 0, 4)
    bs = [bool(ctx.bool(f"b{i}")) for i in range(n)] if "~" in ops else [True] * n
    df = ctx.frame({"x": (xs, tkind), "y": (ys, "half"), "b": (bs, "bool")})
    if cut:
        n_cut = ctx.choice("cut", range(1, n))
        xs, ys, bs = xs[n_cut:], ys[n_cut:], bs[n_cut:]
        df = df.iloc[n_cut:]
        n -= n_cut
    flt, spec = [], []
    c = 0
    for g in shape:
        ands, sands = [], []
        for j in range(g):
            op = ctx.choice(f"op{c}", ops)
            if op == "~":
                col, val = "b", None
                sands.append((bs, op, None))
            else:
                col = "x" if c % 2 == 0 else "y"
                if op in ("in", "not in"):
                    val = values(ctx, f"k{c}_", ctx.choice(f"nk{c}", range(4)) if lists else 2, 0, 4)
                    real = [ctx.value(v, tkind if col == "x" else "half") for v in val]
                    if lists:
                        real = ctx.choice(f"as{c}", [list, tuple, set])(real)
                else:
                    val = ctx.int(f"k{c}", 0, 4)
                    real = ctx.value(val, tkind if col == "x" else "half")
                sands.append((xs if col == "x" else ys, op, val))
                val = real
            ands.append((col, op, val))
            c += 1
        flt.append(ands)
        spec.append(sands)
    mask = dataframe_filter(df, flt)
    mask = [bool(v) for v in mask]
    ctx.check("size", len(mask) == n)
    for i in range(n):
        exp = any_of([all_of([spec_op(op, col[i], val) for col, op, val in g]) for g in spec])
        ctx.check("kept if and only if the formula holds", exp if mask[i] else no(exp))
    if any(mask) and not all(mask):
        ctx.cover("some rows are kept, not all")
    return [mask]


def filters_refused(ctx):
    dataframe_filter = ctx.need("oups.aggstream.utils", "dataframe_filter")
    df = ctx.frame({"x": ([1, 2], "int")})
    op = ctx.choice("op", FOPS[:7] + ["<>", "is", "like", "", "!", "IN", "not"])
    nested = ctx.choice("nested", [True, False])
    # The unknown operator may be anywhere in the formula.
    place = ctx.choice("place", range(3))
    ok, it = ("x", ">=", 0), ("x", op, 1)
    f = [[[it]], [[ok, it]], [[ok], [it]]][place]
    if not nested:
        f = f[0]
    res, err = ctx.call(dataframe_filter, df, f)
    bad = not nested or op not in FOPS
    ctx.check("refused if and only if invalid", bad == isinstance(err, ValueError))
    ctx.check("no other error", err is None or isinstance(err, ValueError))
    return [bad]


for op in FOPS:
    nm = {"==": "eq", "=": "eq1", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge",
          "in": "in", "not in": "notin", "~": "inv"}[op]
    case("A10", filters, f"one-{nm}", n=2, shape=(1,), ops=[op], tkind="num", replays=4)
case("A10", filters, "and", n=2, shape=(2,), ops=["==", "!=", "<", "<=", ">", ">="], weight=3)
case("A10", filters, "or", n=2, shape=(1, 1), ops=["==", "!=", "<", "<=", ">", ">="], weight=3)
case("A10", filters, "and-in", n=1, shape=(2,), ops=["in", "not in", "~", "<"], weight=3)
case("A10", filters, "or-in", n=1, shape=(1, 1), ops=["in", "not in", "~", "<"], weight=3)
case("A10", filters, "or-of-and", n=1, shape=(2, 1), ops=["<", ">=", "!=", "~"], weight=3)
case("A10", filters, "or-of-and-2", n=1, shape=(2, 2), ops=["<", "="], weight=3)
case("A10", filters, "lists", n=1, shape=(1,), ops=["in", "not in"], lists=True, replays=6)
case("A10", filters, "cut", n=3, shape=(1, 1), ops=["<", "not in"], cut=True, weight=3)
case("A10", filters, "ts", n=2, shape=(1,), ops=["==", "<", ">=", "in"], tkind="tick")
case("A10", filters, "or3", n=1, shape=(2, 2, 1), ops=["<", "!=", "in"], tier="thorough", weight=9)
case("A10", filters, "big", n=2, shape=(2, 2), ops=["<", "~", "=="], tier="thorough", weight=9)
case("A10", filters_refused, "refused")


# -- A13 -----------------------------------------------------------------
def columns(ctx, n_out, n, restart):
    """Any output columns: input column and function of each are free."""
    from oups.aggstream.cumsegagg import cumsegagg

    cols = ["v", "w", "x", "y"]
    kinds = KINDS | {"y": "num"}
    data = {c: values(ctx, c, n) for c in cols}
    spec = {}
    for i in range(n_out):
        c = ctx.choice(f"in{i}", cols)
        f = ctx.choice(f"fn{i}", ["first", "last", "sum"] if n_out > 1 else FNS)
        ctx.assume(c != "x" or f != "sum")
        # Names of outputs may be those of inputs.
        spec[("x", "v", "out")[i]] = (c, f)
    ts = list(range(n))
    df = ctx.frame({"t": (ts, "ts"), **{c: (data[c], kinds[c]) for c in cols}})
    k = 1 if restart else n
    kw = dict(error_on_0=False, **({"buffer": {}} if restart else {}))
    got = []
    for lo in range(0, n, k):
        piece = df.iloc[lo : lo + k].reset_index(drop=True)
        res = cumsegagg(
            piece, mk_agg(ctx, spec, df, kinds), grouper(FREQ, LEFT, LEFT), **kw
        )
        got = [ctx.plain(res[o], kinds[c]) for o, (c, _) in spec.items()]
    ctx.check("columns", sorted(res.columns) == sorted(spec))
    ctx.check("one bin", len(res) == 1)
    for g, (o, (c, f)) in zip(got, spec.items()):
        ctx.check("function of its input column", eq(g[0], agg_spec(f, [True] * n, data[c])))
    return got


def columns_dtype(ctx, n):
    """Type of the results: that of the input, nullable for integers."""
    from oups.aggstream.cumsegagg import cumsegagg

    vs = values(ctx, "v", n, -9, 9)
    df, cols = data_of(ctx, list(range(n)), vs)
    spec = {"a": ("v", "sum"), "b": ("w", "last"), "c": ("x", "first")}
    res = cumsegagg(df, mk_agg(ctx, spec, df, KINDS), grouper(FREQ, LEFT, LEFT), error_on_0=False)
    types = {c: str(t) for c, t in res.dtypes.items()}
    if not ctx.sym:
        ctx.check("types", types == {"a": "Int64", "b": "float64", "c": "datetime64[ns]"})
    return [ctx.plain(res[c], KINDS[spec[c][0]]) for c in spec]


def columns_refused(ctx):
    from oups.aggstream.cumsegagg import setup_cumsegagg
    import numpy as np

    cin = [ctx.choice(f"in{i}", ["v", "w", "nope"]) for i in range(2)]
    fn = [ctx.choice(f"fn{i}", [*FNS, "mean", ""]) for i in range(2)]
    dt = {"v": np.dtype("int64"), "w": np.dtype("float64")}
    res, err = ctx.call(setup_cumsegagg, {"a": (cin[0], fn[0]), "b": (cin[1], fn[1])}, dt)
    bad = "nope" in cin or any(f not in FNS for f in fn)
    ctx.check("refused if and only if unknown", bad == isinstance(err, ValueError))
    return [bad]


case("A13", columns, "one", n_out=1, n=2, restart=False, weight=2)
case("A13", columns, "two", n_out=2, n=2, restart=False, weight=3, replays=12)
case("A13", columns, "two-restart", n_out=2, n=2, restart=True, weight=4)
case("A13", columns, "three", n_out=3, n=2, restart=False, tier="quick", weight=8, replays=16)
case("A13", columns, "three-restart", n_out=3, n=3, restart=True, tier="thorough", weight=9)
case("A13", columns_dtype, "types", n=2, jit=True)
case("A13", columns_refused, "refused")
