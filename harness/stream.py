"""
Harnesses of the aggregation stream: A08, A09, A11, A12, A14, and the part of S15 about `AggStream`.

`AggStream` runs over symbolic seeds and an in-memory store. The cuts of the seed
in chunks, the runs, the failing chunk, the order of tasks are choices taken by
the solver along with the data.
"""
from functools import partial

from symx.logic import all_of
from symx.logic import any_of
from symx.logic import eq
from symx.logic import iff
from symx.logic import no
from symx.logic import seq_eq

from . import case
from .kernels import FREQ
from .kernels import KINDS
from .kernels import LEFT
from .kernels import RIGHT
from .kernels import grouper
from .kernels import ordered
from .kernels import pidx
from .kernels import same_rows
from .kernels import values
from .kernels import whole

SPEC = {"f": ("v", "first"), "s": ("w", "sum"), "l": ("x", "last")}
COLS = ["t", *SPEC]
# Kinds of the outputs: values are dressed so that a conversion to another type is seen.
OUT = {"f": KINDS["v"], "m": KINDS["v"], "s": KINDS["w"], "n": KINDS["w"], "q": KINDS["w"], "l": KINDS["x"]}


def mk_store(ctx, name="store"):
    from oups import ParquetSet
    from oups import toplevel

    cls = toplevel(type("Key", (), {"__annotations__": {"name": str}}))
    return ParquetSet(ctx.dir(name), cls), cls


def reopen(store):
    """The same store, as seen by another process."""
    from oups import ParquetSet

    return ParquetSet(store.basepath, store.indexer)


class Seed:
    """Seed of n rows: `t` in ascending order, `c` symbolic in {0, 1, 2}, `i` the identifier."""

    def __init__(self, ctx, n, span, tkind="ts", lo=1, name="", strict=False):
        self.ctx, self.n, self.tkind = ctx, n, tkind
        self.t = ordered(ctx, f"{name}t", n, lo, span, strict)
        self.v = values(ctx, f"{name}v", n, 1, 50)
        self.c = values(ctx, f"{name}c", n, 0, 2)

    def frame(self, ids):
        ids = list(ids)
        pick = lambda xs: [xs[i] for i in ids]  # noqa: E731
        v = pick(self.v)
        return self.ctx.frame(
            {
                "t": (pick(self.t), self.tkind),
                **{k: (v, kind) for k, kind in KINDS.items()},
                "c": (pick(self.c), "int"),
                "i": (ids, "int"),
            }
        )

    def chunks(self, bounds):
        return [self.frame(range(a, b)) for a, b in zip(bounds, bounds[1:])]


def cut(ctx, name, lo, hi, k, empty=False):
    """Bounds of k chunks of rows [lo, hi[, each having rows (unless `empty`)."""
    bounds = [lo]
    for j in range(k - 1):
        left = k - 1 - j
        m = bounds[-1] + (0 if empty else 1)
        bounds.append(ctx.choice(f"{name}{j}", range(m, hi - (0 if empty else left) + 1)))
    return bounds + [hi]


def stored(ctx, store, key, cols, tkind=None):
    """Rows recorded for a key, in order (None if there is nothing)."""
    if key not in store:
        return None
    df = store[key].pdf
    if len(df) == 0:
        return []
    ctx.check("recorded columns", sorted(df.columns) == sorted(cols))
    return [list(r) for r in ctx.rows(df, cols, OUT | {"t": tkind})]


def segmentation(ctx, by, closed=LEFT, x=2, span=22, tkind="ts", snap=None, freq=FREQ, last=None,
                 sfreq=5):
    """Segmentation: settings of AggStream, settings of cumsegagg."""
    from oups.aggstream.segmentby import by_scale
    from oups.aggstream.segmentby import by_x_rows

    if by == "freq":
        kw = {"bin_by": grouper(freq, closed, LEFT)}
        one = dict(kw)
    else:
        if by == "rows":
            f = partial(by_x_rows, by=x, closed=closed)
        else:
            # Ends of bins, reaching the end of the seed.
            ends = ordered(ctx, "e", by, 0, span + 1, strict=True)
            ctx.assume(last < ends[-1] if closed == LEFT else last <= ends[-1])
            f = partial(by_scale, by=ctx.series(ends, tkind), closed=closed)
        kw, one = {"bin_by": f, "bin_on": "t"}, {"bin_by": f, "ordered_on": "t"}
    if snap == "freq":
        kw["snap_by"] = one["snap_by"] = grouper(sfreq, closed, RIGHT)
    elif snap:
        pts = ordered(ctx, "p", snap, 0, span + 1, strict=True)
        kw["snap_by"] = one["snap_by"] = pidx(ctx, pts, tkind)
    return kw, one


def mk_stream(ctx, store, keys, agg, **kw):
    from oups import AggStream

    return AggStream(ordered_on="t", store=store, keys=keys, agg=agg, **kw)


# -- A08 -----------------------------------------------------------------
class Recorder:
    """A `bin_by` recording identifiers of the rows it is given."""

    def __init__(self, ctx):
        self.ctx, self.ids = ctx, []

    def __call__(self, on, buffer):
        from oups.aggstream.segmentby import by_x_rows

        self.ids += [int(i) for i in self.ctx.plain(on["i"])]
        return by_x_rows(on=on[["t"]], buffer=buffer, by=2)


def rows_once(ctx, n, runs, chunks, span, tkind, filt, lo=1, fresh=True):
    """
    Rows handed over to aggregation, over several runs.

    `runs` has per run a letter per flag: `t` for trim_start, `d` for discard_last.
    The seed gets longer at each run; it is given from its start if `t`, otherwise
    from the first row never seen. Chunks may have any number of rows.
    """
    seed = Seed(ctx, n, span, tkind, lo)
    store, cls = mk_store(ctx)
    a, b = cls("a"), cls("b")
    thr = ctx.int("thr", 0, 2)
    per_filter = {
        "none": {None: a},
        "one": {"f": a},
        "two": {"f": a, "g": b},
        "plain": {"_": a, "g": b},
        "and": {"p": a, "q": b},
        "or": {"q": a, "r": b},
    }[filt]
    m = ctx.int("m", 0, n) if filt in ("and", "or") else 0
    filters = {
        "f": [[("c", ">=", thr)]],
        "g": [("c", "<", thr)],
        "p": [("c", ">=", thr), ("i", ">=", m)],
        "q": [[("c", "<", thr), ("i", "<", m)]],
        "r": [[("c", "<", thr), ("i", "<", m)], [("i", ">=", m)]],
    }
    cond = {
        "p": lambda i: all_of([seed.c[i] >= thr, i >= m]),
        "q": lambda i: all_of([seed.c[i] < thr, i < m]),
        "r": lambda i: any_of(all_of([seed.c[i] < thr, i < m]), i >= m),
        None: lambda i: True,
        "_": lambda i: True,
        "f": lambda i: seed.c[i] >= thr,
        "g": lambda i: seed.c[i] < thr,
    }
    rec = {k: Recorder(ctx) for k in per_filter.values()}

    def new():
        conf = {"bin_on": "i"}
        agg = {"t": ("t", "last"), "s": ("w", "sum")}
        if tkind not in ("ts", "tick"):
            # Null in results of aggregation is for 'cumsegagg' a sign of inconsistency.
            del agg["t"]
            conf["ordered_on"] = "i"
        keys = {f: {k: {"bin_by": rec[k], **conf}} for f, k in per_filter.items()}
        fl = {f: filters[f] for f in keys if f in filters}
        if filt == "none":
            keys, fl = keys[None], None
        return mk_stream(ctx, reopen(store), keys, agg, filters=fl)

    st, restart, prev, seen = None, None, 0, []
    times = {k: [] for k in rec}
    for j, flags in enumerate(runs):
        trim, discard = "t" in flags, "d" in flags
        hi = n if j == len(runs) - 1 else ctx.choice(f"run{j}", range(1, n + 1))
        ctx.assume(prev <= hi)
        first = 0 if trim else prev
        bounds = cut(ctx, f"cut{j}_", first, hi, chunks, empty=True)
        if st is None or fresh:
            st = new()
        for r in rec.values():
            r.ids = []
        _, err = ctx.call(st.agg, seed.chunks(bounds), trim_start=trim, discard_last=discard)
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        for f, k in per_filter.items():
            got = rec[k].ids
            ctx.check("rows are handed over once, in order", got == sorted(set(got)))
            ctx.check("no row from elsewhere", all(first <= i < hi for i in got))
            for i in range(first, hi):
                inc = [cond[f](i)]
                if trim and restart is not None:
                    inc.append(restart <= seed.t[i])
                if discard:
                    inc.append(seed.t[i] < seed.t[hi - 1])
                if i in got:
                    ctx.check("row handed over is requested", all_of(inc))
                else:
                    ctx.check("row requested is handed over", no(all_of(inc)))
            times[k] += got
        seen.append([list(r.ids) for r in rec.values()])
        mds = [store_md(ctx, store, k) for k in rec]
        got = [m["restart_index"] for m in mds if m is not None]
        for x in got:
            ctx.check("restart index is no text", type(x) is not str)
        got = [ctx.scalar(x, tkind) for x in got]
        restart = got[0] if got else None
        prev = hi
    if all(
        "d" in x and "t" in y or not ("d" in x or "t" in y) for x, y in zip(runs, runs[1:])
    ):
        # Each run starts from where the previous one stopped.
        for f, k in per_filter.items():
            ctx.check("each row is processed once", times[k] == sorted(set(times[k])))
            for i in set(range(n)) - set(times[k]):
                out = no(cond[f](i))
                if "d" in runs[-1]:
                    out = any_of(out, seed.t[i] == seed.t[n - 1])
                ctx.check("no row is lost", out)
    return seen


def no_chunk(ctx, n, span=5, tkind="ts", lo=1):
    """A run with no chunk at all, whatever the form of the seed, before and after other runs."""
    seed = Seed(ctx, n, span, tkind, lo, strict=True)
    store, cls = mk_store(ctx)
    kw, one = segmentation(ctx, "freq", span=span)
    forms = {"none": None, "list": [], "tuple": (), "iter": iter([]), "gen": (x for x in ())}
    flags = {"trim_start": ctx.choice("trim", [True, False]),
             "discard_last": ctx.choice("discard", [True, False])}
    when = ctx.choice("when", ["first", "between", "after", "alone"])
    keep, fresh = ctx.choice("keep", [True, False]), ctx.choice("fresh", [True, False])
    st = mk_stream(ctx, store, cls("a"), SPEC, **kw)

    def empty():
        form = ctx.choice("form", list(forms))
        obj = mk_stream(ctx, reopen(store), cls("a"), SPEC, **kw) if fresh else st
        _, err = ctx.call(obj.agg, forms[form], final_write=keep, **flags)
        ctx.check(f"a seed with no chunk is accepted ({err!r:.60})", err is None)

    if when in ("first", "alone"):
        empty()
        ctx.check("nothing is stored", cls("a") not in reopen(store))
    if when == "alone":
        return when
    i = ctx.choice("i", range(1, n + 1)) if when == "between" else n
    for a, b in ((0, i), (i, n)):
        if b > a:
            _, err = ctx.call(st.agg, seed.chunks([a, b]), discard_last=False)
            ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        if a == 0 and when in ("between", "after"):
            empty()
            if fresh:
                st = mk_stream(ctx, reopen(store), cls("a"), SPEC, **kw)
    got = stored(ctx, reopen(store), cls("a"), COLS)
    same_rows(ctx, "bins", got, whole(ctx, seed.frame(range(n)), SPEC, KINDS, **one)[0])
    return got


def store_md(ctx, store, key):
    s = reopen(store)
    if key not in s:
        return None
    md = s[key]._oups_metadata
    return None if md is None else md["aggstream"]


def _a08():
    for runs in (("", ""), ("d", "td"), ("d", "t"), ("", "t"), ("d", ""), ("", "td")):
        name = "-".join(x or "o" for x in runs)
        for filt in ("none", "two"):
            for k in (1, 2):
                case("A08", rows_once, f"{name}-{filt}-{k}", n=3, runs=runs, chunks=k, span=5,
                     tkind="ts", filt=filt, replays=3, weight=k + 5 * (filt == "two"))
        case("A08", rows_once, f"{name}-same", n=3, runs=runs, chunks=2, span=5, tkind="tick",
             filt="none", fresh=False, replays=3)
        case("A08", rows_once, f"{name}-int", n=3, runs=runs, chunks=2, span=2, lo=-2,
             tkind="half" if "td" in runs else "num", filt="none", replays=3)
    case("A08", no_chunk, "no-chunk", n=2)
    case("A08", rows_once, "plain", n=3, runs=("d", "t"), chunks=2, span=5, tkind="ts",
         filt="plain", replays=3, weight=8)
    for filt in ("and", "or"):
        case("A08", rows_once, filt, n=3, runs=("d", "t"), chunks=1, span=4, tkind="ts",
             filt=filt, replays=3, weight=3)
    for filt in ("and", "or"):
        case("A10", rows_once, f"stream-{filt}", n=3, runs=("",), chunks=1, span=4, tkind="ts",
             filt=filt, replays=3, weight=3)
    case("A08", rows_once, "three", n=3, runs=("d", "td", "t"), chunks=1, span=5, tkind="ts",
         filt="one", replays=3, weight=8)


_a08()


# -- A09 -----------------------------------------------------------------
def shift(ctx, on, buffer):
    on["w"] = on["w"] + ctx.value(1, KINDS["w"])


def twice(buffer, bin_res):
    return bin_res.assign(s=bin_res["s"] * 2)


def twice_snaps(buffer, bin_res, snap_res):
    return twice(buffer, snap_res)


def twice_both(buffer, bin_res, snap_res):
    return twice(buffer, bin_res), twice(buffer, snap_res)


def twice_row(row):
    i = COLS.index("s")
    return [*row[:i], None if row[i] is None else row[i] * 2, *row[i + 1 :]]


def equal(ctx, by, n, runs, chunks, closed=LEFT, mem=140, span=22, tkind="ts", snap=None,
          out="bins", lo=1, x=2, fresh=True, user=False, sfreq=5, freq=FREQ):
    """
    What is stored after several runs is the result of a single aggregation.

    `runs`: per run `t` for trim_start, `d` for discard_last, `k` to keep results
    in memory (then next run is by the same object, otherwise a new one if `fresh`).
    """
    seed = Seed(ctx, n, span, tkind, lo, strict=by == "rows")
    store, cls = mk_store(ctx)
    key = (cls("a"), cls("b")) if out == "both" else cls("a")
    kw, one = segmentation(ctx, by, closed, x, span, tkind, snap, freq, seed.t[-1], sfreq)
    if user:
        # Functions of the user, which operate row per row.
        kw |= {"pre": partial(shift, ctx), "post": {"bins": twice, "snaps": twice_snaps}.get(out, twice_both)}
    st, prev = None, 0
    if isinstance(mem, tuple):
        # Size of results kept in memory, in bytes.
        mem = ctx.choice("mem", mem) / 1048576
    for j, flags in enumerate(runs):
        hi = n if j == len(runs) - 1 else ctx.choice(f"run{j}", range(1, n + 1))
        ctx.assume(prev <= hi)
        first = 0 if "t" in flags else prev
        ctx.assume(first < hi)
        bounds = cut(ctx, f"cut{j}_", first, hi, min(chunks, hi - first))
        if st is None or (fresh and "k" not in runs[j - 1]):
            st = mk_stream(ctx, reopen(store), key, SPEC, max_in_memory_size=mem, **kw)
        # Without a flag, the default value is used.
        opts = {"t": ("trim_start", True), "d": ("discard_last", True), "k": ("final_write", False)}
        _, err = ctx.call(st.agg, seed.chunks(bounds), **dict(opts[x] for x in flags))
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        prev = hi
    ids = list(range(n))
    if "d" in runs[-1]:
        ids = [i for i in ids if bool(seed.t[i] < seed.t[n - 1])]
    if "k" in runs[-1]:
        _, err = ctx.call(st.agg)
        ctx.check(f"results are written ({err!r:.60})", err is None)
    exp = ([], [])
    if ids:
        df = seed.frame(ids)
        if user:
            shift(ctx, df, {})
        exp = whole(ctx, df, SPEC, KINDS | {"t": tkind}, **one)
        if user:
            exp = [[twice_row(r) for r in e] for e in exp]
    store = reopen(store)
    if out == "both":
        pairs = [("bins", key[0], exp[0]), ("snaps", key[1], exp[1])]
    else:
        pairs = [(out, key, exp[0] if out == "bins" else exp[1])]
    obs = []
    for label, k, e in pairs:
        got = stored(ctx, store, k, COLS, tkind) or []
        same_rows(ctx, label, got, e)
        obs.append(got)
    return obs


def points(ctx, n, closed, span=14):
    """Observation points given to a stream as a series."""
    seed = Seed(ctx, n, span)
    store, cls = mk_store(ctx)
    kw, one = segmentation(ctx, "freq", closed, snap=2, span=span)
    st = mk_stream(ctx, store, cls("a"), SPEC, **kw)
    _, err = ctx.call(st.agg, seed.frame(range(n)), discard_last=False)
    ctx.check(f"seed is accepted ({err!r:.60})", err is None)
    got = stored(ctx, reopen(store), cls("a"), COLS) or []
    bins, snaps = whole(ctx, seed.frame(range(n)), SPEC, KINDS, **one)
    same = [
        all_of([len(got) == len(e), *[seq_eq(list(g), list(x)) for g, x in zip(got, e)]])
        for e in (snaps, bins)
    ]
    ctx.check("snaps", same[0], known=[("stream-snap-points", same[1])])
    return got


# Bytes: each chunk of results written at once, some of them kept, all of them kept.
MEM = (0, 130, 260, 2**27)


def _a09():
    for closed in (LEFT, RIGHT):
        case("A09", points, f"points-{closed}", n=3, closed=closed)
    for by in ("freq", "rows", 2):
        for closed in (LEFT, RIGHT):
            n = f"{by}-{closed}"
            # A grid is in seconds.
            tk = dict.fromkeys("ntksm", "ts") if by == "freq" else dict(
                zip("ntksm", ("num", "half", "tick", "half", "tick"))
            )
            case("A09", equal, n, by=by, closed=closed, n=4, tkind=tk["n"], runs=("", ""), chunks=2)
            case("A09", equal, f"{n}-trim", by=by, closed=closed, n=4, tkind=tk["t"], runs=("d", "t"), chunks=2)
            case("A09", equal, f"{n}-keep", by=by, closed=closed, n=4, tkind=tk["k"], runs=("dk", "td"),
                 chunks=1)
            case("A09", equal, f"{n}-same", by=by, closed=closed, n=4, tkind=tk["s"], runs=("", "", ""), chunks=1,
                 fresh=False)
            case("A09", equal, f"{n}-mem", by=by, closed=closed, n=5, runs=("",), chunks=5, mem=0)
            case("A09", equal, f"{n}-mem2", by=by, closed=closed, n=5, tkind=tk["m"], runs=("", ""), chunks=4,
                 mem=0, span=16)
            case("A09", equal, f"{n}-once", by=by, closed=closed, n=4, runs=("",), chunks=4, mem=MEM)
    for closed in (LEFT, RIGHT):
        for out in ("snaps", "both"):
            n = f"{closed}-{out}"
            case("A09", equal, f"once-{n}", by="freq", closed=closed, n=3, runs=("",), chunks=3,
                 snap="freq", out=out, mem=MEM, span=16)
            for by in ("freq", 2):
                case("A09", equal, f"{by}-{n}", by=by, closed=closed, n=3, runs=("", ""), chunks=2,
                     snap="freq", out=out, span=16)
            case("A09", equal, f"mem-{n}", by="freq", closed=closed, n=4, runs=("",),
                 chunks=4, snap="freq", out=out, mem=0, span=14)
            case("A09", equal, f"mem2-{n}", by="freq", closed=closed, n=5, runs=("", ""),
                 chunks=4, snap="freq", out=out, mem=0, span=14)
            # Observation points less frequent than bins.
            case("A09", equal, f"rare-{n}", by="freq", closed=closed, n=4, runs=("",), chunks=4,
                 snap="freq", out=out, mem=0, span=25, sfreq=20)
            case("A09", equal, f"user-{n}", by="freq", closed=closed, n=3, runs=("d", "t"),
                 chunks=2, snap="freq", out=out, mem=(0, 2**27), span=14, user=True, weight=4)
        # A period which does not divide a day, over several days.
        case("A09", equal, f"freq7h-{closed}", by="freq", closed=closed, n=3, runs=("d", "t"), chunks=1,
             freq=25200, span=2 * 86400)
        case("A09", equal, f"freq7h-{closed}-2", by="freq", closed=closed, n=3, runs=("", ""), chunks=1,
             freq=25200, span=2 * 86400)
    for by in ("freq", "rows", 2):
        case("A09", equal, f"user-{by}", by=by, n=4, runs=("d", "t"), chunks=2, mem=(0, 2**27), span=12,
             user=True)
        case("A09", equal, f"user-{by}-keep", by=by, n=4, runs=("dk", "td"), chunks=2, mem=(0, 2**27),
             span=12, user=True)


_a09()


# -- A17 -----------------------------------------------------------------
def user_calls(ctx, by, n, runs, chunks, closed=LEFT, mem=140, span=14, tkind="ts", snap=None,
               out="bins", lo=1, x=2, filt=False, fresh=True, sfreq=5, empty=False):
    """
    What functions of the user are given: chunks of the seed as they are, results once each.

    `pre` modifies the seed in place; what is aggregated is what it leaves.
    """
    seed = Seed(ctx, n, span, tkind, lo, strict=by == "rows")
    store, cls = mk_store(ctx)
    kw, one = segmentation(ctx, by, closed, x, span, tkind, snap, last=seed.t[-1], sfreq=sfreq)
    if isinstance(mem, tuple):
        mem = ctx.choice("mem", mem) / 1048576
    kinds = {"t": tkind, "v": KINDS["v"], "w": KINDS["w"], "x": KINDS["x"]}
    checked, given = [], {}

    def pre(on, buffer):
        ids = [int(i) for i in ctx.plain(on["i"])]
        checked.append((ids, [list(r) for r in ctx.rows(on, list(kinds), kinds)], list(on.columns)))
        shift(ctx, on, buffer)

    def rows(res):
        return [list(r) for r in ctx.rows(res, COLS, OUT | {"t": tkind})]

    def post(k, kind):
        given[k] = ([], [])

        def post(buffer, bin_res, snap_res=None):
            given[k][0].extend(rows(bin_res))
            if snap_res is not None:
                given[k][1].extend(rows(snap_res))
            return {"snaps": snap_res, "both": (bin_res, snap_res)}.get(kind, bin_res)

        return post

    thr = ctx.int("thr", 0, 2)
    main = cls("a")
    conf = {(main, cls("s")) if out == "both" else main: kw | {"post": post("a", out), "ordered_on": "t"}}
    filters, keep = None, {"a": lambda i: True}
    if filt:
        conf = {"f": conf, "g": {cls("b"): kw | {"post": post("b", out), "ordered_on": "t"}}}
        filters = {"f": [("c", ">=", thr)], "g": [("c", "<", thr)]}
        keep = {"a": lambda i: seed.c[i] >= thr, "b": lambda i: seed.c[i] < thr}
    st, prev, before, obs = None, 0, {}, []
    for j, flags in enumerate(runs):
        hi = n if j == len(runs) - 1 else ctx.choice(f"run{j}", range(1, n + 1))
        first = 0 if "t" in flags else prev
        ctx.assume(prev <= hi)
        ctx.assume(first < hi)
        k = chunks if empty else min(chunks, hi - first)
        bounds = cut(ctx, f"cut{j}_", first, hi, k, empty=empty)
        if st is None or fresh:
            st = mk_stream(ctx, reopen(store), conf, SPEC, max_in_memory_size=mem, pre=pre,
                           filters=filters)
        checked.clear()
        for g in given.values():
            g[0].clear()
            g[1].clear()
        data = seed.chunks(bounds)
        was = [[list(r) for r in ctx.rows(d, list(kinds), kinds)] for d in data]
        cols = [list(d.columns) for d in data]
        _, err = ctx.call(st.agg, data, trim_start="t" in flags, discard_last="d" in flags)
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        prev = hi
        # Check of the user.
        ctx.check("the check is called once per chunk, on its rows",
                  [c[0] for c in checked] == [list(range(a, b)) for a, b in zip(bounds, bounds[1:])])
        for c, w, names in zip(checked, was, cols):
            ctx.check("the check is given all columns", sorted(c[2]) == sorted(names))
            same_rows(ctx, "rows given to the check", c[1], w)
        # Post-processing.
        ids = [i for i in range(hi) if "d" not in flags or bool(seed.t[i] < seed.t[hi - 1])]
        for k, cond in keep.items():
            sub = [i for i in ids if bool(cond(i))]
            exp = ([], [])
            if sub:
                df = seed.frame(sub)
                shift(ctx, df, {})
                exp = whole(ctx, df, SPEC, KINDS | {"t": tkind}, **one)
            old = before.get(k, (0, 0))
            for label, got, e, m in zip(("bins", "snaps"), given[k], exp, old):
                more = len(e) - m
                ctx.check(f"number of {label} given", more <= len(got) <= more + (m > 0))
                same_rows(ctx, f"{label} given", got, e[len(e) - len(got):] if got else [])
            before[k] = tuple(map(len, exp))
            obs.append([[list(r) for r in g] for g in given[k]])
    return obs


def _a17():
    for by in ("freq", "rows", 2):
        for closed in (LEFT, RIGHT):
            tk = "ts" if by == "freq" else "half"
            case("A17", user_calls, f"{by}-{closed}", by=by, closed=closed, n=4, runs=("",), chunks=3,
                 mem=MEM, tkind=tk)
            case("A17", user_calls, f"{by}-{closed}-again", by=by, closed=closed, n=4, runs=("d", "td"),
                 chunks=2, tkind=tk)
            case("A17", user_calls, f"{by}-{closed}-same", by=by, closed=closed, n=4, runs=("", ""),
                 chunks=2, tkind=tk, fresh=False)
    for closed in (LEFT, RIGHT):
        for out in ("snaps", "both"):
            case("A17", user_calls, f"{out}-{closed}", by="freq", closed=closed, n=3, runs=("", ""),
                 chunks=2, snap="freq", out=out, mem=(0, 2**27))
            case("A17", user_calls, f"{out}-{closed}-rare", by="freq", closed=closed, n=4, runs=("",),
                 chunks=4, snap="freq", out=out, mem=0, span=25, sfreq=20)
    for flags in (("",), ("d", "t")):
        case("A17", user_calls, f"filt-{len(flags)}", by="freq", n=3, runs=flags, chunks=2, filt=True)
    for by in ("freq", "rows"):
        case("A17", user_calls, f"{by}-5", by=by, n=5, runs=("",), chunks=5, mem=(*MEM, 400), span=16)
    case("A17", user_calls, "empty", by="freq", n=3, runs=("d", "t"), chunks=2, empty=True)


_a17()


# -- A11 -----------------------------------------------------------------
def failing(ctx, n, chunks, how, flags, mem=140, span=14, filt=False, first=0, fresh=True,
            by="freq", tkind="ts", lo=1, errors=(ValueError,), final=True):
    """
    A chunk is refused; the stream is then restarted on valid data.

    If not `final`, results are asked to be kept in memory, and written afterwards.

    A first run takes place before, on `first` rows, without discarding the last ones.
    """
    from oups.aggstream.aggstream import SeedPreException

    seed = Seed(ctx, n, span, tkind, lo, strict=by == "rows")
    store, cls = mk_store(ctx)
    thr = ctx.int("thr", 0, 2)
    kw, one = segmentation(ctx, by, LEFT, 2, span, tkind, last=seed.t[-1])
    keys = {cls("a"): lambda i: True}
    conf, filters = cls("a"), None
    if filt:
        keys = {cls("a"): lambda i: seed.c[i] >= thr, cls("b"): lambda i: seed.c[i] < thr}
        conf = {"f": {cls("a"): dict(kw)}, "g": {cls("b"): dict(kw)}}
        filters = {"f": [("c", ">=", thr)], "g": [[("c", "<", thr)]]}
    trim = "d" in flags
    bad = ctx.choice("bad", range(chunks))
    state = {"fail": False, "n": 0}
    error = ctx.choice("error", errors)

    def pre(on, buffer):
        state["n"] += 1
        if state["fail"] and state["n"] == bad + 1:
            raise error("refused chunk")

    def new():
        base = {} if filt else dict(kw)
        return mk_stream(ctx, reopen(store), conf, SPEC, max_in_memory_size=mem, pre=pre,
                         filters=filters, **base)

    def verify(ids, label):
        s = reopen(store)
        obs = []
        for k, cond in keys.items():
            sub = [i for i in ids if bool(cond(i))]
            exp = whole(ctx, seed.frame(sub), SPEC, KINDS | {"t": tkind}, **one)[0] if sub else []
            got = stored(ctx, s, k, COLS, tkind) or []
            same_rows(ctx, label, got, exp)
            obs.append(got)
        return obs

    st = new()
    if first:
        _, err = ctx.call(st.agg, seed.chunks([0, first]))
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
    bounds = cut(ctx, "cut", first, n, chunks)
    data = seed.chunks(bounds)
    if how == "order":
        a, b = bounds[bad], bounds[bad + 1]
        ctx.assume(b - a > 1)
        ctx.assume(seed.t[a] < seed.t[b - 1])
        data[bad] = seed.frame([b - 1, *range(a, b - 1)])
    elif how == "swap":
        # Any two consecutive rows of the chunk, swapped.
        a, b = bounds[bad], bounds[bad + 1]
        ctx.assume(b - a > 1)
        k = ctx.choice("swap", range(n - 1))
        ctx.assume(a <= k < b - 1)
        ctx.assume(seed.t[k] < seed.t[k + 1])
        data[bad] = seed.frame([*range(a, k), k + 1, k, *range(k + 2, b)])
    if fresh:
        st = new()
    state.update(fail=how == "pre", n=0)
    _, err = ctx.call(st.agg, iter(data), discard_last=trim, final_write=final)
    ctx.check(f"the exception is raised ({err!r:.60})", isinstance(err, SeedPreException))
    if how == "pre":
        ctx.check("the message is that of the user", "refused chunk" in str(err))
    if not final:
        _, err = ctx.call(st.agg)
        ctx.check(f"results are written ({err!r:.60})", err is None)
    done = list(range(bounds[bad]))
    if trim and bad:
        # Rows of first run have all been aggregated.
        done = [i for i in done if i < first or bool(seed.t[i] < seed.t[bounds[bad] - 1])]
    obs = [verify(done, "after the failure")]
    # Restart, on valid data.
    state["fail"] = False
    if fresh:
        st = new()
    if trim and bad:
        # Rows of the first run are not given again (they were not discarded).
        rest = seed.chunks([first, n])
    else:
        rest = seed.chunks([bounds[bad], n])
    _, err = ctx.call(st.agg, rest, trim_start=bool(trim and bad))
    ctx.check(f"restart is accepted ({err!r:.60})", err is None)
    obs.append(verify(list(range(n)), "after the restart"))
    return obs


class Refusal(Exception):
    pass


def _a11():
    for flags in ("", "d"):
        case("A11", failing, f"pre-{flags or 'o'}-errors", n=3, chunks=2, how="pre", flags=flags,
             errors=(Refusal, AssertionError, KeyError, RuntimeError, TypeError))
        case("A11", failing, f"swap-{flags or 'o'}", n=4, chunks=2, how="swap", flags=flags)
        case("A11", failing, f"pre-{flags or 'o'}-kept", n=4, chunks=2, how="pre", flags=flags, first=1,
             final=False)
        case("A11", failing, f"order-{flags or 'o'}-kept", n=4, chunks=3, how="order", flags=flags,
             final=False)
    for how in ("pre", "order"):
        for flags in ("", "d"):
            name = f"{how}-{flags or 'o'}"
            case("A11", failing, name, n=4, chunks=2, how=how, flags=flags, first=1)
            case("A11", failing, f"{name}-3", n=4, chunks=3, how=how, flags=flags, fresh=False)
            case("A11", failing, f"{name}-filt", n=3, chunks=2, how=how, flags=flags, filt=True,
                 span=11)
            case("A11", failing, f"{name}-mem", n=5, chunks=4, how=how, flags=flags, mem=0)
            case("A11", failing, f"{name}-rows", n=4, chunks=3, how=how, flags=flags, by="rows",
                 tkind="tick")
            case("A11", failing, f"{name}-int", n=4, chunks=2, how=how, flags=flags, by=2,
                 tkind="half", span=4, lo=-1)


_a11()


# -- A12 -----------------------------------------------------------------
OTHER = {"m": ("v", "max"), "n": ("w", "min"), "l": ("x", "last"), "q": ("w", "sum")}

# Per filter, the keys: segmentation, settings.
LAYOUTS = {
    "same": {"_": ("freq", "rows")},
    "kinds": {"_": ("freq", "both")},
    "snaps": {"_": ("snaps", "scale")},
    "two": {"f": ("freq",), "g": ("freq",)},
    "split": {"f": ("rows",), "g": ("snaps",)},
    "mixed": {"f": ("freq", "rows"), "_": ("freq",)},
    "over": {"f": ("freq",), "h": ("both",)},
    "given": {"f": ("freq",), "_": ("rows",)},
    "three": {"_": ("freq", "rows", "freq")},
}


def apart(ctx, layout, n, runs=("",), chunks=1, span=14, tkind="ts", lo=1, mem=140, budget=0,
          low=(), parallel=True, delays=0, reverse=None, given=False, shared=None):
    """
    Several keys on a same seed: each one has the results it would have alone.

    `low`: ranks of keys having results written as soon as possible.
    """
    seed = Seed(ctx, n, span, tkind, lo, strict=True)
    store, cls = mk_store(ctx)
    layout = LAYOUTS[layout]
    thr = ctx.int("thr", 0, 2)
    formula = {
        "f": ([[("c", ">=", thr)]], lambda i: seed.c[i] >= thr),
        "g": ([("c", "<", thr)], lambda i: seed.c[i] < thr),
        "h": ([[("c", "==", thr)], [("c", ">", 1)]],
              lambda i: any_of([seed.c[i] == thr, seed.c[i] > 1])),
        "_": (None, lambda i: True),
    }
    keys, exp_of = {}, []
    for f, kinds in layout.items():
        keys[f] = {}
        for kind in kinds:
            r = len(exp_of)
            by = {"rows": "rows", "scale": 2}.get(kind, "freq")
            kw, one = segmentation(ctx, by, LEFT, 2, span, tkind, last=seed.t[-1],
                                   snap="freq" if kind in ("snaps", "both") else None,
                                   freq=FREQ if r == 0 else 4)
            key = (cls(f"k{r}"), cls(f"s{r}")) if kind == "both" else cls(f"k{r}")
            spec = SPEC if r % 2 == 0 else OTHER
            kw["agg"] = spec
            if r in low:
                kw["max_in_memory_size"] = 0
            if by != "freq":
                kw["ordered_on"] = "t"
            keys[f][key] = kw
            exp_of.append((key, kind, one, spec, formula[f][1]))
    filters = {f: formula[f][0] for f in layout if f != "_"} or None
    conf = keys if filters else keys["_"]
    if given:
        filters["_"] = None
    prev = 0
    for j, flags in enumerate(runs):
        hi = n if j == len(runs) - 1 else ctx.choice(f"run{j}", range(1, n + 1))
        ctx.assume(prev <= hi)
        first = 0 if "t" in flags else prev
        ctx.assume(first < hi)
        bounds = cut(ctx, f"cut{j}_", first, hi, min(chunks, hi - first))
        st = mk_stream(ctx, reopen(store), conf, SPEC, max_in_memory_size=mem, filters=filters,
                       parallel=parallel)
        with ctx.schedule(budget if j == len(runs) - 1 else 0, delays, reverse, shared):
            _, err = ctx.call(
                st.agg, seed.chunks(bounds), trim_start="t" in flags, discard_last="d" in flags
            )
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        prev = hi
    ids = [i for i in range(n) if "d" not in runs[-1] or bool(seed.t[i] < seed.t[n - 1])]
    obs, index, done = [], [], []
    store = reopen(store)
    for key, kind, one, spec, cond in exp_of:
        sub = [i for i in ids if bool(cond(i))]
        exp = whole(ctx, seed.frame(sub), spec, KINDS | {"t": tkind}, **one) if sub else ([], [])
        pairs = {"both": zip(key, exp) if kind == "both" else None, "snaps": [(key, exp[1])]}
        for k, e in pairs.get(kind, [(key, exp[0])]):
            got = stored(ctx, store, k, ["t", *spec], tkind) or []
            same_rows(ctx, kind, got, e)
            obs.append(got)
        md = store_md(ctx, store, key[0] if kind == "both" else key)
        index.append(None if md is None else ctx.scalar(md["restart_index"], tkind))
        done += sub
    ctx.check("same restart index for all keys", all_of([eq(i, index[0]) for i in index[1:]]))
    if done:
        # Rows that no key keeps may not be taken into account.
        ctx.check("state is recorded", index[0] is not None)
        out = index[0] > seed.t[max(done)] if "d" in runs[-1] else index[0] >= seed.t[max(done)]
        ctx.check("restart index is not before rows processed", out)
        ctx.check("restart index is that of a row", index[0] <= seed.t[n - 1])
    return obs


def _a12():
    for name, k in (("same", 1), ("kinds", 1), ("snaps", 1), ("three", 1)):
        case("A12", apart, name, layout=name, n=3, runs=("", ""), chunks=k, span=9, weight=4)
        case("A12", apart, f"{name}-low", layout=name, n=3, chunks=3, mem=0, span=8)
    for name in ("two", "split", "mixed", "over"):
        heavy = name in ("mixed", "over")
        case("A12", apart, name, layout=name, n=2 if heavy else 3, runs=("d", "t"), chunks=1,
             span=9, weight=4)
        case("A12", apart, f"{name}-low", layout=name, n=2 if heavy else 3, chunks=2 + (not heavy),
             low=(1,), span=9, weight=2)
    case("A12", apart, "given", layout="given", n=2, runs=("d", "t"), span=9, given=True, weight=4)
    case("A12", apart, "delay", layout="same", n=3, chunks=2, span=8, delays=1, weight=3)
    case("A12", apart, "delay-two", layout="kinds", n=2, chunks=2, span=8, delays=1, mem=0)
    for name, n in (("same", 2), ("two", 2), ("kinds", 1)):
        for rev in (False, True):
            case("A12", apart, f"{name}-cut{int(rev)}", layout=name, n=n, span=n, budget=1,
                 reverse=rev, weight=20)
            case("A12", apart, f"{name}-run-cut{int(rev)}", layout=name, n=2, runs=("d", "t"),
                 span=2, budget=1, reverse=rev, tier="thorough")
            case("A12", apart, f"{name}-cut-more{int(rev)}", layout=name, n=3, lo=3, span=7,
                 chunks=2, mem=0, budget=1, reverse=rev, tier="thorough")
    for name in LAYOUTS:
        case("A12", apart, f"{name}-3", layout=name, n=3, runs=("d", "t"), chunks=2, span=11,
             delays=1, tier="thorough")
        case("A12", apart, f"{name}-3low", layout=name, n=3, runs=("",), chunks=3, span=11,
             delays=1, mem=0, tier="thorough")
    for i in range(4):
        case("A12", apart, f"same-shared{i}", layout="same", n=1, span=1, budget=2, reverse=False,
             shared=(i, 4), weight=20)
        case("A12", apart, f"two-shared{i}", layout="same", n=2, lo=2, span=2, runs=("", ""),
             budget=2, reverse=False, shared=(i, 4), tier="thorough")
        case("A12", apart, f"three-shared{i}", layout="three", n=1, span=1, budget=2,
             shared=(i, 4), tier="thorough")
        case("A12", apart, f"same-shared3{i}", layout="same", n=1, span=1, budget=3, reverse=False,
             shared=(i, 4), tier="thorough")


_a12()


# -- S15 -----------------------------------------------------------------
def image(x):
    """Content of nested settings; other objects are kept as they are."""
    if isinstance(x, dict):
        return {k: image(v) for k, v in x.items()}
    if isinstance(x, list):
        return [image(v) for v in x]
    return x


def as_given(ctx, label, x, was):
    ctx.check(label, type(x) is type(was) or isinstance(x, type(was)))
    if isinstance(was, dict):
        ctx.check(label, list(x) == list(was))
        for k in was:
            as_given(ctx, label, x[k], was[k])
    elif isinstance(was, list):
        ctx.check(label, len(x) == len(was))
        for a, b in zip(x, was):
            as_given(ctx, label, a, b)
    else:
        ctx.check(label, x is was)


def settings_kept(ctx, n, runs, span=9, filt=None):
    """Settings and seeds given to streams are as they were, and can be given again."""
    seed = Seed(ctx, n, span, strict=True)
    thr = ctx.int("thr", 0, 2)
    grp, snap = grouper(FREQ, LEFT, LEFT), grouper(4, LEFT, RIGHT)
    kw, _ = segmentation(ctx, "rows")
    store, cls = mk_store(ctx)
    a, b, c, d = (cls(x) for x in "abcd")
    small = {"s": ("w", "sum")}
    filt = filt or ctx.choice("filt", ["none", "two", "plain", "all"])
    conf = {a: {"bin_by": grp, "agg": small, "max_in_memory_size": 0}, b: {"ordered_on": "t", **kw}}
    filters, base = None, conf
    if filt != "none":
        base = {"f": conf, "g": {(c, d): {"bin_by": grp, "snap_by": snap}}}
        filters = {"f": [("c", ">=", thr)], "g": [[("c", "<", thr)], [("c", "in", {5})]]}
    if filt in ("plain", "all"):
        base["_"] = base.pop("g")
        del filters["g"]
    if filt == "all":
        filters["_"] = None
    agg = dict(SPEC)
    args = {"keys": base, "filters": filters, "agg": agg}
    was = image(args)
    attrs = [(g.key, g.freq, g.closed, g.label, g.origin, g.offset) for g in (grp, snap)]
    prev, ids = 0, []
    for j, flags in enumerate(runs):
        hi = n if j == len(runs) - 1 else ctx.choice(f"run{j}", range(1, n + 1))
        first = 0 if "t" in flags else prev
        ctx.assume(prev <= hi)
        ctx.assume(first < hi)
        st, err = ctx.call(mk_stream, ctx, reopen(store), args["keys"], agg, filters=filters)
        ctx.check(f"settings are accepted ({err!r:.60})", err is None)
        data = seed.chunks(cut(ctx, f"cut{j}_", first, hi, min(2, hi - first)))
        given = [(list(df.columns), [list(r) for r in ctx.rows(df, list(df.columns))]) for df in data]
        seeds = list(data)
        if ctx.choice(f"one{j}", [True, False]) and len(data) == 1:
            seeds = data[0]
        _, err = ctx.call(st.agg, seeds, trim_start="t" in flags, discard_last="d" in flags)
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        ctx.check("seeds are as given", len(given) == len(data))
        for df, (cols, rows) in zip(data, given):
            ctx.check("columns of seeds are as given", list(df.columns) == cols)
            ctx.check("rows of seeds are as given", len(df) == len(rows))
            ctx.check("index of seeds is as given", list(df.index) == list(range(len(rows))))
            for x, y in zip(ctx.rows(df, cols), rows):
                ctx.check("values of seeds are as given", seq_eq(list(x), y))
        as_given(ctx, "settings are as given", args, was)
        now = [(g.key, g.freq, g.closed, g.label, g.origin, g.offset) for g in (grp, snap)]
        ctx.check("groupers are as given", now == attrs)
        prev = hi
        ids.append(hi)
    return ids


for _f in ("none", "two", "plain", "all"):
    case("S15", settings_kept, f"stream-{_f}", n=2, runs=("d", "t"), weight=6, filt=_f)
    case("S15", settings_kept, f"stream-{_f}-more", n=3, runs=("", ""), span=6, weight=6, filt=_f,
         tier="thorough")


# -- A14 -----------------------------------------------------------------
class Notes:
    """User functions with a buffer: they note what is in when they are first called in a run."""

    def __init__(self, ctx, warm, tkind):
        self.ctx, self.warm, self.tkind = ctx, warm, tkind
        self.found, self.left = {}, {}

    def _note(self, name, buffer, **new):
        self.found.setdefault(name, dict(buffer))
        buffer.update(n=buffer.get("n", 0) + 1, **new)
        self.left[name] = dict(buffer)

    def pre(self, on, buffer):
        kinds = {"t": self.tkind, "v": KINDS["v"]}
        last = {k: self.ctx.scalar(on[k].iloc[-1], x) for k, x in kinds.items()}
        self._note("pre", buffer, **last)

    def post(self, name, kind):
        def post(buffer, bin_res, snap_res=None):
            self._note(name, buffer, rows=buffer.get("rows", 0) + len(bin_res))
            if buffer["n"] <= self.warm:
                return None
            return {"both": (bin_res, snap_res), "snaps": snap_res}.get(kind, bin_res)

        return post


def by_grid(ctx, step, lo, hi, tkind):
    """Scale with regular ends."""
    from oups.aggstream.segmentby import by_scale

    ends = list(range(lo + step, hi + step + 1, step))
    return {"bin_by": partial(by_scale, by=ctx.series(ends, tkind), closed=LEFT), "bin_on": "t"}


def kept(ctx, n, runs, chunks=1, tkind="int", lo=-2, span=2, kinds=("scale", "rows"), filt=False,
         mem=140, fresh=True, warm=0):
    """
    State recorded at each run, and found at next one.

    `post` functions give no result for their `warm` first calls.
    """
    from oups.aggstream.segmentby import by_x_rows

    seed = Seed(ctx, n, span, tkind, lo, strict=True)
    store, cls = mk_store(ctx)
    thr = ctx.int("thr", 0, 2)
    notes = Notes(ctx, warm, tkind)
    confs, mains = [], {}
    for r, kind in enumerate(kinds):
        if kind == "rows":
            kw = {"bin_by": partial(by_x_rows, by=2), "bin_on": "t"}
        elif kind == "scale":
            kw = by_grid(ctx, 2 + r, lo, span, tkind)
        else:
            kw = {"bin_by": grouper(FREQ, LEFT, LEFT), "snap_by": grouper(4, LEFT, RIGHT)}
        key = (cls(f"k{r}"), cls(f"s{r}")) if kind == "both" else cls(f"k{r}")
        mains[f"post{r}"] = key[0] if kind == "both" else key
        confs.append({key: {"ordered_on": "t", "post": notes.post(f"post{r}", kind), **kw}})
    filters = None
    conf = {k: v for c in confs for k, v in c.items()}
    if filt:
        filters = {"f": [("c", ">=", thr)], "g": [("c", "<", thr)]}
        conf = {"f": confs[0], "g": confs[1]}
    agg = {"s": ("w", "sum"), "l": ("x", "last")}
    obs, prev, st, recorded, index = [], 0, None, {}, None
    for j, flags in enumerate(runs):
        hi = n if j == len(runs) - 1 else ctx.choice(f"run{j}", range(1, n + 1))
        first = 0 if "t" in flags else prev
        ctx.assume(first < hi)
        bounds = cut(ctx, f"cut{j}_", first, hi, min(chunks, hi - first))
        if st is None or fresh:
            st = mk_stream(ctx, reopen(store), conf, agg, max_in_memory_size=mem, filters=filters,
                           pre=notes.pre)
        notes.found, notes.left = {}, {}
        _, err = ctx.call(
            st.agg, seed.chunks(bounds), trim_start="t" in flags, discard_last="d" in flags
        )
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        prev = hi
        # Buffers are found as they have been recorded.
        for name, found in notes.found.items():
            exp = recorded.get(name, {})
            ctx.check(f"{name[:4]} buffer is kept", found.keys() == exp.keys())
            for x in found:
                ctx.check(f"{name[:4]} buffer is kept", eq(found[x], exp[x]))
        found = {} if fresh else dict(notes.left)
        done = range(first, hi - ("d" in flags))
        if "t" in flags and index is not None:
            done = [i for i in done if bool(index <= seed.t[i])]
        if len(done):
            index = seed.t[hi - 1]
        for name, key in mains.items():
            md = store_md(ctx, store, key)
            if index is None:
                ctx.check("no state without data", md is None)
                continue
            ctx.check("state is recorded", md is not None)
            got = ctx.scalar(md["restart_index"], tkind)
            obs.append(got)
            ctx.check("restart index is last one of the seed", eq(got, index))
            for x, rec in (("pre", md["pre_buffer"]), (name, md["post_buffer"])):
                rec = {k: ctx.scalar(v) for k, v in rec.items()}
                if len(done):
                    exp = notes.left.get(x, recorded.get(x, {}))
                    ctx.check(f"{x[:4]} buffer is recorded", rec.keys() == exp.keys())
                    for y in exp:
                        ctx.check(f"{x[:4]} buffer is recorded", eq(rec[y], exp[y]))
                if fresh:
                    found[x] = rec
        recorded.update(found)
    return obs


def refused_of_three(ctx, n, tkind="int", lo=-1, span=1):
    """Existing datasets of three keys, each possibly missing, and whether a stream on all is accepted."""
    seed = Seed(ctx, n, span, tkind, lo)
    store, cls = mk_store(ctx)
    kw = {"agg": {"s": ("w", "sum")}, "ordered_on": "t", **by_grid(ctx, 2, lo, span, tkind)}
    conf = {cls(k): kw for k in "abc"}
    known = []
    for k in conf:
        m = ctx.choice(f"n_{k.name}", range(n + 1))
        if m:
            st = mk_stream(ctx, reopen(store), {k: kw}, {})
            _, err = ctx.call(st.agg, seed.frame(range(m)), discard_last=False)
            ctx.check(f"seed is accepted ({err!r:.60})", err is None)
            known.append(seed.t[m - 1])
    st, err = ctx.call(mk_stream, ctx, reopen(store), conf, {})
    same = all_of([eq(a, b) for a, b in zip(known, known[1:])])
    if err is None:
        ctx.check("different restart indexes are refused", same)
    else:
        ctx.check("refused by a ValueError", isinstance(err, ValueError))
        ctx.check("same restart index is accepted", no(same))
    return err is None


def refused(ctx, n, how, tkind="int", lo=-1, span=1, both=False):
    """Existing datasets of two keys, and whether a stream on both is accepted."""
    from oups.store.writer import OUPS_METADATA

    seed = Seed(ctx, n, span, tkind, lo)
    store, cls = mk_store(ctx)
    ka, kb, main = cls("a"), cls("b"), cls("b")
    kw = {"agg": {"s": ("w", "sum")}, "ordered_on": "t", **by_grid(ctx, 2, lo, span, tkind)}
    conf = {ka: kw, kb: kw}
    if both:
        kb = (main, cls("s"))
        snaps = {"bin_by": grouper(FREQ, LEFT, LEFT), "snap_by": grouper(4, LEFT, RIGHT)}
        conf = {ka: kw, kb: {"agg": {"s": ("w", "sum")}, **snaps}}
    first = ctx.choice("first", [ka, kb])
    i = ctx.choice("i", range(0 if how == "foreign" else 1, n + 1))
    if how == "foreign":
        mine, other = (ka, main) if first == ka else (kb, ka)
        if i:
            st = mk_stream(ctx, reopen(store), {mine: conf[mine]}, {})
            _, err = ctx.call(st.agg, seed.frame(range(i)), discard_last=False)
            ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        md = ctx.choice("md", ["", "kv", "oups"])
        j = ctx.choice("j", range(0, n + 1))
        s = reopen(store)
        df = ctx.frame({"t": (seed.t[:j], tkind), "s": (seed.v[:j], "float")})
        if md == "oups":
            OUPS_METADATA[other] = {"something": {"restart_index": 0}}
        s[other] = {"ordered_on": "t", "metadata": {"aggstream": "1"} if md == "kv" else None}, df
        st, err = ctx.call(mk_stream, ctx, reopen(store), conf, {})
        ctx.check("foreign dataset is refused", isinstance(err, ValueError))
        return str(err)
    j = ctx.choice("j", range(0 if how == "subset" else 1, n + 1))
    for k, m in ((ka, i), (kb, j)) if first == ka else ((kb, j), (ka, i)):
        if m:
            st = mk_stream(ctx, reopen(store), {k: conf[k]}, {})
            _, err = ctx.call(st.agg, seed.frame(range(m)), discard_last=False)
            ctx.check(f"seed is accepted ({err!r:.60})", err is None)
    st, err = ctx.call(mk_stream, ctx, reopen(store), conf, {})
    if j == 0:
        ctx.check(f"new key is accepted ({err!r:.60})", err is None)
        rec = []
        st = mk_stream(
            ctx, reopen(store), conf, {}, pre=lambda on, buffer: rec.append(len(on))
        )
        # Restart takes place from the state of existing key.
        _, err = ctx.call(st.agg, seed.frame(range(n)), trim_start=True, discard_last=False)
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        got = stored(ctx, reopen(store), main if both else kb, ["t", "s"], tkind)
        kept = [k for k in range(n) if bool(seed.t[i - 1] <= seed.t[k])]
        total = sum((g[1] for g in got if g[1] is not None), 0)
        ctx.check("rows from restart index", total == sum((seed.v[k] for k in kept), 0))
        return got
    same = eq(seed.t[i - 1], seed.t[j - 1])
    if err is None:
        ctx.check("different restart indexes are refused", same)
    else:
        ctx.check("refused by a ValueError", isinstance(err, ValueError))
        ctx.check("same restart index is accepted", no(same))
    return err is None


class Cut(Exception):
    pass


def interrupted(ctx, n, how, by="freq", closed=LEFT, out="bins", mem=0, chunks=2, span=12,
                tkind="ts", lo=1, fresh=True):
    """
    A run with no final write, between two runs: its rows are those to be given again.

    `how`: seed itself is interrupted, or final write is not requested, or a call of the user's
    `post` or `bin_by` raises.
    """
    seed = Seed(ctx, n, span, tkind, lo, strict=by == "rows")
    store, cls = mk_store(ctx)
    snap = "freq" if out != "bins" else None
    kw, one = segmentation(ctx, by, closed, 2, span, tkind, snap, last=seed.t[-1])
    key = (cls("a"), cls("b")) if out == "both" else cls("a")

    calls = {"left": -1, "raised": False}

    def user(f, *args, **kwargs):
        if calls["left"] == 0:
            calls["raised"] = True
            raise Cut()
        calls["left"] -= 1
        return f(*args, **kwargs)

    if how == "post":
        plain = {
            "bins": lambda buffer, bin_res: bin_res,
            "snaps": lambda buffer, bin_res, snap_res: snap_res,
            "both": lambda buffer, bin_res, snap_res: (bin_res, snap_res),
        }
        kw["post"] = partial(user, plain[out])
    elif how == "bin":
        kw["bin_by"] = partial(user, kw["bin_by"])

    def new():
        return mk_stream(ctx, reopen(store), key, SPEC, max_in_memory_size=mem, **kw)

    a = ctx.choice("a", range(1, n + 1))
    b = ctx.choice("b", range(1, n + 1))
    ctx.assume(a <= b)
    # Restart index has to be recorded.
    ctx.assume(seed.t[0] < seed.t[a - 1])
    st = new()
    _, err = ctx.call(st.agg, seed.chunks([0, a]), discard_last=True)
    ctx.check(f"seed is accepted ({err!r:.60})", err is None)
    if fresh:
        st = new()
    data = seed.chunks(cut(ctx, "cut", 0, b, min(chunks, b)))
    if how == "seed":

        def it():
            yield from data
            raise Cut()

        _, err = ctx.call(st.agg, it(), trim_start=True, discard_last=True)
        ctx.check("the exception is raised", isinstance(err, Cut))
    elif how in ("post", "bin"):
        calls["left"] = ctx.choice("at", range(chunks + (how == "post")))
        _, err = ctx.call(st.agg, data, trim_start=True, discard_last=True)
        calls["left"] = -1
        ctx.check(f"the exception is raised ({err!r:.60})", isinstance(err, Cut) == calls["raised"])
        ctx.check(f"no other exception ({err!r:.60})", err is None or calls["raised"])
    else:
        _, err = ctx.call(st.agg, data, trim_start=True, discard_last=True, final_write=False)
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
    if fresh:
        st = new()
    _, err = ctx.call(st.agg, seed.chunks([0, n]), trim_start=True)
    ctx.check(f"seed is accepted ({err!r:.60})", err is None)
    exp = whole(ctx, seed.frame(range(n)), SPEC, KINDS | {"t": tkind}, **one)
    pairs = zip(key, exp) if out == "both" else [(key, exp[out == "snaps"])]
    obs = []
    for k, e in pairs:
        got = stored(ctx, reopen(store), k, COLS, tkind) or []
        same_rows(ctx, "after restart", got, e)
        obs.append(got)
    return obs


def _a14():
    for runs in (("", ""), ("d", "td"), ("", "", ""), ("d", "td", "t")):
        name = "-".join(x or "o" for x in runs)
        n = 4
        for tkind, lo, span in (("int", -2, 2), ("ts", 1, 7)):
            case("A14", kept, f"{name}-{tkind}", n=n, runs=runs, tkind=tkind, lo=lo, span=span)
            other = "half" if tkind == "int" else "tick"
            case("A14", kept, f"{name}-{tkind}-same", n=n, runs=runs, tkind=other, lo=lo, span=span,
                 fresh=False)
            case("A14", kept, f"{name}-{tkind}-filt", n=3, runs=runs, tkind="num" if tkind == "int" else "tick", lo=lo,
                 span=span if tkind == "int" else 5, filt=True)
            case("A14", kept, f"{name}-{tkind}-low", n=n, runs=runs, tkind=tkind, lo=lo, span=span,
                 chunks=2, mem=0)
        case("A14", kept, f"{name}-snaps", n=3, runs=runs, tkind="ts", lo=1, span=9,
             kinds=("both", "snaps"))
        case("A14", kept, f"{name}-warm", n=n, runs=runs, tkind="int", kinds=("scale",), warm=1)
    case("A14", refused_of_three, "three-int", n=3)
    case("A14", refused_of_three, "three-ts", n=2, tkind="ts", lo=1, span=3)
    for how in ("index", "foreign", "subset"):
        case("A14", refused, f"{how}-int", n=3, how=how)
        case("A14", refused, f"{how}-ts", n=3, how=how, tkind="ts", lo=1, span=3)
        case("A14", refused, f"{how}-both", n=3, how=how, tkind="ts", lo=1, span=3, both=True)
    for how in ("seed", "keep"):
        for by in ("freq", "rows", 2):
            for closed in (LEFT, RIGHT):
                case("A14", interrupted, f"{how}-{by}-{closed}", n=4, how=how, by=by, closed=closed,
                     tkind="ts" if by == "freq" else "tick")
        for out in ("snaps", "both"):
            case("A14", interrupted, f"{how}-{out}", n=4, how=how, out=out, span=8)
        case("A14", interrupted, f"{how}-int", n=4, how=how, by=2, tkind="half", lo=-2, span=2)
    for by in ("freq", "rows", 2):
        tk = "ts" if by == "freq" else "half"
        for how in ("post", "bin")[: 1 + (by != "freq")]:
            for k in (3,) if by == "rows" else (2, 3):
                # Results of each chunk are written at once.
                size = dict(how=how, by=by, n=4, chunks=k, tkind=tk, mem=-1,
                            tier="thorough" if k == 3 and by != "rows" else "quick")
                case("A14", interrupted, f"{how}-{by}-{k}", **size)
                if how == "post":
                    case("A14", interrupted, f"post-{by}-{k}-same", fresh=False, **size)
    for out in ("snaps", "both"):
        case("A14", interrupted, f"post-{out}", n=3, how="post", out=out, span=8, chunks=3, mem=-1)
    case("A14", interrupted, "seed-same", n=4, how="seed", fresh=False)
    case("A14", interrupted, "seed-same-snaps", n=4, how="seed", fresh=False, out="both", span=8)


_a14()


# -- A16 -----------------------------------------------------------------
def cut_short(ctx, n, out="bins", by="freq", closed=LEFT, mem=0, chunks=2, span=12, tkind="ts",
              lo=1, first=True, fresh=True, again=False, reuse=False):
    """
    Recording of results fails at any point; the stream is then built again.

    It is either refused, or given the seed again, with the same result as if nothing happened.
    """
    seed = Seed(ctx, n, span, tkind, lo, strict=by == "rows")
    store, cls = mk_store(ctx)
    snap = "freq" if out in ("snaps", "both") else None
    kw, one = segmentation(ctx, by, closed, 2, span, tkind, snap, last=seed.t[-1])
    key = (cls("a"), cls("b")) if out == "both" else cls("a")
    if out == "two":
        key, kw = {cls("a"): dict(kw), cls("b"): dict(kw)}, {}

    def new():
        return ctx.call(mk_stream, ctx, reopen(store), key, SPEC, max_in_memory_size=mem, **kw)

    st, err = new()
    ctx.check(f"stream is accepted ({err!r:.60})", err is None)
    b = ctx.choice("b", range(1, n + 1))
    if first:
        a = ctx.choice("a", range(1, n + 1))
        ctx.assume(a <= b)
        # Restart index has to be recorded.
        ctx.assume(seed.t[0] < seed.t[a - 1])
        _, err = ctx.call(st.agg, seed.chunks([0, a]), discard_last=True)
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        if fresh:
            st, err = new()
            ctx.check(f"stream is accepted ({err!r:.60})", err is None)
    data = seed.chunks(cut(ctx, "cut", 0, b, min(chunks, b)))
    at = ctx.int("fails_at", 0, n * (2 if out in ("both", "two") else 1))
    with ctx.failing(at) as hit, ctx.schedule():
        _, err = ctx.call(st.agg, data, trim_start=first, discard_last=True)
    if not hit():
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        ctx.cover("no failure")
        return None
    ctx.cover("failure")
    ctx.check(f"failure is reported ({err!r:.60})", isinstance(err, OSError))
    if again:
        # Another run, interrupted.
        st, err = new()
        if err is None:
            m = ctx.choice("m", range(1, n + 1))
            more = seed.chunks(cut(ctx, "more", 0, m, min(chunks, m)))

            def it():
                yield from more
                raise Cut()

            _, err = ctx.call(st.agg, it(), trim_start=True, discard_last=True)
            ctx.cover(f"again: {type(err).__name__}")
    if not reuse:
        st, err = new()
    else:
        err = None
    if err is None:
        _, err = ctx.call(st.agg, seed.chunks([0, n]), trim_start=True)
    if err is not None:
        # Not possible to go on, but with a data set recorded before.
        ctx.check(f"not refused ({err!r:.60})", not first or type(key) is not cls)
        ctx.cover("refused")
        return None
    exp = whole(ctx, seed.frame(range(n)), SPEC, KINDS | {"t": tkind}, **one)
    if out == "both":
        pairs = zip(key, exp)
    else:
        pairs = [(k, exp[out == "snaps"]) for k in (key if out == "two" else [key])]
    obs = []
    for k, e in pairs:
        got = stored(ctx, reopen(store), k, COLS, tkind) or []
        same_rows(ctx, "after restart", got, e)
        obs.append(got)
    return obs


def _a16():
    for by in ("freq", "rows", 2):
        for closed in (LEFT, RIGHT):
            case("A16", cut_short, f"{by}-{closed}", n=4, by=by, closed=closed,
                 tkind="ts" if by == "freq" else "tick")
            case("A16", cut_short, f"{by}-{closed}-3", n=4, by=by, closed=closed, chunks=3, mem=140)
        case("A16", cut_short, f"{by}-new", n=4, by=by, first=False, chunks=3)
    for out in ("snaps", "both"):
        case("A16", cut_short, out, n=4, out=out, span=8)
        case("A16", cut_short, f"{out}-3", n=4, out=out, span=8, chunks=3)
        case("A16", cut_short, f"{out}-new", n=4, out=out, span=8, first=False)
        case("A16", cut_short, f"{out}-same", n=4, out=out, span=8, fresh=False)
    case("A16", cut_short, "two", n=4, out="two", chunks=3)
    case("A16", cut_short, "two-rows", n=4, out="two", by="rows", chunks=3)
    case("A16", cut_short, "int", n=4, by=2, tkind="half", lo=-2, span=2)
    case("A16", cut_short, "same", n=4, fresh=False)
    case("A16", cut_short, "reuse", n=4, reuse=True)
    case("A16", cut_short, "reuse-rows", n=5, by="rows", chunks=4, reuse=True)
    case("A16", cut_short, "reuse-both", n=3, out="both", span=8, reuse=True)
    case("A16", cut_short, "again", n=3, again=True)
    case("A16", cut_short, "again-3", n=4, span=7, chunks=3, again=True)
    case("A16", cut_short, "again-rows", n=6, by="rows", chunks=4, again=True, weight=5)
    case("A16", cut_short, "again-int", n=5, by=2, chunks=4, again=True, tkind="int", lo=-1, span=1, weight=5)
    case("A16", cut_short, "again-both", n=3, out="both", span=6, chunks=3, again=True)
    case("A16", cut_short, "again-two", n=4, out="two", by="rows", chunks=3, again=True)


_a16()


# -- A15 -----------------------------------------------------------------
def marked(mark):
    """A `post` adding a column with its mark."""

    def post(buffer, bin_res, snap_res=None):
        buffer["calls"] = mark
        if snap_res is None:
            return bin_res.assign(g=mark)
        return bin_res.assign(g=mark), snap_res.assign(g=mark)

    return post


def single(post):
    """The same, only with the snapshots."""
    return lambda buffer, bin_res, snap_res: post(buffer, bin_res, snap_res)[1]


def by_ids(on, buffer, x):
    from oups.aggstream.segmentby import by_x_rows

    return by_x_rows(on=on[["i"]], buffer=buffer, by=x)


# Per setting, values for the stream, then for the key ("" is not set).
OWN = {
    "agg": (["spec"], ["", "other"]),
    "post": (["", 7], ["", None, 8]),
    "size": (["", 1, 3], ["", 1, 3]),
    "pair": (["", (1, 3)], ["", 3, (3, 1)]),
    "mem": (["", 0], ["", 0, 1]),
    "name": ([""], ["own", ""]),
    "dup": (["", "t"], ["", None, "t", "list"]),
    "snap": (["", 5], ["", None, 5, 4]),
}


def own(ctx, n, vary, by="freq", both=False, span=11, tkind="ts", runs=("",), chunks=1, filt=False,
        strict=True, x=2):
    """
    Settings given for a key, those given for the stream are for keys not having theirs.

    `vary` is the settings which are given or not; `both` is to record bins and snapshots.
    """
    seed = Seed(ctx, n, span, tkind, 1, strict=strict)
    store, cls = mk_store(ctx)
    thr = ctx.int("thr", 0, 2) if filt else None
    specs = {"spec": SPEC, "other": OTHER, "": SPEC}
    if "name" in vary:
        specs = {k: {"t": ("t", "first"), **v} for k, v in specs.items()}
    pick = lambda s, w, r: ctx.choice(f"{s}{r}", OWN[s][w]) if s in vary else ""  # noqa: E731
    base = {s: pick(s, 0, "") for s in OWN}
    params, confs, todo = {}, [], []

    def fill(conf, s, x, kind):
        if x == "":
            return
        if s == "agg":
            conf["agg"] = dict(specs[x])
        elif s == "post":
            post = None if x is None else marked(x)
            conf["post"] = single(post) if post and kind == "snaps" else post
        elif s in ("size", "pair"):
            conf["max_row_group_size"] = x
        elif s == "mem":
            conf["max_in_memory_size"] = x
        elif s == "dup":
            conf["duplicates_on"] = ["t"] if x == "list" else x
        elif s == "snap":
            conf["snap_by"] = None if x is None else grouper(x, LEFT, RIGHT)

    for r in range(2):
        mine = {s: pick(s, 1, r) for s in OWN}
        eff = {s: base[s] if mine[s] == "" else mine[s] for s in OWN}
        kw, one = segmentation(ctx, by if r else "freq", LEFT, x, span, tkind, last=seed.t[-1])
        if both and "snap" not in vary:
            kw["snap_by"] = grouper(5, LEFT, RIGHT)
            eff["snap"] = 5
        kind = "bins"
        if eff["snap"]:
            one["snap_by"] = grouper(eff["snap"], LEFT, RIGHT)
            kind = "both" if both else "snaps"
        key = (cls(f"k{r}"), cls(f"s{r}")) if kind == "both" else cls(f"k{r}")
        if by != "freq" and r:
            kw["bin_on"] = "t"
        if "name" in vary:
            # Groups of rows, their label is the identifier of their first row.
            kw["bin_by"] = one["bin_by"] = partial(by_ids, x=x if r else 2)
            one["bin_on"], one["ordered_on"], kw["bin_on"] = "i", "t", "i"
        if mine["name"]:
            kw["bin_on"] = ("i", f"b{r}")
        for s in OWN:
            fill(kw, s, mine[s], kind)
        if kind == "snaps" and mine["post"] == "" and base["post"]:
            # `post` of the stream would not fit.
            kw["post"] = single(marked(base["post"]))
        confs.append({key: kw})
        todo.append((key, kind, eff, one, f"b{r}" if mine["name"] else None))
    for s in OWN:
        if s != "name":
            fill(params, s, base[s], "both" if both else "bins")
    agg = params.pop("agg", dict(specs[""]))
    conf, filters = {k: v for c in confs for k, v in c.items()}, None
    if filt:
        conf, filters = {"f": confs[0], "_": confs[1]}, {"f": [("c", ">=", thr)]}
    prev = 0
    for j in range(len(runs)):
        hi = n if j == len(runs) - 1 else ctx.choice(f"run{j}", range(1, n + 1))
        ctx.assume(prev < hi)
        bounds = cut(ctx, f"cut{j}_", prev, hi, min(chunks, hi - prev))
        st, err = ctx.call(mk_stream, ctx, reopen(store), conf, agg, filters=filters, **params)
        ctx.check(f"settings are accepted ({err!r:.60})", err is None)
        _, err = ctx.call(st.agg, seed.chunks(bounds), discard_last=False)
        ctx.check(f"seed is accepted ({err!r:.60})", err is None)
        prev = hi
    obs = []
    store = reopen(store)
    for r, (key, kind, eff, one, name) in enumerate(todo):
        ids = [i for i in range(n) if not filt or r or bool(seed.c[i] >= thr)]
        spec = specs[eff["agg"]]
        exp = ([], [])
        if ids:
            exp = whole(ctx, seed.frame(ids), spec, KINDS | {"t": tkind}, **one)
        pairs = {"both": zip(key, exp) if kind == "both" else None, "snaps": [(key, exp[1])]}
        size = eff["pair"] if "pair" in vary else eff["size"]
        size = size if isinstance(size, tuple) else (size, size)
        for k, e, m in zip(*zip(*pairs.get(kind, [(key, exp[0])])), size):
            cols = [name or ("i" if "name" in vary else "t"), *spec]
            if eff["post"]:
                cols.append("g")
                e = [[*x, eff["post"]] for x in e]
            got = stored(ctx, store, k, cols, tkind) or []
            same_rows(ctx, kind, got, e)
            obs.append(got)
            if got and m:
                lens = [int(rg.num_rows) for rg in store[k].pf.row_groups]
                ctx.check("row groups have the size requested", max(lens) <= m)
                if len(runs) == 1 and "mem" not in vary:
                    ctx.check("row groups are not more than needed", len(lens) == 1 or sum(lens) > m)
    return obs


def rejected(ctx, n, how, span=5):
    """Settings which are not valid, among valid ones: nothing is accepted, nor stored."""
    seed = Seed(ctx, n, span, strict=True)
    store, cls = mk_store(ctx)
    a, b, c = (cls(x) for x in "abc")
    kw = {"bin_by": grouper(FREQ, LEFT, LEFT)}
    conf = {a: dict(kw), b: dict(kw)}
    thr = ctx.int("thr", 0, 2)
    which = ctx.choice("which", [a, b])
    agg, params, bad, seed_bad = dict(SPEC), {}, True, False
    if how == "unknown":
        # Parameters of `write` which are known, and others.
        names = ["max_row_groups", "Agg", "ordered", "bins", "schema", "max_row_group_size", "max_nirgs"]
        name = ctx.choice("name", names)
        bad = name not in ("max_row_group_size", "max_nirgs")
        if ctx.choice("top", [True, False]):
            params[name] = 10
        else:
            conf[which][name] = 10
    elif how == "missing":
        bad = ctx.choice("no", [True, False])
        if bad:
            del conf[which]["bin_by"]
    elif how == "clash":
        out = ctx.choice("out", ["f", "s", "t", "T", "g"])
        bad = out in ("f", "s", "t")
        agg["t"] = ("t", "first")
        for k in conf:
            conf[k] = {"bin_by": by_pairs, "bin_on": ("t", out if k == which else "b")}
    elif how == "agg":
        spec = ctx.choice("spec", [("v", "first"), ("zz", "first"), ("v", "mean"), ("w", "sum")])
        bad, seed_bad = False, spec in (("zz", "first"), ("v", "mean"))
        conf[which]["agg"] = {"f": spec}
    elif how == "filters":
        given = ctx.choice("given", ["fg", "f", "g", "fgh", "", "f_", "_"])
        asked = ctx.choice("asked", ["fg", "f", "f_", "fg_"])
        conf = {f: {k: dict(kw)} for f, k in zip(asked, (a, b, c))}
        some = {f: [("c", ">=", thr)] for f in given}
        none = ctx.choice("none", [True, False])
        if none and "_" in given:
            some["_"] = None
        params["filters"] = some or None
        bad = set(given + "_") != set(asked + "_") or ("_" in given and not none)
        # Unfiltered data is asked for no key: either it is refused, or there is no such data.
        bad = None if "_" in given and none and "_" not in asked and not bad else bad
    elif how == "twice":
        k = ctx.choice("k", [a, b])
        conf = {"f": {a: dict(kw), c: dict(kw)}, "g": {k: dict(kw)}}
        params["filters"] = {"f": [("c", ">=", thr)], "g": [("c", "<", thr)]}
        bad = k == a
    st, err = ctx.call(mk_stream, ctx, store, conf, agg, **params)
    if bad is None:
        bad = err is not None
    ctx.check(f"accepted if settings are valid ({err!r:.60})", bad or err is None)
    ctx.check("refused if settings are not valid", not bad or isinstance(err, ValueError))
    if err is None:
        _, err = ctx.call(st.agg, seed.frame(range(n)), discard_last=False)
        ctx.check(f"seed is accepted ({err!r:.60})", seed_bad or err is None)
        ctx.check("refused if settings are not valid", not seed_bad or isinstance(err, ValueError))
    keys = list(reopen(store).keys)
    ctx.check("nothing is stored", err is None or not keys)
    return sorted(str(k) for k in keys)


def by_pairs(on, buffer):
    from oups.aggstream.segmentby import by_x_rows

    return by_x_rows(on=on, buffer=buffer, by=2)


def _a15():
    for how in ("unknown", "missing", "clash", "agg", "filters", "twice"):
        case("A15", rejected, f"not-{how}", n=2, how=how)
    for s in ("agg", "post", "size", "mem", "snap", "dup"):
        case("A15", own, s, n=3, vary=(s,), runs=("",))
        case("A15", own, f"{s}-runs", n=3, vary=(s,), runs=("", ""), span=9)
    for s in ("post", "size", "pair", "mem", "snap"):
        case("A15", own, f"{s}-both", n=3, vary=(s,), both=True)
    for x in (1, 2):
        case("A15", own, f"name-{x}", n=3, vary=("name",), strict=False, x=x)
        case("A15", own, f"name-{x}-low", n=3, vary=("name", "mem"), strict=False, x=x,
             chunks=3)
        case("A15", own, f"name-{x}-runs", n=3, vary=("name",), strict=False, x=x,
             runs=("", ""))


_a15()
