"""
Harnesses of the data store: S01 - S06, S11 - S15.

`oups.store.writer.write` and `ParquetHandle` run on an in-memory model of the
file system and of the fastparquet / vaex calls they make. Each row carries a
concrete identifier, so that the place of each row in the result is concrete
and all other columns are symbolic.
"""
from symx.logic import all_of
from symx.logic import any_of
from symx.logic import eq
from symx.logic import implies
from symx.logic import max_of
from symx.logic import min_of
from symx.logic import no
from symx.logic import seq_eq

from . import case
from .kernels import ordered


def writer(ctx):
    from oups.store.writer import write

    return write


def handle(path):
    from oups.store.router import ParquetHandle

    return ParquetHandle(path)


class Rows:
    """
    Rows written: `t` (ordering), `k` (key of duplicates), `i` (identifier).

    Values are dressed so that a conversion to another type is seen. With `more`, columns of other
    types hold identifiers: `x` times, `n` integers or null.
    """

    def __init__(self, tkind="int", more=False):
        self.t, self.k, self.more = {}, {}, more
        self.kinds = {"i": "int", "t": tkind, "kt": "num"}
        if more:
            self.kinds |= {"x": "tick", "n": "nul"}

    def frame(self, ctx, ids, vaex=False):
        cols = {
            "i": list(ids),
            "t": [self.t[i] for i in ids],
            "kt": [self.k[i] for i in ids],
            "x": list(ids),
            "n": [none_if_odd(i) for i in ids],
        }
        kinds = list(self.kinds.items())
        if ids and ids[0] % 3 == 1:
            # Order of columns is of no meaning.
            kinds.reverse()
        df = ctx.frame({c: (cols[c], k) for c, k in kinds})
        # Labels of rows are of no meaning: here not unique, or in descending order.
        df.index = [0] * len(ids) if ids and ids[0] % 2 else range(len(ids), 0, -1)
        if vaex:
            from vaex import from_pandas

            return from_pandas(df)
        return df

    def new(self, ctx, name, n, lo, hi, ks=None, strict=False, last=None):
        """n new rows, in ascending order of `t`."""
        ids = list(range(len(self.t), len(self.t) + n))
        ts = ordered(ctx, name, n, lo, hi, strict)
        if last is not None and ts:
            ctx.assume(self.t[last] < ts[0] if strict else self.t[last] <= ts[0])
        for i, t in zip(ids, ts):
            self.t[i] = t
            self.k[i] = ctx.int(f"k{i}", 0, ks) if ks else 0
        return ids


def none_if_odd(i):
    return None if i % 2 else i


def base(ctx, path, rows, layout, lo, hi, ks=None, strict=False):
    """An existing dataset: one row group per item of `layout`, in ascending order."""
    write = writer(ctx)
    groups, last = [], None
    for j, n in enumerate(layout):
        ids = rows.new(ctx, f"b{j}_", n, lo, hi, ks, strict, last)
        last = ids[-1]
        groups.append(ids)
        write(path, rows.frame(ctx, ids))
    return groups


def read(ctx, path, rows, h=None):
    """Rows of the dataset, in order."""
    return ctx.rows((h or handle(path)).pdf, ["i", "t", "kt", *list(rows.kinds)[3:]], rows.kinds)


def groups_of(ctx, path):
    """Identifiers of rows, per row group."""
    pf = handle(path).pf
    return [[int(i) for i in ctx.plain(pf[j].to_pandas()["i"])] for j in range(len(pf.row_groups))]


def intact(ctx, label, got, rows, known=()):
    """Rows read carry the values written."""
    for i, t, k, *more in got:
        ctx.check(
            f"{label}: values of row", all_of(eq(t, rows.t[i]), eq(k, rows.k[i])), known=known
        )
        if more:
            ctx.check(f"{label}: values of row", more == [i, none_if_odd(i)], known=known)


def overlap(rows, groups, new):
    """Per recorded row group, whether the range of new data overlaps it."""
    if not new:
        return [False] * len(groups)
    lo, hi = rows.t[new[0]], rows.t[new[-1]]
    out = []
    for ids in groups:
        ts = [rows.t[i] for i in ids]
        out.append(all_of(lo <= max_of(ts), min_of(ts) <= hi))
    return out


def settings(ctx, size, nirgs, order=True):
    kw = {"max_row_group_size": size, "max_nirgs": nirgs}
    if order:
        kw["ordered_on"] = "t"
    return kw


def content(ctx, what, layout, n2, sizes, nirgs, order=True, dups=None, n3=None, span=20, vaex=False,
            strict=False, tkind="int", more=False, places=()):
    """
    One or two writes to an existing dataset.

    The same history serves S01 (nothing lost), S02 (order), S03 (duplicates)
    and S04 (size of row groups); `what` selects assertions.
    """
    write = writer(ctx)
    path = ctx.dir("ds")
    rows = Rows(tkind, more)
    ks = 1 if dups not in (None, "t") else None
    groups = base(ctx, path, rows, layout, -3, span, ks, strict)
    for j, t in enumerate(places):
        # Many row groups, at known places.
        rows.t[j], rows.k[j] = ctx.int(f"b{j}_t", t, t), ctx.int(f"b{j}_k", 0, 0)
        groups.append([j])
        write(path, rows.frame(ctx, [j]))
    obs = []
    for step, n in enumerate([n2, n3]):
        if n is None:
            continue
        size = ctx.choice(f"size{step}", sizes)
        nir = ctx.choice(f"nirgs{step}", nirgs)
        kw = settings(ctx, size, nir, order)
        if dups is not None:
            kw["duplicates_on"] = list(dups) if isinstance(dups, list) else dups
        before = read(ctx, path, rows) if groups else []
        new = rows.new(ctx, f"n{step}_", n, -3, span, ks, strict)
        was = groups
        _, err = ctx.call(write, path, rows.frame(ctx, new, vaex), **kw)
        ctx.check(f"write is accepted ({type(err).__name__ if err else 'ok'})", err is None)
        got = read(ctx, path, rows)
        groups = groups_of(ctx, path)
        ids = [r[0] for r in got]
        ctx.check("row groups hold the rows of the dataset", [i for g in groups for i in g] == ids)
        if what == "S01":
            ctx.check("same rows", sorted(ids) == sorted([r[0] for r in before] + new))
            intact(ctx, "S01", got, rows)
            if not order:
                prefix = [r[0] for r in before]
                ctx.check("appended at the end", ids == prefix + new)
        if what == "S02":
            for a, b in zip(got, got[1:]):
                ctx.check("ascending order", a[1] <= b[1])
            ctx.check("no row twice", len(set(ids)) == len(ids))
        if what == "S03":
            drop_spec(ctx, rows, was, new, [r[0] for r in before], ids, dups)
            intact(ctx, "S03", got, rows)
        if what == "S04":
            size_spec(ctx, rows, was, groups, new, size, order)
        obs.append([got, groups])
    return obs


def same_key(rows, a, b, dups):
    cs = [eq(rows.t[a], rows.t[b])]
    if dups == []:
        cs.append(eq(rows.k[a], rows.k[b]))
        cs.append(a == b)
    elif dups != "t":
        cs.append(eq(rows.k[a], rows.k[b]))
    return all_of(cs)


def drop_spec(ctx, rows, groups, new, before, ids, dups):
    """Which rows have to be there after a write with removal of duplicates."""
    ov = overlap(rows, groups, new)
    where = {i: j for j, g in enumerate(groups) for i in g}
    ctx.check("no row twice", len(set(ids)) == len(ids))
    ctx.check("no row from elsewhere", set(ids) <= set(before) | set(new))
    for p, i in enumerate(new):
        later = any_of([same_key(rows, i, j, dups) for j in new[p + 1 :]] or [False])
        if i in ids:
            # Data simply appended keeps its own duplicates.
            ctx.check("new row kept only if last of its duplicates", implies(any_of(ov), no(later)))
        else:
            ctx.check("new row dropped has a duplicate", later)
    for p, i in enumerate(before):
        # Replaced by a new row.
        by_new = any_of([same_key(rows, i, j, dups) for j in new])
        # Duplicate of another recorded row (duplicates within recorded row
        # groups are dropped when these are rewritten only).
        twin = any_of([same_key(rows, i, j, dups) for j in before[p + 1 :]] or [False])
        if i in ids:
            ctx.check("recorded row replaced by its duplicate", no(by_new))
            both = [
                all_of(same_key(rows, i, j, dups), ov[where[i]], ov[where[j]])
                for j in before[p + 1 :]
            ]
            ctx.check("duplicates of overlapped row groups", no(any_of(both or [False])))
        else:
            ctx.check("row dropped has a duplicate written later", any_of(by_new, twin))


def size_spec(ctx, rows, was, groups, new, size, order):
    """Sizes of the row groups which have been written."""
    old = [tuple(g) for g in was]
    written = [g for g in groups if tuple(g) not in old]
    for g in written:
        ctx.check("row group has rows", len(g) > 0)
        if len(g) > size:
            # First run of equal values.
            ts = [rows.t[i] for i in g]
            excess = len(g) - size
            ctx.check(
                "size exceeded only because of equal values",
                all_of([eq(t, ts[0]) for t in ts[: excess + 1]])
                if excess < len(ts)
                else False,
            )
    merged = any_of(overlap(rows, was, new)) if order else False
    for p, g in enumerate(written):
        for h in written[p + 1 :]:
            for a in g:
                for b in h:
                    ctx.check(
                        "no value shared by two row groups",
                        implies(merged, no(eq(rows.t[a], rows.t[b]))),
                    )


LAYOUTS = {"5": (1, 2, 1), "1": (2,), "2": (2, 1), "3": (1, 1, 1), "3b": (2, 1, 1), "4": (1, 1, 1, 1)}

for prop in ("S01", "S02"):
    for nm in ("1", "2", "3", "5"):
        case(prop, content, f"insert-{nm}", what=prop, layout=LAYOUTS[nm], n2=2, sizes=[2, 3],
             nirgs=[None, 2], weight=3)
    case(prop, content, "insert-4", what=prop, layout=LAYOUTS["4"], n2=1, sizes=[2],
         nirgs=[None, 1], weight=3)
    case(prop, content, "twice", what=prop, layout=(2,), n2=1, n3=1, sizes=[1, 2],
         nirgs=[None, 1], weight=6)
    case(prop, content, "vaex", what=prop, layout=(1, 1), n2=2, sizes=[2], nirgs=[None, 1],
         vaex=True)
    case(prop, content, "time", what=prop, layout=(1, 1), n2=2, sizes=[2], nirgs=[None, 1],
         tkind="tick", more=True)
    case(prop, content, "types", what=prop, layout=(1, 2, 1), n2=2, sizes=[2, 4], nirgs=[None, 1],
         tkind="num", more=True, weight=3)
    case(prop, content, "float", what=prop, layout=(2, 1), n2=2, sizes=[2], nirgs=[None, 1],
         tkind="half", more=True, vaex=True, weight=2)
    case(prop, content, "default-size", what=prop, layout=(1, 1), n2=1, sizes=[None],
         nirgs=[None, 1])
    case(prop, content, "twice-3", what=prop, layout=(1, 2, 1), n2=2, n3=1, sizes=[2, 3],
         nirgs=[None, 2], tier="thorough", weight=9)
    case(prop, content, "insert-6", what=prop, layout=(2, 2, 2), n2=3, sizes=[2, 3, 4],
         nirgs=[None, 0, 1, 2], tier="thorough", weight=9)
    case(prop, content, "create", what=prop, layout=(), n2=3, n3=1, sizes=[1, 2, 3],
         nirgs=[None, 1], weight=3)
    case(prop, content, "create-vaex", what=prop, layout=(), n2=3, n3=1, sizes=[1, 2],
         nirgs=[None, 1], vaex=True, weight=3)
for prop in ("S01", "S02", "S03"):
    dk = {"dups": "kt"} if prop == "S03" else {}
    # No row in data written: first, or to an existing dataset.
    case(prop, content, "nothing", what=prop, layout=(2, 1), n2=0, n3=None if dk else 1,
         sizes=[2, 10], nirgs=[None, 1], **dk)
    case(prop, content, "nothing-first", what=prop, layout=(), n2=0, n3=2, sizes=[1, 2],
         nirgs=[None, 1], **dk)
case("S01", content, "append", what="S01", layout=(2, 1), n2=2, n3=1, sizes=[1, 2, 3], order=False,
     nirgs=[None, 0, 1, 2], weight=2)
case("S01", content, "append-vaex", what="S01", layout=(2, 1), n2=3, sizes=[1, 2, 3], order=False,
     nirgs=[None, 0, 1, 2], vaex=True)

def refused_dups(ctx, layout, n2, sizes, nirgs, vaex=False, span=8):
    """Removal of duplicates with no order to look for them along: refused, nothing written."""
    write = writer(ctx)
    path = ctx.dir("ds")
    rows = Rows("num", True)
    base(ctx, path, rows, layout, -3, span, 1)
    kw = settings(ctx, ctx.choice("size", sizes), ctx.choice("nirgs", nirgs), False)
    kw["duplicates_on"] = ctx.choice("dups", ["kt", "t", ["kt"], ["t", "kt"], []])
    kw["ordered_on"] = ctx.choice("order", [None, "absent"])
    before, was = read(ctx, path, rows), groups_of(ctx, path)
    new = rows.new(ctx, "n", n2, -3, span, 1)
    _, err = ctx.call(write, path, rows.frame(ctx, new, vaex), **kw)
    ctx.check(f"write is refused ({type(err).__name__ if err else 'ok'})", isinstance(err, ValueError))
    got = read(ctx, path, rows)
    ctx.check("nothing has been written", [r[0] for r in got] == [r[0] for r in before])
    ctx.check("same row groups", groups_of(ctx, path) == was)
    intact(ctx, "S03", got, rows)
    return got


for nm, vaex in (("pandas", False), ("vaex", True)):
    case("S03", refused_dups, f"refused-{nm}", layout=(2, 1), n2=2, sizes=[2, 10], nirgs=[None, 1],
         vaex=vaex)
for nm, dups in (("t", "t"), ("kt", "kt"), ("list", ["kt"]), ("pair", ["t", "kt"]), ("all", [])):
    case("S03", content, f"dups-{nm}", what="S03", layout=(2, 1), n2=2, sizes=[2], nirgs=[None, 1],
         dups=dups, weight=4, more=True, tkind="tick" if nm == "kt" else "num")
case("S03", content, "dups-3", what="S03", layout=(1, 1, 1), n2=2, sizes=[1, 3], nirgs=[None],
     dups="t", weight=4)
case("S03", content, "dups-1", what="S03", layout=(1,), n2=3, sizes=[1, 2], nirgs=[None, 1],
     dups="t", weight=4)
case("S03", content, "dups-create", what="S03", layout=(), n2=3, n3=2, sizes=[1, 2], nirgs=[None],
     dups="kt", weight=4)
case("S03", content, "dups-vaex", what="S03", layout=(2,), n2=2, sizes=[2], nirgs=[None],
     dups="kt", vaex=True, weight=4)
# More than ten row groups, pairs of these with a same value.
case("S03", content, "dups-twelve", what="S03", layout=(), n2=2, sizes=[2], nirgs=[None],
     dups="kt", places=[10 * ((j + 1) // 2) for j in range(12)], span=70, weight=4)
case("S03", content, "dups-big", what="S03", layout=(2, 2), n2=2, sizes=[2, 3], nirgs=[None, 2],
     dups="kt", tier="thorough", weight=9)

case("S04", content, "sizes-2", what="S04", layout=(2,), n2=3, sizes=[1, 2, 3], nirgs=[None, 1],
     weight=4)
case("S04", content, "sizes-21", what="S04", layout=(2, 1), n2=2, sizes=[1, 2, 3], nirgs=[None],
     weight=4)
case("S04", content, "append", what="S04", layout=(1, 1), n2=4, sizes=[1, 2, 3], nirgs=[None, 1],
     order=False, weight=4)
case("S04", content, "create", what="S04", layout=(), n2=4, sizes=[1, 2, 3], nirgs=[None], n3=1,
     weight=4)
case("S04", content, "create-plain", what="S04", layout=(), n2=5, sizes=[1, 2, 3, 4], nirgs=[None],
     n3=2, order=False)
case("S04", content, "create-vaex", what="S04", layout=(), n2=5, sizes=[1, 2, 3, 4],
     nirgs=[None, 1], order=False, vaex=True)
case("S04", content, "sizes-5", what="S04", layout=(3, 1), n2=3, sizes=[2, 3, 4], nirgs=[None, 2],
     tier="thorough", weight=9)


# -- S05 -----------------------------------------------------------------
def coalesce(ctx, layout, n2s, sizes, order, hi=30):
    """Which row groups are rewritten by a write with `max_nirgs`."""
    write = writer(ctx)
    path = ctx.dir("ds")
    rows = Rows()
    size = ctx.choice("size", sizes)
    n2 = ctx.choice("n2", n2s)
    nirgs = ctx.int("nirgs", 0, 4)
    groups = base(ctx, path, rows, layout, -3, hi, strict=True)
    new = rows.new(ctx, "n", n2, -3, hi, strict=True)
    if order:
        for i in new:
            for g in groups:
                for j in g:
                    ctx.assume(no(eq(rows.t[i], rows.t[j])))
    kw = {"max_row_group_size": size, "max_nirgs": nirgs}
    if order:
        kw["ordered_on"] = "t"
    _, err = ctx.call(write, path, rows.frame(ctx, new), **kw)
    ctx.check(f"write is accepted ({type(err).__name__ if err else 'ok'})", err is None)
    after = groups_of(ctx, path)
    full = int(size * 0.9)
    tail = len(groups)
    while tail and len(groups[tail - 1]) <= full:
        tail -= 1
    n_tail = sum(len(g) for g in groups[tail:])
    # Documented conditions.
    due = any_of(n_tail + n2 >= size, nirgs <= len(groups) - tail)
    ov = overlap(rows, groups, new) if order else [False] * len(groups)
    any_ov = any_of(ov)
    last = rows.t[groups[-1][-1]]
    at_end = all_of(no(any_ov), last < rows.t[new[0]]) if order else True
    # 1. No coalescing and no overlap: recorded row groups are as they were.
    quiet = all_of(no(due), no(any_ov))
    same = all(g in after for g in groups)
    ctx.check("no row group rewritten without need", implies(quiet, same))
    n_new = len(after) - len(groups)
    ctx.check(
        "new row groups of asked size",
        implies(quiet, n_new == -(-n2 // size)),
    )
    # 2. Coalescing, new data at the end: tail is merged with new data.
    if len(groups) - tail:
        merged = tail + -(-(n_tail + n2) // size)
        ctx.check(
            "incomplete row groups are merged", implies(all_of(due, at_end), len(after) == merged)
        )
    else:
        ctx.check(
            "no incomplete row group to merge",
            implies(at_end, len(after) == len(groups) + -(-n2 // size)),
        )
    # 2b. Same with new data overlapping the last row groups: these are rewritten in any case.
    for j in range(len(groups)) if order else ():
        for d, k in ((due, min(j, tail)), (no(due), j)):
            here = all_of(ov[j], ov[-1], no(any_of(ov[:j])), d)
            m = sum(len(g) for g in groups[k:])
            ctx.check(
                "row groups at the end are merged with new data",
                implies(here, len(after) == k + -(-(m + n2) // size)),
            )
    # 3. Row groups before the tail and before overlaps are untouched.
    for j in range(len(groups)):
        touched = any_of(ov[: j + 1] + [all_of(due, j >= tail)])
        ctx.check("row group before is untouched", implies(no(touched), groups[j] in after))
    ids = [i for g in after for i in g]
    ctx.check("same rows", sorted(ids) == sorted([i for g in groups for i in g] + new))
    return after


for nm, layout in (("a", (3, 1, 1)), ("b", (1, 1)), ("c", (3, 3)), ("d", (1, 3, 2))):
    case("S05", coalesce, f"append-{nm}", layout=layout, n2s=[0, 1, 2, 3, 4], sizes=[1, 3, 4, 10],
         order=False)
for nm, layout in (("a", (3, 1, 1)), ("b", (1, 1)), ("c", (2, 2)), ("d", (1, 2, 1))):
    case("S05", coalesce, f"insert-{nm}", layout=layout, n2s=[1, 2], sizes=[1, 2, 3], order=True,
         weight=4)
case("S05", coalesce, "insert-f", layout=(2, 1, 1), n2s=[1, 2], sizes=[4, 5, 6], order=True,
     weight=4)
case("S05", coalesce, "insert-e", layout=(3, 2, 2, 1), n2s=[1, 2], sizes=[2, 3, 4], order=True,
     tier="thorough", weight=9)
case("S05", coalesce, "append-e", layout=(10, 9, 8, 1), n2s=[1, 2, 3], sizes=[9, 10, 11, 20],
     order=False, tier="thorough")


# -- S06 -----------------------------------------------------------------
def pending(ctx):
    from oups.store.writer import OUPS_METADATA

    OUPS_METADATA.clear()
    return OUPS_METADATA


def app_values(ctx, name, keys):
    """An application metadata: per key absent, None, an integer, or a falsy value."""
    out = {}
    for k in keys:
        kind = ctx.choice(f"{name}_{k}", ["absent", "none", "int", "empty"])
        if kind == "none":
            out[k] = None
        elif kind == "int":
            out[k] = ctx.int(f"{name}_{k}_v", -3, 3)
        elif kind == "empty":
            out[k] = ""
    return out


def app_md(ctx, n, keys, user):
    """A sequence of writes with application metadata."""
    write = writer(ctx)
    path = ctx.dir("ds")
    pend = pending(ctx)
    spec, uspec, some = {}, {}, False
    obs = []
    try:
        for w in range(n):
            new = app_values(ctx, f"w{w}", keys)
            given = ctx.choice(f"given{w}", [True, False]) if w else True
            other = {"z": 7}
            pend["other"] = dict(other)
            if given:
                pend["key"] = dict(new)
                some = True
                for k, v in new.items():
                    if v is None:
                        spec.pop(k, None)
                    else:
                        spec[k] = v
            kw = {"md_key": "key"}
            if user:
                md = {}
                for k in ("p", "q"):
                    val = ctx.choice(f"u{w}_{k}", ["absent", None, "x", ""])
                    if val != "absent":
                        md[k] = val
                        if val is None:
                            uspec.pop(k, None)
                        else:
                            uspec[k] = val
                kw["metadata"] = md
            write(path, ctx.frame({"t": ([w], "int")}), **kw)
            h = handle(path)
            got = h._oups_metadata
            user_md = {k: v for k, v in h.metadata.items() if k not in ("pandas", "oups")}
            ctx.check("application metadata is there", (got is not None) == some)
            got = got or {}
            ctx.check("keys of application metadata", sorted(got) == sorted(spec))
            for k in spec:
                a, b = ctx.plain(got[k]), ctx.plain(spec[k])
                ctx.check("value of application metadata", eq(a, b))
            ctx.check("user metadata", user_md == uspec)
            ctx.check("metadata of another dataset is kept", pend.get("other") == other)
            ctx.check("metadata is written once", "key" not in pend)
            obs.append([{k: ctx.plain(v) for k, v in got.items()}, user_md])
    finally:
        pend.clear()
    return obs


case("S06", app_md, "app-1", n=1, keys=("a", "b"), user=False)
case("S06", app_md, "app-2", n=2, keys=("a",), user=False, replays=10)
case("S06", app_md, "app-3", n=3, keys=("a",), user=False, weight=2)
case("S06", app_md, "app-two-keys", n=2, keys=("a", "b"), user=False, weight=3)
case("S06", app_md, "user", n=2, keys=(), user=True, weight=2)
case("S06", app_md, "both", n=2, keys=("a",), user=True, tier="thorough", weight=9)
case("S06", app_md, "app-3-two-keys", n=3, keys=("a", "b"), user=False, tier="thorough", weight=9)


# -- S11, S12 ------------------------------------------------------------
def vaex_rows(ctx, path, rows):
    vdf = handle(path).vdf
    cols = ["i", "t", "kt", *list(rows.kinds)[3:]]
    return list(zip(*[ctx.plain(vdf[c].tolist(), rows.kinds[c]) for c in cols]))


def views(ctx, what, layout, n2, sizes, nirgs, n3=0, dups=None, fixed=False, span=20,
          tkind="int", order=True):
    """Minimum and maximum (S11) or all views of the data (S12), after writes."""
    write = writer(ctx)
    path = ctx.dir("ds")
    rows = Rows(tkind, what == "S12")
    ks = 9 if what == "S11" else None
    if fixed:
        # Many row groups, at known places.
        step = span // (len(layout) + 1)
        for j in range(len(layout)):
            rows.t[j], rows.k[j] = step * (j + 1), j
            write(path, rows.frame(ctx, [j]))
    else:
        base(ctx, path, rows, layout, -3, span, ks)
    obs = []
    for w, n in enumerate([n2, n3]):
        if not n:
            continue
        new = rows.new(ctx, f"n{w}_", n, -3, span, ks)
        kw = settings(ctx, ctx.choice(f"size{w}", sizes), ctx.choice(f"nirgs{w}", nirgs), order)
        if dups:
            kw["duplicates_on"] = dups
        old = handle(path) if w or layout else None
        if layout and not w:
            # Metadata is read by this handle before data is written.
            ctx.check("recorded row groups are seen", len(old.pf.row_groups) == len(layout))
        write(path, rows.frame(ctx, new), **kw)
        got = read(ctx, path, rows)
        if what == "S12":
            now = [tuple(r) for r in read(ctx, path, rows, old)]
            ctx.check("same number of rows from a handle opened before", len(got) == len(now))
            for a, b in zip(got, now):
                ctx.check("same rows from a handle opened before", seq_eq(list(a), list(b)))
            vx = vaex_rows(ctx, path, rows)
            ctx.check("same number of rows in all views", len(got) == len(vx))
            for a, b in zip(got, vx):
                ctx.check("same rows in all views", seq_eq(list(a), list(b)))
        else:
            for pos, c in ((1, "t"), (2, "kt")):
                lo, hi = handle(path).min_max(c)
                lo, hi = ctx.plain(lo, rows.kinds[c]), ctx.plain(hi, rows.kinds[c])
                ctx.check(f"minimum of {c}", eq(lo, min_of([r[pos] for r in got])))
                ctx.check(f"maximum of {c}", eq(hi, max_of([r[pos] for r in got])))
                obs.append([lo, hi])
        obs.append(got)
    return obs


for prop in ("S11", "S12"):
    case(prop, views, "insert-21", what=prop, layout=(2, 1), n2=2, sizes=[2], nirgs=[None, 1],
         weight=2, tkind="tick")
    case(prop, views, "insert-111", what=prop, layout=(1, 1, 1), n2=2, sizes=[2], nirgs=[None],
         weight=2, tkind="half")
    case(prop, views, "dups", what=prop, layout=(1, 1), n2=2, sizes=[2], nirgs=[None], dups="t",
         weight=2, tkind="num")
    case(prop, views, "twice", what=prop, layout=(1, 1), n2=1, n3=1, sizes=[1], nirgs=[None],
         weight=2, tkind="half")
    case(prop, views, "twelve-1", what=prop, layout=(1,) * 12, n2=1, sizes=[1], nirgs=[None, 2],
         fixed=True, span=130, weight=5)
    case(prop, views, "twelve-twice", what=prop, layout=(1,) * 11, n2=2, n3=1, sizes=[1, 2],
         nirgs=[None], fixed=True, span=120, tier="thorough", weight=9)
# First write by an ordered write.
case("S11", views, "create", what="S11", layout=(), n2=2, n3=1, sizes=[1, 2], nirgs=[None, 1],
     weight=3)
case("S11", views, "create-append", what="S11", layout=(), n2=2, n3=2, sizes=[1, 2],
     nirgs=[None], order=False, tkind="half", weight=3)
case("S12", views, "twelve", what="S12", layout=(1,) * 12, n2=2, sizes=[1], nirgs=[None],
     fixed=True, span=130, weight=5)


def min_max_nulls(ctx, layout, kind):
    """Minimum and maximum of a column with nulls."""
    write = writer(ctx)
    path = ctx.dir("ds")
    vals = []
    for j, n in enumerate(layout):
        new = [
            ctx.int(f"v{j}_{p}", -9, 9) if ctx.choice(f"some{j}_{p}", [True, False]) else None
            for p in range(n)
        ]
        vals += new
        write(path, ctx.frame({"v": (new, kind), "i": (list(range(n)), "int")}))
    known = [v for v in vals if v is not None]
    got, err = ctx.call(handle(path).min_max, "v")
    ctx.check(f"minimum and maximum are given ({type(err).__name__ if err else 'ok'})", err is None)
    lo, hi = ctx.plain(got[0]), ctx.plain(got[1])
    if not known:
        ctx.check("no minimum nor maximum", lo is None and hi is None)
    else:
        ctx.check("minimum with nulls", eq(lo, min_of(known)))
        ctx.check("maximum with nulls", eq(hi, max_of(known)))
    return [lo, hi]


for kind in ("float", "ts"):
    case("S11", min_max_nulls, f"nulls-{kind}", layout=(1, 2), kind=kind, weight=2)
    case("S11", min_max_nulls, f"nulls3-{kind}", layout=(1, 1, 2), kind=kind, tier="thorough",
         weight=2)


# -- S14 -----------------------------------------------------------------
def same_vaex(ctx, path, rows, exp):
    """The vaex view has the rows of the pandas view."""
    vx, err = ctx.call(vaex_rows, ctx, path, rows)
    ctx.check(f"vaex view is readable ({err!r:.60})", err is None)
    ctx.check("same number of rows in vaex view", len(vx) == len(exp))
    for a, b in zip(vx, exp):
        ctx.check("same rows in vaex view", seq_eq(list(a), list(b)))


def fault(ctx, layout, n2, sizes, nirgs, dups=None, span=20, vaex=False):
    """A write of a part file fails."""
    write = writer(ctx)
    path = ctx.dir("ds")
    rows = Rows()
    base(ctx, path, rows, layout, -3, span)
    new = rows.new(ctx, "n", n2, -3, span)
    kw = settings(ctx, ctx.choice("size", sizes), ctx.choice("nirgs", nirgs))
    if dups:
        kw["duplicates_on"] = dups
    before = read(ctx, path, rows)
    at = ctx.int("fails_at", 0, 6)
    with ctx.failing(at) as hit:
        _, err = ctx.call(write, path, rows.frame(ctx, new, vaex), **kw)
    if not hit():
        # The failure is planned after the last part file.
        ctx.check("write without failure is accepted", err is None)
        ctx.cover("no failure")
        return None
    ctx.check("failure is reported", isinstance(err, OSError))
    ctx.cover("failure")
    got = read(ctx, path, rows)
    ctx.check("same rows as before", len(got) == len(before))
    for a, b in zip(got, before):
        ctx.check("row as before", seq_eq(list(a), list(b)))
    same_vaex(ctx, path, rows, got)
    # Another try, possibly with less data.
    new = new[: ctx.choice("again", range(1, len(new) + 1))]
    _, err = ctx.call(write, path, rows.frame(ctx, new), **kw)
    ctx.check("another try is accepted", err is None)
    again = read(ctx, path, rows)
    ids = [r[0] for r in again]
    if not dups:
        ctx.check("all rows after another try", sorted(ids) == sorted([r[0] for r in before] + new))
    for a, b in zip(again, again[1:]):
        ctx.check("order after another try", a[1] <= b[1])
    same_vaex(ctx, path, rows, again)
    return [got, again]


case("S14", fault, "insert-21", layout=(2, 1), n2=2, sizes=[1, 2], nirgs=[None, 1], weight=3)
case("S14", fault, "insert-111", layout=(1, 1, 1), n2=2, sizes=[1], nirgs=[None], weight=3)
case("S14", fault, "dups", layout=(1, 1), n2=2, sizes=[1], nirgs=[None], dups="t", weight=2)
case("S14", fault, "insert-vaex", layout=(2, 1), n2=2, sizes=[1], nirgs=[None, 1], vaex=True, weight=3)
case("S14", fault, "tail", layout=(1, 1, 1), n2=1, sizes=[2], nirgs=[1, 2], weight=2)
case("S14", fault, "insert-212", layout=(2, 1, 2), n2=2, sizes=[1, 2], nirgs=[None, 2],
     tier="thorough", weight=9)


# -- S15 -----------------------------------------------------------------
def caller(ctx, layout, n2, vaex, span=20):
    """Arguments given by the caller are as they were, after a write."""
    write = writer(ctx)
    path = ctx.dir("ds")
    rows = Rows()
    pend = pending(ctx)
    try:
        if layout:
            base(ctx, path, rows, layout, -3, span)
        new = rows.new(ctx, "n", n2, -3, span)
        dups = ctx.choice("dups", [None, ["kt"], ["t"], []])
        was_dups = None if dups is None else list(dups)
        md = {"p": "x"} if ctx.choice("md", [True, False]) else None
        app = {"a": 1, "b": None} if ctx.choice("app", [True, False]) else None
        was_app = None if app is None else dict(app)
        df = rows.frame(ctx, new, vaex=vaex)
        index = None if vaex else list(df.index)
        kw = settings(ctx, ctx.choice("size", [1, None]), None)
        kw.update(duplicates_on=dups if layout else None, metadata=md, md_key="key")
        if app is not None:
            pend["key"] = app
        _, err = ctx.call(write, path, df, **kw)
        ctx.check("write is accepted", err is None)
        ctx.check("duplicates_on is as given", dups == was_dups)
        ctx.check("metadata is as given", md is None or md == {"p": "x"})
        ctx.check("application metadata is as given", app == was_app)
        unchanged(ctx, df, rows, new, index)
        if vaex:
            return None
        return [[str(c) for c in df.columns], ctx.rows(df, ["i", "t", "kt"], rows.kinds)]
    finally:
        pend.clear()


def unchanged(ctx, df, rows, ids, index):
    vaex = index is None
    cols = df.get_column_names() if vaex else list(df.columns)
    ctx.check("columns are as given", sorted(cols) == ["i", "kt", "t"])
    ctx.check("number of rows is as given", len(df) == len(ids))
    get = lambda c: ctx.plain(df[c].tolist() if vaex else df[c], rows.kinds[c])  # noqa: E731
    for c, exp in (
        ("i", list(ids)),
        ("t", [rows.t[i] for i in ids]),
        ("kt", [rows.k[i] for i in ids]),
    ):
        ctx.check("values are as given", seq_eq(get(c), exp))
    if not vaex:
        ctx.check("index is as given", list(df.index) == index)


case("S15", caller, "new", layout=(), n2=2, vaex=False)
case("S15", caller, "insert", layout=(1, 1), n2=2, vaex=False, weight=3)
case("S15", caller, "vaex", layout=(1,), n2=2, vaex=True, weight=2)


# -- S13 -----------------------------------------------------------------
# Kinds of plain names, with what a parser of Python literals makes of them.
PLAIN = {"word": "abc{}", "two words": "a b{}", "number": "5{}", "quoted": "'q{}'", "op": "a-b{}"}


def name_of(ctx, name, j, kinds):
    """A column name: string form of a tuple, or a plain name. Returns (name, expected parts)."""
    kind = ctx.choice(f"{name}_kind", kinds)
    if kind == "tuple":
        parts = [ctx.atom(f"{name}_{p}", 4) for p in range(ctx.choice(f"{name}_len", [1, 2, 3]))]
        return ctx.tuple_name(j, parts), parts
    s = PLAIN[kind].format(j)
    return s, [s]


def expand(ctx, n, kinds, n_levels):
    """Expansion of column names into a multi-index."""
    import pandas as pd

    from oups.store.writer import to_midx

    names, exp = [], []
    for j in range(n):
        s, parts = name_of(ctx, f"c{j}", j, kinds)
        names.append(s)
        exp.append(parts)
    depth = max(len(p) for p in exp)
    given = ctx.choice("levels", [None] + [[f"x{i}" for i in range(k)] for k in range(1, n_levels)])
    ctx.assume(given is None or len(given) <= depth)
    # Names of all levels: those given, then generic ones.
    levels = (given or []) + [f"l{i}" for i in range(len(given or []), depth)]
    arg = None if given is None else list(given)
    res, err = ctx.call(to_midx, pd.Index(names, dtype=object), arg)
    ctx.check(f"names are expanded ({type(err).__name__ if err else 'ok'})", err is None)
    got = [list(t) if isinstance(t, tuple) else [t] for t in res.tolist()]
    ctx.check("one entry per column", len(got) == n)
    for g, e in zip(got, exp):
        ctx.check("entry completed with empty strings", seq_eq(g, e + [""] * (depth - len(e))))
    ctx.check("names of levels", list(res.names) == levels)
    ctx.check("list of levels is as given", arg == given)
    return got


for kind in PLAIN:
    case("S13", expand, f"plain-{kind}", n=2, kinds=["tuple", kind], n_levels=3)
case("S13", expand, "tuples", n=2, kinds=["tuple"], n_levels=4, weight=2)
case("S13", expand, "mixed", n=3, kinds=["tuple", "word"], n_levels=2, tier="thorough", weight=9)


# Names of columns: as given, and as expanded before any completion.
NAMES = (("('a', 'b')", ("a", "b")), ("('a','b')", ("a", "b")), ("('c',)", ("c",)), ("d", ("d",)), ("e f", ("e f",)))


def stored(ctx, what, n, second, vaex=False):
    """Expansion of column names when a dataset is created, whatever its row groups."""
    import pandas as pd

    write = writer(ctx)
    path = ctx.dir("ds")
    given = [ctx.choice(f"c{j}", [NAMES[0], NAMES[2]] if j else NAMES) for j in range(2)]
    ctx.assume(given[0][1] != given[1][1])
    depth = max(len(t) for _, t in given)
    # An index with a single level is not a multi-index.
    ctx.assume(depth > 1)
    tuples = [t + ("",) * (depth - len(t)) for _, t in given]
    levels = ctx.choice("levels", [None, ["x"], ["x", "y"]])
    ctx.assume(levels is None or len(levels) <= depth)
    was = None if levels is None else list(levels)
    vals = [[ctx.int(f"v{j}_{r}", 0, 9) for r in range(n)] for j in range(2)]
    size = ctx.choice("size", [1, 2, None])

    def frame(names, vals):
        df = ctx.frame({nm: (v, "int") for nm, v in zip(names, vals)})
        if vaex:
            from vaex import from_pandas

            return from_pandas(df)
        return df

    names = [g[0] for g in given]
    df = frame(names, vals)
    _, err = ctx.call(write, path, df, max_row_group_size=size, cmidx_expand=True, cmidx_levels=levels)
    ctx.check(f"dataset is created ({type(err).__name__ if err else 'ok'})", err is None)
    if what == "caller":
        ctx.check("levels are as given", levels == was)
        got = df.get_column_names() if vaex else list(df.columns)
        ctx.check("columns are as given", list(got) == names)
        for c, v in zip(names, vals):
            ctx.check("values are as given", seq_eq(ctx.plain(df[c].tolist() if vaex else df[c]), v))
        return names
    if second:
        # Once in the dataset, columns have the string of their tuple as a name.
        more = [[ctx.int(f"w{j}", 0, 9)] for j in range(2)]
        df2 = frame([str(t) for t in tuples], more)
        if ctx.choice("midx", [False, True]) and not vaex:
            df2.columns = pd.MultiIndex.from_tuples(tuples, names=["l0", "l1"][:depth])
        _, err = ctx.call(write, path, df2, max_row_group_size=size, cmidx_expand=ctx.choice("again", [True, False]))
        ctx.check(f"data is appended ({type(err).__name__ if err else 'ok'})", err is None)
        vals = [a + b for a, b in zip(vals, more)]
    out, err = ctx.call(lambda: handle(path).pdf)
    ctx.check(f"dataset is read ({type(err).__name__ if err else 'ok'})", err is None)
    got = [t if isinstance(t, tuple) else (t,) for t in out.columns.tolist()]
    ctx.check("columns of the dataset", got == tuples)
    exp = (was or []) + [f"l{i}" for i in range(len(was or []), depth)]
    ctx.check("names of levels of the dataset", list(out.columns.names) == exp)
    for j in range(2):
        ctx.check("values of each column", seq_eq(ctx.plain(out.iloc[:, j]), vals[j]))
    return [[list(t) for t in got], *[ctx.plain(out.iloc[:, j]) for j in range(2)]]


for vx in (False, True):
    v = "-vaex" if vx else ""
    case("S13", stored, f"stored{v}", what="names", n=2, second=False, vaex=vx)
    case("S13", stored, f"stored-append{v}", what="names", n=3, second=True, vaex=vx, weight=2)
    case("S15", stored, f"expanded{v}", what="caller", n=2, second=False, vaex=vx)


def conform(ctx, n, options):
    """Names of a multi-index turned into strings."""
    import pandas as pd

    from oups.store.utils import conform_cmidx

    tups = [
        (ctx.choice(f"c{j}_0", options), ctx.choice(f"c{j}_1", options)) for j in range(n)
    ]
    names = [ctx.choice(f"n{p}", [None, "x", ""]) for p in range(2)]
    ctx.assume(len(set(tups)) == n)
    df = pd.DataFrame([list(range(n))], columns=pd.MultiIndex.from_tuples(tups, names=names))
    exp = [tuple(str(v) for v in t) for t in tups]
    _, err = ctx.call(conform_cmidx, df)
    if any(len({t[q] for t in tups}) != len({t[q] for t in exp}) for q in range(2)):
        # Two names with the same string: refused, not merged.
        ctx.check("names which would be merged are refused", err is not None)
        return "refused"
    ctx.check(f"names are conformed ({type(err).__name__ if err else 'ok'})", err is None)
    ctx.check("same columns, as strings", df.columns.tolist() == exp)
    ctx.check("names of levels", list(df.columns.names) == ["" if v is None else v for v in names])
    ctx.check("data is unchanged", df.iloc[0].tolist() == list(range(n)))
    return [list(t) for t in df.columns.tolist()]


case("S13", conform, "conform", n=2, options=["a", 1, 2, "1"], weight=2)
