"""
Harnesses of the keys of a store and of its directory tree: S07 - S10.

Values of the fields are symbolic strings and integers (concrete length, symbolic
characters). The tree of directories lives in the in-memory file system.
"""
import copy
import dataclasses

from symx.logic import all_of
from symx.logic import any_of
from symx.logic import iff
from symx.logic import implies
from symx.logic import no
from symx.logic import seq_eq

from . import case


def schema(ctx, shape, sep="-"):
    """A `@toplevel` class, `shape` having one string per level, one letter per field (i, s)."""
    from oups import sublevel
    from oups import toplevel

    types = {"s": ctx.str_t, "i": ctx.int_t}
    sub, classes = None, []
    for k in range(len(shape) - 1, -1, -1):
        ann = {f"f{k}{j}": types[t] for j, t in enumerate(shape[k])}
        if sub is not None:
            ann["sub"] = sub
        cls = type(f"Level{k}", (), {"__annotations__": ann})
        sub = sublevel(cls) if k else toplevel(cls, fields_sep=sep)
        classes.insert(0, sub)
    return classes


def fields(ctx, shape, name, size, digits, chars=None):
    """Values of fields, per level."""
    return [
        [
            ctx.text(f"{name}{k}{j}", 0, size, chars) if t == "s" else ctx.number(f"{name}{k}{j}", digits)
            for j, t in enumerate(level)
        ]
        for k, level in enumerate(shape)
    ]


def build(classes, vals):
    sub = None
    for cls, v in reversed(list(zip(classes, vals))):
        sub = cls(*v) if sub is None else cls(*v, sub)
    return sub


def flat(key):
    out = []
    while key is not None:
        nxt = None
        for v in (getattr(key, f.name) for f in dataclasses.fields(key)):
            if hasattr(v, "__dataclass_fields__"):
                nxt = v
            else:
                out.append(v)
        key = nxt
    return out


def has(ctx, text, sub):
    """Text contains a string, without deciding."""
    return text.contains(sub) if hasattr(text, "contains") else sub in text


def valid(ctx, vals, sep):
    """Key which has to be accepted: no forbidden character, no empty directory name."""
    bad = []
    for level in vals:
        for v in level:
            s = ctx.str_of(v)
            bad += [has(ctx, s, c) for c in (sep, "/", ".")]
        if len(level) == 1:
            bad.append(len(ctx.str_of(level[0])) == 0)
    return no(any_of(bad))


def same(ctx, a, b):
    return seq_eq([ctx.str_of(v) for v in flat(a)], [ctx.str_of(v) for v in flat(b)])


def roundtrip(ctx, shape, sep, size, digits):
    """A key is built back from its string, from its path, from its serialized form."""
    classes = schema(ctx, shape, sep)
    vals = fields(ctx, shape, "v", size, digits)
    key, err = ctx.call(build, classes, vals)
    if err is not None:
        ctx.check(f"key is accepted ({type(err).__name__})", no(valid(ctx, vals, sep)))
        return "refused"
    cls = classes[0]
    s, p = ctx.str_of(key), key.to_path
    for label, f in (
        ("string", lambda: cls.from_str(s)),
        ("path", lambda: cls.from_path(p)),
        ("serialized form", lambda: copy.copy(key)),
    ):
        back, err = ctx.call(f)
        ctx.check(f"key built from its {label} ({type(err).__name__ if err else 'ok'})", err is None)
        ctx.check(f"a key is obtained from its {label}", isinstance(back, cls))
        ctx.check(f"same key from its {label}", same(ctx, back, key))
        ctx.check(f"keys compare equal, from {label}", bool(back == key) and hash(back) == hash(key))
    return [s, p]


def stranger(ctx, shape, sep, size, like=None):
    """A string yields a key only if it is one of the forms of this key."""
    classes = schema(ctx, shape, sep)
    cls = classes[0]
    s = ctx.text("s", 0, size, like)
    for label in ("from_str", "from_path"):
        key, err = ctx.call(getattr(cls, label), s)
        ctx.check(f"{label} does not fail ({type(err).__name__ if err else 'ok'})", err is None)
        if key is None:
            continue
        _, err = ctx.call(build, classes, levels(key))
        ctx.check(f"key given by {label} is a valid one", err is None)
        ctx.check(
            f"string is a form of the key given by {label}",
            any_of(s == ctx.str_of(key), s == key.to_path),
        )
    return [s, key is None]


def levels(key):
    out = []
    while key is not None:
        nxt, level = None, []
        for v in (getattr(key, f.name) for f in dataclasses.fields(key)):
            if hasattr(v, "__dataclass_fields__"):
                nxt = v
            else:
                level.append(v)
        out.append(level)
        key = nxt
    return out


def accepted(ctx, shape, sep, size, digits):
    """Keys which are accepted, and the directory of those."""
    from oups import ParquetSet

    classes = schema(ctx, shape, sep)
    vals = fields(ctx, shape, "v", size, digits)
    ok = valid(ctx, vals, sep)
    key, err = ctx.call(build, classes, vals)
    if err is not None:
        ctx.check("refused as a ValueError", isinstance(err, ValueError))
        ctx.check("only keys with a forbidden value are refused", no(ok))
        ctx.cover("refused")
        return "refused"
    ctx.check("keys with a forbidden value are refused", ok)
    p = key.to_path
    comps = p.split("/")
    ctx.check("as many directories as levels", len(comps) == len(shape))
    for c in comps:
        ctx.check("name of directory is not empty", len(c) > 0)
        ctx.check("name of directory is not relative", no(any_of(c == ".", c == "..")))
    base = ctx.dir("a/base")
    ps, err = ctx.call(ParquetSet, base, classes[0])
    ctx.check("store is opened on a missing directory", err is None and len(ps) == 0)
    ctx.check("directory in the base directory", ps[key].dirpath == base + "/" + p)
    return [p]


def other_types(ctx, shape, sep, size, digits):
    """A field with a value neither an integer nor a string."""
    classes = schema(ctx, shape, sep)
    vals = fields(ctx, shape, "v", size, digits)
    ctx.assume(valid(ctx, vals, sep))
    k, j = ctx.choice("field", [(k, j) for k, s in enumerate(shape) for j in range(len(s))])
    val = ctx.choice("value", [None, True, False, 1.5, 1e300, b"a", ("a",), ["a"], object])
    vals[k][j] = val
    _, err = ctx.call(build, classes, vals)
    ctx.check(f"value {val!r} is refused", isinstance(err, (TypeError, ValueError)))
    return type(err).__name__


def distinct(ctx, shape, sep, size, digits):
    """Two keys share a directory only if they are equal."""
    classes = schema(ctx, shape, sep)
    va = fields(ctx, shape, "v", size, digits)
    vb = fields(ctx, shape, "w", size, digits)
    ctx.assume(all_of(valid(ctx, va, sep), valid(ctx, vb, sep)))
    a, e1 = ctx.call(build, classes, va)
    b, e2 = ctx.call(build, classes, vb)
    ctx.check("keys are accepted", e1 is None and e2 is None)
    eq = same(ctx, a, b)
    pa, pb = a.to_path, b.to_path
    ctx.check("same directory for same keys only", iff(pa == pb, eq))
    ctx.check("no directory within the one of another key", no(any_of((pa + "/") == pb[: len(pa) + 1], (pb + "/") == pa[: len(pb) + 1])))
    ctx.check("same string for same keys only", implies(ctx.str_of(a) == ctx.str_of(b), eq))
    return [pa, pb]


SHAPES1 = (["s"], ["ss"], ["is"], ["sis"])
SHAPES2 = (["s", "s"], ["is", "si"], ["ss", "ss"])
SHAPES3 = (["s", "i", "s"], ["s", "ss", "i"])
SEPS = ("-", "_", "d", "|")
ALL_SEPS = [chr(c) for c in range(33, 127) if chr(c) not in "/-_d|"] + [" ", "é"]


def name(shape):
    return "+".join(shape)


for sh in SHAPES1 + SHAPES2 + SHAPES3:
    n = sum(map(len, sh))
    case("S07", roundtrip, f"roundtrip-{name(sh)}", weight=n, shape=sh, sep="-", size=2 if n < 4 else 1, digits=2)
    case("S07", roundtrip, f"roundtrip-long-{name(sh)}", tier="thorough", weight=n * 3, shape=sh, sep="-", size=3 if n < 4 else 2, digits=3)
    case("S07", stranger, f"stranger-{name(sh)}", weight=4, shape=sh, sep="-", size=4)
    case("S07", stranger, f"stranger-long-{name(sh)}", tier="thorough", weight=9, shape=sh, sep="-", size=6)
    case("S08", accepted, f"accepted-{name(sh)}", weight=n, shape=sh, sep="-", size=2 if n < 4 else 1, digits=2)
    case("S08", accepted, f"accepted-long-{name(sh)}", tier="thorough", weight=n * 3, shape=sh, sep="-", size=3 if n < 4 else 2, digits=3)
    case("S08", other_types, f"other-types-{name(sh)}", shape=sh, sep="-", size=1, digits=1)
    case("S08", distinct, f"distinct-{name(sh)}", weight=n, shape=sh, sep="-", size=2 if n < 3 else 1, digits=1)
for sep in SEPS[1:]:
    for sh in (["ss"], ["si", "is"]):
        case("S07", roundtrip, f"sep{ord(sep)}-roundtrip-{name(sh)}", shape=sh, sep=sep, size=1, digits=2)
        case("S07", stranger, f"sep{ord(sep)}-stranger-{name(sh)}", shape=sh, sep=sep, size=4)
        case("S08", accepted, f"sep{ord(sep)}-accepted-{name(sh)}", shape=sh, sep=sep, size=1, digits=2)
        case("S08", distinct, f"sep{ord(sep)}-distinct-{name(sh)}", shape=sh, sep=sep, size=1, digits=1)
for sep in "\\]^*+$([?{.":
    # Those having a meaning in a pattern.
    case("S07", roundtrip, f"sep{ord(sep)}-roundtrip-ss", shape=["ss"], sep=sep, size=1, digits=2)
    case("S07", stranger, f"sep{ord(sep)}-stranger-ss", shape=["ss"], sep=sep, size=3)
for sep in ALL_SEPS:
    sh = ["ss", "is"]
    case("S07", roundtrip, f"sep{ord(sep)}-roundtrip", tier="thorough", shape=sh, sep=sep, size=1, digits=2)
    case("S07", stranger, f"sep{ord(sep)}-stranger", tier="thorough", shape=sh, sep=sep, size=4)
    case("S08", accepted, f"sep{ord(sep)}-accepted", tier="thorough", shape=sh, sep=sep, size=1, digits=2)


# -- key set and tree of directories ------------------------------------------------
BASES = {
    # Form of the base path, and the working directory.
    "abs": ("{d}/base", None),
    "slash": ("{d}/base/", None),
    "path": ("{d}/base", None),
    "rel": ("base", "{d}"),
    "dot": ("./base", "{d}"),
    "relslash": ("base/", "{d}"),
    "here": (".", "{d}/base"),
}


def open_store(ctx, form, cls):
    import pathlib

    from oups import ParquetSet

    d = ctx.dir("z/y/x")
    base, cwd = (None if v is None else v.format(d=d) for v in BASES[form])
    if cwd is not None:
        ctx.mkdir(cwd)
        ctx.chdir(cwd)
    if form == "path":
        base = pathlib.Path(base)
    ps, err = ctx.call(ParquetSet, base, cls)
    ctx.check(f"store is opened ({type(err).__name__ if err else 'ok'})", err is None)
    return ps, base, d + "/base"


def prefixes(comps, n=None):
    return [tuple(comps[:i]) for i in range(1, len(comps) + 1)]


def path_eq(p, q):
    if len(p) != len(q):
        return False
    return all_of([a == b for a, b in zip(p, q)])


class Model:
    """What the store has to contain: rows per key, and what is foreign to it."""

    def __init__(self, ctx, classes, keys, comps):
        self.ctx, self.classes, self.keys, self.comps = ctx, classes, keys, comps
        self.rows = [None] * len(keys)
        self.dirs, self.files, self.extra = [], [], []

    def rep(self, i):
        """First key equal to this one."""
        for j in range(i):
            if bool(path_eq(self.comps[j], self.comps[i])):
                return j
        return i


def df(ctx, ids):
    return ctx.frame({"i": (list(ids), "int")})


def verify(ctx, m, ps, base, root, what):
    """Keys, content and tree are as expected."""
    from oups import ParquetSet

    present = [i for i in range(len(m.keys)) if m.rows[i] is not None]
    comps = [m.comps[i] for i in present] + m.extra
    if what == "tree":
        return verify_tree(ctx, m, comps, root)
    fresh, err = ctx.call(ParquetSet, base, m.classes[0])
    ctx.check(f"fresh store is opened ({type(err).__name__ if err else 'ok'})", err is None)
    for label, store in (("store", ps), ("fresh store", fresh)):
        got = list(store.keys)
        ctx.check(f"number of keys of {label}", len(got) == len(comps) and len(store) == len(comps))
        gc = [k.to_path.split("/") for k in got]
        for c in comps:
            ctx.check(f"each dataset is a key of {label}", any_of([path_eq(c, g) for g in gc]))
        for g in gc:
            ctx.check(f"each key of {label} is a dataset", any_of([path_eq(c, g) for c in comps]))
        ctx.check(f"keys of {label} are sorted", all(bool(a < b) for a, b in zip(got, got[1:])))
        ctx.check(f"iteration over {label}", [bool(a == b) for a, b in zip(store, got)] == [True] * len(got))
        for i in range(len(m.keys)):
            is_in = any_of([path_eq(m.comps[i], c) for c in comps])
            ctx.check(f"membership in {label}", iff(m.keys[i] in store, is_in))
    for i in present:
        h, err = ctx.call(lambda: ctx.plain(ps[m.keys[i]].pdf["i"]))
        ctx.check(f"data of a key is read ({type(err).__name__ if err else 'ok'})", err is None)
        ctx.check("data of a key is the one written", h == m.rows[i])
    return [ctx.str_of(k) for k in ps.keys]


def verify_tree(ctx, m, comps, root):
    tree = ctx.tree(root)
    ctx.check("base directory remains", tree is not None)
    dirs = [p for p, d in tree if d]
    files = [p for p, d in tree if not d]
    exp = [q for c in comps + m.dirs for q in prefixes(c)]
    for p in dirs:
        ctx.check("no other directory remains", any_of([path_eq(p, e) for e in exp]))
    for e in exp:
        ctx.check("expected directory exists", any_of([path_eq(p, e) for p in dirs]))
    for f in m.files:
        ctx.check("foreign file remains", any_of([path_eq(p, f) for p in files]))
    ctx.check("nothing done out of the base directory", not ctx.outside())
    return [len(dirs), len(files)]


DATA_FILES = ("a.parquet", "part.10.parquet", "a.parq", "_metadata", "_common_metadata")
OTHER_FILES = ("notes.txt", "_metadata_bak", "a_metadata", "a.parquet.tmp", "parquet", "a_parq", "a.csv")


def start(ctx, shape, form, n_keys, size, digits, foreign):
    """Keys (possibly equal), store opened on a directory with foreign content."""
    classes = schema(ctx, shape)
    keys, comps, vals = [], [], []
    for i in range(n_keys):
        v = fields(ctx, shape, "uvw"[i], size, digits)
        ctx.assume(valid(ctx, v, "-"))
        vals.append(v)
        keys.append(build(classes, v))
        comps.append(keys[-1].to_path.split("/"))
    m = Model(ctx, classes, keys, comps)
    m.vals, m.others = vals, schema(ctx, shape)
    root = ctx.dir("z/y/x/base")
    ctx.mkfile(ctx.dir("z/keep"))
    join = "/".join

    def add(comps_, is_file):
        p = root
        for c in comps_:
            p = p + "/" + c
        (ctx.mkfile if is_file else ctx.mkdir)(p)
        m.dirs.append(tuple(comps_[:-1] if is_file else comps_))
        if is_file:
            m.files.append(tuple(comps_))

    _ = join
    if foreign:
        ctx.mkdir(root)
    depth = len(shape)
    if foreign == "file in base":
        add([ctx.lit("notes.txt")], True)
    elif foreign == "dataset in base":
        add([ctx.lit("part.0.parquet")], True)
    elif foreign == "file in parent":
        add([*comps[0][:-1], ctx.lit("notes.parquet")], True)
    elif foreign == "empty sibling":
        add([*comps[0][:-1], ctx.lit("a.b")], False)
    elif foreign == "file at leaf":
        add([*comps[0][:-1], ctx.lit("c.d"), ctx.lit("notes.txt")], True)
    elif foreign == "at key":
        # The directory of a key, with no data: this key is not in the store.
        ctx.assume(no(path_eq(comps[0], comps[1])))
        if ctx.choice("nested", [False, True]):
            add([*comps[1], ctx.lit("x"), ctx.lit("notes.txt")], True)
        else:
            add([*comps[1], ctx.lit("notes.txt")], True)
    elif foreign == "deeper":
        add([*comps[0], ctx.lit("x"), ctx.lit("y"), ctx.lit("part.0.parquet")], True)
    elif foreign == "dataset":
        # A dataset in a directory of any name, at the depth of keys.
        names = [ctx.text(f"d{k}", 1, 2 if depth == 1 else 1) for k in range(depth)]
        for s in names:
            ctx.assume(no(any_of(has(ctx, s, "/"), s == ".", s == "..")))
        for c in comps:
            ctx.assume(no(path_eq(c, names)))
        add([*names, ctx.lit("part.0.parquet")], True)
        p = names[0]
        for s in names[1:]:
            p = p + "/" + s
        key = classes[0].from_path(p)
        if key is not None:
            m.extra.append(tuple(names))
            ctx.cover("foreign dataset has the name of a key")
    elif foreign == "file names":
        # A directory with the name of a key, and a file of any kind in it.
        names = [ctx.lit(c) for c in "zyx"[:depth]]
        f = ctx.choice("file", DATA_FILES + OTHER_FILES)
        for c in comps:
            ctx.assume(no(path_eq(c, names)))
        add([*names, ctx.lit(f)], True)
        # Possibly with another file, listed before or after.
        other = ctx.choice("with", [None, "0.txt", "~.txt"]) if depth == 1 else None
        if other:
            add([*names, ctx.lit(other)], True)
        if f in DATA_FILES:
            m.extra.append(tuple(names))
            ctx.cover("dataset")
    ps, base, root = open_store(ctx, form, classes[0])
    ctx.check("keys of the store when opened", len(ps) == len(m.extra))
    return m, ps, base, root


def history(ctx, what, shape, form, n_keys, n_ops, size=1, digits=1, foreign=None, first=None, refused=False):
    """Writes and deletions, and possibly writes which are refused."""
    m, ps, base, root = start(ctx, shape, form, n_keys, size, digits, foreign)
    n, obs = 0, []
    for t in range(n_ops):
        op = first if (first and t == 0) else ctx.choice(
            f"op{t}", [(o, i) for i in range(n_keys) for o in (("set", "del", "bad", "empty") if refused else ("set", "del"))]
        )
        act, i = op
        j = m.rep(i)
        if act == "set":
            n += 1
            _, err = ctx.call(ps.__setitem__, m.keys[i], df(ctx, [n]))
            ctx.check(f"data is written ({type(err).__name__ if err else 'ok'})", err is None)
            m.rows[j] = (m.rows[j] or []) + [n]
        elif act == "empty":
            # A dataset without rows is a dataset.
            _, err = ctx.call(ps.__setitem__, m.keys[i], df(ctx, []))
            ctx.check(f"no row is written ({type(err).__name__ if err else 'ok'})", err is None)
            if m.rows[j] is None:
                ctx.cover("dataset without rows")
            m.rows[j] = m.rows[j] or []
        elif act == "bad":
            kind = ctx.choice(f"bad{t}", ["column", "type", "argument", "schema"])
            key = m.keys[i]
            if kind == "schema":
                # A key with same fields, of another schema.
                key = build(m.others, m.vals[i])
            data = "not a dataframe" if kind == "type" else df(ctx, [0])
            kw = {"column": {"ordered_on": "missing"}, "argument": {"unknown": 1}}.get(kind)
            _, err = ctx.call(ps.__setitem__, key, (kw, data) if kw else data)
            ctx.check("write is refused", err is not None)
            ctx.cover("write refused")
        else:
            _, err = ctx.call(ps.__delitem__, m.keys[i])
            ctx.check(f"key is deleted ({type(err).__name__ if err else 'ok'})", err is None)
            if m.rows[j] is not None:
                ctx.cover("key deleted")
                if foreign == "at key" and i == 1:
                    # Directory of this key is removed, with all it contains.
                    m.dirs, m.files = [], []
            elif foreign == "at key" and i == 1:
                ctx.cover("absent key deleted")
            m.rows[j] = None
            if foreign == "deeper" and i == 0:
                return "not decided"
        obs.append(verify(ctx, m, ps, base, root, what))
    return obs


FOREIGN = ("file names", "file in base", "dataset in base", "file in parent", "empty sibling", "file at leaf", "dataset")
SET0 = ("set", 0)
for prop, what in (("S09", "keys"), ("S10", "tree")):
    for sh in (["s"], ["s", "s"]):
        case(prop, history, f"history-{name(sh)}", weight=9, what=what, shape=sh, form="abs", n_keys=2, n_ops=3, first=SET0)
    case(prop, history, "refused-s", weight=9, what=what, shape=["s"], form="abs", n_keys=2, n_ops=2 if what == "keys" else 3, first=None if what == "keys" else SET0, refused=True)
    case(prop, history, "refused-s+s", tier="thorough", weight=30, what=what, shape=["s", "s"], form="abs", n_keys=2, n_ops=3, first=SET0, refused=True)
    case(prop, history, "history-i+si", weight=9, what=what, shape=["i", "si"], form="abs", n_keys=2, n_ops=2, first=SET0)
    case(prop, history, "history-i+si-3", tier="thorough", weight=30, what=what, shape=["i", "si"], form="abs", n_keys=2, n_ops=3, first=SET0)
    case(prop, history, "history-s+s+s", weight=9, what=what, shape=["s", "s", "s"], form="abs", n_keys=2, n_ops=3, first=SET0)
    case(prop, history, "history-3", tier="thorough", weight=30, what=what, shape=["s", "s"], form="abs", n_keys=3, n_ops=4, first=SET0)
    for f in FOREIGN:
        for sh in (["s"], ["s", "s"]) if f != "file in parent" else (["s", "s"],):
            case(prop, history, f"{f.replace(' ', '-')}-{name(sh)}", weight=5, what=what, shape=sh, form="abs", n_keys=2, n_ops=2, foreign=f, first=SET0)
    for sh in (["s"], ["s", "s"]):
        case(prop, history, f"at-key-{name(sh)}", weight=5, what=what, shape=sh, form="abs", n_keys=2, n_ops=2, foreign="at key")
    case(prop, history, "at-key-3", tier="thorough", weight=30, what=what, shape=["s", "s"], form="abs", n_keys=2, n_ops=3, foreign="at key")
    for form in BASES:
        case(prop, history, f"base-{form}", weight=2, what=what, shape=["s", "s"], form=form, n_keys=1, n_ops=2, first=SET0)
