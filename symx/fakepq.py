"""
Model of the fastparquet API for datasets of the in-memory file system.

Mirrors fastparquet 2024.5 for `hive` datasets: one file per row group named
`part.{n}.parquet` (n = 1 + highest existing), statistics per row group, list
of row groups kept in `_metadata`. Genuine functions handle any other path.
"""
import copy
import errno

import pandas as pd

from .symfs import Dir
from .symfs import fs
from .symfs import mine
from .symstr import SymStr
from .symstr import join_path


class Stats:
    def __init__(self, vals):
        from .logic import max_of
        from .logic import min_of

        self.min = min_of(vals)
        self.max = max_of(vals)


class Col:
    def __init__(self, name, file_path, stats):
        self.name = name
        self.file_path = file_path
        self.stats = stats


class RG:
    def __init__(self, data, file_path, stats="auto"):
        self.num_rows = len(data)
        self.token = object()
        self.columns = []
        for c in data.columns:
            vals = [v for v in data[c].tolist() if v is not pd.NA]
            ok = len(vals) and all(_num(v) for v in vals)
            if stats != "auto":
                ok = ok and (stats if isinstance(stats, bool) else c in stats)
            self.columns.append(Col(c, file_path, Stats(vals) if ok else None))


def _num(v):
    import numpy as np

    from .values import SymInt

    return isinstance(v, (SymInt, int, np.integer)) and not isinstance(v, bool)


class Fmd:
    def __init__(self):
        self.row_groups = []
        self.kv = {}
        self.columns = []
        self.num_rows = 0
        self.cmidx = None

    def snapshot(self):
        f = Fmd()
        f.row_groups = [copy.copy(r) for r in self.row_groups]
        for r in f.row_groups:
            r.columns = [copy.copy(c) for c in r.columns]
        f.kv = dict(self.kv)
        f.columns = list(self.columns)
        f.num_rows = self.num_rows
        f.cmidx = self.cmidx
        return f


class FakeFS:
    def rename(self, a, b):
        fs.rename(a, b)

    def rm(self, x):
        for f in x if isinstance(x, list) else [x]:
            fs.unlink(f)


class SymPF:
    def __init__(self, dirpath):
        self.basepath = dirpath if type(dirpath) in (str, SymStr) else str(dirpath)
        self.fs = FakeFS()
        d = fs.node(self.basepath)
        if not isinstance(d, Dir):
            raise FileNotFoundError(self.basepath)
        md = d.get("_metadata")
        if md is None:
            # Dataset rebuilt from the part files, in lexicographic order.
            names = sorted(n for n, _ in d.items if n.endswith(".parquet") or n.endswith(".parq"))
            if not names:
                raise FileNotFoundError(self.basepath)
            self.fmd = Fmd()
            for n in names:
                if d.get(n).data is None:
                    raise OSError(errno.EINVAL, "Invalid argument")
                data, token = d.get(n).data
                rg = RG(data, n)
                rg.token = token
                self.fmd.row_groups.append(rg)
                self.fmd.columns = list(data.columns)
        else:
            self.fmd = md.data.snapshot()
        self.fn = join_path(self.basepath, "_metadata")
        self.file_scheme = "hive"
        self.created_by = b"fastparquet"
        self.cats = {}

    def __bool__(self):
        return True

    def __len__(self):
        return len(self.row_groups)

    @property
    def row_groups(self):
        return self.fmd.row_groups

    @property
    def columns(self):
        return list(self.fmd.columns)

    @property
    def key_value_metadata(self):
        return dict(self.fmd.kv)

    @property
    def statistics(self):
        return statistics(self)

    @property
    def info(self):
        return {"row_groups": len(self.row_groups), "rows": self.count()}

    def __getitem__(self, item):
        rgs = self.row_groups[item]
        new = copy.copy(self)
        new.fmd = copy.copy(self.fmd)
        new.fmd.row_groups = rgs if isinstance(rgs, list) else [rgs]
        return new

    def count(self, *a, **k):
        return sum(rg.num_rows for rg in self.row_groups)

    def row_group_filename(self, rg):
        return join_path(self.basepath, rg.columns[0].file_path)

    def _pids(self):
        return [int(rg.columns[0].file_path[5:-8]) for rg in self.row_groups]

    def write_row_groups(
        self,
        data,
        row_group_offsets=None,
        sort_key=None,
        sort_pnames=False,
        compression=None,
        write_fmd=True,
        stats="auto",
        **kw,
    ):
        _usual(kw)
        if isinstance(data, pd.DataFrame):
            if sorted(data.columns) != sorted(self.columns):
                raise ValueError("Column names of new data are different from existing file.")
            data = _chunks(data, row_group_offsets)
        offset = max(self._pids(), default=-1) + 1
        for i, chunk in enumerate(data):
            self._write_part(chunk, f"part.{offset + i}.parquet", stats)
        if sort_key:
            self.fmd.row_groups = sorted(self.fmd.row_groups, key=sort_key)
        if sort_pnames:
            self._sort_part_names(False)
        if write_fmd:
            self._write_common_metadata()

    def _write_part(self, chunk, name, stats="auto"):
        if len(chunk) == 0:
            raise AttributeError("'NoneType' object has no attribute 'columns'")
        if isinstance(chunk.columns, pd.MultiIndex):
            chunk = chunk.set_axis([str(c) for c in chunk.columns], axis=1)
        if self.fmd.columns:
            missing = [c for c in self.fmd.columns if c not in chunk.columns]
            if missing:
                raise KeyError(missing[0])
            chunk = chunk[self.fmd.columns]
        else:
            self.fmd.columns = list(chunk.columns)
        rg = RG(chunk, name, stats)
        fs.write(join_path(self.basepath, name), (chunk.reset_index(drop=True), rg.token))
        self.fmd.row_groups = self.fmd.row_groups + [rg]
        self.fmd.num_rows += len(chunk)

    def remove_row_groups(self, rgs, sort_pnames=False, write_fmd=True, **kw):
        _usual(kw)
        rgs = list(rgs) if isinstance(rgs, (list, tuple)) or hasattr(rgs, "__next__") else [rgs]
        if rgs:
            files = [join_path(self.basepath, rg.columns[0].file_path) for rg in rgs]
            toks = [rg.token for rg in rgs]
            n = len(self.fmd.row_groups)
            self.fmd.row_groups = [r for r in self.fmd.row_groups if r.token not in toks]
            if len(self.fmd.row_groups) != n - len(toks):
                raise ValueError("list.remove(x): x not in list")
            self.fmd.num_rows = self.count()
            for f in files:
                fs.unlink(f)
        if sort_pnames:
            self._sort_part_names(False)
        if write_fmd:
            self._write_common_metadata()

    def _sort_part_names(self, write_fmd=True, **kw):
        moves = []
        for i, rg in enumerate(self.row_groups):
            name = rg.columns[0].file_path
            if name != f"part.{i}.parquet":
                moves.append((i, name))
        for i, name in moves:
            fs.rename(join_path(self.basepath, name), join_path(self.basepath, f"part.{i}.parquet.tmp"))
        for i, name in moves:
            fs.rename(
                join_path(self.basepath, f"part.{i}.parquet.tmp"), join_path(self.basepath, f"part.{i}.parquet")
            )
            for c in self.row_groups[i].columns:
                c.file_path = f"part.{i}.parquet"
        if write_fmd:
            self._write_common_metadata()

    def _write_common_metadata(self, *a, **k):
        fs.write(join_path(self.basepath, "_metadata"), self.fmd.snapshot())
        common = self.fmd.snapshot()
        common.row_groups = []
        fs.write(join_path(self.basepath, "_common_metadata"), common)

    def read_rg(self, rg):
        data, token = fs.read(self.row_group_filename(rg))
        if token is not rg.token:
            raise OSError("row group file does not match metadata")
        return data

    def to_pandas(self, columns=None, *a, **k):
        dfs = [self.read_rg(rg) for rg in self.row_groups]
        if not dfs:
            return pd.DataFrame({c: pd.Series([], dtype=object) for c in self.columns})
        df = pd.concat(dfs, ignore_index=True)
        if self.fmd.cmidx is not None:
            df.columns = self.fmd.cmidx
        return df[columns] if columns else df


def _chunks(data, offsets):
    n = len(data)
    if offsets is None:
        offsets = 50_000_000
    if isinstance(offsets, int):
        if not offsets:
            offsets = [0]
        else:
            nparts = max((n - 1) // offsets + 1, 1)
            size = max(min((n - 1) // nparts + 1, n), 1)
            offsets = list(range(0, n, size))
    for i, s in enumerate(offsets):
        yield data.iloc[s : offsets[i + 1] if i + 1 < len(offsets) else None]


def statistics(obj):
    if isinstance(obj, Col):
        return {"min": obj.stats.min, "max": obj.stats.max} if obj.stats else {}
    if isinstance(obj, RG):
        return {c.name: statistics(c) for c in obj.columns}
    out = {"min": {}, "max": {}}
    for k in ("min", "max"):
        for i, c in enumerate(obj.columns):
            out[k][c] = [statistics(rg.columns[i]).get(k) for rg in obj.row_groups]
    return out


def filter_row_groups(pf, filters, as_idx=False):
    filters = filters or [[]]
    if filters[0] and isinstance(filters[0][0], str):
        filters = [filters]
    for ands in filters:
        for f in ands:
            if f[0] not in pf.columns:
                raise ValueError("No filter can be applied on nonexistent column(s).")

    def out(rg, ands):
        if rg.num_rows == 0:
            return True
        for name, op, val in ands:
            st = next(c for c in rg.columns if c.name == name).stats
            if st is None:
                continue
            if op in ("==", "=", ">=") and val > st.max:
                return True
            if op == ">" and val >= st.max:
                return True
            if op in ("==", "=", "<=") and val < st.min:
                return True
            if op == "<" and val <= st.min:
                return True
            if op in ("in", "not in", "!="):
                from .values import gap

                gap(f"row group filter {op}")
        return False

    keep = [(i, rg) for i, rg in enumerate(pf.row_groups) if any(not out(rg, a) for a in filters)]
    return [i for i, _ in keep] if as_idx else [rg for _, rg in keep]


def _s(v):
    if isinstance(v, bytes):
        try:
            return v.decode()
        except UnicodeDecodeError:
            return v
    return v


def update_custom_metadata(pf, md):
    for k, v in md.items():
        k = _s(k)
        if v is None:
            pf.fmd.kv.pop(k, None)
        else:
            pf.fmd.kv[k] = _s(v)


USUAL = {
    "open_with": None,
    "mkdirs": None,
    "has_nulls": True,
    "write_index": False,
    "partition_on": [],
    "fixed_text": None,
    "object_encoding": "infer",
    "times": "int64",
    "custom_metadata": None,
    "remove_with": None,
}


def _usual(kw):
    """Settings which are not modelled have to keep their default value."""
    from .values import gap

    for k, v in kw.items():
        if k != "compression" and not (k in USUAL and v == USUAL[k]):
            gap(f"fastparquet setting {k}={v!r}")


def write(filename, data, row_group_offsets=None, file_scheme="simple", append=False, stats="auto",
          **kw):
    from .values import gap

    _usual(kw)
    if file_scheme != "hive" or append:
        gap("fastparquet.write with other parameters")
    fs.makedirs(filename)
    pf = SymPF.__new__(SymPF)
    pf.basepath, pf.fs, pf.fmd = filename, FakeFS(), Fmd()
    pf.fn, pf.file_scheme, pf.cats = join_path(filename, "_metadata"), "hive", {}
    if isinstance(data.columns, pd.MultiIndex):
        pf.fmd.cmidx = data.columns
        data = data.copy()
        data.columns = [str(c) for c in data.columns]
    pf.fmd.columns = list(data.columns)
    for i, chunk in enumerate(_chunks(data, row_group_offsets)):
        pf._write_part(chunk, f"part.{i}.parquet", stats)
    pf._write_common_metadata()


def install():
    import fastparquet
    import fastparquet.api
    import fastparquet.util
    import fastparquet.writer

    real_pf = fastparquet.ParquetFile

    class Meta(type(real_pf)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, (SymPF, real_pf))

        def __call__(cls, fn=None, *a, **k):
            if fn is not None and mine(fn):
                return SymPF(fn)
            return real_pf(fn, *a, **k)

    PF = Meta("ParquetFile", (real_pf,), {})
    fastparquet.ParquetFile = PF
    fastparquet.api.ParquetFile = PF

    def disp(mods, name, fake, test):
        real = getattr(mods[0], name)

        def w(*a, **k):
            return (fake if a and test(a[0]) else real)(*a, **k)

        w.__name__ = name
        for m in mods:
            setattr(m, name, w)

    is_pf = lambda o: isinstance(o, SymPF)  # noqa: E731
    disp([fastparquet.writer, fastparquet], "write", write, mine)
    disp([fastparquet.api], "filter_row_groups", filter_row_groups, is_pf)
    disp([fastparquet.api], "statistics", statistics, lambda o: isinstance(o, (SymPF, RG, Col)))
    disp([fastparquet.util], "update_custom_metadata", update_custom_metadata, is_pf)
