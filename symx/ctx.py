"""Harness contexts: `SymCtx` (inputs are solver variables), `RealCtx` (a concrete replay)."""
import builtins
from contextlib import contextmanager

import numpy as np

from . import engine as E
from .z3load import z3

# Origin of timestamps, a midnight.
T0_NS = 1577836800 * 10**9
NAT = -(2**63)
# Real values standing for a number n of the model, for the kinds of columns which do not survive a
# conversion to another type: large integers, fractions, times with nanoseconds. All are linear.
BIG = 2**53 + 1
TICK = 10**9 + 1


class CheckFailed(BaseException):
    """An assertion fails in a concrete replay."""

    def __init__(self, label, info=None):
        super().__init__(label)
        self.label = label
        self.info = info


class Discard(BaseException):
    """A concrete replay does not satisfy an assumption."""


class Base:
    def __init__(self, known=()):
        self.covered = {}
        self.known = set(known)
        self.known_hits = {}

    def cover(self, label):
        self.covered[label] = self.covered.get(label, 0) + 1

    def call(self, fn, *args, **kwargs):
        """Run the real code, return `(result, None)` or `(None, exception)`."""
        try:
            res = fn(*args, **kwargs)
        except Exception as e:
            self._swallow()
            return None, e
        self._swallow()
        return res, None

    def _swallow(self):
        pass

    def need(self, module, *names):
        """Internal functions of oups (not seen by its tests): absent is `not decided`, not a bug."""
        import importlib

        try:
            m = importlib.import_module(module)
            got = [getattr(m, n) for n in names]
        except (ImportError, AttributeError) as e:
            if self.sym:
                from .values import gap

                gap(f"internal function not found: {e}")
            raise Discard() from None
        return got[0] if len(got) == 1 else got

    # -- conversions of observed results into plain values -----------------
    def plain(self, x, kind=None):
        """Scalar, list, Series, Index or array into plain values (None is null)."""
        import pandas as pd

        if isinstance(x, (pd.Series, pd.Index)):
            return [self.plain(v, kind) for v in x.tolist()]
        if isinstance(x, np.ndarray):
            if x.dtype.kind == "M":
                return [self.plain(pd.Timestamp(v), kind) for v in x]
            return [self.plain(v, kind) for v in x.tolist()]
        if isinstance(x, (list, tuple)):
            return [self.plain(v, kind) for v in x]
        return self.scalar(x, kind)

    def rows(self, df, cols, kinds=None):
        """Rows of a dataframe, as tuples of plain values."""
        kinds = kinds or {}
        return list(zip(*[self.plain(df[c], kinds.get(c)) for c in cols])) if len(df) else []


class SymCtx(Base):
    sym = True

    def __init__(self, eng, known=(), extra_consts=()):
        super().__init__(known)
        self.eng = eng
        self.vars = {}
        self.choices = {}
        self.labels = {}
        self.assumes = 0

    # -- inputs -----------------------------------------------------------
    def int(self, name, lo=None, hi=None, cls=None):
        from .values import SymInt

        v = z3.Int(name)
        self.vars[name] = v
        if lo is not None:
            self.eng.assume(v >= lo)
        if hi is not None:
            self.eng.assume(v <= hi)
        return (cls or SymInt)(v)

    def bool(self, name):
        from .values import SymBool

        v = z3.Bool(name)
        self.vars[name] = v
        return SymBool(v)

    def choice(self, name, options):
        """One of the options; the solver decides which ones are feasible."""
        options = list(options)
        v = z3.Int(name)
        self.vars[name] = v
        self.eng.assume(z3.And(v >= 0, v < len(options)))
        for i, o in enumerate(options[:-1]):
            if self.eng.branch(v == i):
                return o
        return options[-1]

    def atom(self, name, n):
        """A string among the n first ones of a table."""
        from .values import SymAtom

        return self.int(name, 0, n - 1, SymAtom)

    def tuple_name(self, j, parts):
        """String form of a tuple of atoms."""
        from .values import LitStr

        s = LitStr(f"('{j}', {parts!r})")
        s.parts = tuple(parts)
        return s

    def text(self, name, lo, hi, chars=None):
        """A string of `lo` to `hi` characters: any in ASCII (but NUL) and Latin letters."""
        from .symstr import SymStr

        n = self.choice(f"{name}_len", range(lo, hi + 1)) if hi > lo else lo
        cs = []
        for i in range(n):
            c = self.int(f"{name}_{i}", 1, 255).t
            self.eng.assume(z3.Or(c < 128, z3.And(c >= 192, c != 215, c != 247)))
            if chars is not None:
                self.eng.assume(z3.Or([c == ord(x) for x in chars]))
            cs.append(c)
        return SymStr(cs)

    def number(self, name, digits):
        """An integer of at most this number of digits."""
        from .symstr import dec

        n = self.choice(f"{name}_n", range(1, digits + 1)) if digits > 1 else 1
        neg = self.choice(f"{name}_neg", [False, True])
        cs = [self.int(f"{name}_{i}", 48, 57).t for i in range(n)]
        if n > 1 or neg:
            self.eng.assume(cs[0] != 48)
        return dec(cs, neg)

    @property
    def str_t(self):
        from .symstr import StrT

        return StrT

    @property
    def int_t(self):
        from .symstr import IntT

        return IntT

    def str_of(self, x):
        from .symstr import to_str

        return to_str(x)

    def lit(self, x):
        """A known string, to be used along symbolic ones."""
        from .symstr import lift

        return lift(x)

    def assume(self, cond):
        from .values import SymBool

        self.assumes += 1
        self.eng.assume(cond.t if isinstance(cond, SymBool) else bool(cond))

    def check(self, label, cond, known=()):
        """Discharge an assertion for all the values following this path."""
        from .values import _tb

        en = self.eng
        if en.aborted is not None:
            raise en.aborted
        en.n_checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        c = cond if isinstance(cond, bool) else _tb(cond)
        for kid, pred in known:
            if kid in self.known:
                p = z3.BoolVal(pred) if isinstance(pred, bool) else _tb(pred)
                cz = z3.BoolVal(c) if isinstance(c, bool) else c
                ok, model = en.holds(z3.Or(cz, z3.Not(p)))
                if not ok:
                    self.known_hits.setdefault(kid, self.values(model))
                c = z3.Or(cz, p)
        ok, model = en.holds(c)
        if not ok:
            v = E.Violation(label)
            v.label = label
            v.values = self.values(model)
            raise v

    def dir(self, name):
        """Path of a directory (not created) of the in-memory file system."""
        from .symfs import ROOT

        return f"{ROOT}/{name}"

    def chdir(self, path):
        from .symfs import fs

        fs.cwd = path

    def mkfile(self, path):
        """A file (and its directories)."""
        from .symfs import File
        from .symfs import fs
        from .symstr import split_path

        parts = split_path(path)
        cur = fs.top
        for p in parts[:-1]:
            nxt = cur.get(p)
            if nxt is None:
                from .symfs import Dir

                nxt = Dir()
                cur.items.append((p, nxt))
            cur = nxt
        cur.set(parts[-1], File(None))

    def mkdir(self, path):
        from .symfs import fs

        fs.makedirs(path)

    def tree(self, path):
        """Components and kind (True for a directory) of all what is below a directory."""
        from .symfs import fs

        n = fs.node(path)
        return None if n is None else fs.tree(n)

    def outside(self):
        """Modifications attempted out of the scratch tree."""
        from .symfs import fs

        return list(fs.outside)

    @contextmanager
    def failing(self, at):
        """The `at`-th write of a part file fails. Yields whether it has."""
        from .symfs import fs

        fs.fail_at, fs.n_ops, fs.fired = at, 0, False
        try:
            yield lambda: fs.fired
        finally:
            fs.fail_at = None

    @contextmanager
    def schedule(self, budget=0, delays=0, reverse=None, shared=None):
        """Tasks in any order; `budget` times, a task is suspended at any line."""
        from .sched import Scheduler
        from .symenv import REPO
        from .symenv import SCHEDULE

        sch = Scheduler(self, REPO, budget, delays, reverse, shared)
        SCHEDULE["run"] = sch.run
        try:
            yield sch
        finally:
            SCHEDULE["run"] = None

    def _swallow(self):
        if self.eng.aborted is not None:
            raise self.eng.aborted

    def values(self, model):
        out = {}
        for k, v in self.vars.items():
            r = model.eval(v, model_completion=True)
            out[k] = z3.is_true(r) if z3.is_bool(r) else r.as_long()
        return out

    def evaluate(self, obs, model):
        """Value of an observation under a model."""
        from .symstr import SymStr
        from .values import SymAtom
        from .values import SymBool
        from .values import SymInt

        if type(obs) is SymStr:
            return obs.concrete(model)
        if isinstance(obs, SymAtom):
            return obs.table[model.eval(obs.t, model_completion=True).as_long()]
        if isinstance(obs, SymInt):
            return model.eval(obs.t, model_completion=True).as_long()
        if isinstance(obs, SymBool):
            return z3.is_true(model.eval(obs.t, model_completion=True))
        if isinstance(obs, dict):
            return {str(k): self.evaluate(v, model) for k, v in obs.items()}
        if isinstance(obs, (list, tuple)):
            return [self.evaluate(v, model) for v in obs]
        if isinstance(obs, (bool, np.bool_)):
            return bool(obs)
        if isinstance(obs, np.integer):
            return int(obs)
        if isinstance(obs, str) and type(obs) is not str and hasattr(obs, "concrete"):
            return obs.concrete(model)
        return obs

    # -- data -------------------------------------------------------------
    def ts(self, k):
        from .values import SymInt

        return SymInt(z3.IntVal(k)) if isinstance(k, (int, np.integer)) else k

    def series(self, vals, kind="int", name=None):
        import pandas as pd

        if kind == "bool" and all(isinstance(v, bool) for v in vals):
            return pd.Series(np.array(vals, dtype=bool), name=name)
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = pd.NA if v is None else self.value(v, kind)
        return pd.Series(a, name=name)

    def frame(self, cols):
        import pandas as pd

        return pd.DataFrame({c: self.series(v, k) for c, (v, k) in cols.items()})

    def array(self, vals, kind="int"):
        return self.series(vals, kind).to_numpy()

    def value(self, v, kind="int"):
        return self.ts(v) if kind in ("ts", "tick") else v

    def scalar(self, x, kind=None):
        import pandas as pd
        from .values import SymBool
        from .values import SymInt

        if x is None or x is pd.NA or x is pd.NaT:
            return None
        if isinstance(x, (SymInt, SymBool, str)):
            return x
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, float) and x != x:
            return None
        if isinstance(x, (int, np.integer)):
            return int(x)
        if isinstance(x, float) and x == int(x):
            return int(x)
        return x


class RealCtx(Base):
    sym = False

    def __init__(self, values, known=()):
        super().__init__(known)
        self.v = values
        self.failed = []

    def int(self, name, lo=None, hi=None, cls=None):
        if name not in self.v:
            return lo if lo is not None else (hi if hi is not None and hi < 0 else 0)
        return self.v[name]

    def bool(self, name):
        return bool(self.v.get(name, False))

    def atom(self, name, n):
        from .values import SymAtom

        return SymAtom.table[self.int(name, 0)]

    def tuple_name(self, j, parts):
        return str(tuple(parts))

    def choice(self, name, options):
        return list(options)[self.v.get(name, 0)]

    str_t, int_t = builtins.str, builtins.int

    def text(self, name, lo, hi, chars=None):
        n = self.choice(f"{name}_len", range(lo, hi + 1)) if hi > lo else lo
        return "".join(chr(self.int(f"{name}_{i}", 97)) for i in range(n))

    def number(self, name, digits):
        n = self.choice(f"{name}_n", range(1, digits + 1)) if digits > 1 else 1
        neg = self.choice(f"{name}_neg", [False, True])
        v = int("".join(chr(self.int(f"{name}_{i}", 49)) for i in range(n)))
        return -v if neg else v

    def str_of(self, x):
        return str(x)

    def lit(self, x):
        return x

    def assume(self, cond):
        if not cond:
            raise Discard()

    def check(self, label, cond, known=()):
        ok = bool(cond)
        if not ok:
            for kid, pred in known:
                if kid in self.known and bool(pred):
                    self.known_hits.setdefault(kid, label)
                    return
            raise CheckFailed(label)

    def dir(self, name):
        """Path of a directory (not created) in the scratch directory of the replay."""
        return f"{self.scratch}/{name}"

    def chdir(self, path):
        import os

        os.chdir(path)

    def mkfile(self, path):
        import os

        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w"):
            pass

    def mkdir(self, path):
        import os

        os.makedirs(path, exist_ok=True)

    def tree(self, path):
        import os

        if not os.path.isdir(path):
            return None
        out = []
        for d, dirs, files in os.walk(path):
            r = [] if d == path else os.path.relpath(d, path).split("/")
            out += [(tuple(r + [x]), True) for x in dirs] + [(tuple(r + [x]), False) for x in files]
        return out

    def outside(self):
        from . import guard

        return list(guard.REFUSED)

    @contextmanager
    def failing(self, at):
        from unittest import mock

        import fastparquet.writer as fw

        n, fired, orig = [0], [False], fw.make_part_file

        def make(*a, **k):
            n[0] += 1
            if n[0] - 1 == at:
                fired[0] = True
                raise OSError("injected fault")
            return orig(*a, **k)

        with mock.patch.object(fw, "make_part_file", make):
            yield lambda: fired[0]

    @contextmanager
    def schedule(self, budget=0, delays=0, reverse=None, shared=None):
        from unittest import mock

        import joblib

        from .sched import Scheduler
        from .symenv import REPO

        sch = Scheduler(self, REPO, budget, delays, reverse, shared)
        with mock.patch.object(joblib.Parallel, "__call__", lambda s, it: sch.run(it)):
            yield sch

    def ts(self, k):
        import pandas as pd

        return pd.Timestamp(T0_NS + int(k) * 10**9)

    def value(self, v, kind="int"):
        if kind == "ts":
            return self.ts(v)
        if kind == "tick":
            return self._tick(v)
        if kind == "num":
            return int(v) * BIG
        if kind == "half":
            return int(v) / 2
        return float(v) if kind == "float" else int(v)

    def _tick(self, k):
        import pandas as pd

        return pd.Timestamp(T0_NS + int(k) * TICK)

    def series(self, vals, kind="int", name=None):
        import pandas as pd

        if kind == "obj":
            s = pd.Series(vals, dtype=object)
        elif kind in ("ts", "tick"):
            u = TICK if kind == "tick" else 10**9
            s = pd.Series(
                np.array(
                    [NAT if k is None or k != k else T0_NS + int(k) * u for k in vals], dtype="int64"
                ).astype("datetime64[ns]")
            )
        elif kind == "nul":
            s = pd.Series(pd.array([None if v is None else int(v) * BIG for v in vals], dtype="Int64"))
        elif kind == "num":
            s = pd.Series(np.array([int(v) * BIG for v in vals], dtype="int64"))
        elif kind == "half":
            s = pd.Series(np.array(vals, dtype="float64") / 2)
        elif kind == "float":
            s = pd.Series(np.array(vals, dtype="float64"))
        elif kind == "bool":
            s = pd.Series(np.array(vals, dtype=bool))
        else:
            s = pd.Series(np.array(vals, dtype="int64"))
        s.name = name
        return s

    def frame(self, cols):
        import pandas as pd

        return pd.DataFrame({c: self.series(v, k) for c, (v, k) in cols.items()})

    def array(self, vals, kind="int"):
        return self.series(vals, kind).to_numpy()

    def scalar(self, x, kind=None):
        import pandas as pd

        if x is None or x is pd.NA or x is pd.NaT:
            return None
        if isinstance(x, np.datetime64):
            x = pd.Timestamp(x)
        if isinstance(x, pd.Timestamp):
            q, r = divmod(x.value - T0_NS, TICK if kind == "tick" else 10**9)
            return q if r == 0 else str(x)
        if kind in ("num", "nul") and isinstance(x, (int, float, np.integer, np.floating)) and x == x:
            q, r = divmod(int(x), BIG)
            return q if r == 0 else f"{x} is not an expected integer"
        if kind == "half" and isinstance(x, (int, float, np.integer, np.floating)):
            x = x * 2
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, (float, np.floating)):
            if x != x:
                return None
            return int(x) if x == int(x) else float(x)
        if isinstance(x, (int, np.integer)):
            return int(x)
        return x


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if x is None or isinstance(x, (int, float, str)):
        return x
    return str(x)
