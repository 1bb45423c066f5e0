"""
Set up of the two execution environments of the code under test.

`symbolic()`: real oups code, interpreted (numba JIT off), over symbolic data;
time-grid helpers of pandas, joblib's scheduler, the file system and the
parquet / vaex libraries are replaced by models *for symbolic arguments only*.
`real()`: nothing replaced (numba JIT on or off).
"""
import os
import sys


REPO = os.environ.get("VT_REPO", "/repo")


def _path():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def real(jit=True, cache=None, scratch=None):
    os.environ["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    if cache:
        os.environ["NUMBA_CACHE_DIR"] = cache
    os.environ.setdefault("NUMBA_NUM_THREADS", "1")
    if not jit:
        _install_fmod()
    if scratch:
        from . import guard

        guard.install(scratch)
    _path()
    _quiet()


def _install_fmod():
    """
    Whole remainders as integers, in interpreted mode.

    Compiled kernels accept a float as the bound of a slice, interpreted ones do not.
    """
    import math

    orig = math.fmod

    def fmod(x, y):
        r = orig(x, y)
        return int(r) if isinstance(x, int) and isinstance(y, int) else r

    math.fmod = fmod


def _quiet():
    import warnings

    warnings.simplefilter("ignore")


def symbolic():
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    _path()
    _quiet()
    _install_fmod()
    _install_time_grid()
    _install_joblib()
    _install_literal_eval()
    from . import fakepq
    from . import fakevx
    from . import symfs
    from . import symstr

    symstr.install(REPO)
    fakepq.install()
    fakevx.install()
    symfs.install()
    import oups  # noqa: F401

    _extend_null_tables()
    snapshot_state()


def _sym(x):
    from .values import SymInt

    return isinstance(x, SymInt)


def _install_time_grid():
    """Exact model of pandas' time grid over an integer time line (unit: 1 s)."""
    import pandas as pd
    import pandas.core.resample as res

    from .values import SymInt
    from .values import floor_div
    from .values import gap
    from .z3load import z3

    real_gtre = res._get_timestamp_range_edges
    real_date_range = pd.date_range

    def secs(freq):
        ns = pd.Timedelta(pd.tseries.frequencies.to_offset(freq)).value
        if ns % 10**9:
            gap("frequency which is not a whole number of seconds")
        return ns // 10**9

    def mk(x):
        if _sym(x):
            return x
        if isinstance(x, pd.Timestamp):
            from .ctx import T0_NS

            return SymInt(z3.IntVal((x.value - T0_NS) // 10**9))
        return SymInt(z3.IntVal(int(x)))

    def gtre(first, last, freq, unit=None, closed="left", origin="start_day", offset=None):
        if not (_sym(first) or _sym(last)):
            return real_gtre(first, last, freq, unit, closed, origin, offset)
        f = secs(freq)
        first, last = mk(first), mk(last)
        # As `pandas.core.resample._adjust_dates_anchored`.
        if isinstance(origin, str):
            if origin == "start_day":
                # A midnight is on the grid if the frequency divides a day.
                org = first.normalize() if 86400 % f else SymInt(z3.IntVal(0))
            elif origin == "start":
                org = first
            elif origin == "epoch":
                org = mk(pd.Timestamp("1970-01-01"))
            else:
                gap("origin of time grouper")
        else:
            org = mk(origin)
        if offset is not None:
            org = org + pd.Timedelta(offset).value // 10**9
        if closed == "right":
            # f*q < first - org <= f*(q+1)
            start = org + SymInt(f * floor_div((first - org - 1).t, f))
            end = org + SymInt(f * floor_div((last - org - 1).t, f) + f)
        else:
            start = org + SymInt(f * floor_div((first - org).t, f))
            end = org + SymInt(f * floor_div((last - org).t, f) + f)
        return start, end

    def date_range(start=None, end=None, periods=None, freq=None, *a, **k):
        if not (_sym(start) or _sym(end)):
            return real_date_range(start, end, periods, freq, *a, **k)
        if periods is not None or freq is None:
            gap("date_range with other parameters")
        f = secs(freq)
        out = []
        cur = start
        n = 0
        while cur <= end:
            out.append(cur)
            cur = cur + f
            n += 1
            if n > 200:
                gap("unbounded date_range")
        return pd.Index(out, dtype=object)

    res._get_timestamp_range_edges = gtre
    pd.date_range = date_range


SCHEDULE = {"run": None}


def _install_literal_eval():
    """Names of columns standing for tuples of symbolic strings."""
    import ast

    from .values import LitStr

    orig = ast.literal_eval
    ast.literal_eval = lambda s: s.parts if isinstance(s, LitStr) else orig(s)


def _install_joblib():
    """Sequential model of `joblib.Parallel`; the schedule can be decided by the harness."""
    import joblib

    class Parallel:
        def __init__(self, n_jobs=None, *a, **k):
            self.n_jobs = n_jobs

        def __call__(self, iterable):
            if SCHEDULE["run"] is not None:
                return SCHEDULE["run"](iterable)
            return [f(*a, **k) for f, a, k in iterable]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    joblib.Parallel = Parallel


def _extend_null_tables():
    """Tables of null values per dtype get an entry for object columns."""
    import numpy as np
    import pandas as pd

    for name, mod in list(sys.modules.items()):
        if not name.startswith("oups"):
            continue
        for v in list(vars(mod).values()):
            if (
                isinstance(v, dict)
                and np.dtype("float64") in v
                and np.dtype("O") not in v
                and isinstance(v[np.dtype("float64")], float)
            ):
                v[np.dtype("O")] = pd.NA


_STATE = {}


def snapshot_state():
    """Content of the mutable module-level containers of oups, to reset them between paths."""
    for name, mod in list(sys.modules.items()):
        if not name.startswith("oups"):
            continue
        for k, v in list(vars(mod).items()):
            if not k.startswith("__") and isinstance(v, (dict, list, set)):
                _STATE[id(v)] = (v, v.copy())


def reset_state():
    for v, saved in _STATE.values():
        if len(v) != len(saved) or (v != saved if not isinstance(v, dict) else v.keys() != saved.keys()):
            v.clear()
            v.extend(saved) if isinstance(v, list) else v.update(saved)
    from .symfs import fs

    fs.reset()
    SCHEDULE["run"] = None


class Coverage:
    """Functions and lines of oups executed symbolically."""

    def __init__(self):
        self.funcs = set()
        self.lines = set()
        self.branches = 0

    def start(self):
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        mon.use_tool_id(self.tool, "vt")
        root = os.path.join(REPO, "oups") + os.sep

        def on_start(code, off):
            if code.co_filename.startswith(root):
                self.funcs.add(
                    f"{os.path.relpath(code.co_filename, REPO)}:{code.co_qualname}"
                )
                mon.set_local_events(self.tool, code, mon.events.LINE)
            return mon.DISABLE

        def on_line(code, line):
            self.lines.add((os.path.relpath(code.co_filename, REPO), line))
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.PY_START, on_start)
        mon.register_callback(self.tool, mon.events.LINE, on_line)
        mon.set_events(self.tool, mon.events.PY_START)
