"""Symbolic proxies for int and bool."""
from .engine import EngineError
from .engine import ModelGap
from .engine import cur
from .z3load import z3
import numpy as np


def gap(msg):
    e = ModelGap(msg)
    en = cur()
    if en.aborted is None:
        en.aborted = e
    raise e


# Registry used for pickling symbolic values (metadata is pickled by oups).
_REG = {}


def _rebuild(kind, k):
    return _REG[(kind, k)]


def term(v):
    """Z3 integer term of a value, None when it is not an integer."""
    if isinstance(v, SymInt):
        return v.t
    if isinstance(v, bool) or isinstance(v, np.bool_):
        return z3.IntVal(int(v))
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, float) and v == v and v not in (float("inf"), float("-inf")) and v == int(v):
        return z3.IntVal(int(v))
    return None


class _IntMeta(type):
    # `type(x) in {int, str}` has to see a SymInt as an int.
    def __eq__(cls, other):
        return other is int or other is cls

    def __hash__(cls):
        return hash(int)


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __repr__(self):
        return f"SymBool({self.t})"

    def _b(self, o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.And(self.t, b))

    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.t, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.Xor(self.t, b))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return SymBool(self.t == b)

    def __ne__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return SymBool(self.t != b)

    def __hash__(self):
        return 7


class SymInt:
    """An integer whose value is a Z3 term. Comparison gives SymBool."""

    __slots__ = ("t", "sort")
    unit = "ns"

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        # Constant: hash tables then decide by `==`, i.e. by the solver.
        return 7

    def __reduce__(self):
        k = self.t.get_id()
        _REG[("i", k)] = self
        return (_rebuild, ("i", k))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.t}>"

    def __format__(self, spec):
        return repr(self)

    def __bool__(self):
        return cur().branch(self.t != 0)

    # -- concretisation (enumerates the feasible values, one path each) ----
    def __index__(self):
        en = cur()
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        n = 0
        while True:
            if en.pos < len(en.trail):
                node = en.trail[en.pos]
                # re-execution: the value asked for is stored in the condition
                c = node.cond
                v = None
                if z3.is_eq(c):
                    for a in (c.arg(0), c.arg(1)):
                        if z3.is_int_value(a):
                            v = a.as_long()
                if v is None:
                    # Already decided by memo: fall back on model value.
                    v = en.any_model().eval(t, model_completion=True).as_long()
            else:
                v = en.any_model().eval(t, model_completion=True).as_long()
            if en.branch(t == v):
                return v
            n += 1
            if n > 64:
                gap("concretisation of an unbounded value")

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def _bin(self, o, f):
        if isinstance(o, float) and o != o:
            return o
        b = term(o)
        if b is None:
            return NotImplemented
        return SymInt(f(self.t, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def __floordiv__(self, o):
        b = term(o)
        if b is None or not z3.is_int_value(b) or b.as_long() <= 0:
            gap("division by a non constant")
        return SymInt(self.t / b)

    def __mod__(self, o):
        b = term(o)
        if b is None or not z3.is_int_value(b) or b.as_long() <= 0:
            gap("modulo by a non constant")
        return SymInt(self.t % b)

    def __truediv__(self, o):
        gap("true division")

    __rtruediv__ = __truediv__

    def _cmp(self, o, f):
        if isinstance(o, float) and o != o:
            return False
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return bool(f(0, o))
        b = term(o)
        if b is None:
            return NotImplemented
        return SymBool(f(self.t, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if isinstance(o, float) and o != o:
            return True
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def item(self):
        return self

    def normalize(self):
        """Midnight, for an integer standing for a time in seconds."""
        return SymInt(86400 * floor_div(self.t, 86400))


def floor_div(t, f):
    """Quotient by a positive constant: a new variable, defined by linear constraints."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return z3.IntVal(t.as_long() // f)
    q = cur().define(("div", t.get_id(), f), t)
    if q[1]:
        cur().assume(z3.And(f * q[0] <= t, t < f * q[0] + f))
    return q[0]


class SymFieldInt(SymInt, metaclass=_IntMeta):
    """SymInt for code testing `type(x) in {int, ...}` (never given to numpy)."""

    __slots__ = ()


class SymAtom(SymInt):
    """A string among a table of strings (sorted), chosen by the solver."""

    __slots__ = ()
    table = ("", "a", "b", "c", "d")

    def _cmp(self, o, f):
        if isinstance(o, str) and not isinstance(o, SymInt):
            import bisect

            i = bisect.bisect_left(self.table, o)
            if i < len(self.table) and self.table[i] == o:
                return SymBool(f(self.t, z3.IntVal(i)))
            # Between two entries of the table.
            return SymBool(f(2 * self.t, z3.IntVal(2 * i - 1)))
        if isinstance(o, SymAtom):
            return SymBool(f(self.t, o.t))
        return NotImplemented

    def __str__(self):
        gap("string operation on an opaque string")

    __format__ = __str__

    def __len__(self):
        return int(SymInt(z3.If(self.t > 0, z3.IntVal(1), z3.IntVal(0))))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            gap(f"string method {name} on an opaque string")
        raise AttributeError(name)


class LitStr(str):
    """Name of a column which is the string form of a tuple of `SymAtom`."""

    parts = ()


def sym_and(*cs):
    return _bools(z3.And, cs, True)


def sym_or(*cs):
    return _bools(z3.Or, cs, False)


def _tb(c):
    if isinstance(c, SymBool):
        return c.t
    if isinstance(c, z3.BoolRef):
        return c
    if c is True or c is False or isinstance(c, (bool, np.bool_)):
        return z3.BoolVal(bool(c))
    raise EngineError(f"not a boolean: {c!r}")


def _bools(f, cs, empty):
    if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
        cs = cs[0]
    if all(isinstance(c, (bool, np.bool_)) for c in cs):
        return all(cs) if empty else any(cs)
    return SymBool(f([_tb(c) for c in cs]))


def sym_not(c):
    if isinstance(c, (bool, np.bool_)):
        return not c
    return SymBool(z3.Not(_tb(c)))


def sym_ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    return SymInt(z3.If(_tb(c), term(a), term(b)))
