"""
Symbolic strings: concrete length, characters that are Z3 integers (code points).

`SymStr` is deliberately not a `str`, so that a C-level string operation can not
silently work on a wrong content. Modules of oups which handle strings are
loaded with the few operations Python can not overload (f-strings, `"x".join`,
`in`, `str()`, `int()`, `re`) routed to this module (see `Loader`).
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import sys

from .engine import cur
from .values import SymBool
from .values import SymFieldInt
from .values import SymInt
from .values import _REG
from .values import gap
from .z3load import z3

re_parser = re._parser
C = re._constants


class _StrMeta(type):
    # `type(x) in {int, str}` has to see a SymStr as a str.
    def __eq__(cls, other):
        return other is str or other is cls

    def __hash__(cls):
        return hash(str)

    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x)


def is_sym(x):
    return type(x) is SymStr


def lift(x):
    """Any string as a SymStr, None when it is not a string."""
    if type(x) is SymStr:
        return x
    if isinstance(x, str):
        return SymStr(map(ord, x))
    return None


def _ceq(a, b):
    """Equality of two characters, as a Z3 or Python boolean."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b


def _and(cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    return z3.And(cs) if cs else True


def _or(cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    return z3.Or(cs) if cs else False


def _w(c):
    return c if isinstance(c, bool) else SymBool(c)


def _z(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def decide(c):
    return c if isinstance(c, bool) else cur().branch(c)


def _between(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    return z3.And(c >= lo, c <= hi)


def is_digit(c):
    return _between(c, 48, 57)


def is_space(c):
    return _or([_between(c, 9, 13), _between(c, 28, 32)])


def is_upper(c):
    return _or([_between(c, 65, 90), _between(c, 0xC0, 0xD6), _between(c, 0xD8, 0xDE)])


def is_lower(c):
    return _or([_between(c, 97, 122), _between(c, 0xDF, 0xF6), _between(c, 0xF8, 0xFF)])


def is_alpha(c):
    return _or([is_upper(c), is_lower(c)])


class SymStr(metaclass=_StrMeta):
    __slots__ = ("c",)

    def __init__(self, chars):
        self.c = tuple(chars)

    # -- content -------------------------------------------------------------
    def text(self):
        """Plain string when all characters are known, else None."""
        out = []
        for c in self.c:
            if not isinstance(c, int):
                c = z3.simplify(c)
                if not z3.is_int_value(c):
                    return None
                c = c.as_long()
            out.append(chr(c))
        return "".join(out)

    def concrete(self, model):
        return "".join(
            chr(c if isinstance(c, int) else model.eval(c, model_completion=True).as_long())
            for c in self.c
        )

    def __repr__(self):
        return "<" + " ".join(chr(c) if isinstance(c, int) else str(c) for c in self.c) + ">"

    def __str__(self):
        gap("str() on a symbolic string out of the modules loaded for it")

    def __format__(self, spec):
        gap("format of a symbolic string")

    def __fspath__(self):
        gap("symbolic path given to a function of the library")

    def __hash__(self):
        # Constant: hash tables then decide by `==`, i.e. by the solver.
        return 7

    def __reduce__(self):
        k = ("s", tuple(c if isinstance(c, int) else c.get_id() for c in self.c))
        _REG[k] = self
        return (_rebuild, k)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        return iter([SymStr((c,)) for c in self.c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.c[i])
        return SymStr((self.c[i],))

    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymStr(self.c + o.c)

    def __radd__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymStr(o.c + self.c)

    def __mul__(self, n):
        return SymStr(self.c * n)

    __rmul__ = __mul__

    # -- comparisons -----------------------------------------------------------
    def _eq(self, o):
        if len(self.c) != len(o.c):
            return False
        return _and([_ceq(a, b) for a, b in zip(self.c, o.c)])

    def _lt(self, o, strict):
        res = (len(self.c) < len(o.c)) if strict else (len(self.c) <= len(o.c))
        for a, b in reversed(list(zip(self.c, o.c))):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    res = a < b
            else:
                res = z3.Or(_z(a < b), z3.And(_z(a == b), _z(res)))
        return res

    def __eq__(self, o):
        o = lift(o)
        return False if o is None else _w(self._eq(o))

    def __ne__(self, o):
        o = lift(o)
        if o is None:
            return True
        e = self._eq(o)
        return (not e) if isinstance(e, bool) else SymBool(z3.Not(e))

    def __lt__(self, o):
        o = lift(o)
        return NotImplemented if o is None else _w(self._lt(o, True))

    def __le__(self, o):
        o = lift(o)
        return NotImplemented if o is None else _w(self._lt(o, False))

    def __gt__(self, o):
        o = lift(o)
        return NotImplemented if o is None else _w(o._lt(self, True))

    def __ge__(self, o):
        o = lift(o)
        return NotImplemented if o is None else _w(o._lt(self, False))

    # -- search ----------------------------------------------------------------
    def _at(self, sub, i):
        if i < 0 or i + len(sub.c) > len(self.c):
            return False
        return _and([_ceq(a, b) for a, b in zip(self.c[i:], sub.c)])

    def _arg(self, x):
        s = lift(x)
        if s is None:
            raise TypeError(f"must be str, not {type(x).__name__}")
        return s

    def __contains__(self, sub):
        sub = self._arg(sub)
        return decide(_or([self._at(sub, i) for i in range(len(self.c) - len(sub.c) + 1)]))

    def contains(self, sub):
        """As `in`, without deciding."""
        sub = self._arg(sub)
        return _w(_or([self._at(sub, i) for i in range(len(self.c) - len(sub.c) + 1)]))

    def startswith(self, p, start=0, end=None):
        s = self[start:end]
        ps = p if isinstance(p, tuple) else (p,)
        return _w(_or([s._at(s._arg(q), 0) for q in ps]))

    def endswith(self, p, start=0, end=None):
        s = self[start:end]
        ps = p if isinstance(p, tuple) else (p,)
        return _w(_or([s._at(s._arg(q), len(s.c) - len(s._arg(q).c)) for q in ps]))

    def find(self, sub, start=0, end=None):
        sub = self._arg(sub)
        start, end, _ = slice(start, end).indices(len(self.c))
        for i in range(start, end - len(sub.c) + 1):
            if decide(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = self._arg(sub)
        start, end, _ = slice(start, end).indices(len(self.c))
        for i in range(end - len(sub.c), start - 1, -1):
            if decide(self._at(sub, i)):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=0, end=None):
        sub = self._arg(sub)
        n, i = 0, start
        if not sub.c:
            return len(self[start:end]) + 1
        while True:
            i = self.find(sub, i, end)
            if i < 0:
                return n
            n += 1
            i += len(sub.c)

    # -- cuts --------------------------------------------------------------------
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_space(maxsplit)
        sep = self._arg(sep)
        if not sep.c:
            raise ValueError("empty separator")
        out, i = [], 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(self[i:j])
            i = j + len(sep.c)
        return out + [self[i:]]

    def _split_space(self, maxsplit):
        if maxsplit >= 0:
            gap("split on blanks with a maximum")
        out, curr = [], []
        for c in self.c:
            if decide(is_space(c)):
                if curr:
                    out.append(SymStr(curr))
                curr = []
            else:
                curr.append(c)
        if curr:
            out.append(SymStr(curr))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_space(maxsplit)
        sep = self._arg(sep)
        if not sep.c:
            raise ValueError("empty separator")
        out, end = [], len(self.c)
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.rfind(sep, 0, end)
            if j < 0:
                break
            out.append(self[j + len(sep.c) : end])
            end = j
        return [self[:end]] + out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, SymStr(()), SymStr(()))
        n = len(lift(sep).c)
        return (self[:i], self[i : i + n], self[i + n :])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (SymStr(()), SymStr(()), self)
        n = len(lift(sep).c)
        return (self[:i], self[i : i + n], self[i + n :])

    def _in_set(self, c, chars):
        if chars is None:
            return decide(is_space(c))
        return decide(_or([_ceq(c, d) for d in self._arg(chars).c]))

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.c) and self._in_set(self.c[i], chars):
            i += 1
        return self[i:]

    def rstrip(self, chars=None):
        i = len(self.c)
        while i > 0 and self._in_set(self.c[i - 1], chars):
            i -= 1
        return self[:i]

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def removeprefix(self, p):
        p = self._arg(p)
        return self[len(p.c) :] if decide(self._at(p, 0)) else self

    def removesuffix(self, p):
        p = self._arg(p)
        if p.c and decide(self._at(p, len(self.c) - len(p.c))):
            return self[: len(self.c) - len(p.c)]
        return self

    def join(self, items):
        out = []
        for k, x in enumerate(items):
            s = lift(x)
            if s is None:
                raise TypeError(f"sequence item {k}: expected str instance")
            if k:
                out.extend(self.c)
            out.extend(s.c)
        return SymStr(out)

    def replace(self, a, b, n=-1):
        if not self._arg(a).c:
            gap("replacement of an empty string")
        return self._arg(b).join(self.split(a, n))

    # -- classes of characters -----------------------------------------------------
    def _all(self, f):
        return _w(_and([f(c) for c in self.c]) if self.c else False)

    def isdigit(self):
        return self._all(is_digit)

    isdecimal = isnumeric = isdigit

    def isspace(self):
        return self._all(is_space)

    def isalpha(self):
        return self._all(is_alpha)

    def isalnum(self):
        return self._all(lambda c: _or([is_alpha(c), is_digit(c)]))

    def isascii(self):
        return _w(_and([_between(c, 0, 127) for c in self.c]))

    def isprintable(self):
        return _w(_and([_or([_between(c, 32, 126), _between(c, 0xC0, 0xFF)]) for c in self.c]))

    def isidentifier(self):
        if not self.c:
            return False
        first = _or([is_alpha(self.c[0]), _ceq(self.c[0], 95)])
        rest = [_or([is_alpha(c), is_digit(c), _ceq(c, 95)]) for c in self.c[1:]]
        return _w(_and([first, *rest]))

    def _case(self, test, delta):
        out = []
        for c in self.c:
            if isinstance(c, int) and c < 128:
                ch = chr(c)
                out.append(ord(ch.lower() if delta > 0 else ch.upper()))
            elif decide(test(c)):
                if delta < 0 and decide(_or([_ceq(c, 0xDF), _ceq(c, 0xFF)])):
                    gap("upper case of a special letter")
                out.append(c + delta)
            else:
                out.append(c)
        return SymStr(out)

    def lower(self):
        return self._case(is_upper, 32)

    casefold = lower

    def upper(self):
        return self._case(is_lower, -32)

    def zfill(self, n):
        if self.c and decide(_or([_ceq(self.c[0], 43), _ceq(self.c[0], 45)])):
            return SymStr(self.c[:1] + (48,) * (n - len(self.c)) + self.c[1:])
        return SymStr((48,) * (n - len(self.c)) + self.c)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            gap(f"string method {name} on a symbolic string")
        raise AttributeError(name)


def _rebuild(*k):
    return _REG[k]


class SymDec(SymFieldInt):
    """Integer known by its decimal digits."""

    __slots__ = ("digits",)

    def __init__(self, t, digits):
        super().__init__(t)
        self.digits = digits

    def __reduce__(self):
        k = ("d", self.t.get_id(), tuple(c if isinstance(c, int) else c.get_id() for c in self.digits.c))
        _REG[k] = self
        return (_rebuild, k)


def dec(chars, neg):
    """Integer from its decimal digits (canonical, as characters) and its sign."""
    t = z3.IntVal(0)
    for c in chars:
        t = t * 10 + (c - 48)
    t = z3.simplify(-t if neg else t)
    return SymDec(t, SymStr((45, *chars) if neg else chars))


def parse_int(s):
    """Model of `int(str)`, for characters in ASCII and Latin letters."""
    err = ValueError("invalid literal for int() with base 10")
    s = s.strip()
    cs = list(s.c)
    neg = False
    if cs and decide(_ceq(cs[0], 45)):
        neg, cs = True, cs[1:]
    elif cs and decide(_ceq(cs[0], 43)):
        cs = cs[1:]
    digits, last = [], None
    for c in cs:
        if decide(is_digit(c)):
            digits.append(c)
            last = "d"
        elif last == "d" and decide(_ceq(c, 95)):
            last = "_"
        else:
            raise err
    if last != "d":
        raise err
    while len(digits) > 1 and decide(_ceq(digits[0], 48)):
        digits = digits[1:]
    if len(digits) == 1 and decide(_ceq(digits[0], 48)):
        neg = False
        digits = [48]
    return dec(digits, neg)


# -- replacement of what Python does not let overload -------------------------------
def to_str(x="", *a):
    if a:
        return builtins.str(x, *a)
    if type(x) is SymStr:
        return x
    if isinstance(x, SymDec):
        return x.digits
    if isinstance(x, SymInt):
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return builtins.str(t.as_long())
        gap("decimal form of a computed integer")
    cls = type(x)
    if isinstance(x, BaseException) or isinstance(x, builtins.str):
        return builtins.str(x)
    f = cls.__str__
    if f is not object.__str__ and hasattr(f, "__code__"):
        return f(x)
    return builtins.str(x)


def to_int(x=0, *a):
    if a:
        gap("int() with a base") if type(x) is SymStr else None
        return builtins.int(x, *a)
    if type(x) is SymStr:
        t = x.text()
        return parse_int(x) if t is None or not t.isdigit() else parse_int(x)
    if isinstance(x, SymInt):
        return x
    return builtins.int(x)


class _Shadow(type):
    def __call__(cls, *a, **k):
        return cls.conv(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, cls.base) or type(x) in cls.sym

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.base) or c in cls.sym

    def __eq__(cls, o):
        return o is cls or o is cls.base or o in cls.sym

    def __hash__(cls):
        return hash(cls.base)

    def __getattr__(cls, name):
        return getattr(cls.base, name)

    def __repr__(cls):
        return repr(cls.base)


class StrT(metaclass=_Shadow):
    base, sym, conv = str, [SymStr], staticmethod(to_str)


class IntT(metaclass=_Shadow):
    base, sym, conv = int, [SymInt, SymDec, SymFieldInt], staticmethod(to_int)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, builtins.str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114 or conv == 97:
            out.append(builtins.repr(v))
        elif (
            type(v) is SymStr
            or isinstance(v, SymInt)
            or conv == 115
            or (not spec and type(v).__format__ is object.__format__)
        ):
            if spec:
                gap("format of a symbolic value")
            out.append(to_str(v))
        else:
            out.append(builtins.format(v, spec))
    return joined("", out)


def joined(sep, items):
    items = list(items)
    if type(sep) is SymStr or any(type(x) is SymStr for x in items):
        return lift(sep).join(items)
    return sep.join(items)


def meth(obj, name, *a, **k):
    if isinstance(obj, builtins.str):
        if name == "join":
            return joined(obj, *a)
        if name == "format" and any(type(x) in (SymStr, SymDec) for x in (*a, *k.values())):
            gap("format of a symbolic string")
        if any(type(x) is SymStr or (type(x) is tuple and any(map(is_sym, x))) for x in a):
            obj = lift(obj)
    return getattr(obj, name)(*a, **k)


def contains(a, b):
    if type(a) is SymStr:
        if isinstance(b, builtins.str):
            return a in lift(b)
        if isinstance(b, (set, frozenset, dict)) or type(b).__name__ in ("dict_keys",):
            return any(bool(a == x) for x in b)
    return a in b


def _mod(a, b):
    if isinstance(a, builtins.str):
        xs = b if isinstance(b, tuple) else (b,)
        if any(type(x) in (SymStr, SymDec) for x in xs):
            gap("% format of a symbolic string")
    return a % b


class Rewrite(ast.NodeTransformer):
    def _call(self, node, name, *args, keywords=()):
        return ast.copy_location(
            ast.Call(ast.Name(name, ast.Load()), list(args), list(keywords)), node
        )

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                parts.append(
                    ast.Tuple(
                        [self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()
                    )
                )
            else:
                parts.append(v)
        return self._call(node, "__vt_fstr__", *parts)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and hasattr(str, f.attr) and not f.attr.startswith("__"):
            return self._call(
                node, "__vt_meth__", f.value, ast.Constant(f.attr), *node.args, keywords=node.keywords
            )
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._call(node, "__vt_in__", node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.copy_location(ast.UnaryOp(ast.Not(), c), node)
            return c
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call(node, "__vt_mod__", node.left, node.right)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = Rewrite().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)

    def exec_module(self, module):
        d = module.__dict__
        d.update(
            __vt_fstr__=fstr, __vt_meth__=meth, __vt_in__=contains, __vt_mod__=_mod, str=StrT, int=IntT
        )
        super().exec_module(module)
        for k, v in list(d.items()):
            if v is re:
                d[k] = ReShim
            elif isinstance(v, re.Pattern):
                d[k] = Pattern(v)
            elif callable(v) and getattr(v, "__module__", None) == "re" and hasattr(ReShim, k):
                d[k] = getattr(ReShim, k)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo, names):
        self.repo, self.names = repo, set(names)

    def find_spec(self, fullname, path, target=None):
        if fullname not in self.names:
            return None
        f = os.path.join(self.repo, *fullname.split(".")) + ".py"
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f))


def install(repo):
    sys.meta_path.insert(
        0,
        Finder(repo, ["oups.store.indexer", "oups.store.collection", "oups.store.utils", "oups.store.defines"]),
    )
    _install_path()


# -- paths ---------------------------------------------------------------------------
def split_path(path):
    """Components of a path; `.` is dropped, `..` goes up."""
    out = []
    if type(path) is SymStr:
        t = path.text()
        if t is None:
            parts = path.split("/")
        else:
            parts = t.split("/")
    else:
        parts = builtins.str(path).split("/")
    for p in parts:
        if len(p) == 0 or (len(p) == 1 and bool(p == ".")):
            continue
        if len(p) == 2 and bool(p == ".."):
            if out:
                out.pop()
            continue
        out.append(p)
    return out


def join_path(a, b):
    if type(a) is SymStr or type(b) is SymStr:
        return lift(a) + "/" + lift(b)
    return f"{a}/{b}"


def _install_path():
    import posixpath

    def wrap(name, model):
        orig = getattr(posixpath, name)

        def w(*a, **k):
            if any(type(x) is SymStr for x in a):
                a = [x if type(x) is SymStr else os.fspath(x) for x in a]
                return model(*a, **k)
            return orig(*a, **k)

        w.__name__ = name
        setattr(posixpath, name, w)

    def join(a, *p):
        path = lift(a)
        for b in map(lift, p):
            if bool(b.startswith("/")):
                path = b
            elif not path or bool(path.endswith("/")):
                path = path + b
            else:
                path = path + "/" + b
        return path

    def split(p):
        i = p.rfind("/") + 1
        head, tail = p[:i], p[i:]
        h2 = head.rstrip("/")
        return (h2 if len(h2) else head), tail

    def normpath(p):
        if not p:
            return "."
        n = 0
        while n < len(p) and bool(p[n] == "/"):
            n += 1
        root = "/" * (n if n <= 2 else 1)
        comps = []
        for c in p.split("/"):
            if len(c) == 0 or bool(c == "."):
                continue
            if len(c) == 2 and bool(c == ".."):
                if comps and not (len(comps[-1]) == 2 and bool(comps[-1] == "..")):
                    comps.pop()
                    continue
                if root:
                    continue
            comps.append(c)
        out = lift(root) + lift("/").join(comps)
        return out if len(out) else lift(".")

    def isabs(p):
        return bool(p.startswith("/"))

    def abspath(p):
        return normpath(p if isabs(p) else join(os.getcwd(), p))

    wrap("join", join)
    wrap("split", split)
    wrap("dirname", lambda p: split(p)[0])
    wrap("basename", lambda p: split(p)[1])
    wrap("normpath", normpath)
    wrap("isabs", isabs)
    wrap("abspath", abspath)
    wrap("realpath", abspath)


# -- regular expressions ----------------------------------------------------------------
class _M:
    """Backtracking matcher; each test of a character is decided by the solver."""

    def __init__(self, s, flags):
        self.s, self.flags = s, flags
        if flags & (re.IGNORECASE | re.LOCALE | re.VERBOSE) & ~re.UNICODE:
            gap("flag of a regular expression")

    def cat(self, c, cat):
        name = builtins.str(cat)
        t = {
            "DIGIT": lambda: is_digit(c),
            "SPACE": lambda: is_space(c),
            "WORD": lambda: _or([is_alpha(c), is_digit(c), _ceq(c, 95)]),
            "LINEBREAK": lambda: _ceq(c, 10),
        }
        key = name.replace("CATEGORY_", "").replace("UNI_", "")
        neg = key.startswith("NOT_")
        r = t[key.replace("NOT_", "")]()
        return (z3.Not(_z(r)) if not isinstance(r, bool) else not r) if neg else r

    def one(self, item, c):
        op, av = item
        if op is C.LITERAL:
            return _ceq(c, av)
        if op is C.RANGE:
            return _between(c, *av)
        if op is C.CATEGORY:
            return self.cat(c, av)
        gap(f"regular expression set {op}")

    def is_set(self, items, c):
        neg = items and items[0][0] is C.NEGATE
        r = _or([self.one(i, c) for i in items[1 if neg else 0 :]])
        if neg:
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return r

    def word(self, i):
        if not 0 <= i < len(self.s.c):
            return False
        return decide(self.cat(self.s.c[i], "CATEGORY_WORD"))

    def seq(self, items, k, i, g, cont):
        """Match items[k:] at position i; yields nothing: returns result of `cont(i, g)` or None."""
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        n = len(self.s.c)

        def nxt(j, g2):
            return self.seq(items, k + 1, j, g2, cont)

        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= n:
                return None
            c = self.s.c[i]
            if op is C.LITERAL:
                t = _ceq(c, av)
            elif op is C.NOT_LITERAL:
                t = _ceq(c, av)
                t = (not t) if isinstance(t, bool) else z3.Not(t)
            elif op is C.ANY:
                t = _ceq(c, 10)
                t = (not t) if isinstance(t, bool) else z3.Not(t)
                if self.flags & re.DOTALL:
                    t = True
            else:
                t = self.is_set(av, c)
            return nxt(i + 1, g) if decide(t) else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            num, addf, delf, p = av
            if addf or delf:
                gap("flag in a regular expression")

            def close(j, g2):
                if num is not None:
                    g2 = {**g2, num: (i, j)}
                return nxt(j, g2)

            return self.seq(list(p), 0, i, g, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)

            def rep(count, j, g2):
                def more():
                    if hi is not C.MAXREPEAT and count >= hi:
                        return None

                    def again(j2, g3):
                        if j2 == j and count >= lo:
                            return None
                        return rep(count + 1, j2, g3)

                    return self.seq(p, 0, j, g2, again)

                if count < lo:
                    return more()
                if op is C.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(j, g2)
                r = nxt(j, g2)
                return r if r is not None else more()

            return rep(0, i, g)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0 or (
                    av is C.AT_BEGINNING
                    and bool(self.flags & re.MULTILINE)
                    and decide(_ceq(self.s.c[i - 1], 10))
                )
            elif av is C.AT_END_STRING:
                ok = i == n
            elif av is C.AT_END:
                ok = i == n or (
                    (i == n - 1 or bool(self.flags & re.MULTILINE)) and decide(_ceq(self.s.c[i], 10))
                )
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                ok = (self.word(i - 1) != self.word(i)) == (av is C.AT_BOUNDARY)
            else:
                gap(f"regular expression {av}")
            return nxt(i, g) if ok else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            sub = self.s[a:b]
            return nxt(i + len(sub), g) if decide(self.s._at(sub, i)) else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    gap("look-behind")
                r = None if i - lo < 0 else self.seq(list(p), 0, i - lo, g, lambda j, g2: (j, g2))
            else:
                r = self.seq(list(p), 0, i, g, lambda j, g2: (j, g2))
            if op is C.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        gap(f"regular expression {op}")


class Match:
    def __init__(self, pat, s, start, end, groups):
        self.re, self.string, self._s, self._e, self._g = pat, s, start, end, groups

    def _span(self, g):
        if g == 0:
            return self._s, self._e
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return self._g.get(g, (-1, -1))

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def _one(self, g, default=None):
        a, b = self._span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._one(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(k, default) for k in self.re.groupindex}

    def __bool__(self):
        return True


class Pattern:
    def __init__(self, p, flags=0):
        if isinstance(p, Pattern):
            p = p.real
        elif type(p) is SymStr:
            t = p.text()
            if t is None:
                gap("regular expression built from a symbolic string")
            p = t
        self.real = re.compile(p, flags)
        self.pattern, self.flags = self.real.pattern, self.real.flags
        self.groups, self.groupindex = self.real.groups, self.real.groupindex
        self.items = list(re_parser.parse(self.pattern, flags))

    def _at(self, s, i, full=False, not_empty=False):
        m = _M(s, self.flags)

        def end(j, g):
            if full and j != len(s.c):
                return None
            if not_empty and j == i:
                return None
            return (j, g)

        r = m.seq(self.items, 0, i, {}, end)
        return None if r is None else Match(self, s, i, r[0], r[1])

    def match(self, s):
        return self._at(s, 0) if is_sym(s) else self.real.match(s)

    def fullmatch(self, s):
        return self._at(s, 0, full=True) if is_sym(s) else self.real.fullmatch(s)

    def search(self, s):
        if not is_sym(s):
            return self.real.search(s)
        for i in range(len(s.c) + 1):
            m = self._at(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        if not is_sym(s):
            yield from self.real.finditer(s)
            return
        i, must = 0, False
        while i <= len(s.c):
            m = self._at(s, i, not_empty=must)
            if m is None:
                i += 1
                must = False
                continue
            yield m
            # As CPython: no empty match right after an empty one.
            must = m._e == m._s
            i = m._e

    def findall(self, s):
        if not is_sym(s):
            return self.real.findall(s)
        e = SymStr(())
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups(e)[0])
            else:
                out.append(m.groups(e))
        return out

    def split(self, s, maxsplit=0):
        if not is_sym(s):
            return self.real.split(s, maxsplit)
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[i : m._s])
            out.extend(m.groups())
            i = m._e
            n += 1
        return out + [s[i:]]

    def sub(self, repl, s, count=0):
        if not is_sym(s) and not is_sym(repl):
            return self.real.sub(repl, s, count)
        if not is_sym(repl) and isinstance(repl, str) and "\\" in repl:
            gap("substitution with references")
        s = lift(s)
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(s[i : m._s])
            out.append(repl(m) if callable(repl) else repl)
            i = m._e
            n += 1
        return joined("", out + [s[i:]])


class ReShim:
    error = re.error
    Pattern = Pattern
    Match = Match
    I = IGNORECASE = re.I
    M = MULTILINE = re.M
    S = DOTALL = re.S
    A = ASCII = re.A
    U = UNICODE = re.U

    @staticmethod
    def compile(p, flags=0):
        return Pattern(p, flags)

    @staticmethod
    def escape(p):
        if is_sym(p):
            t = p.text()
            if t is None:
                gap("escape of a symbolic string")
            p = t
        return re.escape(p)

    @staticmethod
    def match(p, s, flags=0):
        return Pattern(p, flags).match(s)

    @staticmethod
    def fullmatch(p, s, flags=0):
        return Pattern(p, flags).fullmatch(s)

    @staticmethod
    def search(p, s, flags=0):
        return Pattern(p, flags).search(s)

    @staticmethod
    def findall(p, s, flags=0):
        return Pattern(p, flags).findall(s)

    @staticmethod
    def finditer(p, s, flags=0):
        return Pattern(p, flags).finditer(s)

    @staticmethod
    def split(p, s, maxsplit=0, flags=0):
        return Pattern(p, flags).split(s, maxsplit)

    @staticmethod
    def sub(p, r, s, count=0, flags=0):
        return Pattern(p, flags).sub(r, s, count)
