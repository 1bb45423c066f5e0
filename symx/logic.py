"""Boolean / integer logic working alike on symbolic proxies and on plain values."""
from .values import SymBool
from .values import SymInt
from .values import sym_and as all_of
from .values import sym_ite as ite
from .values import sym_not as no
from .values import sym_or as any_of


def is_sym(x):
    return isinstance(x, (SymBool, SymInt))


def eq(a, b):
    """Equality of two observed values, `None` being null."""
    if a is None or b is None:
        return a is None and b is None
    return a == b


def ne(a, b):
    return no(eq(a, b))


def implies(a, b):
    return any_of(no(a), b)


def iff(a, b):
    return any_of(all_of(a, b), all_of(no(a), no(b)))


def count(conds):
    """Number of true conditions."""
    n = 0
    for c in conds:
        n = ite(c, 1, 0) + n
    return n


def seq_eq(xs, ys):
    """Equality of two lists of same concrete length."""
    if len(xs) != len(ys):
        return False
    return all_of([eq(a, b) for a, b in zip(xs, ys)])


def row_eq(r, s):
    return seq_eq(list(r), list(s))


def mult(row, rows):
    """Multiplicity of a row in a list of rows."""
    return count([row_eq(row, r) for r in rows])


def multiset_eq(xs, ys):
    """Multisets of rows are equal."""
    if len(xs) != len(ys):
        return False
    return all_of([mult(r, xs) == mult(r, ys) for r in xs])


def min_of(xs):
    m = xs[0]
    for x in xs[1:]:
        m = ite(x < m, x, m)
    return m


def max_of(xs):
    m = xs[0]
    for x in xs[1:]:
        m = ite(x > m, x, m)
    return m


def agg_spec(fn, sel, vals):
    """
    Declarative aggregation of `vals` restricted to rows where `sel` is true.

    Returns the value as a term (meaningless when no row is selected).
    """
    if fn == "sum":
        s = 0
        for c, v in zip(sel, vals):
            s = ite(c, v, 0) + s
        return s
    if fn == "first":
        r = vals[-1]
        for c, v in reversed(list(zip(sel, vals))):
            r = ite(c, v, r)
        return r
    if fn == "last":
        r = vals[0]
        for c, v in zip(sel, vals):
            r = ite(c, v, r)
        return r
    # min / max: fold over selected rows.
    r, any_ = None, False
    for c, v in zip(sel, vals):
        if r is None:
            r, any_ = v, c
            continue
        better = (v < r) if fn == "min" else (v > r)
        r = ite(all_of(c, any_of(no(any_), better)), v, r)
        any_ = any_of(any_, c)
    return r
