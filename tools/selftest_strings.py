"""Model of strings, regular expressions and paths against the genuine ones, on known strings."""
import posixpath
import random
import re

from symx import symstr as S


def t(x):
    if S.is_sym(x):
        return x.text()
    if isinstance(x, (tuple, list)):
        return type(x)(t(y) for y in x)
    return x


PATTERNS = [
    r"/|\-", "a|b", r"[ab]*", r"(a)|b", r"x*", r"a+?b", r"^a|b$", r"\ba", r"(a|b)+c", r"[^a]",
    r"(?=a)b|a", r"(?<=a)b", r"(?:ab)?", r"\d+", r"-?\d{1,2}$", "", r"(-|/)", r"^", r"$", r"[\-/]",
    r"(a)(b)?", r"\s|_",
]
METHODS = (
    "split:/ rsplit:/ split:ab rsplit:- partition:a rpartition:b strip: lstrip:a rstrip:/ find:a "
    "rfind:ab count:a index:a removeprefix:a removesuffix:b isdigit isalpha isalnum isspace lower "
    "upper isidentifier startswith:a endswith:b"
).split()


def main():
    rnd = random.Random(1)

    def text(chars, n):
        return "".join(rnd.choice(chars) for _ in range(rnd.randint(0, n)))

    for p in PATTERNS:
        for _ in range(100):
            s = text("ab-/c1 _\n", 6)
            P, R, L = S.Pattern(p), re.compile(p), S.lift(s)
            assert t(P.split(L)) == R.split(s), (p, s)
            assert t(P.findall(L)) == R.findall(s), (p, s)
            for f in ("match", "search", "fullmatch"):
                a, b = getattr(P, f)(L), getattr(R, f)(s)
                assert (a is None) == (b is None), (p, s, f)
                assert a is None or (a.span(), t(a.groups())) == (b.span(), b.groups()), (p, s, f)
    for m in METHODS:
        n, c, a = m.partition(":")
        args = (a,) if a else ()

        def run(o):
            try:
                return t(getattr(o, n)(*args))
            except ValueError:
                return "ValueError"

        for _ in range(100):
            s = text("ab-/c1 _\nA", 6)
            assert run(S.lift(s)) == run(s), (m, s)
    for _ in range(5000):
        s = text("01 _+-\n9a", 5)
        try:
            a = int(s)
        except ValueError:
            a = None
        try:
            b = S.parse_int(S.lift(s))
            assert (b.digits.text(), b.t.as_long()) == (str(a), a), s
        except ValueError:
            assert a is None, s
    oj, os_, on = posixpath.join, posixpath.split, posixpath.normpath
    S._install_path()
    for _ in range(2000):
        s, u = text("a./b", 7), text("a./b", 4)
        assert t(posixpath.join(S.lift(s), u)) == oj(s, u)
        assert t(posixpath.split(S.lift(s))) == os_(s)
        assert t(posixpath.normpath(S.lift(s))) == on(s)
