#!/opt/venv/bin/python
"""Set-up: check that solver, engine and code under test can be loaded (nothing to build)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from symx import engine as E  # noqa: E402
from symx.ctx import SymCtx  # noqa: E402
from symx.z3load import z3  # noqa: E402

eng = E.Engine()
seen = []


def prog():
    ctx = SymCtx(eng)
    a = ctx.int("a", 0, 10)
    ctx.assume(a != 5)
    if a > 7:
        seen.append("hi")
        ctx.check("hi", a >= 8)
    else:
        seen.append("lo")
        # Wrong on purpose: the engine has to find it.
        ctx.check("lo", a < 7)


outs = []
eng.explore(prog, lambda e, o: outs.append(o) or True)
assert sorted(seen) == ["hi", "lo"], seen
bad = [o for o in outs if isinstance(o, E.Violation)]
assert len(bad) == 1 and bad[0].values == {"a": 7}, bad
print("selftest ok, z3", z3.get_version_string())
