"""
Path-exploring symbolic execution engine.

The code under test is executed natively by CPython; the values that are inputs
of the property are `SymInt` / `SymBool` / `SymStr` proxies carrying Z3 terms.
Whenever the code needs a Python truth value of a symbolic condition, `branch()`
asks Z3 which outcomes are feasible under the path condition and, when both
are, explores both (depth first, by re-execution).  `check()` discharges an
assertion under the path condition: `unsat` of its negation is the verdict
"holds for every value that follows this path".
"""
import time

from .z3load import z3


class PathAbort(BaseException):
    """Current path is infeasible (an assumption excludes it)."""


class ModelGap(BaseException):
    """The code used an operation the encoding does not model."""


class EngineError(BaseException):
    """Internal error: non determinism, solver unknown..."""


class Violation(BaseException):
    """An assertion has a counterexample on this path."""


class OutOfTime(BaseException):
    pass


class _Node:
    __slots__ = ("cond", "val", "alt", "forced", "pushed", "keep")

    def __init__(self, cond, val, alt, forced, pushed):
        self.cond = cond
        self.val = val
        self.alt = alt  # model of the other branch when it is pending
        self.forced = forced
        self.pushed = pushed


CURRENT = None


def cur():
    if CURRENT is None:
        raise EngineError("no active engine")
    return CURRENT


class Engine:
    def __init__(self, query_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.solver.set("random_seed", 1)
        self.trail = []
        self.pos = 0
        self.memo = {}
        self.model = None
        self.aborted = None
        # statistics
        self.n_queries = 0
        self.n_sat = 0
        self.n_unsat = 0
        self.solver_s = 0.0
        self.n_paths = 0
        self.n_infeasible = 0
        self.n_branches = 0
        self.n_forks = 0
        self.n_checks = 0
        self.n_checks_by_solver = 0
        self.deadline = None
        self._done_checks = {}
        self.defs = {}

    # -- solver -----------------------------------------------------------
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfTime()
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.solver_s += time.perf_counter() - t
        self.n_queries += 1
        if r == z3.sat:
            self.n_sat += 1
            return True
        if r == z3.unsat:
            self.n_unsat += 1
            return False
        self.aborted = EngineError(f"solver answered unknown: {self.solver.reason_unknown()}")
        raise self.aborted

    # -- path control -----------------------------------------------------
    def _push(self, c):
        self.solver.push()
        self.solver.add(c)

    def _mval(self, c):
        if self.model is None:
            if not self._check():
                self.aborted = PathAbort()
                raise self.aborted
            self.model = self.solver.model()
        return z3.is_true(self.model.eval(c, model_completion=True))

    def branch(self, cond):
        """Decide a symbolic condition on this path."""
        if isinstance(cond, bool):
            return cond
        if self.aborted is not None:
            raise self.aborted
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # Use of the positive form of a condition, so that a test and its
        # negation share one decision.
        if z3.is_not(c):
            return not self.branch(c.arg(0))
        k = c.get_id()
        m = self.memo.get(k)
        if m is not None:
            return m[0]
        self.n_branches += 1
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if not node.cond.eq(c):
                self.aborted = EngineError(f"non deterministic execution: {node.cond} vs {c}")
                raise self.aborted
            self.pos += 1
            self.memo[k] = (node.val, c)
            return node.val
        first = self._mval(c)
        other = z3.Not(c) if first else c
        if self._check(other):
            alt = self.solver.model()
            node = _Node(c, first, alt, False, True)
            self._push(c if first else z3.Not(c))
            self.n_forks += 1
        else:
            node = _Node(c, first, None, True, False)
        self.trail.append(node)
        self.pos += 1
        self.memo[k] = (first, c)
        return first

    def assume(self, cond):
        """Constrain the inputs (a precondition)."""
        if isinstance(cond, bool):
            if not cond:
                self.aborted = PathAbort()
                raise self.aborted
            return
        if self.aborted is not None:
            raise self.aborted
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.aborted = PathAbort()
            raise self.aborted
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if not node.cond.eq(c):
                self.aborted = EngineError(f"non deterministic assume: {node.cond} vs {c}")
                raise self.aborted
            self.pos += 1
            return
        ok_already = self.model is not None and self._mval(c)
        self._push(c)
        self.trail.append(_Node(c, True, None, True, True))
        self.pos += 1
        if not ok_already:
            if not self._check():
                self.aborted = PathAbort()
                raise self.aborted
            self.model = self.solver.model()

    def define(self, key, term):
        """Integer variable standing for a function of a term (`True` when new on this path)."""
        hit = self.defs.get(key)
        if hit is not None:
            return hit[0], False
        v = z3.Int(f"!d{len(self.defs)}")
        self.defs[key] = (v, term)
        return v, True

    def holds(self, cond):
        """Is `cond` implied by the path condition? (model of the negation otherwise)"""
        if isinstance(cond, bool):
            return (cond, None if cond else self.any_model())
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True, None
        if z3.is_false(c):
            return False, self.any_model()
        key = (self.pos, c.get_id())
        hit = self._done_checks.get(key)
        if hit is not None and hit[0].eq(c):
            return True, None
        self.n_checks_by_solver += 1
        if self._check(z3.Not(c)):
            return False, self.solver.model()
        self._done_checks[key] = (c,)
        return True, None

    def any_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()
        return self.model

    def _backtrack(self):
        """Move to the next unexplored branch. False when exploration is over."""
        self._done_checks.clear()
        while self.trail:
            node = self.trail.pop()
            if node.pushed:
                self.solver.pop()
            if node.alt is not None:
                c = z3.Not(node.cond) if node.val else node.cond
                self._push(c)
                self.trail.append(_Node(node.cond, not node.val, None, False, True))
                self.model = node.alt
                return True
        return False

    def explore(self, fn, on_path, deadline=None, max_paths=None):
        """
        Run `fn` on every feasible path.

        `on_path(engine, outcome)` is called at the end of each path, `outcome`
        being the value returned by `fn`, or the exception raised.
        """
        global CURRENT
        self.deadline = deadline
        complete = True
        while True:
            self.pos = 0
            self.memo = {}
            self.aborted = None
            self.defs = {}
            CURRENT = self
            out = None
            try:
                try:
                    out = fn()
                finally:
                    CURRENT_aborted = self.aborted
                if CURRENT_aborted is not None:
                    # An abort has been swallowed by the code under test.
                    raise CURRENT_aborted
            except PathAbort:
                self.n_infeasible += 1
                out = PathAbort
            except (EngineError, ModelGap, OutOfTime, Violation) as e:
                out = e
            except Exception as e:  # harness or model error: reported by caller
                if self.aborted is not None:
                    if isinstance(self.aborted, PathAbort):
                        self.n_infeasible += 1
                        out = PathAbort
                    else:
                        out = self.aborted
                else:
                    out = e
            if out is not PathAbort:
                self.n_paths += 1
                if not on_path(self, out):
                    complete = False
                    break
            if isinstance(out, OutOfTime):
                complete = False
                break
            if not self._backtrack():
                break
            if deadline is not None and time.time() > deadline:
                complete = False
                break
            if max_paths is not None and self.n_paths >= max_paths:
                complete = False
                break
        CURRENT = None
        return complete
