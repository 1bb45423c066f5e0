"""
Schedules of the tasks given to `joblib.Parallel`, decided by the solver.

Tasks run one at a time. With `budget` at 0, a task runs until its end, and the
order of tasks is a choice. Otherwise each task has its own thread, and a task
can be suspended before any line of oups Python code, `budget` times overall.
Compiled kernels (and their interpreted form) are not cut: they share no state.
"""
import ast
import dis
import os
import sys
import threading
from functools import cache
from glob import glob
from itertools import permutations


MUTATORS = {"update", "clear", "pop", "popitem", "setdefault", "append", "extend", "add", "remove",
            "discard", "insert", "__setitem__", "__delitem__"}


@cache
def shared_names(root):
    """Global variables of the code which it modifies, and the keys held by a store."""
    out = {"_keys"}
    for path in glob(os.path.join(root, "**", "*.py"), recursive=True):
        with open(path) as f:
            tree = ast.parse(f.read())
        top = {t.id for n in tree.body if isinstance(n, ast.Assign) for t in n.targets
               if isinstance(t, ast.Name)}
        top |= {n.target.id for n in tree.body if isinstance(n, ast.AnnAssign)
                and isinstance(n.target, ast.Name)}
        top |= {a.asname or a.name for n in tree.body if isinstance(n, ast.ImportFrom) for a in n.names}
        for n in ast.walk(tree):
            if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                v = n.value
            elif isinstance(n, ast.Attribute) and (n.attr in MUTATORS or not isinstance(n.ctx, ast.Load)):
                v = n.value
            elif isinstance(n, ast.Global):
                out |= set(n.names)
                continue
            elif isinstance(n, ast.AugAssign):
                v = n.target
            else:
                continue
            if isinstance(v, ast.Name) and v.id in top:
                out.add(v.id)
    return out


class _Kill(BaseException):
    pass


class Scheduler:
    def __init__(self, ctx, root, budget=0, delays=0, reverse=None, shared=None, stall=30):
        """With `shared=(i, n)`, tasks are only suspended where state they share is handled, and
        it is the i-th part out of n of all the schedules."""
        self.ctx = ctx
        self.shared = shared
        self.names = shared_names(os.path.join(root, "oups")) if shared else None
        self.first = {}
        self.root = os.path.join(root, "oups") + os.sep
        self.budget = budget
        self.delays = delays
        self.reverse = reverse
        self.late = 0
        self.perm = {}
        self.stall = stall
        self.n_events = 0
        self.switches = []

    def _next(self, left):
        """
        Task to be started, or resumed.

        An order is chosen for a given number of tasks, and kept, but `delays` times,
        when any other task can be taken.
        """
        if len(left) == 1:
            return left[0]
        n = self.n_tasks
        if n not in self.perm:
            if self.reverse is None:
                self.perm[n] = self.ctx.choice(f"!order{n}", list(permutations(range(n))))
            else:
                self.perm[n] = range(n)[::-1] if self.reverse else range(n)
        left = [i for i in self.perm[n] if i in left]
        if self.late < self.delays:
            self.n_next += 1
            v = self.ctx.choice(f"!late{self.late}_{self.n_next}", left)
            self.late += v != left[0]
            return v
        return left[0]

    n_tasks = n_next = 0

    def run(self, tasks):
        tasks = list(tasks)
        self.n_tasks = len(tasks)
        if len(tasks) > 1 and self.budget > len(self.switches):
            return self._threads(tasks)
        res, left = [None] * len(tasks), list(range(len(tasks)))
        while left:
            i = self._next(left)
            left.remove(i)
            f, a, k = tasks[i]
            try:
                res[i] = f(*a, **k)
            except Exception:
                if left:
                    # Some of the other tasks are already under way, and end as well.
                    for j in left[: self.ctx.choice("!more", range(len(left) + 1))]:
                        f, a, k = tasks[j]
                        f(*a, **k)
                raise
        return res

    # -- cut tasks --------------------------------------------------------
    def _preempt(self):
        """Is the running task suspended here?"""
        b = len(self.switches)
        if b >= self.budget:
            return False
        self.n_events += 1
        v = self.vars.get(b)
        if v is None:
            v = self.vars[b] = self.ctx.int(f"!cut{b}", 0)
            self.ctx.assume(v >= self.n_events)
            if b == 0 and self.shared:
                self.ctx.assume(v % self.shared[1] == self.shared[0])
        if bool(v == self.n_events):
            self.switches.append(self.n_events)
            return True
        return False

    vars = None

    def _first_line(self, code):
        if code not in self.first:
            lines = [i.positions.lineno for i in dis.get_instructions(code)
                     if i.argval in self.names and i.opname.startswith(("LOAD_", "STORE_", "DELETE_"))]
            self.first[code] = min(lines, default=None)
        return self.first[code]

    def _threads(self, tasks):
        n = len(tasks)
        self.vars = self.vars or {}
        sems = [threading.Semaphore(0) for _ in tasks]
        main = threading.Semaphore(0)
        res, errs = [None] * n, [None] * n
        left = list(range(n))
        state = {"kill": False, "event": None}

        def wait(i):
            sems[i].acquire()
            if state["kill"]:
                raise _Kill()

        def tracer(i):
            def local(frame, event, arg):
                if event == "line" and len(left) > 1 and self._preempt():
                    state["event"] = ("cut", i)
                    main.release()
                    wait(i)
                return local

            def outer(frame, event, arg):
                name = frame.f_code.co_filename
                if not name.startswith(self.root) or "jcumsegagg" in name:
                    return None
                if self.shared:
                    # No cut before the first line where shared state is handled.
                    start = self._first_line(frame.f_code)
                    if start is None:
                        return None

                    def from_start(frame, event, arg):
                        if frame.f_lineno >= start:
                            local(frame, event, arg)
                        return from_start

                    return from_start
                return local

            return outer

        def body(i):
            try:
                wait(i)
                f, a, k = tasks[i]
                sys.settrace(tracer(i))
                try:
                    res[i] = f(*a, **k)
                finally:
                    sys.settrace(None)
            except BaseException as e:
                errs[i] = e
            state["event"] = ("end", i)
            main.release()

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        try:
            i = self._next(left)
            while left:
                sems[i].release()
                if not main.acquire(timeout=self.stall):
                    self._stalled()
                what, who = state["event"]
                if what == "cut":
                    i = self._next([j for j in left if j != who])
                    continue
                left.remove(who)
                if errs[who] is not None:
                    raise errs[who]
                if left:
                    i = self._next(left)
        finally:
            state["kill"] = True
            for j in list(left):
                sems[j].release()
            for t in threads:
                t.join(timeout=5)
        return res

    def _stalled(self):
        if self.ctx.sym:
            from .values import gap

            gap("a task waits for another one")
        raise TimeoutError("tasks block each other")
