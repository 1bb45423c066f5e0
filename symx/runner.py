"""Workers: symbolic exploration of a case, concrete replay of a solver model."""
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

_ENV = {}


class Hang(BaseException):
    pass


class _Alarm:
    """Bound the time of one execution (a planted change may loop for ever)."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(*a):
            raise Hang()

        signal.signal(signal.SIGALRM, h)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        return False


def _limit_mem(gb):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


def init_sym():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    _ENV["mode"] = "sym"
    _ENV["error"] = None
    try:
        from . import symenv

        symenv.symbolic()
        cov = symenv.Coverage()
        cov.start()
        _ENV["cov"] = cov
    except BaseException:
        _ENV["error"] = traceback.format_exc()


def init_real(jit, scratch):
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    _ENV["mode"] = "real"
    _ENV["scratch"] = scratch
    _ENV["jit"] = jit
    _ENV["error"] = None
    try:
        from . import symenv

        symenv.real(jit=jit, cache=os.path.join(scratch, "numba"), scratch=scratch)
    except BaseException:
        _ENV["error"] = traceback.format_exc()


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/oups/" in f.filename] or tb
    f = fr[-1] if fr else None
    where = f" at {os.path.basename(f.filename)}:{f.lineno}" if f else ""
    return f"{type(e).__name__}: {str(e)[:300]}{where}"


def run_sym(cid, known, deadline, max_violations=2):
    """Explore a case. Returns a picklable report."""
    if _ENV["error"]:
        return {"case": cid, "import_error": _ENV["error"]}
    import harness
    from . import engine as E
    from . import symenv
    from . import values
    from .ctx import SymCtx
    from .ctx import jsonable

    case = harness.by_id(cid)
    eng = E.Engine()
    rep = {
        "case": cid,
        "violations": [],
        "gaps": [],
        "witnesses": [],
        "errors": [],
        "labels": {},
        "covered": {},
        "known_hits": {},
        "model_values": [],
    }
    box = {}
    t0 = time.time()
    ended = {"n": 0}

    def fn():
        symenv.reset_state()
        values._REG.clear()
        ctx = SymCtx(eng, known)
        box["ctx"] = ctx
        with _Alarm(120):
            return case.fn(ctx, **case.params)

    def merge(ctx):
        for k, n in ctx.labels.items():
            rep["labels"][k] = rep["labels"].get(k, 0) + n
        for k, n in ctx.covered.items():
            rep["covered"][k] = rep["covered"].get(k, 0) + n
        for k, v in ctx.known_hits.items():
            rep["known_hits"].setdefault(k, v)

    def on_path(en, out):
        ctx = box["ctx"]
        merge(ctx)
        if isinstance(out, E.Violation):
            rep["violations"].append({"label": out.label, "values": out.values})
        elif isinstance(out, E.OutOfTime):
            return False
        elif isinstance(out, (E.ModelGap, E.EngineError, Exception, Hang)):
            gap = isinstance(out, (E.ModelGap, E.EngineError))
            kind = "gaps" if gap else "errors"
            try:
                en.aborted = None
                vals = ctx.values(en.any_model())
            except BaseException:
                vals = None
            if len(rep[kind]) < 12:
                rep[kind].append({"msg": short_tb(out), "values": vals})
            rep["n_" + kind] = rep.get("n_" + kind, 0) + 1
            if not gap and rep["n_errors"] >= 3:
                return False
        else:
            # Witness of this path: thinned progressively so as to spread over the exploration.
            ended["n"] += 1
            ws = rep["witnesses"]
            step = box.setdefault("step", 1)
            if ended["n"] % step == 0 or not ws:
                m = en.any_model()
                ws.append(
                    {"values": ctx.values(m), "obs": jsonable(ctx.evaluate(out, m)), "n": ended["n"]}
                )
                if len(ws) > 2 * case.replays:
                    rep["witnesses"] = ws[1::2]
                    box["step"] = step * 2
        return len(rep["violations"]) < max_violations

    class _H(Exception):
        pass

    try:
        # A hang is turned into an exception seen by `on_path`.
        def fn2():
            try:
                return fn()
            except Hang:
                raise TimeoutError("execution does not end") from None

        complete = eng.explore(fn2, on_path, deadline=deadline)
    except E.OutOfTime:
        complete = False
    except BaseException:
        rep["crash"] = traceback.format_exc()
        complete = False
    ws = rep["witnesses"]
    if len(ws) > case.replays:
        k = len(ws) / case.replays
        rep["witnesses"] = [ws[int(i * k)] for i in range(case.replays)]
    rep.update(
        complete=complete,
        paths=eng.n_paths,
        infeasible=eng.n_infeasible,
        branches=eng.n_branches,
        forks=eng.n_forks,
        queries=eng.n_queries,
        sat=eng.n_sat,
        unsat=eng.n_unsat,
        solver_s=eng.solver_s,
        checks=eng.n_checks,
        checks_by_solver=eng.n_checks_by_solver,
        wall_s=time.time() - t0,
        funcs=sorted(_ENV["cov"].funcs),
        lines=len(_ENV["cov"].lines),
    )
    return rep


def run_real(cid, values, known, timeout=60):
    """
    Run a case on concrete values, against the genuine code.

    Status: ok / fail (an assertion fails) / error (exception) / discard.
    """
    if _ENV["error"]:
        return {"status": "import_error", "msg": _ENV["error"]}
    import harness
    from .ctx import CheckFailed
    from .ctx import Discard
    from .ctx import RealCtx
    from .ctx import jsonable

    case = harness.by_id(cid)
    ctx = RealCtx(values, known)
    from . import guard

    del guard.REFUSED[:]
    tmp = tempfile.mkdtemp(dir=_ENV["scratch"])
    ctx.scratch = tmp
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        with _Alarm(timeout):
            obs = case.fn(ctx, **case.params)
        return {"status": "ok", "obs": jsonable(obs), "known_hits": ctx.known_hits}
    except CheckFailed as e:
        return {"status": "fail", "msg": e.label}
    except Discard:
        return {"status": "discard", "msg": ""}
    except Hang:
        return {"status": "error", "msg": "execution does not end"}
    except Exception as e:
        return {"status": "error", "msg": short_tb(e), "tb": traceback.format_exc()[-3000:]}
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
