#!/opt/venv/bin/python
"""
Decide one property: `check.py <PROPERTY> [--tier quick|thorough]`.

Exit 0: holds on everything explored. Exit 1 + VIOLATION line: broken.
"""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMBA_NUM_THREADS", "VAEX_NUM_THREADS"):
    os.environ.setdefault(k, "1")

BUDGET = {"quick": 420, "thorough": 3000}


def known_findings(prop):
    """Listed findings (id -> description) of a property; `fixed:` lines suppress nothing."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                kid, _, desc = line[len(f"finding: property={prop} ") :].partition(" ")
                out[kid[len("id=") :]] = desc
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None, help="substring of case names")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VT_JOBS", "8")))
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VT_BUDGET", BUDGET[tier]))
    deadline = t0 + budget
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    repdir = os.path.join(evdir, "replays")
    scratch = tempfile.mkdtemp(prefix=f"vt_{prop}_")
    os.makedirs(os.path.join(scratch, "numba"))

    import harness
    from symx import runner

    cases = [c for c in harness.cases(prop, tier) if not a.case or a.case in c.name]
    if not cases:
        print(f"no case for property {prop}")
        return 2
    cases.sort(key=lambda c: -c.weight)
    known = known_findings(prop)
    spawn = mp.get_context("spawn")
    n_sym = max(1, min(len(cases), a.jobs))
    sym = cf.ProcessPoolExecutor(n_sym, mp_context=spawn, initializer=runner.init_sym)
    real = {}

    def real_pool(jit):
        if jit not in real:
            real[jit] = cf.ProcessPoolExecutor(
                2 if jit else 3,
                mp_context=spawn,
                initializer=runner.init_real,
                initargs=(jit, scratch),
            )
        return real[jit]

    violations, gaps, notes = [], [], []
    reports = []
    stats = {"validated": 0, "diverged": 0, "replays": 0}
    samples = []
    import_error = None
    pend = {sym.submit(runner.run_sym, c.id, tuple(known), deadline - 30): ("sym", c) for c in cases}

    def submit_real(c, values, kind, info, jit):
        f = real_pool(jit).submit(runner.run_real, c.id, values, tuple(known))
        pend[f] = ("real", c, kind, info, values, jit)

    stop = False
    confirmed = 0
    try:
        while pend and not stop:
            done, _ = cf.wait(
                list(pend),
                timeout=max(1, t0 + budget + 240 - time.time()),
                return_when=cf.FIRST_COMPLETED,
            )
            if not done:
                notes.append("replays did not end in time")
                break
            for f in done:
                job = pend.pop(f)
                try:
                    r = f.result()
                except Exception as e:
                    notes.append(f"worker lost on {job[1].id}: {type(e).__name__}")
                    gaps.append({"case": job[1].id, "msg": f"worker lost: {e}"})
                    continue
                if job[0] == "sym":
                    c = job[1]
                    if r.get("import_error"):
                        import_error = r["import_error"]
                        stop = True
                        break
                    reports.append(r)
                    if a.verbose:
                        print(
                            f"  [{time.time() - t0:6.1f}s] {c.id}: paths={r['paths']} "
                            f"forks={r['forks']} queries={r['queries']} solver={r['solver_s']:.1f}s "
                            f"wall={r['wall_s']:.1f}s checks={r['checks']}"
                            f"({r['checks_by_solver']}) viol={len(r['violations'])} "
                            f"gaps={r.get('n_gaps', 0)} err={r.get('n_errors', 0)} "
                            f"complete={r['complete']}",
                            flush=True,
                        )
                        if r.get("crash"):
                            print(r["crash"])
                        for e in (r["errors"] + r["gaps"])[:2]:
                            print("     ", e["msg"], e["values"])
                        for e in r["violations"][:2]:
                            print("     ", e["label"], e["values"])
                    if r.get("crash"):
                        gaps.append({"case": c.id, "msg": r["crash"][-400:]})
                    for v in r["violations"]:
                        submit_real(c, v["values"], "violation", v["label"], c.jit)
                    for e in r["errors"]:
                        if e["values"] is not None:
                            submit_real(c, e["values"], "error", e["msg"], c.jit)
                        else:
                            gaps.append({"case": c.id, "msg": e["msg"]})
                    for e in r["gaps"]:
                        gaps.append({"case": c.id, "msg": e["msg"]})
                        if e["values"] is not None:
                            submit_real(c, e["values"], "gap", e["msg"], False)
                    for i, w in enumerate(r["witnesses"]):
                        # One replay with compiled code per case which asks for it, plus others.
                        submit_real(c, w["values"], "witness", w["obs"], c.jit and i % 3 == 0)
                    for kid, vals in r["known_hits"].items():
                        submit_real(c, vals, "known", kid, False)
                else:
                    _, c, kind, info, values, jit = job
                    stats["replays"] += 1
                    st = r["status"]
                    bad = st in ("fail", "error")
                    if st == "import_error":
                        import_error = r["msg"]
                        stop = True
                        break
                    if bad:
                        confirmed += 1
                        os.makedirs(repdir, exist_ok=True)
                        path = os.path.join(repdir, f"{prop}-{confirmed}.json")
                        with open(path, "w") as fh:
                            json.dump(
                                {
                                    "property": prop,
                                    "case": c.id,
                                    "values": values,
                                    "jit": jit,
                                    "found_by": kind,
                                    "label": r["msg"],
                                    "traceback": r.get("tb"),
                                },
                                fh,
                                indent=1,
                            )
                        violations.append((c.id, r["msg"], path, values))
                        if a.verbose:
                            print("  ", kind, c.id, r["msg"], values)
                        if confirmed >= 3:
                            stop = True
                            break
                    elif kind in ("violation", "error"):
                        if not jit and c.jit is False and st == "ok":
                            pass
                        gaps.append(
                            {
                                "case": c.id,
                                "msg": f"counterexample ({info}) does not reproduce ({st}): {values}",
                            }
                        )
                    elif kind == "witness":
                        if st == "ok":
                            if r["obs"] == info:
                                stats["validated"] += 1
                                if len(samples) < 8:
                                    samples.append(
                                        {"case": c.id, "inputs": values, "observed": info}
                                    )
                            else:
                                stats["diverged"] += 1
                                gaps.append(
                                    {
                                        "case": c.id,
                                        "msg": f"model and code differ: {values}: "
                                        f"model {info} code {r['obs']}",
                                    }
                                )
                        else:
                            gaps.append(
                                {"case": c.id, "msg": f"replay of a path is {st}: {values}"}
                            )
    finally:
        for p in [sym, *real.values()]:
            procs = list((getattr(p, "_processes", None) or {}).values())
            p.shutdown(wait=False, cancel_futures=True)
            for q in procs:
                q.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    funcs = sorted({f for r in reports for f in r["funcs"]})
    labels, covered = {}, {}
    for r in reports:
        for k, n in r["labels"].items():
            labels[k] = labels.get(k, 0) + n
        for k, n in r["covered"].items():
            covered[k] = covered.get(k, 0) + n
    tot = lambda k: sum(r[k] for r in reports)  # noqa: E731
    incomplete = [r["case"] for r in reports if not r["complete"] and not r["violations"]]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("branches"),
            "traces_validated_against_impl": stats["validated"],
            "samples": samples,
            "exhaustive": not gaps and not incomplete and len(reports) == len(cases),
            "explanation": "states: feasible execution paths of the real code, each standing for "
            "all the inputs which follow it; transitions: decisions on symbolic conditions; "
            "assertions are discharged by Z3 under the path condition. Exhaustive within the "
            "bounds of each case.",
            "cases": [
                {
                    "case": c.id,
                    "bounds": {k: str(v) for k, v in c.params.items()},
                    "paths": r["paths"],
                    "forks": r["forks"],
                    "queries": r["queries"],
                    "complete": r["complete"],
                    "wall_s": round(r["wall_s"], 2),
                }
                for r in reports
                for c in [harness.by_id(r["case"])]
            ],
            "forks": tot("forks"),
            "infeasible_paths": tot("infeasible"),
            "queries": tot("queries"),
            "queries_sat": tot("sat"),
            "queries_unsat": tot("unsat"),
            "solver_s": round(tot("solver_s"), 2),
            "assertions_checked": tot("checks"),
            "assertions_needing_solver": tot("checks_by_solver"),
            "assertions_by_label": labels,
            "reached": covered,
            "functions_encoded": funcs,
            "lines_encoded": max([r["lines"] for r in reports], default=0),
            "concrete_replays": stats["replays"],
            "model_divergences": stats["diverged"],
            "gaps": gaps[:20],
            "incomplete_cases": incomplete,
            "notes": notes,
        },
        "assumptions": getattr(harness, "ASSUMPTIONS", {}).get(prop, [])
        + getattr(harness, "ASSUMPTIONS", {}).get("*", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if violations:
        ev["coverage"]["violations_found"] = [
            {"case": v[0], "what": v[1], "values": v[3]} for v in violations
        ]
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for kid, desc in known.items():
        print(f"KNOWN-FINDING: property={prop} {kid}: {desc}")
    for cid, msg, path, _ in violations:
        print(f"# {cid}: {msg}".replace("\n", " "))
    if violations:
        print(f"VIOLATION property={prop} replay={violations[0][2]}")
        return 1
    if import_error:
        print(import_error)
        print(f"ERROR property={prop}: the code under test cannot be loaded")
        return 2
    for g in gaps[:10]:
        print(f"INCONCLUSIVE {g['case']}: {g['msg'][:1500]}".replace("\n", " "))
    for c in incomplete:
        print(f"INCOMPLETE {c}")
    for n in notes:
        print(f"NOTE {n}")
    decided = sum(1 for r in reports if r["checks"] > 0)
    if decided == 0:
        print(f"ERROR property={prop}: nothing could be decided")
        return 2
    print(
        f"OK property={prop} tier={tier} cases={len(reports)} paths={tot('paths')} "
        f"queries={tot('queries')} solver={tot('solver_s'):.1f}s assertions={tot('checks')} "
        f"validated={stats['validated']} gaps={len(gaps)} wall={time.time() - t0:.1f}s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
