#!/opt/venv/bin/python
"""Write MANIFEST.json from properties.jsonl and the list of properties which have a check."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NOT_APPLICABLE = {}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    sys.path.insert(0, HERE)
    import harness

    done = {c.prop for c in harness.cases(tier="quick")}
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i not in done or i in NOT_APPLICABLE:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
            continue
        checks.append(
            {
                "property": i,
                "quick_cmd": f"{PY} check.py {i} --tier quick",
                "thorough_cmd": f"{PY} check.py {i} --tier thorough",
                "technique": "symbolic execution of the real Python code with Z3 (path exploration, "
                "assertions discharged per path, models replayed on the real code)",
                "level": "model_checking",
                "level_note": "Every feasible path of the real functions within the stated sizes is "
                "explored, each assertion holding for all values of the path (Z3); outside the "
                "sizes nothing is claimed. Trusts Z3, CPython/pandas/numpy on object data, and "
                "the models of time grid, file system, parquet, vaex (validated by replays).",
            }
        )
    m = {
        "version": 1,
        "setup_cmd": f"{PY} tools/selftest.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hook in /repo. See DESIGN.md. Known findings: known_findings.txt.",
    }
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


if __name__ == "__main__":
    sys.exit(main())
