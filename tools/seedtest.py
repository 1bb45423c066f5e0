#!/opt/venv/bin/python
"""
Confirm planted bugs, and tell what checks say of them: `seedtest.py [--no-tests] ID...`.

Works in a copy of /repo under /tmp, removed at the end.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def stable(copy, work):
    xml = os.path.join(work, "j.xml")
    run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", f"--basetemp={work}/pt",
         "-o", "junit_family=xunit2", f"--junitxml={xml}", "tests"], copy,
        {"NUMBA_CACHE_DIR": os.path.join(work, "nb"), "HOME": "/root", "TZ": "UTC",
         "NUMBA_NUM_THREADS": "2"})
    n = {"ok": 0, "ko": []}
    for tc in ET.parse(xml).getroot().iter("testcase"):
        if any(c.tag in ("failure", "error") for c in tc):
            n["ko"].append(tc.get("name"))
        else:
            n["ok"] += 1
    return n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--props", help="other checks to be run")
    a = ap.parse_args()
    for bid in a.ids:
        d = os.path.join(HERE, "seeded", bid)
        meta = json.load(open(os.path.join(d, "meta.json")))
        work = tempfile.mkdtemp(prefix="vtseed_")
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        out = [bid, meta["property"]]
        demo = ["bash", os.path.join(d, "demo.sh")]
        env = {"NUMBA_CACHE_DIR": os.path.join(work, "nb0")}
        rc, txt = run(demo, copy, env)
        out.append(f"demo without: {rc}")
        if rc:
            print(txt[-1500:])
        rc, txt = run(["git", "apply", os.path.join(d, "patch.diff")], copy)
        if rc:
            print(bid, "patch does not apply", txt)
            continue
        rc, txt = run(demo, copy, {"NUMBA_CACHE_DIR": os.path.join(work, "nb1")})
        out.append(f"demo with: {rc}")
        if not rc:
            print(txt[-1500:])
        if not a.no_tests:
            r = stable(copy, work)
            out.append(f"tests: {r['ok']} {r['ko']}")
        if not a.no_check:
            for p in (a.props or meta["property"]).split(","):
                rc, txt = run([os.path.join(HERE, "check.py"), p], HERE, {"VT_REPO": copy})
                lines = [x for x in txt.splitlines() if x.startswith(("VIOLATION", "# ", "OK", "INC"))]
                out.append(f"{p}: {rc} {lines[:2]}")
        print("\n   ".join(out), flush=True)
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
