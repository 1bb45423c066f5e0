#!/opt/venv/bin/python
"""Run again a recorded counterexample against the real code: `replay.py <file>`."""
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if __name__ == "__main__":
    from symx import runner

    d = json.load(open(sys.argv[1]))
    scratch = tempfile.mkdtemp(prefix="vt_replay_")
    try:
        runner.init_real(bool(d.get("jit")), scratch)
        r = runner.run_real(d["case"], d["values"], ())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps({"case": d["case"], "values": d["values"], "result": r}, indent=1))
    sys.exit(1 if r["status"] in ("fail", "error") else 0)
