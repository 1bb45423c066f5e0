"""Import z3 (from the python3-vt tool environment) inside oups' own interpreter."""
import importlib.util
import os
import sys

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    spec = importlib.util.spec_from_file_location(
        "z3", os.path.join(_P, "__init__.py"), submodule_search_locations=[_P]
    )
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = load()
