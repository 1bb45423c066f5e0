"""Harnesses: one per property (family), the same text runs symbolically and concretely."""
import importlib

MODULES = ("kernels", "store", "keys", "stream")


class Case:
    def __init__(self, prop, name, fn, params, tier, replays, jit, weight):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.params = params
        self.tier = tier
        self.replays = replays
        self.jit = jit
        self.weight = weight

    @property
    def id(self):
        return f"{self.prop}/{self.name}"


_CASES = []


def case(prop, fn, name, tier="quick", replays=6, jit=False, weight=1, **params):
    _CASES.append(Case(prop, name, fn, params, tier, replays, jit, weight))


def cases(prop=None, tier=None):
    for m in MODULES:
        importlib.import_module(f"harness.{m}")
    out = [
        c
        for c in _CASES
        if (prop is None or c.prop == prop) and (tier != "quick" or c.tier == "quick")
    ]
    ids = [c.id for c in out]
    assert len(ids) == len(set(ids)), "case names have to be unique"
    return out


def by_id(cid):
    for c in cases():
        if c.id == cid:
            return c
    raise KeyError(cid)


# What evidence files state besides the bounds (see DESIGN.md for reasons).
_STREAM = [
    "chunks of a seed follow each other in order",
    "times are strictly ascending where bins are made by number of rows",
]
ASSUMPTIONS = {
    "*": [
        "Z3, CPython, and pandas / numpy on object data are trusted",
        "numba kernels are interpreted from their Python text; compiled code is only replayed",
        "times are whole seconds, numbers are whole and below 2**53, or null",
        "sizes are those of the cases: nothing is claimed beyond",
    ],
    "A02": ["right-closed bins by number of rows: no tie at the boundary of two bins"],
    "A08": _STREAM[:1],
    "A09": _STREAM,
    "A11": _STREAM,
    "A12": _STREAM + ["tasks are interrupted between lines of oups Python code only"],
    "A14": _STREAM,
    "A15": _STREAM,
    **{
        f"S{i:02d}": ["fastparquet, vaex and the file system are as modelled (see DESIGN.md)"]
        for i in (1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 14, 15)
    },
    "S07": ["one character as separator of fields"],
    "S08": ["one character as separator of fields"],
    "S14": ["the dataset has at least one row group before the write"],
}
