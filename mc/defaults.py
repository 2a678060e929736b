"""Left-out arguments mean their documented defaults.

install() wraps every public function and method of hera_pspec: in every second call of each (counted from the start of the task)
keyword arguments equal to the documented default (defaults.json, a committed list made with tools/defaults.py) are left out.
On correct code this changes nothing; code whose default moved gives another result than the oracle expects.
"""

import functools
import importlib
import inspect
import json
import os

COUNT = {}
SKIP = ("utils.history_string",)  # names its caller
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "defaults.json")


def plain(v):
    return v is None or isinstance(v, (bool, int, float, str)) or isinstance(v, (tuple, list)) and all(plain(x) for x in v)


def same(a, b):
    if isinstance(b, list):  # JSON writes tuples as lists
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def wrap(fn, key, dflt):
    @functools.wraps(fn)
    def call(*a, **k):
        if k:
            n = COUNT[key] = COUNT.get(key, 0) + 1
            if n % 2 == 0:
                k = {x: v for x, v in k.items() if not (x in dflt and same(v, dflt[x]))}
        return fn(*a, **k)

    return call


def members():
    """(owner, name, raw attribute, plain function) of everything public that is defined in the package."""
    import hera_pspec

    for mod in sorted(f[:-3] for f in os.listdir(os.path.dirname(hera_pspec.__file__)) if f.endswith(".py") and f not in ("__init__.py", "cli.py")):
        m = importlib.import_module("hera_pspec." + mod)
        for nm, o in sorted(vars(m).items()):
            if getattr(o, "__module__", None) != m.__name__:
                continue
            if inspect.isfunction(o) and not nm.startswith("_"):
                yield m, nm, o, o
            elif inspect.isclass(o):
                for k, v in sorted(vars(o).items()):
                    f = v.__func__ if isinstance(v, (classmethod, staticmethod)) else v
                    if inspect.isfunction(f) and (not k.startswith("_") or k == "__init__"):
                        yield o, k, v, f


def name_of(owner, nm):
    return ".".join(filter(None, (getattr(owner, "__module__", ""), owner.__name__, nm))).replace("hera_pspec.", "")


def install():
    table = json.load(open(TABLE))
    for owner, nm, raw, f in list(members()):
        dflt = table.get(name_of(owner, nm))
        if dflt and name_of(owner, nm) not in SKIP:
            w = wrap(f, name_of(owner, nm), dflt)
            setattr(owner, nm, type(raw)(w) if isinstance(raw, (classmethod, staticmethod)) else w)
