"""Fault injection into the h5py primitives (never into the package's own functions).

`Plan(k)` makes the k-th primitive call (0-based, counting create_group, create_dataset, attribute set,
delete, move, flush) raise; k=None only counts.  Handles opened while the plan is installed are recorded.
"""

import contextlib

import h5py


class Injected(OSError):
    pass


class Plan:
    def __init__(self, k=None, exc=Injected, open_outcomes=None):
        self.k, self.exc = k, exc
        self.n = 0
        self.log = []
        self.files = []
        self.fired = False
        self.open_outcomes = open_outcomes  # list of bools consumed by successive opens of files
        self.opens = 0
        self.sleeps = []

    def hit(self, what):
        i = self.n
        self.n += 1
        self.log.append(what)
        if self.k is not None and i == self.k:
            self.fired = True
            raise self.exc(f"injected failure at step {i}: {what}")

    def leaked(self):
        return [f for f in self.files if f.id.valid]


@contextlib.contextmanager
def installed(plan):
    G, A, F = h5py.Group, h5py.AttributeManager, h5py.File
    o = dict(cg=G.create_group, cd=G.create_dataset, di=G.__delitem__, mv=G.move, at=A.__setitem__, fi=F.__init__)

    def cg(self, name, *a, **k):
        plan.hit(f"create_group {name}")
        return o["cg"](self, name, *a, **k)

    def cd(self, name, *a, **k):
        plan.hit(f"create_dataset {name}")
        return o["cd"](self, name, *a, **k)

    def di(self, name):
        plan.hit(f"delete {name}")
        return o["di"](self, name)

    def mv(self, a, b):
        plan.hit(f"move {a} {b}")
        return o["mv"](self, a, b)

    def at(self, name, value):
        plan.hit(f"attr {name}")
        return o["at"](self, name, value)

    def fi(self, *a, **k):
        i = plan.opens
        plan.opens += 1
        if plan.open_outcomes is not None and not (i < len(plan.open_outcomes) and plan.open_outcomes[i]):
            raise OSError("injected: unable to open file")
        o["fi"](self, *a, **k)
        plan.files.append(self)

    G.create_group, G.create_dataset, G.__delitem__, G.move = cg, cd, di, mv
    A.__setitem__, F.__init__ = at, fi
    try:
        yield plan
    finally:
        G.create_group, G.create_dataset, G.__delitem__, G.move = o["cg"], o["cd"], o["di"], o["mv"]
        A.__setitem__, F.__init__ = o["at"], o["fi"]
