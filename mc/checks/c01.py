"""C01 - a container behaves as a two-level map from (group, name) to stored spectra, for every history."""

import hashlib
import itertools
import os
import shutil

from mc import build as B
from mc import table as T
from mc.pscutil import fresh, observe, objects, same_uvp

PID = "C01"
LEVEL = "model_checking"
RULE = (
    "Every sequence (up to the stated depth) of store / store-with-overwrite / list-store / reopen-read-only / "
    "reopen-read-write / flush operations over 2 groups x 2 names x 2 payloads (and over names that look like another's temporary ones, names close to the reserved one, numbers as names, and single-writer multiple-reader handles), with the file held open or reopened "
    "per operation and with one or two alternating clients, is executed on a real HDF5 container; after every step "
    "everything observable (groups, names, tree, each object, whole-group reads, missing-key errors) is compared "
    "with a dictionary. States are distinct (dictionary, mode, handle policy) triples."
)
ASSUMPTIONS = [
    "group and spectrum names are single path components other than the reserved group name 'header'",
    "clients alternate between whole operations (no two operations overlap in time)",
]

NAMES = [("g", "a"), ("g", "b_x_c"), ("h i", "a"), ("h i", "é_1")]


def alphabet():
    ops = []
    for key in NAMES:
        for obj in ("X", "Y"):
            for ow in (False, True):
                ops.append(("set", key, obj, ow))
    ops.append(("setlist", "g", ["a", "b_x_c"], ["Y", "X"], True))
    ops.append(("setlist", "g", ["a", "b_x_c"], ["Y"], True))
    ops.append(("setstrlist", "g", "a", ["X"], True))
    ops.append(("setbad", ("g", "a"), "notuvp", True))
    ops.append(("reopen", "r"))
    ops.append(("reopen", "rw"))
    ops.append(("save",))
    return ops


SMALL = [
    ("set", ("g", "a"), "X", False),
    ("set", ("g", "a"), "Z", True),
    ("set", ("g", "b_x_c"), "X", True),
    ("set", ("h i", "a"), "Y", False),
    ("setlist", "g", ["a", "b_x_c"], ["Z", "X"], True),
    ("setbad", ("g", "a"), "notuvp", True),
    ("reopen", "r"),
    ("reopen", "rw"),
]

# names that an implementation might use for its own intermediate steps
OWN = [("set", ("g", "a" + x), o, w) for x, o in (("", "X"), (".tmp", "Y"), (".bak", "Z")) for w in (False, True)] + [("set", ("g", "a"), "Y", True), ("set", ("g", "a.tmp_"), "X", True)]
# single-writer multiple-reader handles, which may replace what is there but add nothing
SWMR = [
    ("set", ("g", "a"), "X", False), ("set", ("g", "a"), "Z", True), ("set", ("g", "b_x_c"), "Y", True), ("set", ("h i", "a"), "Y", False),
    ("reopen", "rw", True), ("reopen", "r", True), ("reopen", "rw"),
]
# names close to the reserved one, and names that are numbers
EDGE = [("set", k, o, w) for k, o, w in (
    (("headers", "header"), "X", False), (("head", "er"), "Y", False), (("header_1", "a"), "X", True), ((1, 2), "Y", False), ((1, 2), "X", True), ((1, 20), "X", False), (("10", "2"), "Z", False))] + [("reopen", "r"), ("reopen", "rw")]
ALPHA = {"small": SMALL, "own": OWN, "swmr": SWMR, "edge": EDGE}


def tasks(tier, seed):
    out = []
    full = alphabet()
    d_full = 2 if tier == "quick" else 3
    d_small = 3 if tier == "quick" else 4
    for keep in (True, False):
        for i in range(len(full)):
            out.append({"alpha": "full", "keep": keep, "first": i, "depth": d_full, "clients": 1})
        for i in range(len(SMALL)):
            out.append({"alpha": "small", "keep": keep, "first": i, "depth": d_small, "clients": 1})
    for i in range(len(SMALL)):
        out.append({"alpha": "small", "keep": False, "first": i, "depth": 3 if tier == "quick" else 4, "clients": 2})
        if i < len(SWMR):
            d = 4 if tier == "quick" else 5
            out.append({"alpha": "swmr", "keep": bool(i % 2), "first": i, "depth": d, "clients": 1})
            if tier != "quick":
                out.append({"alpha": "swmr", "keep": not i % 2, "first": i, "depth": d, "clients": 1})
        if i < len(EDGE):
            out.append({"alpha": "edge", "keep": bool(i % 2), "first": i, "depth": 3 if tier == "quick" else 4, "clients": 1})
        if i < len(OWN):
            out.append({"alpha": "own", "keep": bool(i % 2), "first": i, "depth": 3 if tier == "quick" else 4, "clients": 1})
    return out


def fhash(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


class Sys:
    """The real system: one file, one or two container handles."""

    def __init__(self, path, keep, clients):
        from hera_pspec import container

        self.C = container.PSpecContainer
        self.path, self.keep = path, keep
        self.mode = "rw"
        self.h = [self.C(path, mode="rw", keep_open=keep) for _ in range(clients)]

    def reopen(self, mode, swmr=False):
        for p in self.h:
            if p.data is not None:
                p.data.close()
                p.data = None
        self.h = [self.C(self.path, mode=mode, keep_open=self.keep, swmr=swmr) for _ in self.h]
        self.mode = mode

    def close(self):
        for p in self.h:
            if p.data is not None:
                p.data.close()
                p.data = None


def apply_model(m, mode, op):
    """Returns (new map, new mode, error expected)."""
    m = dict(m)
    if op[0] == "reopen":
        return m, op[1] + ("s" if op[2:] == (True,) else ""), False
    if op[0] == "save":
        return m, mode, False
    if mode[0] == "r" and mode[:2] != "rw":
        return m, mode, True
    if op[0] == "set":
        _, key, obj, ow = op
        key = tuple(str(x) for x in key)
        if mode == "rws" and key not in m:
            return m, mode, True
        if key in m and not ow:
            return m, mode, True
        m[key] = obj
        return m, mode, False
    if op[0] == "setlist":
        _, g, names, objs, ow = op
        if len(names) != len(objs):
            return m, mode, True
        for n, o in zip(names, objs):
            m[(g, n)] = o
        return m, mode, False
    return m, mode, True  # setbad, setstrlist


def apply_impl(s, op, O, who):
    p = s.h[who]
    if op[0] == "reopen":
        s.reopen(*op[1:])
    elif op[0] == "save":
        p.save()
    elif op[0] == "set":
        p.set_pspec(op[1][0], op[1][1], O[op[2]], overwrite=op[3])
    elif op[0] == "setlist":
        p.set_pspec(op[1], op[2], [O[o] for o in op[3]], overwrite=op[4])
    elif op[0] == "setstrlist":
        p.set_pspec(op[1], op[2], [O[o] for o in op[3]], overwrite=op[4])
    elif op[0] == "setbad":
        p.set_pspec(op[1][0], op[1][1], "not a spectrum", overwrite=op[3])


def modes(rec, root):
    """Only the two documented modes exist; a refused one creates nothing."""
    from hera_pspec import container

    for mode in ("w", "a", "r+", "x", "", None):
        path = os.path.join(root, "mode.h5")
        rec.step()
        rec.expect(rec.raises(container.PSpecContainer, path, mode=mode) and not os.path.exists(path), "mode", f"mode {mode!r} was accepted", mode)


def run(task, rec):
    O = objects()
    ops = ALPHA.get(task["alpha"]) or alphabet()
    root = fresh()
    modes(rec, root)
    for n, seq in enumerate(itertools.product(range(len(ops)), repeat=task["depth"])):
        if seq[0] != task["first"]:
            continue
        path = os.path.join(root, f"c{n}.h5")
        s = Sys(path, task["keep"], task["clients"])
        m, mode = {}, "rw"
        if not task["keep"]:
            # the file comes into being with the first operation
            s.h[0].groups()
        rec.state((m, mode, task["keep"]))
        for i, oi in enumerate(seq):
            op = ops[oi]
            tr = [ops[x] for x in seq[: i + 1]]
            if op[0] == "save" and mode == "r" and not task["keep"]:
                pass
            m2, mode2, err = apply_model(m, mode, op)
            before = fhash(path) if (err and mode in ("r", "rs")) else None
            who = i % task["clients"]
            try:
                apply_impl(s, op, O, who)
                failed = None
            except Exception as e:  # noqa: BLE001
                failed = e
            rec.step()
            if err:
                rec.expect(failed is not None, f"accepted:{op[0]}:{mode}", f"{op} was accepted", tr)
            else:
                rec.expect(failed is None, f"rejected:{op[0]}", f"{op} raised {type(failed).__name__}: {failed}", tr)
            if before is not None:
                rec.expect(fhash(path) == before, "readonly-changed", "a read-only container changed the file", tr)
            m, mode = m2, mode2
            rec.state((m, mode, task["keep"]))
            last = i == len(seq) - 1
            if last or err:
                observe(rec, s.h[(i + 1) % task["clients"]], m, O, tr)
                if mode in ("r", "rs"):
                    h0 = fhash(path)
                    observe(rec, s.h[0], m, O, tr)
                    rec.expect(fhash(path) == h0, "readonly-changed", "reads changed the file", tr)
        # what is on disk, seen by a fresh reader
        s.close()
        from hera_pspec import container

        p = container.PSpecContainer(path, mode="r", keep_open=False)
        observe(rec, p, m, O, [ops[x] for x in seq])
        rec.trace()
        rec.outcome((m, mode))
        os.remove(path)
        if len(rec.samples) < 3 and n % 7 == 0:
            rec.sample([list(map(str, ops[x])) for x in seq])
    shutil.rmtree(root, ignore_errors=True)
