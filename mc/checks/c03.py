"""C03 - opening a container: bounded retries, handles always released, read-only never writes."""

import hashlib
import itertools
import os
import shutil
import time

from mc.faults import Plan, installed
from mc.pscutil import fresh, objects, observe

PID = "C03"
LEVEL = "fault_enumeration"
RULE = (
    "Every success/failure schedule of up to maxiter+2 attempts to open the file, for maxiter 1..5, both modes and both "
    "handle policies, at construction and at the first operation; and, for every container operation with "
    "open-per-operation handles, a failure at every HDF5 step (including the steps of opening) and every documented "
    "rejection, checking after each that no handle is left open and that the container still works. "
    "Non-trivial: at least one failure occurred."
)
ASSUMPTIONS = ["a file that cannot be opened makes the HDF5 library raise OSError (validated against a really locked file)"]

START = {("g", "a"): "X", ("g", "b"): "Z"}

OPS = {
    "groups": lambda p, O: p.groups(),
    "spectra": lambda p, O: p.spectra("g"),
    "tree": lambda p, O: p.tree(),
    "treed": lambda p, O: p.tree(return_str=False),
    "get": lambda p, O: p.get_pspec("g", "a"),
    "getall": lambda p, O: p.get_pspec("g"),
    "save": lambda p, O: p.save(),
    "set": lambda p, O: p.set_pspec("g", "c", O["Y"]),
    "replace": lambda p, O: p.set_pspec("g", "a", O["Y"], overwrite=True),
    "setlist": lambda p, O: p.set_pspec("g", ["c", "d"], [O["Y"], O["X"]]),
    "bad-exists": lambda p, O: p.set_pspec("g", "a", O["Y"]),
    "bad-type": lambda p, O: p.set_pspec("g", "c", "nonsense"),
    "bad-listlen": lambda p, O: p.set_pspec("g", ["c", "d"], [O["Y"]]),
    "bad-listtype": lambda p, O: p.set_pspec("g", ["c", "d"], [O["Y"], 3]),
    "bad-grouplist": lambda p, O: p.set_pspec(["g"], "c", O["Y"]),
    "bad-namestr": lambda p, O: p.set_pspec("g", "c", [O["Y"]]),
    "bad-group": lambda p, O: p.get_pspec("zz"),
    "bad-name": lambda p, O: p.get_pspec("g", "zz"),
    "bad-spectra": lambda p, O: p.spectra("zz"),
    "bad-select": lambda p, O: p.get_pspec("g", "a", blpairs=[((7, 8), (7, 8))]),
}


def tasks(tier, seed):
    out = [{"kind": "open", "maxiter": m} for m in range(1, 6)]
    out += [{"kind": "release", "op": o, "mode": m} for o in OPS for m in ("r", "rw")]
    out += [{"kind": "locked"}]
    return out


def make(root):
    from hera_pspec import container

    O = objects()
    path = os.path.join(root, "base.h5")
    p = container.PSpecContainer(path, mode="rw", keep_open=False)
    for (g, n), o in START.items():
        p.set_pspec(g, n, O[o])
    return path, O


def fh(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def run(task, rec):
    from hera_pspec import container

    root = fresh()
    base, O = make(root)
    if task["kind"] == "open":
        m = task["maxiter"]
        for sched in itertools.product([False, True], repeat=m + 2):
            for mode, keep in itertools.product(["r", "rw"], [True, False]):
                tr = {"maxiter": m, "opens": sched, "mode": mode, "keep_open": keep}
                plan = Plan(open_outcomes=list(sched))
                sleeps = []
                real = time.sleep
                time.sleep = sleeps.append
                err, p = None, None
                try:
                    with installed(plan):
                        p = container.PSpecContainer(base, mode=mode, keep_open=keep, maxiter=m, tsleep=0.25)
                        if not keep:
                            rec.expect(plan.opens == 0, "eager-open", "keep_open=False opened the file at construction", tr)
                            p.groups()
                except OSError as e:
                    err = e
                except Exception as e:  # noqa: BLE001
                    rec.fail("open:wrong-error", f"{type(e).__name__}: {e}", tr)
                    continue
                finally:
                    time.sleep = real
                rec.step()
                first = sched.index(True) if True in sched else None
                rec.outcome((m, first, mode, keep))
                if first is not None and first < m:
                    rec.expect(err is None, "open:gave-up-early", f"raised {err} after {plan.opens} of {m} attempts", tr)
                    rec.expect(plan.opens == first + 1, "open:attempts", f"{plan.opens} attempts, expected {first + 1}", tr)
                else:
                    rec.expect(err is not None, "open:too-many", f"succeeded on attempt {plan.opens} with maxiter={m}", tr)
                    rec.expect(plan.opens == m, "open:attempts", f"{plan.opens} attempts with maxiter={m}", tr)
                rec.expect(all(s == 0.25 for s in sleeps), "open:sleep", f"waited {sleeps}", tr)
                rec.expect(len(sleeps) >= plan.opens - 1, "open:no-wait", f"{plan.opens} attempts but {len(sleeps)} waits", tr)
                if not keep:
                    rec.expect(not plan.leaked(), "open:leak", f"{len(plan.leaked())} handles left open", tr)
                if p is not None and p.data is not None:
                    p.data.close()
                    p.data = None
                for f in plan.leaked():
                    f.close()
        rec.sample({"maxiter": m, "schedules": 2 ** (m + 2)})
    elif task["kind"] == "release":
        op, mode = task["op"], task["mode"]
        writes = op in ("set", "replace", "setlist")
        k, steps = None, None
        while True:
            path = os.path.join(root, "t.h5")
            shutil.copyfile(base, path)
            before = fh(path)
            p = container.PSpecContainer(path, mode=mode, keep_open=False)
            plan = Plan(k)
            err = None
            with installed(plan):
                try:
                    OPS[op](p, O)
                except Exception as e:  # noqa: BLE001
                    err = e
            tr = {"op": op, "mode": mode, "failing step": None if k is None else plan.log[k], "k": k}
            rec.step()
            rec.outcome((op, mode, tr["failing step"], type(err).__name__))
            if k is None:
                expected = op.startswith("bad") or (mode == "r" and (writes or op.startswith("bad-")))
                rec.expect((err is not None) == expected, f"{op}:{mode}:error", f"error {err!r}, expected {'an error' if expected else 'none'}", tr)
            rec.expect(not plan.leaked(), "leak", f"{op}: {len(plan.leaked())} handles still open after {type(err).__name__ if err else 'success'}", tr)
            if mode == "r":
                rec.expect(fh(path) == before, "readonly-changed", f"{op} changed a file opened read-only", tr)
            if k is not None and not plan.fired:
                break
            # the same object must still be usable
            for f in plan.leaked():
                f.close()
                p.data = None
            if err is not None or not writes:
                part = dict(START)
                part[("g", "c")] = "Y"
                from mc.core import Rec

                r = Rec(None)
                observe(r, p, START, O, tr)
                if r.violations and op in ("setlist", "bad-listtype"):
                    r = Rec(None)
                    observe(r, p, part, O, tr)
                for v in r.violations[:2]:
                    rec.fail("after:" + v["sig"], v["what"], tr)
                rec.evaluations += r.evaluations
            rec.trace()
            if k is None:
                steps = plan.n
                k = 0
                rec.sample({"op": op, "mode": mode, "h5 steps": plan.log[:6], "n": steps})
                if steps == 0:
                    break
            else:
                k += 1
                if k >= steps:
                    break
    else:
        # the injected failure is what a really locked file does
        path = os.path.join(root, "l.h5")
        shutil.copyfile(base, path)
        for mode in ("r", "rw"):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    import h5py

                    f = h5py.File(path, "r+")
                    os.write(w1, b"x")
                    os.read(r2, 1)
                    f.close()
                    os.write(w1, b"y")
                finally:
                    os._exit(0)
            os.read(r1, 1)
            p = container.PSpecContainer(path, mode=mode, keep_open=False, maxiter=2, tsleep=0.01)
            err = None
            try:
                p.groups()
            except OSError as e:
                err = e
            rec.step()
            rec.expect(err is not None, "locked:opened", "opened a file locked by another process", mode)
            rec.notes["real_lock_raises_oserror"] = int(err is not None)
            os.write(w2, b"x")
            os.read(r1, 1)
            os.waitpid(pid, 0)
            for fd in (r1, w1, r2, w2):
                os.close(fd)
            observe(rec, p, START, O, "after the lock is released")
            rec.trace()
            rec.outcome(("locked", mode))
        rec.sample({"locked": "fork a writer, open, release, reopen"})
    shutil.rmtree(root, ignore_errors=True)
