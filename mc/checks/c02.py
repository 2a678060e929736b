"""C02 - a store that fails leaves everything already stored in the container intact and readable."""

import copy
import os
import shutil

from mc import build as B
from mc.faults import Plan, installed
from mc.pscutil import fresh, objects, observe

PID = "C02"
LEVEL = "fault_enumeration"
RULE = (
    "For every starting container (3 contents x handle kept open or not) and every kind of store (new name, new group, "
    "overwrite with the same or another shape, list of two), a failure is injected at every single HDF5 step the store "
    "performs (group and dataset creation, attribute write, delete, move) and every way of rejecting the payload "
    "(wrong type, missing or ill-typed attributes, inconsistent windows) is tried; the container is then compared with "
    "what it held before, through the same handle and through a fresh reader. Non-trivial: the store really failed."
)
ASSUMPTIONS = ["one failure per store; failures surface as exceptions (no loss of the process or of the disk)"]

KEYS = [("g", "a"), ("g", "b"), ("h", "a")]
START = {
    "one": {("g", "a"): "X"},
    "two": {("g", "a"): "X", ("g", "b"): "Z"},
    "three": {("g", "a"): "Y", ("g", "b"): "X", ("h", "a"): "Z"},
}
STORES = [
    ("new-name", [("g", "c")], ["Y"], False),
    ("new-group", [("k", "a")], ["Y"], False),
    ("replace-same", [("g", "a")], ["Y"], True),
    ("replace-other", [("g", "a")], ["Z"], True),
    ("list", [("g", "c"), ("g", "a")], ["Z", "Y"], True),
]


def tasks(tier, seed):
    out = []
    for st in START:
        for keep in (True, False):
            for i in range(len(STORES)):
                out.append({"start": st, "keep": keep, "store": i})
            out.append({"start": st, "keep": keep, "store": "invalid"})
    out.append({"store": "file"})
    return out


def make(root, start, O):
    from hera_pspec import container

    p = container.PSpecContainer(os.path.join(root, "base.h5"), mode="rw", keep_open=False)
    for (g, n), o in start.items():
        p.set_pspec(g, n, O[o])
    return os.path.join(root, "base.h5")


def invalid_payloads(O):
    bad = {"string": "x", "none": None, "dict": {}}
    for attr in ("data_array", "polpair_array", "integration_array", "lst_1_array", "Nspws", "bl_vecs"):
        u = copy.deepcopy(O["Y"])
        delattr(u, attr)
        bad["missing " + attr] = u
    u = copy.deepcopy(O["Y"])
    u.spw_array = u.spw_array + 3
    bad["bad spw numbering"] = u
    u = copy.deepcopy(O["Y"])
    u.exact_windows = True
    bad["exact windows missing"] = u
    u = copy.deepcopy(O["Y"])
    u.data_array = {0: "nonsense"}
    bad["ill-typed data"] = u
    u = copy.deepcopy(O["Y"])
    u.nsample_array = {}
    bad["incomplete nsample"] = u
    u = copy.deepcopy(O["Y"])
    u.stats_array = {"s": {}}
    bad["incomplete stats"] = u
    return bad


def do_store(p, keys, objs, ow):
    if len(keys) == 1:
        p.set_pspec(keys[0][0], keys[0][1], objs[0], overwrite=ow)
    else:
        p.set_pspec(keys[0][0], [k[1] for k in keys], list(objs), overwrite=ow)


def after(rec, p, path, options, O, tr, tag):
    """The container must equal one of the allowed maps (through the same handle and a fresh reader)."""
    from hera_pspec import container

    for who in ("same", "fresh"):
        q = p if who == "same" else container.PSpecContainer(path, mode="r", keep_open=False)
        if who == "fresh" and p.data is not None:
            p.data.close()
            p.data = None
        try:
            names = {(g, n) for g, ns in q.tree(return_str=False).items() for n in ns}
        except Exception as e:  # noqa: BLE001
            rec.fail(tag + ":unreadable", f"{type(e).__name__}: {e}", tr)
            return
        match = [m for m in options if set(m) == names]
        if not rec.expect(match, tag + ":contents", f"{who} handle sees {sorted(names)}, allowed {[sorted(m) for m in options]}", tr):
            return
        # with several allowed maps of the same names: at least one must agree entirely
        from mc.core import Rec

        trials = []
        for m in match:
            r = Rec(None)
            observe(r, q, m, O, tr)
            trials.append(r)
            rec.evaluations += r.evaluations
        best = min(trials, key=lambda r: len(r.violations))
        for v in best.violations[:3]:
            rec.fail(tag + ":" + v["sig"], v["what"], tr)


def run(task, rec):
    from hera_pspec import container

    O = objects()
    root = fresh()
    if task["store"] == "file":
        return file_save(rec, O, root)
    start = START[task["start"]]
    base = make(root, start, O)
    n = 0

    def trial(tag, fn, options, k, tr):
        nonlocal n
        path = os.path.join(root, f"t{n}.h5")
        n += 1
        shutil.copyfile(base, path)
        p = container.PSpecContainer(path, mode="rw", keep_open=task["keep"])
        plan = Plan(k)
        failed = None
        with installed(plan):
            try:
                fn(p)
            except Exception as e:  # noqa: BLE001
                failed = e
        rec.step()
        rec.outcome((tag, plan.log[k] if k is not None and k < len(plan.log) else None, type(failed).__name__))
        if failed is not None:
            after(rec, p, path, options, O, tr, tag)
            rec.trace()
        if p.data is not None:
            p.data.close()
            p.data = None
        os.remove(path)
        return plan, failed

    if task["store"] == "invalid":
        for name, bad in invalid_payloads(O).items():
            for (g, nme), ow in [(("g", "a"), True), (("g", "c"), False), (("k", "a"), False), (("g", "a"), False)]:
                if name.startswith("incomplete") is False:
                    pass
                tr = {"start": task["start"], "payload": name, "target": f"{g}/{nme}", "overwrite": ow}
                plan, failed = trial("invalid", lambda p: p.set_pspec(g, nme, bad, overwrite=ow), [start], None, tr)
                rec.expect(failed is not None, "invalid:accepted", f"payload '{name}' accepted", tr)
        # a list with a bad second element may store the first, nothing else
        bad = invalid_payloads(O)["missing data_array"]
        part = dict(start)
        part[("g", "c")] = "Y"
        trial("invalid-list", lambda p: p.set_pspec("g", ["c", "a"], [O["Y"], bad], overwrite=True), [start, part], None, {"list": 1})
        trial("invalid-list", lambda p: p.set_pspec("g", ["c", "a"], [O["Y"], "x"], overwrite=True), [start, part], None, {"list": 2})
        trial("exists", lambda p: p.set_pspec("g", "a", O["Z"]), [start], None, {"exists": 1})
        rec.sample({"payloads": list(invalid_payloads(O))})
        return
    name, keys, objs, ow = STORES[task["store"]]
    # count the steps of the fault-free store
    plan, failed = trial(name, lambda p: do_store(p, keys, [O[o] for o in objs], ow), [start], 10**9, {"store": name})
    rec.expect(failed is None, name + ":store", f"fault-free store failed: {failed}")
    steps = plan.n
    rec.notes["h5_steps"] = rec.notes.get("h5_steps", 0) + steps
    options = [dict(start)]
    if len(keys) > 1:
        m = dict(start)
        m[keys[0]] = objs[0]
        options.append(m)
    for k in range(steps):
        what = plan.log[k]
        if what.startswith("attr hera_pspec") or what.startswith("attr pspec_type") and k < 3:
            pass
        tr = {"start": task["start"], "keep_open": task["keep"], "store": name, "failing step": k, "what": what}
        trial(name, lambda p: do_store(p, keys, [O[o] for o in objs], ow), options, k, tr)
        if k == steps // 2:
            rec.sample(tr)
    shutil.rmtree(root, ignore_errors=True)


def file_save(rec, O, root):
    """Saving a single object over an existing file: a rejected object must not cost the old file."""
    from hera_pspec import uvpspec
    from mc.pscutil import same_uvp

    for name, bad in invalid_payloads(O).items():
        if not isinstance(bad, uvpspec.UVPSpec) or name.startswith("incomplete"):
            continue
        path = os.path.join(root, "u.h5")
        if os.path.exists(path):
            os.remove(path)
        O["X"].write_hdf5(path)
        rec.step()
        rec.trace()
        rec.outcome(("file", name))
        rec.expect(rec.raises(bad.write_hdf5, path, overwrite=True), "file:invalid-accepted", name)
        u = uvpspec.UVPSpec()
        try:
            u.read_hdf5(path)
            d = same_uvp(u, O["X"])
        except Exception as e:  # noqa: BLE001
            d = f"{type(e).__name__}: {e}"
        rec.expect(d is None, "file:lost", f"after a rejected overwrite with '{name}': {d}", name)
        rec.expect(rec.raises(O["Y"].write_hdf5, path), "file:silent-overwrite", "existing file overwritten without overwrite=True")
        O["Z"].write_hdf5(path, overwrite=True)
        u.read_hdf5(path)
        d = same_uvp(u, O["Z"])
        rec.expect(d is None, "file:overwrite", d)
    rec.sample({"file": "write_hdf5 over an existing file with invalid objects"})
