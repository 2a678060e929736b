"""C05 - merging single-baseline files gives one result, however the work is cut into batches."""

import hashlib
import itertools
import os
import pickle
import shutil

import numpy as np

from mc import build as B
from mc import table as T
from mc.pscutil import fresh

PID = "C05"
LEVEL = "model_checking"
RULE = (
    "For every number of files up to the bound, every assignment of file names to baseline-pairs (all orders for few files), four "
    "families of contents (same times, different times per baseline, several windows and polarization pairs, windows and error "
    "bars) and every batch size from one to beyond the number of files: the merged spectra must hold the union of the cells of the "
    "files, nothing else, the same for every batch size; extras must map each baseline-pair to its file's value; inputs and other "
    "spectra of an existing output stay as they are. States are distinct results; transitions are merges."
)
ASSUMPTIONS = ["one baseline-pair per file and disjoint cells, as the command documents", "at most 6 (thorough 8) files"]

BL = [((1, 2), (1, 2)), ((1, 2), (2, 3)), ((2, 3), (1, 2)), ((4, 5), (4, 5)), ((4, 5), (1, 4)), ((5, 6), (5, 6)), ((3, 3), (3, 3)), ((2, 5), (2, 5))]
FAM = {
    "plain": dict(tps=[(0, 0), (1, 3)], spws=[(0, 3, 3)], pols=[(-5, -5)], win=False),
    "times": dict(tps=None, spws=[(0, 3, 3)], pols=[(-5, -5)], win=False),
    "two": dict(tps=[(0, 1)], spws=[(0, 3, 3), (10, 4, 5)], pols=[(-5, -5), (1, 2)], win=False, omega=True),
    "full": dict(tps=[(0, 0)], spws=[(0, 3, 4)], pols=[(-6, -5)], cov=True, stats=["e"]),
}


def payload(fam, i, name):
    kw = dict(FAM[fam])
    if kw["tps"] is None:
        kw["tps"] = [(i, i), (i + 2, i + 3)][: 1 + i % 2]
    u = B.uvp(blps=[BL[i]], salt=i + 10 * (name == "b"), history=f"h{i}{name}", **kw)
    if hasattr(u, "cosmo"):
        del u.cosmo
    return u


_O = {}


def obj(fam, i, name):
    k = (fam, i, name)
    if k not in _O:
        u = payload(fam, i, name)
        _O[k] = (u, T.table(u))
    return _O[k]


def tasks(tier, seed):
    top = 6 if tier == "quick" else 8
    return [dict(fam=f, n=n, tier=tier) for f in FAM for n in range(1, top + 1)] + [dict(fam="plain", n=3, cli=1)]


def orders(n, tier):
    if n <= (3 if tier == "quick" else 4):
        return list(itertools.permutations(range(n)))
    return [tuple(range(n)), tuple(reversed(range(n))), tuple(range(1, n, 2)) + tuple(range(0, n, 2)), tuple(range(n // 2, n)) + tuple(range(n // 2))]


def put(d, fam, order):
    """File j (in name order) holds baseline-pair order[j]."""
    import h5py

    from hera_pspec import container

    for j, i in enumerate(order):
        f = os.path.join(d, f"bl.{j:02}.h5")
        p = container.PSpecContainer(f, mode="rw", keep_open=True)
        p.set_pspec("grp", "a", obj(fam, i, "a")[0])
        p.set_pspec("grp", "b", obj(fam, i, "b")[0])
        p.set_pspec("grp", "other", obj(fam, i, "a")[0])
        p._close()
        with h5py.File(f, "a") as h:
            h["header"].attrs["fract"] = [0.1 * i, 2.0]
            h["header"].attrs["note"] = f"note {i}"


def hashes(d):
    return {f: hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest() for f in sorted(os.listdir(d))}


def union(fam, order, name):
    t = {}
    for i in order:
        t.update(obj(fam, i, name)[1])
    return t


def check_out(rec, fam, order, out, names, extras, existing, tr):
    from hera_pspec import container

    p = container.PSpecContainer(out + ".pspec.h5", mode="r", keep_open=False)
    if not rec.expect(p.groups() == ["grp"] and sorted(p.spectra("grp")) == sorted(set(names) | ({"kept"} if existing else set())), "names", f"{p.tree()}", tr):
        return None
    if existing:
        rec.expect(T.diff(T.table(p.get_pspec("grp", "kept")), obj(fam, 0, "b")[1]) is None, "kept", "another spectrum of the output changed", tr)
    sig = []
    for n in names:
        u = p.get_pspec("grp", n)
        t = T.table(u)
        d = T.diff(t, union(fam, order, n))
        rec.expect(d is None, f"merged:{d and d[0]}", f"{n}: {d}", tr)
        for a, b in T.wellformed(u):
            rec.expect(False, "form:" + a, b, tr)
        sig.append(sorted((repr(k), np.asarray(c["data"]).tobytes()) for k, c in t.items()))
    for e in extras:
        with open(f"{out}.{e}.pkl", "rb") as f:
            x = pickle.load(f)
        want = {BL[i]: ([0.1 * i, 2.0] if e == "fract" else f"note {i}") for i in order}
        ok = set(x) == set(want) and all(np.array_equal(x[k], want[k]) for k in want)
        rec.expect(ok, "extras:" + e, f"{x} want {want}", tr)
    return sig


def run(task, rec):
    from pathlib import Path

    from hera_pspec import cli, container

    root = fresh()
    cli.cns.quiet = True
    fam, n = task["fam"], task["n"]
    m = 0
    try:
        if task.get("cli"):
            return command_line(rec, task, root)
        for oi, order in enumerate(orders(n, task["tier"])):
            d = os.path.join(root, f"in{oi}")
            os.mkdir(d)
            put(d, fam, order)
            h0 = hashes(d)
            for bs in [None] + list(range(1, n + 3)):
                m += 1
                names = [["a", "b"], ["b"], ["a"], ["b", "a"]][m % 4]
                extras = [None, ["fract", "note"], ["note"]][m % 3]
                existing = m % 2 == 0
                out = os.path.join(root, f"out.{m}")
                if existing:  # an output of an earlier merge
                    p = container.PSpecContainer(out + ".pspec.h5", mode="rw", keep_open=True)
                    p.set_pspec("grp", "kept", obj(fam, 0, "b")[0])
                    p.set_pspec("grp", names[0], obj(fam, 0, "b")[0])
                    p._close()
                tr = dict(task, order=order, batch=bs, names=names, extras=extras, existing=existing)
                ok, _ = rec.attempt("merge", cli.fast_merge_baselines, pattern=os.path.join(d, "bl.*.h5"), group="grp", names=names, outpath=Path(out), progress=False, extras=extras, batch_size=bs, trace=tr)
                rec.step()
                rec.trace()
                if ok:
                    sig = check_out(rec, fam, order, out, names, extras or [], existing, tr)
                    if sig:
                        rec.state((fam, names, sig))
                        rec.outcome((fam, n, order, names))
                rec.expect(hashes(d) == h0, "inputs", "an input file was modified", tr)
                os.remove(out + ".pspec.h5") if os.path.exists(out + ".pspec.h5") else None
            shutil.rmtree(d, ignore_errors=True)
        rec.sample(f"{task} -> {m} merges")
    finally:
        shutil.rmtree(root, ignore_errors=True)


def command_line(rec, task, root):
    from typer.testing import CliRunner

    from hera_pspec import cli

    d = os.path.join(root, "in")
    os.mkdir(d)
    order = (2, 0, 1)
    put(d, task["fam"], order)
    for i, (bs, extra, prog) in enumerate(itertools.product((None, 1, 2, 5), ([], ["note"], ["note", "fract"]), (True, False))):
        out = os.path.join(root, f"o{i}")
        argv = ["fast-merge-baselines", "--pattern", f"{d}/bl.*.h5", "--group", "grp", "--names", "a", "--names", "b", "--outpath", out, "--progress" if prog else "--no-progress"]
        for e in extra:
            argv += ["--extras", e]
        if bs:
            argv += ["--batch-size", str(bs)]
        r = CliRunner().invoke(cli.app, argv)
        rec.step()
        rec.trace()
        tr = dict(task, argv=argv[1:])
        if rec.expect(r.exit_code == 0, "cli:exit", repr(r.exception), tr):
            check_out(rec, task["fam"], order, out, ["a", "b"], extra, False, tr)
