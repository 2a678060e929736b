"""Helpers shared by the container checks."""

import os
import tempfile

from . import build as B
from . import table as T

_OBJ = None


def objects():
    """Three small payloads: X, Y share shape, Z differs in shape and optional arrays."""
    global _OBJ
    if _OBJ is None:
        base = dict(blps=[((1, 2), (1, 2))], tps=[(0, 0)], spws=[(0, 3, 3)], pols=[(-5, -5)], win=False)
        _OBJ = {
            "X": B.uvp(history="X", **base),
            "Y": B.uvp(history="Y", salt=1, **base),
            "Z": B.uvp(history="Z", salt=2, blps=[((1, 2), (2, 3))], tps=[(0, 1), (2, 3)], spws=[(0, 3, 3), (5, 4, 4)], stats=["q"]),
        }
        for k in ("X", "Y", "Z"):
            del _OBJ[k].cosmo  # optional; building a cosmology on every read would dominate the run time
    return _OBJ


def fresh():
    return tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH", "/tmp"))


def same_uvp(a, b):
    """None if two objects have the same content, else a description."""
    d = T.diff(T.table(a), T.table(b))
    if d is not None:
        return d
    for k in ("history", "weighting", "norm", "norm_units", "vis_units", "taper", "folded", "r_params"):
        if getattr(a, k) != getattr(b, k):
            return (k, getattr(a, k), getattr(b, k))
    return None


def observe(rec, p, m, O, tr, tag=""):
    """Everything observable of container p must agree with the map m: (group, name) -> payload key."""
    groups = sorted({k[0] for k in m})
    try:
        g = p.groups()
        rec.expect(sorted(g) == groups and len(g) == len(set(g)), tag + "groups", f"groups() = {g}, stored {groups}", tr)
        tree = p.tree(return_str=False)
        want = {gr: sorted(k[1] for k in m if k[0] == gr) for gr in groups}
        rec.expect({a: sorted(b) for a, b in tree.items()} == want, tag + "tree", f"tree() = {tree}, stored {want}", tr)
        s = p.tree()
        lines = [ln for ln in s.split("\n") if ln]
        wl = sorted([f"({gr})" for gr in want] + [f"  |--{n}" for gr in want for n in want[gr]])
        rec.expect(sorted(lines) == wl, tag + "treestr", f"{s!r}", tr)
        for gr in groups:
            sp = p.spectra(gr)
            rec.expect(sorted(sp) == want[gr], tag + "spectra", f"spectra({gr}) = {sp}, stored {want[gr]}", tr)
            allu = p.get_pspec(gr)
            if rec.expect(len(allu) == len(want[gr]), tag + "getall-count", f"{len(allu)} objects for {want[gr]}", tr):
                for nme, u in zip(sp, allu):
                    if (gr, nme) in m:
                        d = same_uvp(u, O[m[(gr, nme)]])
                        rec.expect(d is None, tag + "getall", f"{gr}/{nme}: {d}", tr)
            for nme in want[gr]:
                u = p.get_pspec(gr, nme)
                d = same_uvp(u, O[m[(gr, nme)]])
                rec.expect(d is None, tag + "get", f"{gr}/{nme} should hold {m[(gr, nme)]}: {d}", tr)
            for miss in ("nope", "a ", "b_x"):
                if (gr, miss) not in m:
                    rec.expect(_keyerr(p.get_pspec, gr, miss), tag + "missing", f"get {gr}/{miss} did not raise KeyError", tr)
        for gr in ("header", "zz") if "header" not in groups else ("zz",):
            if gr == "zz":
                rec.expect(_keyerr(p.get_pspec, gr) and _keyerr(p.spectra, gr), tag + "missing-group", "absent group did not raise KeyError", tr)
    except Exception as e:  # noqa: BLE001
        import traceback

        rec.fail(tag + "observe:" + type(e).__name__, f"{e} {traceback.format_exc()[-800:]}", tr)


def _keyerr(fn, *a):
    try:
        fn(*a)
    except KeyError:
        return True
    except Exception:  # noqa: BLE001
        return False
    return False
