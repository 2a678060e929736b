"""C40 - files in the formats of earlier versions are read as the same spectra."""

import itertools
import os
import shutil
import warnings

import h5py
import numpy as np

from mc import build as B
from mc import table as T
from mc.checks.c08 import P3
from mc.pscutil import fresh

PID = "C40"
LEVEL = "model_checking"
RULE = (
    "Every subset of the differences between the present and earlier file formats (polarizations instead of pairs, rows counted as Nblpairts, no record of "
    "exact windows, a single channel width, text as bytes, discontinued covariances) is applied to files of several synthetic objects; each file is read in "
    "full, metadata only and with every kind of selection and every pair of kinds, into a new object and into one that held something else, as a single file, "
    "from a container (with and without an old header) and by averaging/selecting afterwards, and compared attribute by attribute with the same "
    "read of the present format. Written back, the file must have the present format. States are distinct (format, object) files; transitions reads."
)
ASSUMPTIONS = ["partial reads of the present format are the subject of C07", "earlier formats are those the reader documents"]

OBJ = {
    "plain": dict(blps=P3, tps=[(0, 1), (1, 2), (2, 4)], order="tb", spws=[(3, 5, 5), (0, 6, 6)], pols=[(-6, -6), (-5, -5)], win=True, stats=["a"]),
    "ragged": dict(rows=[(P3[2], 2, 2), (P3[0], 0, 0), (P3[1], 1, 1), (P3[0], 2, 2), (P3[2], 0, 1), (P3[1], 0, 0)], blps=P3, spws=[(10, 5, 5), (0, 4, 3)], pols=[(-5, -5), (1, 1), (-6, -6)], win=False, omega=True),
    "folded": dict(blps=P3[:2], tps=[(0, 0), (1, 1)], spws=[(0, 6, 6)], pols=[(-5, -5)], folded=True, cov=True),
    "one": dict(blps=P3[:1], tps=[(0, 0)], spws=[(0, 3, 3)], pols=[(1, 1)], win=False, stats=["b_c"]),
}
FORMATS = ("pol", "rows", "noexact", "width", "bytes", "cov")


def tasks(tier, seed):
    subs = [s for k in range(len(FORMATS) + 1) for s in itertools.combinations(FORMATS, k)]
    out = []
    for n in OBJ:
        ss = subs if tier == "thorough" else [s for s in subs if len(s) in (0, 1, 2, len(FORMATS))]
        out += [dict(obj=n, subs=[list(x) for x in ss[i::3]]) for i in range(3)]
    return out + [dict(obj=n, container=1) for n in OBJ]


def age(g, fmt):
    """Turn a group in the present format into one of an earlier version."""
    a = g.attrs
    if "pol" in fmt:
        pp = [int(x) for x in a["polpair_array"]]
        inv = {B.pp_int((p, p)): p for p in range(-8, 5) if p}
        a["pol_array"] = np.array([inv[x] for x in pp])
        del a["polpair_array"]
    if "rows" in fmt:
        a["Nblpairts"] = a["Nbltpairs"]
        a["Ntimes"] = len(np.unique(g["time_avg_array"][:]))
        del a["Nbltpairs"], a["Ntpairs"]
    if "noexact" in fmt:
        del a["exact_windows"]
    if "width" in fmt:
        w = float(np.ravel(a["channel_width"])[0])
        del a["channel_width"]
        a["channel_width"] = w
    if "cov" in fmt:
        n = 0
        while f"data_spw{n}" in g:
            for k in (f"cov_real_spw{n}", f"cov_imag_spw{n}"):
                if k in g:
                    del g[k]
            d = g[f"data_spw{n}"]
            g.create_dataset(f"cov_array_spw{n}", data=np.ones((d.shape[0], d.shape[1], d.shape[1], d.shape[2])))
            n += 1
    if "bytes" in fmt:
        for k, v in list(a.items()):
            if isinstance(v, str):
                del a[k]
                a[k] = np.bytes_(v.encode())


def present(u, path, fmt):
    """The file an object leaves, and the same in an earlier format."""
    u.write_hdf5(path + ".new", overwrite=True)
    with h5py.File(path + ".new", "a") as f:
        if "cov" in fmt:
            for k in [k for k in f if k.startswith("cov_")]:
                del f[k]
    shutil.copy(path + ".new", path + ".old")
    with h5py.File(path + ".old", "a") as f:
        age(f, fmt)


def selections(c, u):
    """Every kind of selection, and every pair of kinds that can be given together."""
    rows = T.row_keys(u)
    blps = list(dict.fromkeys(r[0] for r in rows))
    bls = sorted({b for p in blps for b in p})
    kinds = {
        "spws": [dict(spws=[i]) for i in range(len(c["spws"]))],
        "blpairs": [dict(blpairs=[blps[-1]]), dict(blpairs=[B.ants_to_blp(b) for b in blps[:2]])],
        "bls": [dict(bls=[bls[0]]), dict(bls=list(blps[-1]), only_pairs_in_bls=True)],
        "times": [dict(times=np.unique(u.time_avg_array)[-1:])],
        "lsts": [dict(lsts=np.unique(u.lst_avg_array)[:1])],
        "polpairs": [dict(polpairs=[int(u.polpair_array[-1])])],
    }
    out = [{}]
    for a in kinds.values():
        out += a
    for a, b in itertools.combinations(kinds, 2):
        if {a, b} != {"times", "lsts"}:
            out += [dict(x, **y) for x in kinds[a][:1] for y in kinds[b][:1]]
    return out


def same(rec, got, want, sig, tr):
    d = T.attr_diff(T.attrs(got), T.attrs(want))
    rec.expect(d is None, f"{sig}:{d and d[0]}", d and d[1], tr)


def reading(fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {e}"
    return None


def run(task, rec):
    from hera_pspec import uvpspec

    c = dict(OBJ[task["obj"]], cosmo=False)
    root = fresh()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if "container" in task:
                return containers(rec, task, c, root)
            other = B.uvp(blps=P3[:1], tps=[(0, 0)], spws=[(0, 4, 4)], pols=[(-7, -7)], stats=["zz"], cosmo=False)
            for fmt in task["subs"]:
                u = B.uvp(**c)
                path = os.path.join(root, "u")
                present(u, path, fmt)
                rec.state((task["obj"], fmt))
                held = uvpspec.UVPSpec()
                for meta in (False, True):
                    for sel in selections(c, u):
                        tr = dict(obj=task["obj"], format=fmt, selection=str(sel), just_meta=meta)
                        new, old = uvpspec.UVPSpec(), uvpspec.UVPSpec()
                        e1 = reading(new.read_hdf5, path + ".new", just_meta=meta, **sel)
                        e2 = reading(old.read_hdf5, path + ".old", just_meta=meta, **sel)
                        rec.step(2)
                        if not rec.expect((e1 is None) == (e2 is None), "refusal", f"present format {e1}, earlier format {e2}", tr) or e1:
                            continue
                        rec.trace()
                        same(rec, old, new, "read", tr)
                        # an object that held something else
                        for k in other._all_params:
                            if hasattr(other, k):
                                setattr(held, k, getattr(other, k))
                        rec.step()
                        if rec.expect(reading(held.read_hdf5, path + ".old", just_meta=meta, **sel) is None, "held", "", tr):
                            same(rec, held, new, "held", tr)
                        if meta:
                            continue
                        # in use: checked, written back, selected from
                        rec.expect(old == new, "equal", "the two compare unequal", tr)
                        ok, _ = rec.attempt("check", old.check, trace=tr)
                        if len(sel) < 2:
                            back = path + ".back"
                            ok, _ = rec.attempt("write", old.write_hdf5, back, overwrite=True, trace=tr)
                            new.write_hdf5(path + ".ref", overwrite=True)
                            rec.step(2)
                            if ok:
                                with h5py.File(back, "r") as f, h5py.File(path + ".ref", "r") as g:
                                    for x, y, w in ((f.attrs, g.attrs, "attributes"), (f, g, "datasets")):
                                        rec.expect(sorted(x) == sorted(y), f"written:{w}", f"{sorted(set(x) ^ set(y))}", tr)
                                    rec.expect(all(np.array_equal(np.asarray(f.attrs[k]), np.asarray(g.attrs[k])) for k in g.attrs if k in f.attrs), "written:values", "", tr)
                            av = [x.average_spectra(time_avg=True, inplace=False) for x in (old, new)]
                            rec.step(2)
                            same(rec, av[0], av[1], "averaged", tr)
                rec.outcome((task["obj"], fmt))
                for e in (".new", ".old", ".back", ".ref"):
                    if os.path.exists(path + e):
                        os.remove(path + e)
                if "cov" in fmt or "pol" in fmt:
                    present(u, path, fmt)
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        uvpspec.UVPSpec().read_hdf5(path + ".old")
                    rec.step()
                    text = " ".join(str(x.message) for x in w)
                    rec.expect("cov" not in fmt or "cov_array" in text, "warned:cov", text, dict(format=fmt))
                    rec.expect("pol" not in fmt or "pol_array" in text, "warned:pol", text, dict(format=fmt))
            rec.sample(task["subs"][:2])
    finally:
        shutil.rmtree(root)


def containers(rec, task, c, root):
    """Old groups, next to present ones, in a container with an old header."""
    from hera_pspec import container

    u = B.uvp(**c)
    for n, (fmt, header, tag) in enumerate(itertools.product([FORMATS, FORMATS[:1], FORMATS[1:2], ("bytes",), ()], ("none", "git", "version", "missing"), (False, True))):
        tr = dict(obj=task["obj"], format=list(fmt), header=header, bytes_tag=tag)
        f = os.path.join(root, f"c{n}.h5")
        p = container.PSpecContainer(f, mode="rw", keep_open=False)
        p.set_pspec("g", "x", u)
        p.set_pspec("g", "y", u)
        with h5py.File(f, "a") as h:
            for nme in ("x", "y"):
                if "cov" in fmt:
                    for k in [k for k in h["g"][nme] if k.startswith("cov_")]:
                        del h["g"][nme][k]
            age(h["g/x"], fmt)
            if tag:
                h["g/x"].attrs["pspec_type"] = np.bytes_(b"UVPSpec")
            if header == "git":
                del h["header"].attrs["hera_pspec.version"]
                h["header"].attrs["hera_pspec.git_hash"] = "abc"
            elif header == "version":
                h["header"].attrs["hera_pspec.version"] = "0.0.1"
            elif header == "missing":
                del h["header"]
        rec.state(tr)
        for mode in ("r", "rw"):
            q = container.PSpecContainer(f, mode=mode, keep_open=False)
            ok, tree = rec.attempt("tree", q.tree, return_str=False, trace=tr)
            rec.step(2)
            rec.expect(ok and {a: sorted(b) for a, b in tree.items()} == {"g": ["x", "y"]}, "container:tree", tree, tr)
            for kw in ({}, dict(just_meta=True), dict(polpairs=[int(u.polpair_array[0])]), dict(blpairs=[T.row_keys(u)[0][0]])):
                ok, a = rec.attempt("get", q.get_pspec, "g", "x", trace=tr, **kw)
                rec.step()
                if ok:
                    same(rec, a, q.get_pspec("g", "y", **kw), "container", tr)
            ok, both = rec.attempt("getall", q.get_pspec, "g", trace=tr)
            rec.step()
            rec.expect(ok and len(both) == 2, "container:all", "", tr)
        # stored again, it is in the present format
        a = q.get_pspec("g", "x")
        ok, _ = rec.attempt("set", q.set_pspec, "g", "x", a, overwrite=True, trace=tr)
        rec.step()
        with h5py.File(f, "r") as h:
            rec.expect(sorted(h["g/x"].attrs) == sorted(h["g/y"].attrs) and sorted(h["g/x"]) == sorted(h["g/y"]), "container:stored", f"{sorted(set(h['g/x'].attrs) ^ set(h['g/y'].attrs))}", tr)
        rec.trace()
        rec.outcome(tr)
        os.remove(f)
