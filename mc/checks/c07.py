"""C07 - a partial or metadata-only read equals a full read followed by the same selection."""

import itertools
import os
import shutil

import numpy as np

from mc import build as B
from mc import table as T
from mc.checks.c06 import rpar
from mc.checks.c08 import BL, P3, filt, subsets
from mc.pscutil import fresh

PID = "C07"
LEVEL = "model_checking"
RULE = (
    "Each synthetic object is stored once; then every combination of non-empty subsets of windows, baseline-pairs, times "
    "(or LSTs) and polarisation-pairs, and every subset of baselines under both pairing rules, is read back three ways - "
    "partial read, metadata-only partial read, full read then select - and all documented attributes and labelled cells "
    "of the three are compared with each other and with the relational model. States are distinct results, transitions reads."
)
ASSUMPTIONS = ["objects are bounded: <=3 windows, 3 baseline-pairs, <=4 time pairs, <=3 polarisation pairs"]

CONFIGS = {
    "full": dict(blps=P3, tps=[(0, 1), (1, 2), (2, 4)], order="tb", spws=[(3, 5, 5), (0, 6, 6)], pols=[(-6, -6), (1, 2), (-5, -5)], stats=["a", "b_c"], cov=True, omega=True, rp=True),
    "exact": dict(blps=P3, tps=[(0, 2), (1, 1)], order="bt", spws=[(0, 4, 5), (10, 3, 3), (20, 4, 3)], pols=[(-5, -5), (-6, -6)], exact=True, stats=["x"]),
    "ragged": dict(
        rows=[(P3[2], 2, 2), (P3[0], 0, 0), (P3[1], 1, 1), (P3[0], 2, 2), (P3[2], 0, 0), (P3[1], 0, 0)],
        blps=P3, spws=[(10, 5, 5), (0, 6, 6)], pols=[(-5, -5), (-6, -5), (-6, -6)], win=False, omega=True, rp=True,
    ),
    "wide": dict(blps=P3[:2], tps=[(0, 0), (1, 1), (2, 2)], spws=[(0, 3, 3)], pols=[(-5, -5), (-6, -6), (1, 2), (2, 2)], cov=True, stats=["a"], rp=True),
    "wide-exact": dict(blps=P3[:2], tps=[(0, 0), (1, 1), (2, 2)], spws=[(0, 3, 3)], pols=[(-5, -5), (-6, -6), (1, 2), (2, 2)], exact=True, stats=["a"]),
    "folded": dict(blps=P3[:2], tps=[(0, 0), (1, 1)], spws=[(0, 6, 6), (10, 5, 5)], pols=[(-5, -5), (-6, -6)], folded=True, cov=True),
}


def make(name):
    c = dict(CONFIGS[name])
    if c.pop("rp", False):
        c["r_params"] = rpar(c)
    c["cosmo"] = False
    u = B.uvp(**c)
    return c, u


def tasks(tier, seed):
    out = []
    for n, c in CONFIGS.items():
        for s in [None] + list(subsets(len(c["spws"]))):
            for p in [None] + list(subsets(len(c["pols"]))):
                out.append({"cfg": n, "spws": s, "pols": p, "tier": tier})
    return out


def run(task, rec):
    from hera_pspec import uvpspec

    c, u = make(task["cfg"])
    t = T.table(u)
    root = fresh()
    path = os.path.join(root, "u.h5")
    u.write_hdf5(path)
    spws, pols = [tuple(s) for s in c["spws"]], [tuple(p) for p in c["pols"]]
    rows = T.row_keys(u)
    blps = list(dict.fromkeys(r[0] for r in rows))
    tavg = list(dict.fromkeys((r[1] + r[2]) / 2 for r in rows))
    bls = sorted({b for p in blps for b in p})
    rp = u.get_r_params()
    reqs = []
    for bs, ts in itertools.product([None] + list(subsets(len(blps))), [None] + list(subsets(len(tavg)))):
        reqs.append((bs, None, False, ts))
    if task["tier"] == "thorough" or task["pols"] in (None, [0], [1, 2]):
        for bb, both, bs in itertools.product(subsets(len(bls)), [False, True], [None, [0]]):
            reqs.append((bs, bb, both, None))
    for n, (bs, bb, both, ts) in enumerate(reqs):
        keep = set()
        for r in rows:
            ok = bs is None and bb is None
            if bb is not None:
                hit = [b in [bls[i] for i in bb] for b in r[0]]
                ok = ok or (all(hit) if both else any(hit))
            if bs is not None:
                ok = ok or blps.index(r[0]) in bs
            if ok and (ts is None or tavg.index((r[1] + r[2]) / 2) in ts):
                keep.add(r)
        kw = {}
        if task["spws"] is not None:
            kw["spws"] = list(task["spws"])
        if task["pols"] is not None:
            kw["polpairs"] = [pols[i] for i in task["pols"]]
        if bs is not None:
            kw["blpairs"] = [blps[i] for i in bs]
        if bb is not None:
            kw["bls"] = [bls[i] for i in bb]
            kw["only_pairs_in_bls"] = both
        if ts is not None:
            if n % 2:
                kw["times"] = [B.jd(tavg[i]) for i in ts]
            else:
                kw["lsts"] = [B.lst_of(B.jd(tavg[i])) for i in ts]
        tr = repr(kw)
        part, meta, sel = uvpspec.UVPSpec(), uvpspec.UVPSpec(), uvpspec.UVPSpec()
        rec.step(3)
        rec.trace()
        if not keep:
            rec.expect(rec.raises(part.read_hdf5, path, **kw), "empty-accepted", "a partial read matching nothing did not raise", tr)
            rec.expect(rec.raises(meta.read_hdf5, path, just_meta=True, **kw), "empty-accepted-meta", "a metadata read matching nothing did not raise", tr)
            continue
        ok1, _ = rec.attempt("partial-read", part.read_hdf5, path, trace=tr, **kw)
        ok2, _ = rec.attempt("meta-read", meta.read_hdf5, path, just_meta=True, trace=tr, **kw)
        ok3, _ = rec.attempt("full-read", sel.read_hdf5, path, trace=tr)
        if ok3 and kw:
            ok3, _ = rec.attempt("then-select", sel.select, trace=tr, **kw)
        if not (ok1 and ok2 and ok3):
            continue
        want = filt(t, None if task["spws"] is None else [spws[i] for i in task["spws"]], keep, None if task["pols"] is None else [pols[i] for i in task["pols"]])
        a, m, s = T.attrs(part), T.attrs(meta), T.attrs(sel)
        d = T.attr_diff(a, s)
        rec.expect(d is None, f"partial:{d[0] if d else ''}", f"partial read differs from full read + select: {d}", tr)
        d = T.attr_diff(m, {k: v for k, v in s.items() if k not in T.HEAVY})
        rec.expect(d is None, f"meta:{d[0] if d else ''}", f"metadata-only read differs from full read + select: {d}", tr)
        for what, det in T.wellformed(part):
            rec.expect(False, f"metadata:{what}", det, tr)
        got = T.table(part)
        d = T.diff(got, want)
        rec.expect(d is None, f"cells:{d[0] if d else ''}", d, tr)
        rec.state(T.canon(got))
        if rp:
            pn = {-5: "xx", -6: "yy", 1: "pI", 2: "pQ"}
            used = {b + (pn[p],) for k in want for b, p in zip(k[2], k[1])}
            rec.expect(part.get_r_params() == {k: v for k, v in rp.items() if k in used}, "r_params", "weighting parameters kept do not match the spectra kept", tr)
    rec.sample({"cfg": task["cfg"], "spws": task["spws"], "pols": task["pols"], "requests": len(reqs)})
    shutil.rmtree(root, ignore_errors=True)
