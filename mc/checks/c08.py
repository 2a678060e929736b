"""C08 - selecting keeps exactly the requested cells, each still attached to its own labels."""

import copy
import itertools

import numpy as np

from mc import build as B
from mc import table as T

PID = "C08"
LEVEL = "model_checking"
RULE = (
    "Every non-empty subset of the windows x baseline-pairs x times (or LSTs) x polarisation-pairs of each synthetic "
    "object, every way of spelling the request, every subset of baselines under both pairing rules and unions of "
    "baseline and baseline-pair requests; each is executed on the real object and compared cell by cell with the "
    "relational selection of the label-keyed model. States are distinct resulting tables, transitions executed selections."
)
ASSUMPTIONS = ["objects are bounded: <=3 windows, <=4 baseline-pairs, <=3 time pairs, <=3 polarisation pairs"]

BL = [(1, 2), (2, 3), (3, 4)]
P3 = [(BL[0], BL[0]), (BL[0], BL[1]), (BL[1], BL[2])]
CONFIGS = {
    "bt": dict(blps=P3, tps=[(0, 0), (1, 1), (2, 2)], spws=[(0, 6, 6), (10, 5, 5), (20, 4, 6)], pols=[(-5, -5), (-6, -6), (1, 2)]),
    "tb": dict(blps=P3, tps=[(0, 1), (1, 2), (2, 4)], order="tb", spws=[(0, 5, 5), (3, 6, 6)], pols=[(-6, -6), (-5, -6), (-5, -5)], stats=["a", "b_c"], cov=True, omega=True),
    "ragged": dict(
        rows=[(P3[2], 2, 2), (P3[0], 0, 0), (P3[1], 1, 1), (P3[0], 2, 2), (P3[2], 0, 0), (P3[1], 0, 0)],
        spws=[(10, 5, 5), (0, 6, 6)],
        pols=[(-5, -5), (-6, -6)],
        stats=["a"],
    ),
    "folded": dict(blps=P3[:2], tps=[(0, 0), (1, 1)], spws=[(0, 6, 6), (10, 5, 5)], pols=[(-5, -5), (-6, -6)], folded=True, win=False, omega=True),
    "foldwin": dict(blps=P3[:2], tps=[(0, 0)], spws=[(10, 5, 5), (0, 6, 6)], pols=[(-5, -5)], folded=True, cov=True),
    # four polarizations and rows that no slice expresses: both axes need index lists
    "wide": dict(blps=P3[:2], tps=[(0, 2), (1, 1), (2, 2)], spws=[(0, 3, 3)], pols=[(-5, -5), (-6, -6), (1, 2), (2, 2)], cov=True, stats=["a"]),
    "wide-exact": dict(blps=P3[:2], tps=[(0, 0), (1, 1), (2, 2)], spws=[(0, 3, 3)], pols=[(-5, -5), (-6, -6), (1, 2), (2, 2)], exact=True),
}
STR = {-5: "xx", -6: "yy", 1: "pI", 2: "pQ"}


def subsets(n):
    for m in range(1, 2**n):
        yield [i for i in range(n) if m >> i & 1]


def tasks(tier, seed):
    out = []
    names = list(CONFIGS)
    for n in names:
        ns = len(CONFIGS[n]["spws"])
        for s in [None] + list(subsets(ns)):
            out.append({"cfg": n, "spws": s, "mode": "product"})
        out.append({"cfg": n, "mode": "bls"})
        out.append({"cfg": n, "mode": "spell"})
    if tier == "thorough":
        for n in names:
            out.append({"cfg": n, "mode": "sequence"})
    return out


def full(c):
    u = B.uvp(**c)
    t = T.table(u)
    if c.get("order") == "tb" or "rows" in c or c.get("exact"):  # weighting parameters of every visibility
        from hera_pspec import uvpspec_utils

        d = {}
        for k in t:
            for b, p in zip(k[2], k[1]):
                d[b + (STR[p],)] = {"filter_centers": [0.0], "filter_half_widths": [float(b[0])], "filter_factors": [1e-9 * p]}
        u.r_params = uvpspec_utils.compress_r_params(d)
    return u, t


def filt(t, spws=None, rows=None, pols=None):
    return {
        k: v
        for k, v in t.items()
        if (spws is None or k[0] in spws) and (pols is None or k[1] in pols) and (rows is None or k[2:] in rows)
    }


def verify(rec, sig, u, want, tr):
    """The object u must be exactly the table `want`."""
    rec.step()
    rec.trace()
    for what, det in T.wellformed(u):
        rec.expect(False, f"{sig}:metadata:{what}", det, tr)
    try:
        got = T.table(u)
    except Exception as e:  # noqa: BLE001
        rec.fail(f"{sig}:labels", f"object no longer indexable by its own labels: {type(e).__name__} {e}", tr)
        return
    rec.state(T.canon(got))
    d = T.diff(got, want)
    rec.expect(d is None, f"{sig}:cells:{d[0] if d else ''}", d, tr)
    try:
        g = T.getters(u)
    except Exception as e:  # noqa: BLE001
        rec.fail(f"{sig}:getters", f"{type(e).__name__}: {e}", tr)
        return
    rp = {b + (STR[p],): [float(b[0]), 1e-9 * p] for k in want for b, p in zip(k[2], k[1])} if rec.has_rp else {}
    ok, have = rec.attempt(f"{sig}:r_params", u.get_r_params, trace=tr)
    rec.expect(ok and {k: v["filter_half_widths"] + v["filter_factors"] for k, v in have.items()} == rp, f"{sig}:r_params", "weighting parameters kept do not match the spectra kept", tr)
    d = T.diff(g, {k: T.visible(v, u.folded) for k, v in want.items()})
    rec.expect(d is None, f"{sig}:getter:{d[0] if d else ''}", d, tr)


def run(task, rec):
    c = CONFIGS[task["cfg"]]
    u, t = full(c)
    rec.has_rp = u.r_params != ""
    before = T.canon(t)
    spws = [tuple(s) for s in c["spws"]]
    pols = [tuple(p) for p in c["pols"]]
    rows = list(dict.fromkeys(T.row_keys(u)))
    blps = list(dict.fromkeys(r[0] for r in rows))
    tavg = list(dict.fromkeys((r[1] + r[2]) / 2 for r in rows))
    rec.state(before)
    rec.sample({"config": task["cfg"], "spws": spws, "pols": pols, "blpairs": blps, "avg times": tavg})
    mode = task["mode"]
    n = 0
    if mode == "product":
        ss = task["spws"]
        bopts = [None] + list(subsets(len(blps)))
        topts = [None] + list(subsets(len(tavg)))
        popts = [None] + list(subsets(len(pols)))
        for bs, ts, ps in itertools.product(bopts, topts, popts):
            keep = [
                r
                for r in rows
                if (bs is None or blps.index(r[0]) in bs) and (ts is None or tavg.index((r[1] + r[2]) / 2) in ts)
            ]
            if not keep:
                continue  # nothing matches: an error, exercised in 'spell'
            kw = {}
            if ss is not None:
                kw["spws"] = list(ss)
            if bs is not None:
                kw["blpairs"] = [blps[i] for i in bs]
            if ts is not None:
                if n % 2:
                    kw["times"] = np.array([B.jd(tavg[i]) for i in ts])
                else:
                    kw["lsts"] = np.array([B.lst_of(B.jd(tavg[i])) for i in ts])
            if ps is not None:
                kw["polpairs"] = [pols[i] for i in ps]
            n += 1
            want = filt(t, None if ss is None else [spws[i] for i in ss], set(keep), None if ps is None else [pols[i] for i in ps])
            inplace = n % 3 == 0
            v = copy.deepcopy(u) if inplace else u
            ok, r = rec.attempt("select", v.select, inplace=inplace, trace=repr(kw), **kw)
            if not ok:
                continue
            verify(rec, "select", v if inplace else r, want, repr(kw))
        rec.expect(T.canon(T.table(u)) == before, "select:source-modified", "select(inplace=False) changed its source")
    elif mode == "bls":
        bls = sorted({b for p in blps for b in p})
        for sub in subsets(len(bls)):
            chosen = [bls[i] for i in sub]
            for both, extra, ti in itertools.product([False, True], [None] + list(range(len(blps))), [None, 0]):
                keep = set()
                for r in rows:
                    hit = [b in chosen for b in r[0]]
                    ok = (all(hit) if both else any(hit)) or (extra is not None and r[0] == blps[extra])
                    if ok and (ti is None or (r[1] + r[2]) / 2 == tavg[ti]):
                        keep.add(r)
                n += 1
                kw = dict(bls=[B.ants_to_bl(b) for b in chosen] if n % 2 else chosen, only_pairs_in_bls=both)
                if extra is not None:
                    kw["blpairs"] = [B.ants_to_blp(blps[extra])]
                if ti is not None:
                    kw["times"] = [B.jd(tavg[ti])]
                if not keep:
                    rec.step()
                    rec.expect(rec.raises(u.select, inplace=False, **kw), "select:empty-accepted", "an empty selection did not raise", repr(kw))
                    continue
                ok, r = rec.attempt("select-bls", u.select, inplace=False, trace=repr(kw), **kw)
                if ok:
                    verify(rec, "select-bls", r, filt(t, rows=keep), repr(kw))
    elif mode == "spell":
        # every spelling of windows, baseline-pairs and polarisation-pairs, in every order of the request
        rng = u.get_spw_ranges()
        for sub in subsets(len(spws)):
            for perm in itertools.permutations(sub):
                for sp in (list(perm), [rng[i] for i in perm], [np.int64(i) for i in perm]):
                    ok, r = rec.attempt("select-spw-spelling", u.select, spws=sp, inplace=False, trace=repr(sp))
                    if ok:
                        verify(rec, "select-spw", r, filt(t, spws=[spws[i] for i in sub]), repr(sp))
        for sub in subsets(len(blps)):
            for perm in itertools.permutations(sub):
                for sp in (
                    [blps[i] for i in perm],
                    [B.ants_to_blp(blps[i]) for i in perm],
                    list(np.array([B.ants_to_blp(blps[i]) for i in perm])),
                    np.array([B.ants_to_blp(blps[i]) for i in perm]),
                ):
                    ok, r = rec.attempt("select-blp-spelling", u.select, blpairs=sp, inplace=False, trace=repr(sp))
                    if ok:
                        verify(rec, "select-blp", r, filt(t, rows={r_ for r_ in rows if r_[0] in [blps[i] for i in sub]}), repr(sp))
        for sub in subsets(len(pols)):
            for perm in itertools.permutations(sub):
                forms = [[pols[i] for i in perm], [B.pp_int(pols[i]) for i in perm], [(STR[pols[i][0]], STR[pols[i][1]]) for i in perm], np.array([B.pp_int(pols[i]) for i in perm])]
                if all(pols[i][0] == pols[i][1] for i in perm):
                    forms.append([STR[pols[i][0]] for i in perm])
                for sp in forms:
                    ok, r = rec.attempt("select-pol-spelling", u.select, polpairs=sp, inplace=False, trace=repr(sp))
                    if ok:
                        verify(rec, "select-pol", r, filt(t, pols=[pols[i] for i in sub]), repr(sp))
        bad = [dict(blpairs=[((5, 6), (5, 6))]), dict(times=[B.jd(7.0)]), dict(lsts=[0.001]), dict(bls=[(5, 6)]), dict(polpairs=["pV"]), dict(spws=[7])]
        for kw in bad:
            rec.step()
            rec.expect(rec.raises(u.select, inplace=False, **kw), "select:empty-accepted", "a selection matching nothing did not raise", repr(kw))
        rec.expect(T.canon(T.table(u)) == before, "select:source-modified", "select(inplace=False) changed its source")
    else:
        # depth-3 sequences of in-place narrowing selections
        ops = []
        for i in range(len(spws)):
            ops.append(("spw", [j for j in range(len(spws)) if j != i]))
        for i in range(len(blps)):
            ops.append(("blp", [j for j in range(len(blps)) if j != i]))
        for i in range(len(tavg)):
            ops.append(("time", [j for j in range(len(tavg)) if j != i]))
        for i in range(len(pols)):
            ops.append(("pol", [j for j in range(len(pols)) if j != i]))
        for seq in itertools.product(ops, repeat=3):
            v = copy.deepcopy(u)
            want = t
            for kind, sub in seq:
                if kind == "spw":
                    have = [k for k in dict.fromkeys(k[0] for k in want)]
                    cur = [T.spw_key(v, i) for i in range(v.Nspws)]
                    keep = [spws[i] for i in sub if spws[i] in have]
                    kw = dict(spws=[cur.index(s) for s in keep if s in cur])
                    new = filt(want, spws=keep)
                elif kind == "blp":
                    kw = dict(blpairs=[blps[i] for i in sub])
                    new = filt(want, rows={r for r in rows if r[0] in kw["blpairs"]})
                elif kind == "time":
                    kw = dict(times=[B.jd(tavg[i]) for i in sub])
                    new = filt(want, rows={r for r in rows if tavg.index((r[1] + r[2]) / 2) in sub})
                else:
                    kw = dict(polpairs=[pols[i] for i in sub])
                    new = filt(want, pols=kw["polpairs"])
                if not new or (kind == "spw" and not kw["spws"]):
                    break
                ok, _ = rec.attempt("select-seq", v.select, trace=repr(seq), **kw)
                if not ok:
                    break
                want = new
                verify(rec, "select-seq", v, want, repr(seq))
