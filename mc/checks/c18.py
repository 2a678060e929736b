"""C18 - common selection keeps exactly the shared labels; subtraction pairs equal labels."""

import copy
import itertools

import numpy as np

from mc import algebra as A
from mc import build as B
from mc import table as T

PID = "C18"
LEVEL = "model_checking"
RULE = (
    "All ordered pairs (and triples of a sub-family) of fourteen small objects that differ in windows, polarization pairs, baseline-pairs, times, row "
    "order and raggedness x all 2^5 settings of which axes to homogenise x {copy, in place}: the kept cells are compared with the "
    "set intersection evaluated on label-keyed tables, an empty intersection must be refused and change nothing. All ordered pairs "
    "x {statistics} x {folded} x {zero samples} x {covariances} x {plain, exact windows} for subtraction: each output cell must be the difference of the two cells with the "
    "same window, polarization pair, baseline-pair and LST. States are distinct result tables; transitions are calls."
)
ASSUMPTIONS = ["at most two windows, two polarization pairs, three baseline-pairs and three times per object", "LSTs to be matched are equal to the last bit (the documented matching)"]

BL = [((1, 2), (1, 2)), ((1, 2), (2, 3)), ((4, 5), (1, 2))]
S = [(0, 4, 4), (10, 3, 5), (20, 4, 4)]
P = [(-5, -5), (-6, -6), (1, 2)]
TP = [(0, 0), (1, 3), (5, 5), (6, 8)]
CFG = {
    "base": dict(blps=[0, 1], tps=[0, 1, 2], spws=[0, 1], pols=[0, 1]),
    "tb": dict(blps=[0, 1], tps=[0, 1, 2], spws=[0, 1], pols=[0, 1], order="tb"),
    "rev": dict(blps=[1, 0], tps=[2, 1, 0], spws=[1, 0], pols=[1, 0]),
    "pol": dict(blps=[0, 1], tps=[0, 1, 2], spws=[0, 1], pols=[1, 2]),
    "pol1": dict(blps=[0, 1], tps=[0, 1, 2], spws=[0, 1], pols=[0]),
    "spw": dict(blps=[0, 1], tps=[0, 1, 2], spws=[2, 1], pols=[0, 1]),
    "bl": dict(blps=[1, 2], tps=[0, 1, 2], spws=[0, 1], pols=[0, 1]),
    "time": dict(blps=[0, 1], tps=[1, 2, 3], spws=[0, 1], pols=[0, 1]),
    "all": dict(blps=[2, 1], tps=[3, 1], spws=[1, 2], pols=[2, 1], order="tb"),
    "none": dict(blps=[2], tps=[3], spws=[2], pols=[2]),
    "ragA": dict(rows=[(0, 0), (1, 1)], spws=[0], pols=[0]),
    "ragB": dict(rows=[(0, 1), (1, 0)], spws=[0], pols=[0]),
    "ragC": dict(rows=[(0, 1), (1, 0), (0, 0), (1, 1)], spws=[0], pols=[0]),
    "ragD": dict(rows=[(1, 1), (0, 2), (0, 0), (2, 1), (1, 0)], spws=[0, 1], pols=[1, 0]),
}
NAMES = list(CFG)


def make(name, salt=0, stats=(), cov=False, zero=0, exact=False):
    c = CFG[name]
    kw = dict(spws=[S[i] for i in c["spws"]], pols=[P[i] for i in c["pols"]], order=c.get("order", "bt"), salt=salt, stats=list(stats), cov=cov, exact=exact)
    if "rows" in c:
        kw["rows"] = [(BL[b], *TP[t]) for b, t in c["rows"]]
    else:
        kw["blps"], kw["tps"] = [BL[i] for i in c["blps"]], [TP[i] for i in c["tps"]]
    u = B.uvp(**kw)
    if zero:
        for i in range(u.Nspws):
            for j, r in enumerate(T.row_keys(u)):
                if r[0] == BL[zero - 1] and (r[1] < 1 or zero == 2):
                    u.wgt_array[i][j] = 0.0
                    u.integration_array[i][j] = 0.0
                    u.nsample_array[i][j] = 0.0
    return u


_MEMO = {}


def source(*a, **k):
    key = repr((a, sorted(k.items())))
    if key not in _MEMO:
        if len(_MEMO) > 100:
            _MEMO.clear()
        u = make(*a, **k)
        _MEMO[key] = (u, T.table(u))
    return _MEMO[key]


AX = ("spws", "blpairs", "times", "polpairs", "lsts")


def common(ts, flags):
    """Cells kept in each table."""
    ax = {
        "spws": lambda k, c: k[0], "blpairs": lambda k, c: k[2], "times": lambda k, c: round(float(c["ta"]), 9),
        "polpairs": lambda k, c: k[1], "lsts": lambda k, c: float(c["lsta"]),
    }
    keep = {}
    for a in AX:
        if flags[a]:
            keep[a] = set.intersection(*[{ax[a](k, c) for k, c in t.items()} for t in ts])
            if not keep[a]:
                return None
    return [{k: c for k, c in t.items() if all(ax[a](k, c) in keep[a] for a in keep)} for t in ts]


def tasks(tier, seed):
    out = [dict(mode="common", first=n) for n in NAMES]
    out += [dict(mode="subtract", first=n) for n in NAMES]
    out += [dict(mode="three", first=n) for n in ("base", "rev", "all", "ragD")]
    return out


def do_common(rec, names, n0=0):
    from hera_pspec import uvpspec_utils as uu

    n = n0
    for bits in itertools.product((True, False), repeat=5):
        n += 1
        flags = dict(zip(AX, bits))
        inplace = n % 2 == 0
        tr = dict(objects=names, flags=flags, inplace=inplace)
        src = [source(m, salt=i) for i, m in enumerate(names)]
        us = [copy.deepcopy(s[0]) for s in src]
        want = common([s[1] for s in src], flags)
        if want is not None and any(not w for w in want):
            want = "empty"  # the axes intersect but no cell survives: may be refused
        try:
            res = uu.select_common(us, inplace=inplace, **flags)
            err = None
        except Exception as e:  # noqa: BLE001
            err = e
        rec.step()
        rec.trace()
        if want is None:
            rec.expect(err is not None, "empty:accepted", "an empty intersection was accepted", tr)
            for u, s in zip(us, src):
                rec.expect(T.diff(T.table(u), s[1]) is None, "empty:changed", "", tr)
            continue
        if want == "empty" or (flags["times"] and flags["lsts"] and err is not None):
            # selecting on times and LSTs together is refused by the object itself
            if not inplace:
                for u, s in zip(us, src):
                    rec.expect(T.diff(T.table(u), s[1]) is None, "refuse:changed", "", tr)
            continue
        if not rec.expect(err is None, "common:raised", repr(err), tr):
            continue
        outs = us if inplace else res
        rec.expect(not inplace or res is None, "inplace:returned", "", tr)
        if not rec.expect(len(outs) == len(us), "common:len", len(outs), tr):
            continue
        for i, (o, w) in enumerate(zip(outs, want)):
            d = T.diff(T.table(o), w)
            rec.expect(d is None, f"common:{d and d[0]}", f"object {i}: {d and d[1]}", tr)
            for a, b in T.wellformed(o):
                rec.expect(False, "form:" + a, b, tr)
        if not inplace:
            for u, s in zip(us, src):
                rec.expect(T.diff(T.table(u), s[1]) is None, "common:input", "an input was modified", tr)
        rec.state(("c", [sorted(map(repr, w)) for w in want]))
        rec.outcome((names, repr(flags)))
    return n


def quad(a, b):
    with np.errstate(all="ignore"):
        return np.sqrt(1.0 / (1.0 / np.asarray(a, float) ** 2 + 1.0 / np.asarray(b, float) ** 2))


def do_subtract(rec, a, b, stats, fold, zero, cov=False, exact=False):
    from hera_pspec import uvpspec_utils as uu

    tr = dict(a=a, b=b, stats=stats, folded=fold, zero=zero, cov=cov, exact=exact)
    u1, t1 = source(a, salt=0, stats=stats, zero=zero, cov=cov, exact=exact)
    u2, t2 = source(b, salt=1, stats=stats, cov=cov, exact=exact)
    u1, u2 = copy.deepcopy(u1), copy.deepcopy(u2)
    # the second object was observed on another sidereal day: other times, same LSTs
    for nm in ("time_1_array", "time_2_array", "time_avg_array"):
        setattr(u2, nm, getattr(u2, nm) + 1.0)
    if fold:
        u1.fold_spectra()
        u2.fold_spectra()
    v1, v2 = A.view(u1), A.view(u2)
    k1 = {(k[0], k[1], k[2], float(c["lsta"])): (k, c) for k, c in v1.items()}
    k2 = {(k[0], k[1], k[2], float(c["lsta"])): (k, c) for k, c in v2.items()}
    both = [k for k in k1 if k in k2]
    x1, x2 = T.table(u1), T.table(u2)
    # axis-wise intersections (what can be removed by a selection)
    ax = [set(k[i] for k in k1) & set(k[i] for k in k2) for i in range(4)]
    grid1 = [k for k in k1 if all(k[i] in ax[i] for i in range(4))]
    grid2 = [k for k in k2 if all(k[i] in ax[i] for i in range(4))]
    regular = set(grid1) == set(grid2) == set(both)
    try:
        r = uu.subtract_uvp(u1, u2)
        err = None
    except Exception as e:  # noqa: BLE001
        err, r = e, None
    rec.step()
    rec.trace()
    rec.expect(T.diff(T.table(u1), x1) is None and T.diff(T.table(u2), x2) is None, "sub:input", "an input was modified", tr)
    if not both:
        rec.expect(err is not None, "sub:accepted", "objects without a common spectrum were subtracted", tr)
        return
    if err is not None:
        rec.expect(not regular, "sub:raised", repr(err), tr)
        return
    got = A.view(r)
    kg = {(k[0], k[1], k[2], float(c["lsta"])): c for k, c in got.items()}
    if not rec.expect(set(kg) == set(both), "sub:keys", f"cells {len(kg)} want {len(both)}: {sorted(set(kg) ^ set(both), key=repr)[:2]}", tr):
        return
    ratio = {}
    for k in both:
        g, c1, c2 = kg[k], k1[k][1], k2[k][1]
        rec.expect(np.array_equal(g["data"], c1["data"] - c2["data"]), "sub:data", f"{k}: {g['data'][:3]} want {(c1['data'] - c2['data'])[:3]}", tr)
        for f in ("int", "nsmp"):
            rec.expect(np.allclose(g[f], quad(c1[f], c2[f]), rtol=1e-12), "sub:" + f, f"{k}: {g[f]} want {quad(c1[f], c2[f])}", tr)
        w = quad(c1["wgt"], c2["wgt"])
        rec.expect(np.all(np.isfinite(g["wgt"])) and np.all((g["wgt"] == 0) == (w == 0)), "sub:wgt:zero", f"{k}: {np.ravel(g['wgt'])[:4]} want {w.ravel()[:4]}", tr)
        ratio.setdefault(k[:3], []).append((g["wgt"], w))
        for f in c1:
            if f.startswith("stat:"):
                w = np.sqrt(c1[f].real ** 2 + c2[f].real ** 2) + 1j * np.sqrt(c1[f].imag ** 2 + c2[f].imag ** 2)
                rec.expect(np.allclose(g[f], w, rtol=1e-12), "sub:" + f, f"{k}: {g[f][:3]} want {w[:3]}", tr)
        for f in ("covr", "covi", "win"):
            if f in c1:
                w = np.sqrt(c1[f] ** 2 + c2[f] ** 2)
                rec.expect(g[f].shape == w.shape and np.allclose(g[f], w, rtol=1e-12), "sub:" + f, f"{k}: {np.ravel(g[f])[:3]} want {w.ravel()[:3]}", tr)
        for f in ("kperp", "kpara"):
            rec.expect(f not in c1 or np.array_equal(g[f], c1[f]), "sub:" + f, f"{k}", tr)
        for f in ("ta", "t1", "t2", "lst1", "lst2", "lsta", "lab1", "lab2", "scalar"):
            rec.expect(g[f] == c1[f], "sub:label:" + f, f"{k}: {g[f]} want {c1[f]}", tr)
    for k, xs in ratio.items():
        g, w = np.concatenate([x[0].ravel() for x in xs]), np.concatenate([x[1].ravel() for x in xs])
        if w.max() > 0:
            q = g[w > 0] / w[w > 0]
            rec.expect(np.allclose(q, q[0], rtol=1e-9), "sub:wgt:proportional", f"{k}: {q[:4]}", tr)
    rec.state(("s", sorted((repr(k), kg[k]["data"].tobytes()) for k in kg)))
    rec.outcome((a, b, fold))


def run(task, rec):
    a = task["first"]
    n = 0
    if task["mode"] == "common":
        for b in NAMES:
            n = do_common(rec, (a, b), n + 1)
    elif task["mode"] == "three":
        for b, c in itertools.product(("base", "pol", "time", "ragD"), ("tb", "all", "bl")):
            n = do_common(rec, (a, b, c), n + 1)
    else:
        for b in NAMES:
            for stats, fold, zero in itertools.product(((), ("P_N",), ("e", "P_N")), (False, True), (0, 1, 2)):
                do_subtract(rec, a, b, list(stats), fold, zero)
                if zero == 0 and (not fold or not stats):
                    do_subtract(rec, a, b, list(stats), fold, zero, cov=True)
                    do_subtract(rec, a, b, list(stats), False, zero, cov=bool(stats), exact=True)
                n += 1
    rec.sample(f"{task} -> {n} calls")
