"""C11 - averaging across baseline pairs and times is the documented weighted mean, for every grouping."""

import copy
import itertools

import numpy as np

from mc import algebra as A
from mc import build as B
from mc import table as T

PID = "C11"
LEVEL = "model_checking"
RULE = (
    "For each of nine small objects: every ordered list of disjoint ordered groups of its (three) baseline-pairs, partial lists "
    "included, plus groups with repeated members, times {time average, none} x {integration, error weighting} x "
    "{error fields} x {in place, copy}; and, for fixed groupings, every baseline-pair weight vector over {0, 0.5, 1, 2, 3} with "
    "and without normalisation. Each result is compared cell by cell with the documented weighted mean evaluated on the "
    "label-keyed view of the input. States are distinct results; transitions are average_spectra calls."
)
ASSUMPTIONS = [
    "three baseline-pairs, at most three time-pairs, at most two windows and polarization pairs",
    "grouped baseline-pairs list their times in the same order (documented precondition)",
    "stored error statistics are real and non-negative, infinite or NaN",
]

BL = [((1, 2), (1, 2)), ((1, 2), (2, 3)), ((4, 5), (1, 2))]
R9 = [(b, t, t + 1) for b in BL for t in (0, 2, 4)]
WRAP = B.WRAP
CFG = {
    "full": dict(blps=BL, tps=[(0, 0), (1, 3)], spws=[(0, 4, 4), (10, 3, 5)], pols=[(-5, -5), (1, 2)], cov=True, stats=["P_N", "e"]),
    "tb": dict(blps=BL, tps=[(0, 1), (2, 2), (3, 1)], order="tb", spws=[(0, 3, 4)], pols=[(-5, -5)], stats=["P_N", "e"], omega=True),
    "folded": dict(blps=BL, tps=[(0, 0), (1, 1)], spws=[(0, 5, 5), (10, 4, 6)], pols=[(-5, -5)], cov=True, stats=["e"], folded=True),
    "exact": dict(blps=BL, tps=[(0, 0), (2, 2)], spws=[(0, 3, 3)], pols=[(-5, -5), (-6, -6)], exact=True, stats=["e"]),
    "fexact": dict(blps=BL, tps=[(0, 0), (2, 2)], spws=[(0, 6, 6)], pols=[(-5, -5)], exact=True, stats=["e"], folded=True),
    "bare": dict(blps=BL, tps=[(0, 0), (1, 1), (2, 2)], spws=[(0, 3, 3)], pols=[(-5, -5)], win=False, labels="const"),
    "zeroint": dict(blps=BL, tps=[(0, 0), (1, 1)], spws=[(0, 4, 4)], pols=[(-5, -5)], cov=True, stats=["e"]),
    "infstat": dict(blps=BL, tps=[(0, 0), (1, 1)], spws=[(0, 3, 3)], pols=[(-5, -5)], stats=["P_N", "e"]),
    "small": dict(blps=BL, tps=[(0, 0), (1, 1)], spws=[(0, 3, 3)], pols=[(-5, -5)], stats=["P_N", "e"]),
    "wrap": dict(blps=BL, tps=[(WRAP - 3, WRAP - 2), (WRAP + 1, WRAP + 2), (WRAP + 4, WRAP - 4)], spws=[(0, 3, 3)], pols=[(-5, -5)]),
    "ragged": dict(rows=[(BL[0], 0, 0), (BL[1], 1, 2), (BL[0], 1, 1), (BL[2], 5, 4), (BL[0], 2, 2), (BL[1], 4, 4)], spws=[(0, 3, 3)], pols=[(-5, -5), (-6, -6)]),
}


def make(name, variant=0):
    c = dict(CFG[name])
    fold = c.pop("folded", False)
    u = B.uvp(**c)
    for s in getattr(u, "stats_array", {}):
        for i in range(u.Nspws):
            x = u.stats_array[s][i].real.copy()
            if name == "small":
                x = x * 1e-9
            if name == "infstat":
                # all 64 patterns of {finite, inf, nan} would repeat; 16 masks enumerated by `variant`
                bad = np.inf if (variant & 1) else np.nan
                for b in range(u.Nbltpairs):
                    if (variant >> (1 + b % 3)) & 1:
                        x[b, b % x.shape[1] if s == "e" else slice(None), :] = bad
            u.stats_array[s][i] = x + 0j
    if name == "zeroint":
        for i in range(u.Nspws):
            for b in range(u.Nbltpairs):
                if (variant >> b) & 1:
                    u.integration_array[i][b] = 0.0
                    u.wgt_array[i][b] = 0.0
    if fold:
        u.fold_spectra()
    u.check()
    return u


def groupings(n=3):
    out = []
    for m in range(1, n + 1):
        for perm in itertools.permutations(range(n), m):
            for cut in itertools.product((0, 1), repeat=m - 1):
                g = [[perm[0]]]
                for x, c in zip(perm[1:], cut):
                    g.append([x]) if c else g[-1].append(x)
                out.append(g)
    return out


REPEATED = [[[0, 0, 1]], [[1, 0, 1], [2]], [[2, 2]], [[0, 1, 1, 1, 2]], [[1, 0, 0], [2, 2]]]


def tasks(tier, seed):
    out = []
    for n in CFG:
        if n in ("zeroint", "infstat"):
            k = 64 if n == "zeroint" else 16
            step = 8 if tier == "quick" else 4
            out += [dict(mode="variant", cfg=n, lo=i, hi=min(i + step, k)) for i in range(0, k, step)]
        else:
            for ta in (0, 1):
                out.append(dict(mode="groups", cfg=n, time_avg=ta))
                out.append(dict(mode="weights", cfg=n, time_avg=ta, tier=tier))
        out.append(dict(mode="refuse", cfg=n))
    return out


_MEMO = {}


def source(name, variant=0):
    if (name, variant) not in _MEMO:
        if len(_MEMO) > 8:
            _MEMO.clear()
        u = make(name, variant)
        _MEMO[(name, variant)] = (u, A.view(u), T.table(u))
    return _MEMO[(name, variant)]


def one(rec, name, variant, groups, weights, time_avg, fields, ew, normalize, inplace, form="int", method=False):
    from hera_pspec import grouping

    u0, v0, t0 = source(name, variant)
    u = copy.deepcopy(u0)
    tr = dict(cfg=name, variant=variant, groups=groups, weights=weights, time_avg=time_avg, fields=fields, error_weights=ew, normalize=normalize, inplace=inplace, form=form)
    lab = lambda g: [[BL[i] if form == "tuple" else B.ants_to_blp(BL[i]) for i in x] for x in g]  # noqa: E731
    gi = None if groups is None else lab(groups)
    wi = copy.deepcopy(weights)
    g0, w0 = copy.deepcopy(gi), copy.deepcopy(wi)
    kw = dict(blpair_groups=gi, blpair_weights=wi, time_avg=bool(time_avg), error_field=copy.deepcopy(fields), error_weights=ew, inplace=inplace)
    if method:
        ok, r = rec.attempt(f"average:{name}", u.average_spectra, trace=tr, **kw)
    else:
        ok, r = rec.attempt(f"average:{name}", grouping.average_spectra, u, trace=tr, normalize_weights=normalize, **kw)
    rec.step()
    rec.trace()
    if not ok:
        return None
    if not inplace:
        rec.expect(T.table(u) is not None and T.diff(T.table(u), t0) is None, "input-changed", "inplace=False changed its input", tr)
        rec.expect(r is not None and r is not u, "no-result", "inplace=False returned no new object", tr)
    else:
        rec.expect(r is None or r is u, "inplace-returns", str(r), tr)
        r = u
    rec.expect(gi == g0 and wi == w0, "args-mutated", f"{g0} -> {gi}; {w0} -> {wi}", tr)
    fl = [fields] if isinstance(fields, str) else list(fields or [])
    want = A.average(v0, None if groups is None else [[BL[i] for i in g] for g in groups], weights, bool(time_avg), fl, ew, normalize)
    keep = {"stat:" + f for f in fl + ([ew] if ew else [])}
    want = {k: {f: x for f, x in c.items() if not f.startswith("stat:") or f in keep} for k, c in want.items()}
    ok, got = rec.attempt(f"view:{name}", A.view, r, trace=tr)
    if not ok:
        return None
    d = A.close(got, want)
    rec.expect(d is None, f"average:{d and d[0]}", d and d[1], tr)
    for w, det in A.counts(r, want):
        rec.expect(False, "meta:" + w, det, tr)
    rec.expect(u0.history in r.history, "history", r.history[:200], tr)
    rec.expect(r.folded == u0.folded and r.exact_windows == u0.exact_windows, "flags", "", tr)
    if rec.state(("r", sorted((repr(k), round(float(np.abs(c["data"]).sum()), 6)) for k, c in got.items()))):
        rec.sample(f"{name}: groups={groups} weights={weights} time_avg={time_avg} error_weights={ew} -> {len(got)} cells")
    rec.outcome((name, len(got), sorted(repr(k) for k in got)))
    return r


def usable(name, g, time_avg):
    """Preconditions: exact windows need complete groups; ragged times need a time average to be grouped."""
    members = [x for b in g for x in b]
    if name in ("exact", "fexact") and set(members) != {0, 1, 2}:
        return False
    if name == "ragged" and not time_avg and any(len(set(b)) > 1 for b in g):
        return False
    return True


def run(task, rec):
    from hera_pspec import grouping

    name = task["cfg"]
    stats = CFG[name].get("stats", [])
    if task["mode"] == "refuse":
        u = make(name)
        t = T.table(u)
        b = [B.ants_to_blp(x) for x in BL]
        for kw in (
            dict(blpair_groups=[[b[0], b[1]]], blpair_weights=[[1.0]]),
            dict(blpair_groups=[[b[0]], [b[1]]], blpair_weights=[[1.0]]),
            dict(blpair_groups=[[b[0], b[1]]], blpair_weights=[[0.0, 0.0]]),
            dict(blpair_groups=[[b[0], b[1]]], blpair_weights=[[1.0, -2.0]]),
            dict(blpair_weights=[[1.0], [1.0], [1.0]]),
            dict(blpair_groups=[b[0], b[1]]),
            dict(error_weights="absent") if stats else dict(blpair_groups=5),
            dict(error_field=["absent"]) if stats else dict(blpair_groups=[5]),
        ):
            for ta in (False, True):
                rec.step()
                rec.expect(rec.raises(grouping.average_spectra, u, time_avg=ta, inplace=True, **kw), "accepted", f"{name} {kw} was not refused")
                rec.expect(T.diff(T.table(u), t) is None, "refused-changed", f"{kw}")
        return
    ews = [None] + (["e"] if "e" in stats else [])
    fsets = [None] + ([["e"], stats, "P_N"] if len(stats) > 1 else [["e"]] if stats else [])
    if task["mode"] == "groups":
        ta = task["time_avg"]
        n = 0
        for g in [None] + groupings() + REPEATED:
            if g is not None and not usable(name, g, ta):
                continue
            # a baseline-pair that leads two groups would label two different rows alike
            for ew in ews:
                for f in fsets:
                    n += 1
                    one(rec, name, 0, g, None, ta, f, ew, True, n % 2 == 0, "tuple" if n % 3 == 0 else "int", n % 5 == 0)
    elif task["mode"] == "weights":
        ta = task["time_avg"]
        wvals = (0, 0.5, 1, 2, 3) if task["tier"] == "thorough" else (0, 0.5, 1, 3)
        sets = [[[0, 1]], [[2, 0, 1]], [[1], [2, 0]]] + ([[[0, 1, 0], [2]], [[2, 1], [0]]] if task["tier"] == "thorough" else [])
        for g in sets:
            if not usable(name, g, ta):
                continue
            for ws in itertools.product(wvals, repeat=sum(map(len, g))):
                it = iter(ws)
                w = [[next(it) for _ in b] for b in g]
                if any(sum(b) <= 0 for b in w):
                    continue
                for norm in (True, False):
                    ew = "e" if ("e" in stats and sum(ws) % 1 == 0) else None
                    one(rec, name, 0, g, w, ta, ["e"] if stats else None, ew, norm, True)
        # relative weights: scaling every weight changes nothing
        for s in (0.1, 1 / 3, 1e-3, 7.0):
            one(rec, name, 0, None if name in ("ragged",) and not ta else [[0, 1, 2]], None if name == "ragged" and not ta else [[s, s, s]], ta, None, None, True, True)
    else:
        for var in range(task["lo"], task["hi"]):
            for g in (None, [[0, 1]], [[2, 1, 0]], [[1, 1, 0], [2]]):
                for ta in (0, 1):
                    for ew in ews:
                        for f in (stats,):
                            one(rec, name, var, g, None, ta, f, ew, True, True)
