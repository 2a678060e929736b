"""C13 - any sequence of select / average / fold / store / split-and-combine does what the algebra of spectra says."""

import copy
import os

import numpy as np

from mc import algebra as A
from mc import build as B
from mc import pscutil
from mc import table as T

PID = "C13"
LEVEL = "model_checking"
RULE = (
    "All sequences, up to the depth bound, over an alphabet of 16 operations (selections by window, polarization pair, "
    "baseline-pair, baseline, time; folding; averaging over times or baseline-pairs with each weighting; writing and reading back, "
    "whole or in part; storing in a container; splitting along each axis and combining), from several kinds of object. After "
    "every step the whole label-keyed content, counters and labels of the real object are compared with the algebraic model, and "
    "the object the step started from is checked to be unchanged. States are distinct contents; transitions are operations."
)
ASSUMPTIONS = ["three baseline-pairs x two or three times x two windows x two polarization pairs", "sequences of at most 3 operations (thorough: 4)"]

BL = [((1, 2), (1, 2)), ((1, 2), (2, 3)), ((4, 5), (1, 2))]
CFG = {
    "full": dict(blps=BL, tps=[(0, 0), (1, 3)], spws=[(0, 4, 4), (10, 5, 6)], pols=[(-5, -5), (-6, -6)], cov=True, stats=["e", "P_N"], omega=True, cosmo=False),
    "exact": dict(blps=BL[:2], tps=[(0, 0), (1, 2)], spws=[(0, 5, 5), (10, 4, 4)], pols=[(-5, -5), (-6, -6)], exact=True, stats=["e"], cosmo=False),
    "tb": dict(blps=BL, tps=[(0, 1), (2, 2)], order="tb", spws=[(0, 4, 6), (20, 6, 5)], pols=[(1, 1), (1, 2)], cosmo=False),
    "three": dict(blps=BL[:2], tps=[(0, 0), (1, 2), (3, 3)], spws=[(0, 3, 3), (5, 5, 5), (15, 4, 4)], pols=[(-5, -5)], win=False, cov=True, stats=["e"], cosmo=False),
    "bare": dict(rows=[(BL[0], 0, 0), (BL[0], 1, 1), (BL[1], 0, 0), (BL[1], 1, 1), (BL[2], 0, 0), (BL[2], 1, 1)], spws=[(0, 6, 6), (10, 5, 5)], pols=[(-6, -6), (-5, -5)], win=False, cosmo=False),
}
OPS = (
    "spw:last", "pol:last", "blp:ends", "bl:first", "time:first",
    "fold", "avgt", "avgt:e", "avgb", "avgb:e", "avgb:part",
    "file", "file:part", "container", "split:spws", "split:rows", "split:pols", "split:times",
)


def tasks(tier, seed):
    depth = 3 if tier == "quick" else 4
    if tier == "quick":
        return [dict(cfg=c, first=[o], depth=depth) for c in CFG for o in OPS]
    return [dict(cfg=c, first=[o, p], depth=depth) for c in CFG for o in OPS for p in OPS]


def start(name):
    u = B.uvp(**CFG[name])
    for s in getattr(u, "stats_array", {}):
        for i in range(u.Nspws):
            u.stats_array[s][i] = u.stats_array[s][i].real + 0j
    return u


def spws(v):
    return sorted({k[0] for k in v})


def pols(v):
    return list(dict.fromkeys(k[1] for k in v))


def blps(v):
    return list(dict.fromkeys(k[2] for k in v))


def times(v):
    return sorted({float(c["ta"]) for c in v.values()})


def near(t):
    return lambda c: abs(c["ta"] - t) < 1e-7


def drop_stats(v, keep):
    return {k: {f: x for f, x in c.items() if not f.startswith("stat:") or f[5:] in keep} for k, c in v.items()}


def has(v, f):
    return f in next(iter(v.values()))


def step(u, v, op, scratch):
    """(new object, new view) or None when the operation does not apply."""
    from hera_pspec import uvpspec
    from hera_pspec.container import PSpecContainer
    from hera_pspec.uvpspec import combine_uvpspec, recursive_combine_uvpspec

    kind, _, arg = op.partition(":")
    ss, ps, bs, ts = spws(v), pols(v), blps(v), times(v)
    exact = u.exact_windows
    if kind == "spw":
        if len(ss) < 2:
            return None
        n = [sorted(ss, key=lambda s: s[0]).index(ss[-1])]
        order = [k for k in dict.fromkeys(k[0] for k in v)]
        w = u.select(spws=[len(order) - 1], inplace=False)
        return w, A.select(v, spws=[order[-1]])
    if kind == "pol":
        if len(ps) < 2:
            return None
        return u.select(polpairs=[tuple(ps[-1])], inplace=False), A.select(v, pols=[ps[-1]])
    if kind == "blp":
        if len(bs) < 2:
            return None
        keep = {bs[0], bs[-1]} if len(bs) > 2 else {bs[-1]}
        return u.select(blpairs=[B.ants_to_blp(b) for b in sorted(keep)], inplace=False), A.select(v, rows=lambda r: r[0] in keep)
    if kind == "bl":
        bl = bs[-1][0]
        return u.select(bls=[bl], only_pairs_in_bls=False, inplace=False), A.select(v, rows=lambda r: bl in r[0])
    if kind == "time":
        if len(ts) < 2:
            return None
        t = ts[0]
        return u.select(times=[t], inplace=False), {k: c for k, c in v.items() if near(t)(c)}
    if kind == "fold":
        w = copy.deepcopy(u)
        if u.folded:
            try:
                w.fold_spectra()
            except AssertionError:
                return w, v
            raise RuntimeError("a second fold was accepted")
        w.fold_spectra()
        return w, A.fold(v)
    if kind in ("avgt", "avgb"):
        groups = None
        if kind == "avgb":
            groups = [bs] if arg != "part" else [bs[1:]]
            if len(bs) < 2:
                return None
            per = {b: {k[3:] for k in v if k[2] == b} for b in bs}
            if len({frozenset(x) for x in per.values()}) > 1:
                return None
            if exact and arg == "part":
                return None
        ew = "e" if arg == "e" else None
        if ew and not has(v, "stat:e"):
            return None
        want = A.average(v, groups, None, kind == "avgt", ["P_N"] if ew and has(v, "stat:P_N") else [], ew)
        want = drop_stats(want, ["e", "P_N"] if ew else [])
        w = u.average_spectra(
            blpair_groups=None if groups is None else [[B.ants_to_blp(b) for b in g] for g in groups], time_avg=kind == "avgt",
            error_field=["P_N"] if ew and has(v, "stat:P_N") else None, error_weights=ew, inplace=False,
        )
        return w, want
    if kind == "file":
        path = os.path.join(scratch, "f.h5")
        u.write_hdf5(path, overwrite=True)
        w = uvpspec.UVPSpec()
        if arg == "part":
            w.read_hdf5(path, blpairs=[B.ants_to_blp(bs[0])], polpairs=[tuple(ps[0])])
            return w, A.select(v, pols=[ps[0]], rows=lambda r: r[0] == bs[0])
        w.read_hdf5(path)
        return w, v
    if kind == "container":
        path = os.path.join(scratch, "c.h5")
        if os.path.exists(path):
            os.remove(path)
        p = PSpecContainer(path, mode="rw", keep_open=False)
        p.set_pspec("g", "n", u)
        return p.get_pspec("g", "n"), v
    if kind == "split":
        if arg == "spws":
            n = len(ss)
            parts = [u.select(spws=[i], inplace=False) for i in range(n)]
        elif arg == "pols":
            parts = [u.select(polpairs=[tuple(p)], inplace=False) for p in ps]
        elif arg == "rows":
            parts = [u.select(blpairs=[B.ants_to_blp(b)], inplace=False) for b in bs]
        else:
            parts = [u.select(times=[t], inplace=False) for t in ts]
        if len(parts) < 2:
            return None
        f = recursive_combine_uvpspec if arg == "spws" else lambda x: combine_uvpspec(x, verbose=False)
        return f(parts[::-1]), v
    raise KeyError(op)


def agree(rec, w, want, tr, op):
    rec.trace()
    ok, got = rec.attempt(f"view:{op}", A.view, w, trace=tr)
    if not ok:
        return False
    d = A.close(got, want, rtol=1e-9)
    rec.expect(d is None, f"{op}:{d and d[0]}", d and d[1], tr)
    for x, det in A.counts(w, want):
        rec.expect(False, f"{op}:meta:{x}", det, tr)
    rec.attempt(f"{op}:check", w.check, trace=tr)
    return d is None


def run(task, rec):
    scratch = pscutil.fresh()
    u = start(task["cfg"])
    v = A.view(u)
    n = 0

    def explore(u, v, done, depth):
        nonlocal n
        for op in OPS if len(done) >= len(task["first"]) else [task["first"][len(done)]]:
            tr = dict(cfg=task["cfg"], ops=done + [op])
            t0 = T.table(u) if depth > 1 or len(done) < 2 else None
            ok, r = rec.attempt(f"{op}", step, u, v, op, scratch, trace=tr)
            if not ok or r is None:
                continue
            rec.step()
            w, want = r
            good = agree(rec, w, want, tr, op)
            if t0 is not None:
                rec.expect(T.diff(T.table(u), t0) is None, f"{op}:input", "the starting object was changed", tr)
            n += 1
            rec.state((task["cfg"], w.folded, sorted((repr(k[:3]), round(float(k[3]), 4), round(float(np.abs(c["data"]).sum()), 5)) for k, c in want.items())))
            rec.outcome((op, len(want), w.folded))
            if depth > 1 and good:
                explore(w, want, done + [op], depth - 1)

    explore(u, v, [], task["depth"])
    rec.sample(f"{task['cfg']} {task['first']}: {n} operations applied")
