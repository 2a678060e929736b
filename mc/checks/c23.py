"""C23 - redundant baseline-pairs: exactly the admissible pairs of redundant, unflagged, present baselines."""

import contextlib
import io
import itertools
import os
import shutil

import numpy as np

from mc import build as B
from mc import uvd as V
from mc.pscutil import fresh

PID = "C23"
LEVEL = "model_checking"
RULE = (
    "Product A: six antenna layouts x all ordered pairs of baseline sets (all, missing, reversed, few, none in common) x flagging "
    "patterns of either dataset (baselines, antennas, fractions at and around the threshold) x {auto, cross}-correlations x "
    "exclusion options. Product B: layouts x baseline sets x exclusion options x chunk sizes x hand-flagged antennas x length and angle "
    "ranges x filtering. Each answer is compared with pairs enumerated from antenna positions alone. Also: every list of up to four "
    "baselines for construct_blpairs, get_reds on all three kinds of input, the groupings of UVPSpec objects for every subset of "
    "baseline-pairs, lengths and angles over a grid of vectors and tolerances, and config_pspec_blpairs over sets of files."
)
ASSUMPTIONS = [
    "layouts whose deviations from exact redundancy are well below, and whose distances are well above, the tolerance",
    "when the two datasets hold different baselines and permutations are excluded, either order of a pair may be the one kept or dropped",
]

LAYOUT = {
    "line": ((0, 0.0, 0.0), (1, 14.6, 0.0), (2, 29.2, 0.0), (3, 43.8, 0.0)),
    "ns": ((0, 0.0, 0.0), (1, 0.0, 14.6), (2, 0.0, 29.2), (5, 14.6, 14.6)),
    "square": ((3, 0.0, 0.0), (7, 14.6, 0.0), (8, 0.0, 14.6), (11, 14.6, 14.6)),
    "hex": ((0, 0.0, 0.0), (1, 14.6, 0.0), (2, 7.3, 12.65), (4, 21.9, 12.65), (6, 14.6, 25.3)),
    "jitter": ((0, 0.0, 0.1), (1, 14.7, -0.1), (2, 29.1, 0.05), (3, 43.8, 0.15)),
    "mixed": ((0, 0.0, 0.0), (1, 14.6, 0.0), (2, 14.6 + 0.5, 14.6), (3, 40.0, -3.0)),
}
TOL = 1.0
EXCL = [dict(exclude_auto_bls=a, exclude_cross_bls=c, exclude_permutations=p) for a, c in ((0, 0), (1, 0), (0, 1)) for p in (0, 1)]
KIND = [(False, True), (True, True), (True, False)]
LENR = [(0, 1e10), (10.0, 18.0), (18.0, 35.0), (200.0, 300.0)]
DEGR = [(0, 180), (0, 30), (30, 180), (50, 100)]


def fam(layout):
    """Baseline sets of a layout."""
    ants = [a for a, _, _ in LAYOUT[layout]]
    cr = list(itertools.combinations(ants, 2))
    return {
        "all": cr + [(a, a) for a in ants],
        "rev": [(b, a) if i % 2 else (a, b) for i, (a, b) in enumerate(cr)],
        "drop": cr[1:] + [(ants[0], ants[0])],
        "few": cr[:2] + cr[-1:],
        "sub": [c for c in cr if ants[-1] not in c] + [(a, a) for a in ants[:-1]],
    }


def flagging(layout, bls, mode):
    """bl -> flagged fraction."""
    ants = [a for a, _, _ in LAYOUT[layout]]
    fl = {b: 0.0 for b in bls}
    if mode == "none":
        return fl
    if mode == "bl":
        fl[bls[0]] = 1.0
    elif mode == "ant":
        for b in bls:
            if ants[1] in b:
                fl[b] = 1.0
    elif mode == "antx":  # crosses of one antenna only: its auto stays good
        for b in bls:
            if ants[0] in b and b[0] != b[1]:
                fl[b] = 1.0
    elif mode == "part":
        for b in bls:
            if ants[2] in b:
                fl[b] = 0.75
    elif mode == "edge":  # half of the samples: at the threshold 0.5
        for b in bls:
            if ants[-1] in b:
                fl[b] = 0.5
    elif mode == "all":
        fl = {b: 1.0 for b in bls}
    return fl


MODES = [("none", "none", 0.95), ("bl", "none", 0.95), ("ant", "none", 0.95), ("none", "ant", 0.95), ("antx", "part", 0.5), ("part", "edge", 0.95), ("edge", "bl", 0.5), ("none", "all", 0.95), ("part", "ant", 0.8)]


def dataset(layout, which, mode):
    """A UVData object (2 times, 2 pols, 4 channels) and the flagged fraction of each of its baselines."""
    bls = fam(layout)[which]
    u = V.cached(bls=tuple(bls), times=(0, 1), nf=4, pols=(-5, -6), pos=LAYOUT[layout])
    fr = flagging(layout, bls, mode)
    for b, f in fr.items():
        rows = np.where((u.ant_1_array == b[0]) & (u.ant_2_array == b[1]))[0]
        assert len(rows) == 2
        if f == 1.0:
            u.flag_array[rows] = True
        elif f == 0.5:
            u.flag_array[rows[0]] = True
        elif f == 0.75:
            u.flag_array[rows[0]] = True
            u.flag_array[rows[1], :, 0] = True
    return u, fr


def vecs(layout):
    return {a: np.array([x, y]) for a, x, y in LAYOUT[layout]}


def vec(layout, bl):
    v = vecs(layout)
    return v[bl[1]] - v[bl[0]]


def angle(v, tol=TOL):
    a = np.degrees(np.arctan2(v[1], v[0])) % 180
    return 0.0 if abs(v[1]) < tol and np.linalg.norm(v) > 0 else a


def canon(b):
    return (min(b), max(b))


def bad_ants(layout, fr, thresh, autos, crosses):
    bad = {a for a, _, _ in LAYOUT[layout]}
    for b, f in fr.items():
        if (b[0] == b[1] and not autos) or (b[0] != b[1] and not crosses):
            continue
        if f < thresh:
            bad -= set(b)
    return bad


def oracle(layout, fr1, fr2, opt):
    """Set of allowed (canonical bl1, canonical bl2), and the two sets of bad antennas."""
    pos = vecs(layout)
    b1 = b2 = set()
    if opt["filter_blpairs"]:
        b1 = bad_ants(layout, fr1, opt["xant_flag_thresh"], opt["include_autocorrs"], opt["include_crosscorrs"])
        b2 = bad_ants(layout, fr2, opt["xant_flag_thresh"], opt["include_autocorrs"], opt["include_crosscorrs"])
    hand = set(opt["xants"] or ())
    good = sorted(set(pos) - b1 - b2 - hand)
    cand = []
    if opt["include_crosscorrs"]:
        for a, b in itertools.combinations(good, 2):
            v = vec(layout, (a, b))
            ln, an = np.linalg.norm(v), angle(v)
            if opt["bl_len_range"][0] <= ln <= opt["bl_len_range"][1] and opt["bl_deg_range"][0] <= an <= opt["bl_deg_range"][1]:
                cand.append((a, b))
    if opt["include_autocorrs"]:
        cand += [(a, a) for a in good]
    in1 = {canon(b) for b in fr1}
    in2 = {canon(b) for b in fr2}
    out = set()
    for x, y in itertools.product(cand, repeat=2):
        if (x[0] == x[1]) != (y[0] == y[1]):
            continue
        v, w = vec(layout, x), vec(layout, y)
        if min(np.linalg.norm(v - w), np.linalg.norm(v + w)) > TOL:
            continue
        if opt["filter_blpairs"] and (x not in in1 or y not in in2):
            continue
        if (opt["exclude_auto_bls"] and x == y) or (opt["exclude_cross_bls"] and x != y):
            continue
        out.add((x, y))
    return out, b1 | hand, b2 | hand


def compare(rec, layout, u1, u2, fr1, fr2, opt, tr):
    from hera_pspec import utils

    s1 = u1.flag_array.copy()
    hand = None if opt["xants"] is None else list(opt["xants"])
    ok, r = rec.attempt("calc", utils.calc_blpair_reds, u1, u2, bl_tol=TOL, extra_info=True, **{**opt, "xants": hand}, trace=tr)
    rec.step()
    rec.trace()
    if not ok:
        return
    b1, b2, blps, x1, x2, groups, lens, angs = r
    n = opt["Nblps_per_group"]
    want, w1, w2 = oracle(layout, fr1, fr2, opt)
    rec.expect(set(x1) == w1 and set(x2) == w2, "xants", f"bad antennas {x1} {x2}, expected {sorted(w1)} {sorted(w2)}", tr)
    rec.expect(hand == (None if opt["xants"] is None else list(opt["xants"])), "caller:xants", "the caller's list changed", tr)
    rec.expect(np.array_equal(s1, u1.flag_array), "caller:data", "the data changed", tr)
    if n is not None:
        sizes = [len(c) for c in blps]
        okc = all(0 < s <= n for s in sizes) and [len(c) for c in b1] == sizes and [len(c) for c in b2] == sizes and [len(c) for c in groups] == sizes
        if not rec.expect(okc, "chunks:size", f"{blps}", tr):
            return
        for c, g in zip(blps, groups):
            rec.expect(len(set(g)) == 1, "chunks:mixed", f"{c} mixes redundant groups {g}", tr)
        # only the last chunk of a redundant group may be short
        for i, (c, g) in enumerate(zip(blps, groups)):
            if len(c) < n and i + 1 < len(blps):
                rec.expect(groups[i + 1][0] != g[0], "chunks:short", f"{sizes}", tr)
        b1, b2, blps, groups = (sum(map(list, x), []) for x in (b1, b2, blps, groups))
    rec.expect(list(zip(b1, b2)) == [tuple(b) for b in blps] and len(groups) == len(blps), "lists", "the lists disagree", tr)
    got = [(canon(x), canon(y)) for x, y in blps]
    rec.expect(len(set(got)) == len(got), "duplicate", f"{blps}", tr)
    g = set(got)
    if opt["exclude_permutations"]:
        un = {frozenset(p) for p in got}
        rec.expect(len(un) == len(got), "permutation", f"both orders of a pair: {blps}", tr)
        rec.expect(g <= want, "extra", f"not admissible: {sorted(g - want)}", tr)
        must = {frozenset(p) for p in want if p[::-1] in want}
        rec.expect(must <= un, "missing", f"missing {sorted(map(sorted, must - un))}", tr)
    else:
        rec.expect(g == want, "pairs", f"missing {sorted(want - g)}, extra {sorted(g - want)}", tr)
    for (x, y), j in zip(blps, groups):
        v, w = vec(layout, x), vec(layout, y)
        rec.expect(np.linalg.norm(v - w) <= TOL, "orientation", f"{x} and {y} point apart", tr)
        rec.expect(abs(lens[j] - np.linalg.norm(v)) <= TOL, "group:len", f"{x}: {lens[j]}", tr)
        if np.linalg.norm(v) > 0:
            d = abs(angs[j] - angle(v)) % 180
            rec.expect(min(d, 180 - d) < 6, "group:ang", f"{x}: {angs[j]}", tr)
        rec.expect((x[0] == x[1]) == (y[0] == y[1]), "auto-cross", f"{x} {y}", tr)
    # pairs of one group are redundant, pairs of two groups are not
    first = {}
    for (x, y), j in zip(blps, groups):
        first.setdefault(j, x)
        rec.expect(np.linalg.norm(vec(layout, first[j]) - vec(layout, x)) <= TOL, "group:mixed", f"{first[j]} and {x} share a group", tr)
    for i, j in itertools.combinations(first, 2):
        v, w = vec(layout, first[i]), vec(layout, first[j])
        rec.expect(min(np.linalg.norm(v - w), np.linalg.norm(v + w)) > TOL, "group:split", f"{first[i]} and {first[j]} are redundant", tr)
    rec.state(sorted(got))
    rec.outcome((layout, sorted(got)))


def run_a(rec, task):
    layout = task["layout"]
    fs = list(fam(layout))
    w1 = fs[task["w1"]]
    for w2 in fs:
        for m1, m2, th in MODES:
            u1, fr1 = dataset(layout, w1, m1)
            u2, fr2 = dataset(layout, w2, m2)
            for au, cr in KIND:
                for ex in EXCL:
                    opt = dict(filter_blpairs=True, xant_flag_thresh=th, xants=None, Nblps_per_group=None, bl_len_range=(0, 1e10), bl_deg_range=(0, 180), include_autocorrs=au, include_crosscorrs=cr, **ex)
                    compare(rec, layout, u1, u2, fr1, fr2, opt, dict(layout=layout, sets=[w1, w2], flags=[m1, m2], **opt))
    rec.sample(f"{task}")


def run_b(rec, task):
    layout = task["layout"]
    fs = list(fam(layout))
    w1 = fs[task["w1"]]
    ants = [a for a, _, _ in LAYOUT[layout]]
    for w2 in {w1, "all"} if task["tier"] == "quick" else fs:
        u1, fr1 = dataset(layout, w1, "none")
        u2, fr2 = dataset(layout, w2, "none")
        for ex in EXCL:
            for n, xa, lr, dr, (au, cr), fil in itertools.product((None, 1, 2, 3), (None, [ants[0]]), LENR, DEGR, KIND, (True, False)):
                if lr != LENR[0] and dr != DEGR[0] and n not in (None, 2):
                    continue
                opt = dict(filter_blpairs=fil, xant_flag_thresh=0.95, xants=xa, Nblps_per_group=n, bl_len_range=lr, bl_deg_range=dr, include_autocorrs=au, include_crosscorrs=cr, **ex)
                if not fil and w2 != w1:
                    continue
                compare(rec, layout, u1, u2, fr1, fr2, opt, dict(layout=layout, sets=[w1, w2], **opt))
    rec.sample(f"{task}")


def run_lists(rec, task):
    """construct_blpairs on every list of up to four baselines (repeats allowed)."""
    from hera_pspec import utils

    pool = [(1, 2), (2, 3), (3, 4), (1, 1), (2, 1)]
    for n in range(1, 5):
        for bls in itertools.permutations(pool, n):
            for ex in EXCL:
                for grp in (None, 1, 2, 3, 20):
                    kw = dict(ex)
                    if grp:
                        kw.update(group=True, Nblps_per_group=grp)
                    arg = list(bls)
                    ok, r = rec.attempt("construct", utils.construct_blpairs, arg, trace=dict(bls=bls, **kw), **kw)
                    rec.step()
                    rec.trace()
                    if not ok:
                        continue
                    tr = dict(bls=bls, **kw)
                    rec.expect(arg == list(bls), "construct:caller", "", tr)
                    b1, b2, blps = r
                    if grp:
                        sz = [len(c) for c in blps]
                        rec.expect(all(s == grp for s in sz[:-1]) and all(0 < s <= grp for s in sz), "construct:chunks", f"{sz}", tr)
                        rec.expect([len(c) for c in b1] == sz and [len(c) for c in b2] == sz, "construct:lists", f"{b1} {b2} {blps}", tr)
                        b1, b2, blps = (sum(map(list, x), []) for x in (b1, b2, blps))
                    rec.expect(list(zip(b1, b2)) == list(blps), "construct:lists", f"{b1} {b2} {blps}", tr)
                    want = []
                    for i, j in itertools.product(range(n), repeat=2):
                        if ex["exclude_permutations"] and i > j:
                            continue
                        if (ex["exclude_auto_bls"] and i == j) or (ex["exclude_cross_bls"] and i != j):
                            continue
                        want.append((bls[i], bls[j]))
                    rec.expect(sorted(blps) == sorted(want), "construct:pairs", f"{blps} != {want}", tr)
                    rec.state((bls, sorted(kw.items())))
    rec.expect(rec.raises(utils.construct_blpairs, [(1, 2)], exclude_auto_bls=True, exclude_cross_bls=True), "construct:refuse", "", None)


def groups_of(layout, bls):
    out = []
    for b in bls:
        for g in out:
            v, w = vec(layout, b), vec(layout, g[0])
            if min(np.linalg.norm(v - w), np.linalg.norm(v + w)) <= TOL and (b[0] == b[1]) == (g[0][0] == g[0][1]):
                g.append(b)
                break
        else:
            out.append([b])
    return out


def run_reds(rec, task):
    """get_reds from an object or a dictionary of positions, with every combination of cuts."""
    from hera_pspec import utils

    layout = task["layout"]
    pos = LAYOUT[layout]
    ants = [a for a, _, _ in pos]
    for which in fam(layout):
        u = V.cached(bls=tuple(fam(layout)[which]), times=(0,), nf=2, pols=(-5,), pos=pos)
        present = sorted({a for b in fam(layout)[which] for a in b})
        for src, lr, dr, xa, au, only, ew in itertools.product(("dict", "all", "data"), LENR, DEGR, (None, [], [ants[0]], ants), (False, True), (False, True), (0, 10.0)):
            if src == "dict" and which != "all":
                continue
            if only and not au:
                continue
            tr = dict(layout=layout, which=which, src=src, len=lr, deg=dr, xants=xa, autos=au, only=only, ew=ew)
            arg = {a: np.array([x, y, 0.0]) for a, x, y in pos} if src == "dict" else u
            ok, r = rec.attempt("get_reds", utils.get_reds, arg, bl_error_tol=TOL, pick_data_ants=src == "data", bl_len_range=lr, bl_deg_range=dr, xants=xa, add_autos=au, autos_only=only, min_EW_cut=ew, trace=tr)
            rec.step()
            rec.trace()
            if not ok:
                continue
            reds, lens, angs = r
            use = present if src == "data" else ants
            want = []
            if not only:
                for g in groups_of(layout, list(itertools.combinations(use, 2))):
                    v = vec(layout, g[0])
                    ln, an = np.linalg.norm(v), angle(v)
                    if not (lr[0] <= ln <= lr[1] and dr[0] <= an <= dr[1]) or abs(v[0]) < ew:
                        continue
                    g = [b for b in g if not xa or not set(b) & set(xa)]
                    if g:
                        want.append(frozenset(g))
            if au:
                g = [(a, a) for a in use if not xa or a not in xa]
                if g:
                    want.append(frozenset(g))
            got = [frozenset(canon(b) for b in g) for g in reds]
            rec.expect(len(reds) == len(lens) == len(angs), "get_reds:lists", f"{len(reds)} {len(lens)} {len(angs)}", tr)
            rec.expect(sorted(map(sorted, got)) == sorted(map(sorted, want)) and sum(map(len, reds)) == sum(map(len, got)), "get_reds:groups", f"{reds} != {want}", tr)
            for g, ln, an in zip(reds, lens, angs):
                for b in g:
                    v = vec(layout, b)
                    rec.expect(np.linalg.norm(v - vec(layout, g[0])) <= TOL, "get_reds:orientation", f"{g}", tr)
                    d = abs(an - angle(v)) % 180
                    rec.expect(ln == 0 or b[0] != b[1], "get_reds:auto-length", f"{b}: {ln}", tr)
                    rec.expect(abs(ln - np.linalg.norm(v)) <= TOL and (b[0] == b[1] or min(d, 180 - d) < 6), "get_reds:len-ang", f"{b}: {ln} {an}", tr)
            rec.state((layout, which, sorted(map(sorted, got))))
    rec.sample(f"{task}")


def run_uvp(rec, task):
    """Groupings of the baseline-pairs of UVPSpec objects, and of plain dictionaries of vectors."""
    from hera_pspec import utils

    bls = [(1, 2), (2, 3), (1, 4), (4, 5), (2, 1), (3, 3), (1, 1), (1, 3), (2, 5)]
    v = {b: np.array(B.ANT[b[1]]) - np.array(B.ANT[b[0]]) for b in bls}
    pairs = [(x, y) for x, y in itertools.product(bls, repeat=2) if np.linalg.norm(v[x] - v[y]) < 1e-6 and (x[0] == x[1]) == (y[0] == y[1])]
    pairs = [p for p in pairs if p[0] <= p[1]]
    par = lambda a, b: min(np.linalg.norm(v[a] - v[b]), np.linalg.norm(v[a] + v[b])) < 1e-6  # noqa: E731
    for n in range(1, 4 if task["tier"] == "quick" else 5):
        for c, blps in enumerate(itertools.combinations(pairs, n)):
            if c % 8 != task["k"]:
                continue
            u = B.uvp(blps=list(blps), tps=[(0, 0)], spws=[(0, 2, 2)], pols=[(-5, -5)], win=False)
            tr = dict(blpairs=blps)
            ints = {B.ants_to_blp(p): p for p in blps}
            ok, r = rec.attempt("uvp:red_blpairs", u.get_red_blpairs, trace=tr)
            rec.step()
            rec.trace()
            if ok:
                grps, lens, angs = r
                got = [set(ints[i] for i in g) for g in grps]
                flat = [p for g in got for p in g]
                rec.expect(sorted(flat) == sorted(blps), "uvp:partition", f"{grps}", tr)
                for g, ln in zip(got, lens):
                    for p in g:
                        rec.expect(abs(ln - np.linalg.norm(v[p[0]])) < 1, "uvp:len", f"{p} {ln}", tr)
                where = {p: i for i, g in enumerate(got) for p in g}
                for p, q in itertools.combinations(blps, 2):
                    rec.expect((where[p] == where[q]) == par(p[0], q[0]), "uvp:groups", f"{p} {q}: {got}", tr)
            ok, r = rec.attempt("uvp:red_bls", u.get_red_bls, trace=tr)
            rec.step()
            if ok:
                grps, lens, angs = r
                ub = sorted({b for p in blps for b in p})
                name = {B.ants_to_bl(b): b for b in ub}
                got = [[name[int(i)] for i in g] for g in grps]
                rec.expect(sorted(b for g in got for b in g) == ub, "uvp:bl-partition", f"{got}", tr)
                where = {b: i for i, g in enumerate(got) for b in g}
                for a, b in itertools.combinations(ub, 2):
                    rec.expect((where[a] == where[b]) == par(a, b), "uvp:bl-groups", f"{a} {b}: {got}", tr)
                for g, ln, an in zip(got, lens, angs):
                    x = v[g[0]]
                    d = abs(an - np.degrees(np.arctan2(x[1], x[0]))) % 180
                    rec.expect(abs(ln - np.linalg.norm(x)) < 1e-3 and (np.linalg.norm(x) == 0 or min(d, 180 - d) < 1e-2), "uvp:bl-len-ang", f"{g} {ln} {an}", tr)
            for lt, at in ((1.0, 30.0), (1.0, 70.0), (6.0, 1.0), (0.5, 0.5), (6.0, 100.0)):
                # given tolerances: whatever is clearly inside both is together, whatever is clearly outside one is apart
                for form in ("bls", "blpairs"):
                    ok, r = rec.attempt("uvp:tol", u.get_red_bls if form == "bls" else u.get_red_blpairs, bl_len_tol=lt, bl_ang_tol=at, trace=tr)
                    rec.step()
                    if not ok:
                        continue
                    if form == "bls":
                        got = [[name[int(i)] for i in g] for g in r[0]]
                        rec.expect(sorted(b for g in got for b in g) == ub, "uvp:tol:partition", f"{lt} {at}: {got}", tr)
                        items = {b: b for b in ub}
                    else:
                        got = [[ints[int(i)] for i in g] for g in r[0]]
                        rec.expect(sorted(b for g in got for b in g) == sorted(blps), "uvp:tol:partition", f"{lt} {at}: {got}", tr)
                        items = {q: q[0] for q in blps}
                    where = {b: i for i, g in enumerate(got) for b in g}
                    for a, b in itertools.combinations(items, 2):
                        if a not in where or b not in where:
                            continue
                        x, y = v[items[a]], v[items[b]]
                        dl = abs(np.linalg.norm(x) - np.linalg.norm(y))
                        aa = [np.degrees(np.arctan2(z[1], z[0])) % 180 for z in (x, y)]
                        da = min(abs(aa[0] - aa[1]), 180 - abs(aa[0] - aa[1]))
                        if np.linalg.norm(x) * np.linalg.norm(y) == 0:
                            da = 0.0 if dl == 0 else np.nan
                        if dl > 2 * lt or da > 2 * at:
                            rec.expect(where[a] != where[b], "uvp:tol:apart", f"{form} {lt} {at}: {a} {b} in {got}", tr)
                        elif dl == 0 and da == 0:
                            rec.expect(where[a] == where[b], "uvp:tol:same", f"{form} {lt} {at}: {a} {b} in {got}", tr)
                        elif len(items) == 2 and dl < 0.9 * lt and abs(aa[0] - aa[1]) < 0.9 * at and max(aa) < 170 and min(aa) > 10:
                            rec.expect(where[a] == where[b], "uvp:tol:together", f"{form} {lt} {at}: {a} {b} in {got}", tr)
            for some, (only, form) in enumerate(itertools.product((False, True), (tuple, B.ants_to_bl))):
                # groups of baselines, as tuples or integers, to groups of baseline-pairs
                names = sorted({b for p in blps for b in p})
                cuts = [[names], [names[:1], names[1:] or names], [[b] for b in names], [names[::-1], names[:1]]][(some + c) % 4 :][:1][0]
                want = [sorted(B.ants_to_blp(p) for p in blps if (all if only else any)(b in g for b in p)) for g in cuts]
                ok, r = rec.attempt("uvp:blgroups", u.get_blpair_groups_from_bl_groups, [[form(b) for b in g] for g in cuts], only_pairs_in_bls=only, trace=tr)
                rec.step()
                if ok:
                    rec.expect([sorted(map(int, g)) for g in r] == [g for g in want if g], "uvp:blgroups", f"{cuts} {only}: {r}", tr)
            for arg in (u, {p: v[p[0]] for p in blps}, {p: np.append(v[p[0]], 5.0) for p in blps}):
                for mlen in (False, True):
                    ok, r = rec.attempt("blvec", utils.get_blvec_reds, arg, match_bl_lens=mlen, trace=tr)
                    rec.step()
                    if not ok:
                        continue
                    grps, lens, angs, tags = r
                    rec.expect(len(grps) == len(lens) == len(angs) == len(tags), "blvec:lists", "", tr)
                    rec.expect(sorted(p for g in grps for p in g) == sorted(blps), "blvec:partition", f"{grps}", tr)
                    rec.expect(all(b - a > -0.51 for a, b in zip(lens, lens[1:])), "blvec:order", f"{lens}", tr)
                    where = {p: i for i, g in enumerate(grps) for p in g}
                    for p, q in itertools.combinations(blps, 2):
                        x, y = v[p[0]], v[q[0]]
                        s = abs(np.linalg.norm(x) - np.linalg.norm(y)) < 1 if mlen else np.linalg.norm(x - y) < 1
                        rec.expect((where[p] == where[q]) == s, "blvec:groups", f"{p} {q} {mlen}: {grps}", tr)
                    for g, ln, an, tg in zip(grps, lens, angs, tags):
                        x = v[g[0][0]]
                        d = abs(an - np.degrees(np.arctan2(x[1], x[0]))) % 180
                        rec.expect(abs(ln - np.linalg.norm(x)) < 1e-3 and (np.linalg.norm(x) == 0 or min(d, 180 - d) < 1e-2), "blvec:len-ang", f"{g} {ln} {an}", tr)
                        rec.expect(tg == f"{ln:03.0f}_{an:03.0f}", "blvec:tag", f"{tg} {ln} {an}", tr)
            rec.state(blps)
            rec.outcome(blps)
    # long baselines are ordered by length too
    far = {i: np.array([x, 0.0]) for i, x in enumerate((1500.0, 20.0, 150.0, 876.0, 1001.0, 99.0))}
    for order in itertools.permutations(far):
        if task["k"]:
            break
        g, ln, an, tg = utils.get_blvec_reds({i: far[i] for i in order})
        rec.step()
        rec.expect(ln == sorted(ln) and [x[0] for x in g] == sorted(far, key=lambda i: far[i][0]), "blvec:order", f"{ln}", dict(order=order))
    rec.sample(f"{task}")


def run_config(rec, task):
    """config_pspec_blpairs over every set of files of two groups and two polarizations."""
    from hera_pspec import utils

    layout = "line"
    root = fresh()
    try:
        u = V.cached(bls=tuple(fam(layout)["all"]), times=(0,), nf=2, pols=(-5,), pos=LAYOUT[layout])
        src = os.path.join(root, "src.uvh5")
        u.write_uvh5(src)
        combos = [(p, g) for g in ("even", "odd") for p in ("xx", "yy")]
        asks = [([("xx", "xx")], [("even", "odd")]), ([("xx", "xx"), ("yy", "yy"), ("xx", "yy")], [("even", "odd"), ("odd", "even"), ("even", "even")])]
        for m in range(1, 16):
            if m % 4 != task["k"]:
                continue
            d = os.path.join(root, f"d{m}")
            os.mkdir(d)
            have = [c for i, c in enumerate(combos) if m >> i & 1]
            for j, (p, g) in enumerate(have):
                shutil.copy(src, os.path.join(d, f"zen.{g}.1.{p}.uvh5"))
                if j % 2:
                    shutil.copy(src, os.path.join(d, f"zen.{g}.2.{p}.uvh5"))
            tmpl = os.path.join(d, "zen.{group}.*.{pol}.uvh5")
            for pp, gp in asks:
                pols, grps = {x for q in pp for x in q}, {x for q in gp for x in q}
                if not any(p in pols and g in grps for p, g in have):
                    continue
                for ex, xa, au, lr, pat in itertools.product(EXCL[:4], (None, [1]), (False, True), LENR[:2], (None, ["zen"], ["nothing"])):
                    if ex["exclude_cross_bls"]:
                        continue
                    kw = dict(exclude_auto_bls=bool(ex["exclude_auto_bls"]), exclude_permutations=bool(ex["exclude_permutations"]), bl_len_range=lr, xants=xa, include_autocorrs=au, exclude_patterns=pat)
                    tr = dict(files=have, pol_pairs=pp, group_pairs=gp, **kw)
                    with contextlib.redirect_stdout(io.StringIO()):
                        ok, r = rec.attempt("config", utils.config_pspec_blpairs, [tmpl], pp, gp, file_type="uvh5", trace=tr, **kw)
                    rec.step()
                    rec.trace()
                    if not ok:
                        continue
                    if pat == ["zen"]:
                        rec.expect(len(r) == 0, "config:exclude", f"{r}", tr)
                        continue
                    want = {(tuple(g), tuple(p)) for p, g in zip(pp, gp) if (p[0], g[0]) in have and (p[1], g[1]) in have}
                    rec.expect(set(r) == want, "config:keys", f"{sorted(r)} != {sorted(want)}", tr)
                    fr = {b: 0.0 for b in fam(layout)["all"]}
                    opt = dict(filter_blpairs=False, xants=xa, bl_len_range=lr, bl_deg_range=(0, 180), include_autocorrs=au, include_crosscorrs=True, xant_flag_thresh=0.95, exclude_auto_bls=kw["exclude_auto_bls"], exclude_cross_bls=False)
                    pairs = oracle(layout, fr, fr, opt)[0]
                    for k, blps in r.items():
                        got = [(canon(x), canon(y)) for x, y in blps]
                        if kw["exclude_permutations"]:
                            rec.expect({frozenset(p) for p in got} == {frozenset(p) for p in pairs} and len({frozenset(p) for p in got}) == len(got), "config:pairs", f"{k}: {blps}", tr)
                        else:
                            rec.expect(sorted(got) == sorted(pairs), "config:pairs", f"{k}: {blps}", tr)
                    rec.state((m, sorted(r)))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_angles(rec, task):
    """Length and angle (modulo reversal) of every vector of a grid, alone and in lists, for each tolerance."""
    from hera_pspec import utils

    xs = (0.0, 7.3, -7.3, 14.6, -14.6, -43.8, 200.0)
    ys = (0.0, -0.0, 0.4, -0.4, 0.9, -0.9, 1.4, -2.6, 3.1, 12.65, -12.65, 29.2)
    grid = [(x, y) for x in xs for y in ys if (x, y) != (0.0, 0.0)]
    for tol, z in itertools.product((0.2, 0.5, 1.0, 2.0, 3.0), (None, 0.0, 0.3, -4.0)):
        want = []
        for x, y in grid:
            a = np.degrees(np.arctan2(y, x)) % 180
            want.append((np.sqrt(x * x + y * y + (z or 0) ** 2), 0.0 if a > 90 and abs(y) < tol else a))
        rows = [np.array((x, y) if z is None else (x, y, z)) for x, y in grid]
        for form, parts in (("list", [rows]), ("array", [np.array(rows)]), ("one", [[r] for r in rows])):
            tr = dict(task, tol=tol, z=z, form=form)
            got = [utils.get_bl_lens_angs(p, bl_error_tol=tol) for p in parts]
            le, an = np.concatenate([g[0] for g in got]), np.concatenate([g[1] for g in got])
            rec.step(len(parts))
            rec.trace(len(parts))
            rec.expect(np.allclose(le, [w[0] for w in want], rtol=1e-12, atol=0), "angles:length", "", tr)
            d = np.abs(an - [w[1] for w in want])
            bad = int(np.argmax(d))
            rec.expect(np.all(d < 1e-9), "angles:angle", f"{grid[bad]}: {an[bad]} for {want[bad][1]}", tr)
            rec.state(("angles", tol, z, form))
            # a baseline and its reverse lie at one angle
            le2, an2 = utils.get_bl_lens_angs([-r for r in rows], bl_error_tol=tol)
            rec.expect(np.allclose(le2, le, rtol=1e-12) and np.allclose(an2, an, rtol=0, atol=1e-9), "angles:reverse", "", tr)


def tasks(tier, seed):
    V.warm()
    out = []
    for k in range(8):
        out.append(dict(mode="uvp", k=k, tier=tier))
    for k in range(4):
        out.append(dict(mode="config", k=k))
    for layout in LAYOUT:
        for w1 in range(5):
            if tier == "thorough" or w1 == 0 or (w1 == 1 and layout in ("line", "hex")):
                out.append(dict(mode="b", layout=layout, w1=w1, tier=tier))
            out.append(dict(mode="a", layout=layout, w1=w1))
        out.append(dict(mode="reds", layout=layout))
    out.append(dict(mode="lists"))
    out.append(dict(mode="angles"))
    return out


def run(task, rec):
    {"a": run_a, "b": run_b, "lists": run_lists, "reds": run_reds, "uvp": run_uvp, "config": run_config, "angles": run_angles}[task["mode"]](rec, task)
