"""C35 - a PSpecData keeps its datasets, weights, errors and labels aligned; every key reaches exactly its own data."""

import contextlib
import io
import itertools
import warnings

import numpy as np

from mc import build as B
from mc import uvd as V

PID = "C35"
LEVEL = "model_checking"
RULE = (
    "Every sequence of 3 (thorough 4) additions over 17 spellings (constructor, list, tuple, dict, single object; with and without weights, errors, labels; repeated and "
    "colliding labels; refused arguments) against a list of (dataset, weights, errors, label). Every key spelling x baseline and its conjugate x polarization spelling x window x "
    "extension x row order x polarization set against the visibility each label stands for; keys that do not exist refused. Every pair of datasets that agree or differ in each checked "
    "property; every list of pairs x antenna layout x tolerance; every polarization pair x datasets. States are collections; transitions are calls."
)
ASSUMPTIONS = ["keys without polarization only for datasets of one polarization", "labels are strings", "LSTs do not wrap within the compared datasets"]
NF, NT = 5, 2


def tasks(tier, seed):
    V.warm()
    full = tier == "thorough"
    out = [dict(mode="ops", first=i, ctor=c, depth=4 if full and i % 3 == 0 else 3) for i in range(len(OPS)) for c in (0, 1)]
    out += [dict(mode="keys", pols=p, order=o, full=full) for p in KPOLS for o in ("time", "bl")]
    out += [dict(mode="validate"), dict(mode="blpairs", full=full), dict(mode="pol")]
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        globals()["run_" + task["mode"]](task, rec)


# ---------------------------------------------------------------- additions
def pool():
    cfg = dict(bls=((0, 1),), times=(0, 1), nf=NF)
    d = {c: V.cached(salt=i, **cfg) for i, c in enumerate("abc")}
    d.update(w=V.cached(salt=7, **cfg), s=V.cached(salt=8, **cfg))
    return d


# name, datasets, weights, errors, labels ; single characters are looked up in the pool
OPS = [
    ("one", ["a"], [None], None, None),
    ("named", ["a", "b"], [None, "w"], None, ["p", "q"]),
    ("again", ["c"], ["w"], None, ["p"]),
    ("dict", {"q": "a", "dset1": "b"}, {"q": None, "dset1": "w"}, None, None),
    ("dict-none", {"p": "a"}, None, None, None),
    ("dict-std", {"r": "b", "p": "a"}, {"p": "w", "r": None}, {"p": "s", "r": "w"}, None),
    ("single", "b", "w", None, "p"),
    ("tuple", ("a", "b"), ("w", None), ("s", "w"), None),
    ("std", ["c"], [None], "s", ["dset1"]),
    ("twice", ["a", "a"], [None, None], None, ["p.1", "p"]),
    ("same", ["a", "b"], ["w", "w"], None, ["r", "r"]),
    # refused
    ("short", ["a", "b"], [None], None, None),
    ("labels", ["a"], [None], None, ["p", "q"]),
    ("dictlabel", {"p": "a"}, {"p": None}, None, ["q"]),
    ("dictlist", {"p": "a"}, ["w"], None, None),
    ("type", ["a", 3], [None, None], None, None),
    ("wtype", ["a"], [2.0], None, None),
]
REFUSED = ("short", "labels", "dictlabel", "dictlist", "type", "wtype")


def get(P, x):
    if isinstance(x, str):
        return P[x]
    if isinstance(x, dict):
        return {k: get(P, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(get(P, v) for v in x)
    return x


def expand(P, op):
    """The rows an accepted operation appends: (dataset, weights, errors, label or None)."""
    _, d, w, s, lab = op
    if isinstance(d, dict):
        return [(P[v], get(P, (w or {}).get(k)), get(P, (s or {}).get(k)), k) for k, v in d.items()]
    d = [d] if isinstance(d, str) else list(d)
    w = [w] * len(d) if w is None or isinstance(w, str) else list(w)
    s = [s] * len(d) if s is None or isinstance(s, str) else list(s)
    lab = [lab] if isinstance(lab, str) else lab
    return [(P[a], get(P, b), get(P, c), lab[i] if lab else None) for i, (a, b, c) in enumerate(zip(d, w, s))]


def look(rec, ds, M, tr):
    ok = len(ds.dsets) == len(M) == len(ds.wgts) == len(ds.dsets_std) == len(ds.labels)
    ok = ok and all(a is m[0] and b is m[1] and c is m[2] for a, b, c, m in zip(ds.dsets, ds.wgts, ds.dsets_std, M))
    rec.expect(ok, "ops:rows", "datasets, weights and errors not aligned", tr)
    labs = list(ds.labels)
    rec.expect(len(set(labs)) == len(labs), "ops:unique", repr(labs), tr)
    for i, (l, m) in enumerate(zip(labs, M)):
        want = m[3]
        if isinstance(want, tuple):  # requested label, possibly taken
            base = want[0]
            good = l == base if base not in labs[:i] else l.startswith(base) and l != base
            rec.expect(good, "ops:label", f"{l} for {base} at {i} of {labs}", tr)
            M[i] = m[:3] + (l,)
        else:
            rec.expect(l == want, "ops:relabelled", f"{l} was {want}", tr)
    for i, l in enumerate(labs):
        rec.expect(ds.dset_idx(l) == i and ds.dset_idx(i) == i and ds.dset_idx(np.int64(i)) == i, "ops:idx", f"{l}", tr)
    if M:
        rec.expect(ds.Nfreqs == NF and ds.Ntimes == NT and ds.spw_range == (0, NF) and ds.spw_Nfreqs == NF and ds.spw_Ndlys == NF, "ops:sizes", "", tr)
        rec.expect(np.array_equal(ds.freqs, M[0][0].freq_array), "ops:freqs", "", tr)
        i = len(M) - 1
        for k in ((i, (0, 1), "xx"), (labs[i], 0, 1, -5)):
            ok, x = rec.attempt("ops:x", ds.x, k, trace=tr)
            if ok:
                rec.expect(np.array_equal(x, M[i][0].data_array[:, :, 0].T), "ops:x", f"{k}", tr)
            ok, w = rec.attempt("ops:w", ds.w, k, trace=tr)
            if ok:
                want = np.ones((NF, NT)) if M[i][1] is None else M[i][1].data_array[:, :, 0].T
                rec.expect(np.array_equal(w, want), "ops:w", f"{k}", tr)
            if M[i][2] is not None:
                ok, e = rec.attempt("ops:dx", ds.dx, k, trace=tr)
                if ok:
                    rec.expect(np.array_equal(e, M[i][2].data_array[:, :, 0].T), "ops:dx", f"{k}", tr)
    rec.expect(rec.raises(ds.dset_idx, "nope") and rec.raises(ds.dset_idx, 0.5), "ops:idxrefuse", "", tr)
    rec.state(tuple(labs))
    if len(M) > 0:
        s = str(ds)
        rec.expect(f"{len(M)} datasets" in s and all(l in s for l in labs), "ops:str", s, tr)


def apply(P, ds, op):
    _, d, w, s, lab = op
    kw = {}
    if s is not None:
        kw["dsets_std"] = get(P, s)
    if lab is not None:
        kw["labels"] = list(lab) if isinstance(lab, list) else lab
    args = (get(P, d), get(P, w))
    keep = [dict(a) if isinstance(a, dict) else list(a) if isinstance(a, list) else a for a in args]
    if ds is None:
        from hera_pspec import PSpecData

        ds = PSpecData(dsets=args[0], wgts=args[1], **kw)
    else:
        ds.add(*args, **kw)
    assert all(len(a) == len(k) for a, k in zip(args, keep) if isinstance(a, (dict, list))), "caller's lists changed"
    return ds


def run_ops(task, rec):
    from hera_pspec import PSpecData

    P = pool()
    first = OPS[task["first"]]
    if task["ctor"] and (first[0] == "single" or first[0] == "short"):
        return
    if task["ctor"] and first[0] == "one":
        rec.expect(len(PSpecData().dsets) == 0 and PSpecData().labels == [], "ops:empty", "", task)
    for rest in itertools.product(OPS, repeat=task["depth"] - 1):
        seq = (first,) + rest
        tr = dict(task, seq=[o[0] for o in seq])
        if sum(o[0] in REFUSED for o in seq) > 1:
            continue
        rec.traces += 1
        ds, M = (None if task["ctor"] else PSpecData()), []
        for n, op in enumerate(seq):
            rec.transitions += 1
            if op[0] in REFUSED:
                rec.expect(rec.raises(apply, P, ds, op), "ops:refuse", op[0], tr)
                if ds is None:
                    ds = PSpecData()
            else:
                ok, r = rec.attempt("ops:add", apply, P, ds, op, trace=tr)
                if not ok:
                    break
                ds = r
                for row in expand(P, op):
                    M.append(row[:3] + ((row[3] if row[3] is not None else f"dset{len(M)}",),))
            # interior states were compared when they were last steps of a prefix
            look(rec, ds, M, tr)


# ---------------------------------------------------------------- keys
KPOLS = [(-5,), (-6, -5), (-5, -6, -7, -8), (2, 1), (-8, -5, -7)]
KBLS = ((0, 1), (1, 2), (3, 1), (2, 2))
STR = {-5: ("xx", "ee", "EE", "XX"), -6: ("yy", "nn"), -7: ("xy", "en"), -8: ("yx", "NE"), 1: ("pI", "pi"), 2: ("pQ",), 3: ("pU",), 4: ("pV",)}
SWAP = {-7: -8, -8: -7}


def kflag(bl, pol, t, nf):
    return np.array([B.h("k", bl, pol, t, k) % 3 == 0 for k in range(nf)])


def run_keys(task, rec):
    from hera_pspec import PSpecData

    pols = task["pols"]
    nf = 6
    mk = lambda salt, times, f: V.uvdata(bls=KBLS, times=times, nf=nf, pols=pols, salt=salt, order=task["order"], flags=f)  # noqa: E731
    d0, d1, w1, s0, s1 = mk(0, (0, 1, 2), kflag), mk(1, (3, 4, 5), kflag), mk(2, (0, 1, 2), None), mk(3, (0, 1, 2), None), mk(4, (0, 1, 2), None)
    w1.data_array = np.abs(w1.data_array) + 0j
    ds = PSpecData(dsets=[d0, d1], wgts=[None, w1], dsets_std=[s0, s1], labels=["even", "odd"])
    from mc import algebra as A  # noqa: F401

    def truth(salt, times, bl, pol, absolute=False):
        """Visibility of the key (bl, pol): the stored one, or the conjugate of the stored baseline with swapped feeds."""
        if bl in KBLS and pol in pols:
            b, p, c = bl, pol, False
        elif bl[::-1] in KBLS and SWAP.get(pol, pol) in pols:
            b, p, c = bl[::-1], SWAP.get(pol, pol), True
        else:
            return None
        out = np.array([V.vis(b, p, t, nf, salt) for t in times]).T
        if absolute:
            out = np.abs(out) + 0j
        return out.conj() if c else out

    def flags(times, bl, pol):
        b, p = (bl, pol) if bl in KBLS else (bl[::-1], SWAP.get(pol, pol))
        return np.array([~kflag(b, p, t, nf) for t in times]).T.astype(float)

    wins = [(a, b, e) for a in range(nf) for b in range(a + 1, nf + 1) for e in ((0, 0), (1, 0), (0, 2), (1, 1)) if e == (0, 0) or (a >= e[0] and b + e[1] <= nf)]
    if not task["full"]:
        wins = [w for i, w in enumerate(wins) if w[2] == (0, 0) or i % 3 == 0]
    bls = list(KBLS) + [b[::-1] for b in KBLS if b[0] != b[1]] + [(0, 2), (5, 5), (0, 0)]
    allp = sorted(STR) if task["full"] else sorted(set(pols) | {-5, -7, 1})
    for iw, (a, b, e) in enumerate(wins):
        ds.set_spw((a, b))
        ds.set_filter_extension(e)
        lo, hi = a - e[0], b + e[1]
        rec.state((task["pols"], a, b, e))
        for bl, pol in itertools.product(bls, allp):
            for i, (salt, times) in enumerate(((0, (0, 1, 2)), (1, (3, 4, 5)))):
                want = truth(salt, times, bl, pol)
                sp = [pol, np.int64(pol)] + list(STR[pol])
                did = ((i, np.int32(i), ("even", "odd")[i]))
                if iw > 2:  # spellings rotate over the windows
                    sp, did = [sp[(iw + i) % len(sp)]], [did[(iw + bls.index(bl)) % 3]]
                for s, d, flat in itertools.product(sp, did, (0, 1)):
                    key = (d,) + (tuple(bl) if flat else (bl,)) + (s,)
                    rec.transitions += 1
                    tr = dict(task, win=(a, b, e), key=repr(key))
                    for inc in (False, True) if iw % 2 else (False,):
                        if want is None:
                            rec.expect(rec.raises(ds.x, key, include_extension=inc) and rec.raises(ds.w, key), "keys:missing", "a key that does not exist returned data", tr)
                            continue
                        ok, x = rec.attempt("keys:x", ds.x, key, trace=tr, include_extension=inc)
                        if ok:
                            rec.expect(x.shape == (hi - lo, 3) and np.array_equal(x, want[lo:hi]), "keys:x", "not the key's own data", tr)
                        ok, w = rec.attempt("keys:w", ds.w, key, trace=tr, include_extension=inc)
                        if ok:
                            ww = flags(times, bl, pol) if i == 0 else truth(2, (0, 1, 2), bl, pol, True)
                            rec.expect(w.shape == (hi - lo, 3) and np.array_equal(w, ww[lo:hi]), "keys:w", "not the key's own weights", tr)
                        ok, x = rec.attempt("keys:dx", ds.dx, key, trace=tr, include_extension=inc)
                        if ok:
                            rec.expect(np.array_equal(x, truth(3 + i, (0, 1, 2), bl, pol)[lo:hi]), "keys:dx", "not the key's own errors", tr)
                    if iw == 0:
                        k3 = tuple(bl) + (s,)
                        ok, r = rec.attempt("keys:check", ds.check_key_in_dset, k3, i, trace=tr)
                        if ok:
                            rec.expect(bool(r) == (want is not None), "keys:check", f"{k3} {r}", tr)
                if len(pols) == 1 and pol == pols[0] and want is not None and bl[0] != bl[1]:
                    for key in ((i, bl), (("even", "odd")[i],) + tuple(bl)):
                        ok, x = rec.attempt("keys:nopol", ds.x, key, trace=dict(task, key=repr(key)))
                        if ok:
                            rec.expect(np.array_equal(x, want[lo:hi]), "keys:nopol", "", dict(task, key=repr(key)))
    for bl in bls:
        rec.expect(bool(ds.check_key_in_dset(tuple(bl), 0)) == (bl in KBLS or bl[::-1] in KBLS), "keys:checkbl", f"{bl}", task)
    for p in sorted(STR):
        for s in (p,) + STR[p]:
            rec.expect(bool(ds.check_key_in_dset((s,), 1)) == (p in pols), "keys:checkpol", f"{s}", task)
    for bad in ((0,), [0, (0, 1)], (0, 1), (0, (0, 1), 2.5), (0.0, (0, 1)), ("none", (0, 1)), (0, "01")):
        rec.expect(rec.raises(ds.parse_blkey, bad), "keys:bad", repr(bad), task)
    rec.expect(rec.raises(ds.check_key_in_dset, (0, 1, "xx", 3), 0), "keys:bad4", "", task)


# ---------------------------------------------------------------- validation
def quiet(fn, *a, **k):
    """(raised, printed)"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            fn(*a, **k)
            r = False
        except Exception:
            r = True
    return r, out.getvalue()


def run_validate(task, rec):
    from hera_pspec import PSpecData

    base = dict(bls=((0, 1), (1, 2)), times=(0, 1), nf=4)
    var = {
        "same": {}, "salt": dict(salt=3), "nf": dict(nf=5), "nt": dict(times=(0, 1, 2)), "df": dict(df=1.2e5), "df-": dict(df=1.0e5 * (1 + 1e-7)),
        "freq": dict(chan0=1.0e8 + 2.0e3), "freq-": dict(chan0=1.0e8 + 5.0e2), "lst": dict(lst_shift=2e-3), "lst-": dict(lst_shift=5e-4), "bls": dict(bls=((0, 1),)), "phase": {}, "width": {},
    }

    def mk(n):
        d = V.cached(**dict(base, **var[n]))
        if n == "phase":
            k = next(iter(d.phase_center_catalog))
            d.phase_center_catalog[k]["cat_type"] = "sidereal"
        if n == "width":
            d.channel_width = d.channel_width * np.array([1.0, 1.0, 1.5, 1.0])
        return d

    raising = {"nf", "nt", "df", "phase", "width"}
    warn = {"freq": "frequency bins", "lst": "LST bins"}
    for n in (1, 2, 3):
        for names in itertools.product(var, repeat=n):
            if n == 3 and "same" not in names:
                continue
            rec.transitions += 1
            rec.state(names)
            tr = dict(task, names=names)
            ds = PSpecData(dsets=[mk(x) for x in names], wgts=[None] * n)
            kinds = {x if x in raising else "ok" for x in names}
            want = len(kinds) > 1
            for verbose in (True, False):
                r, text = quiet(ds.validate_datasets, verbose=verbose)
                rec.expect(r == want, "validate:refuse", f"raised {r}, expected {want}", tr)
                if r or want or "phase" in names:
                    continue
                for k, msg in warn.items():
                    # misaligned with the first dataset (a drift of channel widths within tolerance is no shift)
                    mis = len({x == k for x in names}) > 1
                    rec.expect((msg in text) == (mis and verbose), "validate:warn", f"{k}: {text!r}", tr)
    for attr in ("wgts", "dsets_std", "labels"):
        ds = PSpecData(dsets=[mk("same"), mk("salt")], wgts=[None, None])
        rec.expect(not quiet(ds.validate_datasets)[0], "validate:good", "", task)
        getattr(ds, attr).pop()
        rec.expect(rec.raises(ds.validate_datasets), "validate:length", attr, task)
    # two phase centers in one dataset
    d = mk("same")
    d.phase_center_catalog = {0: next(iter(d.phase_center_catalog.values())), 1: dict(next(iter(d.phase_center_catalog.values())))}
    ds = PSpecData(dsets=[d], wgts=[None])
    rec.expect(rec.raises(ds.validate_datasets), "validate:centers", "", task)


LAYOUT = {
    "red": ((0, 0.0, 0.0), (1, 10.0, 0.0), (2, 20.0, 0.0), (3, 0.0, 10.0)),
    "off": ((0, 0.0, 0.0), (1, 10.0, 0.0), (2, 20.4, 0.3), (3, 0.0, 10.0)),
    "far": ((0, 0.0, 0.0), (1, 10.0, 0.0), (2, 21.5, 0.0), (3, 0.0, 10.0)),
    "shift": ((0, 0.0, 0.0), (1, 10.0, 0.0), (2, 23.0, 0.0), (3, 0.0, 10.0)),
}


def run_blpairs(task, rec):
    from hera_pspec.pspecdata import validate_blpairs

    bls = ((0, 1), (1, 2), (0, 3), (2, 0))
    u = {}
    for k, pos in LAYOUT.items():
        u[k] = V.uvdata(bls=bls, times=(0,), nf=1, pos=pos)
    # an object whose data lacks antenna 3
    u["part"] = V.uvdata(bls=((0, 1), (1, 2)), times=(0,), nf=1, pos=LAYOUT["red"])
    P = {k: {a: np.array([x, y]) for a, x, y in p} for k, p in LAYOUT.items()}
    P["part"] = {a: P["red"][a] for a in (0, 1, 2)}
    cand = list(bls) + [(1, 0), (3, 0)]
    pairs = list(itertools.product(cand, repeat=2))
    for k1, k2, tol in itertools.product(u, u, (0.2, 1.0, 2.0, 30.0)):
        shared = set(P[k1]) & set(P[k2])
        sep = [np.linalg.norm(P[k1][a] - P[k2][a]) for a in shared]
        if any(abs(s - tol) < 1e-3 for s in sep):
            continue
        refuse = max(sep) > tol
        pos = {**P[k1], **P[k2]}
        rec.state((k1, k2, tol))
        lists = [[p] for p in pairs] + [[pairs[0], p] for p in pairs[1::5]] + [[[pairs[3], p], pairs[0]] for p in pairs[::7]]
        for bp in lists:
            flat = [q for x in bp for q in ([x] if isinstance(x, tuple) else x)]
            if any(a not in pos for q in flat for b in q for a in b):
                continue
            bad = []
            for q in flat:
                v = (pos[q[0][0]] - pos[q[0][1]]) - (pos[q[1][0]] - pos[q[1][1]])
                if abs(np.linalg.norm(v) - tol) < 1e-3:
                    break
                if np.linalg.norm(v) > tol:
                    bad.append(q)
            else:
                rec.transitions += 1
                tr = dict(task, u=(k1, k2), tol=tol, bp=repr(bp))
                r, text = quiet(validate_blpairs, bp, u[k1], u[k2], baseline_tol=tol)
                rec.expect(r == refuse, "blpairs:refuse", f"raised {r}", tr)
                if r or refuse:
                    continue
                for q in flat:
                    rec.expect((str(q) in text) == (q in bad), "blpairs:warn", f"{q}: {text!r}", tr)
                rec.expect(quiet(validate_blpairs, bp, u[k1], u[k2], baseline_tol=tol, verbose=False)[1] == "", "blpairs:verbose", "", tr)
    rec.expect(rec.raises(validate_blpairs, [pairs[0]], u["red"], 3) and rec.raises(validate_blpairs, [pairs[0]], None, u["red"]), "blpairs:type", "", task)


def run_pol(task, rec):
    from hera_pspec import PSpecData

    sets = [(-5,), (-5, -6), (-6, -5, -7, -8), (1, 2)]
    for p1, p2 in itertools.product(sets, sets):
        ds = PSpecData(dsets=[V.cached(bls=((0, 1),), times=(0,), nf=2, pols=p) for p in (p1, p2)], wgts=[None, None], labels=["a", "b"])
        rec.state((p1, p2))
        for a, b in itertools.product(sorted(STR), sorted(STR)):
            for sa, sb in ((a, b), (STR[a][0], STR[b][-1]), (np.int64(a), STR[b][0]), (STR[a][-1], b)):
                for d in ((0, 1), ("a", "b"), (1, 0), ["b", 0], (0, 0)):
                    i, j = ({"a": 0, "b": 1}.get(x, x) for x in d)
                    rec.transitions += 1
                    tr = dict(task, sets=(p1, p2), pol=repr((sa, sb)), d=d)
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        ok, r = rec.attempt("pol:call", ds.validate_pol, d, (sa, sb), trace=tr)
                    if ok:
                        want = a in (p1, p2)[i] and b in (p1, p2)[j]
                        rec.expect(bool(r) == want, "pol:valid", f"{r}", tr)
        for bad in ("xx", ["xx", "xx"], (1.0, 1), ("xx", None)):
            rec.expect(rec.raises(ds.validate_pol, (0, 1), bad), "pol:refuse", repr(bad), task)
