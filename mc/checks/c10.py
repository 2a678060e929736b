"""C10 - splitting and combining power spectra are inverse, whatever the order; overlap is refused."""

import itertools

import numpy as np

from mc import build as B
from mc import table as T
from mc.checks.c08 import P3, filt, subsets

PID = "C10"
LEVEL = "model_checking"
RULE = (
    "Partition mode: every set partition (>= 2 blocks) of every axis of each object, every order of the blocks, stored in "
    "several internal orders, combined in one call, recursively and with '+'; the result must be the original label-keyed "
    "table. Overlap mode: every ordered pair (thorough: triple) of the 27 sub-boxes of a 2x2x2 window x row x polarization "
    "object; the model says whether they may be combined (exactly one axis differs, and there disjoint) and, if so, what "
    "results. States are distinct results, transitions combine calls."
)
ASSUMPTIONS = ["objects are bounded: <=3 windows, <=5 rows, <=3 polarisation pairs", "rows shared by several objects carry equal times bit for bit"]

R5 = [(P3[0], 0, 0), (P3[0], 0, 1), (P3[1], 0, 0), (P3[0], 2, 1), (P3[2], 1, 1)]
BASE = {
    "full": dict(rows=R5[:4], spws=[(0, 4, 4), (10, 3, 5), (20, 3, 3)], pols=[(-5, -5), (-6, -6), (1, 2)], cov=True, stats=["a", "b_c"], omega=True),
    "exact": dict(rows=R5[:3], spws=[(0, 3, 3), (10, 4, 4)], pols=[(-5, -5), (-6, -6), (-5, -6)], exact=True, omega=True),
    "folded": dict(rows=R5[:3], spws=[(0, 5, 5), (10, 4, 6)], pols=[(-5, -5), (-6, -6)], folded=True, cov=True, stats=[]),
    "bare": dict(rows=R5, spws=[(0, 3, 3)], pols=[(-5, -5)], win=False, rp=True, cosmo=False),
    "pstokes": dict(rows=R5[1:3], spws=[(5, 3, 4)], pols=[(1, 1), (2, 2), (1, 2)], win=True, rp=True),
}


def mk(name, rows=None, spws=None, pols=None, order="given", salt=0):
    c = dict(BASE[name])
    c.setdefault("rp", False)
    rp = c.pop("rp")
    c["rows"] = [r for r in c["rows"] if rows is None or r in rows]
    c["spws"] = [s for s in c["spws"] if spws is None or s in spws]
    c["pols"] = [p for p in c["pols"] if pols is None or p in pols]
    if order == "reversed":
        for k in ("rows", "spws", "pols"):
            c[k] = c[k][::-1]
    elif order == "rows":
        c["rows"] = c["rows"][1:] + c["rows"][:1]
    if rp:
        c["r_params"] = rparams(c)
    c["history"] = f"[{len(c['rows'])}{len(c['spws'])}{len(c['pols'])}]"
    return B.uvp(salt=salt, **c)


def rparams(c):
    from hera_pspec import uvpspec_utils

    names = {-5: "xx", -6: "yy", 1: "pI", 2: "pQ"}
    d = {}
    for r in c["rows"]:
        for pp in c["pols"]:
            for b, p in zip(r[0], pp):
                d[b + (names[p],)] = {"filter_half_widths": [float(b[0])]}
    return uvpspec_utils.compress_r_params(d)


def partitions(xs):
    if not xs:
        yield []
        return
    for p in partitions(xs[1:]):
        yield [[xs[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[xs[0]] + p[i]] + p[i + 1 :]


AXES = ("spws", "rows", "pols")


def tasks(tier, seed):
    out = []
    for n in BASE:
        for ax in AXES:
            size = len(BASE[n][ax])
            if size > 1:
                parts = [p for p in partitions(list(range(size))) if len(p) > 1]
                for k in range(0, len(parts), 4):
                    out.append({"mode": "split", "cfg": n, "axis": ax, "parts": parts[k : k + 4], "tier": tier})
    for n in ("full", "bare2"):
        for i in range(27):
            out.append({"mode": "overlap", "cfg": n, "first": i, "tier": tier})
    out.append({"mode": "refuse"})
    out += [{"mode": "shared", "axis": ax, "first": f, "tier": tier} for ax in AXES for f in CONTENT]
    return out


STATIC = "weighting norm taper vis_units norm_units folded channel_width telescope_location exact_windows cov_model".split()


def verify(rec, u, want, whole, sig, tr):
    rec.step()
    for what, det in T.wellformed(u):
        rec.expect(False, f"{sig}:metadata:{what}", det, tr)
    try:
        got = T.table(u)
    except Exception as e:  # noqa: BLE001
        rec.fail(f"{sig}:labels", f"{type(e).__name__} {e}", tr)
        return
    rec.state(T.canon(got))
    d = T.diff(got, want)
    rec.expect(d is None, f"{sig}:cells:{d[0] if d else ''}", d, tr)
    for k in STATIC:
        if k == "cov_model" and not hasattr(whole, "cov_array_real"):
            continue  # describes covariances that are not there
        rec.expect(hasattr(u, k) == hasattr(whole, k) and (not hasattr(whole, k) or T.same_attr(getattr(u, k), getattr(whole, k))), f"{sig}:static:{k}", "differs", tr)
    rec.expect(u.get_r_params() == whole.get_r_params(), f"{sig}:r_params", "weighting parameters differ", tr)
    if hasattr(whole, "cosmo"):
        rec.expect(u.cosmo == whole.cosmo, f"{sig}:cosmo", "", tr)
    try:
        g = T.getters(u)
        d = T.diff(g, {k: visible(v, u) for k, v in want.items()})
        rec.expect(d is None, f"{sig}:getter:{d[0] if d else ''}", d, tr)
    except Exception as e:  # noqa: BLE001
        rec.fail(f"{sig}:getters", f"{type(e).__name__}: {e}", tr)


def visible(cell, u):
    v = T.visible(cell, u.folded)
    if u.exact_windows and "win" in v and not u.folded:
        v["win"] = cell["win"]
    return v


def run_split(task, rec):
    from hera_pspec import uvpspec

    name, ax = task["cfg"], task["axis"]
    whole = mk(name)
    want = T.table(whole)
    items = BASE[name][ax]
    cache = {}

    def part(block, order):
        key = (tuple(block), order)
        if key not in cache:
            cache[key] = mk(name, order=order, **{ax: [items[i] for i in block]})
            cache[(key, "t")] = T.canon(T.table(cache[key]))
        return cache[key]

    for p in task["parts"]:
        for perm in itertools.permutations(p):
            orders = [("given",) * len(perm), ("reversed",) * len(perm), tuple(("rows", "given", "reversed")[i % 3] for i in range(len(perm)))]
            for o in orders:
                us = [part(b, x) for b, x in zip(perm, o)]
                tr = {"cfg": name, "axis": ax, "blocks": perm, "orders": o}
                ok, u = rec.attempt("combine", uvpspec.combine_uvpspec, list(us), verbose=False, trace=tr)
                rec.trace()
                if ok:
                    verify(rec, u, want, whole, "combine", tr)
                    rec.expect(u.history == "".join(x.history for x in us), "history", u.history, tr)
                for b, x in zip(perm, o):
                    rec.expect(T.canon(T.table(part(b, x))) == cache[((tuple(b), x), "t")], "inputs-modified", "", tr)
                if len(us) > 2:
                    ok, u = rec.attempt("recursive", uvpspec.recursive_combine_uvpspec, list(us), trace=tr)
                    if ok:
                        verify(rec, u, want, whole, "recursive", tr)
                else:
                    ok, u = rec.attempt("plus", lambda: us[0] + us[1], trace=tr)
                    if ok:
                        verify(rec, u, want, whole, "plus", tr)
                ok, r = rec.attempt("overlap", uvpspec.get_uvp_overlap, list(us), verbose=False, trace=tr)
                if ok:
                    rec.expect({"spws": "spw", "rows": "blpairts", "pols": "polpairs"}[ax] == r[1], "axis", f"{r[1]}", tr)


BASE["bare2"] = dict(rows=R5[:2], spws=[(10, 3, 3), (0, 4, 4)], pols=[(-6, -6), (-5, -5)], win=False, cosmo=False)


def run_overlap(task, rec):
    from hera_pspec import uvpspec

    name = task["cfg"]
    S, R, P = BASE[name]["spws"][:2], BASE[name]["rows"][:2], BASE[name]["pols"][:2]
    subs = [[0], [1], [0, 1]]
    boxes = list(itertools.product(range(3), repeat=3))
    objs, tabs = {}, {}
    for b in boxes:
        objs[b] = mk(name, spws=[S[i] for i in subs[b[0]]], rows=[R[i] for i in subs[b[1]]], pols=[P[i] for i in subs[b[2]]])
        tabs[b] = T.table(objs[b])
    canon = {b: T.canon(tabs[b]) for b in boxes}
    first = boxes[task["first"]]
    tuples = [(first, b) for b in boxes]
    if task["tier"] == "thorough":
        tuples += [(first, b, c) for b in boxes for c in boxes]
    for tup in tuples:
        # the model: every pair must differ on the same single axis, disjointly
        axes = set()
        ok = True
        for x, y in itertools.combinations(tup, 2):
            d = [a for a in range(3) if x[a] != y[a]]
            if len(d) != 1 or 2 in (x[d[0]], y[d[0]]):
                ok = False
                break
            axes.add(d[0])
        ok = ok and len(axes) == 1
        us = [objs[b] for b in tup]
        tr = {"cfg": name, "boxes": tup}
        rec.trace()
        if not ok:
            rec.step()
            rec.outcome(("refused", tup))
            rec.expect(rec.raises(uvpspec.combine_uvpspec, list(us), verbose=False), "overlap-accepted", f"combining {tup} did not raise", tr)
        else:
            want = {}
            for b in tup:
                want.update(tabs[b])
            good, u = rec.attempt("combine-boxes", uvpspec.combine_uvpspec, list(us), verbose=False, trace=tr)
            rec.outcome(("combined", tup))
            if good:
                verify(rec, u, want, us[0], "boxes", tr)
        for b in tup:
            rec.expect(T.canon(T.table(objs[b])) == canon[b], "inputs-modified", "", tr)


def run_refuse(rec):
    """Objects whose fixed metadata disagree are refused, whichever comes first."""
    from hera_pspec import uvpspec

    def pair(**ch):
        a = mk("bare", rows=R5[:2])
        b = mk("bare", rows=R5[2:4])
        for k, v in ch.items():
            setattr(b, k, v)
        return a, b

    cases = [
        dict(weighting="iC"), dict(norm="V^-1/2"), dict(taper="bh"), dict(vis_units="Jy"), dict(norm_units="k^3"),
        dict(folded=True), dict(channel_width=np.array([2e5])), dict(telescope_location=B.TEL + 1e5), dict(beam_freqs=np.ones(3)),
        dict(OmegaP=np.ones((3, 1)), OmegaPP=np.ones((3, 1))), dict(cosmo=B._cosmo()), dict(exact_windows=True),
    ]
    for ch in cases:
        for rev in (False, True):
            us = list(pair(**ch))[:: -1 if rev else 1]
            rec.step()
            rec.state((repr(sorted(ch)), rev))
            rec.expect(rec.raises(uvpspec.combine_uvpspec, us, verbose=False), "disagree-accepted:" + next(iter(ch)), f"{ch}", repr(ch))
    # conflicting weighting parameters and normalisations
    from hera_pspec import uvpspec_utils

    a, b = pair(r_params=uvpspec_utils.compress_r_params({(1, 2, "xx"): {"filter_half_widths": [99.0]}}))
    rec.expect(rec.raises(uvpspec.combine_uvpspec, [a, b], verbose=False), "r_params-conflict", "")
    a, b = pair(r_params="")
    rec.expect(rec.raises(uvpspec.combine_uvpspec, [a, b], verbose=False), "r_params-empty", "")
    a, b = pair(scalar_array=np.array([[123.0]]))
    rec.expect(rec.raises(uvpspec.combine_uvpspec, [a, b], verbose=False), "scalar-conflict", "")


CONTENT = ("all", "no-stats", "stat-a", "stat-bc", "no-cov", "model-x", "model-none", "no-win")


def strip(u, what):
    if what == "no-stats":
        del u.stats_array
    elif what == "stat-a":
        del u.stats_array["b_c"]
    elif what == "stat-bc":
        del u.stats_array["a"]
    elif what == "no-cov":
        del u.cov_array_real, u.cov_array_imag, u.cov_model
    elif what == "model-x":
        u.cov_model = "dsets"
    elif what == "model-none":
        del u.cov_model
    elif what == "no-win":
        del u.window_function_array
    return u


def run_shared(task, rec):
    """Optional content (windows, statistics, covariances of one model) is kept exactly when every object has it."""
    from hera_pspec import uvpspec

    ax = task["axis"]
    items = BASE["full"][ax][:3]
    whole = T.table(mk("full", **{ax: items}))
    parts = {(i, w): strip(mk("full", **{ax: [items[i]]}), w) for i in range(3) for w in CONTENT}
    for rest in itertools.product(CONTENT, repeat=2):
        kinds = (task["first"],) + rest
        us = [parts[i, w] for i, w in enumerate(kinds)]
        tr = {"axis": ax, "kinds": kinds}
        stats = set.intersection(*[set(getattr(u, "stats_array", {})) for u in us])
        models = {getattr(u, "cov_model", None) for u in us}
        cov = all(hasattr(u, "cov_array_real") for u in us) and len(models) == 1
        win = all(hasattr(u, "window_function_array") for u in us)

        def keep(f):
            return f[5:] in stats if f.startswith("stat:") else cov if f.startswith("cov") else win if f == "win" else True

        want = {k: {f: v for f, v in c.items() if keep(f)} for k, c in whole.items()}
        ok, u = rec.attempt("shared", uvpspec.combine_uvpspec, us, verbose=False, trace=tr)
        rec.trace()
        rec.step()
        if not ok:
            continue
        rec.state(kinds)
        rec.outcome((ax, tuple(sorted(stats)), cov, win))
        d = T.diff(T.table(u), want)
        rec.expect(d is None, f"shared:{d and d[0]}", d, tr)
        if cov:
            rec.expect({getattr(u, "cov_model", None)} == models, "shared:cov_model", f"{getattr(u, 'cov_model', None)} {models}", tr)
        rec.attempt("shared:check", u.check, trace=tr)


def run(task, rec):
    rec.sample(task)
    if task["mode"] == "shared":
        return run_shared(task, rec)
    if task["mode"] == "split":
        run_split(task, rec)
    elif task["mode"] == "overlap":
        run_overlap(task, rec)
    else:
        run_refuse(rec)
