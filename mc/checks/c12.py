"""C12 - folding averages matching positive and negative delays and nothing else, once."""

import copy
import itertools

import numpy as np

from mc import algebra as A
from mc import build as B
from mc import table as T

PID = "C12"
LEVEL = "model_checking"
RULE = (
    "Every combination of {3..9 delay bins in each of two windows, delays fewer / equal / more than channels} x {covariance} x "
    "{no, delay, exact window functions} x {0, 1, 2 statistics}, folded by both entry points; the result is compared with the "
    "documented average over matching delays on the label-keyed view, raw negative-delay storage is inspected, the fold is "
    "repeated (must be refused and change nothing), and the folded object is stored, reloaded, selected and re-read."
)
ASSUMPTIONS = ["at least three delay bins per window (fewer leave no positive delay)", "two windows, two baseline-pairs, two polarization pairs"]

BL = [((1, 2), (1, 2)), ((1, 2), (2, 3))]


def tasks(tier, seed):
    nds = range(3, 10) if tier == "quick" else range(3, 15)
    return [dict(nd=n, mine=m, win=w) for n in nds for m in range(3, 7) for w in ("none", "delay", "exact")]


def cases(task):
    for cov, stats, nf, nrow in itertools.product((False, True), ((), ("P_N",), ("e", "P_N")), (-1, 0, 2), (1, 2)):
        yield cov, stats, nf, nrow


def run(task, rec):
    from hera_pspec import grouping, uvpspec

    for n, (cov, stats, dnf, nrow) in enumerate(cases(task)):
        nd = task["nd"]
        exact, win = task["win"] == "exact", task["win"] != "none"
        if exact:
            dnf = 0
        tr = dict(task, cov=cov, stats=stats, dnf=dnf, nrow=nrow)
        u = B.uvp(
            blps=BL[:nrow], tps=[(0, 1), (2, 2)], spws=[(0, nd + dnf, nd), (20, task["mine"], task["mine"])], pols=[(-5, -5), (1, 2)],
            cov=cov, win=win, exact=exact, stats=list(stats), omega=n % 2 == 0,
        )
        for s in stats:
            for i in range(2):
                u.stats_array[s][i] = u.stats_array[s][i].real + 0j
                if n % 3 == 0:
                    u.stats_array[s][i][0, 0] = np.inf
                    u.stats_array[s][i][0, -1] = np.inf
        if n % 4 == 1:  # a flagged integration
            u.integration_array[0][0] = 0.0
        v0 = A.view(u)
        before = {i: u.nsample_array[i].copy() for i in range(2)}
        raw = {i: u.data_array[i].copy() for i in range(2)}
        keep = copy.deepcopy(u) if n % 5 == 0 else None
        want = A.fold(v0)
        ok, _ = rec.attempt("fold", (lambda: grouping.fold_spectra(u)) if n % 2 else u.fold_spectra, trace=tr)
        rec.step()
        rec.trace()
        if not ok:
            continue
        rec.expect(u.folded is True, "flag", "folded flag not set", tr)
        ok, got = rec.attempt("view", A.view, u, trace=tr)
        if not ok:
            continue
        d = A.close(got, want, rtol=1e-12)
        rec.expect(d is None, f"fold:{d and d[0]}", d and d[1], tr)
        for w, det in A.counts(u, want):
            rec.expect(False, "meta:" + w, det, tr)
        for i in range(2):
            x = u.data_array[i]
            z = x.shape[1] // 2
            rec.expect(np.all(x[:, :z] == 0), "negative-power", f"window {i}: negative delays hold {x[0, :z, 0]}", tr)
            rec.expect(np.array_equal(x[:, z], raw[i][:, z]), "zero-delay", "the zero-delay power changed", tr)
            rec.expect(np.array_equal(u.nsample_array[i], 2 * before[i]), "nsample", "", tr)
            dl = u.get_dlys(i)
            rec.expect(np.all(dl > 0) and np.all(np.diff(dl) > 0), "delays", str(dl), tr)
            if hasattr(u, "cosmo"):
                rec.expect(len(u.get_kparas(i)) == len(dl), "kparas", f"{len(u.get_kparas(i))} vs {len(dl)}", tr)
        # a second fold is refused and harmless
        t1 = T.table(u)
        rec.step()
        rec.expect(rec.raises(u.fold_spectra), "twice", "folding twice was not refused", tr)
        rec.expect(T.diff(T.table(u), t1) is None, "twice-changed", "a refused second fold changed the object", tr)
        # the folded state survives copying and selection
        c = copy.deepcopy(u)
        c.select(spws=[1], polpairs=[(1, 2)], inplace=True)
        spw1 = sorted({k[0] for k in want})[-1]
        d = A.close(A.view(c), A.select(want, spws=[spw1], pols=[(1, 2)]), rtol=1e-12)
        rec.step()
        rec.expect(d is None, f"fold-select:{d and d[0]}", d and d[1], tr)
        if keep is not None:
            keep.select(spws=[1], polpairs=[(1, 2)], inplace=True)
            keep.fold_spectra()
            d = A.close(A.view(keep), A.view(c), rtol=1e-12)
            rec.step()
            rec.expect(d is None, f"select-fold:{d and d[0]}", d and d[1], tr)
        rec.state(("f", sorted((repr(k), float(np.abs(x["data"]).sum())) for k, x in got.items()), tr))
        rec.outcome((nd, task["win"], cov, stats, dnf))
        if n == 0:
            rec.sample(f"{tr} -> {len(got)} cells of {[len(u.get_dlys(i)) for i in range(2)]} positive delays")
