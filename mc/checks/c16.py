"""C16 - binning along delay applies the kernel to every delay-indexed quantity, symmetrically about zero delay."""

import copy
import itertools

import numpy as np

from mc import algebra as A
from mc import build as B
from mc import table as T

PID = "C16"
LEVEL = "model_checking"
RULE = (
    "Every combination of {5..13 delay bins, odd and even, with a second window of another length} x {nine kernels: length one to "
    "four, flat, asymmetric, with zero entries} x {six zero-delay kernels} x {covariance} x {no, delay, exact window functions} x "
    "{statistics, infinite and NaN error bars included} x {covariance-weighted statistics}; each result is compared cell by cell "
    "with the documented kernel sums on the label-keyed view, its metadata with its arrays, and it is then selected, averaged, "
    "stored and reloaded. States are distinct results; transitions are calls."
)
ASSUMPTIONS = ["unfolded objects (folded ones are refused)", "kernel entries are non-negative and do not sum to zero", "error bars are real; covariance diagonals are positive"]

BL = [((1, 2), (1, 2)), ((1, 2), (2, 3))]
KERNELS = [[1], [1, 1], [1, 1, 1], [3, 1], [1, 2, 1], [0, 1], [0, 1, 1, 0], [4, 2, 1], [1, 0, 2, 5]]
ZERO = [[1], [1, 1, 1], [0, 1, 0], [1, 2, 1], [1, 1, 1, 1, 1], [1, 0, 4, 0, 1]]


def tasks(tier, seed):
    nds = range(5, 14) if tier == "quick" else range(5, 20)
    return [dict(nd=n, win=w, cov=c) for n in nds for w in ("none", "delay", "exact") for c in (0, 1)]


def plan(nd, kernel, zero):
    """[(indices, weights)] of every output bin, in increasing delay: straight from the documentation."""
    z = nd // 2
    hz = len(zero) // 2
    k = np.array(kernel, float) / np.sum(kernel)
    zk = np.array(zero, float) / np.sum(zero)
    mid = (np.arange(z - hz, z + hz + 1), zk)
    pos, i = [], z + hz + 1
    while i + len(k) <= nd:
        pos.append((np.arange(i, i + len(k)), k))
        i += len(k)
    # mirrored negative bins (the extra negative delay of an even axis is ignored)
    return [(2 * z - i, w) for i, w in reversed(pos)] + [mid] + pos


def expected(v, plans, wstats):
    out = {}
    for key, c in v.items():
        sk = key[0]
        P = plans[sk]
        c = dict(c)
        pick = lambda a, f: np.array([f(np.take(a, i, axis=0), w) for i, w in P])  # noqa: E731
        lin = lambda x, w: np.tensordot(w, x, axes=(0, 0))  # noqa: E731
        cov = c.get("covr")
        for f in list(c):
            if f in ("data", "dly", "win"):
                c[f] = pick(np.asarray(c[f]), lin)
            elif f in ("covr", "covi"):
                m = np.asarray(c[f])
                c[f] = np.array([[w1 @ m[np.ix_(i1, i2)] @ w2 for i2, w2 in P] for i1, w1 in P])
            elif f.startswith("stat:"):
                s = np.asarray(c[f]).real
                if f[5:] in wstats and cov is not None:
                    d = np.sqrt(np.diag(cov))
                    corr = cov / np.outer(d, d)
                    c[f] = np.array([np.sqrt(sum(w[a] * w[b] * corr[i[a], i[b]] * s[i[a]] * s[i[b]] for a in range(len(i)) for b in range(len(i)))) for i, w in P]) + 0j
                else:
                    c[f] = np.array([np.sqrt(sum(w[a] * s[i[a]] ** 2 for a in range(len(i)) if w[a] != 0)) for i, w in P]) + 0j
        out[(key[0][:2] + (len(P),),) + key[1:]] = c
    return out


def run(task, rec):
    from hera_pspec import grouping

    nd, win, cov = task["nd"], task["win"], bool(task["cov"])
    n2 = 5 + (nd + 2) % 5
    n = 0
    for kernel, zero, variant in itertools.product(KERNELS, ZERO, (0, 1)):
        n += 1
        tr = dict(task, kernel=kernel, zero=zero, variant=variant)
        stats = [[], ["P_N", "e"]][variant]
        u = B.uvp(blps=BL, tps=[(0, 1), (2, 2)], spws=[(0, nd, nd), (20, n2, n2)], pols=[(-5, -5), (1, 2)], cov=cov, win=win != "none", exact=win == "exact",
                  stats=stats, order="tb" if n % 2 else "bt")
        for i in range(2):
            if cov:
                m = np.moveaxis(u.cov_array_real[i], 3, 1) / 1000.0
                k = m.shape[-1]
                u.cov_array_real[i] = np.moveaxis(0.05 * (m + np.swapaxes(m, -1, -2)) + np.eye(k) * (2 + np.arange(k)), 1, 3)
            for s in stats:
                x = np.abs(u.stats_array[s][i].real) + 0.5
                if s == "e":
                    x[0, (n + i) % x.shape[1]] = np.inf
                    x[1, :, 0] = np.inf
                    if n % 3 == 0:
                        x[2, n % x.shape[1]] = np.nan
                u.stats_array[s][i] = x + 0j
        v0, t0 = A.view(u), T.table(u)
        ws = [(), ("P_N",), ("P_N", "P_SN")][n % 3]
        kern = np.array(kernel, [float, int, float][n % 3])
        kern = kern if n % 5 else list(kernel)
        zk = np.array(zero, float)
        ka, za = np.copy(kern), zk.copy()
        longest = min(nd - nd // 2 - 1, n2 - n2 // 2 - 1)
        call = dict(cov_weighted_stats=ws)
        if zero != [1]:
            call["zero_bin_kernel"] = zk
        if len(zero) // 2 > longest:  # longer than a window: no documented answer
            rec.step()
            rec.expect(rec.raises(grouping.average_in_delay_bins, u, kern, **call), "refuse:zero", "a zero-delay kernel longer than a window was accepted", tr)
            rec.expect(T.diff(T.table(u), t0) is None, "refuse:changed", "", tr)
            continue
        if len(kernel) > (nd + n2) // 2:
            continue
        ok, new = rec.attempt("bin", grouping.average_in_delay_bins, u, kern, trace=tr, **call)
        rec.step()
        rec.trace()
        if not ok:
            continue
        rec.expect(T.diff(T.table(u), t0) is None, "input", "the input was modified", tr)
        rec.expect(np.array_equal(kern, ka) and np.array_equal(zk, za), "arguments", f"the caller's kernel became {kern} / {zk}", tr)
        plans = {}
        for sk in {k[0] for k in v0}:
            P = plan(sk[2], kernel, zero)
            plans[sk] = P
        want = expected(v0, plans, ws)
        for i in range(2):
            d = new.get_dlys(i)
            rec.expect(np.all(np.diff(d) > 0), "delays:order", str(d), tr)
            rec.expect(np.allclose(d, -d[::-1], rtol=1e-9, atol=1e-12 / B.DF), "delays:symmetric", str(d), tr)
            w = expected_dly = next(c["dly"] for k, c in want.items() if k[0][0] == T.spw_key(new, i)[0])
            rec.expect(d.shape == w.shape and np.allclose(d, expected_dly, rtol=1e-9, atol=1e-12 / B.DF), "bin:dly", f"{d} want {w}", tr)
        ok, got = rec.attempt("view", A.view, new, trace=tr)
        if not ok:
            continue
        d = A.close(got, want, rtol=1e-9, skip=("dly",))
        rec.expect(d is None, f"bin:{d and d[0]}", d and d[1], tr)
        for w, det in A.counts(new, want):
            rec.expect(False, "meta:" + w, det, tr)
        for w, det in T.wellformed(new):
            rec.expect(False, "form:" + w, det, tr)
        rec.expect(new.Ndlys == len(np.unique(new.dly_array)), "meta:Ndlys", (new.Ndlys, len(np.unique(new.dly_array))), tr)
        rec.expect(new.spw_dly_array.dtype.kind in "iu", "meta:spw_dly", "", tr)
        ok, _ = rec.attempt("check", new.check, trace=tr)
        # the binned object is usable: selection, time average, storage
        if n % 4 == 0 and len({k[0] for k in got}) == 2:
            sk = T.spw_key(new, 1)
            s = new.select(spws=[1], polpairs=[(1, 2)], inplace=False)
            dd = A.close(A.view(s), A.select(got, spws=[sk], pols=[(1, 2)]), rtol=1e-12)
            rec.step()
            rec.expect(dd is None, f"select:{dd and dd[0]}", dd and dd[1], tr)
            ok, av = rec.attempt("average", new.average_spectra, time_avg=True, error_field=stats or None, inplace=False, trace=tr)
            rec.step()
            if ok:
                dd = A.close(A.view(av), A.average(got, time_avg=True, error_field=stats), rtol=1e-8)
                rec.expect(dd is None, f"average:{dd and dd[0]}", dd and dd[1], tr)
        if n % 9 == 0:
            store(rec, new, got, tr)
        rec.state(("b", sorted((repr(k), np.abs(np.asarray(x["data"])).round(6).tobytes()) for k, x in got.items())))
        rec.outcome((nd, win, cov, repr(kernel), repr(zero)))
        if n == 1:
            rec.sample(f"{tr} -> delays {new.get_dlys(0)}")
    u = B.uvp(blps=BL, spws=[(0, nd, nd)], win=win != "none", exact=win == "exact", cov=cov, folded=True)
    t0 = T.table(u)
    rec.step()
    rec.expect(rec.raises(grouping.average_in_delay_bins, u, np.ones(2)), "folded", "a folded object was binned", task)
    rec.expect(T.diff(T.table(u), t0) is None, "folded:changed", "", task)


def store(rec, new, got, tr):
    import os
    import tempfile

    from hera_pspec import UVPSpec

    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "x.h5")
        ok, _ = rec.attempt("write", new.write_hdf5, f, overwrite=True, trace=tr)
        if not ok:
            return
        r = UVPSpec()
        ok, _ = rec.attempt("read", r.read_hdf5, f, trace=tr)
        rec.step(2)
        if ok:
            dd = A.close(A.view(r), got, rtol=1e-12)
            rec.expect(dd is None, f"store:{dd and dd[0]}", dd and dd[1], tr)
