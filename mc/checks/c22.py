"""C22 - broadcasting flags makes them time-independent window by window, and flags nothing else."""

import itertools
import warnings

import numpy as np

from mc import uvd as U

PID = "C22"
LEVEL = "model_checking"
RULE = (
    "Every flag waterfall (all 2^(times x channels) patterns) of 3x4, 2x5 and 4x3 (thorough: also 4x4 and 3x5) cells, each placed on its "
    "own baseline and polarization of two datasets whose rows are ordered differently, for every list of disjoint windows in both orders and five thresholds, plus two consecutive calls and "
    "unflagging; the resulting flags are compared with a reference per window and every other array must be untouched."
)
ASSUMPTIONS = ["overlapping windows are excluded (documented as unspecified)"]
ANTS = (0, 1, 2, 3, 4, 5)
BLS = tuple((a, b) for a in ANTS for b in ANTS if a <= b)
POLS = (-5, -6, -7, -8)
SLOT = [(bl, p) for bl in BLS for p in range(len(POLS))]
THRESH = (0.2, 0.34, 0.5, 0.7, 0.0)


def window_lists(nf):
    h = nf // 2
    out = [None, [(0, nf)], [(0, h)], [(h, nf)], [(1, nf - 1)] if nf > 3 else [(1, 2)], [(0, h), (h, nf)], [(h, nf), (0, h)], [(0, 1), (nf - 1, nf)]]
    return out


def tasks(tier, seed):
    sizes = [(3, 4), (2, 5), (4, 3)] + ([(4, 4), (3, 5)] if tier != "quick" else [])
    U.warm()
    out = []
    for nt, nf in sizes:
        n = 2 ** (nt * nf)
        step = 2 * len(SLOT)
        blocks = [list(range(lo, min(lo + step, n))) for lo in range(0, n, step)]
        for c in range(0, len(blocks), 4):
            out.append(dict(nt=nt, nf=nf, lo=blocks[c][0], hi=blocks[min(c + 3, len(blocks) - 1)][-1] + 1))
    return out


def reference(F, wins, thresh):
    """Flags after broadcasting (times x channels)."""
    F = F.copy()
    nt, nf = F.shape
    for s, e in wins:
        W = F[:, s:e]
        partial = [t for t in range(nt) if not W[t].all()]
        chans = [c for c in range(e - s) if partial and sum(W[t, c] for t in partial) / len(partial) > thresh]
        out = W.copy()
        for t in range(nt):
            if any(W[t, c] for c in range(e - s) if c not in chans):
                out[t] = True
        out[:, chans] = True
        F[:, s:e] = out
    return F


_BASE = {}


def base(nt, nf, salt):
    if (nt, nf, salt) not in _BASE:
        # the second dataset lists its baseline-times in another order
        _BASE[nt, nf, salt] = U.uvdata(
            bls=BLS[::-1] if salt else BLS, times=tuple(range(nt)), nf=nf, pols=POLS, ants=ANTS, salt=salt, order="bl" if salt else "time"
        )
    return U.light(_BASE[nt, nf, salt])


def bits(code, nt, nf):
    return np.array([code >> k & 1 for k in range(nt * nf)], bool).reshape(nt, nf)


def run(task, rec):
    from hera_pspec import PSpecData

    nt, nf = task["nt"], task["nf"]
    step = 2 * len(SLOT)
    rows = []
    for d0 in (base(nt, nf, 0), base(nt, nf, 1)):
        sel = {bl: [r for r in range(d0.Nblts) if (int(d0.ant_1_array[r]), int(d0.ant_2_array[r])) == bl] for bl in BLS}
        rows.append({bl: sorted(v, key=lambda r: d0.time_array[r]) for bl, v in sel.items()})
    for lo in range(task["lo"], task["hi"], step):
        codes = list(range(lo, min(lo + step, task["hi"])))
        pats = [bits(c, nt, nf) for c in codes]
        for wins, th in itertools.product(window_lists(nf), THRESH):
            ds = make(PSpecData, pats, nt, nf, rows)
            keep = [(d.data_array.copy(), d.nsample_array.copy(), d.time_array.copy()) for d in ds.dsets]
            rec.step()
            tr = dict(nt=nt, nf=nf, first=lo, windows=wins, thresh=th)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ok, _ = rec.attempt("broadcast", lambda: ds.broadcast_dset_flags(spw_ranges=wins, time_thresh=th), trace=tr)
            if not ok:
                return
            ww = wins or [(0, nf)]
            want = [reference(p, ww, th) for p in pats]
            judge(rec, ds, want, rows, pats, ww, tr, "")
            for d, k in zip(ds.dsets, keep):
                rec.expect(np.array_equal(d.data_array, k[0]) and np.array_equal(d.nsample_array, k[1]) and np.array_equal(d.time_array, k[2]), "other-arrays", "", tr)
            # once the flags are time-independent a second call finds nothing to do
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ds.broadcast_dset_flags(spw_ranges=wins, time_thresh=th)
            judge(rec, ds, [reference(w, ww, th) for w in want], rows, pats, ww, tr, ":again")
            if th == 0.2:
                ds = make(PSpecData, pats, nt, nf, rows)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    ds.broadcast_dset_flags(spw_ranges=wins, unflag=True)
                want = [p.copy() for p in pats]
                for w in want:
                    for s, e in ww:
                        w[:, s:e] = False
                judge(rec, ds, want, rows, pats, ww, tr, ":unflag")
        for c in codes:
            rec.state((nt, nf, c))
    rec.sample(dict(task))


def make(PSpecData, pats, nt, nf, rows):
    d1, d2 = base(nt, nf, 0), base(nt, nf, 1)
    d1.flag_array[:] = False
    d2.flag_array[:] = False
    for n, p in enumerate(pats):
        d = (d1, d2)[n // len(SLOT)]
        bl, k = SLOT[n % len(SLOT)]
        d.flag_array[rows[n // len(SLOT)][bl], :, k] = p
    return PSpecData([d1, d2], [None, None])


def judge(rec, ds, want, rows, pats, ww, tr, tag):
    for n, w in enumerate(want):
        bl, k = SLOT[n % len(SLOT)]
        got = ds.dsets[n // len(SLOT)].flag_array[rows[n // len(SLOT)][bl], :, k]
        rec.trace()
        rec.evaluations += 1
        if np.array_equal(got, w):
            rec.outcome(w)
            continue
        inside = np.zeros(w.shape[1], bool)
        for s, e in ww:
            inside[s:e] = True
        sig = "outside" if not np.array_equal(got[:, ~inside], pats[n][:, ~inside]) else "window" if len(ww) == 1 and inside.all() else "sub-window"
        rec.fail(sig + tag, f"flags {pats[n].astype(int).tolist()} -> {got.astype(int).tolist()}, expected {w.astype(int).tolist()}", tr)
