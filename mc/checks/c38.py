"""C38 - covariances given by the caller are used as given, for the error bars and for nothing else."""

import itertools
import warnings

import numpy as np

from mc import uvd as U
from mc.checks import c21

PID = "C38"
LEVEL = "model_checking"
RULE = (
    "Every subset of the ten input covariance pieces (C11, C22, C21, C12, P11, P22, P21, S11, S22, S21) being absent (zero), every piece "
    "varying with time alone and all together (with first and last time alike), every single key missing, every documented and a custom "
    "model name, two windows, two polarization pairs and two baseline-pairs sharing a baseline, and every sequence of two pspec() calls "
    "with and without known covariances on one container under identity and inverse covariance weighting: error bars must be those the "
    "trace formulas give for the supplied matrices at their own time, key and window, and spectra those of a fresh container without them."
)
ASSUMPTIONS = ["autos and dsets models use only the diagonals of the two auto pieces (documented)"]

NF = c21.NF
NT = 4
PIECES = ("C11", "C22", "C21", "C12", "P11", "P22", "P21", "S11", "S22", "S21")
CONJ = {"C": (False, True), "P": (False, False), "S": (True, True)}
POLS = (-5, -6)
NAME = {-5: "xx", -6: "yy"}
BLPS = [((0, 1), (1, 2)), ((0, 1), (0, 1))]

_UV = {}


def uvd(salt):
    if salt not in _UV:
        _UV[salt] = U.uvdata(bls=((0, 1), (1, 2)), times=tuple(range(7)), nf=NF, salt=salt, pols=POLS, autos=True, ants=(0, 1, 2))
    return U.light(_UV[salt])


def keys(piece, blp, pp, model, t):
    """The documented key of one piece."""
    k = [(0, blp[0] + (NAME[pp[0]],)), (1, blp[1] + (NAME[pp[1]],))]
    a, b = k[int(piece[1]) - 1], k[int(piece[2]) - 1]
    if model == "empirical" and piece in ("C11", "C22"):
        t = None
    return ((a[0], b[0]), (a[1], b[1])) + (model, t) + CONJ[piece[0]]


def matrix(piece, n, t, vary):
    """A full-band matrix; C11 and C22 are Hermitian positive."""
    g = np.random.default_rng([PIECES.index(piece), n, t if vary else 99])
    A = g.normal(size=(NF, NF)) + 1j * g.normal(size=(NF, NF))
    if piece in ("C11", "C22"):
        A = A @ A.conj().T / NF + np.eye(NF)
    return A


def supplied(model, blps, pps, nt, zero=(), vary=()):
    """A known_cov dictionary and the per (pair, polarization pair, time) pieces it stands for."""
    known, pieces = {}, {}
    n = 0
    for blp, pp in itertools.product(blps, pps):
        n += 1
        for t in range(nt):
            tt = 0 if t in (0, nt - 1) else t  # the first and last integration alike
            for p in PIECES:
                m = np.zeros((NF, NF)) if p in zero else matrix(p, n, tt, p in vary)
                key = keys(p, blp, pp, model, t)
                if key in known:  # coinciding keys (auto pairs within one dataset) must coincide
                    m = known[key]
                known[key] = m
                pieces[blp, pp, t, p] = m
    return known, pieces


def tasks(tier, seed):
    U.warm()
    uvd(1)
    subs = [tuple(p for k, p in enumerate(PIECES) if b >> k & 1) for b in range(2 ** len(PIECES))]
    if tier == "quick":
        subs = [s for s in subs if len(s) in (0, 1, 2, 8, 9, 10)]
    out = [dict(kind="zero", subs=subs[i : i + 40]) for i in range(0, len(subs), 40)]
    out += [dict(kind="vary", norm=n, taper=t, weight=w) for n, t in (("I", "none"), ("I", "hann"), ("H^-1", "none")) for w in ("identity", "iC")]
    out += [dict(kind="missing"), dict(kind="models"), dict(kind="grid")] + [dict(kind="history", weight=w) for w in ("identity", "iC")]
    return out


def container(nt=NT, std=False):
    from hera_pspec import PSpecData

    d = [uvd(1), uvd(2)]
    for x in d:
        x.select(times=np.unique(x.time_array)[:nt])
    s = [uvd(3), uvd(4)] if std else None
    for x in s or []:
        x.select(times=np.unique(x.time_array)[:nt])
        x.data_array = np.abs(x.data_array) + 0j
    return PSpecData(d, [None, None], dsets_std=s), d


def spectrum(ds, c, blps, pps, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ds.pspec(
            [b[0] for b in blps], [b[1] for b in blps], (0, 1), [tuple(NAME[p] for p in pp) for pp in pps], spw_ranges=c["spws"],
            input_data_weight=c.get("weight", "identity"), norm=c.get("norm", "I"), taper=c.get("taper", "none"), verbose=False,
            baseline_tol=100.0, filter_extensions=c.get("ext"), symmetric_taper=c.get("sym", True), **kw,
        )


def moments(est, P):
    E = est.E
    Ed, Et = np.conj(np.transpose(E, (0, 2, 1))), np.transpose(E, (0, 2, 1))
    tr = est.tr
    qq = tr(E, P["C21"], E, P["C21"]) + tr(E, P["P22"], Et, P["S11"])
    qqd = tr(E, P["C22"], Ed, P["C11"]) + tr(E, P["P21"], E.conj(), P["S21"])
    qdqd = tr(Ed, P["C12"], Ed, P["C12"]) + tr(Ed, P["P11"], E.conj(), P["S22"])
    return qq, qqd, qdqd


def estimator(d, blp, pp, spw, c):
    from mc import oqe as O

    e = c.get("ext", [(0, 0)])[0] if c.get("ext") else (0, 0)
    sl = slice(spw[0] - e[0], spw[1] + e[1])
    v = []
    for x, bl, p in zip(d, blp, pp):
        rows = [r for r in range(x.Nblts) if (int(x.ant_1_array[r]), int(x.ant_2_array[r])) == bl]
        v.append(x.data_array[rows, :, POLS.index(p)].T[sl])
    one = np.ones(v[0].shape)
    nf = spw[1] - spw[0]
    return O.Estimator(v[0], v[1], one, one, nf, nf, c.get("weight", "identity"), c.get("taper", "none"), c.get("sym", True), e), sl


def judge(rec, uvp, d, pieces, c, blps, pps, model, tag, tr, retq=False, diag=False):
    nt = len(np.unique(d[0].time_array))
    for s, spw in enumerate(c["spws"]):
        for (n, blp), (k, pp) in itertools.product(enumerate(blps), enumerate(pps)):
            est, sl = estimator(d, blp, pp, spw, c)
            if c.get("norm", "I") != "I" and np.linalg.cond(est.response(True)) > 1e6:
                rec.notes["skipped_degenerate"] = rec.notes.get("skipped_degenerate", 0) + 1
                continue
            M, W = est.M_W(c.get("norm", "I"), False)
            f = np.broadcast_to(np.atleast_1d(est.adjustment()), (est.nd,)) if c.get("norm", "I") == "I" else np.ones(est.nd)
            if retq:
                M, f = np.eye(est.nd), np.ones(est.nd)
            for t in range(nt):
                rec.trace()
                P = {p: pieces[blp, pp, t, p][sl, sl] for p in PIECES}
                if model in ("autos", "dsets"):
                    P = {p: np.diag(np.diag(P[p])) if p in ("C11", "C22") else np.zeros_like(P[p]) for p in PIECES}
                cr, ci = est.cov(M, *moments(est, P))
                ff = np.outer(f, f)
                row = n * nt + t
                if diag:
                    st = uvp.stats_array[model + "_diag"][s][row, :, k]
                    with np.errstate(invalid="ignore"):
                        er, ei = np.sqrt(np.diag(cr * ff)), np.sqrt(np.diag(ci * ff))
                    for nm, a, b in (("real", st.real, er), ("imag", st.imag, ei)):
                        ok = np.isfinite(b)
                        rec.expect(np.allclose(a[ok], b[ok], rtol=1e-6, atol=1e-6 * (np.abs(b[ok]).max() if ok.any() else 1)), f"{tag}:diag:{nm}", f"{a} != {b} (time {t}, window {s})", tr)
                    continue
                for nm, a, b in (("real", uvp.cov_array_real[s][row, :, :, k], cr * ff), ("imag", uvp.cov_array_imag[s][row, :, :, k], ci * ff)):
                    r = c21.near(a, b, 1e-8) if np.abs(b).max() > 1e-9 * np.abs(cr * ff).max() else None
                    rec.expect(r is None, f"{tag}:{nm}", f"{r} (time {t}, window {s}, pair {n}, pol {k})", tr)
                rec.outcome(np.round(cr / (np.abs(cr).max() + 1e-300), 5).tobytes())


def same_spectra(a, b):
    return all(np.array_equal(a.data_array[s], b.data_array[s]) and np.array_equal(a.window_function_array[s], b.window_function_array[s]) for s in a.data_array)


def run(task, rec):
    return globals()["do_" + task["kind"]](task, rec)


def do_zero(task, rec):
    """Pieces that vanish contribute nothing; the others all of theirs."""
    c = dict(spws=[(2, 5)])
    for zero in task["subs"]:
        zero = tuple(zero)
        ds, d = container(2)
        known, pieces = supplied("mine", BLPS[:1], [(-5, -5)], 2, zero=zero)
        tr = dict(kind="zero", zero=zero)
        rec.step()
        rec.state(("zero", zero))
        ok, uvp = rec.attempt("zero", lambda: spectrum(ds, c, BLPS[:1], [(-5, -5)], store_cov=True, cov_model="mine", known_cov=known), trace=tr)
        if ok:
            judge(rec, uvp, d, pieces, c, BLPS[:1], [(-5, -5)], "mine", "zero", tr)


def do_vary(task, rec):
    """Each time has its own error bars when any piece depends on time."""
    nt = NT if task["weight"] == "identity" else 7
    c = dict(spws=[(2, 6)], norm=task["norm"], taper=task["taper"], weight=task["weight"])
    for vary, model, retq, diag in itertools.product([()] + [(p,) for p in PIECES] + [PIECES], ("mine", "empirical", "autos", "dsets"), (False, True), (False, True)):
        if model in ("autos", "dsets") and vary and not set(vary) & {"C11", "C22"}:
            continue
        if retq and (task["norm"] != "I" or diag):
            continue
        if model == "empirical":  # its auto pieces have no time index
            vary = tuple(p for p in vary if p not in ("C11", "C22"))
        ds, d = container(nt, std=model == "dsets")
        known, pieces = supplied(model, BLPS[:1], [(-5, -5)], nt, vary=vary)
        before = {k: v.copy() for k, v in known.items()}
        tr = dict(task, vary=vary, model=model, retq=retq, diag=diag)
        rec.step()
        rec.state(repr(sorted(tr.items())))
        ok, uvp = rec.attempt(f"vary:{model}", lambda: spectrum(ds, c, BLPS[:1], [(-5, -5)], store_cov=not diag, store_cov_diag=diag, cov_model=model, known_cov=known, return_q=retq), trace=tr)
        if not ok:
            continue
        cross = "cross" if vary and not set(vary) & {"C11", "C22"} else "auto"
        judge(rec, uvp, d, pieces, c, BLPS[:1], [(-5, -5)], model, f"vary:{model}:{cross}", tr, retq, diag)
        rec.expect(before.keys() == known.keys() and all(np.array_equal(before[k], known[k]) for k in known), "argument-changed", "", tr)


def do_missing(task, rec):
    """A custom model with a matrix missing is refused; a documented one falls back to the data for that matrix only."""
    c = dict(spws=[(2, 6)])
    for drop, t in itertools.product(PIECES, range(NT)):
        ds, d = container()
        known, pieces = supplied("mine", BLPS[:1], [(-5, -5)], NT, vary=PIECES)
        del known[keys(drop, BLPS[0], (-5, -5), "mine", t)]
        rec.step()
        rec.trace()
        rec.state(("missing", drop, t))
        rec.expect(rec.raises(spectrum, ds, c, BLPS[:1], [(-5, -5)], store_cov=True, cov_model="mine", known_cov=known), "missing-accepted", f"{drop} at time {t}", dict(drop=drop, t=t))
    for drop in PIECES:
        ds, d = container()
        known, pieces = supplied("empirical", BLPS[:1], [(-5, -5)], NT)
        est, sl = estimator(d, BLPS[0], (-5, -5), (2, 6), c)
        C, P, S = est.cov_pieces()
        full = {"C": C, "P": P, "S": S}[drop[0]][int(drop[1]) - 1, int(drop[2]) - 1]
        for t in range(NT):
            known.pop(keys(drop, BLPS[0], (-5, -5), "empirical", t), None)
            m = np.zeros((NF, NF), complex)
            m[sl, sl] = full
            pieces[BLPS[0], (-5, -5), t, drop] = m
        tr = dict(fallback=drop)
        rec.step()
        ok, uvp = rec.attempt("fallback", lambda: spectrum(ds, c, BLPS[:1], [(-5, -5)], store_cov=True, cov_model="empirical", known_cov=known), trace=tr)
        if ok:
            judge(rec, uvp, d, pieces, c, BLPS[:1], [(-5, -5)], "empirical", "fallback", tr)
    rec.expect(rec.raises(spectrum, container()[0], c, BLPS[:1], [(-5, -5)], store_cov=True, cov_model="mine"), "unknown-model", "", {})


def do_models(task, rec):
    """Matrices filed under another model name, dataset, baseline, polarization or time are not used."""
    c = dict(spws=[(2, 6)])
    for model in ("empirical", "autos", "dsets", "foreground_dependent"):
        for other in ("mine", "empirical", "autos", "dsets"):
            if other == model or (model == "foreground_dependent" and other == "autos"):
                continue
            ds, d = container(std=True)
            want = spectrum(container(std=True)[0], c, BLPS, [(-5, -5)], store_cov=True, cov_model=model)
            known, _ = supplied(other, BLPS, [(-5, -5)], NT, vary=PIECES)
            rec.step(2)
            rec.trace()
            rec.state(("models", model, other))
            got = spectrum(ds, c, BLPS, [(-5, -5)], store_cov=True, cov_model=model, known_cov=known)
            rec.expect(all(np.array_equal(getattr(got, a)[0], getattr(want, a)[0]) for a in ("data_array", "cov_array_real", "cov_array_imag")), f"foreign:{model}:{other}", "", dict(model=model, other=other))


def do_grid(task, rec):
    """Several windows, polarization pairs and baseline-pairs, with and without filter extension, each with its own matrices."""
    for model, spws, ext, pps, blps, norm in itertools.product(
        ("mine", "empirical", "autos"), ([(2, 6), (4, 7)], [(5, 8), (1, 4)], [(0, 9)]), (None, (1, 1), (0, 2)), ([(-5, -5)], [(-6, -6), (-5, -5)]), (BLPS, BLPS[::-1]), ("I", "H^-1")
    ):
        if ext and (spws[0][0] - ext[0] < 0 or max(s[1] for s in spws) + ext[1] > NF):
            continue
        c = dict(spws=spws, norm=norm, taper="none", sym=ext is None, ext=[ext] * len(spws) if ext else None)
        ds, d = container()
        known, pieces = supplied(model, blps, pps, NT, vary=PIECES if model != "empirical" else PIECES[2:])
        tr = dict(model=model, spws=spws, ext=ext, pps=pps, blps=blps, norm=norm)
        rec.step()
        rec.state(repr(tr))
        ok, uvp = rec.attempt("grid", lambda: spectrum(ds, c, blps, pps, store_cov=True, cov_model=model, known_cov=known), trace=tr)
        if ok:
            judge(rec, uvp, d, pieces, c, blps, pps, model, f"grid:{model}:{'ext' if ext else 'plain'}", tr)


def do_history(task, rec):
    """Spectra never depend on the covariances supplied for error bars, in this call or an earlier one; error bars only on this call's."""
    c = dict(spws=[(2, 6), (3, 7)], weight=task["weight"])
    nt = 7
    options = [None] + [(m, n) for m in ("empirical", "autos", "mine") for n in (0, 1)]
    sup = {}
    for o in options[1:]:
        known, pieces = supplied(o[0], BLPS, [(-5, -5)], nt, vary=PIECES if o[0] != "empirical" else ())
        scale = 1.0 + 3.0 * o[1]
        sup[o] = {k: v * scale for k, v in known.items()}, {k: v * scale for k, v in pieces.items()}
    plain = {}
    for norm in ("I", "H^-1", "V^-1/2"):
        cc = dict(c, norm=norm)
        plain[norm] = {m: spectrum(container(nt)[0], cc, BLPS, [(-5, -5)], store_cov=True, cov_model=m) for m in ("empirical", "autos")}
        for hist in itertools.chain(itertools.product(options, repeat=1), itertools.product(options, repeat=2)):
            if norm != "I" and len(hist) > 1:
                continue
            ds, d = container(nt)
            for i, o in enumerate(hist):
                rec.step()
                rec.trace()
                tr = dict(task, norm=norm, history=hist[: i + 1])
                kw = dict(store_cov=True, cov_model=o[0], known_cov=sup[o][0]) if o else dict(store_cov=True, cov_model="empirical")
                ok, uvp = rec.attempt("history", lambda: spectrum(ds, cc, BLPS, [(-5, -5)], **kw), trace=tr)
                if not ok:
                    return
                rec.expect(same_spectra(uvp, plain[norm]["empirical"]), f"spectra:{task['weight']}:{norm}:{'first' if i == 0 else 'later'}", "supplied covariances changed the spectra", tr)
                if o is None:
                    p = plain[norm]["empirical"]
                    rec.expect(all(np.array_equal(uvp.cov_array_real[s], p.cov_array_real[s]) for s in range(2)), "errors-remember", "", tr)
                elif norm != "V^-1/2":
                    judge(rec, uvp, d, sup[o][1], cc, BLPS, [(-5, -5)], o[0], f"history:{o[0]}", tr)
            rec.state((norm, hist))
