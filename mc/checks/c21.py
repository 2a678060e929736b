"""C21 - estimated power, window functions and covariances are those the estimator's definition gives."""

import copy
import itertools
import warnings

import numpy as np

from mc import oqe as O
from mc import uvd as U

PID = "C21"
LEVEL = "model_checking"
RULE = (
    "Every combination of weighting x taper x symmetric/one-sided taper x filter extension x delay count x normalisation x "
    "sampling x flag pattern (all channel patterns for one configuration, seven structured and time-dependent patterns for the rest) x "
    "baseline-pair kind (auto, cross, reversed antenna order) on 4- and 5-channel windows is run through pspec(); power, windows, weights, "
    "integrations and (for every covariance model, full or diagonal, normalised or not, with and without extension) covariances are compared with a "
    "reference written from the documented formulas as explicit traces; so are data in other units (1e-6 to 1e6, alike or different for the two "
    "datasets), every order of polarization pairs whose flags, samples and data differ, and baselines with themselves. The methods pspec() is made of are called one by one in every setting, with every covariance model and form of time index."
)
ASSUMPTIONS = [
    "configurations whose response matrix has condition number above 1e6 are compared only for refusal/shape",
    "taper and DAYENU kernels come from uvtools; window integrals of the beam scalar are covered by C31",
]

NF = 9
PAIRS = {"auto": ((0, 1), (0, 1)), "cross": ((0, 1), (1, 2)), "rev": ((1, 0), (1, 2)), "rev2": ((0, 1), (2, 1))}
RP = dict(filter_centers=[0.0], filter_half_widths=[1.3e-6], filter_factors=[1e-2])


def pattern(name, bl, t, nt):
    f = np.zeros(NF, bool)
    second = bl == (1, 2)
    if name.startswith("bits"):
        bits = int(name[4:])
        for k in range(5):
            f[2 + k] = bool(bits >> k & 1)
    elif name == "one":
        f[3] = True
    elif name == "edge":
        f[2] = True
    elif name == "diff":
        f[4 if second else 3] = True
    elif name == "time":  # a whole integration
        f[:] = t == (1 if second else 0)
    elif name == "mixed":  # time-dependent channel flags
        f[3] = t == 0
        f[5] = second and t < nt - 1
    elif name == "most":
        f[:] = True
        f[3] = False
    return f


def uvd(salt, nt, flag, nvar="flat", bl_first=False):
    fl = (lambda bl, p, t, nf: pattern(flag, bl, t, nt)) if flag != "none" else None

    def ns(bl, p, t, nf):
        if nvar == "flat":
            return 1.0
        if nvar == "middle":  # first and last integration alike, the middle ones not
            return 1.0 if t in (0, nt - 1) else 3.0 + t
        if nvar == "second":
            return 1.0 + t if bl == (1, 2) else 2.0
        if nvar == "chan":
            return 1.0 + np.arange(nf) % 3
        if nvar == "zero":
            v = np.ones(nf) * 2.0
            if t == 1:
                v[3] = 0.0
            if t == 0 and bl == (0, 1):
                v[:] = 0.0
            return v
        raise KeyError(nvar)

    u = U.uvdata(bls=((0, 1), (1, 2)), times=tuple(range(nt)), nf=NF, salt=salt, flags=fl, nsamp=ns, autos=True, ants=(0, 1, 2),
                 integ=lambda bl, t: 10.0 + (bl == (1, 2)) * 2 + t + 5.0 * (salt % 2))
    if nvar == "chan":  # channels of different bandwidths
        u.channel_width = 1e5 * (1 + 0.2 * (np.arange(NF) % 3) + 0.01 * np.arange(NF))
    return u


_UV = {}


def get_uvd(*a):
    if a not in _UV:
        _UV[a] = uvd(*a)
    return U.light(_UV[a])


def beam(kind):
    from mc.checks.c19 import cosmo

    if kind is None:
        return None
    from hera_pspec import pspecbeam

    fr = 1.0e8 + 1e5 * np.arange(NF)

    class Beam(pspecbeam.PSpecBeamFromArray):
        def beam_normalized_response(self, pol="pI", freq=None, x_orientation=None):
            nside = 1
            pix = np.arange(12)
            res = np.array([1.0 / (1 + 0.3 * pix + 0.05 * (f - 1e8) / 1e5 * (pix % 3)) for f in freq])
            return res, res.sum(1) * np.pi / 3.0, nside

    return Beam(OmegaP={"XX": 0.02 * (fr / fr[0]) ** -2}, OmegaPP={"XX": 0.01 * (fr / fr[0]) ** -2}, beam_freqs=fr, cosmo=cosmo())


def configs(tier):
    out = []
    tapers = ("none", "hann", "bh")
    exts = [(True, (0, 0)), (False, (0, 0)), (False, (1, 1)), (False, (0, 2))]
    flags = ("none", "one", "edge", "diff", "time", "mixed", "most")
    for spw, tap, wt, (sym, ext), norm in itertools.product(((2, 6), (2, 7)), tapers, ("identity", "iC", "dayenu"), exts, ("I", "H^-1", "V^-1/2")):
        out.append(dict(spw=spw, taper=tap, weight=wt, sym=sym, ext=ext, norm=norm, flags=flags))
    return out


def tasks(tier, seed):
    U.warm()
    get_uvd(1, 3, "none")  # compile and memoise before the workers are forked
    models = ("empirical", "autos", "dsets", "foreground_dependent")
    out = [dict(kind="cov", model=m, taper=tp, weight=w, nvar=v) for m in models for tp in ("none", "hann") for w in ("identity", "iC")
           for v in ("flat", "middle", "second", "chan", "zero") if m != "empirical" or v == "flat"]
    out += [dict(kind="covext", model=m, weight=w) for m in models for w in ("identity", "iC", "dayenu")]
    out += [dict(kind="pols", weight=w, taper=t, data=d) for w in ("identity", "iC") for t in ("none", "hann") for d in ("flat", "flags", "ints", "nsamp", "nsamp-chan", "missing")]
    out += [dict(kind="self"), dict(kind="pieces")]
    out += [dict(kind="direct", weight=w, taper=t, flag=f) for w in ("identity", "iC", "dayenu") for t in ("none", "hann") for f in ("none", "one", "diff")]
    out += [dict(kind="fft")] + [dict(kind="units", taper=t) for t in ("none", "hann")] + [dict(kind="beam", taper=t, weight=w, nd=n) for t in ("none", "hann") for w in ("identity", "iC") for n in (5, 4, 3)]
    out += [dict(kind="grid", cfgs=c) for c in chunks(configs(tier), 6)]
    out += [dict(kind="bits", lo=lo, hi=lo + 4, tier=tier) for lo in range(0, 32, 4)]
    return out


def chunks(x, n):
    return [x[i : i + n] for i in range(0, len(x), n)]


def build(flag, nt, nvar="flat", bm=None, std=None):
    from hera_pspec import PSpecData

    d1, d2 = get_uvd(1, nt, flag, nvar), get_uvd(2, nt, flag, nvar)
    return PSpecData([d1, d2], [None, None], dsets_std=std, beam=beam(bm)), d1, d2


def vec(d, bl, k=0):
    """(data, weights, nsamples, integration times) of a baseline, straight from the arrays."""
    a, b = sorted(bl)
    rows = [r for r in range(d.Nblts) if (int(d.ant_1_array[r]), int(d.ant_2_array[r])) == (a, b)]
    x = d.data_array[rows, :, k].T
    if bl != (a, b):
        x = x.conj()
    return x, (~d.flag_array[rows, :, k]).T.astype(float), d.nsample_array[rows, :, k].T, d.integration_time[rows], d.time_array[rows], d.lst_array[rows]


def estimator(d1, d2, blp, c, nd, qnorm=None, ks=(0, 0)):
    s0, s1 = c["spw"]
    e = c["ext"]
    sl = slice(s0 - e[0], s1 + e[1])
    v1, v2 = vec(d1, blp[0], ks[0]), vec(d2, blp[1], ks[1])
    return (
        O.Estimator(v1[0][sl], v2[0][sl], v1[1][sl], v2[1][sl], s1 - s0, nd, c["weight"], c["taper"], c["sym"], e,
                    freqs=(1e8 + 1e5 * np.arange(NF))[sl], rp=RP, qnorm=qnorm),
        v1, v2, sl,
    )


def run_pspec(ds, blps, c, nd, **kw):
    rp = {}
    if c["weight"] == "dayenu":
        for a, b in blps:
            rp[(0,) + a + ("xx",)] = dict(RP)
            rp[(1,) + b + ("xx",)] = dict(RP)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ds.pspec(
            [b[0] for b in blps], [b[1] for b in blps], (0, 1), [("xx", "xx")], n_dlys=[nd], input_data_weight=c["weight"], norm=c["norm"],
            taper=c["taper"], spw_ranges=[c["spw"]], symmetric_taper=c["sym"], filter_extensions=[c["ext"]], r_params=rp or None,
            verbose=False, baseline_tol=100.0, **kw,
        )


def integ(v1, v2, sl):
    out = []
    for v in (v1, v2):
        w = v[1][sl]
        ns = (v[2][sl] * w).sum(0) / np.clip(w.sum(0), 1, np.inf)
        out.append(v[3] * ns)
    a, b = out
    r = np.zeros(len(a))
    ok = (a > 0) & (b > 0)
    r[ok] = 2.0 / (1.0 / a[ok] + 1.0 / b[ok])
    return r


def near(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} != {b.shape}"
    if not np.all(np.isfinite(b)):
        return None
    s = np.max(np.abs(b)) if b.size else 0.0
    d = np.max(np.abs(a - b)) if b.size else 0.0
    return None if d <= tol * s or d == 0 else f"max difference {d} on scale {s}"


def normal(rec, est, c, sampling):
    """Reference (M, W), or None where the configuration is numerically degenerate."""
    est.G, est.H = est.response(False), est.response(not sampling)
    bad = min(np.abs(est.G.sum(1)).min(), np.abs(est.H.sum(1)).min()) < 1e-6 * np.abs(est.H).max()
    if c["norm"] != "I":
        bad = bad or np.linalg.cond(est.H) > 1e6
    else:  # the delay-dependent correction divides the real parts
        bad = bad or min(np.abs(est.G.sum(1).real).min(), np.abs(est.H.sum(1).real).min()) < 1e-6 * np.abs(est.H).max()
    if c["norm"] == "V^-1/2":
        bad = bad or np.linalg.cond(est.V()) > 1e8
    if c["weight"] == "dayenu":  # pinv's rank decision must not be borderline
        for w in (est.w1, est.w2):
            Y = w.max(1)
            sv = np.linalg.svd(Y[:, None] * O.dspec.dayenu_mat_inv(x=est.freqs, **RP) * Y[None, :], compute_uv=False)
            sv = sv / sv.max() if sv.max() > 0 else sv
            bad = bad or np.any((sv > 1e-17) & (sv < 1e-9))
    if bad:
        rec.notes["skipped_degenerate"] = rec.notes.get("skipped_degenerate", 0) + 1
        return None
    return est.M_W(c["norm"], sampling)


def compare(rec, c, nd, sampling, flag, blps, uvp, d1, d2, tr):
    nt = d1.Ntimes
    for n, blp in enumerate(blps):
        est, v1, v2, sl = estimator(d1, d2, blp, c, nd)
        rows = slice(n * nt, (n + 1) * nt)
        rec.trace()
        sig = f"{c['norm']}:{c['weight']}"
        w = np.stack([v1[1][slice(*c["spw"])].T, v2[1][slice(*c["spw"])].T], axis=2)
        d = near(uvp.wgt_array[0][rows, :, :, 0], w)
        rec.expect(d is None, f"weights:{'ext' if sum(c['ext']) else 'plain'}", d, tr)
        d = near(uvp.integration_array[0][rows, 0], integ(v1, v2, sl))
        rec.expect(d is None, "integration", d, tr)
        rec.expect(np.array_equal(uvp.time_1_array[rows], v1[4]) and np.array_equal(uvp.time_2_array[rows], v2[4]), "times", "", tr)
        MW = normal(rec, est, c, sampling)
        if MW is None:
            continue
        M, W = MW
        p = M @ est.q()
        if c["norm"] == "I":
            p = np.atleast_1d(est.adjustment())[:, None] * p
        tol = 1e-6 if c["weight"] != "identity" or c["norm"] != "I" else 1e-10
        d = near(uvp.data_array[0][rows, :, 0], p.T, tol)
        rec.expect(d is None, f"power:{sig}:{'ext' if sum(c['ext']) else 'plain'}", d, tr)
        d = near(uvp.window_function_array[0][rows, :, :, 0], np.repeat(W.real[None], nt, 0), tol)
        rec.expect(d is None, f"window:{sig}:{'ext' if sum(c['ext']) else 'plain'}", d, tr)
        rs = uvp.window_function_array[0][rows, :, :, 0].sum(-1)
        rec.expect(np.allclose(rs, 1.0, atol=1e-6), f"window-rows:{sig}", f"{rs[0]}", tr)
        rec.outcome((np.round(p.real / (np.abs(p).max() + 1e-300), 6).tobytes(),))


def band_dependent(c, d1, d2, blp, nd, sampling):
    """The documented refusal: an identity-weighted configuration whose G->H ratio depends on delay."""
    if c["norm"] != "I" or c["weight"] != "identity":
        return False
    est = estimator(d1, d2, blp, c, nd)[0]
    G, H = est.response(False), est.response(not sampling)
    with np.errstate(all="ignore"):
        r = H.sum(1).real / G.sum(1).real
    r[~np.isfinite(r)] = 1.0
    return bool((np.abs(r - r.mean()) > 0.5e-4 * r.mean()).any())


def run(task, rec):
    if task["kind"] == "cov":
        return cov(task, rec)
    if task["kind"] == "fft":
        return fft(rec)
    if task["kind"] in ("covext", "pols", "self", "pieces", "direct"):
        return {"direct": direct, "covext": cov_ext, "pols": pols, "self": self_pairs, "pieces": pieces}[task["kind"]](task, rec)
    if task["kind"] == "units":
        return units(task, rec)
    if task["kind"] == "beam":
        return with_beam(task, rec)
    if task["kind"] == "bits":
        cs = [dict(spw=(2, 7), taper=t, weight="identity", sym=True, ext=(0, 0), norm=n, flags=[f"bits{b}" for b in range(task["lo"], task["hi"])])
              for t in ("none", "hann") for n in ("I", "H^-1", "V^-1/2")]
    else:
        cs = task["cfgs"]
    for c in cs:
        c = dict(c, spw=tuple(c["spw"]), ext=tuple(c["ext"]))
        nf = c["spw"][1] - c["spw"][0]
        for flag, sampling in itertools.product(c["flags"], (False, True)):
            for nd in (nf, nf - 1, 2):
                if c["norm"] != "I" and nd == 2 and sampling:
                    continue
                nt = 3 if c["weight"] != "iC" and c["norm"] != "V^-1/2" else 9
                ds, d1, d2 = build(flag, nt)
                blps = [PAIRS["auto"], PAIRS["cross"]] if sampling else [PAIRS["rev"], PAIRS["rev2"], PAIRS["cross"]]
                tr = dict(c, flag=flag, sampling=sampling, nd=nd, flags=None)
                rec.step()
                rec.state(repr(sorted(tr.items())))
                try:
                    uvp = run_pspec(ds, blps, c, nd, sampling=sampling)
                except ValueError as e:
                    if "band-dependent" in str(e) and any(band_dependent(c, d1, d2, b, nd, sampling) for b in blps):
                        continue
                    rec.fail(f"raised:{c['norm']}:{c['weight']}:{'ext' if sum(c['ext']) else 'plain'}", f"{type(e).__name__}: {e}", tr)
                    continue
                except np.linalg.LinAlgError:
                    if flag in ("most", "time", "edge", "one", "diff", "mixed") or flag.startswith("bits"):
                        continue
                    rec.fail(f"linalg:{c['norm']}:{c['weight']}", "singular", tr)
                    continue
                except Exception as e:  # noqa: BLE001
                    rec.fail(f"raised:{c['norm']}:{c['weight']}:{'ext' if sum(c['ext']) else 'plain'}", f"{type(e).__name__}: {e}", tr)
                    continue
                compare(rec, c, nd, sampling, flag, blps, uvp, d1, d2, tr)
    rec.sample({"task": task["kind"], "first": repr(cs[0])[:200]})


def pieces(task, rec):
    """Response matrices of every mode, and products with normalization matrices, by their definitions."""
    for (s0, s1), ext in itertools.product(((2, 7), (2, 6), (0, 9), (4, 5)), ((0, 0), (1, 0), (0, 2), (2, 1))):
        ds = build("none", 3)[0]
        ds.set_spw((s0, s1))
        if sum(ext):
            ds.set_symmetric_taper(False)
            ds.set_filter_extension(ext)
        nf = s1 - s0
        e = tuple(int(x) for x in ds.filter_extension)
        for nd in range(1, nf + 1):
            ds.set_Ndlys(nd)
            tr = dict(kind="pieces", spw=(s0, s1), ext=e, nd=nd)
            for inc, fast in itertools.product((False, True), (True, False)):
                n = nf + (sum(e) if inc else 0)
                tens = []
                for mode in range(nd):
                    m = np.exp(-2j * np.pi * (mode - nd // 2) * np.arange(n) / nd)
                    want = np.outer(m.conj(), m)
                    ok, q = rec.attempt("pieces:Q_alt", ds.get_Q_alt, mode, allow_fft=fast, include_extension=inc, trace=tr)
                    rec.step()
                    if not ok:
                        return
                    rec.expect(q.shape == want.shape and np.allclose(q, want, atol=1e-9), "pieces:Q_alt", f"mode {mode} fft {fast} extended {inc}", tr)
                    rec.state(np.round(q.ravel()[: 2 * n], 6))
                    tens.append(want)
                    if not inc:
                        ok, q = rec.attempt("pieces:Q", ds.get_Q, mode, trace=tr)
                        rec.expect(not ok or nd != nf or nf == 1 or np.allclose(q, want, atol=1e-6), "pieces:Q", f"mode {mode}", tr)
                ok, q = rec.attempt("pieces:tensor", ds.get_Q_alt_tensor, allow_fft=fast, include_extension=inc, trace=tr)
                rec.expect(ok and np.shape(q) == np.shape(tens) and np.allclose(q, tens, atol=1e-9), "pieces:tensor", "", tr)
                for mode in (-1, -nd, nd, nd + 3):
                    rec.expect(rec.raises(ds.get_Q_alt, mode, allow_fft=fast, include_extension=inc), "pieces:refuse", f"mode {mode} of {nd}", tr)
                    rec.step()
            rec.expect(rec.raises(ds.get_Q, nd), "pieces:refuse", f"get_Q of mode {nd}", tr)
            rec.trace()
    g = np.random.default_rng(3)
    for nd, nt, kind in itertools.product((1, 2, 3), (1, 2), ("real", "complex", "zero")):
        M = g.normal(size=(nd, nd)) + (1j * g.normal(size=(nd, nd)) if kind == "complex" else 0)
        M = M * (kind != "zero")
        q = g.normal(size=(nd, nt)) + 1j * g.normal(size=(nd, nt))
        C = g.normal(size=(nt, nd, nd)) + 1j * g.normal(size=(nt, nd, nd))
        C0, M0 = C.copy(), M.copy()
        tr = dict(kind="pieces", nd=nd, nt=nt, M=kind)
        ok, p = rec.attempt("pieces:p_hat", ds.p_hat, M, q, trace=tr)
        ok2, c = rec.attempt("pieces:cov_p_hat", ds.cov_p_hat, M, C, trace=tr)
        rec.step(2)
        rec.trace()
        if ok and ok2:
            rec.expect(np.allclose(p, [[sum(M[a, b] * q[b, t] for b in range(nd)) for t in range(nt)] for a in range(nd)], atol=1e-12), "pieces:p_hat", "", tr)
            want = np.array([[[sum(M[a, b] * np.conj(M[i, j]) * C0[t, b, j] for b in range(nd) for j in range(nd)) for i in range(nd)] for a in range(nd)] for t in range(nt)])
            rec.expect(c.shape == want.shape and np.allclose(c, want, atol=1e-12), "pieces:cov_p_hat", "", tr)
            rec.expect(np.array_equal(C, C0) and np.array_equal(M, M0), "pieces:changed", "an argument was changed", tr)


def direct(task, rec):
    """The methods pspec() is made of, called by themselves in every state of the settings, and their refusals."""
    flag, wt, tp = task["flag"], task["weight"], task["taper"]
    nt = 9 if wt == "iC" else 3
    for (s0, s1), (sym, ext), nd in itertools.product(((2, 6), (2, 7)), ((True, (0, 0)), (False, (0, 0)), (False, (1, 0))), (5, 4, 3)):
        nf = s1 - s0
        if nd > nf or nd < nf - 1:
            continue
        c = dict(spw=(s0, s1), taper=tp, weight=wt, sym=sym, ext=ext, norm="I")
        tr = dict(c, flag=flag, nd=nd)
        ds, d1, d2 = build(flag, nt, bm="arr")
        ds.set_spw((s0, s1))
        ds.set_weighting(wt)
        ds.set_taper(tp)
        if not sym:
            ds.set_symmetric_taper(False)
            ds.set_filter_extension(ext)
        ds.set_Ndlys(nd)
        blps = [PAIRS["cross"], PAIRS["rev2"]]
        if wt == "dayenu":
            for b in blps:
                ds.set_r_param((0,) + b[0] + ("xx",), dict(RP))
                ds.set_r_param((1,) + b[1] + ("xx",), dict(RP))
        std = [get_uvd(11, nt, flag, "flat"), get_uvd(12, nt, flag, "flat")]
        ds.dsets_std = std
        ests, keys = [], []
        for b in blps:
            est, v1, v2, sl = estimator(d1, d2, b, c, nd)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                MW = normal(rec, est, c, False)
            if MW is None:
                break
            ests.append((est, v1, v2, sl))
            keys.append(((0,) + b[0] + ("xx",), (1,) + b[1] + ("xx",)))
        if len(ests) < 2:
            continue
        rec.state(repr(sorted(tr.items())))
        rec.trace()
        for (k1, k2), (est, v1, v2, sl), b in zip(keys, ests, blps):
            def same(name, got, want, tol=1e-7):
                rec.step()
                d = near(got, want, tol)
                rec.expect(d is None, f"direct:{name}", d, tr)

            def call(name, f, *a, **k):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    return rec.attempt(f"direct:{name}", f, *a, trace=tr, **k)

            ok, q = call("q", ds.q_hat, k1, k2)
            if ok:
                same("q", q, est.q())
            if nd == nf and not sum(ext):
                ok, q = call("q-fft", ds.q_hat, k1, k2, allow_fft=True)
                if ok:
                    same("q-fft", q, est.q())
            ok, G = call("G", ds.get_G, k1, k2)
            if ok:
                same("G", G, est.response(False))
            for smp in (False, True):
                ok, H = call("H", ds.get_H, k1, k2, sampling=smp)
                if ok:
                    same("H", H, est.response(not smp))
            ok, E = call("E", ds.get_unnormed_E, k1, k2)
            if ok:
                same("E", E, est.E)
            ok, V = call("V", ds.get_unnormed_V, k1, k2)
            if ok:
                same("V", V, est.V())
            ok, cv = call("cov_q", ds.cov_q_hat, k1, k2)
            if ok:
                same("cov_q", cv, np.repeat(est.V()[None], nt, 0), 1e-6)
            # noise models: only the first term is left, with diagonal covariances
            if not sum(ext):
                for model in ("dsets", "autos"):
                    want = []
                    for t in range(nt):
                        n1, n2 = noise_vars(model, d1, d2, std, b, v1, v2, sl, nt)
                        want.append(est.q_moments(model, t, n1, n2)[1])
                    want = np.array(want)
                    if not np.all(np.isfinite(want)):
                        continue
                    for t in range(nt):
                        ok, V = call(f"V-{model}", ds.get_unnormed_V, k1, k2, model=model, time_index=t)
                        if ok:
                            same(f"V-{model}", V, want[t])
                    for ti in (None, 0, nt - 1, np.int64(1), [1], [2, 0], list(range(nt))):
                        ok, cv = call(f"cov_q-{model}", ds.cov_q_hat, k1, k2, model=model, time_indices=ti)
                        if ok:
                            w = want if ti is None else want[[int(x) for x in np.atleast_1d(ti)]]
                            z = np.abs(w) > 1e-6 * np.abs(w).max()  # entries that vanish in theory are noise
                            rec.expect(cv.shape == w.shape, f"direct:cov_q-{model}:shape", f"{cv.shape}", tr)
                            if cv.shape == w.shape:
                                same(f"cov_q-{model}", np.where(z, cv, 0), np.where(z, w, 0), 1e-6)
            # inverse covariances, of every model and time
            for key, model, t in [(k, "empirical", None) for k in (k1, k2)] + [(k, m, t) for k in (k1, k2) for m in ("dsets", "autos") for t in range(nt)]:
                ok, C = call("C", ds.C_model, key, model=model, time_index=t)
                if ok and np.all(np.isfinite(C)) and np.linalg.cond(C) < 1e8:
                    ok, iC = call("iC", ds.iC, key, model=model, time_index=t)
                    if ok:
                        same(f"iC-{model}", iC @ C, np.eye(len(C)), 1e-5)
            for ti in (-1, nt, [0, nt], "0", 1.5, (0, 1)):
                rec.expect(rec.raises(ds.cov_q_hat, k1, k2, time_indices=ti), "direct:refuse", f"time indices {ti!r}", tr)
            rec.expect(rec.raises(ds.cov_q_hat, [k1], k2) and rec.raises(ds.cov_q_hat, k1, [k2]) and rec.raises(ds.cov_q_hat, [k1, k1], [k2]), "direct:refuse", "lists of different lengths", tr)
            rec.expect(rec.raises(ds.cov_q_hat, k1, k2, model="nonsense"), "direct:refuse", "unknown covariance model", tr)
            # the correction of the scalar, from matrices or from the pair itself
            if wt != "identity" or not band_dependent(c, d1, d2, b, nd, False):
                est.G, est.H = est.response(False), est.response(True)
                want = est.adjustment()
                for how, kw in (("keys", dict(key1=k1, key2=k2)), ("matrices", dict(Gv=est.G, Hv=est.H))):
                    ok, a = call("adjust", ds.scalar_delay_adjustment, **kw)
                    if ok:
                        same(f"adjust-{how}", np.broadcast_to(a, (nd,)), np.broadcast_to(want, (nd,)))
            # the normalizations, given any matrices
            V0 = est.V()
            est.G, est.H = est.response(False), est.response(True)
            for norm in ("I", "H^-1", "V^-1/2"):
                cc = dict(c, norm=norm)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    mw = normal(rec, est, cc, False)
                if mw is None:
                    continue
                ok, got = call("MW", ds.get_MW, est.G, est.H, mode=norm, band_covar=V0)
                if ok:
                    same(f"M:{norm}", got[0], mw[0], 1e-6)
                    same(f"W:{norm}", got[1], mw[1], 1e-6)
                if norm != "I":
                    rec.expect(rec.raises(ds.get_MW, est.G, est.H, mode=norm, band_covar=V0, exact_norm=True), "direct:refuse", f"exact norm with {norm}", tr)
            for kw in (dict(mode="V^-1/2"), dict(mode="L^-1"), dict(mode="nonsense"), dict(mode="G^-1"), dict(mode="")):
                rec.expect(rec.raises(ds.get_MW, est.G, est.H, **kw), "direct:refuse", f"{kw}", tr)
        # several baselines together: the weighted data are added up
        (k1, k2), (j1, j2) = keys
        (e1, *_), (e2, *_) = ests
        a = e1.R1 @ e1.x1 + e2.R1 @ e2.x1
        z = e1.R2 @ e1.x2 + e2.R2 @ e2.x2
        want = 0.5 * np.array([np.einsum("it,ij,jt->t", a.conj(), q, z) for q in e1.Q1])
        for fft in (False, True):
            if fft and nd != nf:
                continue
            ok, q = rec.attempt("direct:q-list", ds.q_hat, [k1, j1], [k2, j2], allow_fft=fft, trace=tr)
            rec.step()
            if ok:
                d = near(q, want, 1e-7)
                rec.expect(d is None, "direct:q-list", d, tr)
        rec.expect(rec.raises(ds.q_hat, k1, k2, allow_fft=True, exact_norm=True), "direct:refuse", "exact norm by FFT", tr)
        # a beam's integral, or ones where there is none
        fr = ds.freqs[s0:s1]
        res, om, ns = ds.primary_beam.beam_normalized_response("xx", fr)
        bp = res / om[:, None]
        want = np.pi / (3.0 * ns * ns) * (bp @ bp.T)
        ok, ib = rec.attempt("direct:beam", ds.get_integral_beam, "xx", trace=tr)
        rec.expect(ok and np.allclose(ib, want, rtol=1e-12), "direct:beam", "", tr)
        ds.primary_beam = None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            ib = ds.get_integral_beam("xx")
        rec.expect(np.array_equal(ib, np.ones((nf, nf))) and any("not be normalized" in str(x.message) for x in w), "direct:beam", "without beam", tr)
        ds.spw_Ndlys = None
        rec.expect(all(rec.raises(f, k1, k2) for f in (ds.get_G, ds.get_H, ds.get_unnormed_E)), "direct:refuse", "without a number of delays", tr)


def fft(rec):
    """The FFT shortcut gives the same spectrum as the matrix product."""
    for taper, wt, flag, (s0, s1), norm in itertools.product(("none", "hann", "bh"), ("identity", "iC"), ("none", "one", "edge", "diff", "time", "mixed"), ((2, 6), (2, 7), (0, 9)), ("I", "H^-1")):
        c = dict(spw=(s0, s1), taper=taper, weight=wt, sym=True, ext=(0, 0), norm=norm)
        ds, d1, d2 = build(flag, 9)
        out = []
        for a in (False, True):
            try:
                out.append(run_pspec(ds, [PAIRS["cross"], PAIRS["rev"]], c, s1 - s0, allow_fft=a))
            except (np.linalg.LinAlgError, ValueError) as e:
                out.append(type(e).__name__)
        rec.step(2)
        rec.trace()
        a, b = out
        if isinstance(a, str) or isinstance(b, str):
            rec.expect(a == b, "fft-refusal", f"{a} {b}", c)
            continue
        if all(normal(rec, estimator(d1, d2, blp, c, s1 - s0)[0], c, False) is not None for blp in (PAIRS["cross"], PAIRS["rev"])):
            d = near(a.data_array[0], b.data_array[0], 1e-7)
            rec.expect(d is None, "fft", d, dict(c, flag=flag))
        for n, blp in enumerate((PAIRS["cross"], PAIRS["rev"])):
            est = estimator(d1, d2, blp, c, s1 - s0)[0]
            ds.set_spw((s0, s1))
            k1, k2 = (0,) + blp[0] + ("xx",), (1,) + blp[1] + ("xx",)
            d = near(ds.q_hat(k1, k2, allow_fft=True), est.q(), 1e-8)
            rec.expect(d is None, "fft-qhat", d, dict(c, flag=flag))


def units(task, rec):
    """The estimator has no scale of its own: data in any units, and in different units for the two datasets, follow the formulas."""
    from hera_pspec import PSpecData

    for wt, norm, sampling, flag, (a, b) in itertools.product(("identity", "iC", "dayenu"), ("I", "H^-1", "V^-1/2"), (False, True), ("none", "one"), ((1e-6, 1e-6), (1e6, 1e6), (1.0, 1e-5), (1e4, 1.0))):
        c = dict(spw=(2, 7), taper=task["taper"], weight=wt, sym=True, ext=(0, 0), norm=norm)
        d1, d2 = copy.deepcopy(get_uvd(1, 9, flag, "flat")), copy.deepcopy(get_uvd(2, 9, flag, "flat"))
        d1.data_array, d2.data_array = d1.data_array * a, d2.data_array * b
        tr = dict(c, sampling=sampling, flag=flag, units=(a, b))
        rec.step()
        rec.state(repr(sorted(tr.items())))
        blps = [PAIRS["cross"], PAIRS["rev"]]
        try:
            uvp = run_pspec(PSpecData([d1, d2], [None, None]), blps, c, 5, sampling=sampling)
        except ValueError as e:
            if "band-dependent" in str(e) and any(band_dependent(c, d1, d2, x, 5, sampling) for x in blps):
                continue
            rec.fail(f"units:raised:{norm}:{wt}", str(e), tr)
            continue
        except np.linalg.LinAlgError:
            rec.expect(flag != "none", f"units:linalg:{norm}:{wt}", "singular", tr)
            continue
        compare(rec, c, 5, sampling, flag, blps, uvp, d1, d2, tr)


def with_beam(task, rec):
    """A beam multiplies spectra by its scalar; exact normalisation uses the beam integral."""
    taper, weight, nd = task["taper"], task["weight"], task["nd"]
    for norm, exact, flag in itertools.product(("I", "H^-1"), (False, True), ("none", "one", "diff")):
        c = dict(spw=(2, 7), taper=taper, weight=weight, sym=True, ext=(0, 0), norm=norm)
        ds, d1, d2 = build(flag, 9, bm="arr")
        tr = dict(c, exact=exact, nd=nd, flag=flag)
        rec.step()
        rec.trace()
        if exact and norm != "I":
            rec.expect(rec.raises(run_pspec, ds, [PAIRS["cross"]], c, nd, exact_norm=True), "exact-accepted", "", tr)
            continue
        try:
            uvp = run_pspec(ds, [PAIRS["cross"], PAIRS["auto"]], c, nd, exact_norm=exact, store_cov=True)
        except np.linalg.LinAlgError:
            continue
        except ValueError as e:
            if "band-dependent" in str(e):
                continue
            rec.fail("beam:raised", str(e), tr)
            continue
        b = ds.primary_beam
        fr = ds.freqs[2:7]
        fmax = fr[0] + 5 * 1e5
        scal = b.compute_pspec_scalar(fr[0], fmax, 5, pol="xx", taper="none" if norm == "H^-1" else taper, little_h=True, num_steps=2000, exact_norm=exact)
        if not rec.expect(np.allclose(uvp.scalar_array, scal, rtol=1e-9), f"scalar:{norm}:{taper}", f"{uvp.scalar_array} != {scal}", tr):
            continue
        qn = None
        if exact:
            res, om, ns = b.beam_normalized_response("xx", fr)
            bp = res / om[:, None]
            dt = 1.0 / (nd * 1e5)
            qn = dt * np.pi / (3.0 * ns * ns) * (bp @ bp.T)
        for n, blp in enumerate((PAIRS["cross"], PAIRS["auto"])):
            est, v1, v2, sl = estimator(d1, d2, blp, c, nd, qnorm=qn)
            MW = normal(rec, est, c, False)
            if MW is None:
                continue
            M, W = MW
            f = scal * (np.atleast_1d(est.adjustment()) if norm == "I" and not exact else np.ones(1))
            d = near(uvp.data_array[0][n * 9 : n * 9 + 9, :, 0], (f[:, None] * (M @ est.q())).T, 1e-6)
            rec.expect(d is None, f"beam:power:{norm}:{exact}", d, tr)
            d = near(uvp.window_function_array[0][n * 9, :, :, 0], W.real, 1e-6)
            rec.expect(d is None, f"beam:window:{norm}:{exact}", d, tr)
            cr, ci = est.cov(M, *est.q_moments("empirical"))
            f = np.broadcast_to(f, (nd,))
            d = near(uvp.cov_array_real[0][n * 9 + 4, :, :, 0], cr * np.outer(f, f), 1e-6)
            rec.expect(d is None, f"beam:cov:{norm}:{exact}", d, tr)


def cov(task, rec):
    from hera_pspec import PSpecData  # noqa: F401

    model = task["model"]
    nvar = task["nvar"]
    for norm, nd, flag, retq, scale in itertools.product(("I", "H^-1"), (4, 3), ("none", "one", "time", "diff"), (False, True), (1.0, 1e-4)):
        if norm == "H^-1" and (flag != "none" or retq):
            continue
        if scale != 1.0 and flag not in ("none", "time"):
            continue
        nt = 4 if task["weight"] == "identity" else 7
        c = dict(spw=(2, 6), taper=task["taper"], weight=task["weight"], sym=True, ext=(0, 0), norm=norm)
        ds, d1, d2 = build(flag, nt, nvar)
        std = None
        if model == "dsets":
            std = [get_uvd(11, nt, flag, nvar), get_uvd(12, nt, flag, nvar)]
            for s in std:
                s.data_array = np.abs(s.data_array) / 50.0 + 0j
                if nvar == "flat":
                    s.data_array[:] = 0.25
                if nvar == "middle":  # first and last integration alike
                    for r in range(s.Nblts):
                        t = int(round((s.time_array[r] - U.B.T0) / U.B.DT))
                        s.data_array[r] = 0.5 if t in (0, nt - 1) else 1.5 + t
                if nvar == "second":
                    for r in range(s.Nblts):
                        if (int(s.ant_1_array[r]), int(s.ant_2_array[r])) == (0, 1):
                            s.data_array[r] = 0.5
                s.data_array *= scale
            ds.dsets_std = std
        for d in (d1, d2):
            d.data_array *= scale
        tr = dict(task, norm=norm, nd=nd, flag=flag, nvar=nvar, retq=retq, scale=scale)
        blps = [PAIRS["cross"], PAIRS["auto"]]
        rec.step()
        rec.state(repr(sorted(tr.items())))
        out = {}
        try:
            for diag in (False, True):
                out[diag] = run_pspec(ds, blps, c, nd, store_cov=not diag, store_cov_diag=diag, cov_model=model, return_q=retq)
        except np.linalg.LinAlgError:
            continue
        except Exception as e:  # noqa: BLE001
            if isinstance(e, ValueError) and "band-dependent" in str(e) and band_dependent(c, d1, d2, blps[0], nd, False):
                continue
            rec.fail(f"cov-raised:{model}", f"{type(e).__name__}: {e}", tr)
            continue
        for n, blp in enumerate(blps):
            est, v1, v2, sl = estimator(d1, d2, blp, c, nd)
            MW = normal(rec, est, c, False)
            if MW is None:
                continue
            M, W = MW
            if retq:
                M = np.eye(nd)
                f = np.ones(nd)
                want = est.q()
            else:
                f = np.broadcast_to(np.atleast_1d(est.adjustment()), (nd,)) if norm == "I" else np.ones(nd)
                want = f[:, None] * (M @ est.q())
            d = near(out[False].data_array[0][n * nt : (n + 1) * nt, :, 0], want.T, 1e-6)
            rec.expect(d is None, "cov:power" + (":q" if retq else ""), d, tr)
            n1 = n2 = None
            if model in ("autos", "foreground_dependent"):
                n1, n2 = auto_var(d1, blp[0], sl, nt), auto_var(d2, blp[1], sl, nt)
            elif model == "dsets":
                s1, s2 = vec(std[0], blp[0]), vec(std[1], blp[1])
                n1, n2 = np.abs(v1[1][sl] * s1[0][sl]) ** 2, np.abs(v2[1][sl] * s2[0][sl]) ** 2
            for t in range(nt):
                if n1 is not None and not (np.isfinite(n1[:, t]).all() and np.isfinite(n2[:, t]).all()):
                    continue
                est.edge = False
                cr, ci = est.cov(M, *est.q_moments(model, t, n1, n2))
                if est.edge:
                    continue
                ff = np.outer(f, f)
                rec.trace()
                row = n * nt + t
                d = near(out[False].cov_array_real[0][row, :, :, 0], cr * ff, 1e-6)
                rec.expect(d is None, f"cov:{model}:real:{'small' if scale < 1 else nvar}", f"{d} at time {t}", tr)
                d = near(out[False].cov_array_imag[0][row, :, :, 0], ci * ff, 1e-6)
                rec.expect(d is None or np.max(np.abs(ci)) < 1e-9 * np.max(np.abs(cr)), f"cov:{model}:imag:{'small' if scale < 1 else nvar}", f"{d} at time {t}", tr)
                st = out[True].stats_array[model + "_diag"][0][row, :, 0]
                with np.errstate(all="ignore"):
                    er, ei = np.sqrt(np.diag(cr * ff)), np.sqrt(np.diag(ci * ff))
                if np.isfinite(er).all() and np.isfinite(ei).all() and min(er.min(), ei.min()) > 1e-5 * er.max():
                    d = near(st.real, er, 1e-6) or near(st.imag, ei, 1e-6)
                    rec.expect(d is None, f"cov:{model}:diag:{'small' if scale < 1 else nvar}", f"{d} at time {t}", tr)
    rec.sample(task)


def noise_vars(model, d1, d2, std, blp, v1, v2, sl, nt):
    if model in ("autos", "foreground_dependent"):
        return auto_var(d1, blp[0], sl, nt), auto_var(d2, blp[1], sl, nt)
    if model == "dsets":
        s1, s2 = vec(std[0], blp[0]), vec(std[1], blp[1])
        return np.abs(v1[1][sl] * s1[0][sl]) ** 2, np.abs(v2[1][sl] * s2[0][sl]) ** 2
    return None, None


def cov_ext(task, rec):
    """Covariances when the weighting reaches beyond the window, on either side."""
    model, wt = task["model"], task["weight"]
    nt = 9
    for (spw, ext), taper, norm, flag in itertools.product((((2, 6), (1, 1)), ((2, 6), (0, 2)), ((3, 7), (2, 0)), ((2, 6), (0, 0))), ("none", "hann"), ("I", "H^-1"), ("none", "time")):
        c = dict(spw=spw, taper=taper, weight=wt, sym=False, ext=ext, norm=norm)
        ds, d1, d2 = build(flag, nt, "second")
        std = [get_uvd(11, nt, flag, "flat"), get_uvd(12, nt, flag, "flat")]
        for s in std:
            s.data_array = np.abs(s.data_array) / 50.0 + 0j
        ds.dsets_std = std
        tr = dict(task, **c, flag=flag)
        rec.step()
        rec.state(repr(sorted(tr.items())))
        blps = [PAIRS["cross"], PAIRS["auto"]]
        try:
            uvp = run_pspec(ds, blps, c, 4, store_cov=True, cov_model=model)
        except np.linalg.LinAlgError:
            continue
        except ValueError as e:
            if "band-dependent" in str(e) and any(band_dependent(c, d1, d2, b, 4, False) for b in blps):
                continue
            rec.fail(f"covext:raised:{model}:{wt}", str(e), tr)
            continue
        for n, blp in enumerate(blps):
            est, v1, v2, sl = estimator(d1, d2, blp, c, 4)
            MW = normal(rec, est, c, False)
            if MW is None:
                continue
            f = np.broadcast_to(np.atleast_1d(est.adjustment()), (4,)) if norm == "I" else np.ones(4)
            n1, n2 = noise_vars(model, d1, d2, std, blp, v1, v2, sl, nt)
            for t in (0, 1, nt - 1):
                est.edge = False
                cr, ci = est.cov(MW[0], *est.q_moments(model, t, n1, n2))
                if est.edge:
                    continue
                rec.trace()
                for nm, a, b in (("real", uvp.cov_array_real, cr), ("imag", uvp.cov_array_imag, ci)):
                    r = near(a[0][n * nt + t, :, :, 0], b * np.outer(f, f), 1e-6)
                    rec.expect(r is None or np.abs(b).max() < 1e-9 * np.abs(cr).max(), f"covext:{model}:{nm}:{wt}", f"{r} at time {t}", tr)


def pols(task, rec):
    """Each polarization pair uses its own visibilities, flags and sample counts, in every order of the requested pairs."""
    from hera_pspec import PSpecData

    nt = 9 if task["weight"] == "iC" else 4
    names = ("xx", "yy")
    variants = {
        "flat": (None, None),
        "flags": (lambda bl, p, t, nf: pattern("one" if p == -5 else "diff", bl, t, nt), None),
        "ints": (lambda bl, p, t, nf: pattern("time" if p == -6 else "none", bl, t, nt), None),
        "nsamp": (None, lambda bl, p, t, nf: (1.0 if p == -5 else 3.0) + t + (bl == (1, 2))),
        "nsamp-chan": (lambda bl, p, t, nf: pattern("one" if p == -5 else "edge", bl, t, nt), lambda bl, p, t, nf: 1.0 + (np.arange(nf) * (1 if p == -5 else 2)) % 5),
        "missing": (None, lambda bl, p, t, nf: 0.0 if (p == -6 and t == 1) else 2.0),
    }
    for name in (task["data"],):
        fl, ns = variants[name]
        d1, d2 = [U.uvdata(bls=((0, 1), (1, 2)), times=tuple(range(nt)), nf=NF, salt=s, flags=fl, nsamp=ns or (lambda *a: 1.0), pols=(-5, -6), autos=True, ants=(0, 1, 2),
                           integ=lambda bl, t, s=s: 10.0 + (bl == (1, 2)) * 2 + t + 5.0 * (s % 2)) for s in (1, 2)]
        for pps, norm, model in itertools.product(
            ([(0, 0)], [(1, 1)], [(0, 0), (1, 1)], [(1, 1), (0, 0)], [(0, 1)], [(0, 1), (1, 0), (1, 1)]), ("I", "H^-1", "V^-1/2"), ("empirical", "autos")
        ):
            if norm == "V^-1/2" and nt < 9:
                continue
            c = dict(spw=(2, 7), taper=task["taper"], weight=task["weight"], sym=True, ext=(0, 0), norm=norm)
            tr = dict(task, norm=norm, pairs=pps, data=name, model=model)
            blps = [PAIRS["cross"], PAIRS["rev"], PAIRS["auto"]]
            ds = PSpecData([U.light(d1), U.light(d2)], [None, None])
            rec.step()
            rec.state(repr(sorted(tr.items())))
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    uvp = ds.pspec([b[0] for b in blps], [b[1] for b in blps], (0, 1), [(names[a], names[b]) for a, b in pps], spw_ranges=[(0, 4), (2, 7)], n_dlys=[4, 5],
                                   input_data_weight=c["weight"], norm=norm, taper=c["taper"], verbose=False, baseline_tol=100.0, store_cov=norm != "V^-1/2", cov_model=model)
            except np.linalg.LinAlgError:
                continue
            except ValueError as e:
                if "band-dependent" in str(e) and c["weight"] == "identity" and norm == "I":
                    if any(band_dependent_ks(dict(c, spw=w), d1, d2, b, w[1] - w[0], ks) for b in blps for ks in pps for w in ((0, 4), (2, 7))):
                        continue
                rec.fail(f"pols:raised:{norm}", str(e), tr)
                continue
            for (s, spw), (k, ks), (n, blp) in itertools.product(enumerate(((0, 4), (2, 7))), enumerate(pps), enumerate(blps)):
                cc = dict(c, spw=spw)
                nd = spw[1] - spw[0]
                est, v1, v2, sl = estimator(d1, d2, blp, cc, nd, ks=ks)
                rows = slice(n * nt, (n + 1) * nt)
                rec.trace()
                r = near(uvp.wgt_array[s][rows, :, :, k], np.stack([v1[1][sl].T, v2[1][sl].T], axis=2))
                rec.expect(r is None, "pols:weights", r, tr)
                r = near(uvp.integration_array[s][rows, k], integ(v1, v2, sl))
                rec.expect(r is None, "pols:integration", r, tr)
                MW = normal(rec, est, cc, False)
                if MW is None:
                    continue
                f = np.broadcast_to(np.atleast_1d(est.adjustment()), (nd,)) if norm == "I" else np.ones(nd)
                r = near(uvp.data_array[s][rows, :, k], (f[:, None] * (MW[0] @ est.q())).T, 1e-6)
                rec.expect(r is None, f"pols:power:{norm}", r, tr)
                r = near(uvp.window_function_array[s][rows, :, :, k], np.repeat(MW[1].real[None], nt, 0), 1e-6)
                rec.expect(r is None, f"pols:window:{norm}", r, tr)
                if norm == "V^-1/2":
                    continue
                n1 = n2 = None
                if model == "autos":
                    n1, n2 = auto_var(d1, blp[0], sl, nt, ks[0]), auto_var(d2, blp[1], sl, nt, ks[1])
                for t in (0, 1, nt - 1):
                    if n1 is not None and not (np.isfinite(n1[:, t]).all() and np.isfinite(n2[:, t]).all()):
                        continue
                    cr, ci = est.cov(MW[0], *est.q_moments(model, t, n1, n2))
                    r = near(uvp.cov_array_real[s][n * nt + t, :, :, k], cr * np.outer(f, f), 1e-6)
                    rec.expect(r is None, f"pols:cov:{model}", f"{r} at time {t}", tr)


def band_dependent_ks(c, d1, d2, blp, nd, ks):
    est = estimator(d1, d2, blp, c, nd, ks=ks)[0]
    G, H = est.response(False), est.response(True)
    with np.errstate(all="ignore"):
        r = H.sum(1).real / G.sum(1).real
    r[~np.isfinite(r)] = 1.0
    return bool((np.abs(r - r.mean()) > 0.5e-4 * r.mean()).any())


def self_pairs(task, rec):
    """A baseline with itself in one dataset: real spectra, finite error bars."""
    from hera_pspec import PSpecData

    for salt, taper, wt, norm, model, spw in itertools.product((1, 2, 3), ("none", "hann", "bh"), ("identity", "iC"), ("I", "H^-1"), ("empirical", "autos"), ((2, 6), (2, 7))):
        c = dict(spw=spw, taper=taper, weight=wt, sym=True, ext=(0, 0), norm=norm)
        nd = spw[1] - spw[0]
        d = get_uvd(salt, 9, "none", "flat")
        tr = dict(c, model=model, salt=salt)
        rec.step()
        rec.state(repr(sorted(tr.items())))
        blps = [((0, 1), (0, 1)), ((1, 2), (1, 2))]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                uvp = PSpecData([d], [None]).pspec([b[0] for b in blps], [b[1] for b in blps], (0, 0), [("xx", "xx")], spw_ranges=[spw], input_data_weight=wt, norm=norm, taper=taper,
                                                   verbose=False, store_cov_diag=True, cov_model=model)
            except np.linalg.LinAlgError:
                continue
        for n, blp in enumerate(blps):
            est, v1, v2, sl = estimator(d, d, blp, c, nd)
            MW = normal(rec, est, c, False)
            if MW is None:
                continue
            f = np.broadcast_to(np.atleast_1d(est.adjustment()), (nd,)) if norm == "I" else np.ones(nd)
            n1, n2 = noise_vars(model, d, d, None, blp, v1, v2, sl, 9)
            for t in (0, 4):
                rec.trace()
                cr, ci = est.cov(MW[0], *est.q_moments(model, t, n1, n2))
                want = np.diag(cr) * f * f
                st = uvp.stats_array[model + "_diag"][0][n * 9 + t, :, 0]
                ok = want > 1e-9 * want.max()
                rec.expect(np.allclose(st.real[ok] ** 2, want[ok], rtol=1e-5, atol=1e-9 * want.max()), f"self:{model}:real", f"{st} variance {want}", tr)
                if np.max(np.abs(np.diag(ci) * f * f)) > 1e-6 * want.max():
                    r = near(st.imag**2, np.diag(ci) * f * f, 1e-6)
                    rec.expect(r is None, f"self:{model}:imag", r, tr)
                else:
                    rec.expect(bool(np.all(st.imag**2 <= 1e-6 * want.max())), f"self:{model}:imag-zero", f"{st.imag}", tr)


def auto_var(d, bl, sl, nt, k=0):
    """|V_aa V_bb| / (B dt N) with missing sample counts replaced by the median of the others."""
    a, b = vec(d, (bl[0], bl[0]), k), vec(d, (bl[1], bl[1]), k)
    ns = vec(d, bl, k)[2][sl]
    out = np.zeros((ns.shape[0], nt))
    for t in range(nt):
        n = ns[:, t].copy()
        n[n <= 0] = np.median(n[n > 0]) if np.any(n > 0) else 0
        with np.errstate(all="ignore"):
            out[:, t] = np.where(n == 0, np.inf, np.abs(a[0][sl][:, t] * b[0][sl][:, t].conj()) / np.median(d.integration_time) / d.channel_width[sl] / n)
    return out
