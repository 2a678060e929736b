"""C36 - thermal sensitivities follow the current cosmology and beam; bias corrections scale exactly what they state."""

import copy
import itertools
import warnings

import numpy as np

from mc import algebra as A
from mc import build as B
from mc import table as T
from mc.checks import c27, c31

PID = "C36"
LEVEL = "model_checking"
RULE = (
    "Sensitivity: every sequence of 4 (thorough 5) operations (cosmology as object, dict or text, beam with own, other or no cosmology, scalar of two bands and two polarizations, noise level) "
    "against a record of the cosmology, beam and scalar in force. Noise level: every combination of scalar, temperature, time, averaging, form, component. Bias corrections: every correction and every sequence of 2 (thorough 3) "
    "corrections over (reduced) total x data-only factors x in place or not, and with operations (fold, average, select) on objects with every combination of windows, covariances and "
    "statistics, against a label-keyed table. States are records or tables; transitions are calls."
)
ASSUMPTIONS = ["fewer quadrature steps than the default in the scalar", "a scalar stays in force until it is calculated again", "correction factors are positive numbers keyed by window"]
BANDS = {"lo": (1.02e8, 1.10e8, 8), "hi": (1.10e8, 1.14e8, 5)}
COS = {"A": {}, "B": {"H0": 70.0, "Om_c": 0.3}}


def tasks(tier, seed):
    full = tier == "thorough"
    out = [dict(mode="sense", first=o, depth=5 if full else 4) for o in SOPS]
    out += [dict(mode="level")]
    out += [dict(mode="bias", cov=c, stats=s, nspw=n, folded=f, depth=3 if full else 2) for c in (0, 1) for s in (0, 1, 2) for n in (1, 2) for f in (0, 1)]
    return out


def run(task, rec):
    c27.memo()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        globals()["run_" + task["mode"]](task, rec)


# ---------------------------------------------------------------- sensitivity
SOPS = ["cosA", "cosBdict", "cosBtext", "beam1", "beam2B", "beam0", "lo-1", "hi-5", "hi-5m", "pn"]
_REF = {}


def ref_scalar(cos, ver, band, pol, steps=200):
    """Bandwidth over the band integral of Omega_PP / Omega_P^2 / X2Y."""
    k = (cos, ver, band, pol)
    if k not in _REF:
        lo, hi, n = BANDS[band]
        f = np.linspace(lo, hi - (hi - lo) / n, n)
        f = np.linspace(f.min(), f.max(), steps)
        z = c27.F21 / f - 1
        co = c27.Cosmo(**COS[cos])
        x2y = co.dm(z, True) ** 2 * co.drdf(z, True)
        _REF[k] = (f[-1] - f[0]) / np.trapezoid(c31.ratio(pol, ver, f) / x2y, f)
    return _REF[k]


def run_sense(task, rec):
    for rest in itertools.product(SOPS, repeat=task["depth"] - 1):
        seq = (task["first"],) + rest
        # only sequences whose last step is an observation; the others are their prefixes
        if seq[-1] not in ("lo-1", "hi-5", "hi-5m", "pn"):
            continue
        rec.trace()
        replay(seq, rec, dict(task, seq=seq))


def replay(seq, rec, tr):
    from hera_pspec import conversions, noise

    s = noise.Sensitivity()
    cos = ver = scal = None
    beams = {}
    for op in seq:
        rec.step()
        if op.startswith("cos"):
            v = conversions.Cosmo_Conversions(**COS["A"]) if op == "cosA" else dict(COS["B"]) if op == "cosBdict" else str(COS["B"])
            ok, _ = rec.attempt("sense:cosmo", s.set_cosmology, v, trace=tr)
            cos = op[3]
        elif op.startswith("beam"):
            n = int(op[4])
            if op not in beams:
                beams[op] = c31.array_beam(cosmo=conversions.Cosmo_Conversions(**COS["B" if op.endswith("B") else "A"]), ver=n)
                if op == "beam0":
                    del beams[op].cosmo
                beams[op].own = None if op == "beam0" else "B" if op.endswith("B") else "A"
            b = beams[op]
            if cos is None and b.own is None:
                rec.expect(rec.raises(s.set_beam, b), "sense:nocosmo", "beam without any cosmology accepted", tr)
                continue
            ok, _ = rec.attempt("sense:beam", s.set_beam, b, trace=tr)
            if cos is None:
                cos = b.own
            b.own = cos
            ver = n
        elif op == "pn":
            if scal is None:
                rec.expect(rec.raises(s.calc_P_N, 300.0, 10.0), "sense:noscalar", "noise level without a scalar", tr)
            else:
                ok, p = rec.attempt("sense:pn", s.calc_P_N, 300.0, 10.0, Ncoherent=3, Nincoherent=4, component="abs", trace=tr)
                if ok:
                    want = scal * 300e3**2 / 30.0 / 2
                    rec.expect(abs(p / want - 1) < 1e-6, "sense:pn", f"{p} {want}", tr)
        else:
            band, pol = op[:2], 1 if op[3] == "1" else -5
            lo, hi, n = BANDS[band]
            f = np.linspace(lo, hi, n, endpoint=False)
            if ver is None:
                rec.expect(rec.raises(s.calc_scalar, f, "pI"), "sense:nobeam", "", tr)
                continue
            ok, _ = rec.attempt("sense:scalar", s.calc_scalar, f, pol if band == "hi" else "pI", num_steps=200, trace=tr, **(dict(little_h=False) if op[4:] else {}))
            if ok:
                scal = ref_scalar(cos, ver, band, pol)
                if op[4:]:  # in Mpc^3
                    scal = scal / (COS[cos].get("H0", 67.27) / 100.0) ** 3
                rec.expect(abs(s.scalar / scal - 1) < 1e-6, "sense:scalar", f"{s.scalar} {scal}", tr)
                rec.expect(np.array_equal(s.subband, f), "sense:subband", "", tr)
        if cos is not None:
            want = COS[cos].get("H0", 67.27)
            rec.expect(s.cosmo.H0 == want, "sense:cosmology", f"{s.cosmo.H0}", tr)
            if ver is not None:
                rec.expect(s.beam.cosmo.H0 == want, "sense:beamcosmology", f"{s.beam.cosmo.H0}", tr)
    rec.state((cos, ver, scal))


def run_level(task, rec):
    from hera_pspec import noise

    k = np.array([0.1, 0.2, 0.7])
    keep = k.copy()
    s = noise.Sensitivity()
    for sc, T_, t, nc, ni, form, comp in itertools.product((1.0, 2.5e9), (180.0, 400.0), (10.7, 3600.0), (1, 4), (None, 1, 9), ("Pk", "DelSq"), ("abs", "real", "imag")):
        tr = dict(task, args=(sc, T_, t, nc, ni, form, comp))
        rec.step()
        rec.trace()
        rec.state(tr["args"])
        want = sc * (T_ * 1e3) ** 2 / (t * nc) / np.sqrt(ni or 1) / (1 if comp == "abs" else np.sqrt(2)) * (k**3 / (2 * np.pi**2) if form == "DelSq" else 1)
        s.scalar = sc
        kw = dict(Ncoherent=nc, Nincoherent=ni, form=form, k=k, component=comp)
        for fn in (lambda: noise.calc_P_N(sc, T_, t, **kw), lambda: s.calc_P_N(T_, t, **kw)):
            ok, p = rec.attempt("level", fn, trace=tr)
            if ok:
                rec.expect(np.shape(p) == np.shape(want) and np.allclose(p, want, rtol=1e-12, atol=0), "level:value", f"{p} {want}", tr)
        if form == "DelSq":
            kw["k"] = None
            rec.expect(rec.raises(noise.calc_P_N, sc, T_, t, **kw), "level:nok", "", tr)
    rec.expect(np.array_equal(k, keep), "level:mutated", "", task)
    for bad in (dict(form="pk"), dict(component="phase")):
        rec.expect(rec.raises(noise.calc_P_N, 1.0, 1.0, 1.0, **bad) and rec.raises(s.calc_P_N, 1.0, 1.0, **bad), "level:refuse", repr(bad), task)


# ---------------------------------------------------------------- bias corrections
FACT = {"n": None, "a": {0: 2.0, 1: 0.25}, "b": {0: 1.5, 1: 1.5}, "np": {np.int64(0): 0.5, np.uint16(1): 4.0, 7: 3.0}, "bad": {0: 2.0}, "bad1": {1: 2.0}, "empty": {}}


def scaled(v, total, data, spws):
    """The algebra view of a corrected object."""
    out = copy.deepcopy(v)
    for key, c in cells(out):
        i = spws.index(key[0])
        t = 1.0 if total is None else total[i]
        d = 1.0 if data is None else data[i]
        for f in c:
            if f == "data":
                c[f] = c[f] * t * d
            elif f in ("covr", "covi"):
                c[f] = c[f] * t**2
            elif f.startswith("stat:"):
                c[f] = c[f] * t
    return out


def cells(v):
    return list(v.items())


def run_bias(task, rec):
    from hera_pspec import loss

    spws = [(0, 6, 6), (10, 5, 5)][: task["nspw"]]
    cfg = dict(spws=spws, cov=bool(task["cov"]), stats=["P_N", "P_SN"][: task["stats"]], pols=[(-5, -5), (-6, -6)], win=True)
    names = [n for n in FACT if task["nspw"] == 2 or n not in ("bad1", "bad")]

    def make():
        u = B.uvp(**cfg)
        for st in getattr(u, "stats_array", {}):
            for i in u.spw_array:
                u.stats_array[st][i] = u.stats_array[st][i].real + 0j  # errors are real
        if task["folded"]:
            u.fold_spectra()
        return u

    ref = make()
    base = T.table(ref)
    skip = ("data_array", "cov_array_real", "cov_array_imag", "stats_array")
    attrs = T.attrs(ref, skip=skip)
    keys = [T.spw_key(ref, i) for i in range(len(spws))]
    steps = list(itertools.product(names, names, (True, False)))
    need = range(task["nspw"])
    # longer sequences over fewer forms of each factor
    d1, d2 = (("n", "a", "bad"), ("n", "b", "empty")) if task["depth"] == 2 else (("n", "a", "b", "bad", "empty"),) * 2
    two = [s for s in steps if s[0] in d1 and s[1] in d2]
    seqs = [(s,) for s in steps] + list(itertools.product(two, repeat=2))
    if task["depth"] == 3:
        short = [s for s in steps if s[0] in ("n", "a", "bad") and s[1] in ("n", "b", "bad1")]
        seqs += list(itertools.product(short, repeat=3))
    for seq in seqs:
        rec.trace()
        tr = dict(task, seq=seq)
        u, want = make(), base
        for total, data, inplace in seq:
            rec.step()
            t, d = FACT[total], FACT[data]
            refuse = any(f is not None and any(i not in f for i in need) for f in (t, d))
            kt, kd = copy.copy(t), copy.copy(d)
            if refuse:
                rec.expect(rec.raises(loss.apply_bias_correction, u, t, d, inplace), "bias:refuse", "a correction without a factor for a window was accepted", tr)
                df = T.diff(T.table(u), want)
                rec.expect(not df, "bias:partial", f"refused correction changed the object: {df}", tr)
                continue
            ok, r = rec.attempt("bias:call", loss.apply_bias_correction, u, total_bias=t, data_bias=d, inplace=inplace, trace=tr)
            if not ok:
                break
            rec.expect(t == kt and d == kd, "bias:args", "", tr)
            new = scaled(want, t, d, keys)
            if inplace:
                rec.expect(r is u, "bias:inplace", "", tr)
            else:
                df = T.diff(T.table(u), want)
                rec.expect(r is not u and not df, "bias:copy", f"original changed: {df}", tr)
            u, want = r, new
            df = T.diff(T.table(u), want, rtol=1e-13)
            rec.expect(not df, "bias:value", df, tr)
        df = T.attr_diff(T.attrs(u, skip=skip), attrs)
        rec.expect(not df, "bias:attrs", df, tr)
        rec.state(seq)
    # a correction and the algebra commute
    u0 = make()
    blps = [list(dict.fromkeys(u0.blpair_array.tolist()))]
    ops = {
        "avg": lambda u: u.average_spectra(blpair_groups=blps, time_avg=True, inplace=False, error_field="P_N" if task["stats"] else None),
        "pol": lambda u: u.select(polpairs=[(-6, -6)], inplace=False),
        "blp": lambda u: u.select(blpairs=blps[0][:1], inplace=False),
        "fold": lambda u: fold(u),
    }

    def fold(u):
        u = copy.deepcopy(u)
        u.fold_spectra()
        return u

    for name, (t, d) in itertools.product(ops, ((FACT["a"], None), (None, FACT["b"]), (FACT["a"], FACT["b"]))):
        if name == "fold" and task["folded"]:
            continue
        rec.trace()
        rec.step(2)
        tr = dict(task, op=name, t=t, d=d)
        ok, x = rec.attempt("bias:then", lambda: ops[name](loss.apply_bias_correction(make(), t, d, inplace=False)), trace=tr)
        ok2, y = rec.attempt("bias:after", lambda: loss.apply_bias_correction(ops[name](make()), t, d), trace=tr)
        if ok and ok2:
            df = T.diff(T.table(x), T.table(y), rtol=1e-12, atol=1e-12)
            rec.expect(not df, f"bias:commute:{name}", df, tr)
