"""C31 - a beam model answers every polarization with its own solid angles; factors and scalars follow from them."""

import copy
import itertools
import os
import shutil
import warnings

import numpy as np

from mc import pscutil, uvd as V
from mc.checks import c27

PID = "C31"
LEVEL = "model_checking"
RULE = (
    "Array beams: every sequence of 3 (thorough 4) operations (construct from array / dict in every key spelling, add and overwrite a polarization, refused additions, caller "
    "changing the arrays afterwards) against a map from polarization to curves, queried after every step in every spelling. Every list of up to 3 polarization "
    "pairs. Every beam class x polarization x frequency argument: Jy-to-mK factor; x band x number of channels x taper x units x cosmology: scalar. "
    "UVBeam objects (power, e-field, pseudo-Stokes, file or object). PSpecData.Jy_to_mK: every combination of 1-3 datasets by polarizations, units, band, shared objects, standard "
    "deviations, and every sequence of conversions and additions. States are (beam or dataset contents); transitions are calls."
)
ASSUMPTIONS = ["solid angles are smooth over the beam's channels (curves the library's quadratic interpolation reproduces exactly)", "fewer quadrature steps than the default in the scalar"]
C_CGS, K_CGS = 2.99792458e10, 1.38064852e-16
F = 1.0e8 + 4.0e6 * np.arange(7)
POL = {1: "pI", 2: "pQ", 3: "pU", 4: "pV", -5: "xx", -6: "yy", -7: "xy", -8: "yx"}


# ---------------------------------------------------------------- curves
def om(pol, ver, f=F):
    """Omega_P: a quadratic in frequency of this polarization and version."""
    x = (np.asarray(f, float) - 1.0e8) / 2.0e7
    k = list(POL).index(pol)
    return 0.02 * (1 + 0.11 * k + 0.4 * ver) * (1 - (0.1 + 0.01 * k) * x + 0.03 * (ver + 1) * x**2)


def ratio(pol, ver, f=F):
    """Omega_PP / Omega_P^2: another quadratic."""
    x = (np.asarray(f, float) - 1.0e8) / 2.0e7
    k = list(POL).index(pol)
    return 25.0 * (1 + 0.07 * k + 0.2 * ver) * (1 + 0.08 * x - (0.02 + 0.01 * k) * x**2)


def pair(pol, ver, f=F):
    return om(pol, ver, f), ratio(pol, ver, f) * om(pol, ver, f) ** 2


def factor(f, omega):
    return 1e-20 * C_CGS**2 / (2 * K_CGS * np.asarray(f, float) ** 2 * omega)


def near(a, b, rtol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=0)


def spell(pol, xo=None):
    """spellings of one polarization"""
    s = [pol, np.int64(pol), POL[pol], POL[pol].upper()]
    if xo == "east" and pol in (-5, -6, -7, -8):
        s += [{"x": "e", "y": "n"}[POL[pol][0]] + {"x": "e", "y": "n"}[POL[pol][1]]]
    return s


def tasks(tier, seed):
    V.warm()
    c27.memo()
    full = tier == "thorough"
    out = [dict(mode="arr", start=i, full=full) for i in range(len(STARTS))]
    out += [dict(mode="omegas", full=full), dict(mode="factor", full=full), dict(mode="uv", full=full)]
    out += [dict(mode="scalar", n=n, full=full) for n in (2, 3, 5, 8)]
    out += [dict(mode="data", n=n, part=i, full=full) for n in (1, 2, 3) for i in range(1 if n == 1 else 2)]
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c27.memo()
        globals()["run_" + task["mode"]](task, rec)


# ---------------------------------------------------------------- array beams
STARTS = [
    ("array", [1], None), ("dict-int", [-5], None), ("dict-str", [-5, -6], None), ("dict-str", [1, 2], None), ("dict-mixed", [1, -5, -8], None),
    ("dict-xo", [-5, -6, -7], "east"), ("dict-str", [4, 3, 2, 1, -8, -7, -6, -5], None), ("dict-list", [-6, 1], None),
]
OPS = ["add-new", "add-over", "add-str", "add-list", "bad-shape", "bad-shape2", "bad-pol", "bad-value", "touch-args", "touch-dict"]


def run_arr(task, rec):
    from hera_pspec import pspecbeam

    form, pols, xo = STARTS[task["start"]]
    depth = 4 if task["full"] else 3
    for ops in itertools.product(OPS, repeat=depth):
        tr = dict(form=form, pols=pols, xo=xo, ops=ops)
        rec.trace()
        # construct
        curves = {p: pair(p, 0) for p in pols}
        args = [{}, {}]
        if form == "array":
            args = [curves[1][0].copy(), curves[1][1].copy()]
        else:
            for i, p in enumerate(pols):
                sp = spell(p, xo)
                key = {"dict-int": p, "dict-str": POL[p] if i % 2 else POL[p].upper(), "dict-mixed": sp[i % 3], "dict-xo": sp[-1], "dict-list": sp[2 * i % 3]}[form]
                for j in (0, 1):
                    c = curves[p][j].copy()
                    args[j][key] = list(c) if form == "dict-list" else c
        keep = [copy.deepcopy(a) for a in args]
        rec.step()
        ok, b = rec.attempt("construct", pspecbeam.PSpecBeamFromArray, args[0], args[1], F.copy(), x_orientation=xo, trace=tr)
        if not ok:
            return
        if form != "array":
            rec.expect(all(list(a) == list(k) and all(np.array_equal(a[q], k[q]) for q in k) for a, k in zip(args, keep)), "construct:arguments-changed", f"{list(args[0])} vs {list(keep[0])}", tr)
        model = {p: 0 for p in pols}
        passed = []
        for n, op in enumerate(ops):
            free = [p for p in POL if p not in model]
            ver = n + 1
            rec.step()
            if op in ("add-new", "add-over", "add-str", "add-list"):
                p = (free or list(model))[0] if op == "add-new" else sorted(model)[-1] if op == "add-over" else (list(model) + free)[n % 8]
                key = {"add-str": POL[p].upper(), "add-list": np.int64(p)}.get(op, p)
                a = [c.copy() for c in pair(p, ver)]
                passed.append(a)
                rec.attempt("add_pol", b.add_pol, key, *([list(x) for x in a] if op == "add-list" else a), trace=tr)
                model[p] = ver
            elif op == "bad-shape":
                rec.expect(rec.raises(b.add_pol, "xx", om(-5, 3)[:-1], om(-5, 3)), "add_pol:shape", "", tr)
            elif op == "bad-shape2":
                rec.expect(rec.raises(b.add_pol, (free or [1])[0], om(-5, 3), om(-5, 3)[None]), "add_pol:shape", "", tr)
            elif op == "bad-pol":
                rec.expect(rec.raises(b.add_pol, -1, *pair(-5, 3)) and rec.raises(b.add_pol, "xq", *pair(-5, 3)), "add_pol:pol", "", tr)
            elif op == "bad-value":
                rec.expect(rec.raises(b.add_pol, -5, "abc", om(-5, 3)), "add_pol:value", "", tr)
            elif op == "touch-args":
                for a in passed:
                    for x in a:
                        x *= 7.0
            elif op == "touch-dict":
                for d in args:
                    for x in d.values() if isinstance(d, dict) else [d]:
                        if isinstance(x, np.ndarray):
                            x += 1.0
            observe(b, model, xo, rec, tr)
    for bad in ((om(1, 0), {1: om(1, 0)}), ({1: om(1, 0)}, {2: om(1, 0)}), ({1: om(1, 0), -5: om(1, 0)}, {1: om(1, 0)}), ({-1: om(1, 0)}, {-1: om(1, 0)}), ({1: om(1, 0)[1:]}, {1: om(1, 0)}), (3.0, 4.0)):
        rec.expect(rec.raises(pspecbeam.PSpecBeamFromArray, *bad, F), "construct:bad", f"{bad}")


def observe(b, model, xo, rec, tr):
    rec.state((xo, sorted(model.items())))
    for p in POL:
        for s in spell(p, xo):
            for fn, j in ((b.power_beam_int, 0), (b.power_beam_sq_int, 1)):
                rec.step()
                if p in model:
                    ok, got = rec.attempt("query", fn, s, trace=tr)
                    if ok:
                        rec.expect(np.array_equal(got, pair(p, model[p])[j]), "query:value", f"{s!r} {'PP' if j else 'P'}", tr)
                else:
                    rec.expect(rec.raises(fn, s), "query:absent", f"{s!r} answered", tr)
    if xo is None:
        if 1 in model:
            rec.expect(np.array_equal(b.power_beam_int(), om(1, model[1])), "query:default", "", tr)
        names = {x.strip().lower() for x in b.available_pols.split(",")}
        rec.expect(names == {POL[p].lower() for p in model}, "available", b.available_pols, tr)


def array_beam(pols=(1, -5, -6, -7), cosmo=None, ver=0, f=F):
    from hera_pspec import pspecbeam

    return pspecbeam.PSpecBeamFromArray({p: pair(p, ver, f)[0] for p in pols}, {p: pair(p, ver, f)[1] for p in pols}, f, cosmo=cosmo)


def run_omegas(task, rec):
    b = array_beam((1, 2, -5, -6))
    forms = [lambda p, q: (p, q), lambda p, q: (POL[p], POL[q]), lambda p, q: (p + 20) * 100 + q + 20, lambda p, q: np.int64((p + 20) * 100 + q + 20), lambda p, q: (p, POL[q]), lambda p, q: (np.int64(p), np.int32(q))]
    known = [(p, p) for p in (1, 2, -5, -6)]
    others = [(-7, -7), (-5, -6), (1, -5)]
    for n in (1, 2, 3):
        for c, combo in enumerate(itertools.product(known + others, repeat=n)):
            for k in range(len(forms)):
                arg = [forms[(k + i) % len(forms)](*pp) for i, pp in enumerate(combo)]
                shapes = [arg]
                if k in (2, 3) and n == 1:
                    shapes += [arg[0], np.array(arg)]
                elif k == 0 and n == 1:
                    shapes += [arg[0], np.array(arg)]
                for a in shapes:
                    tr = dict(polpairs=repr(a))
                    rec.step()
                    rec.trace()
                    if any(pp in others for pp in combo):
                        rec.expect(rec.raises(b.get_Omegas, a), "omegas:accepted", "a pair of different or unknown polarizations was answered", tr)
                        continue
                    ok, r = rec.attempt("omegas", b.get_Omegas, a, trace=tr)
                    if ok:
                        want = [np.array([pair(p, 0)[j] for p, _ in combo]).T for j in (0, 1)]
                        rec.expect(near(r[0], want[0], 1e-14) and near(r[1], want[1], 1e-14), "omegas:value", "", tr)
                    rec.state(("omegas", combo, k))
    for bad in ("xx", 3.5, None, {1: 2}):
        rec.expect(rec.raises(b.get_Omegas, bad), "omegas:type", repr(bad))


# ---------------------------------------------------------------- factors
def gauss(fwhm=0.15, f=F, cosmo=None):
    from hera_pspec import pspecbeam

    return pspecbeam.PSpecBeamGauss(fwhm, f, cosmo=cosmo)


def curves_of(kind, pol):
    """(Omega_P(f), Omega_PP(f)) as functions"""
    if kind == "arr":
        return (lambda f: om(pol, 0, f)), (lambda f: ratio(pol, 0, f) * om(pol, 0, f) ** 2)
    if kind == "gauss":
        s2 = 0.15**2 / (8 * np.log(2))  # sigma^2: the integral of exp(-r^2 / 2 sigma^2) is 2 pi sigma^2, of its square pi sigma^2
        return (lambda f: 2 * np.pi * s2 + 0 * np.asarray(f, float)), (lambda f: np.pi * s2 + 0 * np.asarray(f, float))
    k = {-5: 0, -6: 1, 1: 0, 2: 1, 3: 2, 4: 3}[pol]
    pix = 4 * np.pi / NPIX

    def resp(f):
        return uv_resp(k, np.atleast_1d(np.asarray(f, float)))

    return (lambda f: resp(f).sum(1) * pix), (lambda f: (resp(f) ** 2).sum(1) * pix)


NSIDE = 2
NPIX = 12 * NSIDE**2


def uv_resp(k, f):
    """power response (freq, pixel) of polarization number k; the peak is 1; linear in frequency"""
    x = ((f - 1.0e8) / 2.4e7)[:, None]
    i = np.arange(NPIX)[None]
    r = np.abs(((i * (7 + 2 * k) + 3 * k) % 23) / 40.0 * (1 + 0.3 * x))
    r = np.where(i == 4 * k + 3, 1.0, r)
    return r


def uvbeam(pols=(-5, -6), f=F):
    from pyuvdata import UVBeam

    data = np.array([[uv_resp(i, f) for i in range(len(pols))]])
    kw = dict(x_orientation="east", feed_array=np.array(["x", "y"]), feed_angle=np.array([np.pi / 2, 0]), mount_type="fixed")
    if pols[0] > 0:
        kw = {}
    return UVBeam.new(telescope_name="t", data_normalization="peak", freq_array=f.copy(), feed_name="f", polarization_array=np.array(pols), nside=NSIDE, healpix_pixel_array=np.arange(NPIX), ordering="ring", data_array=data, **kw)


def run_factor(task, rec):
    from hera_pspec import pspecbeam

    beams = {"arr": (array_beam(), (1, -5, -6, -7)), "gauss": (gauss(), (1, -5, 2)), "uv": (pspecbeam.PSpecBeamUV(uvbeam()), (-5, -6))}
    lo, hi = F[0], F[-1]
    grids = [np.array([lo + x * (hi - lo)]) for x in (0, 0.5, 1)] + [np.linspace(lo, hi, n) for n in (2, 5, 12)]
    grids += [np.linspace(hi, lo, 4), F.copy(), F[1:4] + 1.5e6]
    outside = [np.linspace(lo - 2e6, hi + 1e6, 6), np.array([hi + 3e6]), np.array([lo - 3e6, lo])]
    for kind, (b, pols) in beams.items():
        for pol in pols:
            P, PP = curves_of(kind, pol)
            for s in spell(pol)[:4]:
                rec.step()
                tr = dict(kind=kind, pol=str(s))
                ok, got = rec.attempt("omega", b.power_beam_int, s, trace=tr)
                ok2, got2 = rec.attempt("omega", b.power_beam_sq_int, s, trace=tr)
                if ok and ok2:
                    rec.expect(near(got, P(F), 1e-12) and near(got2, PP(F), 1e-12), "omega:value", "", tr)
                for g, f in enumerate(grids + (outside if kind != "uv" else [])):
                    rec.step()
                    rec.trace()
                    tr = dict(kind=kind, pol=str(s), freqs=f.tolist())
                    keep = f.copy()
                    ok, got = rec.attempt("factor", b.Jy_to_mK, f, pol=s, trace=tr)
                    if not ok:
                        continue
                    # the beam areas of a UVBeam are not quadratic: compare where they are sampled or nearly linear
                    rec.expect(near(got, factor(f, P(f)), 1e-9), "factor:value", f"{got / factor(f, P(f))}", tr)
                    rec.expect(np.array_equal(f, keep), "factor:argument-changed", "", tr)
                    rec.state(("factor", kind, pol, g))
                    if len(f) == 1:
                        rec.expect(near(b.Jy_to_mK(float(f[0]), pol=s), factor(f, P(f)), 1e-9), "factor:scalar", "", tr)
            for bad in ([1.0e8], (1.0e8, 1.1e8), 100000000, np.array([100000000, 110000000]), "1e8"):
                rec.expect(rec.raises(b.Jy_to_mK, bad, pol=pol), "factor:type", repr(bad))
        if kind != "gauss":
            rec.expect(rec.raises(b.Jy_to_mK, F, pol=4) and rec.raises(b.power_beam_int, "pV"), "factor:absent", kind)
    # a Gaussian beam takes its channels in any form
    for f in (F, list(F), tuple(F), F.astype(int)):
        b = gauss(f=f)
        P, _ = curves_of("gauss", 1)
        ok, got = rec.attempt("gauss:freqs", b.Jy_to_mK, F[1:3], trace=str(type(f)))
        if ok:
            rec.expect(near(got, factor(F[1:3], P(F[1:3]))), "gauss:freqs", str(type(f)))
        rec.expect(near(b.power_beam_int(), P(F)), "gauss:freqs", str(type(f)))
    for w in (0.01, 0.1, 0.3):
        b = gauss(w)
        rec.expect(near(b.power_beam_int() / b.power_beam_sq_int(), np.full(len(F), 2.0)) and near(b.power_beam_int() / w**2, np.full(len(F), 2 * np.pi / (8 * np.log(2)))), "gauss:area", str(w))


# ---------------------------------------------------------------- scalars
def run_scalar(task, rec):
    from uvtools import dspec

    from hera_pspec import conversions, pspecbeam

    n, full = task["n"], task["full"]
    steps = 400 if not full else 2000
    for name in (None, "open", "closed"):
        par = {} if name is None else c27.COSMO[name]
        co = c27.Cosmo(**par)
        cc = conversions.Cosmo_Conversions(**par)
        beams = {"arr": (array_beam(cosmo=cc), (1, -5, -6)), "gauss": (gauss(cosmo=cc), (1,)), "uv": (pspecbeam.PSpecBeamUV(uvbeam(), cosmo=cc), (-6,))}
        if name is None:
            beams["default"] = (array_beam(), (1,))
        for lo, hi in ((1.02e8, 1.10e8), (1.10e8, 1.11e8)) + (((1.0e8, 1.2e8),) if full else ()):
            df = (hi - lo) / n
            f = np.linspace(lo, hi, steps)
            z = c27.F21 / f - 1
            for h in (True, False):
                x2y = co.dm(z, h) ** 2 * co.drdf(z, h)
                for kind, (b, pols) in beams.items():
                    for pol in pols:
                        P, PP = curves_of("arr" if kind == "default" else kind, pol)
                        r = PP(f) / P(f) ** 2
                        if kind == "uv":
                            # quadratic interpolation of the sampled ratio
                            from scipy.interpolate import interp1d

                            r = interp1d(F, PP(F) / P(F) ** 2, kind="quadratic")(f)
                        for tp, noise, exact in itertools.product(("none", "bh", "hann", "tukey"), (False, True), (False, True)):
                            tr = dict(cosmo=name, band=(lo, hi), n=n, h=h, kind=kind, pol=pol, taper=tp, noise=noise, exact=exact)
                            rec.step()
                            rec.trace()
                            ok, got = rec.attempt("scalar", b.compute_pspec_scalar, lo, hi, n, num_steps=steps, pol=pol if pol % 2 else POL[pol], taper=tp, little_h=h, noise_scalar=noise, exact_norm=exact, trace=tr)
                            if not ok:
                                continue
                            t = np.ones(steps)
                            if tp != "none":
                                ch = np.clip(np.ceil((f - lo) / df - 0.5 - 1e-9).astype(int), 0, n - 1)
                                t = dspec.gen_window(tp, n)[ch] ** 2
                            if not noise and not exact and not t.any():
                                continue
                            bw = hi - lo
                            if exact:
                                want = np.trapezoid(x2y, f) / bw
                            elif noise:
                                want = bw / np.trapezoid(r / x2y, f)
                            else:
                                want = bw**2 / np.trapezoid(t * r / x2y, f)
                            tol = 1e-6 if tp == "none" or noise or exact else 2.0 * n / steps
                            rec.expect(abs(got / want - 1) < tol, f"scalar:value:{'exact' if exact else 'noise' if noise else 'plain'}", f"{got} vs {want}", tr)
                            rec.state(("scalar", name, lo, n, h, kind, pol, tp, noise, exact))


# ---------------------------------------------------------------- UVBeam
def run_uv(task, rec):
    from pyuvdata import UVBeam

    from hera_pspec import pspecbeam

    base = pscutil.fresh()
    try:
        for pols in ((-5, -6), (-6, -5), (-5,), (1, 2), (1, 2, 3, 4), (2, 1)):
            u = uvbeam(pols)
            for src in ("object",):  # this pyuvdata cannot read back the power beams it writes
                tr = dict(pols=pols, src=src)
                rec.step()
                rec.trace()
                keep = copy.deepcopy(u)
                ok, b = rec.attempt("uv", pspecbeam.PSpecBeamUV, u, trace=tr)
                if not ok:
                    continue
                for k, pol in enumerate(pols):
                    r = uv_resp(k, F)
                    area, sq = r.sum(1) * 4 * np.pi / NPIX, (r**2).sum(1) * 4 * np.pi / NPIX
                    for s in spell(pol)[:4]:
                        rec.step()
                        rec.expect(near(b.power_beam_int(s), area, 1e-12) and near(b.power_beam_sq_int(s), sq, 1e-12), "uv:area", str(s), tr)
                        for f in (F, F[2:3], F[1:4] + 1e6, F[::-1].copy()):
                            ok, got = rec.attempt("uv:response", b.beam_normalized_response, pol=s, freq=f, trace=tr)
                            if ok:
                                want = uv_resp(k, f)
                                rec.expect(near(np.real(got[0]), want, 1e-9) and near(np.real(got[1]), want.sum(1) * 4 * np.pi / NPIX, 1e-9) and got[2] == NSIDE, "uv:response", str(s), tr)
                        rec.state(("uv", pols, src, pol))
                for pol in POL:
                    if pol not in pols:
                        rec.expect(rec.raises(b.power_beam_int, POL[pol]) and rec.raises(b.beam_normalized_response, pol=POL[pol], freq=F), "uv:absent", f"{pol} answered", tr)
                ok, o = rec.attempt("uv:omegas", b.get_Omegas, [(p, p) for p in pols[::-1]], trace=tr)
                if ok:
                    want = np.array([uv_resp(k, F).sum(1) * 4 * np.pi / NPIX for k in range(len(pols))][::-1]).T
                    rec.expect(near(o[0], want, 1e-12), "uv:omegas", "", tr)
                rec.expect(np.array_equal(u.data_array, keep.data_array) and u.beam_type == keep.beam_type and np.array_equal(u.polarization_array, keep.polarization_array), "uv:argument-changed", "", tr)
        # e-field beams: power of a feed is the sum over both components, normalised per channel over feeds and pixels
        rng = (np.arange(2 * 2 * len(F) * NPIX) * 37 % 101 / 50.0 - 1.0).reshape(2, 2, len(F), NPIX)
        e = rng + 1j * rng[::-1, :, :, ::-1] * 0.5
        basis = np.zeros((2, 2, NPIX))
        basis[0, 0] = basis[1, 1] = 1.0
        for src in ("object", "file"):
            u = UVBeam.new(telescope_name="t", data_normalization="physical", freq_array=F.copy(), feed_name="f", feed_array=np.array(["x", "y"]), feed_angle=np.array([np.pi / 2, 0]), mount_type="fixed",
                           x_orientation="east", nside=NSIDE, healpix_pixel_array=np.arange(NPIX), ordering="ring", basis_vector_array=basis, data_array=e.copy())
            path = os.path.join(base, "efield.beamfits")
            u.write_beamfits(path, clobber=True)
            tr = dict(efield=src)
            rec.step()
            rec.trace()
            ok, b = rec.attempt("uv:efield", pspecbeam.PSpecBeamUV, u if src == "object" else path, trace=tr)
            if not ok:
                continue
            power = {-5: (np.abs(e[:, 0]) ** 2).sum(0), -6: (np.abs(e[:, 1]) ** 2).sum(0)}
            cross = np.abs((e[:, 0] * e[:, 1].conj()).sum(0))
            peak = np.max([power[-5].max(1), power[-6].max(1), cross.max(1)], axis=0)
            for p in power:
                want = power[p] / peak[:, None]
                rec.expect(near(b.power_beam_int(p), want.sum(1) * 4 * np.pi / NPIX, 1e-6) and near(b.power_beam_sq_int(POL[p]), (want**2).sum(1) * 4 * np.pi / NPIX, 1e-6), "uv:efield", f"{p}", tr)
            if src == "object":
                rec.expect(u.beam_type == "efield" and np.array_equal(u.data_array, e), "uv:efield-argument-changed", f"the caller's beam became a {u.beam_type} beam", tr)
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------- conversion of datasets
KINDS = [((-5,), "Jy", 0), ((-6,), "Jy", 0), ((-5, -6), "Jy", 0), ((-6, -5), "jy", 0), ((-5, -6), "mK", 0), ((-5,), "uncalib", 0), ((-5,), "Jy", 3), ((-6, -5), "Jy", 2)]
NF = 3


def dataset(kind, salt, units=None):
    pols, un, c0 = KINDS[kind]
    u = V.cached(bls=((0, 1), (2, 1)), times=(0, 1), nf=NF, pols=pols, salt=salt, chan0=1.0e8, df=4.0e6, f0=c0)
    u.vis_units = units or un
    return u


class Tracked:
    """what a dataset must hold: the data it was built with times a factor per polarization"""

    def __init__(self, u):
        self.u, self.data, self.units = u, u.data_array.copy(), u.vis_units
        self.rest = [u.flag_array.copy(), u.nsample_array.copy(), u.time_array.copy(), u.freq_array.copy(), u.polarization_array.copy()]

    def convert(self, ver):
        if self.units.upper() == "JY":
            for j, p in enumerate(self.u.polarization_array):
                self.data[:, :, j] *= factor(self.u.freq_array, om(p, ver, self.u.freq_array))[None]
            self.units = "mK"

    def ok(self):
        u = self.u
        same = all(np.array_equal(a, b) for a, b in zip(self.rest, [u.flag_array, u.nsample_array, u.time_array, u.freq_array, u.polarization_array]))
        return same and u.vis_units.lower() == self.units.lower() and np.allclose(u.data_array, self.data, rtol=1e-9, atol=0)


def run_data(task, rec):
    from hera_pspec import pspecdata

    n, full = task["n"], task["full"]
    seqs = [["c"], ["c", "c"], ["o", "c"], ["c", "a", "c"], ["m", "c"], ["n", "o", "o"], ["a", "c", "a", "c"], ["x", "c"]]
    kinds = range(len(KINDS))
    combos = list(itertools.product(kinds, repeat=n))
    for c, combo in enumerate(combos):
        if n > 1 and c % 2 != task["part"]:
            continue
        if n == 3 and not full and c % 3:
            continue
        for q, seq in enumerate(seqs if full or n < 3 else seqs[c % 2 :: 2]):
            tr = dict(datasets=[KINDS[k] for k in combo], seq=seq)
            rec.trace()
            us = [dataset(k, i) for i, k in enumerate(combo)]
            if n > 1 and (c + q) % 5 == 0:
                us[1] = us[0]  # one object in both places
                tr["shared"] = True
            std = [dataset(k, 30 + i, "Jy" if (i + c) % 4 else None) if (c + q + i) % 3 == 0 else None for i, k in enumerate(combo)]
            tr["std"] = [s is not None for s in std]
            beam, other, lacking = array_beam((-5, -6)), array_beam((-5, -6, 1), ver=1), array_beam((1,))
            ds = pspecdata.PSpecData(dsets=list(us), wgts=[None] * n, dsets_std=None, beam=None if seq[0] == "n" else beam)
            ds.dsets_std = list(std)
            tracked = [Tracked(u) for u in {id(u): u for u in us + [s for s in std if s is not None]}.values()]
            for op in seq:
                rec.step()
                if op == "c":
                    ok, _ = rec.attempt("convert", ds.Jy_to_mK, trace=tr)
                    for t in tracked if ok else []:
                        t.convert(0)
                elif op == "o":
                    ok, _ = rec.attempt("convert", ds.Jy_to_mK, beam=other, trace=tr)
                    for t in tracked if ok else []:
                        t.convert(1)
                elif op == "n":
                    rec.expect(rec.raises(ds.Jy_to_mK), "convert:no-beam", "", tr)
                elif op == "x":
                    rec.expect(rec.raises(ds.Jy_to_mK, beam=3.0), "convert:beam-type", "", tr)
                elif op == "m":
                    if any(t.units.upper() == "JY" for t in tracked):
                        rec.expect(rec.raises(ds.Jy_to_mK, beam=lacking), "convert:missing-pol", "a polarization without a beam was converted", tr)
                elif op == "a":
                    u = dataset((c + len(ds.dsets)) % len(KINDS), 50 + len(ds.dsets))
                    ds.add(u, None)
                    tracked.append(Tracked(u))
                bad = [i for i, t in enumerate(tracked) if not t.ok()]
                rec.expect(not bad, f"convert:state:{op}", f"dataset(s) {bad} of {len(tracked)} differ from the model after {op}", tr)
                rec.state((combo, [(t.units, float(np.abs(t.data).sum())) for t in tracked]))
