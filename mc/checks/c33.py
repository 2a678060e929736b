"""C33 - exact window functions follow from the beams, channels, taper and baseline length of each spectrum."""

import copy
import itertools
import os
import shutil
import warnings

import numpy as np

from mc import build as B
from mc.pscutil import fresh

PID = "C33"
LEVEL = "model_checking"
RULE = (
    "Every number of channels 3-9 (thorough 3-12) x taper x pair of beams (equal, different, of any shape symmetric under point reflection) x baseline length "
    "x units x cosmology x default or given bins: the cylindrical window of every delay against an independent computation (bilinear interpolation "
    "over the whole k_perp plane, direct Fourier sums, bin means, unit sum). Spherical windows for every set and order of lengths and weights. "
    "All channel ranges of beam files and objects. UVPSpec objects: every order and set of polarization pairs, spectral windows, redundant groups, "
    "beam given as file or object, in place or returned. States are distinct window functions; transitions are calls."
)
ASSUMPTIONS = [
    "beam transforms are symmetric under point reflection and sampled on an odd number of pixels, on channels that include those of the spectrum",
    "the window of a delay may be computed at the opposite delay (the code fills by symmetry)",
    "bins of the k_perp and k_parallel grids without modes are zero",
    "baselines of a pair are redundant",
]
C0 = 299792458.0
F0, DF = B.F0, B.DF


def tasks(tier, seed):
    full = tier == "thorough"
    out = [dict(mode="cyl", nf=nf, full=full) for nf in range(3, 13 if full else 10)]
    out += [dict(mode="sph", part=i, full=full) for i in range(4)]
    out += [dict(mode="uvp", part=i, full=full) for i in range(8)]
    out += [dict(mode="beam", full=full), dict(mode="gauss", full=full)]
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + task["mode"]](task, rec)


# ---------------------------------------------------------------- beams
NPIX, MAP = 9, 0.35


def beam_data(kind, nf, npix=NPIX, c0=0):
    """(nf, npix, npix) transforms, equal under reflection of both axes; channel k depends on its absolute number c0 + k."""
    q = np.arange(npix) - npix // 2
    out = np.zeros((nf, npix, npix))
    for i in range(nf):
        k = c0 + i
        w = {"wide": 2.1, "narrow": 1.1, "skew": 1.6}[kind] * (1 + 0.06 * k + 0.02 * (k % 3))
        x, y = q[:, None] / w, q[None, :] / w
        g = np.exp(-(x**2) - y**2)
        if kind == "skew":
            g = np.exp(-(x**2) - 0.4 * y**2 - 0.7 * x * y) * (1 + 0.3 * np.cos(q[:, None] - 2 * q[None, :]))
        if kind == "narrow":
            g = g - 0.2 * np.exp(-0.3 * (x - y) ** 2)
        out[i] = g
    return out


def ftbeam(kind, nf, pol, c0=0, mapsize=MAP):
    from hera_pspec.uvwindow import FTBeam

    return FTBeam(data=beam_data(kind, nf, c0=c0), pol=pol, freq_array=F0 + DF * 20 * (c0 + np.arange(nf)), mapsize=mapsize)


# ---------------------------------------------------------------- independent computation
def cosmo_of(name):
    from hera_pspec import conversions

    return conversions.Cosmo_Conversions() if name == "def" else conversions.Cosmo_Conversions(Om_L=0.6, Om_b=0.06, Om_c=0.34, H0=70.0)


_TAP = {}


def taper(name, n):
    if (name, n) not in _TAP:
        from scipy.signal import windows as w

        x = {"none": lambda m: np.ones(m), None: lambda m: np.ones(m), "hann": w.hann, "blackman": w.blackman, "blackman-harris": w.blackmanharris}[name](n)
        _TAP[(name, n)] = np.asarray(x)
    return _TAP[(name, n)]


def edges(b):
    d = (b[-1] - b[0]) / (len(b) - 1)
    return b[0] - d / 2 + d * np.arange(len(b) + 1)


def plane(b0, b1, fr, mapsize, tp, cosmo, h, bl):
    """kperp of every grid point; |.| spectrum Re(conj(F1) F0) per grid point and eta."""
    nf, npix = b0.shape[0], b0.shape[1]
    zavg = cosmo.f2z(np.mean(fr))
    kc = cosmo.bl_to_kperp(zavg, little_h=h) * bl / np.sqrt(2)
    dk = 2 * np.pi / (2 * mapsize) / cosmo.dRperp_dtheta(cosmo.f2z(fr.max()), little_h=h)
    kg = np.arange(kc - 0.02, kc + 0.02, dk)
    q = (np.arange(npix) - npix // 2) / (2 * mapsize)
    vals = []
    for beam in (b0, b1):
        cube = np.zeros((nf, kg.size, kg.size))
        for i, f in enumerate(fr):
            R = cosmo.DM(cosmo.f2z(f), little_h=h)
            # wavenumber k belongs to the sky frequency u - q = k R / 2 pi
            x = (kg * R / (2 * np.pi) - f * bl / C0 / np.sqrt(2)) / (q[1] - q[0]) + npix // 2
            lo = np.clip(np.floor(x).astype(int), 0, npix - 2)
            fr_ = x - lo
            inside = (x >= 0) & (x <= npix - 1)
            M = np.zeros((kg.size, npix))
            M[np.arange(kg.size), lo] = (1 - fr_) * inside
            M[np.arange(kg.size), lo + 1] += fr_ * inside
            cube[i] = M @ beam[i] @ M.T
        vals.append(cube * taper(tp, nf)[:, None, None])
    n = np.arange(nf)
    eta = (n - nf // 2) / nf
    F = np.exp(-2j * np.pi * eta[:, None] * n[None, :])
    f0, f1 = (np.tensordot(F, v, axes=(1, 0)) for v in vals)
    return np.sqrt(kg[:, None] ** 2 + kg[None, :] ** 2), (f1.conj() * f0).real, eta


def cylindrical(b0, b1, fr, mapsize, tp, cosmo, h, bl, kperp, kpara):
    """(window for every delay, window for every opposite delay), normalised."""
    nf = len(fr)
    kp, w, eta = plane(b0, b1, fr, mapsize, tp, cosmo, h, bl)
    ep, ea = edges(np.asarray(kperp, float)), edges(np.asarray(kpara, float))
    per = np.zeros((len(kperp), nf))
    for m in range(len(kperp)):
        s = (kp >= ep[m]) & (kp < ep[m + 1])
        if s.any():
            per[m] = w[:, s].mean(axis=1)
    df = np.median(np.diff(fr))
    tau = (np.arange(nf) - nf // 2) / nf / df
    al = cosmo.tau_to_kpara(cosmo.f2z(np.mean(fr)), little_h=h)
    out = []
    for sgn in (1, -1):
        cyl = np.zeros((nf, len(kperp), len(kpara)))
        for it in range(nf):
            k = np.abs(al * (eta / df + sgn * tau[it]))
            for m in range(len(kpara)):
                s = (k >= ea[m]) & (k < ea[m + 1])
                if s.any():
                    cyl[it, :, m] = per[:, s].mean(axis=1)
        t = cyl.sum(axis=(1, 2))[:, None, None]
        out.append(np.where(t != 0, cyl / np.where(t == 0, 1, t), 0))
    return out


def matches(got, refs, tol=1e-6):
    """Delays whose window is neither the reference at that delay nor the one at the opposite delay."""
    bad = []
    for it in range(got.shape[0]):
        s = max(np.abs(r[it]).max() for r in refs)
        if not any(np.allclose(got[it], r[it], rtol=1e-5, atol=tol * s) for r in refs):
            bad.append(it)
    return bad


# ---------------------------------------------------------------- cylindrical windows
TAPERS = ["none", "blackman-harris", "hann", None]
BEAMS = [("wide", "wide"), ("wide", "narrow"), ("skew", "skew"), ("narrow", "skew")]
LENS = [0.0, 14.0, 13.892, 28.0, 42.0]


def run_cyl(task, rec):
    from astropy import units
    from hera_pspec.uvwindow import UVWindow

    nf, full = task["nf"], task["full"]
    space = list(itertools.product(TAPERS, BEAMS, LENS, (True, False), ("def", "alt"), ("default", "given", "coarse")))
    stride = 3 if full else 13
    for c, (tp, (k0, k1), bl, h, cos, bins) in enumerate(space):
        if (c + nf) % stride:
            continue
        if nf == 3 and tp == "hann":
            continue  # a single channel survives
        tr = dict(nf=nf, taper=tp, beams=(k0, k1), bl=bl, h=h, cosmo=cos, bins=bins)
        beams = [ftbeam(k0, nf, "xx", c0=1), ftbeam(k1, nf, "yy", c0=1)]
        if k0 == k1 and c % 2:
            arg = beams[0]
            beams[1] = beams[0]
        else:
            arg = beams
        keep = [b.ft_beam.copy() for b in beams]
        cosmo = cosmo_of(cos)
        ok, uw = rec.attempt("uvwindow", UVWindow, ftbeam_obj=arg, taper=tp, little_h=h, cosmo=cosmo, trace=tr)
        if not ok:
            continue
        fr = beams[0].freq_array
        al = cosmo.tau_to_kpara(cosmo.f2z(fr.mean()), little_h=h) / (fr[1] - fr[0]) / nf
        ku = units.h / units.Mpc if h else 1 / units.Mpc
        kw = {}
        if bins == "default":
            kperp, kpara = uw.get_kperp_bins([bl]).value, uw.get_kpara_bins(fr).value
        elif bins == "given":
            kperp = np.linspace(0.0007, 0.047, 24)
            kpara = al * (np.arange(nf + 1) + 0.013)
        else:
            kperp = np.linspace(0.002, 0.05, 7)
            kpara = al * np.linspace(0.3, nf / 2 + 1.21, max(3, nf // 2))
        if bins != "default":
            kw = dict(kperp_bins=kperp * ku, kpara_bins=kpara * ku)
        rec.step()
        rec.trace()
        ok, out = rec.attempt("cyl", uw.get_cylindrical_wf, bl, return_bins="unweighted" if c % 3 else None, trace=tr, **kw)
        if not ok:
            continue
        if c % 3:
            rec.expect(np.allclose(out[0], kperp) and np.allclose(out[1], kpara), "cyl:bins", "returned bins are not the bins used", tr)
            out = out[2]
        refs = cylindrical(keep[0], keep[1], fr, MAP, tp, cosmo, h, bl, kperp, kpara)
        if not rec.expect(out.shape == refs[0].shape, "cyl:shape", f"{out.shape} vs {refs[0].shape}", tr):
            continue
        bad = matches(out, refs)
        rec.expect(not bad, "cyl:values", f"delays {bad} of {nf}: {[float(np.abs(out[b] - refs[0][b]).max()) for b in bad[:3]]}", tr)
        s = out.sum(axis=(1, 2))
        rec.expect(np.all((np.abs(s - 1) < 1e-9) | (s == 0)), "cyl:norm", f"sums {s}", tr)
        rec.expect(all(np.array_equal(a, b.ft_beam) for a, b in zip(keep, beams)), "cyl:beam-changed", "", tr)
        rec.state((nf, tp, k0, k1, bl, h, cos, np.round(out, 9)))
        if bl and bins == "default":
            rec.expect(kperp.max() > cosmo.bl_to_kperp(uw.avg_z, little_h=h) * bl > kperp.min(), "cyl:kperp-range", "the baseline's own k_perp is outside the default bins", tr)
            rec.expect(np.allclose(np.diff(kpara), al), "cyl:kpara-width", f"{np.diff(kpara)[:2]} vs {al}", tr)
        # wrong units are refused
        if c % 5 == 0 and bins != "default":
            wrong = ku * units.Mpc
            rec.expect(rec.raises(uw.get_cylindrical_wf, bl, kperp_bins=kperp * wrong, kpara_bins=kpara * ku), "cyl:units", "bins without units of wavenumber accepted", tr)
            if h:
                rec.expect(rec.raises(uw.get_cylindrical_wf, bl, kperp_bins=kperp / units.Mpc, kpara_bins=kpara * ku), "cyl:units-h", "1/Mpc accepted where h/Mpc is used", tr)


# ---------------------------------------------------------------- spherical windows and files
def spherical(cyls, bls, wts, kb, kperp, kpara, uw, cosmo, h):
    e = edges(kb)
    kt = np.sqrt(np.asarray(kperp)[:, None] ** 2 + np.asarray(kpara)[None, :] ** 2)
    a, b = cosmo.bl_to_kperp(uw.avg_z, little_h=h), cosmo.tau_to_kpara(uw.avg_z, little_h=h)
    nf = cyls[0].shape[0]
    tau = (np.arange(nf) - nf // 2) / nf / np.median(np.diff(uw.freq_array))
    out = np.zeros((len(kb), len(kb)))
    for m1 in range(len(kb)):
        acc, tot = 0, 0
        for cyl, bl, w in zip(cyls, bls, wts):
            for it in range(nf):
                k = np.hypot(a * bl, b * tau[it])
                if e[m1] <= k < e[m1 + 1]:
                    acc, tot = acc + w * cyl[it], tot + w
        if tot == 0:
            continue
        acc = acc / tot
        for m2 in range(len(kb)):
            s = (kt >= e[m2]) & (kt < e[m2 + 1])
            if s.any():
                out[m1, m2] = acc[s].mean()
        if out[m1].sum():
            out[m1] /= out[m1].sum()
    return out


def centres(bls, kb, uw, cosmo, h):
    """Mean |k| of the (baseline, delay) modes of each bin, zero without any."""
    e = edges(kb)
    a, b = cosmo.bl_to_kperp(uw.avg_z, little_h=h), cosmo.tau_to_kpara(uw.avg_z, little_h=h)
    n = len(uw.freq_array)
    tau = (np.arange(n) - n // 2) / n / np.median(np.diff(uw.freq_array))
    k = np.array([np.hypot(a * bl, b * t) for bl in bls for t in tau])
    return np.array([k[(k >= lo) & (k < hi)].mean() if ((k >= lo) & (k < hi)).any() else 0.0 for lo, hi in zip(e[:-1], e[1:])])


def run_sph(task, rec):
    import h5py
    from astropy import units
    from hera_pspec.uvwindow import UVWindow

    base = fresh()
    try:
        lens = [14.0, 13.892, 28.0, 0.0]
        sets = [s for n in (1, 2, 3) for s in itertools.permutations(lens, n)]
        for c, bls in enumerate(sets):
            if c % 4 != task["part"]:
                continue
            for v, (wts, h, nf) in enumerate(itertools.product((None, "w"), (True, False), (4, 5))):
                if not task["full"] and (c // 4 + v) % 4:
                    continue
                tr = dict(bls=bls, weights=wts, h=h, nf=nf)
                cosmo = cosmo_of("def" if c % 2 else "alt")
                beams = [ftbeam("wide", nf, "xx"), ftbeam("skew", nf, "yy")]
                uw = UVWindow(ftbeam_obj=beams, taper="blackman", little_h=h, cosmo=cosmo)
                ku = units.h / units.Mpc if h else 1 / units.Mpc
                w = [2.0, 3.0, 0.5][: len(bls)] if wts else None
                sc = 1.0 if h else cosmo.h
                kb = sc * np.linspace(0.02, ((0.35, 0.12) if nf == 4 else (0.45, 0.16))[(c // 4 + v // 4) % 2], 6)
                kw = {}
                kperp, kpara = uw.get_kperp_bins(list(bls)).value, uw.get_kpara_bins(uw.freq_array).value
                if v % 3 == 1:
                    kperp = kperp[:: 2]
                    kw = dict(kperp_bins=kperp * ku, kpara_bins=kpara * ku)
                rec.step()
                rec.trace()
                arg = list(bls) if len(bls) > 1 or v % 2 else bls[0]
                ok, got = rec.attempt("sph", uw.get_spherical_wf, kb * ku, arg, bl_weights=w, return_weighted_k=bool(v % 2), trace=tr, **kw)
                if not ok:
                    continue
                if v % 2:
                    got, mid = got
                    wk = centres(bls, kb, uw, cosmo, h)
                    rec.expect(w is not None or np.allclose(mid, wk, rtol=1e-9, atol=0), "sph:centres", f"{mid} {wk}", tr)
                cyls = [uw.get_cylindrical_wf(b, kperp_bins=kperp * ku, kpara_bins=kpara * ku) for b in bls]
                want = spherical(cyls, bls, w or [1.0] * len(bls), kb, kperp, kpara, uw, cosmo, h)
                rec.expect(np.allclose(got, want, rtol=1e-8, atol=1e-10), "sph:values", f"{np.abs(got - want).max()}", tr)
                rec.expect(np.abs(want).sum() > 0, "sph:vacuous", "no bin is filled", tr)
                rec.state(("sph", bls, w, h, nf, np.round(got, 9)))
                # the same windows written to a file
                p = os.path.join(base, f"w{c}_{v}.h5")
                ok, _ = rec.attempt("write", uw.run_and_write, p, arg, bl_weights=w, trace=tr, **kw)
                rec.step()
                if ok:
                    with h5py.File(p, "r") as f:
                        x = {k: f[k][...] for k in f}
                        at = dict(f.attrs)
                    good = np.array_equal(x["bl_lens"], bls) and np.array_equal(x["bl_weights"], w or np.ones(len(bls))) and np.allclose(x["kperp_bins"], kperp)
                    good = good and np.allclose(x["kpara_bins"], kpara) and np.allclose(x["dly_array"], uw.dly_array)
                    rec.expect(good, "write:axes", f"{ {k: v.shape for k, v in x.items()} }", tr)
                    want = np.array([q * z for q, z in zip(cyls, w or np.ones(len(bls)))])
                    rec.expect(x["cyl_wf"].shape == want.shape and np.allclose(x["cyl_wf"], want, rtol=1e-9, atol=1e-14), "write:values", "", tr)
                    rec.expect(at["taper"] == "blackman" and bool(at["little_h"]) == h and at["nfreqs"] == nf and int(at["polpair"]) == B.pp_int((-5, -6))
                               and abs(at["avg_nu"] - uw.freq_array.mean()) < 1, "write:attrs", f"{at}", tr)
                    old = open(p, "rb").read()
                    rec.expect(rec.raises(uw.run_and_write, p, arg) and open(p, "rb").read() == old, "write:clobber", "an existing file was overwritten without clobber", tr)
                    if v % 2:
                        ok, _ = rec.attempt("write2", uw.run_and_write, p, 28.0, clobber=True, trace=tr)
                        if ok:
                            with h5py.File(p, "r") as f:
                                rec.expect(f["bl_lens"][...].tolist() == [28.0] and f["cyl_wf"].shape[0] == 1, "write:overwrite", "", tr)
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------- beams
def write_beam(path, kind, nf, c0=0, df=20 * DF, f0=F0):
    import h5py

    with h5py.File(path, "w") as f:
        f["mapsize"] = np.array([MAP])
        f["freq"] = f0 + df * (c0 + np.arange(nf))
        f["FT_beam"] = beam_data(kind, nf, c0=c0)


def run_beam(task, rec):
    from hera_pspec.uvwindow import FTBeam, check_spw_range

    base = fresh()
    try:
        nf = 6
        for pol, num in (("xx", -5), ("yy", -6), ("pI", 1), ("pQ", 2), ("pU", 3), ("pV", 4), ("xy", -7), ("yx", -8)):
            p = os.path.join(base, f"ft_beam_{pol}.hdf5")
            write_beam(p, "skew", nf)
            rec.expect(np.allclose(FTBeam.get_bandwidth(p), F0 + 20 * DF * np.arange(nf)), "beam:bandwidth", "", pol)
            b = FTBeam(data=beam_data("skew", nf), pol=num, freq_array=F0 + 20 * DF * np.arange(nf), mapsize=MAP)
            rec.expect(b.pol == pol, "beam:polnum", f"{num} -> {b.pol}", pol)
            for rng in [None] + list(itertools.product(range(-1, nf + 2), repeat=2)):
                good = rng is None or 0 <= rng[0] < rng[1] <= nf
                rec.step()
                rec.trace()
                lo, hi = rng or (0, nf)
                if rng is not None:
                    rec.expect(bool(check_spw_range(rng, np.arange(nf))) == good, "beam:check", f"{rng}", pol)
                if not good:
                    rec.expect(rec.raises(FTBeam.from_file, p, spw_range=rng), "beam:range-accepted", f"{rng}", pol)
                    x = copy.deepcopy(b)
                    rec.expect(rec.raises(x.update_spw, rng) and np.array_equal(x.ft_beam, b.ft_beam), "beam:update-accepted", f"{rng}", pol)
                    continue
                ok, f = rec.attempt("from_file", FTBeam.from_file, p, spw_range=rng, trace=(pol, rng))
                objs = [f] if ok else []
                x = copy.deepcopy(b)
                if rng is not None:
                    x.update_spw(rng)
                objs.append(x)
                for o in objs:
                    rec.expect(o.pol == pol and o.mapsize == MAP and np.allclose(o.freq_array, F0 + 20 * DF * np.arange(lo, hi))
                               and np.allclose(o.ft_beam, beam_data("skew", nf)[lo:hi]), "beam:content", f"{rng}", pol)
                    rec.state(("beam", pol, lo, hi))
        rec.expect(rec.raises(FTBeam.from_file, os.path.join(base, "none_xx.hdf5")), "beam:missing-file", "")
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run_gauss(task, rec):
    from hera_pspec.uvwindow import FTBeam

    for nf, npix, ms, scalar, pol in itertools.product((3, 4, 7), (5, 9, 31), (1.0, 0.4), (True, False), (-5, "pI", "yy")):
        fr = F0 + 20 * DF * np.arange(nf)
        w = 7.0 if scalar else 5.0 + np.arange(nf)
        tr = dict(nf=nf, npix=npix, mapsize=ms, scalar=scalar, pol=pol)
        rec.step()
        rec.trace()
        ok, b = rec.attempt("gauss", FTBeam.gaussian, list(fr), w if scalar else np.array(w), pol, mapsize=ms, npix=npix, trace=tr)
        if not ok:
            continue
        q = (np.arange(npix) - npix // 2) / (2 * ms)
        s = np.radians(np.ones(nf) * w)
        # transform of exp(-theta^2 / s^2) over the plane, in units of the map: pi s^2 exp(-pi^2 s^2 q^2) / (2 mapsize)
        want = np.array([np.pi * x**2 / (2 * ms) * np.exp(-(np.pi**2) * x**2 * (q[:, None] ** 2 + q[None, :] ** 2)) for x in s])
        rec.expect(b.ft_beam.shape == want.shape and np.allclose(b.ft_beam, want, rtol=1e-9, atol=1e-15), "gauss:values", "", tr)
        rec.expect(b.pol == {-5: "xx"}.get(pol, pol) and np.allclose(b.freq_array, fr) and b.mapsize == ms, "gauss:labels", "", tr)
        rec.state(("gauss", nf, npix, ms, scalar))
    fr = F0 + DF * np.arange(4)
    rec.expect(rec.raises(FTBeam.gaussian, fr, np.ones(3) * 5, "xx"), "gauss:widths", "three widths for four frequencies accepted")


# ---------------------------------------------------------------- UVPSpec
BLPS = [((1, 2), (2, 3)), ((1, 2), (1, 2)), ((1, 3), (1, 3)), ((1, 4), (1, 4)), ((4, 5), (2, 3)), ((1, 1), (2, 2))]
BLEN = {((1, 2), (2, 3)): 14.0, ((1, 2), (1, 2)): 14.0, ((1, 3), (1, 3)): 28.0, ((1, 4), (1, 4)): float(np.hypot(7.0, 12.0)), ((4, 5), (2, 3)): 14.0, ((1, 1), (2, 2)): 0.0}
BSETS = [[0, 1, 2], [2, 0], [3, 2, 4], [4, 5], [5, 3], [1]]
PSETS = [[(-5, -5)], [(-6, -6), (-5, -5)], [(-5, -6)], [(-6, -5), (-6, -6)], [(1, 1), (2, 2)], [(1, 2)], [(-5, -5), (-5, -6), (-6, -6)]]
SSETS = [[(0, 5, 5)], [(0, 4, 4), (5, 5, 5)], [(6, 4, 4)], [(2, 6, 6), (1, 3, 3)]]
KIND = {"xx": "wide", "yy": "skew", "pI": "narrow", "pQ": "wide"}
NAME = {-5: "xx", -6: "yy", 1: "pI", 2: "pQ"}


def run_uvp(task, rec):
    base = fresh()
    old = B.DF
    try:
        B.DF = 20 * old
        B._CACHE.clear()
        root = os.path.join(base, "my_ft_beam")
        nband = 12
        for pol, kind in KIND.items():
            write_beam(f"{root}_{pol}.hdf5", kind, nband, df=B.DF)
        space = list(itertools.product(range(len(PSETS)), range(len(BSETS)), range(len(SSETS)), ("file", "object", "path"), ("bt", "tb")))
        for c, (ip, ib, isp, how, order) in enumerate(space):
            if c % 8 != task["part"]:
                continue
            if not task["full"] and (c // 8) % 6:
                continue
            one_uvp(rec, c, PSETS[ip], [BLPS[i] for i in BSETS[ib]], SSETS[isp], how, order, root, nband)
    finally:
        B.DF = old
        B._CACHE.clear()
        shutil.rmtree(base, ignore_errors=True)


def one_uvp(rec, c, pols, blps, spws, how, order, root, nband):
    from pathlib import Path

    from hera_pspec.uvwindow import FTBeam, UVWindow

    tr = dict(pols=pols, blps=blps, spws=spws, how=how, order=order)
    u = B.uvp(blps=blps, pols=pols, spws=spws, order=order, win=True, tps=[(0, 0), (1, 1)])
    tp = ["none", "blackman-harris", "hann"][c % 3]
    if tp == "hann" and any(s[1] == 3 for s in spws):
        tp = "blackman"
    u.taper = tp
    if c % 2:
        u.norm_units = u.norm_units.replace("h^-3 ", "").replace("h^-3", "")
    h = "h^-3" in u.norm_units
    before = copy.deepcopy(u)
    if how == "object":
        arg = FTBeam(data=beam_data("skew", nband), pol="pI", freq_array=B.F0 + B.DF * np.arange(nband), mapsize=MAP)
        keep = copy.deepcopy(arg)
    else:
        arg = root if how == "file" else Path(root)
    sel = [None, None, 0, len(spws) - 1, list(range(len(spws)))][c % 5]
    inplace = c % 4 != 3
    part = sel is not None and sorted(np.atleast_1d(sel).tolist()) != list(range(len(spws)))
    rec.step()
    rec.trace()
    ok, got = rec.attempt("uvp", u.get_exact_window_functions, ftbeam=arg, spw_array=sel, inplace=inplace, trace=tr)
    if not ok:
        return
    stored = inplace and not part
    if stored:
        rec.expect(u.exact_windows, "uvp:flag", "exact_windows is not set", tr)
        kperp, kpara, wf = u.window_function_kperp, u.window_function_kpara, u.window_function_array
    else:
        rec.expect(got is not None and u == before and not u.exact_windows, "uvp:returned", "the object changed though the result was to be returned", tr)
        kperp, kpara, wf = got
    same = all(np.array_equal(u.data_array[s], before.data_array[s]) and np.array_equal(u.integration_array[s], before.integration_array[s]) for s in u.spw_array)
    rec.expect(same and np.array_equal(u.polpair_array, before.polpair_array) and np.array_equal(u.blpair_array, before.blpair_array), "uvp:other", "other content changed", tr)
    if how == "object":
        rec.expect(np.array_equal(arg.ft_beam, keep.ft_beam) and np.array_equal(arg.freq_array, keep.freq_array), "uvp:beam-changed", "the caller's beam changed", tr)
    want_spws = list(range(len(spws))) if sel is None else np.atleast_1d(sel).tolist()
    if not rec.expect(sorted(wf) == sorted(want_spws), "uvp:spws", f"{sorted(wf)} vs {want_spws}", tr):
        return
    memo = {}
    for s in want_spws:
        st, nf, nd = spws[s]
        fr = B.F0 + B.DF * (st + np.arange(nf))
        for p, pp in enumerate(pols):
            kinds = [KIND[NAME[x]] for x in pp] if how != "object" else ["skew", "skew"]
            bb = [beam_data(k, nband)[st : st + nf] for k in kinds]
            kp, ka = kperp[s][:, p], kpara[s][:, p]
            for row in range(u.Nblts if hasattr(u, "Nblts") else len(u.blpair_array)):
                blp = u.blpair_to_antnums(u.blpair_array[row])
                bl = BLEN[tuple(map(tuple, blp))]
                key = (s, p, bl)
                if key not in memo:
                    memo[key] = cylindrical(bb[0], bb[1], fr, MAP, tp, u.cosmo, h, bl, kp, ka)
                    rec.state(("uvp", pp, s, spws, bl, how, np.round(memo[key][0], 9)))
                x = wf[s][row, ..., p]
                if not rec.expect(x.shape == memo[key][0].shape, "uvp:shape", f"{x.shape} vs {memo[key][0].shape}", tr):
                    return
                bad = matches(x, memo[key], 1e-5)
                rec.expect(not bad, "uvp:values", f"window {s} pair {pp} baseline-pair {blp}: delays {bad}: {np.abs(x - memo[key][0]).max()} of {memo[key][0].max()}", tr)
    # without a cosmology the fiducial one stands in
    from astropy import units
    from hera_pspec import conversions

    bare = copy.deepcopy(before)
    if hasattr(bare, "cosmo"):
        del bare.cosmo
    for s in want_spws[:1]:
        st, nf, nd = spws[s]
        fr = B.F0 + B.DF * (st + np.arange(nf))
        for p, pp in enumerate(pols):
            ok, uw = rec.attempt("uvp:bare", UVWindow.from_uvpspec, bare, p, s, ftbeam=arg, trace=tr)
            rec.step()
            if not ok:
                continue
            kinds = [KIND[NAME[x]] for x in pp] if how != "object" else ["skew", "skew"]
            bb = [beam_data(k, nband)[st : st + nf] for k in kinds]
            ku = units.h / units.Mpc if h else 1 / units.Mpc
            bl = BLEN[blps[0]]
            fid = conversions.Cosmo_Conversions()
            kp, ka = uw.get_kperp_bins([bl]).value, uw.get_kpara_bins(uw.freq_array).value
            x = uw.get_cylindrical_wf(bl, kperp_bins=kp * ku, kpara_bins=ka * ku)
            ref = cylindrical(bb[0], bb[1], fr, MAP, tp, fid, h, bl, kp, ka)
            bad = matches(x, ref, 1e-5)
            rec.expect(uw.cosmo.get_params() == fid.get_params() and not bad, "uvp:bare:values", f"window {s} pair {pp}: delays {bad}", tr)
            rec.state(("bare", pp, s, bl, how, np.round(ref[0], 9)))
    if stored and c % 2:
        # the stored windows survive a round trip and reach the same rows by key
        for blp in blps:
            for s in want_spws:
                for p, pp in enumerate(pols):
                    w = u.get_window_function((s, blp, pp))
                    w = w[-1] if isinstance(w, tuple) else w
                    ix = [r for r in range(len(u.blpair_array)) if tuple(map(tuple, u.blpair_to_antnums(u.blpair_array[r]))) == blp]
                    rec.expect(np.array_equal(w, wf[s][ix][..., p]), "uvp:get", f"{blp} {s} {pp}", tr)
