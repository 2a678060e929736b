"""C29 - frequency and redshift ranges select exactly the documented channels; axes follow from the channels selected."""

import itertools
import warnings

import numpy as np

from mc import build as B
from mc import uvd as V

PID = "C29"
LEVEL = "model_checking"
RULE = (
    "Every band of 1-7 channels (ascending, descending, several windows) x every pair of bounds on a quarter-channel grid reaching beyond the band x "
    "bounds_error x single tuples and every list of up to three ranges x UVData and UVPSpec x frequencies and redshifts x cosmology: the returned first and last "
    "channel against a scan of the channels. Every channel range x number of delays of a dataset: the delays, frequencies and window "
    "labels of the spectrum computed there. States are (band, range, answer); transitions are calls."
)
ASSUMPTIONS = ["windows of a UVPSpec are disjoint and in order of frequency", "redshift bounds do not coincide with a channel to rounding error"]
FQ = 1.0e8
DF = 1.0e5


def tasks(tier, seed):
    V.warm()
    full = tier == "thorough"
    out = [dict(mode="band", nf=n, kind=k, full=full) for n in range(1, 10 if full else 7) for k in ("uvd", "uvd-desc", "uvp")]
    out += [dict(mode="band", nf=4, kind="uvp2", full=full)]
    out += [dict(mode="axes", part=i, full=full) for i in range(4)]
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + task["mode"]](task, rec)


def obj(kind, nf):
    """(object, list of its channel numbers)"""
    if kind.startswith("uvd"):
        u = V.cached(bls=((0, 1),), times=(0,), nf=nf, chan0=FQ, df=DF)
        ch = list(range(nf))
        if kind == "uvd-desc":
            u.freq_array = u.freq_array[::-1].copy()
            ch = ch[::-1]
        return u, ch
    spws = [(0, nf, nf)] if kind == "uvp" else [(0, nf, nf), (nf + 2, nf, nf)]
    u = B.uvp(spws=spws, pols=[(-5, -5)], blps=[((1, 2), (1, 2))], tps=[(0, 0)])
    return u, [k for s, n, _ in spws for k in range(s, s + n)]


def answer(ch, lo, hi, check):
    """Expected result for lo <= channel < hi in channel units; 'error' if refused."""
    if lo > hi or (check and (lo < min(ch) or hi > max(ch))):
        return "error"
    ix = [i for i, k in enumerate(ch) if lo <= k < hi]
    return (ix[0], ix[-1]) if ix else (None, None)


def run_band(task, rec):
    from hera_pspec import conversions, utils

    nf, kind = task["nf"], task["kind"]
    u, ch = obj(kind, nf)
    top = max(ch)
    cosmo = conversions.Cosmo_Conversions()
    step = 0.25 if nf <= 3 or task["full"] else 0.5
    grid = np.arange(-1.0, top + 1.0 + step, step)

    def call(fn, rng, be, trace):
        """Result or 'error'."""
        rec.step()
        try:
            kw = {} if be is None else {"bounds_error": be}
            return fn(u, rng, **kw)
        except ValueError:
            return "error"
        except Exception as e:  # noqa: BLE001
            rec.fail("band:raised", f"{type(e).__name__}: {e}", trace)
            return "error"

    pairs = list(itertools.product(grid, repeat=2))
    singles = {}
    for lo, hi in pairs:
        for be in (True, False, None):
            rec.trace()
            tr = dict(kind=kind, nf=nf, lo=float(lo), hi=float(hi), bounds_error=be)
            want = answer(ch, lo, hi, be is not False)
            got = call(utils.spw_range_from_freqs, (FQ + DF * lo, FQ + DF * hi), be, tr)
            singles[(lo, hi, be)] = want
            rec.expect(got == want and (got == "error" or isinstance(got, tuple)), "freqs:value", f"{got} vs {want}", tr)
            rec.state((kind, nf, float(lo), float(hi), be, str(got)))
            # redshifts: shifted off the channels, decreasing with frequency; zmin < z <= zmax
            lo2, hi2 = lo + 0.1, hi + 0.1
            want = answer(ch, lo2, hi2, be is not False)
            zr = (float(cosmo.f2z(FQ + DF * hi2)), float(cosmo.f2z(FQ + DF * lo2)))
            got = call(utils.spw_range_from_redshifts, zr, be, tr)
            rec.expect(got == want and (got == "error" or isinstance(got, tuple)), "redshifts:value", f"{got} vs {want}", tr)
    # lists
    few = [p for p in pairs if (p[0] * 4 + p[1] * 7) % (1 if nf < 3 else 5) == 0][:: max(1, len(pairs) // 160)]
    for n in (0, 1, 2, 3):
        for c, combo in enumerate(itertools.product(few[: 12 if n == 3 else 20], repeat=n)):
            if n == 3 and c % 7 and not task["full"]:
                continue
            be = c % 2 == 0
            want = [answer(ch, lo, hi, be) for lo, hi in combo]
            want = "error" if "error" in want else want
            tr = dict(kind=kind, nf=nf, combo=[tuple(map(float, p)) for p in combo], bounds_error=be)
            rec.trace()
            got = call(utils.spw_range_from_freqs, [(FQ + DF * lo, FQ + DF * hi) for lo, hi in combo], be, tr)
            rec.expect(got == want and (got == "error" or isinstance(got, list)), "freqs:list", f"{got} vs {want}", tr)
            if n in (1, 2):
                wz = [answer(ch, lo + 0.1, hi + 0.1, be) for lo, hi in combo]
                wz = "error" if "error" in wz else wz
                arg = [(float(cosmo.f2z(FQ + DF * (hi + 0.1))), float(cosmo.f2z(FQ + DF * (lo + 0.1)))) for lo, hi in combo]
                got = call(utils.spw_range_from_redshifts, arg, be, tr)
                rec.expect(got == wz and (got == "error" or isinstance(got, list)), "redshifts:list", f"{got} vs {wz}", tr)
    # conversion there and back
    for k in grid:
        f = FQ + DF * k
        z = cosmo.f2z(f)
        rec.expect(abs(cosmo.z2f(z) - f) < 1e-3 and abs((1 + z) * f - 1.420405751e9) < 1e4, "f2z", f"{f} {z}")
        rec.expect(abs(cosmo.z2f(cosmo.f2z(f / 1e9, ghz=True), ghz=True) * 1e9 - f) < 1e-3, "f2z:ghz", f"{f}")
    for bad in (5, "12", (1e8,), {1: 2}):
        rec.expect(rec.raises(utils.spw_range_from_freqs, u, bad), "freqs:bad-argument", f"{bad!r} accepted")


def run_axes(task, rec):
    """Spectral windows of every channel range: delays, frequencies and labels of the result."""
    from hera_pspec import pspecdata, utils

    nf = 8 if task["full"] else 6
    ranges = [(a, b) for a in range(nf) for b in range(a + 2, nf + 1)]
    us = [V.cached(bls=((0, 1), (1, 2)), times=(0, 1), nf=nf, chan0=FQ, df=DF, salt=i) for i in range(2)]
    ds = pspecdata.PSpecData(dsets=us, wgts=[None, None])
    for c, (a, b) in enumerate(ranges):
        if c % 4 != task["part"]:
            continue
        n = b - a
        for nd in [None] + list(range(1, n + 1)):
            tr = dict(range=(a, b), ndlys=nd)
            m = nd or n
            want = np.array([k - m // 2 for k in range(m)]) / (m * DF) * 1e9
            rec.step()
            rec.trace()
            ds.set_spw((a, b), ndlys=nd)
            ok, d = rec.attempt("delays", ds.delays, trace=tr)
            if ok:
                rec.expect(d.shape == (m,) and np.allclose(d, want, rtol=1e-9, atol=1e-9), "delays", f"{d} vs {want}", tr)
            fr = FQ + DF * np.arange(a, b)
            for arr in (fr, fr[::1]):
                rec.expect(np.allclose(utils.get_delays(arr, n_dlys=nd) * 1e9, want, rtol=1e-9, atol=1e-9), "get_delays", "", tr)
        for nd in (None, n - 1 if n > 2 else n):
            for other in (None, (0, nf)):
                spws = [(a, b)] + ([other] if other else [])
                nds = None if nd is None else [nd] + ([nf] if other else [])
                tr = dict(spws=spws, ndlys=nds)
                rec.step()
                ok, u = rec.attempt("pspec", ds.pspec, [(0, 1)], [(0, 1)], (0, 1), [("xx", "xx")], spw_ranges=spws, n_dlys=nds, norm="I", taper="none", verbose=False, trace=tr)
                if not ok:
                    continue
                for s, (x, y) in enumerate(spws):
                    m = (nds or [q[1] - q[0] for q in spws])[s]
                    fr = FQ + DF * np.arange(x, y)
                    got = u.freq_array[u.spw_to_freq_indices(s)]
                    rec.expect(np.allclose(got, fr, rtol=1e-12), "pspec:freqs", f"{got}", tr)
                    dl = u.get_dlys(s) * 1e9
                    want = np.array([k - m // 2 for k in range(m)]) / (m * DF) * 1e9
                    rec.expect(np.allclose(dl, want, rtol=1e-9, atol=1e-9), "pspec:delays", f"{dl} vs {want}", tr)
                    r = u.get_spw_ranges(s)[0]
                    rec.expect(np.isclose(r[0], fr[0], rtol=1e-12) and np.isclose(r[1], fr[-1] + DF, rtol=1e-9) and tuple(r[2:]) == (len(fr), m), "pspec:ranges", f"{r}", tr)
                    # a range looked up in the dataset reaches exactly this window
                    i, j = utils.spw_range_from_freqs(us[0], (fr[0], fr[-1] + DF / 2), bounds_error=False)
                    rec.expect((i, j + 1) == (x, y), "lookup", f"{(i, j)} vs {(x, y)}", tr)
                    rec.state(("axes", x, y, m, np.round(dl, 6)))
    for bad in ((nf - 1,), [0, 3], (0.0, 3.0)):
        rec.expect(rec.raises(ds.set_spw, bad), "set_spw:bad", f"{bad!r} accepted")
    ds.set_spw((0, 4))
    rec.expect(rec.raises(ds.set_Ndlys, 5), "ndlys:many", "five delays from four channels accepted")
