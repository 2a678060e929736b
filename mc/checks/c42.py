"""C42 - spectra do not depend on whether the channels of the data run up or down."""

import contextlib
import copy
import io
import itertools
import os
import tempfile
import warnings

import numpy as np

from mc import uvd as V
from mc.checks import c31

PID = "C42"
LEVEL = "model_checking"
RULE = (
    "Every combination of {weighting, normalization, taper, number of channels (odd, even), number of delays, beam, exact normalization, covariance "
    "model, spectral windows, pairs sharing a baseline or not} is taken through pspec twice: with data whose channels run up, and with the same data whose channels run "
    "down; then every operation of {none, fold, Delta^2, time average, spherical average, noise spectra, noise errors, exact windows, write and read, "
    "selection of a window by its range, combination of windows, change of cosmology} is applied to both. Every value must be found again under the same label (delay, frequency, time, pair). "
    "States are distinct configurations and operations; transitions are calls."
)
ASSUMPTIONS = ["the delay at the edge of an even band stands for both its signs", "channels are evenly spaced"]
BLS = ((0, 1), (1, 2), (2, 3))
PAIRS = ([(0, 1), (1, 2), (0, 1)], [(1, 2), (2, 3), (0, 1)])
DF, F0 = 4.0e6, 1.2e8
OPS = ("none", "fold", "delsq", "tavg", "sph", "PN", "err", "exact", "io", "select", "combine", "cosmo")


def tasks(tier, seed):
    V.warm()
    full = tier == "thorough"
    out = []
    for nf, w, norm in itertools.product((5, 6), ("identity", "iC", "dayenu"), ("I", "H^-1")):
        out.append(dict(nf=nf, w=w, norm=norm, full=full))
    return out


def mirror(u):
    u = V.light(u)
    for k in ("data_array", "flag_array", "nsample_array"):
        setattr(u, k, getattr(u, k)[:, ::-1].copy())
    u.freq_array = u.freq_array[::-1].copy()
    u.channel_width = u.channel_width[::-1].copy()
    return u


def order(dlys, df):
    """Positions along the delay axis, by label; the edge of an even axis is one label."""
    n = dlys.size
    k = np.rint(dlys * n * df).astype(int)
    lab = np.where(2 * k == n, -k, k)
    return np.argsort(lab), np.sort(lab)


def cells(u, delay=True):
    """Every value under labels that do not depend on the order of channels."""
    out = {}
    for i in range(u.Nspws):
        fi = u.spw_to_freq_indices(i)
        f = u.freq_array[fi]
        fo = np.argsort(f)
        key = (round(f.min() / 1e3), len(f))
        c = {}
        n = u.data_array[i].shape[1]
        if delay:
            d = u.dly_array[u.spw_dly_array == i]
            o, c["delay"] = order(d, DF)
            if u.folded:
                # the half that is kept, as get_data shows it
                o = o[-(n - n // 2 - 1) :]
                c["delay"] = np.rint(u.get_dlys(i) * n * DF)
        else:
            o = np.arange(n)
            c["delay"] = u.dly_array[u.spw_dly_array == i] * 1e9
        c["data"] = u.data_array[i][:, o]
        if delay and u.folded:
            c["shown"] = [u.get_data((i, b, p)) for b in u.get_blpairs() for p in u.polpair_array]
            c["kpara"] = u.get_kparas(i) if hasattr(u, "cosmo") else 0.0
        for s in getattr(u, "stats_array", {}):
            c["stat " + s] = u.stats_array[s][i][:, o]
        for nm in ("cov_array_real", "cov_array_imag"):
            if hasattr(u, nm):
                c[nm] = getattr(u, nm)[i][:, o][:, :, o]
        if hasattr(u, "window_function_array"):
            w = u.window_function_array[i][:, o]
            if u.exact_windows:
                # rows of opposite delays need not be alike in every bit
                lab = np.abs(c["delay"])
                c["window"] = np.array([w[:, lab == x].sum(1) for x in np.unique(lab)])
            else:
                c["window"] = w[:, :, o]
            if u.exact_windows:
                c["wk"] = np.concatenate([u.window_function_kperp[i].ravel(), u.window_function_kpara[i].ravel()])
        c["weights"] = u.wgt_array[i][:, fo] if u.wgt_array[i].shape[1] == fo.size else u.wgt_array[i]
        c["integration"] = u.integration_array[i]
        c["nsample"] = u.nsample_array[i]
        c["scalar"] = u.scalar_array[i]
        c["freq"] = f[fo]
        c["range"] = np.array(u.get_spw_ranges(i)[0])
        out[key] = c
    out["rows"] = dict(b=u.blpair_array, t1=u.time_1_array, t2=u.time_2_array, l1=u.lst_1_array, l2=u.lst_2_array, norm=u.norm_units + u.norm + u.taper + u.weighting)
    return out


def differ(a, b, tol):
    """First label at which two sets of cells differ."""
    if list(a) != list(b) and sorted(map(repr, a)) != sorted(map(repr, b)):
        return f"windows {list(a)} {list(b)}"
    for k in a:
        if sorted(a[k]) != sorted(b[k]):
            return f"{k}: {sorted(a[k])} {sorted(b[k])}"
        for f in a[k]:
            x, y = a[k][f], b[k][f]
            if isinstance(x, str):
                if x != y:
                    return f"{k} {f}"
                continue
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape:
                return f"{k} {f}: {x.shape} {y.shape}"
            size = np.abs(x[np.isfinite(x)]).max(initial=0.0)
            if not np.allclose(x, y, rtol=tol, atol=tol * size, equal_nan=True):
                return f"{k} {f}"
    return None


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        go(task, rec)


def dayenu():
    return dict(filter_centers=[0.0], filter_half_widths=[30e-9], filter_factors=[1e-3])


def go(task, rec):
    from hera_pspec import pspecdata

    nf, w, norm, full = task["nf"], task["w"], task["norm"], task["full"]
    flags = lambda b, p, t, n: np.array([(b[0] + 2 * b[1] + t + k) % 7 == 0 for k in range(n)])  # noqa: E731
    nf2 = nf + 4
    up = [V.uvdata(bls=BLS, times=(0, 1, 2), nf=nf2, df=DF, chan0=F0, salt=s, autos=True, flags=flags, nsamp=lambda b, p, t, n: 1.0 + (np.arange(n) + t) % 3) for s in (0, 5)]
    dn = [mirror(u) for u in up]
    spwss = ([(1, 1 + nf)], [(0, nf), (nf, nf2)])
    tapers = ("none", "hann", "blackman-harris") if full else ("none", "blackman-harris")
    beams = ("none", "gauss", "arr")
    covs = (None, "empirical", "autos", "dsets") if full else (None, "autos")
    if w == "dayenu":
        tapers = tapers[:1] if not full else tapers[:2]
    for taper, bm, spws, nd, cov in itertools.product(tapers, beams, spwss, (None, 4), covs):
        if nd and len(spws) > 1:
            continue
        if bm == "none" and cov and not full:
            continue
        tr = dict(task, taper=taper, beam=bm, spws=spws, n_dlys=nd, cov=cov)
        res = []
        for ds_, flip in ((up, False), (dn, True)):
            beam = {"none": lambda: None, "gauss": c31.gauss, "arr": lambda: c31.array_beam(pols=(-5,))}[bm]()
            with contextlib.redirect_stdout(io.StringIO()):
                ds = pspecdata.PSpecData(dsets=[V.light(x) for x in ds_], wgts=[None, None], labels=["a", "b"], beam=beam)
            sp = [(nf2 - b, nf2 - a) for a, b in spws] if flip else list(spws)
            kw = {}
            if w == "dayenu":
                kw["r_params"] = {(i,) + bl + ("xx",): dayenu() for i in (0, 1) for bl in BLS + ((0, 0), (1, 1), (2, 2), (3, 3))}
            rec.step()
            with contextlib.redirect_stdout(io.StringIO()):
                ok, u = rec.attempt(
                    "pspec", ds.pspec, PAIRS[0], PAIRS[1], (0, 1), ("xx", "xx"), input_data_weight=w, norm=norm, taper=taper, spw_ranges=sp,
                    n_dlys=[nd] * len(sp) if nd else None, verbose=False, store_window=True, store_cov=cov is not None, cov_model=cov or "empirical", trace=dict(tr, down=flip), **kw,
                )
            if not ok:
                break
            res.append(u)
        if len(res) < 2:
            continue
        ops = OPS if full or (taper != "none" and cov) or (norm == "I" and w == "identity") else ("none", "fold")
        for op in ops:
            if op in ("delsq", "sph", "PN", "err", "exact", "cosmo") and bm == "none":
                continue
            if op == "exact" and (nd is not None or w != "identity" or norm != "I" or len(spws) > 1):
                continue
            if op == "sph" and nd is not None:
                continue  # needs as many delays as channels
            rec.state((tuple(map(repr, tr.values())), op))
            rec.trace()
            got = []
            for u, ds_ in zip(res, (up, dn)):
                rec.step()
                with contextlib.redirect_stdout(io.StringIO()):
                    ok, r = rec.attempt("op:" + op, apply, copy.deepcopy(u), op, ds_, nf, trace=tr)
                if not ok:
                    break
                got.append(r)
            if len(got) == 2:
                d = differ(got[0], got[1], 1e-6 if w == "identity" else 1e-5)
                rec.expect(d is None, f"same:{op}", d, dict(tr, op=op))
    if w == "identity" and norm == "I":
        exact_norm(task, rec, up, dn, spwss)


def apply(u, op, dsets, nf):
    from hera_pspec import conversions, grouping, utils, uvpspec

    sph = dict(kbins=np.arange(0.05, 0.8, 0.15), bin_widths=0.15)
    if op == "fold":
        u.fold_spectra()
    elif op == "delsq":
        u.convert_to_deltasq()
    elif op == "tavg":
        u.average_spectra(time_avg=True)
    elif op == "sph":
        return cells(grouping.spherical_average(u, sph["kbins"], sph["bin_widths"]), delay=False)
    elif op == "PN":
        r = {}
        for i in range(u.Nspws):
            o, _ = order(u.get_dlys(i), DF)
            for form in ("Pk", "DelSq"):
                n = u.generate_noise_spectra(i, ("xx", "xx"), 300.0, form=form, num_steps=50)
                r[i if u.Nspws == 1 else round(u.freq_array[u.spw_to_freq_indices(i)].min()), form] = {str(k): v[:, o] for k, v in n.items()}
        return r
    elif op == "err":
        au = V.light(dsets[0])
        for k in range(au.Nblts):
            au.data_array[k] = np.abs(au.data_array[k]) + 100.0
        utils.uvp_noise_error(u, au, err_type=["P_N", "P_SN"], num_steps_scalar=50)
    elif op == "exact":
        from hera_pspec.uvwindow import FTBeam

        fr = np.sort(dsets[0].freq_array)
        x = np.linspace(-1, 1, 41)
        g = np.array([np.exp(-(x[:, None] ** 2 + x[None] ** 2) / (0.1 + 0.02 * i)) * (1 + 0.3 * x[:, None]) for i in range(fr.size)])
        u.get_exact_window_functions(ftbeam=FTBeam(data=g, pol="xx", freq_array=fr, mapsize=1.0), x_orientation="east", inplace=True)
    elif op == "io":
        fd, path = tempfile.mkstemp(suffix=".h5")
        os.close(fd)
        try:
            u.write_hdf5(path, overwrite=True)
            u = uvpspec.UVPSpec()
            u.read_hdf5(path)
        finally:
            os.unlink(path)
    elif op == "select":
        # the window with the lowest channels, by its range
        u = u.select(spws=[int(u.spw_array[u.get_spw_ranges().index(min(u.get_spw_ranges()))])], inplace=False)
    elif op == "combine":
        parts = [u.select(spws=[i], inplace=False) for i in range(u.Nspws)]
        u = uvpspec.combine_uvpspec(parts, verbose=False) if len(parts) > 1 else uvpspec.combine_uvpspec(
            [u.select(blpairs=[b], inplace=False) for b in u.get_blpairs()], verbose=False)
    elif op == "cosmo":
        u.set_cosmology(conversions.Cosmo_Conversions(H0=70.0, Om_L=0.65), overwrite=True, verbose=False)
    return cells(u)


def exact_norm(task, rec, up, dn, spwss):
    """Exact normalization, with a beam whose response changes with frequency."""
    from hera_pspec import pspecbeam, pspecdata

    fr = np.linspace(1.0e8, 2.0e8, 40)

    class Beam(pspecbeam.PSpecBeamFromArray):
        def beam_normalized_response(self, pol="pI", freq=None, x_orientation=None):
            res = np.array([1.0 / (1 + 0.3 * np.arange(12) + 0.5 * (f - 1e8) / 1e8 * (np.arange(12) % 3)) for f in freq])
            return res, res.sum(1) * np.pi / 3.0, 1

    for taper, spws, cov, nd in itertools.product(("none", "hann"), spwss, (False, True), (None, 4)):
        if nd and len(spws) > 1:
            continue
        tr = dict(task, exact=True, taper=taper, spws=spws, cov=cov, n_dlys=nd)
        res = []
        for d, flip in ((up, False), (dn, True)):
            beam = Beam(OmegaP={"XX": 0.02 * (fr / fr[0]) ** -2}, OmegaPP={"XX": 0.01 * (fr / fr[0]) ** -2}, beam_freqs=fr)
            sp = [(task["nf"] + 4 - b, task["nf"] + 4 - a) for a, b in spws] if flip else list(spws)
            rec.step()
            with contextlib.redirect_stdout(io.StringIO()):
                ds = pspecdata.PSpecData(dsets=[V.light(x) for x in d], wgts=[None, None], labels=["a", "b"], beam=beam)
                ok, u = rec.attempt("exactnorm", ds.pspec, PAIRS[0], PAIRS[1], (0, 1), ("xx", "xx"), exact_norm=True, taper=taper, spw_ranges=sp, n_dlys=[nd] * len(sp) if nd else None,
                                    verbose=False, store_window=True, store_cov=cov, cov_model="autos", trace=dict(tr, down=flip))
            if ok:
                res.append(cells(u))
        rec.state(tuple(map(repr, tr.values())))
        rec.trace()
        if len(res) == 2:
            d = differ(res[0], res[1], 1e-6)
            rec.expect(d is None, "same:exactnorm", d, tr)
