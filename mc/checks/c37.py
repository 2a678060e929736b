"""C37 - simulated noise and sky have the level of each visibility's own settings, and nothing else changes."""

import contextlib
import copy
import io
import itertools
import warnings

import numpy as np

from mc import build as B
from mc import table as T
from mc import uvd as V
from mc.checks import c31

PID = "C37"
LEVEL = "model_checking"
RULE = (
    "Over reduced (thorough: full) domains: noise_sim: every combination of system temperature x samples x flags x integration times x channel width and direction x polarizations x order of rows x beam x whitening x in place x number of "
    "extensions; with the same seed the noise divided by the level each visibility should have is the same for all of them. sky_noise_jy_autos and sky_noise_sim: every "
    "combination of autocorrelations, signal amplitude, samples, polarizations, order of rows and the three constancy options. uvpspec_from_data: every combination of group layout, window, taper, "
    "delays, deviations, beam and cosmology against a PSpecData pipeline. States are distinct configurations; transitions are calls."
)
ASSUMPTIONS = ["draws depend on the seed and shape only", "the overall factor for pseudo-Stokes polarizations in Jy is not prescribed", "LSTs do not wrap", "unit variance of the draws is measured on one large fixed-seed array"]
BLS = ((0, 1), (1, 2), (0, 0), (2, 0))
SEED = 3


def tasks(tier, seed):
    V.warm()
    full = tier == "thorough"
    out = [dict(mode="noise", pols=p, order=o, beam=b, full=full) for p, b in NPOL for o in ("time", "bl")]
    out += [dict(mode="level"), dict(mode="autos", full=full)]
    out += [dict(mode="sky", pols=p, order=o, full=full) for p in ((-5,), (-6, -5), (1,), (2, 1), (1, 2, 3, 4)) for o in ("time", "bl")]
    out += [dict(mode="helper", g=i, std=x, full=full) for i in range(5 if full else 3) for x in (False, True)]
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        globals()["run_" + task["mode"]](task, rec)


NPOL = [((-5,), "none"), ((-6, -5), "none"), ((2, 1), "none"), ((1, -5), "none"), ((-5,), "arr"), ((-5, -6), "arr"), ((-6, -5), "uv"), ((-5,), "gauss")]
NSAMP = {"one": lambda b, p, t, n: np.ones(n), "mix": lambda b, p, t, n: np.array([1.0 + B.h("ns", b, p, t, k) % 4 for k in range(n)]), "zero": lambda b, p, t, n: np.array([float(B.h("nz", b, p, t, k) % 3) for k in range(n)])}
FLAGS = {"no": None, "some": lambda b, p, t, n: np.array([B.h("fl", b, p, t, k) % 3 == 0 for k in range(n)])}
INTEG = {"one": 10.7, "mix": lambda b, t: 5.0 + B.h("it", b, t) % 4}


def make(kind, pols):
    from hera_pspec import pspecbeam

    if kind == "none":
        return None
    if kind == "arr":
        return c31.array_beam(pols=tuple(pols))
    if kind == "gauss":
        return c31.gauss()
    return pspecbeam.PSpecBeamUV(c31.uvbeam())


def meta(u):
    return {k: copy.deepcopy(getattr(u, k)) for k in ("time_array", "lst_array", "freq_array", "ant_1_array", "ant_2_array", "integration_time", "channel_width", "polarization_array", "uvw_array")}


def run_noise(task, rec):
    from hera_pspec import testing

    pols, nf, nt = task["pols"], 4, 2
    beam = make(task["beam"], pols)
    units = ("Jy", "uncalib")
    base = {}
    kinds = "arr" if task["beam"] == "none" else task["beam"]
    for ns, fl, it, df, un in itertools.product(NSAMP, FLAGS, INTEG, (1.0e5, 4.0e6, -4.0e6), units):
        cfg = dict(bls=BLS, times=tuple(range(nt)), nf=nf, pols=pols, order=task["order"], df=df, chan0=1.01e8, nsamp=NSAMP[ns], flags=FLAGS[fl], integ=INTEG[it], units=un)
        if un == "uncalib" and (it, df) != ("mix", 1.0e5) and not task["full"]:
            continue
        src = V.uvdata(**cfg)
        m0, data0 = meta(src), src.data_array.copy()
        fl0, ns0 = src.flag_array.copy(), src.nsample_array.copy()
        for T_, whiten, inplace, next_ in itertools.product((300.0, 50.0), (False, True), (False, True), (0, 1, 3)):
            if next_ and (T_ == 50.0 or un == "uncalib" or it == "one" or df != 1.0e5) and not task["full"]:
                continue
            rec.step()
            rec.trace()
            tr = dict(task, nsamp=ns, flags=fl, integ=it, df=df, units=un, T=T_, whiten=whiten, inplace=inplace, extend=next_)
            rec.state((task["pols"], task["order"], task["beam"], ns, fl, it, df, un, T_, whiten, inplace, next_))
            u = V.light(src)
            ok, r = rec.attempt("noise:call", testing.noise_sim, u, T_, beam=beam, seed=SEED, whiten=whiten, inplace=inplace, Nextend=next_, trace=tr)
            if not ok:
                continue
            rec.expect((r is None) == inplace, "noise:return", "", tr)
            if not inplace:
                rec.expect(np.array_equal(u.data_array, data0) and np.array_equal(u.flag_array, fl0) and np.array_equal(u.nsample_array, ns0), "noise:input", "input changed", tr)
            o = u if inplace else r
            n = (1 + next_) * nt
            # same baselines and polarizations at contiguous times
            ok = o.Nblts == len(BLS) * n and o.Ntimes == n and list(o.polarization_array) == list(pols) and o.Nbls == len(BLS)
            rec.expect(ok, "noise:shape", f"Nblts {o.Nblts} Ntimes {o.Ntimes}", tr)
            if not ok:
                continue
            times = np.unique(o.time_array)
            rec.expect(np.allclose(times, B.T0 + B.DT * np.arange(n), rtol=0, atol=1e-7), "noise:times", f"{(times - B.T0) / B.DT}", tr)
            dl = np.median(np.diff(np.unique(m0["lst_array"])))
            rec.expect(np.allclose(np.unique(o.lst_array), m0["lst_array"].min() + dl * np.arange(n), rtol=0, atol=1e-7), "noise:lsts", "", tr)
            if not next_:
                for k, v in m0.items():
                    rec.expect(np.array_equal(getattr(o, k), v), "noise:meta", k, tr)
            if task["beam"] != "none":
                rec.expect(o.vis_units == "Jy", "noise:units", o.vis_units, tr)
            # the level of every visibility
            lev = np.zeros(o.data_array.shape)
            want_f, want_n = np.zeros(o.flag_array.shape, bool), np.zeros(o.nsample_array.shape)
            for row in range(o.Nblts):
                bl = (int(o.ant_1_array[row]), int(o.ant_2_array[row]))
                t = int(round((o.time_array[row] - B.T0) / B.DT)) % nt
                ti = INTEG[it] if it == "one" else INTEG[it](bl, t)
                rec.expect(o.integration_time[row] == ti, "noise:integ", "", tr)
                for p, pol in enumerate(pols):
                    x = np.ones(nf) if whiten else NSAMP[ns](bl, pol, t, nf)
                    want_n[row, :, p] = x
                    if not whiten and FLAGS[fl] is not None:
                        want_f[row, :, p] = FLAGS[fl](bl, pol, t, nf)
                    s = T_ / np.sqrt(ti * abs(df) * x) / (np.sqrt(2) if pol > 0 else 1)
                    if task["beam"] != "none":
                        P, _ = c31.curves_of(task["beam"], pol)
                        s = s * 1e3 / c31.factor(o.freq_array, P(o.freq_array))
                    lev[row, :, p] = s
            dead = ~np.isfinite(lev)
            rec.expect(np.array_equal(o.nsample_array, want_n), "noise:nsamples", "", tr)
            rec.expect(np.array_equal(o.flag_array, want_f | dead), "noise:flags", "flags of visibilities with samples changed, or without samples not flagged", tr)
            rec.expect(np.array_equal(np.isnan(o.data_array), dead), "noise:nan", "", tr)
            z = o.data_array / lev
            if next_ not in base:
                base[next_] = np.full(z.shape, np.nan, complex)
            b = base[next_]
            good = ~dead & np.isfinite(b)
            rec.expect(np.allclose(z[good], b[good], rtol=1e-9 if task["beam"] == "none" else 1e-6), f"noise:level:{kinds}", "noise is not at the level of its own samples, times, width, beam and temperature", tr)
            b[~dead] = np.where(np.isfinite(b), b, z)[~dead]
    for v in base.values():
        v = v[np.isfinite(v)]
        rec.expect(np.unique(v).size == v.size, "noise:independent", "repeated draws", task)
    # another seed draws other noise; no seed follows the global state
    u = V.uvdata(bls=BLS, times=(0, 1), nf=nf, pols=pols)
    a = testing.noise_sim(u, 300.0, seed=1).data_array
    b = testing.noise_sim(u, 300.0, seed=2).data_array
    np.random.seed(1)
    c = testing.noise_sim(u, 300.0).data_array
    d = testing.noise_sim(u, 300.0).data_array
    rec.expect(not np.isclose(a, b).any() and np.array_equal(a, c) and not np.isclose(c, d).any(), "noise:seed", "", task)


def run_level(task, rec):
    """Unit variance, in each part, of the draws."""
    from hera_pspec import testing

    u = V.uvdata(bls=((0, 1), (1, 2), (2, 3), (0, 3)), times=tuple(range(6)), nf=400, df=1e5)
    z = testing.noise_sim(u, 200.0, seed=SEED).data_array.ravel() / (200.0 / np.sqrt(10.7 * 1e5))
    n = z.size
    tr = dict(task, n=n)
    for x in (z.real, z.imag):
        rec.expect(abs(np.mean(x**2) / 0.5 - 1) < 6 * np.sqrt(2 / n) and abs(np.mean(x)) < 6 * np.sqrt(0.5 / n), "level:variance", f"{np.mean(x**2)}", tr)
    rec.expect(abs(np.mean(z.real * z.imag)) < 6 * 0.5 / np.sqrt(n), "level:cross", "", tr)
    np.random.seed(SEED)
    z = testing.sky_noise_jy_autos(np.arange(40) * 0.01, np.linspace(1e8, 1.1e8, 200), np.full((40, 200), 50.0), np.full(200, 0.1), 10.0, channel_width=1e5).ravel() / (50.0 / np.sqrt(1e6))
    for x in (z.real, z.imag):
        rec.expect(abs(np.mean(x**2) / 0.5 - 1) < 6 * np.sqrt(2 / z.size), "level:autos", f"{np.mean(x**2)}", tr)
    rec.state(("level", n))
    rec.step(2)


C, KB = 299792458.0, 1.38064852e-23


def run_autos(task, rec):
    from hera_pspec import testing

    lsts = np.array([0.1, 0.2, 0.3])
    base = {}
    for nf, step in itertools.product((1, 4) if task["full"] else (4,), (2.0e6, -2.0e6)):
        freqs = 1.0e8 + step * np.arange(nf)
        shapes = {"num": 120.0, "arr": 50.0 + 10.0 * np.arange(3 * nf).reshape(3, nf), "zero": np.zeros((3, nf))}
        om = {"arr": 0.03 + 0.004 * np.arange(nf), "fn": lambda f: 0.05 * (f / 1e8) ** -1.0}
        for av, o, ti, cw, trx in itertools.product(shapes, om, (10.7, 4.0), (None, 1e5), (0.0, 150.0)):
            if cw is None and nf == 1:
                continue
            tr = dict(task, nf=nf, step=step, av=av, om=o, ti=ti, cw=cw, trx=trx)
            rec.step()
            rec.trace()
            rec.state(("autos", nf, step, av, o, ti, cw, trx))
            np.random.seed(SEED)
            keep = copy.deepcopy(shapes[av])
            ok, n = rec.attempt("autos:call", testing.sky_noise_jy_autos, lsts, freqs, autovis=shapes[av], omega_p=om[o], integration_time=ti, channel_width=cw, Trx=trx, trace=tr)
            if not ok:
                continue
            rec.expect(np.array_equal(keep, shapes[av]), "autos:input", "", tr)
            omv = om[o](freqs) if o == "fn" else om[o]
            j2k = 1e-26 * (C / freqs) ** 2 / (2 * KB * omv)
            lev = np.broadcast_to(np.asarray(shapes[av]) + trx / j2k[None], (1 if av == "num" else 3, nf)) / np.sqrt(ti * (cw or 2.0e6))
            if av == "zero" and trx == 0:
                rec.expect(np.all(n == 0), "autos:zero", "", tr)
                continue
            z = n / lev
            b = base.setdefault((nf, n.shape), z)
            rec.expect(np.allclose(z, b, rtol=1e-5), "autos:level", "", tr)
    rec.expect(rec.raises(testing.sky_noise_jy_autos, lsts, np.array([1e8, 1.1e8]), 1.0, np.ones(3), 10.0), "autos:refuse", "", task)


# ---------------------------------------------------------------- sky
def skybeam(pols):
    from hera_pspec import pspecbeam

    return pspecbeam.PSpecBeamUV(c31.uvbeam((1, 2, 3, 4) if pols[0] > 0 else (-5, -6)))


OWN = {2: 0.3, 3: 5.0, 4: 7.0, -6: 3.0}
SBL = ((0, 1), (1, 2), (2, 0), (0, 0), (1, 1), (2, 2))


def run_sky(task, rec):
    from hera_pspec import testing

    pols, nf, nt = task["pols"], 4, 3
    if pols[0] > 1:  # Q, U, V take the level of I
        assert 1 in pols
    beam = skybeam(pols)
    zs = {}
    for amp, autos, it, ns, by_ns in itertools.product((0, 1000.0), ("zero", "some", "twice", "own"), (10.7, 5.0), ("one", "zero"), (False, True)):
        src = V.uvdata(bls=SBL, times=tuple(range(nt)), nf=nf, pols=pols, order=task["order"], df=4.0e6, chan0=1.0e8, nsamp=NSAMP[ns], integ=it)
        isauto = src.ant_1_array == src.ant_2_array
        src.data_array[isauto] *= {"zero": 0.0, "some": 1.0, "twice": 2.0, "own": 1.0}[autos]
        if autos == "own":
            # each antenna and each polarization at its own level; the noise of Q, U and V has that of I
            for p, pol in enumerate(src.polarization_array):
                src.data_array[isauto, :, p] *= ((1.0 + src.ant_1_array[isauto]) ** 2 * OWN.get(int(pol), 1.0))[:, None]
        keep = src.data_array.copy()
        for pb, ct in itertools.product((True, False), repeat=2):
            tr = dict(task, amp=amp, autos=autos, integ=it, ns=ns, by_ns=by_ns, per_bl=pb, in_time=ct)
            rec.step()
            rec.trace()
            rec.state((task["pols"], task["order"], amp, autos, it, ns, by_ns, pb, ct))
            np.random.seed(SEED)
            ok, o = rec.attempt("sky:call", testing.sky_noise_sim, src, beam, cov_amp=amp, cov_length_scale=10, constant_per_bl=pb, constant_in_time=ct, bl_loop_seed=5, divide_by_nsamp=by_ns, trace=tr)
            if not ok:
                continue
            rec.expect(np.array_equal(src.data_array, keep), "sky:input", "input changed", tr)
            rec.expect(np.array_equal(o.data_array[isauto], keep[isauto]), "sky:autos", "autocorrelations changed", tr)
            rec.expect(np.array_equal(o.nsample_array, src.nsample_array) and np.array_equal(o.flag_array, src.flag_array), "sky:flags", "", tr)
            x = {(bl, pol): np.array([o.data_array[(o.ant_1_array == bl[0]) & (o.ant_2_array == bl[1]) & (np.abs(o.time_array - t) < 1e-9), :, p][0] for t in np.unique(o.time_array)])
                 for bl in SBL[:3] for p, pol in enumerate(pols)}
            names = sorted(x)
            if amp == 0 and autos == "zero":
                rec.expect(all(np.all(v == 0) for v in x.values()), "sky:nothing", "", tr)
            elif autos == "zero":
                # signal alone
                for k in names:
                    flat = np.allclose(x[k], x[k][:1], rtol=1e-9)
                    rec.expect(flat == ct and np.all(x[k] != 0), "sky:time", f"constant in time: {flat}", tr)
                for a, b in itertools.combinations(names, 2):
                    if a[1] == b[1]:
                        rec.expect(np.allclose(x[a], x[b], rtol=1e-9) == pb, "sky:bl", f"{a} {b}", tr)
            elif amp == 0:
                # noise alone, at the level of the two antennas' autocorrelations
                for bl, pol in names:
                    ap = 1 if pol in (2, 3, 4) else pol
                    lev = np.array([np.sqrt(np.abs(V.vis((bl[0],) * 2, ap, t, nf) * V.vis((bl[1],) * 2, ap, t, nf))) for t in range(nt)])
                    lev *= {"some": 1.0, "twice": 2.0, "own": (1.0 + bl[0]) * (1.0 + bl[1]) * OWN.get(ap, 1.0)}[autos] / np.sqrt(it * 4.0e6)
                    if by_ns:
                        n_ = np.array([NSAMP[ns](bl, pol, t, nf) for t in range(nt)])
                        lev = np.where(n_ > 0, lev / np.sqrt(n_), 0.0)
                    v = x[(bl, pol)]
                    rec.expect(np.array_equal(v == 0, lev == 0), "sky:empty", "", tr)
                    z = np.where(lev > 0, v / np.where(lev > 0, lev, 1), np.nan)
                    b = zs.setdefault((bl, pol, pb, ct), np.full(z.shape, np.nan, complex))
                    both = np.isfinite(z) & np.isfinite(b)
                    rec.expect(np.allclose(z[both], b[both], rtol=1e-8), "sky:level", f"{bl} {pol}", tr)
                    b[:] = np.where(np.isfinite(b), b, z)
    for (bl, pol, pb, ct), v in zs.items():
        rec.expect(np.unique(v).size == v.size, "sky:draws", "repeated draws", task)
    bad = V.uvdata(bls=SBL, times=(0,), nf=nf, pols=(-5, -7), df=4.0e6)
    rec.expect(rec.raises(testing.sky_noise_sim, bad, beam), "sky:refuse", "cross-hand polarizations accepted", task)


# ---------------------------------------------------------------- the helper
def run_helper(task, rec):
    from hera_pspec import conversions, pspecdata, testing, utils

    bls = ((0, 1), (1, 2), (2, 3), (4, 5), (0, 2), (1, 3))
    grps = [[[(0, 1), (1, 2), (2, 3)]], [(0, 1), (1, 2)], [[(0, 1)], [(0, 2), (1, 3)]], [[(0, 1), (1, 2), (2, 3), (4, 5)], [(0, 2), (1, 3)]], [[(4, 5), (2, 3)]]]
    full = task["full"]
    g, std = grps[task["g"]], task["std"]
    for spw, taper, nd, bm, pols, order in itertools.product(
        (None, [(0, 4)], [(1, 6), (0, 3)]) if full else (None, [(1, 6), (0, 3)]), ("none", "bh"), (None, 3), ("none", "own", "cosmo") if full else ("none", "cosmo"), ((-5,), (-6, -5)), ("time", "bl") if full else ("time",)
    ):
        tr = dict(task, g=repr(g), spw=spw, taper=taper, nd=nd, std=std, beam=bm, pols=pols, order=order)
        if nd is not None and spw is not None and len(spw) > 1:
            nd = [nd, 3]
        rec.step()
        rec.trace()
        rec.state(tuple(map(repr, tr.values())))
        d = V.cached(bls=bls, times=(0, 1), nf=6, pols=pols, order=order, df=4e6)
        s = V.cached(bls=bls, times=(0, 1), nf=6, pols=pols, order=order, df=4e6, salt=9) if std else None
        own, other = conversions.Cosmo_Conversions(), conversions.Cosmo_Conversions(H0=70.0)
        beam = None if bm == "none" else c31.array_beam(pols=(-5, -6), cosmo=own)
        kw = dict(spw_ranges=spw, taper=taper, n_dlys=nd, verbose=False)
        with contextlib.redirect_stdout(io.StringIO()):
            ok, u = rec.attempt("helper:call", testing.uvpspec_from_data, d, copy.deepcopy(g), data_std=s, beam=beam, cosmo=other if bm == "cosmo" else None, trace=tr, **kw)
        if not ok:
            continue
        if beam is not None:
            rec.expect(beam.cosmo is own, "helper:beam", "caller's beam has another cosmology", tr)
        b1, b2 = [], []
        for grp in g if isinstance(g[0], list) else [g]:
            # every pair of different baselines of a group, once
            for i, j in itertools.combinations(range(len(grp)), 2):
                b1.append(grp[i])
                b2.append(grp[j])
        if not b1:
            continue
        wb = None if bm == "none" else c31.array_beam(pols=(-5, -6), cosmo=other if bm == "cosmo" else own)
        with contextlib.redirect_stdout(io.StringIO()):
            ds = pspecdata.PSpecData(dsets=[d, d], dsets_std=[s, s] if std else None, wgts=[None, None], labels=["d1", "d2"], beam=wb)
        ok, w = rec.attempt("helper:ref", ds.pspec, b1, b2, (0, 1), (pols[0], pols[0]), store_cov=std, cov_model="dsets" if std else "empirical", trace=tr, **kw)
        if ok:
            df = T.diff(T.table(u), T.table(w), rtol=1e-12)
            rec.expect(not df, "helper:value", df, tr)
            rec.expect(hasattr(u, "cov_array_real") == std and (not hasattr(u, "cosmo") or u.cosmo.H0 == w.cosmo.H0), "helper:attrs", "", tr)
    for bad in (((0, 1), (1, 2)), {"a": (0, 1)}, [[[0, 1]]], [[(0, 1)], (1, 2)]):
        rec.expect(rec.raises(testing.uvpspec_from_data, V.cached(bls=bls, times=(0, 1), nf=6), bad), "helper:refuse", repr(bad), task)
