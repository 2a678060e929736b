"""Synthetic objects for bounded exploration.

Every cell of a synthetic UVPSpec carries values that are a deterministic function of its LABELS
(baseline-pair, the two times, spectral-window start frequency, polarisation-pair, delay), never of its
position.  Two objects built for overlapping label sets therefore agree on the shared cells, whatever
their row order, and a value that lands in the wrong cell is always visible.
"""

import hashlib

import numpy as np

from hera_pspec import conversions, uvpspec

DF = 1.0e5
F0 = 1.0e8
T0 = 2458042.125
DT = 1.25e-4  # days: a realistic 10.8 s cadence
TEL = np.array([5109325.85521063, 2005235.09142983, -3239928.42475397])
LABELS = ["blue", "red", "green"]

# antenna positions on a line/triangle (ENU metres, then treated as ECEF offsets: only differences matter)
ANT = {1: (0.0, 0.0), 2: (14.0, 0.0), 3: (28.0, 0.0), 4: (7.0, 12.0), 5: (21.0, 12.0), 6: (42.0, 0.0)}


def ants_to_bl(bl):
    return (bl[0] + 100) * 1000 + bl[1] + 100


def ants_to_blp(blp):
    return ants_to_bl(blp[0]) * 1000000 + ants_to_bl(blp[1])


def pp_int(pp):
    return (pp[0] + 20) * 100 + pp[1] + 20


def jd(k):
    """JD of time index k (floats allowed: half-steps)."""
    return T0 + DT * k


def lst_of(t):
    return ((t - 2458042.0) * 1.002737909350795 * 2 * np.pi + 0.3) % (2 * np.pi)


WRAP = float(np.round((1 - lst_of(T0) / (2 * np.pi)) / 1.002737909350795 / DT))  # time index at which the synthetic LST crosses 2 pi
assert lst_of(T0 + DT * (WRAP - 1)) > 6 and lst_of(T0 + DT * (WRAP + 1)) < 0.1


def h(*key, bits=16):
    """Deterministic integer in [0, 2**bits) from the key."""
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big") % (1 << bits)


_CACHE = {}


def vec(n, *key):
    """Length-n float vector of small dyadic rationals, deterministic in the key."""
    k = (n,) + key
    if k not in _CACHE:
        seed = int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big") % (1 << 62)
        r = np.random.RandomState([seed & 0xFFFFFFFF, seed >> 32])
        v = r.randint(-(1 << 12), 1 << 12, size=n) / 8.0 + 0.0625
        v.setflags(write=False)
        _CACHE[k] = v
    return _CACHE[k]


def bl_vec(bl):
    """ECEF baseline vector for an antenna pair."""
    from pyuvdata import utils as uvutils

    if ("blvec", bl) not in _CACHE:
        lat, lon, alt = uvutils.LatLonAlt_from_XYZ(TEL[None])
        enu = np.array([[ANT[bl[1]][0] - ANT[bl[0]][0], ANT[bl[1]][1] - ANT[bl[0]][1], 0.0]])
        ecef = uvutils.ECEF_from_ENU(enu, latitude=lat, longitude=lon, altitude=alt)
        _CACHE[("blvec", bl)] = (ecef - TEL)[0]
    return _CACHE[("blvec", bl)]


DEFAULT = {
    "rows": None,  # list of (blp, k1, k2); default product of blps x tps in `order`
    "blps": [((1, 2), (1, 2)), ((1, 2), (2, 3))],
    "tps": [(0, 0), (1, 1)],
    "order": "bt",  # 'bt' blpair outer, 'tb' time outer
    "spws": [(0, 6, 6), (10, 5, 5)],  # (start channel, Nfreqs, Ndlys)
    "pols": [(-5, -5), (-6, -6)],
    "cov": False,
    "win": True,
    "stats": [],
    "labels": "mixed",  # 'const' or 'mixed'
    "omega": False,
    "folded": False,
    "salt": 0,  # varies the values, not the labels
    "history": "hist",
    "r_params": "",
    "weights": "mixed",  # integration/nsample pattern: 'mixed' or 'unit'
    "cosmo": True,
    "exact": False,  # cylindrical window functions with their own k grids
    "extra": {},
}


def cfg(**kw):
    c = dict(DEFAULT)
    c.update(kw)
    return c


def rows_of(c):
    if c["rows"] is not None:
        return [(tuple(map(tuple, r[0])), r[1], r[2]) for r in c["rows"]]
    blps = [tuple(map(tuple, b)) for b in c["blps"]]
    if c["order"] == "bt":
        return [(b, t[0], t[1]) for b in blps for t in c["tps"]]
    return [(b, t[0], t[1]) for t in c["tps"] for b in blps]


def cell(c, spw, pp, row):
    """The content of one cell: label-determined."""
    start, nf, nd = spw
    blp, k1, k2 = row
    key = (c["salt"], start, nf, nd, pp, blp, float(k1), float(k2))
    out = {}
    out["data"] = vec(nd, "re", *key) + 1j * vec(nd, "im", *key)
    w = (np.abs(vec(nf * 2, "w", *key)).reshape(nf, 2) % 4.0) / 4.0
    out["wgt"] = w + 0.25
    if c["weights"] == "unit":
        out["int"], out["nsmp"] = 1.0, 1.0
    else:
        out["int"] = 4.0 * (1 + h("int", *key, bits=2))
        out["nsmp"] = 1.0 * (1 + h("nsmp", *key, bits=2))
    if c["exact"]:
        out["win"] = vec(nd * 12, "win", *key).reshape(nd, 3, 4)
        out["kperp"] = vec(3, "kperp", start, pp)
        out["kpara"] = vec(4, "kpara", start, pp)
    elif c["win"]:
        out["win"] = vec(nd * nd, "win", *key).reshape(nd, nd)
    if c["cov"]:
        out["covr"] = np.abs(vec(nd * nd, "covr", *key).reshape(nd, nd))
        out["covi"] = vec(nd * nd, "covi", *key).reshape(nd, nd)
    for s in c["stats"]:
        out["stat:" + s] = (np.abs(vec(nd, "st", s, *key)) + 1.0) + 1j * (np.abs(vec(nd, "sti", s, *key)) + 1.0)
    if c["labels"] == "const":
        out["lab1"], out["lab2"] = LABELS[0], LABELS[1]
    else:
        out["lab1"] = LABELS[h("l1", *key, bits=1)]
        out["lab2"] = LABELS[1 + h("l2", *key, bits=1)]
    return out


def scalar_of(c, spw, pp):
    return 1.0 + h("scalar", spw, pp, bits=6) / 8.0


def omega_of(pp, i):
    return 0.05 + 0.001 * i + 0.0003 * pp[0], 0.02 + 0.001 * i + 0.0001 * pp[1]


def delays(n, nf):
    """Delay axis used by the package for n delay bins over nf channels of width DF."""
    return np.fft.fftshift(np.fft.fftfreq(n, d=DF * nf / n)) if n != nf else np.fft.fftshift(np.fft.fftfreq(n, d=DF))


def _cosmo():
    if "cosmo" not in _CACHE:
        _CACHE["cosmo"] = conversions.Cosmo_Conversions(H0=70.0)
    return _CACHE["cosmo"]


def uvp(**kw):
    c = cfg(**kw)
    rows = rows_of(c)
    spws = [tuple(s) for s in c["spws"]]
    pols = [tuple(p) for p in c["pols"]]
    u = uvpspec.UVPSpec()
    nb, ns, npol = len(rows), len(spws), len(pols)
    u.blpair_array = np.array([ants_to_blp(r[0]) for r in rows], dtype=np.int64)
    u.time_1_array = np.array([jd(r[1]) for r in rows])
    u.time_2_array = np.array([jd(r[2]) for r in rows])
    u.time_avg_array = np.array([jd((r[1] + r[2]) / 2) for r in rows])
    u.lst_1_array = lst_of(u.time_1_array)
    u.lst_2_array = lst_of(u.time_2_array)
    u.lst_avg_array = lst_of(u.time_avg_array)
    bls = sorted({b for r in rows for b in r[0]}, key=ants_to_bl)
    u.bl_array = np.array([ants_to_bl(b) for b in bls], dtype=np.int32)
    u.bl_vecs = np.array([bl_vec(b) for b in bls])
    u.Nbls = len(bls)
    u.Nblpairs = len(set(u.blpair_array.tolist()))
    u.Nbltpairs = nb
    u.Ntpairs = len({(r[1], r[2]) for r in rows})
    u.Ntimes = u.Ntpairs
    u.Nspws, u.Npols = ns, npol
    u.spw_array = np.arange(ns, dtype=np.uint16)
    u.polpair_array = np.array([pp_int(p) for p in pols], dtype=np.int32)
    f, d, sf, sd = [], [], [], []
    for i, (start, nf, nd) in enumerate(spws):
        f.append(F0 + DF * np.arange(start, start + nf))
        d.append(delays(nd, nf))
        sf += [i] * nf
        sd += [i] * nd
    u.freq_array = np.concatenate(f)
    u.dly_array = np.concatenate(d)
    u.spw_freq_array = np.array(sf, dtype=np.uint16)
    u.spw_dly_array = np.array(sd, dtype=np.uint16)
    u.Nspwfreqs, u.Nspwdlys = len(sf), len(sd)
    u.Nfreqs = len(np.unique(u.freq_array))
    u.Ndlys = len(np.unique(u.dly_array))
    u.channel_width = np.atleast_1d(np.array(DF))
    u.vis_units, u.norm_units = "mK", "h^-3 Mpc^3"
    u.weighting, u.norm, u.taper = "identity", "I", "none"
    u.history = c["history"]
    u.r_params = c["r_params"]
    u.symmetric_taper = True
    u.git_hash = "x"
    u.cov_model = "empirical"
    u.exact_windows = bool(c["exact"])
    u.folded = False
    u.telescope_location = TEL.copy()
    if c["cosmo"]:
        u.cosmo = _cosmo()
    u.labels = np.array(LABELS)
    u.scalar_array = np.array([[scalar_of(c, s, p) for p in pols] for s in spws], dtype=float)
    u.label_1_array = np.zeros((ns, nb, npol), np.int32)
    u.label_2_array = np.zeros((ns, nb, npol), np.int32)
    u.data_array, u.wgt_array, u.integration_array, u.nsample_array = {}, {}, {}, {}
    if c["win"] or c["exact"]:
        u.window_function_array = {}
    if c["exact"]:
        u.window_function_kperp, u.window_function_kpara = {}, {}
    if c["cov"]:
        u.cov_array_real, u.cov_array_imag = {}, {}
    if c["stats"]:
        u.stats_array = {s: {} for s in c["stats"]}
    if c["omega"]:
        u.beam_freqs = np.linspace(F0 - 20 * DF, F0 + 40 * DF, 7)
        u.OmegaP = np.array([[omega_of(p, i)[0] for p in pols] for i in range(7)])
        u.OmegaPP = np.array([[omega_of(p, i)[1] for p in pols] for i in range(7)])
    for i, (start, nf, nd) in enumerate(spws):
        u.data_array[i] = np.zeros((nb, nd, npol), complex)
        u.wgt_array[i] = np.zeros((nb, nf, 2, npol))
        u.integration_array[i] = np.zeros((nb, npol))
        u.nsample_array[i] = np.zeros((nb, npol))
        if c["exact"]:
            u.window_function_array[i] = np.zeros((nb, nd, 3, 4, npol))
            u.window_function_kperp[i] = np.stack([vec(3, "kperp", start, p) for p in pols], axis=-1)
            u.window_function_kpara[i] = np.stack([vec(4, "kpara", start, p) for p in pols], axis=-1)
        elif c["win"]:
            u.window_function_array[i] = np.zeros((nb, nd, nd, npol))
        if c["cov"]:
            u.cov_array_real[i] = np.zeros((nb, nd, nd, npol))
            u.cov_array_imag[i] = np.zeros((nb, nd, nd, npol))
        for s in c["stats"]:
            u.stats_array[s][i] = np.zeros((nb, nd, npol), complex)
        for j, r in enumerate(rows):
            for k, p in enumerate(pols):
                x = cell(c, spws[i], p, r)
                u.data_array[i][j, :, k] = x["data"]
                u.wgt_array[i][j, :, :, k] = x["wgt"]
                u.integration_array[i][j, k] = x["int"]
                u.nsample_array[i][j, k] = x["nsmp"]
                if c["win"] or c["exact"]:
                    u.window_function_array[i][j, ..., k] = x["win"]
                if c["cov"]:
                    u.cov_array_real[i][j, :, :, k] = x["covr"]
                    u.cov_array_imag[i][j, :, :, k] = x["covi"]
                for s in c["stats"]:
                    u.stats_array[s][i][j, :, k] = x["stat:" + s]
                u.label_1_array[i, j, k] = LABELS.index(x["lab1"])
                u.label_2_array[i, j, k] = LABELS.index(x["lab2"])
    for k, v in c["extra"].items():
        setattr(u, k, v)
    u.check()
    if c["folded"]:
        u.fold_spectra()
    return u
