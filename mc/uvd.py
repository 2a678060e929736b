"""Synthetic UVData objects: small, deterministic, with every visibility a function of its labels.

vis(bl, pol, time, channel) depends only on (salt, antennas, pol, time index, channel index), so any two
objects built over overlapping label sets agree on the shared cells.
"""

import copy
import warnings

import numpy as np

from . import build as B

# astropy re-parses its bundled Earth-orientation table for every LST computation: parse it once
from astropy.utils import iers  # noqa: E402

iers.conf.auto_download = False
iers.earth_orientation_table.set(iers.IERS_B.open())

_TEL = {}
ANT = {0: (0.0, 0.0), 1: (14.6, 0.0), 2: (29.2, 0.0), 3: (43.8, 0.0), 4: (7.3, 12.65), 5: (21.9, 12.65)}
POL = {-5: "xx", -6: "yy", -7: "xy", -8: "yx", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
LOC = (-30.72152, 21.42831, 1051.69)


def telescope(ants=tuple(ANT), pos=None):
    """pos: tuple of (antenna, east, north) replacing the default layout."""
    table = ANT if pos is None else {a: (x, y) for a, x, y in pos}
    ants = tuple(sorted(ants))
    key = (ants, pos)
    if key not in _TEL:
        from astropy.coordinates import EarthLocation
        import astropy.units as un
        from pyuvdata import Telescope, utils as uvutils

        loc = EarthLocation.from_geodetic(LOC[1] * un.deg, LOC[0] * un.deg, LOC[2] * un.m)
        enu = np.array([[table[a][0], table[a][1], 0.0] for a in ants])
        ecef = uvutils.ECEF_from_ENU(enu, center_loc=loc) - np.array([loc.x.value, loc.y.value, loc.z.value])
        _TEL[key] = Telescope.new(
            name="synthetic", location=loc, antenna_numbers=list(ants), antenna_names=[f"A{a}" for a in ants],
            antenna_positions=ecef, instrument="test", feeds=["x", "y"], x_orientation="east", mount_type="fixed",
            antenna_diameters=[14.0] * len(ants), update_from_known=False,
        )
    return _TEL[key]


def vis(bl, pol, t, nf, salt=0, f0=0):
    """Complex visibility vector of nf channels (integer-valued parts, exact in float64)."""
    if bl[0] == bl[1]:
        re = np.array([B.h("auto", salt, bl[0], pol, t, f0 + k) % 40 for k in range(nf)]) + 80.0
        return re + 0j
    flip = bl[0] > bl[1]
    a, b = (bl[1], bl[0]) if flip else bl
    re = np.array([B.h("re", salt, a, b, pol, t, f0 + k) % 33 - 16 for k in range(nf)], float)
    im = np.array([B.h("im", salt, a, b, pol, t, f0 + k) % 33 - 16 for k in range(nf)], float)
    x = re + 1j * im
    x[np.abs(x) < 1] = 3 - 2j
    return x.conj() if flip else x


def uvdata(bls=((0, 1), (1, 2), (2, 3)), times=(0, 1), nf=6, pols=(-5,), salt=0, f0=0, chan0=1.0e8, df=1.0e5, ants=None,
           flags=None, nsamp=None, integ=10.7, units="Jy", autos=False, order="time", history="synthetic", dt=B.DT, lst_shift=0.0, pos=None):
    """Build a UVData.  flags: callable(bl, pol, t, nf)->bool vector; nsamp likewise; integ: number or callable(bl,t)."""
    from pyuvdata import UVData

    bls = [tuple(b) for b in bls]
    if autos:
        bls = bls + [(a, a) for a in sorted({x for b in bls for x in b}) if (a, a) not in bls]
    tel = telescope(ants if ants is not None else tuple(ANT) if pos is None else tuple(p[0] for p in pos), pos)
    jds = np.array([B.T0 + dt * t for t in times])
    fr = chan0 + df * (f0 + np.arange(nf))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        uvd = UVData.new(
            freq_array=fr, polarization_array=np.array(pols), times=jds, telescope=tel, antpairs=bls, do_blt_outer=True,
            integration_time=10.7, channel_width=abs(df), vis_units=units, empty=True, time_axis_faster_than_bls=(order == "bl"),
            update_telescope_from_known=False, history=history, check_kw={"run_check_acceptability": False},
        )
    tix = {round(j / dt * 16): t for j, t in zip(jds - B.T0, times)}
    if not callable(integ):
        v = integ
        integ = lambda bl, t: v  # noqa: E731
    for row in range(uvd.Nblts):
        t = tix[round((uvd.time_array[row] - B.T0) / dt * 16)]
        bl = (int(uvd.ant_1_array[row]), int(uvd.ant_2_array[row]))
        uvd.integration_time[row] = integ(bl, t)
        for p, pol in enumerate(pols):
            uvd.data_array[row, :, p] = vis(bl, pol, t, nf, salt, f0)
            uvd.flag_array[row, :, p] = False if flags is None else flags(bl, pol, t, nf)
            uvd.nsample_array[row, :, p] = 1.0 if nsamp is None else nsamp(bl, pol, t, nf)
    if lst_shift:
        uvd.lst_array = uvd.lst_array + lst_shift
    return uvd


def light(uvd):
    """Copy sharing everything but the per-baseline-time arrays and units."""
    out = type(uvd).__new__(type(uvd))
    out.__dict__ = dict(uvd.__dict__)
    out._UVData__antpair2ind_cache, out._UVData__key2ind_cache = {}, {}
    deep = ("data_array", "flag_array", "nsample_array", "integration_time", "time_array", "lst_array", "uvw_array", "ant_1_array",
            "ant_2_array", "baseline_array", "phase_center_id_array", "extra_keywords", "phase_center_catalog")
    for k, v in uvd.__dict__.items():
        if hasattr(v, "form") and hasattr(v, "value"):
            v = copy.copy(v)
            if k[1:] in deep:
                v.value = copy.deepcopy(v.value)
            out.__dict__[k] = v
    return out


_CACHE = {}


def cached(**cfg):
    """Copy of a memoised object (configuration must be hashable)."""
    k = repr(sorted(cfg.items()))
    if k not in _CACHE:
        _CACHE[k] = uvdata(**cfg)
    return light(_CACHE[k])


def warm():
    """Compile pyuvdata's kernels and memoise the telescope before worker processes are forked."""
    u = uvdata(bls=((0, 1),), nf=2)
    u.get_data((0, 1, "xx"))
    u.get_flags((1, 0, "xx"))
    u.get_nsamples((0, 1, "xx"))
    u.get_ants()
