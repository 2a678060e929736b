"""C27 - dimensionless spectra, changed cosmologies and noise curves use each bandpower's own k, time and integration."""

import copy
import functools
import itertools
import os
import tempfile

import numpy as np

from mc import algebra as A
from mc import build as B
from mc import table as T

PID = "C27"
LEVEL = "model_checking"
RULE = (
    "All sequences up to the depth of {Delta^2 in place, Delta^2 on a copy, set_cosmology with three cosmologies (flat, open, closed; "
    "dictionary or object; with or without a new beam; with and without overwrite), fold, select window / polarization / baseline-pair, "
    "time average, write and reload}, on objects over {row order, covariance, statistics, h or plain length units or none, three taper / "
    "normalization choices}; after every step each cell is compared with a label-keyed model whose k, distances and scalars come from "
    "an independent integration. Noise curves: every combination of {window, polarization form, Tsys form, baseline-pair form and subset, "
    "Delta^2, component, length units, given scalar} on full, ragged and folded objects, cell by cell. Distances: every cosmology and "
    "redshift of a grid. States are distinct objects; transitions are calls."
)
ASSUMPTIONS = ["Delta^2 conversion is applied once", "the scalar is compared with an independent quadrature to 2e-5", "exact window functions are not re-binned by set_cosmology"]
PKG = "hera_pspec"

C_SI, F21 = 2.99792458e8, 1.420405751e9
COSMO = {
    "flat": dict(H0=70.0),
    "open": dict(Om_L=0.6, Om_b=0.05, Om_c=0.2, H0=65.0),
    "closed": dict(Om_L=0.8, Om_M=0.4, H0=72.0),
}
OPS = ["D", "Dc", "Cf", "Co", "Cc", "Cb", "Cn", "F", "S", "P", "B", "T", "W"]
BLPS = [((1, 2), (1, 2)), ((1, 3), (2, 3)), ((1, 4), (1, 6))]


class Cosmo:
    """Independent distances (Gauss-Legendre instead of adaptive quadrature)."""

    X, W = np.polynomial.legendre.leggauss(40)

    def __init__(self, Om_L=0.68440, Om_b=0.04911, Om_c=0.26442, H0=67.27, Om_M=None, Om_k=None):
        self.m = Om_b + Om_c if Om_M is None else Om_M
        self.L, self.H0 = Om_L, H0
        self.k = 1 - self.L - self.m if Om_k is None else Om_k

    def E(self, z):
        return np.sqrt(self.m * (1 + z) ** 3 + self.k * (1 + z) ** 2 + self.L)

    def chi(self, z):
        """comoving distance in Hubble lengths; substitution a = 1/sqrt(1+z) makes the integrand smooth"""
        z = np.asarray(z, float)
        u1 = 1 / np.sqrt(1 + z)
        half, mid = (1 - u1) / 2, (1 + u1) / 2
        u = mid[..., None] + half[..., None] * self.X
        zz = u**-2 - 1
        return half * np.sum(self.W * 2 * u**-3 / self.E(zz), axis=-1)

    def dh(self, little_h):
        return C_SI / 1e3 / (100.0 if little_h else self.H0)

    def dm(self, z, little_h=True):
        x = self.chi(z)
        if self.k > 1e-12:
            s = np.sqrt(self.k)
            x = np.sinh(s * x) / s
        elif self.k < -1e-12:
            s = np.sqrt(-self.k)
            x = np.sin(s * x) / s
        return x * self.dh(little_h)

    def drdf(self, z, little_h=True):
        return (1 + z) ** 2 / self.E(z) * self.dh(little_h) / F21


_MEMO = {}


def remember(fn):
    @functools.wraps(fn)
    def f(co, spw, x, y, *rest, **kw):
        key = (fn.__name__, id(co), spw, np.asarray(x).tobytes(), y if isinstance(y, str) else np.asarray(y).tobytes(), rest, tuple(kw.items()))
        if key not in _MEMO:
            _MEMO[key] = (fn(co, spw, x, y, *rest, **kw), co)  # keeping co keeps its id unique
        return _MEMO[key][0]

    return f


@remember
def kmag(co, spw, blp, dly, little_h):
    f = np.mean(B.F0 + B.DF * np.arange(spw[0], spw[0] + spw[1]))
    z = F21 / f - 1
    length = np.mean([np.hypot(*(np.array(B.ANT[b[1]]) - np.array(B.ANT[b[0]]))) for b in blp])
    kperp = 2 * np.pi * length * f / C_SI / co.dm(z, little_h)
    kpara = 2 * np.pi * np.asarray(dly) / co.drdf(z, little_h)
    return np.sqrt(kperp**2 + kpara**2)


def coeff(co, spw, blp, dly, little_h):
    return kmag(co, spw, blp, dly, little_h) ** 3 / (2 * np.pi**2)


@remember
def scalar(co, spw, omega, taper, norm, little_h, noise=False, steps=1000):
    from scipy.interpolate import interp1d
    from uvtools import dspec

    n = spw[1]
    f0 = B.F0 + B.DF * spw[0]
    f = np.linspace(f0, f0 + n * B.DF, steps)
    z = F21 / f - 1
    x2y = co.dm(z, little_h) ** 2 * co.drdf(z, little_h)
    bf = np.linspace(B.F0 - 20 * B.DF, B.F0 + 40 * B.DF, len(omega[0])) if len(omega) == 2 else omega[2]
    r = interp1d(bf / 1e6, omega[1] / omega[0] ** 2, kind="quadratic", fill_value="extrapolate")(f / 1e6)
    bw = n * B.DF
    if noise:
        return bw / np.trapezoid(r / x2y, f)
    t = np.ones(steps)
    if taper != "none" and norm != "H^-1":
        w = dspec.gen_window(taper, n) ** 2
        t = interp1d(B.F0 + B.DF * np.arange(spw[0], spw[0] + n), w, kind="nearest", fill_value="extrapolate")(f)
    return bw**2 / np.trapezoid(t * r / x2y, f)


def memo():
    """the beam scalar integrates the distances afresh for every call: remember them per cosmology (the code's own values)"""
    from hera_pspec import conversions

    conversions._astropy = False  # the astropy twin of each cosmology is only a convenience attribute, and slow to build

    if getattr(conversions.Cosmo_Conversions.X2Y, "_memo", False):
        return
    orig, seen = conversions.Cosmo_Conversions.X2Y, {}

    def x2y(self, z, little_h=True):
        k = (self.Om_L, self.Om_M, self.Om_k, self.H0, float(z), little_h)
        if k not in seen:
            seen[k] = orig(self, z, little_h=little_h)
        return seen[k]

    x2y._memo = True
    conversions.Cosmo_Conversions.X2Y = x2y


QUICK = {("bt", 1, 1, "Mpc", 0), ("tb", 0, 0, "h", 1), ("tb", 1, 1, "h", 2), ("bt", 1, 0, "none", 1), ("tb", 0, 1, "Mpc", 2), ("bt", 0, 1, "h", 0), ("tb", 1, 0, "Mpc", 1), ("bt", 0, 0, "none", 2)}


def tasks(tier, seed):
    out = []
    full = tier == "thorough"
    for order, cov, stats, units, tp in itertools.product(("bt", "tb"), (0, 1), (0, 1), ("h", "Mpc", "none"), range(3)):
        if full or (order, cov, stats, units, tp) in QUICK:
            for first in OPS:
                out.append(dict(mode="seq", order=order, cov=cov, stats=stats, units=units, tp=tp, first=first, depth=4 if full and tp == 0 else 3))
    for kind in ("full", "ragged", "folded", "averaged"):
        for order in ("bt", "tb"):
            out.append(dict(mode="noise", kind=kind, order=order))
    out.append(dict(mode="dist", n=40 if full else 12))
    return out


def run(task, rec):
    memo()
    globals()["m_" + task["mode"]](task, rec)


TAPERS = [("none", "I"), ("blackman-harris", "I"), ("hann", "H^-1")]
UNITS = {"h": "h^-3 Mpc^3", "Mpc": "Mpc^3", "none": "Hz str"}


def scale(c, x):
    """Multiply a bandpower profile into data, errors and covariance."""
    c = dict(c)
    for f in list(c):
        if f == "data" or f.startswith("stat:"):
            c[f] = c[f] * x
        elif f in ("covr", "covi"):
            c[f] = c[f] * np.outer(x, x)
    return c


class M:
    """Model: view, cosmology name, units, Delta^2 flag, folded flag."""

    def __init__(self, v, cosmo, units, tp):
        self.v, self.cosmo, self.units, self.tp = v, cosmo, units, tp
        self.delta = self.folded = self.avg = False
        self.beam = None

    def copy(self):
        return copy.copy(self)

    @property
    def h(self):
        return "Mpc" not in self.units or "h^-3" in self.units

    def co(self):
        return model_cosmo(self.cosmo)


@functools.lru_cache(None)
def model_cosmo(name):
    return Cosmo(**COSMO[name])


def beam_array():
    f = B.F0 + B.DF * np.linspace(-25, 45, 9)
    om = {p: (0.04 + 0.002 * np.arange(9.0) + 0.001 * i, 0.015 + 0.0007 * np.arange(9.0)) for i, p in enumerate(("XX", "YY"))}
    return f, om


def step(m, op):
    """(model after op, outcome) with outcome 'ok', 'refused' or 'same'."""
    n = m.copy()
    sk = list(dict.fromkeys(k[0] for k in m.v))
    pp = list(dict.fromkeys(k[1] for k in m.v))
    blps = list(dict.fromkeys(k[2] for k in m.v))
    if op in ("D", "Dc"):
        if m.delta:
            return None, "skip"
        if m.cosmo is None:
            return m, "refused"
        co = m.co()
        n.v = {k: scale(c, coeff(co, k[0], k[2], c["dly"], m.h)) for k, c in m.v.items()}
        n.delta, n.units = True, m.units + " k^3 / (2pi^2)"
    elif op == "Cn":
        if m.cosmo is None:
            return None, "skip"
        return m, "same"
    elif op[0] == "C":
        n.cosmo = {"f": "flat", "o": "open", "c": "closed", "b": "open"}[op[1]]
        if "Mpc" not in n.units:
            n.units = "h^-3 Mpc^3"
        co, v = n.co(), {}
        taper, norm = TAPERS[m.tp]
        for k, c in m.v.items():
            om = c["omega"]
            if op == "Cb":
                f, arrs = beam_array()
                om = np.array(arrs[{-5: "XX", -6: "YY"}[k[1][0]]])
                n.beam = f
            c = dict(c, omega=om)
            s = scalar(co, k[0], list(om) + ([n.beam] if n.beam is not None else []), taper, norm, n.h)
            x = np.full(len(c["data"]), s / c["scalar"])
            if m.delta:
                x = x * coeff(co, k[0], k[2], c["dly"], n.h) / coeff(m.co(), k[0], k[2], c["dly"], m.h)
            v[k] = dict(scale(c, x), scalar=s)
        n.v = v
    elif op == "F":
        if m.folded:
            return None, "skip"
        n.v, n.folded = A.fold(m.v), True
    elif op == "S":
        if len(sk) < 2:
            return None, "skip"
        n.v = A.select(m.v, spws=[sk[1]])
    elif op == "P":
        if len(pp) < 2:
            return None, "skip"
        n.v = A.select(m.v, pols=[pp[1]])
    elif op == "B":
        if len(blps) < 3:
            return None, "skip"
        n.v = A.select(m.v, rows=lambda r: r[0] in blps[1:])
    elif op == "T":
        if m.avg:
            return None, "skip"
        n.v = A.average(m.v, time_avg=True, error_field=[f[5:] for f in next(iter(m.v.values())) if f.startswith("stat:")])
        n.avg = True
    return n, "ok"


def act(u, op, m, rec, tr):
    from hera_pspec import UVPSpec, conversions, pspecbeam

    rec.step()
    if op == "D":
        u.convert_to_deltasq()
        return u
    if op == "Dc":
        t0 = T.table(u)
        n = u.convert_to_deltasq(inplace=False)
        rec.expect(T.diff(T.table(u), t0) is None and u.norm_units == m.units, "copy:changed", "convert_to_deltasq(inplace=False) changed its input", tr)
        return n
    if op == "Cn":
        u.set_cosmology(COSMO["open"], verbose=False)
        return u
    if op == "Cb":
        f, arrs = beam_array()
        b = pspecbeam.PSpecBeamFromArray({p: a[0] for p, a in arrs.items()}, {p: a[1] for p, a in arrs.items()}, f)
        u.set_cosmology(conversions.Cosmo_Conversions(**COSMO["open"]), overwrite=True, new_beam=b, verbose=False)
        return u
    if op[0] == "C":
        p = COSMO[{"f": "flat", "o": "open", "c": "closed"}[op[1]]]
        u.set_cosmology(dict(p) if op != "Co" else conversions.Cosmo_Conversions(**p), overwrite=True, verbose=False)
        return u
    if op == "F":
        u.fold_spectra()
        return u
    if op == "S":
        return u.select(spws=[1], inplace=False)
    if op == "P":
        return u.select(polpairs=[u.polpair_array[1]], inplace=False)
    if op == "B":
        return u.select(blpairs=list(u.get_blpairs())[1:], inplace=False)
    if op == "T":
        return u.average_spectra(time_avg=True, error_field=list(getattr(u, "stats_array", {})) or None, inplace=False)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "x.h5")
        u.write_hdf5(f, overwrite=True)
        r = UVPSpec()
        r.read_hdf5(f)
    return r


def m_seq(task, rec):
    taper, norm = TAPERS[task["tp"]]
    u = B.uvp(blps=BLPS, tps=[(0, 1), (2, 2)], spws=[(0, 6, 6), (20, 5, 5)], order=task["order"], cov=bool(task["cov"]), stats=["P_N", "e"] if task["stats"] else [],
              omega=True, win=bool(task["tp"] % 2 == 0), cosmo=task["units"] != "none", extra=dict(taper=taper, norm=norm, norm_units=UNITS[task["units"]]))
    for st in getattr(u, "stats_array", {}).values():
        for i in st:
            st[i] = st[i].real + 0j
    m = M(A.view(u), "flat" if task["units"] != "none" else None, UNITS[task["units"]], task["tp"])
    ops = [task["first"]]
    for op in ops:
        descend(u, m, op, [], task, rec)


def descend(u, m, op, hist, task, rec):
    n, what = step(m, op)
    if what == "skip":
        return
    hist = hist + [op]
    tr = dict(task, seq=hist)
    w = copy.deepcopy(u)
    if what == "refused":
        rec.step()
        rec.expect(rec.raises(act, w, op, m, rec, tr), "refuse", f"{op} was accepted without a cosmology", tr)
        if op == "D":
            d = A.close(A.view(w), m.v, rtol=0)
            rec.expect(d is None and w.norm_units == m.units, "refuse:changed", d, tr)
        return
    ok, w = rec.attempt(f"op:{op}", act, w, op, m, rec, tr, trace=tr)
    rec.trace()
    if not ok:
        return
    ok, v = rec.attempt(f"view:{op}", A.view, w, trace=tr)
    if not ok:
        return
    rec.state((op, sorted((repr(k), np.abs(np.asarray(c["data"])).round(9).tobytes()) for k, c in v.items()), w.norm_units))
    d = A.close(v, n.v, rtol=2e-5)
    rec.expect(d is None, f"{op}:{d and d[0]}", d and d[1], tr)
    rec.expect(w.norm_units == n.units, f"{op}:norm_units", f"{w.norm_units!r} want {n.units!r}", tr)
    rec.expect(w.folded == n.folded, f"{op}:folded", "", tr)
    if n.cosmo is not None:
        p = w.cosmo.get_params()
        co = n.co()
        rec.expect(abs(p["Om_M"] - co.m) < 1e-9 and abs(p["Om_L"] - co.L) < 1e-9 and abs(p["Om_k"] - co.k) < 1e-9 and abs(p["H0"] - co.H0) < 1e-9, f"{op}:cosmo", p, tr)
        rec.expect(abs(p["Om_b"] + p["Om_c"] - p["Om_M"]) < 2e-5, f"{op}:cosmo-matter", p, tr)
        for i in range(w.Nspws):
            sk = T.spw_key(w, i)
            for hh in (True, False) if op in ("Cf", "Co", "Cc", "Cb", "F", "S", "B", "T", "W") else (True,):
                ks = w.get_kparas(i, little_h=hh)
                kp = w.get_kperps(i, little_h=hh)
                rows = T.row_keys(w)
                good = len(kp) == len(rows)
                good = good and all(np.allclose(np.hypot(kp[j], ks), kmag(co, sk, r[0], w.get_dlys(i), hh), rtol=1e-6) for j, r in enumerate(rows))
                rec.expect(good, f"{op}:k", f"spw {i} h={hh}: kperp {kp[:3]} kpara {ks[:3]}", tr)
    rec.outcome((task["units"], task["tp"], tuple(hist)))
    if op in ("Dc", "Cn") and len(hist) > 1:
        return  # the same state as after D / as before, which is explored on its own
    if d is None and len(hist) < task["depth"]:
        n.v = v  # continue from the observed values (already compared)
        for op2 in OPS:
            descend(w, n, op2, hist, task, rec)
    if len(hist) == 3:
        rec.sample(f"{tr['seq']} on {task['units']} units -> {w.norm_units}, {len(v)} cells")


# ------------------------------------------------------------------ noise curves
def noise_object(kind, order):
    kw = dict(spws=[(0, 6, 6), (20, 5, 5)], omega=True, order=order)
    if kind == "ragged":
        rows = [(BLPS[0], 0, 1), (BLPS[1], 0, 0), (BLPS[0], 2, 2), (BLPS[2], 0, 1), (BLPS[2], 4, 5), (BLPS[2], 2, 2)]
        return B.uvp(rows=rows if order == "bt" else rows[::-1], **kw)
    u = B.uvp(blps=BLPS, tps=[(0, 1), (2, 2)], folded=kind == "folded", **kw)
    if kind == "averaged":
        u.average_spectra(time_avg=True, blpair_groups=[[B.ants_to_blp(b) for b in BLPS[:2]], [B.ants_to_blp(BLPS[2])]])
    return u


def m_noise(task, rec):
    from hera_pspec import noise

    u = noise_object(task["kind"], task["order"])
    t0 = T.table(u)
    rows = T.row_keys(u)
    v = A.view(u)
    co = Cosmo(**COSMO["flat"])
    blps = list(dict.fromkeys(r[0] for r in rows))
    n_of = {b: sum(r[0] == b for r in rows) for b in blps}
    tsys = {b: np.array([250.0 + 40 * i + 7 * j for j in range(n_of[b])]) for i, b in enumerate(blps)}
    forms = ["float", "int", "dictfloat", "dict", "npfloat"] + (["array"] if len(set(n_of.values())) == 1 else [])
    choices = [None, "ints", "tuples", "rev", "one"]
    for spw, polform, form, tf, ch in itertools.product((0, 1), ("int", "tuple", "str"), ("Pk", "DelSq"), forms, choices):
        for comp, hh, given in itertools.product(("real", "imag", "abs"), (True, False), (False, True)):
            pol = (-5, -5) if polform == "str" else (-6, -6)
            arg = {"int": B.pp_int(pol), "tuple": ("yy", "yy") if spw else (-6, -6), "str": "xx"}[polform]
            if tf == "float":
                T_, val = 300.5, {b: np.full(n_of[b], 300.5) for b in blps}
            elif tf == "npfloat":
                T_, val = np.float64(280.5), {b: np.full(n_of[b], 280.5) for b in blps}
            elif tf == "int":
                T_, val = 400, {b: np.full(n_of[b], 400.0) for b in blps}
            elif tf == "array":
                T_ = np.array([200.0, 333.0][: n_of[blps[0]]])
                val = {b: T_ for b in blps}
            elif tf == "dictfloat":
                T_ = {B.ants_to_blp(b): 100.0 + i for i, b in enumerate(blps)}
                val = {b: np.full(n_of[b], 100.0 + i) for i, b in enumerate(blps)}
            else:
                T_, val = {B.ants_to_blp(b): tsys[b].copy() for b in blps}, tsys
            sel = {None: blps, "ints": blps, "tuples": blps, "rev": blps[::-1], "one": blps[-1:]}[ch]
            arg_b = None if ch is None else [b if ch in ("tuples", "one") else B.ants_to_blp(b) for b in sel]
            tr = dict(task, spw=spw, pol=arg, form=form, Tsys=tf, blpairs=ch, component=comp, little_h=hh, scalar=given)
            call = dict(blpairs=arg_b, little_h=hh, form=form, component=comp, num_steps=50)
            if given:
                call["scalar"] = 12345.0
            ok, got = rec.attempt("noise", u.generate_noise_spectra, spw, arg, T_, trace=tr, **call)
            rec.step()
            if not ok:
                continue
            rec.expect(sorted(got) == sorted(B.ants_to_blp(b) for b in sel), "noise:keys", list(got), tr)
            sk = T.spw_key(u, spw)
            om = np.array([B.omega_of(pol, i) for i in range(7)]).T
            s = 12345.0 if given else scalar(co, sk, list(om), "none", "I", hh, noise=True, steps=50)
            good = True
            for b in sel:
                mine = [(k, c) for k, c in v.items() if k[0] == sk and k[1] == pol and k[2] == b]
                g = np.asarray(got.get(B.ants_to_blp(b)))
                want = np.array([
                    s * (val[b][j] * 1e3) ** 2 / c["int"] / np.sqrt(c["nsmp"]) * (coeff(co, sk, b, c["dly"], hh) if form == "DelSq" else np.ones(len(c["dly"])))
                    / (1 if comp == "abs" else np.sqrt(2)) for j, (k, c) in enumerate(mine)])
                if g.shape != want.shape or not np.allclose(g, want, rtol=2e-5):
                    good = False
                    rec.expect(False, f"noise:{form}", f"{b}: got {g.shape} {g.ravel()[:4]} want {want.shape} {want.ravel()[:4]}", tr)
            rec.expect(good, "noise:cells", "", tr)
            rec.outcome(tr)
    rec.trace()
    rec.expect(T.diff(T.table(u), t0) is None, "noise:changed", "generate_noise_spectra changed the object", task)
    rec.state(("noise", task))
    # the noise curve follows what the object holds: averaging two equal samples lowers it by sqrt(2)
    for n in (1, 2, 7):
        for comp, f in (("abs", 1.0), ("real", 2**-0.5)):
            p = noise.calc_P_N(10.0, 2.0, 5.0, Ncoherent=n, Nincoherent=n, component=comp)
            rec.expect(abs(p - 10.0 * 4e6 / 5.0 / n / np.sqrt(n) * f) < 1e-6, "calc_P_N", p, task)
            rec.step()


# ------------------------------------------------------------------ distances
def m_dist(task, rec):
    from hera_pspec import conversions

    grid = [dict(), dict(H0=100.0)] + list(COSMO.values())
    grid += [dict(Om_L=L, Om_M=M_, H0=H) for L in (0.0, 0.5, 0.7, 1.0) for M_ in (0.2, 0.3, 0.5, 1.0) for H in (50.0, 100.0)]
    grid += [dict(Om_L=0.7, Om_M=0.3, Om_k=0.0), dict(Om_L=0.6, Om_M=0.3, Om_k=0.1), dict(Om_M=0.31353)]
    # nearly flat models
    grid += [dict(Om_L=0.7 + x, Om_M=0.3) for x in (1e-4, -1e-4, 3e-3, -3e-3)]
    base = dict(Om_L=0.6, Om_b=0.05, Om_c=0.2, H0=65.0, Om_M=0.25, Om_k=0.15)
    ref = conversions.Cosmo_Conversions(**base)
    for one in ({}, dict(Om_L=0.61), dict(Om_b=0.06, Om_c=0.19), dict(H0=66.0), dict(Om_M=0.26, Om_b=0.06), dict(Om_k=0.2)):
        same = conversions.Cosmo_Conversions(**dict(base, **one)) == ref
        rec.expect(same == (not one), "dist:equal", "two cosmologies with other parameters compare equal, or the same ones do not", one)
    for p in grid:
        c, w = conversions.Cosmo_Conversions(**p), Cosmo(**p)
        got = c.get_params()
        rec.state(sorted(got.items()))
        rec.expect(abs(got["Om_b"] + got["Om_c"] - got["Om_M"]) < 2e-5, "dist:matter", got, p)
        back = conversions.Cosmo_Conversions(**got)
        rec.expect(back.get_params() == got and back == c, "dist:roundtrip", "a cosmology rebuilt from its parameters differs", p)
        for z in np.linspace(0.1, 30.0, task["n"]):
            f = c.z2f(z)
            tr = dict(p, z=float(z))
            rec.step()
            rec.expect(abs(f - F21 / (1 + z)) < 1e-3 and abs(c.f2z(f) - z) < 1e-9 and abs(c.f2z(c.z2f(z, ghz=True), ghz=True) - z) < 1e-9, "dist:z", (f, c.f2z(f)), tr)
            for hh in (True, False):
                vals = {
                    "DC": (c.DC(z, little_h=hh), w.chi(z) * w.dh(hh)),
                    "DM": (c.DM(z, little_h=hh), w.dm(z, hh)),
                    "DA": (c.DA(z, little_h=hh), w.dm(z, hh) / (1 + z)),
                    "dRperp": (c.dRperp_dtheta(z, little_h=hh), w.dm(z, hh)),
                    "dRpara": (c.dRpara_df(z, little_h=hh), w.drdf(z, hh)),
                    "dRpara_ghz": (c.dRpara_df(z, little_h=hh, ghz=True), w.drdf(z, hh) * 1e9),
                    "X2Y": (c.X2Y(z, little_h=hh), w.dm(z, hh) ** 2 * w.drdf(z, hh)),
                    "bl_to_kperp": (c.bl_to_kperp(z, little_h=hh), 2 * np.pi * F21 / (1 + z) / C_SI / w.dm(z, hh)),
                    "tau_to_kpara": (c.tau_to_kpara(z, little_h=hh), 2 * np.pi / w.drdf(z, hh)),
                }
                for nm, (g, x) in vals.items():
                    rec.expect(abs(g - x) <= 1e-6 * abs(x) + 1e-300, "dist:" + nm, (g, x), dict(tr, h=hh))
            rec.outcome((repr(p), float(z)))
    rec.trace(len(grid))
