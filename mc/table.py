"""Abstraction of a UVPSpec into a label-keyed relation, the reference (relational) semantics of the
algebra on it, and comparison / well-formedness helpers.

A table maps  (spw, polpair, blpair, t1, t2) -> cell, where spw is (first channel, Nfreq, Ndly),
and a cell is a dict of small numpy arrays / scalars / strings.  Only public attributes are read.
"""

import numpy as np

from . import build as B


def spw_key(u, i):
    f = u.freq_array[np.asarray(u.spw_freq_array) == i]
    nd = u.data_array[i].shape[1] if hasattr(u, "data_array") else int(np.sum(np.asarray(u.spw_dly_array) == i))
    return (int(round((f[0] - B.F0) / B.DF)), len(f), nd)


def tk(t):
    """time key: JD in units of half integrations (exact on the grid)."""
    return round((t - B.T0) / B.DT * 2, 2) / 2


def blp_key(i):
    i = int(i)
    a, b = divmod(i, 1000000)
    return (((a // 1000) - 100, a % 1000 - 100), ((b // 1000) - 100, b % 1000 - 100))


def pp_key(i):
    i = int(i)
    return (i // 100 - 20, i % 100 - 20)


def row_keys(u):
    return [
        (blp_key(b), tk(t1), tk(t2))
        for b, t1, t2 in zip(u.blpair_array, u.time_1_array, u.time_2_array)
    ]


def cell_fields(u, i, j, k):
    out = {
        "data": u.data_array[i][j, :, k],
        "wgt": u.wgt_array[i][j, :, :, k],
        "int": u.integration_array[i][j, k],
        "nsmp": u.nsample_array[i][j, k],
        "scalar": u.scalar_array[i, k],
        "lab1": str(u.labels[u.label_1_array[i, j, k]]),
        "lab2": str(u.labels[u.label_2_array[i, j, k]]),
        "lst1": u.lst_1_array[j],
        "lst2": u.lst_2_array[j],
        "lsta": u.lst_avg_array[j],
        "ta": u.time_avg_array[j],
        "dly": u.dly_array[np.asarray(u.spw_dly_array) == i],
    }
    if hasattr(u, "window_function_array"):
        out["win"] = u.window_function_array[i][j, ..., k]
    if hasattr(u, "window_function_kperp"):
        out["kperp"] = u.window_function_kperp[i][:, k]
        out["kpara"] = u.window_function_kpara[i][:, k]
    if hasattr(u, "cov_array_real"):
        out["covr"] = u.cov_array_real[i][j, :, :, k]
        out["covi"] = u.cov_array_imag[i][j, :, :, k]
    if hasattr(u, "stats_array"):
        for s in u.stats_array:
            out["stat:" + s] = u.stats_array[s][i][j, :, k]
    if hasattr(u, "OmegaP"):
        out["omega"] = np.array([u.OmegaP[:, k], u.OmegaPP[:, k]])
    return out


class Dup(Exception):
    pass


def table(u):
    t = {}
    rows = row_keys(u)
    for i in range(u.Nspws):
        sk = spw_key(u, i)
        for k, p in enumerate(u.polpair_array):
            for j, r in enumerate(rows):
                key = (sk, pp_key(p)) + r
                if key in t:
                    raise Dup(key)
                t[key] = cell_fields(u, i, j, k)
    return t


def model_table(c):
    """The table that build.uvp(**c) must have (written from the configuration, not from the object)."""
    cc = B.cfg(**c)
    t = {}
    for spw in [tuple(s) for s in cc["spws"]]:
        for p in [tuple(q) for q in cc["pols"]]:
            for r in B.rows_of(cc):
                x = B.cell(cc, spw, p, r)
                x = dict(x)
                x["scalar"] = B.scalar_of(cc, spw, p)
                t1, t2, ta = B.jd(r[1]), B.jd(r[2]), B.jd((r[1] + r[2]) / 2)
                x["lst1"], x["lst2"], x["lsta"], x["ta"] = B.lst_of(t1), B.lst_of(t2), B.lst_of(ta), ta
                x["dly"] = B.delays(spw[2], spw[1])
                if cc["omega"]:
                    x["omega"] = np.array([B.omega_of(p, i) for i in range(7)]).T
                t[(spw, p, r[0], float(r[1]), float(r[2]))] = x
    return t


def same(a, b, rtol=0.0, atol=0.0):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if rtol == 0 and atol == 0:
        return bool(np.array_equal(a, b, equal_nan=True)) if a.dtype.kind in "fc" else bool(np.array_equal(a, b))
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def diff(got, want, fields=None, rtol=0.0, atol=0.0, skip=()):
    """First difference between two tables, or None."""
    if set(got) != set(want):
        extra, miss = sorted(set(got) - set(want), key=repr), sorted(set(want) - set(got), key=repr)
        return ("keys", f"unexpected cells {extra[:3]} (n={len(extra)}), missing cells {miss[:3]} (n={len(miss)})")
    for key in want:
        g, w = got[key], want[key]
        for f in fields or w:
            if f in skip:
                continue
            if f not in g:
                return (f, f"{key}: field {f} missing")
            if not same(g[f], w[f], rtol, atol):
                return (f, f"{key}: field {f}: got {np.asarray(g[f]).ravel()[:6]} want {np.asarray(w[f]).ravel()[:6]}")
        if fields is None:
            for f in g:
                if f not in w and f not in skip:
                    return (f, f"{key}: unexpected field {f}")
    return None


def wellformed(u, blvecs=True):
    """Internal consistency of the metadata with the arrays. Returns a list of (what, detail)."""
    bad = []

    def need(c, what, det=""):
        if not c:
            bad.append((what, str(det)))

    nb = len(u.blpair_array)
    need(u.Nbltpairs == nb, "Nbltpairs", (u.Nbltpairs, nb))
    need(u.Nblpairs == len(set(u.blpair_array.tolist())), "Nblpairs", u.Nblpairs)
    tp = {(a, b) for a, b in zip(u.time_1_array.tolist(), u.time_2_array.tolist())}
    need(u.Ntpairs == len(tp) and u.Ntimes == len(tp), "Ntpairs", (u.Ntpairs, u.Ntimes, len(tp)))
    need(u.Nspws == len(u.spw_array) and list(u.spw_array) == list(range(u.Nspws)), "Nspws", u.spw_array)
    need(u.Npols == len(u.polpair_array), "Npols")
    need(u.Nspwdlys == len(u.spw_dly_array) == len(u.dly_array), "Nspwdlys", (u.Nspwdlys, len(u.spw_dly_array), len(u.dly_array)))
    need(u.Nspwfreqs == len(u.spw_freq_array) == len(u.freq_array), "Nspwfreqs", (u.Nspwfreqs, len(u.spw_freq_array), len(u.freq_array)))
    need(u.Nfreqs == len(set(u.freq_array.tolist())), "Nfreqs", (u.Nfreqs, u.freq_array))
    need(u.Ndlys == len(set(u.dly_array.tolist())), "Ndlys", (u.Ndlys, u.dly_array))
    for nm in ["time_1_array", "time_2_array", "time_avg_array", "lst_1_array", "lst_2_array", "lst_avg_array"]:
        need(getattr(u, nm).shape == (nb,), "len:" + nm, getattr(u, nm).shape)
    bls = set()
    for b in u.blpair_array:
        a = divmod(int(b), 1000000)
        bls |= set(a)
    need(sorted(u.bl_array.tolist()) == sorted(bls), "bl_array", (u.bl_array, bls))
    need(u.Nbls == len(bls), "Nbls", (u.Nbls, bls))
    need(u.bl_vecs.shape == (len(bls), 3), "bl_vecs", u.bl_vecs.shape)
    if blvecs and u.bl_vecs.shape == (len(u.bl_array), 3):
        for b, v in zip(u.bl_array.tolist(), u.bl_vecs):
            w = B.bl_vec((b // 1000 - 100, b % 1000 - 100))
            need(np.allclose(v, w, atol=1e-6), "bl_vecs:value", (b, v, w))
    need(u.scalar_array.shape == (u.Nspws, u.Npols), "scalar_array", u.scalar_array.shape)
    for nm in ["label_1_array", "label_2_array"]:
        need(getattr(u, nm).shape == (u.Nspws, nb, u.Npols), "shape:" + nm, getattr(u, nm).shape)
    if hasattr(u, "OmegaP"):
        need(u.OmegaP.shape[-1] == u.Npols and u.OmegaPP.shape[-1] == u.Npols, "OmegaP", u.OmegaP.shape)
    if hasattr(u, "data_array"):
        need(sorted(u.data_array) == list(range(u.Nspws)), "data_array:keys", sorted(u.data_array))
        for i in range(u.Nspws):
            if i not in u.data_array:
                continue
            nd = int(np.sum(np.asarray(u.spw_dly_array) == i))
            nf = int(np.sum(np.asarray(u.spw_freq_array) == i))
            need(u.data_array[i].shape == (nb, nd, u.Npols), "shape:data", (i, u.data_array[i].shape, (nb, nd, u.Npols)))
            need(u.wgt_array[i].shape == (nb, nf, 2, u.Npols), "shape:wgt", (i, u.wgt_array[i].shape))
            need(u.integration_array[i].shape == (nb, u.Npols), "shape:int", u.integration_array[i].shape)
            need(u.nsample_array[i].shape == (nb, u.Npols), "shape:nsmp", u.nsample_array[i].shape)
            if hasattr(u, "window_function_array"):
                w = u.window_function_array[i].shape
                need(w[0] == nb and w[1] == nd and w[-1] == u.Npols, "shape:win", w)
            if hasattr(u, "cov_array_real"):
                need(u.cov_array_real[i].shape == (nb, nd, nd, u.Npols), "shape:cov", u.cov_array_real[i].shape)
            if hasattr(u, "stats_array"):
                for s in u.stats_array:
                    need(u.stats_array[s][i].shape == (nb, nd, u.Npols), "shape:stats", u.stats_array[s][i].shape)
    return bad


def spec_key(pp):
    return B.pp_int(pp)


def getters(u):
    """Label-keyed table rebuilt through the documented getters only (get_data & friends)."""
    out = {}
    rows = row_keys(u)
    for i in range(u.Nspws):
        sk = spw_key(u, i)
        dl = u.get_dlys(i)
        for p in u.polpair_array:
            for blp in dict.fromkeys(r[0] for r in rows):
                key = (i, blp, int(p))
                mine = [r for r in rows if r[0] == blp]
                x = {
                    "data": u.get_data(key),
                    "wgt": u.get_wgts(key),
                    "int": u.get_integrations(key),
                    "nsmp": u.get_nsamples(key),
                }
                if hasattr(u, "window_function_array"):
                    x["win"] = u.get_window_function(key)
                if hasattr(u, "cov_array_real"):
                    x["covr"] = u.get_cov(key, component="real")
                    x["covi"] = u.get_cov(key, component="imag")
                if hasattr(u, "stats_array"):
                    for s in u.stats_array:
                        x["stat:" + s] = u.get_stats(s, key)
                for f in x:
                    if len(x[f]) != len(mine):
                        raise ValueError(f"getter {f} returned {len(x[f])} rows for {len(mine)} labelled rows")
                for n, r in enumerate(mine):
                    out[(sk, pp_key(p)) + r] = {f: x[f][n] for f in x} | {"dly": dl}
    return out


def visible(cell, folded):
    """What the getters must show of a raw cell."""
    vis = {}
    nd = cell["data"].shape[0]
    n = nd - nd // 2 - 1
    for f in cell:
        if f in ("data", "win", "covr", "covi", "dly") or f.startswith("stat:"):
            v = np.asarray(cell[f])
            if folded:
                v = v[-n:] if f in ("data", "dly") or f.startswith("stat:") else v[-n:, -n:]
            vis[f] = v
        elif f in ("wgt", "int", "nsmp"):
            vis[f] = cell[f]
    return vis


def canon(t):
    """Canonical hashable form (for state counting)."""
    return tuple(
        (k, tuple((f, np.asarray(v).round(6).tobytes() if not isinstance(v, str) else v) for f, v in sorted(c.items())))
        for k, c in sorted(t.items(), key=lambda kv: repr(kv[0]))
    )


DOCUMENTED = """Ntimes Ntpairs Nbltpairs Nblpairs Nspwdlys Nspwfreqs Nspws Ndlys Nfreqs Npols history r_params cov_model
exact_windows data_array cov_array_real cov_array_imag window_function_array window_function_kperp window_function_kpara
wgt_array integration_array nsample_array stats_array spw_array spw_dly_array spw_freq_array freq_array dly_array
polpair_array lst_1_array lst_2_array lst_avg_array time_1_array time_2_array time_avg_array blpair_array scalar_array
Nbls bl_vecs bl_array channel_width telescope_location weighting symmetric_taper norm taper vis_units norm_units labels
label_1_array label_2_array folded OmegaP OmegaPP beam_freqs cosmo""".split()
HEAVY = """data_array cov_array_real cov_array_imag window_function_array window_function_kperp window_function_kpara
wgt_array integration_array nsample_array stats_array""".split()


def attrs(u, skip=()):
    """Every documented attribute, in a form that compares by value."""
    out = {}
    for k in DOCUMENTED:
        if k in skip or not hasattr(u, k):
            continue
        v = getattr(u, k)
        if k == "cosmo":
            v = dict(v.get_params())
        elif k == "r_params":
            v = u.get_r_params()
        out[k] = v
    return out


def same_attr(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_attr(a[k], b[k]) for k in a)
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return list(a) == list(b)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def attr_diff(got, want):
    for k in want:
        if k not in got:
            return (k, "missing")
        if not same_attr(got[k], want[k]):
            return (k, f"got {str(got[k])[:200]} want {str(want[k])[:200]}")
    for k in got:
        if k not in want:
            return (k, "unexpected attribute")
    return None
