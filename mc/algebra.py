"""Reference semantics of selecting, folding and averaging on a label-keyed VIEW of a UVPSpec.

A view maps (spw, polpair, blpair, t1, t2) -> cell exactly like mc.table, but its cells hold what the
documented getters return (a folded object shows its positive delays only).  Rows keep their stored order.
"""

import numpy as np

from . import build as B
from . import table as T


def view(u):
    out = {}
    rows = T.row_keys(u)
    if len(set(rows)) != len(rows):
        raise T.Dup([r for r in rows if rows.count(r) > 1][:2])
    for i in range(u.Nspws):
        f = u.freq_array[np.asarray(u.spw_freq_array) == i]
        sk = (int(round((f[0] - B.F0) / B.DF)), len(f), int(np.sum(np.asarray(u.spw_dly_array) == i)))
        dl = u.get_dlys(i)
        for k, p in enumerate(u.polpair_array):
            cells = {}
            for blp in dict.fromkeys(r[0] for r in rows):
                key = (i, blp, int(p))
                x = {"data": u.get_data(key), "wgt": u.get_wgts(key), "int": u.get_integrations(key), "nsmp": u.get_nsamples(key)}
                if hasattr(u, "window_function_array"):
                    x["win"] = u.get_window_function(key)
                if hasattr(u, "cov_array_real"):
                    x["covr"] = u.get_cov(key, component="real")
                    x["covi"] = u.get_cov(key, component="imag")
                for s in getattr(u, "stats_array", {}):
                    x["stat:" + s] = u.get_stats(s, key)
                mine = [j for j, r in enumerate(rows) if r[0] == blp]
                for f in x:
                    if len(x[f]) != len(mine):
                        raise ValueError(f"{f}: {len(x[f])} rows for {len(mine)} labels")
                for n, j in enumerate(mine):
                    c = {f: x[f][n] for f in x}
                    c["scalar"] = u.scalar_array[i, k]
                    c["lab1"] = str(u.labels[u.label_1_array[i, j, k]])
                    c["lab2"] = str(u.labels[u.label_2_array[i, j, k]])
                    c["lst1"], c["lst2"], c["lsta"] = u.lst_1_array[j], u.lst_2_array[j], u.lst_avg_array[j]
                    c["t1"], c["t2"], c["ta"] = u.time_1_array[j], u.time_2_array[j], u.time_avg_array[j]
                    c["dly"] = dl
                    if hasattr(u, "OmegaP"):
                        c["omega"] = np.array([u.OmegaP[:, k], u.OmegaPP[:, k]])
                    if hasattr(u, "window_function_kperp"):
                        c["kperp"], c["kpara"] = u.window_function_kperp[i][:, k], u.window_function_kpara[i][:, k]
                    cells[j] = c
            for j in sorted(cells):
                out[(sk, T.pp_key(p)) + rows[j]] = cells[j]
    return out


def fold(v):
    """Average matching positive and negative delays; the getters then show positive delays only."""
    out = {}
    for key, c in v.items():
        c = dict(c)
        nd = len(c["data"])
        z = nd // 2
        n = nd - z - 1
        pos = np.arange(z + 1, nd)
        neg = 2 * z - pos
        c["data"] = (c["data"][pos] + c["data"][neg]) / 2
        c["dly"] = c["dly"][pos]
        c["nsmp"] = c["nsmp"] * 2
        for f in list(c):
            if f.startswith("stat:"):
                with np.errstate(all="ignore"):
                    c[f] = (1 / c[f][pos] ** 2 + 1 / c[f][neg] ** 2) ** (-0.5)
            elif f in ("covr", "covi"):
                m = c[f]
                c[f] = 0.25 * (m[np.ix_(pos, pos)] + m[np.ix_(pos, neg)] + m[np.ix_(neg, pos)] + m[np.ix_(neg, neg)])
            elif f == "win":
                m = c[f]
                if m.ndim == 2:
                    nk = m.shape[1]
                    zk = nk // 2
                    kp = np.arange(zk + 1, nk)
                    kn = 2 * zk - kp
                    c[f] = 0.25 * (m[np.ix_(pos, kp)] + m[np.ix_(pos, kn)] + m[np.ix_(neg, kp)] + m[np.ix_(neg, kn)])
                else:
                    c[f] = 0.5 * (m[pos] + m[neg])
        assert len(pos) == n
        out[key] = c
    return out


def select(v, spws=None, pols=None, rows=None):
    return {k: c for k, c in v.items() if (spws is None or k[0] in spws) and (pols is None or k[1] in pols) and (rows is None or rows(k[2:]))}


def circ(angles):
    return np.angle(np.mean(np.exp(1j * np.asarray(angles)))) % (2 * np.pi)


def average(v, groups=None, weights=None, time_avg=False, error_field=(), error_weights=None, normalize=True, keep_rest=True):
    """Weighted mean over (baseline-pair, time) samples, written from the documented formulae.

    Each group becomes one baseline-pair named after its first member.  Sample weight: (t_int sqrt(n))^2, or
    1/sigma^2 with error weighting; multiplied by the (normalised) baseline-pair weight."""
    fields = list(error_field)
    if error_weights is not None and error_weights not in fields:
        fields.append(error_weights)
    blps = list(dict.fromkeys(k[2] for k in v))
    groups = [[b] for b in blps] if groups is None else [list(g) for g in groups]
    weights = [[1.0] * len(g) for g in groups] if weights is None else [list(w) for w in weights]
    if keep_rest:
        used = {b for g in groups for b in g}
        for b in blps:
            if b not in used:
                groups.append([b])
                weights.append([1.0])
    out = {}
    for sk, pp in dict.fromkeys(k[:2] for k in v):
        for g, ws in zip(groups, weights):
            a = np.array(ws, float)
            if normalize:
                a = a * len(a) / a.sum()
            members = [[(k, c) for k, c in v.items() if k[:3] == (sk, pp, b)] for b in g]
            nt = len(members[0])
            for slot in [None] if time_avg else range(nt):
                samples = [(a[i], c) for i, m in enumerate(members) for j, (k, c) in enumerate(m) if slot is None or j == slot]
                head = [(k, c) for j, (k, c) in enumerate(members[0]) if slot is None or j == slot]
                out.update([mean(samples, head, sk, pp, g[0], fields, error_weights)])
    return out


def mean(samples, head, sk, pp, blp, fields, ew):
    c0 = head[0][1]
    nd = len(c0["data"])
    W, A, S = [], [], []
    for a, c in samples:
        if ew is None:
            w = np.full(nd, float((c["int"] * np.sqrt(c["nsmp"])) ** 2))
        else:
            s = np.asarray(c["stat:" + ew]).real
            with np.errstate(all="ignore"):
                w = np.where(np.isfinite(s), 1.0 / np.clip(s**2, 1e-40, np.inf), 0.0)
        W.append(w)
        A.append(a)
        S.append(c)
    W, A = np.array(W), np.array(A)
    aw = A[:, None] * W
    tot = np.clip(aw.sum(axis=0), 1e-40, np.inf)
    new = {}
    new["data"] = sum(x * c["data"] for x, c in zip(aw, S)) / tot
    new["wgt"] = sum(x[0] * c["wgt"] for x, c in zip(aw, S)) / tot[0]
    new["int"] = sum(x[0] * c["int"] for x, c in zip(aw, S)) / tot[0]
    new["nsmp"] = sum(x * c["nsmp"] for x, c in zip(A, S))
    if "win" in c0:
        ex = (slice(None),) + (None,) * (np.ndim(c0["win"]) - 1)
        new["win"] = sum(x[ex] * c["win"] for x, c in zip(aw, S)) / tot[ex]
    for f in ("covr", "covi"):
        if f in c0:
            new[f] = sum(a * np.outer(w, w) * c[f] for a, w, c in zip(A, W, S)) / np.outer(tot, tot)
    for st in fields:
        f = "stat:" + st
        acc = 0
        for a, w, c in zip(A, W, S):
            s = np.asarray(c[f]).real
            with np.errstate(all="ignore"):
                q = np.clip(np.where(np.isinf(s), np.inf, s**2), 0, 1e40)  # an unknown (NaN) error bar stays unknown
            acc = acc + a * q * w**2
        r = acc / tot**2
        with np.errstate(all="ignore"):
            new[f] = np.where(r == 0, np.inf, np.sqrt(r)) + 0j
    for f in ("scalar", "lab1", "lab2", "dly", "omega", "kperp", "kpara"):
        if f in c0:
            new[f] = c0[f]
    for f in ("t1", "t2", "ta"):
        new[f] = float(np.mean([c[f] for _, c in head]))
    for f in ("lst1", "lst2", "lsta"):
        new[f] = circ([c[f] for _, c in head]) if len(head) > 1 else c0[f]
    return (sk, pp, blp, T.tk(new["t1"]), T.tk(new["t2"])), new


def close(got, want, rtol=1e-9, skip=(), fields=None):
    """First difference between two views up to rounding, or None."""
    if set(got) != set(want):
        extra, miss = sorted(set(got) - set(want), key=repr), sorted(set(want) - set(got), key=repr)
        return ("keys", f"unexpected {extra[:3]} (n={len(extra)}), missing {miss[:3]} (n={len(miss)})")
    for key, w in want.items():
        g = got[key]
        if fields is None and set(g) - set(w) - set(skip):
            return ("fields", f"{key}: unexpected {sorted(set(g) - set(w))}")
        for f in fields or w:
            if f in skip:
                continue
            if f not in g:
                return (f, f"{key}: {f} missing")
            a, b = g[f], w[f]
            if isinstance(b, str):
                ok = a == b
            elif f in ("t1", "t2", "ta"):
                ok = abs(a - b) < 2e-9
            elif f in ("lst1", "lst2", "lsta"):
                ok = abs((a - b + np.pi) % (2 * np.pi) - np.pi) < 1e-8 and -1e-12 <= a <= 2 * np.pi + 1e-12
            else:
                a, b = np.asarray(a), np.asarray(b)
                if a.shape != b.shape:
                    return (f, f"{key}: {f} has shape {a.shape}, expected {b.shape}")
                scale = np.max(np.abs(b[np.isfinite(b)]), initial=0.0) if b.size else 0.0
                inf = ~np.isfinite(a) | ~np.isfinite(b)
                ok = bool(np.array_equal(np.isinf(a), np.isinf(b)) and np.array_equal(np.isnan(a), np.isnan(b)) and np.all(np.abs(np.where(inf, 0, a) - np.where(inf, 0, b)) <= rtol * scale))
            if not ok:
                return (f, f"{key}: {f}: got {np.asarray(a).ravel()[:5]} want {np.asarray(b).ravel()[:5]}")
    return None


def counts(u, v):
    """Metadata counters of u against the view v."""
    bad = []
    rows = list(dict.fromkeys(k[2:] for k in v))

    def need(c, what, det):
        if not c:
            bad.append((what, str(det)))

    need(u.Nbltpairs == len(u.blpair_array) == len(rows), "Nbltpairs", (u.Nbltpairs, len(rows)))
    need(u.Nblpairs == len({r[0] for r in rows}), "Nblpairs", u.Nblpairs)
    need(u.Ntpairs == u.Ntimes == len({r[1:] for r in rows}), "Ntpairs", (u.Ntpairs, u.Ntimes))
    bls = {B.ants_to_bl(b) for r in rows for b in r[0]}
    need(sorted(u.bl_array.tolist()) == sorted(bls) and u.Nbls == len(bls), "bl_array", u.bl_array)
    need(u.bl_vecs.shape == (len(bls), 3), "bl_vecs", u.bl_vecs.shape)
    if u.bl_vecs.shape == (len(bls), 3):
        for b, w in zip(u.bl_array.tolist(), u.bl_vecs):
            need(np.allclose(w, B.bl_vec((b // 1000 - 100, b % 1000 - 100)), atol=1e-6), "bl_vecs:value", b)
    need(u.Nspws == len({k[0] for k in v}) and u.Npols == len({k[1] for k in v}), "Nspws/Npols", (u.Nspws, u.Npols))
    for nm in ("label_1_array", "label_2_array"):
        need(getattr(u, nm).shape == (u.Nspws, len(rows), u.Npols), "shape:" + nm, getattr(u, nm).shape)
    need(u.scalar_array.shape == (u.Nspws, u.Npols), "shape:scalar", u.scalar_array.shape)
    return bad
