"""C28 - trimming, rephasing and differencing the time axis of datasets touches the right integrations, by the right amount."""

import copy
import itertools
import warnings

import numpy as np

from mc import build as B
from mc import uvd as V

PID = "C28"
LEVEL = "model_checking"
RULE = (
    "Trim: every tuple of windows of a common LST grid (two or three datasets) x row orders x LST offsets (on rounding boundaries, across 24 h, with "
    "jitter below the tolerance) x dates. Rephase: every choice of anchor x LST offsets of the others x numbers of times x polarization orders x baseline "
    "orientations and row orders x which datasets are phased already x in place or not x repeated calls, against an independent geometric phasor. "
    "Differences: every number of times x spacing x row order x flag pattern. States are distinct dataset contents; transitions are calls."
)
ASSUMPTIONS = [
    "datasets handed to rephase_to_dset hold every baseline at every time, in order of time (its reader's documented assumption)",
    "LSTs of different datasets either agree far within the tolerance or differ by far more",
    "requested time differences are not exact multiples of the integration spacing",
]
C0 = 299792458.0


def tasks(tier, seed):
    V.warm()
    full = tier == "thorough"
    out = [dict(mode="trim", off=o, n=n, full=full) for o in OFFS for n in ((2, 3) if full else (2, 3))]
    out += [dict(mode="rephase", pols=i, full=full) for i in range(len(POLSETS))]
    out += [dict(mode="repeat", full=full), dict(mode="tdiff", part=0, full=full), dict(mode="tdiff", part=1, full=full)]
    return out


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + task["mode"]](task, rec)


def dig(u):
    return (u.data_array, u.flag_array, u.nsample_array, u.time_array, u.lst_array, u.ant_1_array, u.ant_2_array, u.polarization_array)


def rows(u):
    """{(a1, a2, time index): (lst, data, flags, nsample)}"""
    out = {}
    for r in range(u.Nblts):
        k = (int(u.ant_1_array[r]), int(u.ant_2_array[r]), round(float(u.time_array[r]), 9))
        assert k not in out
        out[k] = (float(u.lst_array[r]), u.data_array[r].copy(), u.flag_array[r].copy(), u.nsample_array[r].copy(), float(u.integration_time[r]))
    return out


def same(x, y):
    return abs(x[0] - y[0]) < 1e-12 and all(np.array_equal(a, b) for a, b in zip(x[1:], y[1:]))


ORD = {
    "time": lambda u: np.lexsort((u.baseline_array, u.time_array)),
    "bl": lambda u: np.lexsort((u.time_array, u.baseline_array)),
    "-time": lambda u: np.lexsort((u.baseline_array, -u.time_array)),
    "-bl": lambda u: np.lexsort((-u.time_array, -u.baseline_array)),
    "mixed": lambda u: np.array(sorted(range(u.Nblts), key=lambda r: B.h("blt", int(u.baseline_array[r]), round(float(u.time_array[r]) * 8e3)))),
}


def reorder(u, order):
    ix = ORD[order](u)
    u.reorder_blts(order=ix, run_check=False)
    return u


# ---------------------------------------------------------------- trimming to common LSTs
D = 1e-3  # grid spacing in radians
# start of grid: generic; every point on a rounding boundary of the sixth decimal; wrapping through 24 h
OFFS = ["plain", "boundary", "jitter", "wrap", "wrap0"]


def lst_of(g, off, i):
    """LST of grid point g in dataset i."""
    eps = [0.0, 3e-10, -3e-10][i % 3]
    base = {"plain": 1.2345671, "boundary": 1.2345675, "jitter": 1.2345672, "wrap": 2 * np.pi - 2.5 * D, "wrap0": 2 * np.pi - 2 * D}[off]
    e = {"plain": 0.0, "boundary": eps, "jitter": eps * 100, "wrap": eps, "wrap0": eps}[off]
    return (base + D * g + e) % (2 * np.pi)


def windows(n, lo):
    return [(a, b) for a in range(n) for b in range(a + lo, n + 1)]


def run_trim(task, rec):
    from hera_pspec import pspecdata

    n, full = task["n"], task["full"]
    grid, lo = ((7, 4) if task["off"][:4] == "wrap" else (6, 2)) if n == 2 else ((6, 4) if task["off"][:4] == "wrap" else (4, 2))
    if full:
        grid += 1
    bls = ((0, 1), (3, 2))

    def dset(w, i, order, salt=None):
        u = V.cached(bls=bls, times=tuple(range(w[0], w[1])), nf=2, salt=i if salt is None else salt)
        step = np.rint((u.time_array - B.T0) / B.DT).astype(int)
        u.lst_array = np.array([lst_of(g, task["off"], i) for g in step])
        u.time_array = u.time_array + i * 0.997  # another day
        return reorder(u, order)

    wins = windows(grid, lo)
    orders = ["time", "bl", "-time", "mixed"]
    for c, ws in enumerate(itertools.product(wins, repeat=n)):
        common = set(range(grid)).intersection(*[range(*w) for w in ws])
        for o in range(2 if full else 1):
            ords = [orders[(c + c // 4 + o * 2 + k) % 4] for k in range(n)]
            tr = {"windows": ws, "orders": ords, "off": task["off"]}
            dsets = [dset(w, i, k) for i, (w, k) in enumerate(zip(ws, ords))]
            before = [rows(u) for u in dsets]
            # weights and standard deviations come along: none, some or all, in another order of rows
            side = (c // 3 + o) % 4
            extra = {"wgts": [None] * n, "dsets_std": [None] * n}
            for i, (w, k) in enumerate(zip(ws, ords)):
                if side in (1, 3) and (i + c) % 3:
                    extra["wgts"][i] = dset(w, i, "bl" if k == "time" else "time", salt=10 + i)
                if side in (2, 3) and (i + c + 1) % 3:
                    extra["dsets_std"][i] = dset(w, i, "mixed", salt=20 + i)
            tr["companions"] = {k: [x is not None for x in v] for k, v in extra.items()}
            ebefore = {k: [x and rows(x) for x in v] for k, v in extra.items()}
            ds = pspecdata.PSpecData(dsets=dsets, wgts=extra["wgts"], labels=None)
            ds.dsets_std = extra["dsets_std"]
            rec.step()
            rec.trace()
            if not common:
                rec.expect(rec.raises(ds.trim_dset_lsts), "trim:nothing-common-accepted", "datasets without a common LST were accepted", tr)
                continue
            ok, _ = rec.attempt("trim", ds.trim_dset_lsts, trace=tr)
            if not ok:
                continue
            for i, u in enumerate(ds.dsets):
                got = rows(u)
                want = {k: v for k, v in before[i].items() if round((k[2] - i * 0.997 - B.T0) / B.DT) in common}
                rec.expect(set(got) == set(want), f"trim:rows:{task['off']}", f"dataset {i}: kept {len(got)} rows, expected {len(want)}: {sorted(set(got) ^ set(want))[:3]}", tr)
                rec.expect(all(same(got[k], want[k]) for k in set(got) & set(want)), "trim:values", f"dataset {i}", tr)
                rec.expect(u.Ntimes == len(common), "trim:ntimes", f"{u.Ntimes} vs {len(common)}", tr)
                rec.state((task["off"], ws, ords, i, sorted(got)))
                for name in extra:
                    e = getattr(ds, name)[i]
                    if e is None:
                        rec.expect(extra[name][i] is None, "trim:companion-gone", f"{name}[{i}]", tr)
                        continue
                    got = rows(e)
                    want = {k: v for k, v in ebefore[name][i].items() if round((k[2] - i * 0.997 - B.T0) / B.DT) in common}
                    rec.expect(set(got) == set(want) and all(same(got[k], want[k]) for k in want), f"trim:{name}", f"{name}[{i}] kept {len(got)} rows, expected {len(want)}", tr)
    if task["off"] == "plain":
        # different grids are refused
        for f in (1.01, 0.5, 2.0):
            a, b = dset((0, 4), 0, "time"), dset((0, 4), 1, "time")
            b.lst_array = b.lst_array[0] + (b.lst_array - b.lst_array[0]) * f
            ds = pspecdata.PSpecData(dsets=[a, b], wgts=[None, None])
            rec.step()
            rec.expect(rec.raises(ds.trim_dset_lsts), "trim:grids", f"dLST differing by a factor {f} accepted")
        # weights and covariances cached before are not used afterwards
        a, b = dset((0, 4), 0, "time"), dset((1, 4), 1, "bl")
        ds = pspecdata.PSpecData(dsets=[a, b], wgts=[None, None])
        ds.C_model((0, 0, 1, "xx"), model="empirical")
        ds.trim_dset_lsts()
        fresh_ds = pspecdata.PSpecData(dsets=copy.deepcopy(ds.dsets), wgts=[None, None])
        k = (0, 0, 1, "xx")
        rec.step()
        rec.expect(np.allclose(ds.C_model(k, model="empirical"), fresh_ds.C_model(k, model="empirical"), rtol=1e-12, atol=0), "trim:stale", "covariance cached before trimming is used afterwards")


# ---------------------------------------------------------------- rephasing
POLSETS = [[(-5,), (-5,)], [(-5, -6), (-5, -6)], [(-5, -6), (-6, -5)], [(-5, -6, -7, -8), (-6, -8, -5, -7)], [(-5,), (-5, -6)], [(1, 2), (2, 1)]]
BLS = ((0, 1), (3, 2), (0, 4), (4, 2))


def phasor(bl, fr, dlst, lat):
    """Fringe taking a drift-scan visibility of baseline bl at LST l to the zenith of LST l + dlst."""
    (x1, y1), (x2, y2) = V.ANT[bl[0]], V.ANT[bl[1]]
    # what is at zenith moves west by dlst; a source at s has the fringe exp(-2 pi i (x1 - x2).s nu / c) (pyuvdata's convention)
    e = -np.cos(lat) * np.sin(dlst)
    nn = np.sin(lat) * np.cos(lat) * (1 - np.cos(dlst))
    tau = ((x1 - x2) * e + (y1 - y2) * nn) / C0
    return np.exp(-2j * np.pi * fr * tau)


def mk(i, pols, nt, shift, order, flip, kind="unprojected", cid=0):
    bls = tuple(b[::-1] for b in BLS) if flip else BLS
    u = V.cached(bls=bls, times=tuple(range(nt)), nf=3, pols=tuple(pols), salt=i)
    u.lst_array = (u.lst_array + shift) % (2 * np.pi)
    for c in u.phase_center_catalog.values():
        c["cat_type"] = kind
    if cid:
        u.phase_center_catalog = {cid: u.phase_center_catalog[0]}
        u.phase_center_id_array = np.full(u.Nblts, cid)
    return reorder(u, order)


def expect_rephased(before, u, pols, grid, lsts, lat, fr, skip):
    out = {}
    ts = sorted({k[2] for k in before})
    for (a, b, t), v in before.items():
        v = list(v)
        j = ts.index(t)
        if not skip:
            v[1] = v[1] * phasor((a, b), fr, grid[j] - lsts[j], lat)[:, None]
        out[(a, b, t)] = v
    return out


def run_rephase(task, rec):
    from hera_pspec import pspecdata

    full = task["full"]
    p0, p1 = POLSETS[task["pols"]]
    shifts = [0.0, 0.004, -1.3e-3, 1.5577] if full else [0.004, -1.3e-3, 1.5577]
    space = list(itertools.product((0, 1), (1, 2, 3), shifts, ("time", "bl"), (False, True), (True, False), (2, 3), ("drift", "drift", "phased", "mixed")))
    stride = 1 if full else (5 if len(p0) < 4 else 11)
    for c, (anchor, nt, shift, order, flip, inplace, n, kinds) in enumerate(space):
        if c % stride and not full:
            continue
        tr = dict(pols=task["pols"], anchor=anchor, nt=nt, shift=shift, order=order, flip=flip, inplace=inplace, n=n, kinds=kinds)
        kind = {"drift": ["unprojected"] * 3, "phased": [("sidereal", "unknown")[c % 2]] * 3, "mixed": ["unprojected", "sidereal", "unprojected"]}[kinds]
        pl = [p0, p1, p0]
        sh = [0.0, shift, -0.5 * shift]
        dsets = [mk(i, pl[i], nt, sh[i], order if i != 1 else ("bl", "time")[c % 2], flip if i == 1 else False, kind[i], 2 * (c % 5 == 1)) for i in range(n)]
        before = [rows(u) for u in dsets]
        lsts = [sorted({(k[2], v[0]) for k, v in b.items()}) for b in before]
        lsts = [np.array([x[1] for x in s]) for s in lsts]
        lat = [u.telescope.location.lat.rad for u in dsets]
        fr = dsets[0].freq_array.copy()
        labels = ["first", "second", "third"][:n]
        ds = pspecdata.PSpecData(dsets=dsets, wgts=[None] * n, labels=labels)
        rec.step()
        rec.trace()
        if kinds == "mixed":
            rec.expect(rec.raises(ds.rephase_to_dset, anchor, inplace=inplace), "rephase:mixed", "datasets of different phase types accepted", tr)
            x = [rows(u) for u in ds.dsets]
            rec.expect(all(same(x[i][k], before[i][k]) for i in range(n) for k in x[i]), "rephase:refused-changed", "a refused call changed the data", tr)
            continue
        ok, got = rec.attempt("rephase", ds.rephase_to_dset, labels[anchor] if c % 3 == 0 else anchor, inplace=inplace, trace=tr)
        if not ok:
            continue
        if inplace:
            rec.expect(got is None, "rephase:returns", "in-place call returned something", tr)
            got = ds.dsets
        else:
            for i, u in enumerate(ds.dsets):
                x = rows(u)
                rec.expect(all(same(x[k], before[i][k]) for k in x) and [c["cat_type"] for c in u.phase_center_catalog.values()] == [kind[i]],
                           "rephase:original-changed", f"dataset {i} changed by inplace=False", tr)
        for i, u in enumerate(got):
            skip = i == anchor or kinds == "phased"
            want = expect_rephased(before[i], u, pl[i], lsts[anchor], lsts[i], lat[i], fr, skip)
            x = rows(u)
            rec.expect(set(x) == set(want) and list(u.polarization_array) == list(pl[i]), "rephase:labels", f"dataset {i}", tr)
            what = "anchor" if i == anchor else "skipped" if skip else "data"
            bad = [k for k in want if k in x and not np.allclose(x[k][1], want[k][1], rtol=1e-7, atol=1e-7 * np.abs(want[k][1]).max())]
            rec.expect(not bad, f"rephase:{what}", f"dataset {i} rows {bad[:2]}", tr)
            rec.expect(all(abs(x[k][0] - want[k][0]) < 1e-12 and np.array_equal(x[k][2], want[k][2]) and np.array_equal(x[k][3], want[k][3]) for k in x),
                       "rephase:meta", f"LSTs, flags or sample counts of dataset {i} changed", tr)
            if not skip:
                rec.expect(next(iter(u.phase_center_catalog.values()))["cat_type"] != "unprojected", "rephase:mark", f"dataset {i} still marked as drift scan", tr)
            if kinds == "phased":
                rec.expect([q["cat_type"] for q in u.phase_center_catalog.values()] == [kind[i]], "rephase:type", f"phase type of skipped dataset {i} changed", tr)
            rec.state((tr["pols"], anchor, nt, shift, i, u.data_array))


def run_repeat(task, rec):
    """A second rephasing leaves everything alone (nothing is a drift scan any more), also to another anchor and between copies."""
    from hera_pspec import pspecdata

    for nt, shift, pols, a1, a2, inp in itertools.product((1, 3), (0.004, -1.3e-3), ((-5,), (-6, -5)), (0, 1), (0, 1), (True, False)):
        tr = dict(nt=nt, shift=shift, pols=pols, a1=a1, a2=a2, inplace=inp)
        dsets = [mk(0, pols, nt, 0.0, "time", False), mk(1, pols, nt, shift, "bl", True)]
        ds = pspecdata.PSpecData(dsets=dsets, wgts=[None, None])
        ds.rephase_to_dset(a1)
        mid = [rows(u) for u in ds.dsets]
        rec.step(2)
        rec.trace()
        ok, got = rec.attempt("rephase2", ds.rephase_to_dset, a2, inplace=inp, trace=tr)
        if not ok:
            continue
        for i, u in enumerate(ds.dsets if inp else got):
            x = rows(u)
            rec.expect(all(np.allclose(x[k][1], mid[i][k][1], rtol=1e-9, atol=0) for k in x), "rephase:twice", f"dataset {i} was rephased a second time", tr)
            rec.state(("repeat", i, u.data_array))
        # covariances cached before are recomputed
        dsets = [mk(0, pols, 3, 0.0, "time", False), mk(1, pols, 3, shift, "bl", False)]
        ds = pspecdata.PSpecData(dsets=dsets, wgts=[None, None])
        k = (1, 0, 1, "xx")
        old = ds.C_model(k, model="empirical").copy()
        if a1 == 0:
            ds.rephase_to_dset(0)
            want = pspecdata.PSpecData(dsets=copy.deepcopy(ds.dsets), wgts=[None, None]).C_model(k, model="empirical")
            rec.step()
            rec.expect(np.allclose(ds.C_model(k, model="empirical"), want, rtol=1e-10, atol=1e-12), "rephase:stale", "covariance of the unphased data is used after rephasing", tr)
            rec.expect(not np.allclose(old, want, rtol=1e-6), "rephase:vacuous", "the phasor does not change the covariance", tr)


# ---------------------------------------------------------------- time differences
def run_tdiff(task, rec):
    from hera_pspec import pspecdata, utils

    full = task["full"]
    dt = B.DT * 86400
    bls = ((0, 1), (3, 2), (0, 0))
    nts = range(3, 10 if full else 8)
    space = list(itertools.product(nts, (0.0, 0.3, 0.7, 1.3, 1.8, 2.5, 3.5, 4.6, 50.5), ORD, range(4)))
    for c, (nt, ratio, order, fl) in enumerate(space):
        if c % 2 != task["part"]:
            continue
        if not full and (c // 2) % 2 and order not in ("mixed", "time"):
            continue

        def flags(bl, pol, t, nf):
            if fl == 0:
                return np.zeros(nf, bool)
            if fl == 1:
                return np.array([B.h("f", bl, pol, t, k) % 4 == 0 for k in range(nf)])
            if fl == 2:
                return np.full(nf, t == 1)
            return np.full(nf, t == 0 and bl == (0, 1)) | (np.arange(nf) == 1) * (t == nt - 1)

        pols = (-5, -6) if c % 3 else (-6,)
        u = V.uvdata(bls=bls, times=range(nt), nf=3, pols=pols, salt=c % 5, flags=flags)
        u = reorder(u, order)
        tr = dict(nt=nt, ratio=ratio, order=order, flags=fl)
        before = rows(u)
        dig0 = copy.deepcopy(dig(u))
        rec.step()
        rec.trace()
        ok, d = rec.attempt("tdiff", utils.uvd_time_difference, u, ratio * dt, trace=tr)
        if not ok:
            continue
        rec.expect(all(np.array_equal(a, b) for a, b in zip(dig0, dig(u))), "tdiff:input", "the input changed", tr)
        k = min(int(ratio) + 1, nt - 2)
        ts = sorted({x[2] for x in before})
        first = [i for i in range(0, nt - 1, k)]
        want = {}
        for (a, b, t), v in before.items():
            i = ts.index(t)
            if i in first:
                w = before[(a, b, ts[i + 1])]
                want[(a, b, t)] = ((v[1] - w[1]) / np.sqrt(2), v[2] | w[2])
        x = rows(d)
        rec.expect(set(x) == set(want), "tdiff:times", f"times {sorted({ts.index(q[2]) for q in x})} expected {first}", tr)
        for q in set(x) & set(want):
            rec.expect(np.allclose(x[q][1], want[q][0], rtol=1e-9, atol=1e-9), "tdiff:data", f"row {q[:2]} time {ts.index(q[2])}", tr)
            rec.expect(np.array_equal(x[q][2], want[q][1]), "tdiff:flags", f"row {q[:2]} time {ts.index(q[2])}: {x[q][2].ravel()} vs {want[q][1].ravel()}", tr)
        rec.state((tr["nt"], ratio, order, d.data_array, d.flag_array))
        if c % 7 == 0:
            v2 = reorder(V.uvdata(bls=bls, times=range(nt), nf=3, pols=pols, salt=9), "time")
            ds = pspecdata.PSpecData(dsets=[copy.deepcopy(u), v2], wgts=[None, None])
            ok, dd = rec.attempt("tdiff:pspecdata", utils.pspecdata_time_difference, ds, ratio * dt, trace=tr)
            rec.step()
            if ok:
                y = [rows(z) for z in dd.dsets]
                e = [rows(utils.uvd_time_difference(z, ratio * dt)) for z in (u, v2)]
                rec.expect(len(dd.dsets) == 2 and all(set(p) == set(q) and all(same(p[r], q[r]) for r in p) for p, q in zip(y, e)), "tdiff:pspecdata", "datasets are not the differences of the datasets, in order", tr)
