"""C20 - a multi-window, multi-polarization, multi-baseline pspec() call is the union of the single ones."""

import itertools
import warnings

import numpy as np

from mc import build as B
from mc import table as T
from mc import uvd as U
from mc.checks.c19 import cosmo

PID = "C20"
LEVEL = "model_checking"
RULE = (
    "For every weighting x taper x taper symmetry x normalisation x beam option, every ordered list of one or two (thorough: three) "
    "windows (with their own delay counts and filter extensions), six lists of polarization pairs (mixed, reordered, partly absent), "
    "with half of the (single windows: all) combinations with four lists of baseline-pairs, is estimated in one call and compared cell by cell, bit for bit, with one call per window, pair and "
    "baseline-pair on a new object; all metadata are compared with their definitions. All sequences of two (three) calls on one object "
    "are compared with new objects, with manual "
    "configuration or a failing call in between."
)
ASSUMPTIONS = ["two datasets with the same two polarizations, three baselines and three times of 9 channels"]
NF = 9
WINDOWS = [((2, 6), None, (0, 0)), ((3, 7), 3, (0, 0)), ((2, 6), None, (1, 1)), ((1, 6), 4, (0, 2)), ((0, 9), None, (0, 0))]
POLS = [["xx"], [("yy", "yy"), "xx"], [("xy", "xy"), ("xx", "xx")], [("xx", "yy"), (-5, -5), (-6, -5)], [(-6, -6)], [("yy", "xy"), ("yy", "yy"), ("xy", "xx")]]
PN = {"xx": -5, "yy": -6, "xy": -7}
AVAIL = (-5, -6)
BLPS = [[((0, 1), (0, 1))], [((0, 1), (1, 2)), ((0, 1), (0, 1)), ((1, 2), (2, 3))], [((1, 0), (2, 1)), ((2, 3), (1, 2))], [((2, 3), (0, 1)), ((0, 1), (2, 3))]]
RP = {"A": dict(filter_centers=[0.0], filter_half_widths=[1e-6], filter_factors=[1e-2]), "B": dict(filter_centers=[0.0], filter_half_widths=[2e-6], filter_factors=[1e-1])}
NT = 3


def flags(bl, pol, t, nf):
    f = np.zeros(nf, bool)
    if bl == (0, 1) and pol == -5:
        f[3] = True
    if bl == (1, 2) and t == 1:
        f[4] = True
    if pol == -6 and bl == (2, 3):
        f[2] = True
    return f


class _Beam:
    pass


def beam(kind):
    if kind == "none":
        return None
    from hera_pspec import pspecbeam

    fr = 1.0e8 + 1e5 * np.arange(NF)

    class Beam(pspecbeam.PSpecBeamFromArray):
        def beam_normalized_response(self, pol="pI", freq=None, x_orientation=None):
            pix = np.arange(12)
            c = 0.05 if pol in (-5, "xx", "ee") else 0.35
            res = np.array([1.0 / (1 + 0.3 * pix + c * (f - 1e8) / 1e5 * (pix % 3)) for f in freq])
            return res, res.sum(1) * np.pi / 3.0, 1

    om = lambda a: {"XX": a * (fr / fr[0]) ** -2, "YY": 1.5 * a * (fr / fr[0]) ** -2.5}  # noqa: E731
    return Beam(OmegaP=om(0.02), OmegaPP=om(0.01), beam_freqs=fr, cosmo=cosmo())


def fresh(bm, labels=("one", "two")):
    from hera_pspec import PSpecData

    kw = dict(bls=((0, 1), (1, 2), (2, 3)), times=tuple(range(NT)), nf=NF, pols=AVAIL, ants=(0, 1, 2, 3), autos=True, flags=flags,
              nsamp=nsamp, integ=integ)
    d = [U.cached(salt=1, **kw), U.cached(salt=2, **dict(kw, times=tuple(t - 0.5 for t in range(NT)) if False else tuple(range(1, NT + 1))))]
    return PSpecData(d, [None, None], labels=list(labels), beam=beam(bm))


def nsamp(bl, pol, t, nf):
    return 1.0 + (t + (pol == -6)) % 2 + (np.arange(nf) == 4) * (bl == (0, 1))


def integ(bl, t):
    return 10.0 + bl[1] + t


def rparams(key="A"):
    out = {}
    bls = {b for blps in BLPS for p in blps for b in p}
    for d in (0, 1):
        for n, b in enumerate(sorted(bls)):
            for p in ("xx", "yy"):
                out[(d,) + b + (p,)] = dict(RP["A" if (n + (p == "yy")) % 2 == 0 else "B"])
    return out


def call(ds, opt, windows, pols, blps, **kw):
    o = dict(input_data_weight=opt["w"], norm=opt["norm"], taper=opt["taper"], symmetric_taper=opt["sym"], sampling=opt.get("sampling", False),
             exact_norm=opt.get("exact", False), store_cov=opt.get("cov", False), return_q=opt.get("q", False), cov_model=opt.get("model", "empirical"),
             store_window=opt.get("win", True))
    o.update(kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ds.pspec([b[0] for b in blps], [b[1] for b in blps], opt.get("dsets", (0, 1)), pols, n_dlys=[w[1] for w in windows],
                        spw_ranges=[w[0] for w in windows], filter_extensions=[w[2] for w in windows],
                        r_params=rparams() if opt["w"] == "dayenu" else None, verbose=False, baseline_tol=100.0, **o)


def pint(p):
    if isinstance(p, str):
        p = (p, p)
    return tuple(PN.get(x, x) for x in p)


_SINGLE = {}


def single(opt, w, p, blp):
    """Cells (by time index) of a call for one window, polarization pair and baseline-pair on a new object."""
    k = (repr(sorted(opt.items())), w, p, blp)
    if k not in _SINGLE:
        try:
            u = call(fresh(opt["beam"]), opt, [w], [p], [blp])
            _SINGLE[k] = [T.cell_fields(u, 0, j, 0) for j in range(NT)]
        except np.linalg.LinAlgError as e:
            _SINGLE[k] = e
    return _SINGLE[k]


def options(tier):
    out = []
    for w, taper, sym, norm in itertools.product(("identity", "iC", "dayenu"), ("none", "hann"), (True, False), ("I", "H^-1")):
        out.append(dict(w=w, taper=taper, sym=sym, norm=norm, beam="none"))
    for taper, ex, norm, cov in itertools.product(("none", "hann"), (False, True), ("I", "H^-1"), (False, True)):
        if not (ex and norm != "I"):
            out.append(dict(w="identity", taper=taper, sym=True, norm=norm, beam="arr", exact=ex, cov=cov))
    out += [dict(w="identity", taper="none", sym=True, norm="I", beam="none", sampling=True, cov=True, dsets=(1, 0)),
            dict(w="identity", taper="hann", sym=True, norm="I", beam="none", cov=True, model="autos", dsets=(0, 0)),
            dict(w="identity", taper="hann", sym=True, norm="V^-1/2", beam="none", q=True, win=False)]
    return out


def tasks(tier, seed):
    U.warm()
    for w in WINDOWS:
        call(fresh("arr"), CALLS[0][0], [w], *CALLS[0][2:])
    out = []
    for o in options(tier):
        for first in range(len(WINDOWS)):
            out.append(dict(kind="lists", opt=o, first=first, depth=2 if tier == "quick" else 3))
    out += [dict(kind="seq", first=i, depth=2 if tier == "quick" else 3) for i in range(len(CALLS))]
    out.append(dict(kind="refuse"))
    return out


def check_meta(rec, u, ds, opt, windows, pols, blps, tr):
    def need(c, what, det=""):
        rec.expect(c, "meta:" + what, det, tr)

    for what, det in T.wellformed(u, blvecs=False):
        if what in ("Ntpairs", "Nblpairs") and "Ntimes" not in str(det):
            pass
        if what == "Ntpairs":  # Ntimes counts distinct integrations of either dataset in estimator output
            need(u.Ntpairs == len(set(zip(u.time_1_array, u.time_2_array))), "Ntpairs", det)
            continue
        need(False, what, det)
    d = opt.get("dsets", (0, 1))
    d1, d2 = ds.dsets[d[0]], ds.dsets[d[1]]
    rows = []
    for blp in blps:
        for t in range(NT):
            rows.append((blp, t))

    def vals(dd, bl, name):
        a, b = sorted(bl)
        r = [i for i in range(dd.Nblts) if (int(dd.ant_1_array[i]), int(dd.ant_2_array[i])) == (a, b)]
        return getattr(dd, name)[r]

    t1 = np.concatenate([vals(d1, b[0], "time_array") for b in blps])
    t2 = np.concatenate([vals(d2, b[1], "time_array") for b in blps])
    l1 = np.concatenate([vals(d1, b[0], "lst_array") for b in blps])
    l2 = np.concatenate([vals(d2, b[1], "lst_array") for b in blps])
    need(np.array_equal(u.time_1_array, t1) and np.array_equal(u.time_2_array, t2), "times")
    need(np.array_equal(u.lst_1_array, l1) and np.array_equal(u.lst_2_array, l2), "lsts")
    need(np.allclose(u.time_avg_array, (t1 + t2) / 2, rtol=0, atol=1e-9), "time_avg")
    need(np.allclose(np.exp(1j * u.lst_avg_array), np.exp(1j * (l1 + l2) / 2), atol=1e-9), "lst_avg")
    need([T.blp_key(b) for b in u.blpair_array] == [tuple(map(tuple, r[0])) for r in rows], "blpairs", u.blpair_array)
    need([T.pp_key(p) for p in u.polpair_array] == [pint(p) for p in pols], "polpairs", u.polpair_array)
    need(u.Ntimes == len(set(t1) | set(t2)), "Ntimes", u.Ntimes)
    fr = d1.freq_array
    need(np.array_equal(u.freq_array, np.concatenate([fr[slice(*w[0])] for w in windows])), "freq_array")
    need(np.array_equal(u.spw_freq_array, np.concatenate([[i] * (w[0][1] - w[0][0]) for i, w in enumerate(windows)])), "spw_freq_array")
    nds = [w[1] or w[0][1] - w[0][0] for w in windows]
    need(np.array_equal(u.spw_dly_array, np.concatenate([[i] * n for i, n in enumerate(nds)])), "spw_dly_array")
    need(np.allclose(u.dly_array, np.concatenate([np.fft.fftshift(np.fft.fftfreq(n, d=1e5)) for n in nds]), rtol=1e-9, atol=1e-18), "dly_array")
    need(u.Nfreqs == len({f for w in windows for f in range(*w[0])}), "Nfreqs")
    lab = ["one", "two"]
    need(np.all(u.labels[u.label_1_array] == lab[d[0]]) and np.all(u.labels[u.label_2_array] == lab[d[1]]), "labels", u.labels)
    pos = dict(zip(d1.telescope.antenna_numbers.tolist(), d1.telescope.antenna_positions))
    for b, v in zip(u.bl_array.tolist(), u.bl_vecs):
        need(np.allclose(v, pos[b // 1000 - 100] - pos[b % 1000 - 100], atol=1e-9), "bl_vecs", (b, v))
    need(u.taper == opt["taper"] and u.weighting == opt["w"] and u.norm == ("Unnormalized" if opt.get("q") else opt["norm"]), "options")
    need(np.allclose(u.channel_width, 1e5), "channel_width")
    if opt["w"] == "dayenu":
        got = u.get_r_params()
        need(got == rparams() or all(got.get(k) == v for k, v in rparams().items()), "r_params", got)


def run(task, rec):
    if task["kind"] == "seq":
        return seq(task, rec)
    if task["kind"] == "refuse":
        return refuse(rec)
    opt = dict(task["opt"])
    if "dsets" in opt:
        opt["dsets"] = tuple(opt["dsets"])
    for r in range(task["depth"]):
        for tail in itertools.product(WINDOWS, repeat=r):
            wins = [WINDOWS[task["first"]]] + list(tail)
            if opt.get("exact") and any(sum(w[2]) for w in wins):
                continue  # exact normalization refuses filter extensions (shape mismatch)
            if r == 2 and len(set(wins)) < 3:
                continue
            for pi, pols in enumerate(POLS):
                for bi, blps in enumerate(BLPS):
                    if (r == 1 and (pi + bi) % 2) or (r == 2 and (pi + bi) % 3):
                        continue
                    lists(rec, opt, wins, pols, blps)
    rec.sample({"opt": repr(opt), "first": repr(WINDOWS[task["first"]])})


def lists(rec, opt, wins, pols, blps):
    mixed = any(pint(p)[0] != pint(p)[1] for p in pols)
    tr = dict(opt=opt, windows=wins, pols=pols, blps=blps)
    good = [p for p in pols if all(x in AVAIL for x in pint(p))]
    ds = fresh(opt["beam"])
    rec.step()
    rec.state(repr(tr))
    if opt["beam"] != "none" and mixed:
        bad = [p for p in good if pint(p)[0] != pint(p)[1]]
        if bad:
            rec.expect(rec.raises(call, ds, opt, wins, pols, blps), "mixed-accepted", "", tr)
            return
    want = {}
    for i, w in enumerate(wins):
        for k, p in enumerate(good):
            for n, b in enumerate(blps):
                want[i, k, n] = single(opt, w, pint(p), b)
    if any(isinstance(v, Exception) for v in want.values()):
        rec.notes["singular"] = rec.notes.get("singular", 0) + 1
        return
    try:
        u = call(ds, opt, wins, pols, blps)
    except Exception as e:  # noqa: BLE001
        if "band-dependent" in str(e):
            return
        rec.fail("raised" + (":absent-pol" if len(good) < len(pols) else ""), f"{type(e).__name__}: {e}", tr)
        return
    check_meta(rec, u, ds, opt, wins, good, blps, tr)
    for (i, k, n), cells in want.items():
        for t in range(NT):
            try:
                got = T.cell_fields(u, i, n * NT + t, k)
            except Exception as e:  # noqa: BLE001
                rec.fail("cells", f"{type(e).__name__}: {e}", tr)
                return
            d = T.diff({0: got}, {0: cells[t]}, rtol=1e-12, atol=0)
            rec.trace()
            if not rec.expect(d is None, f"cell:{d and d[0]}" + (":ext" if any(sum(w[2]) for w in wins) else "") + (":exact" if opt.get("exact") else ""), f"window {i} pol {k} blp {n} time {t}: {d and d[1]}", tr):
                return
    rec.outcome(T.canon({0: cells[0]}))


CALLS = [
    (dict(w="identity", taper="none", sym=True, norm="I", beam="arr"), [WINDOWS[0]], ["xx"], BLPS[1]),
    (dict(w="identity", taper="hann", sym=True, norm="I", beam="arr"), [WINDOWS[0]], ["xx"], BLPS[1]),
    (dict(w="identity", taper="hann", sym=False, norm="I", beam="arr"), [WINDOWS[0]], ["yy"], BLPS[1]),
    (dict(w="identity", taper="none", sym=True, norm="I", beam="arr", exact=True), [WINDOWS[0]], ["yy"], BLPS[1]),
    (dict(w="identity", taper="none", sym=True, norm="I", beam="arr", sampling=True), [WINDOWS[0]], ["xx"], BLPS[1]),
    (dict(w="identity", taper="hann", sym=True, norm="I", beam="arr"), [WINDOWS[1]], ["xx"], BLPS[0]),
    (dict(w="identity", taper="hann", sym=True, norm="I", beam="arr"), [WINDOWS[2]], ["xx"], BLPS[0]),
    (dict(w="iC", taper="none", sym=True, norm="I", beam="arr"), [WINDOWS[0]], ["xx"], BLPS[1]),
    (dict(w="iC", taper="none", sym=True, norm="H^-1", beam="arr", cov=True), [WINDOWS[1]], ["xx"], BLPS[1]),
    (dict(w="dayenu", taper="hann", sym=True, norm="I", beam="arr"), [WINDOWS[0]], ["yy", "xx"], BLPS[2]),
    (dict(w="identity", taper="none", sym=True, norm="I", beam="arr", dsets=(1, 0)), [WINDOWS[0]], ["xx"], BLPS[3]),
    (dict(w="identity", taper="none", sym=True, norm="I", beam="arr", cov=True, model="autos"), [WINDOWS[0]], ["xx"], BLPS[3]),
]


def _ext(ds):
    ds.set_spw((2, 6))
    ds.set_filter_extension((1, 1))


def _matrices(ds):
    ds.set_spw((3, 7), ndlys=2)
    ds.set_taper("bh")
    ds.set_symmetric_taper(False)
    ds.set_weighting("iC")
    ds.get_H((0, (0, 1), "xx"), (1, (1, 2), "xx"))


def _failing(ds):
    try:
        call(ds, dict(CALLS[0][0], norm="bogus"), [WINDOWS[0], WINDOWS[2]], ["yy"], BLPS[1])
    except Exception:  # noqa: BLE001
        pass
    try:  # fails inside a window with a filter extension
        call(ds, dict(CALLS[0][0], cov=True, model="bogus"), [WINDOWS[2]], ["yy"], BLPS[1])
    except Exception:  # noqa: BLE001
        pass


POKES = [lambda ds: None, _ext, _matrices, _failing]


def seq(task, rec):
    """The result of a call does not depend on the calls made before; the datasets are not touched."""
    import copy

    for poke, *tail in itertools.product(range(len(POKES)), *[range(len(CALLS))] * (task["depth"] - 1)):
        tail = tuple(tail)
        ds = fresh("arr")
        before = [(d.data_array.copy(), d.flag_array.copy(), d.nsample_array.copy(), d.time_array.copy()) for d in ds.dsets]
        s = (task["first"],) + tail
        for n, c in enumerate(s):
            opt, wins, pols, blps = CALLS[c]
            rec.step()
            if n == len(s) - 1:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    POKES[poke](ds)
            blps0 = copy.deepcopy(blps)
            ok, u = rec.attempt("seq", call, ds, opt, wins, pols, blps, trace=s)
            if not ok:
                return
            rec.expect(blps == blps0, "arguments-modified", "", s)
            for k, p in enumerate(pols):
                for m, b in enumerate(blps):
                    w = single(opt, wins[0], pint(p), b)
                    for t in range(NT):
                        d = T.diff({0: T.cell_fields(u, 0, m * NT + t, k)}, {0: w[t]}, rtol=1e-12)
                        rec.trace()
                        rec.expect(d is None, f"seq:{d and d[0]}", f"call {n} of {s}: {d}", s)
        for d, b in zip(ds.dsets, before):
            rec.expect(np.array_equal(d.data_array, b[0]) and np.array_equal(d.flag_array, b[1]) and np.array_equal(d.nsample_array, b[2]) and np.array_equal(d.time_array, b[3]), "datasets-modified", "", s)
        rec.state((poke, s))


def refuse(rec):
    """Requests that cannot be answered are refused; the history text is stored."""
    o = CALLS[0][0]
    w = [WINDOWS[0]]
    b = BLPS[0]

    def bad(name, f):
        rec.step()
        rec.expect(rec.raises(f), "accepted:" + name, "")

    bad("nopol", lambda: call(fresh("none"), o, w, ["xy"], b))
    bad("ndlys", lambda: call(fresh("none"), o, [((2, 6), 5, (0, 0))], ["xx"], b))
    bad("ndlys-len", lambda: call(fresh("none"), o, w + w, ["xx"], b, n_dlys=[None]))
    bad("noblps", lambda: call(fresh("none"), o, w, ["xx"], []))
    bad("nobl", lambda: call(fresh("none"), o, w, ["xx"], [((0, 3), (0, 3))]))
    bad("weight", lambda: call(fresh("none"), dict(o, w="bogus"), w, ["xx"], b))
    bad("norm", lambda: call(fresh("none"), dict(o, norm="bogus"), w, ["xx"], b))
    bad("cov_model", lambda: call(fresh("none"), dict(o, model="bogus", cov=True), w, ["xx"], b))
    u = call(fresh("none"), o, w, ["xx"], b, history="remember me")
    rec.expect("remember me" in u.history, "history", u.history)
    # the default window, a lone tuple and strings mean what the lists mean
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds = fresh("none")
        x = ds.pspec([(0, 1)], [(0, 1)], (0, 1), "xx", verbose=False)
        y = ds.pspec([[(0, 1)]], [[(0, 1)]], [0, 1], ("xx", "xx"), verbose=False, spw_ranges=(0, 9), n_dlys=9, filter_extensions=(0, 0))
        z = ds.pspec([(0, 1)], [(0, 1)], (0, 1), [(-5, "xx")], verbose=False, spw_ranges=[(0, 9)])
    for v in (y, z):
        d = T.diff(T.table(v), T.table(x))
        rec.expect(d is None, "spelling", d)
    rec.trace(3)
    # ... on a partial window too, whichever of the arguments are spelt bare
    ref = None
    for bare in itertools.product((False, True), repeat=4):
        for nd in (3, 4, None):
            if nd is None and bare[1]:
                continue
            kw = dict(spw_ranges=(2, 6) if bare[0] else [(2, 6)], n_dlys=nd if bare[1] or nd is None else [nd],
                      filter_extensions=(1, 2) if bare[2] else [(1, 2)])
            ds = fresh("none")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ok, v = rec.attempt("spelling", ds.pspec, [(0, 1)], [(0, 1)], (0, 1), "xx" if bare[3] else [("xx", "xx")], verbose=False, **kw)
            rec.trace()
            if not ok:
                continue
            ref = ref or {}
            if nd not in ref:
                ref[nd] = T.table(v)
                rec.expect(v.get_spw_ranges()[0][2:] == (4, nd or 4) and abs(v.get_spw_ranges()[0][0] - ds.dsets[0].freq_array.ravel()[2]) < 1, "spelling:range", f"{v.get_spw_ranges()}")
            d = T.diff(T.table(v), ref[nd])
            rec.expect(d is None, "spelling:partial", f"{bare} n_dlys={nd}: {d}")
