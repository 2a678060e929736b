"""C39 - calibration divides every visibility by its own antennas' gains, once, in its own dataset."""

import glob
import itertools
import json
import os
import shutil
import warnings

import numpy as np

from mc import build as B
from mc import table as T
from mc import uvd as U
from mc.pscutil import fresh

PID = "C39"
LEVEL = "model_checking"
RULE = (
    "All combinations of gain convention, flag propagation, feed order and coverage, antenna order and superset, gains per time or one "
    "for all, row order, polarizations, flag patterns, error sets (none, own, the dataset itself) and units for one dataset; every sequence of "
    "two (thorough: three) additions over all spellings of several datasets (the same object twice, shared error sets, entries without "
    "calibration); every way of giving calibrations to pspec_run (object, list, file, list of files, list of lists, pattern) crossed with its data source, "
    "interleaving, error sets, conversion and dataset pairs. Stored visibilities, flags, samples and labels must be those of the "
    "defining formula on label-determined visibilities and gains; the driver's container that of datasets calibrated beforehand. "
    "States are distinct calibrated datasets or containers; transitions are calls."
)
ASSUMPTIONS = [
    "the visibility value of a sample flagged by the calibration is not specified",
    "gains are given for every antenna, time and feed of the data (anything else is refused by pyuvdata)",
]

NF = 4
BLS = ((0, 1), (1, 2), (2, 2))
TIMES = (0, 1, 2)
FEED = {-5: (-5, -5), -6: (-6, -6), -7: (-5, -6), -8: (-6, -5)}  # xy = x feed of the first antenna, y feed of the second


def gain(ant, jones, t, k, salt):
    """A power of two times a power of i: products and quotients are exact."""
    x = B.h("gain", salt, ant, jones, t, k)
    return 2.0 ** (x % 4 - 1) * 1j ** ((x // 7) % 4)


def gflag(kind, ant, jones, t, k):
    return {"none": False, "one": (ant, jones, t, k) == (1, -6, 1, 2), "ant": ant == 2 and jones == -5, "time": t == 0 and k != 1}[kind]


_C = {}


def cal(nf=NF, jones=(-5, -6), ants=(0, 1, 2), times=TIMES, single=False, conv="divide", flags="none", salt=0, scale=None, name=None, reverse=False):
    """(UVCal, table).  The table maps (ant, jones, t) to (gains, flags)."""
    from pyuvdata import UVCal

    key = repr((nf, jones, ants, times, single, conv, flags, salt, scale, name, reverse))
    if key not in _C:
        d = U.cached(bls=tuple((a, a) for a in ants), times=times, nf=nf, ants=tuple(range(6)))
        tt = np.unique(d.time_array)
        kw = dict(time_range=np.array([[tt.min() - 1e-4, tt.max() + 1e-4]])) if single else dict(time_array=tt)
        order = tuple(reversed(ants)) if reverse else ants
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = UVCal.new(
                freq_array=d.freq_array, channel_width=d.channel_width, integration_time=10.7, telescope=d.telescope, jones_array=np.array(jones), ant_array=np.array(order),
                gain_convention=conv, cal_style="redundant", cal_type="gain", empty=True, **kw)
        tab = {}
        for (i, a), (n, t), (p, j) in itertools.product(enumerate(order), enumerate([None] if single else times), enumerate(jones)):
            g = np.array([gain(a, j, t, k, salt) for k in range(nf)])
            f = np.array([any(gflag(flags, a, j, x, k) for x in (times if t is None else [t])) for k in range(nf)])
            c.gain_array[i, :, n, p], c.flag_array[i, :, n, p] = g, f
            for x in times if t is None else [t]:
                tab[a, j, x] = (g, f)
        if scale:
            c.gain_scale, c.pol_convention = scale, "avg"
        if name is not None:
            c.extra_keywords["filename"] = json.dumps(name)
        _C[key] = (c, tab)
    c, tab = _C[key]
    return c.copy(), tab


def cells(u, times=TIMES):
    """{(bl, pol, t): (data, flags, nsamples)} for all rows of a UVData object."""
    out = {}
    dt = B.DT
    for row in range(u.Nblts):
        t = round((u.time_array[row] - B.T0) / dt)
        for p, pol in enumerate(u.polarization_array):
            k = ((int(u.ant_1_array[row]), int(u.ant_2_array[row])), int(pol), t)
            assert k not in out
            out[k] = (u.data_array[row, :, p].copy(), u.flag_array[row, :, p].copy(), u.nsample_array[row, :, p].copy(), float(u.integration_time[row]))
    return out


def applied(tab, conv, cal_flag, want):
    """The defining formula on a cell table."""
    out = {}
    for (bl, pol, t), (v, f, n, dt) in want.items():
        j1, j2 = FEED[pol]
        (g1, f1), (g2, f2) = tab[bl[0], j1, t], tab[bl[1], j2, t]
        g = g1 * g2.conj()
        out[bl, pol, t] = (v / g if conv == "divide" else v * g, f | f1 | f2 if cal_flag else f, n, dt, (f1 | f2) & bool(cal_flag))
    return out


def same(got, want):
    """None, or what differs (values of samples that the calibration flagged are not compared)."""
    if set(got) != set(want):
        return ("cells", sorted(set(got) ^ set(want))[:3])
    for k, w in want.items():
        g = got[k]
        ok = ~w[4] if len(w) > 4 else np.ones(len(w[0]), bool)
        if not np.array_equal(g[0][ok], w[0][ok]):
            return ("data", k, g[0].tolist(), w[0].tolist())
        if not np.array_equal(g[1], w[1]):
            return ("flags", k, g[1].tolist(), w[1].tolist())
        if not np.array_equal(g[2], w[2]) or g[3] != w[3]:
            return ("nsamples", k, g[2].tolist(), w[2].tolist())
    return None


# ------------------------------------------------------------------ domains
def dflags(bl, pol, t, nf):
    f = np.zeros(nf, bool)
    if bl == (0, 1) and t == 1:
        f[3] = True
    return f


def nsamp(bl, pol, t, nf):
    return 1.0 + (bl[1] + t + (pol == -6)) % 3


DOM = dict(
    conv=("divide", "multiply"), cal_flag=(True, False), jones=((-5, -6), (-6, -5)), ants=("same", "more", "back"), single=(False, True), order=("time", "bl"),
    pols=((-5, -6), (-6, -5), (-6,), (-5, -6, -7, -8)), flags=("none", "one", "ant", "time"), std=("none", "own", "self"), scale=(None, "Jy"),
)


def singles(tier):
    keys = list(DOM)
    out = []
    for v in itertools.product(*DOM.values()):
        c = dict(zip(keys, v))
        if tier != "thorough" and (c["order"] == "bl") != (c["scale"] is not None):
            continue
        if tier != "thorough" and c["ants"] == "back" and c["single"]:
            continue
        out.append(c)
    return out


# spellings of an addition: (form, datasets, error sets, calibrations)
FORMS = [(f, d, s, c) for f in ("list", "tuple", "dict", "shuffled") for d, s, c in (
    ("a", "-", "A"), ("ab", "--", "AB"), ("ab", "--", "BA"), ("ab", "--", "-B"), ("aa", "--", "AA"), ("aa", "--", "AB"), ("ab", "bc", "AB"), ("ab", "ab", "AB"), ("ab", "cc", "B-"), ("ab", "--", "--"))]
FORMS += [("bare", "a", "-", "A"), ("bare", "b", "c", "B"), ("all", "ab", "--", "A"), ("all", "aa", "ca", "B"), ("none", "ab", "--", "--")]
CALNAME = {"A": "file_a.calfits", "B": None}

RUN = dict(
    cals=("obj", "objs", "tuple", "file", "files", "lists", "glob", "globs"), src=(None, "file"), n=(1, 2), std=(False, True), inter=(False, True), pairs=(None, "self"), cal_flag=(True, False), mk=(False, True),
    flags=("none", "one"),
)


def runs(tier):
    out = []
    for v in itertools.product(*RUN.values()):
        c = dict(zip(RUN, v))
        if c["inter"] and (c["n"] != 1 or c["pairs"]) or (c["n"] == 1 and c["pairs"]):
            continue
        dev = (c["src"] is not None) + c["std"] + c["inter"] + (c["pairs"] is not None) + (c["n"] != 2) * (not c["inter"]) + c["mk"] + (not c["cal_flag"]) + (c["flags"] == "none")
        if dev > (1 if tier != "thorough" else 9):
            continue
        out.append(c)
    return out


def tasks(tier, seed):
    U.warm()
    k = 16
    s, r = singles(tier), runs(tier)
    seqs = [list(x) for d in ((1, 2) if tier != "thorough" else (1, 2, 3)) for x in itertools.product(range(len(FORMS)), repeat=d)]
    if tier == "thorough":
        seqs = [x for x in seqs if len(x) < 3 or all(i < 10 or i >= 40 for i in x)]
    elif len(seqs) > 400:
        seqs = [x for x in seqs if len(x) < 2 or x[0] % 10 == x[0] or x[1] >= 40 or x[0] >= 40]
    out = [dict(mode="one", cfgs=s[i::k]) for i in range(k)]
    out += [dict(mode="seq", seqs=seqs[i::k], flag=i % 2) for i in range(k)]
    out += [dict(mode="run", cfgs=r[i::k]) for i in range(k)]
    return out + [dict(mode="refuse")]


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if task["mode"] == "one":
            for c in task["cfgs"]:
                one(rec, dict(c), dict(mode="one", cfgs=[c]))
        elif task["mode"] == "seq":
            for s in task["seqs"]:
                seq(rec, s, task["flag"], dict(mode="seq", seqs=[s], flag=task["flag"]))
        elif task["mode"] == "run":
            for c in task["cfgs"]:
                driver(rec, dict(c), dict(mode="run", cfgs=[c]))
        else:
            refuse(rec, task)


# ------------------------------------------------------------------ one dataset
def data(salt, pols=(-5, -6), order="time", units="Jy", nf=NF, bls=BLS, times=TIMES):
    return U.cached(bls=bls, times=times, nf=nf, pols=pols, salt=salt, order=order, units=units, flags=dflags, nsamp=nsamp, ants=tuple(range(6)))


def one(rec, c, tr):
    from hera_pspec import PSpecData

    d = data(0, c["pols"], c["order"], "uncalib" if c["scale"] else "Jy")
    s = {"none": None, "own": data(1, c["pols"], c["order"], "uncalib" if c["scale"] else "Jy"), "self": d}[c["std"]]
    ants = {"same": (0, 1, 2), "more": (0, 1, 2, 3, 5), "back": (0, 1, 2)}[c["ants"]]
    obj, tab = cal(jones=c["jones"], ants=ants, single=c["single"], conv=c["conv"], flags=c["flags"], scale=c["scale"], reverse=c["ants"] == "back")
    keep = obj.copy()
    w0 = cells(d)
    want = applied(tab, c["conv"], c["cal_flag"], w0)
    wstd = None if s is None else applied(tab, c["conv"], c["cal_flag"], cells(s))
    ok, ds = rec.attempt("one", PSpecData, [d], [None], dsets_std=None if s is None else [s], cals=[obj], cal_flag=c["cal_flag"], trace=tr)
    rec.step()
    rec.trace()
    if not ok:
        return
    df = same(cells(ds.dsets[0]), want)
    rec.expect(df is None, f"one:{df and df[0]}", df, tr)
    if s is not None:
        df = same(cells(ds.dsets_std[0]), wstd)
        rec.expect(df is None, f"one:std:{df and df[0]}", df, tr)
    else:
        rec.expect(ds.dsets_std[0] is None, "one:std", "an error set appeared", tr)
    rec.expect(ds.dsets[0].vis_units == "Jy", "one:units", ds.dsets[0].vis_units, tr)
    rec.expect(all(np.array_equal(getattr(obj, k), getattr(keep, k)) for k in ("gain_array", "flag_array", "jones_array", "ant_array", "gain_convention")), "one:cal", "the calibration object was changed", tr)
    # keys read the calibrated data
    pol = U.POL[c["pols"][0]]
    x = ds.x((0, (0, 1), pol))
    w = np.array([want[(0, 1), c["pols"][0], t][0] for t in TIMES]).T
    ok = ~np.array([want[(0, 1), c["pols"][0], t][4] for t in TIMES]).T
    rec.expect(x.shape == w.shape and np.array_equal(x[ok], w[ok]), "one:x", "x() does not return the calibrated visibilities", tr)
    rec.state(tuple(np.round(x.ravel(), 9)))
    rec.outcome((c["conv"], c["cal_flag"], c["flags"]))


# ------------------------------------------------------------------ histories of additions
def seq(rec, forms, flag, tr):
    from hera_pspec import PSpecData

    objs = {k: data(i) for i, k in enumerate("abc")}
    raw = {k: cells(v) for k, v in objs.items()}
    cals = {k: cal(flags="one" if k == "A" else "time", salt=i, name=CALNAME[k]) for i, k in enumerate("AB")}
    ds = None
    rows = []  # (dataset table, error table or None, calibration name)
    for n, fi in enumerate(forms):
        form, d, s, c = FORMS[fi]
        dl, sl, cl = [objs[x] for x in d], [objs.get(x) for x in s], [cals[x][0] if x in cals else None for x in c]
        labels = [f"l{n}{i}" for i in range(len(d))]
        wl = [None] * len(d)
        if form == "bare":
            a, k = (dl[0],), dict(wgts=None, dsets_std=sl[0], cals=cl[0])
        elif form in ("list", "tuple"):
            f = list if form == "list" else tuple
            a, k = (f(dl),), dict(wgts=wl, dsets_std=f(sl), cals=f(cl))
        elif form in ("dict", "shuffled"):
            v = (lambda x: dict(zip(labels, x))) if form == "dict" else (lambda x: dict(list(zip(labels, x))[::-1]))
            a, k = (dict(zip(labels, dl)),), dict(wgts=v(wl), dsets_std=v(sl), cals=v(cl))
        elif form == "all":
            a, k = (dl,), dict(wgts=wl, dsets_std=sl, cals=cl[0])
            c = c * len(d)
        else:
            a, k = (dl,), dict(wgts=wl)
        before = {m: list(v) if isinstance(v, list) else v for m, v in k.items()}
        k["cal_flag"] = bool(flag)
        if ds is None and form != "bare":
            ok, ds = rec.attempt("seq:new", PSpecData, *a, trace=tr, **k)
        else:
            ds = PSpecData() if ds is None else ds
            ok, _ = rec.attempt("seq:add", ds.add, *a, trace=tr, **k)
        rec.step()
        if not ok:
            return
        for m, v in before.items():
            rec.expect(not isinstance(v, list) or (len(k[m]) == len(v) and all(x is y for x, y in zip(k[m], v))), "seq:args", f"the caller's list {m} was changed", tr)
        for x, y, z in zip(d, s, c):
            f = (lambda t, z=z: applied(cals[z][1], "divide", flag, t)) if z in cals else (lambda t: t)
            rows.append((f(raw[x]), f(raw[y]) if y in raw else None, CALNAME.get(z, 0) if z in cals else 0))
    rec.trace()
    rec.expect(len(ds.dsets) == len(ds.dsets_std) == len(rows), "seq:count", (len(ds.dsets), len(rows)), tr)
    for i, (w, ws, nm) in enumerate(rows):
        df = same(cells(ds.dsets[i]), w)
        rec.expect(df is None, f"seq:{df and df[0]}", f"dataset {i}: {df}", tr)
        if ws is None:
            rec.expect(ds.dsets_std[i] is None, "seq:std", f"dataset {i} got an error set", tr)
        else:
            df = same(cells(ds.dsets_std[i]), ws)
            rec.expect(df is None, f"seq:std:{df and df[0]}", f"errors of dataset {i}: {df}", tr)
        kw = ds.dsets[i].extra_keywords
        if nm == 0:
            rec.expect(json.loads(kw.get("calibration", '""')) == "", "seq:name", f"dataset {i}: {kw}", tr)
        else:
            rec.expect(json.loads(kw.get("calibration", '"?"')) == (nm or ""), "seq:name", f"dataset {i}: {kw}, calibrated with {nm}", tr)
    # the caller's own objects are never calibrated behind their back (they may be added again)
    for k, o in objs.items():
        df = same(cells(o), raw[k])
        rec.expect(df is None, "seq:caller", f"the caller's dataset was changed: {df}", tr)
    rec.state(tuple(np.round(np.concatenate([x.data_array.ravel()[:12] for x in ds.dsets]), 9)))


# ------------------------------------------------------------------ the driver
RBLS = ((0, 1), (1, 2), (0, 2), (1, 3))
RN, RT = 5, 4
RTIMES = tuple(range(RT))
EXPL = [((0, 1), (1, 2)), ((0, 1), (0, 1)), ((0, 2), (1, 3))]


def rdata(salt, units):
    return U.cached(bls=RBLS, times=RTIMES, nf=RN, pols=(-5, -6), salt=salt, order="time", units=units, flags=dflags, nsamp=nsamp, ants=tuple(range(6)))


def rcal(i, flags, times=RTIMES):
    return cal(nf=RN, ants=(0, 1, 2, 3), times=times, flags=flags, salt=i, scale="Jy")


_FILES = {}


def scratch():
    if "dir" not in _FILES:
        import atexit

        _FILES["dir"] = fresh()
        atexit.register(shutil.rmtree, _FILES["dir"], True)
    return _FILES["dir"]


def calfiles(i, flags, parts):
    key = ("cal", i, flags, parts)
    if key not in _FILES:
        out = []
        for j, t in enumerate((RTIMES[:2], RTIMES[2:]) if parts else (RTIMES,)):
            f = os.path.join(scratch(), f"c{i}.{flags}.{'part%d' % j if parts else 'all'}.calfits")
            # one full calibration is cut, so that its parts agree with it
            c = rcal(i, flags)[0]
            if parts:
                tt = np.unique(c.time_array)
                c = c.select(times=tt[list(t)], inplace=False)
            c.write_calfits(f)
            out.append(f)
        _FILES[key] = out
    return _FILES[key]


def datafiles(i, std):
    key = ("data", i, std)
    if key not in _FILES:
        f = os.path.join(scratch(), f"{'s' if std else 'd'}{i}.uvh5")
        rdata(i + 5 * std, "uncalib").write_uvh5(f)
        _FILES[key] = f
    return _FILES[key]


def beam():
    from mc.checks import c24

    return c24.beam()


def driver(rec, c, tr):
    from hera_pspec import PSpecContainer, pspecdata

    n = c["n"]
    one_for_all = c["cals"] in ("obj", "file", "glob")
    which = [0 if one_for_all else i for i in range(n)]
    fl = c["flags"]
    stem = lambda i: os.path.join(scratch(), f"c{i}.{fl}.part*.calfits")  # noqa: E731
    if c["cals"] in ("lists", "glob", "globs"):
        for i in range(n):
            calfiles(i, fl, True)
    cals = {
        "obj": lambda: rcal(0, fl)[0], "objs": lambda: [rcal(i, fl)[0] for i in range(n)], "tuple": lambda: tuple(rcal(i, fl)[0] for i in range(n)),
        "file": lambda: calfiles(0, fl, False)[0], "files": lambda: [calfiles(i, fl, False)[0] for i in range(n)], "lists": lambda: [list(calfiles(i, fl, True)) for i in range(n)],
        "glob": lambda: stem(0), "globs": lambda: [stem(i) for i in range(n)],
    }[c["cals"]]()
    names = [None if c["cals"] in ("obj", "objs", "tuple") else cals if one_for_all else cals[i] for i in range(n)]
    kw = dict(dset_labels=["aa", "bb"][:n], interleave_times=c["inter"], verbose=False, blpairs=[tuple(b) for b in EXPL], store_cov=True, cov_model="dsets" if c["std"] else "empirical", taper="hann")
    if c["pairs"]:
        kw["dset_pairs"] = [(0, 0), (1, 0)]
    if c["mk"]:
        kw.update(beam=beam(), Jy2mK=True)

    def load(i, std):
        if c["src"] == "file":
            from pyuvdata import UVData

            u = UVData()
            u.read(datafiles(i, std))
            return u
        return rdata(i + 5 * std, "uncalib")

    def calibrated(i, std):
        u = load(i, std)
        w = applied(rcal(which[i], fl)[1], "divide", c["cal_flag"], cells(u))
        for row in range(u.Nblts):
            t = round((u.time_array[row] - B.T0) / B.DT)
            for p, pol in enumerate(u.polarization_array):
                v = w[(int(u.ant_1_array[row]), int(u.ant_2_array[row])), int(pol), t]
                u.data_array[row, :, p], u.flag_array[row, :, p] = v[0], v[1]
        u.vis_units = "Jy"
        u.pol_convention = "avg"
        return u

    d = fresh()
    try:
        f, g = os.path.join(d, "a.h5"), os.path.join(d, "b.h5")
        src = [load(i, 0) for i in range(n)] if c["src"] is None else [datafiles(i, 0) for i in range(n)]
        std = None if not c["std"] else [load(i, 1) for i in range(n)] if c["src"] is None else [datafiles(i, 1) for i in range(n)]
        more = dict(file_type="uvh5") if c["src"] else {}
        ok, _ = rec.attempt("run", pspecdata.pspec_run, src, f, cals=cals, cal_flag=c["cal_flag"], dsets_std=std, trace=tr, **more, **kw)
        ok2, _ = rec.attempt("run:ref", pspecdata.pspec_run, [calibrated(i, 0) for i in range(n)], g, dsets_std=[calibrated(i, 1) for i in range(n)] if c["std"] else None, trace=tr, **kw)
        rec.step(2)
        rec.trace()
        if not (ok and ok2 and rec.expect(os.path.exists(f) and os.path.exists(g), "run:file", "no container was written", tr)):
            return
        p, q = PSpecContainer(f, mode="r", keep_open=False), PSpecContainer(g, mode="r", keep_open=False)
        a, b = p.tree(return_str=False), q.tree(return_str=False)
        rec.expect({k: sorted(v) for k, v in a.items()} == {k: sorted(v) for k, v in b.items()} and a, "run:names", (a, b), tr)
        for gr in b:
            for nm in b[gr]:
                if nm not in a.get(gr, []):
                    continue
                u, v = p.get_pspec(gr, nm), q.get_pspec(gr, nm)
                df = T.attr_diff(T.attrs(u, ("history", "symmetric_taper")), T.attrs(v, ("history", "symmetric_taper")))
                rec.expect(df is None, f"run:{df and df[0]}", (nm, df and df[1]), tr)
                for i, lab in enumerate(["aa", "bb"][:n]):
                    if lab in nm and names[i] is not None:
                        for w in [names[i]] if isinstance(names[i], str) else names[i]:
                            rec.expect(w in u.history, "run:history", f"{nm}: calibration {w} is not in the history", tr)
                rec.state(tuple(np.round(np.array([np.abs(x).sum() for x in u.data_array.values()]), 6)) + (nm,))
                rec.outcome((c["cals"], nm))
    finally:
        shutil.rmtree(d)


def refuse(rec, task):
    from hera_pspec import PSpecData, pspecdata

    A, Bc = cal()[0], cal(salt=1)[0]
    bad = [
        (dict(dsets=[data(0)], wgts=[None], cals=[A, Bc]), "two calibrations for one dataset"),
        (dict(dsets=[data(0), data(1)], wgts=[None, None], cals=[A, "x"]), "a calibration that is none"),
        (dict(dsets={"a": data(0)}, wgts={"a": None}, cals=[A]), "a list for a dict"),
        (dict(dsets=[data(0)], wgts=[None], cals="x"), "a string"),
        (dict(dsets=[data(0)], wgts=[None], cals=[cal(jones=(-5,))[0]]), "a missing feed"),
        (dict(dsets=[data(0)], wgts=[None], cals=[cal(ants=(0, 1))[0]]), "a missing antenna"),
        (dict(dsets=[data(0)], wgts=[None], cals=[cal(times=(0, 1))[0]]), "missing times"),
    ]
    for i, (kw, why) in enumerate(bad):
        old = PSpecData([data(2)], [None], labels=["old"])
        rec.expect(rec.raises(old.add, **kw), "refuse", f"accepted {why}", task)
        rec.expect(len(old.dsets) == len(old.wgts) == len(old.dsets_std) == len(old.labels) == 1 and same(cells(old.dsets[0]), cells(data(2))) is None, "refuse:state", f"a refused addition ({why}) changed the container", task)
        rec.step(2)
        rec.state((i, why))
    d = fresh()
    try:
        for i, c in enumerate((["a"], [A, None], [os.path.join(d, "nofile.calfits")] * 2, [rcal(0, "none")[0]])):
            f = os.path.join(d, f"r{i}.h5")
            rec.expect(rec.raises(pspecdata.pspec_run, [rdata(0, "uncalib"), rdata(1, "uncalib")], f, cals=c, verbose=False), "refuse:run", f"accepted calibrations {i}", task)
            rec.expect(not os.path.exists(f), "refuse:file", "a refused run left a container", task)
            rec.step()
    finally:
        shutil.rmtree(d)
    rec.trace()
    rec.outcome("refused")
