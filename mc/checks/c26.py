"""C26 - pseudo-Stokes visibilities are the documented combination of the cells with equal labels."""

import itertools
import os
import shutil
import subprocess
import sys
import warnings

import numpy as np

from mc import build as B
from mc import uvd as V
from mc.pscutil import fresh

PID = "C26"
LEVEL = "model_checking"
RULE = (
    "Every pair of polarization lists (each non-empty subset of {XX, YY, XY, YX} in two orders) for the two datasets x four "
    "pseudo-Stokes parameters (integer and string) x polarization conventions x flag patterns x sample-count patterns with zeros: "
    "each cell of the result is compared with the documented combination written per label. All single-axis mismatches of the "
    "datasets must be refused. Array combination with every subset of the three inputs, files in place of objects, selection of "
    "datasets by polarization for all orders, and the command-line script with its options."
)
ASSUMPTIONS = ["values are small integers, so that the combination is exact", "files carry data and flags; sample counts are compared for objects only"]

W = {1: ((-5, 1), (-6, 1)), 2: ((-5, 1), (-6, -1)), 3: ((-7, 1), (-8, 1)), 4: ((-7, -1j), (-8, 1j))}
NAME = {1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
LIN = (-5, -6, -7, -8)
BLS = ((0, 1), (1, 2), (0, 0))
TIMES = (0, 1)
NF = 3


def fl(pat):
    def f(bl, pol, t, nf):
        out = np.zeros(nf, bool)
        if pat == "some":
            for k in range(nf):
                out[k] = B.h("fl", bl, pol, t, k) % 3 == 0
        elif pat == "one":
            out[:] = pol in (-5, -8) and t == 1
        return out

    return None if pat == "none" else f


def ns(pat):
    def f(bl, pol, t, nf):
        out = np.ones(nf)
        for k in range(nf):
            x = B.h("ns", bl, pol, t, k) % 5
            out[k] = x if pat == "zero" else x + 1
        return out

    return None if pat == "ones" else f


def make(pols, salt, pat="none", nsp="ones", conv=None, times=TIMES, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k = ("c26", pols, salt, pat, nsp, times, tuple(sorted(kw.items())))
        if k not in V._CACHE:
            V._CACHE[k] = V.uvdata(bls=kw.get("bls", BLS), times=times, nf=kw.get("nf", NF), pols=pols, salt=salt, flags=fl(pat), nsamp=ns(nsp), chan0=kw.get("chan0", 1e8))
        u = V.light(V._CACHE[k])
    u.pol_convention = conv
    return u


def cells(u):
    """label -> (data, flag, nsample)"""
    out = {}
    for r in range(u.Nblts):
        bl = (int(u.ant_1_array[r]), int(u.ant_2_array[r]))
        t = round((u.time_array[r] - B.T0) / B.DT)
        for p, pol in enumerate(u.polarization_array):
            for k in range(u.Nfreqs):
                out[bl, t, int(pol), k] = (complex(u.data_array[r, k, p]), bool(u.flag_array[r, k, p]), float(u.nsample_array[r, k, p]))
    return out


def combine(c1, c2, ps, conv):
    (p1, w1), (p2, w2) = W[ps]
    out = {}
    for (bl, t, pol, k), (d1, f1, n1) in c1.items():
        if pol != p1:
            continue
        d2, f2, n2 = c2[bl, t, p2, k]
        d = w1 * d1 + w2 * d2
        if conv == "avg":
            d *= 0.5
        ok = n1 > 0 and n2 > 0
        out[bl, t, ps, k] = (d, f1 or f2 or not ok, 4 / (1 / n1 + 1 / n2) if ok else 0.0)
    return out


def differs(got, want, samples=True):
    if set(got) != set(want):
        return f"cells differ: extra {sorted(set(got) - set(want))[:3]}, missing {sorted(set(want) - set(got))[:3]}"
    for k, (d, f, n) in want.items():
        a, b, c = got[k]
        if abs(a - d) > 1e-9 or b != f or (samples and abs(c - n) > 1e-6):
            return f"{k}: {got[k]}, expected {want[k]}"
    return None


def snap(u):
    return (u.data_array.tobytes(), u.flag_array.tobytes(), u.nsample_array.tobytes(), u.time_array.tobytes(), tuple(u.polarization_array), u.history, u.pol_convention, u.Npols, u.extra_keywords == {} or repr(u.extra_keywords))


def polsets():
    out = []
    for n in range(1, 5):
        for s in itertools.combinations(LIN, n):
            out.append(s)
            if n > 1:
                out.append(s[::-1])
    return out


def run_pairs(rec, task):
    from hera_pspec import pstokes

    sets = polsets()
    p1 = sets[task["i"]]
    full = task["tier"] == "thorough"
    for j, p2 in enumerate(sets):
        for ps in W:
            can = W[ps][0][0] in p1 and W[ps][1][0] in p2
            for ci, (conv1, conv2) in enumerate(itertools.product((None, "avg", "sum"), repeat=2)):
                for pi, (pat, nsp) in enumerate(itertools.product(("none", "some", "one"), ("ones", "many", "zero"))):
                    if not full and ((ci + pi + j + ps) % 9 if can else ci + pi):
                        continue
                    u1, u2 = make(p1, 1, pat, nsp, conv1), make(p2, 2, pat, nsp, conv2)
                    s1, s2 = snap(u1), snap(u2)
                    arg = NAME[ps] if (ci + pi) % 2 else ps
                    tr = dict(pols1=p1, pols2=p2, pstokes=arg, conv=[conv1, conv2], flags=pat, nsamples=nsp)
                    rec.step()
                    rec.trace()
                    okc = can and (conv1 or "avg") == (conv2 or "avg")
                    if not okc:
                        rec.expect(rec.raises(pstokes.construct_pstokes, u1, u2, arg), "refuse", "missing polarization or conflicting conventions accepted", tr)
                    else:
                        ok, u = rec.attempt("construct", pstokes.construct_pstokes, u1, u2, pstokes=arg, history="xhist", trace=tr)
                        if ok:
                            want = combine(cells(u1), cells(u2), ps, conv1 or "avg")
                            d = differs(cells(u), want)
                            rec.expect(d is None, "cells", d, tr)
                            rec.expect(list(u.polarization_array) == [ps] and u.Npols == 1, "pol", f"{u.polarization_array}", tr)
                            rec.expect(np.array_equal(u.freq_array, u1.freq_array) and u.vis_units == u1.vis_units and np.array_equal(u.lst_array, u1.lst_array) and np.array_equal(u.integration_time, u1.integration_time) and u.pol_convention == (conv1 or "avg"), "metadata", "", tr)
                            rec.expect("xhist" in u.history and u1.history in u.history and u2.history in u.history, "history", u.history, tr)
                            rec.state(sorted((k, v) for k, v in cells(u).items()))
                    rec.expect(snap(u1) == s1 and snap(u2) == s2, "inputs", "an input dataset changed", tr)
                    rec.outcome((p1, p2, ps, conv1, conv2, okc))
    # one object for both, as the script does
    if set(p1) == set(LIN):
        for ps, pat, nsp in itertools.product(W, ("none", "some", "one"), ("ones", "zero")):
            u1 = make(p1, 1, pat, nsp)
            ok, u = rec.attempt("same", pstokes.construct_pstokes, u1, u1, ps, trace=task)
            rec.step()
            rec.trace()
            if ok:
                d = differs(cells(u), combine(cells(u1), cells(u1), ps, "avg"))
                rec.expect(d is None, "same:cells", d, dict(task, pstokes=ps, flags=pat, nsamples=nsp))
    rec.sample(f"{task} {p1}")
    if task["i"]:
        return
    # mismatches
    base = dict(pols=(-5, -6, -7, -8), salt=1)
    for name, kw in dict(times=dict(times=(0, 2)), fewer=dict(times=(0,)), bls=dict(bls=((0, 1), (1, 3), (0, 0))), order=dict(bls=((1, 2), (0, 1), (0, 0))), nf=dict(nf=4), freqs=dict(chan0=1.001e8)).items():
        rec.step()
        for a, b in ((make(**base), make(**{**base, **kw})), (make(**{**base, **kw}), make(**base))):
            rec.expect(rec.raises(pstokes.construct_pstokes, a, b, 1), "refuse:" + name, "datasets that differ were combined", dict(mismatch=name))


def run_arrays(rec, task):
    from hera_pspec import pstokes

    rs = np.random.RandomState(0)
    shape = (2, 3)
    d = [rs.randint(-9, 9, shape) + 1j * rs.randint(-9, 9, shape) for _ in range(2)]
    f = [rs.randint(0, 2, shape).astype(bool) for _ in range(2)]
    n = [rs.randint(0, 4, shape).astype(float) for _ in range(2)]
    for ps in W:
        (p1, w1), (p2, w2) = W[ps]
        for swap in (False, True):
            for hd, hf, hn in itertools.product((0, 1), repeat=3):
                for conv in ("avg", "sum"):
                    for asstr in (0, 1):
                        a, b = (p2, p1) if swap else (p1, p2)
                        x, y = (w2, w1) if swap else (w1, w2)
                        tr = dict(pstokes=ps, pols=[a, b], data=hd, flags=hf, nsamples=hn, conv=conv)
                        args = (V.POL[a], V.POL[b], NAME[ps]) if asstr else (a, b, ps)
                        ok, r = rec.attempt("arrays", pstokes._combine_pol_arrays, *args, pol_convention=conv, data_list=d if hd else None, flags_list=f if hf else None, nsamples_list=n if hn else None, trace=tr)
                        rec.step()
                        rec.trace()
                        if not ok:
                            continue
                        gd, gf, gn = r
                        rec.expect((gd is None) == (not hd) and (gf is None) == (not hf) and (gn is None) == (not hn), "arrays:none", "", tr)
                        if hd:
                            rec.expect(np.allclose(gd, (x * d[0] + y * d[1]) * (0.5 if conv == "avg" else 1)), "arrays:data", f"{gd}", tr)
                        val = (n[0] > 0) & (n[1] > 0)
                        if hn:
                            e = np.zeros(shape)
                            e[val] = 4 / (1 / n[0][val] + 1 / n[1][val])
                            rec.expect(np.allclose(gn, e), "arrays:nsamples", f"{gn}", tr)
                        if hf:
                            rec.expect(np.array_equal(gf, f[0] | f[1] | (~val if hn else False)), "arrays:flags", f"{gf}", tr)
                        rec.state((ps, swap, hd, hf, hn, conv))
        for bad in LIN:
            if bad not in (p1, p2):
                rec.step()
                rec.expect(rec.raises(pstokes._combine_pol_arrays, bad, p2, ps, "avg", d, f, n), "arrays:refuse", "", dict(pol=bad, pstokes=ps))
        rec.expect(rec.raises(pstokes._combine_pol_arrays, p1, p2, ps, "mean", d, f, n), "arrays:refuse-conv", "", dict(pstokes=ps))
    for k in range(2, 5):
        for order in itertools.permutations(LIN, k):
            ds = [make((p,), 1) for p in order]
            for ps in W:
                rec.step()
                rec.trace()
                p1, p2 = W[ps][0][0], W[ps][1][0]
                tr = dict(order=order, pstokes=ps)
                for arg in (ps, NAME[ps]):
                    if p1 in order and p2 in order:
                        ok, r = rec.attempt("filter", pstokes.filter_dset_on_stokes_pol, list(ds), arg, trace=tr)
                        if ok:
                            rec.expect(len(r) == 2 and r[0] is ds[order.index(p1)] and r[1] is ds[order.index(p2)], "filter", f"{[u.polarization_array for u in r]}", tr)
                    else:
                        rec.expect(rec.raises(pstokes.filter_dset_on_stokes_pol, list(ds), arg), "filter:refuse", "", tr)


def run_files(rec, task):
    from hera_pspec import pstokes

    root = fresh()
    try:
        u = {s: make(LIN, s, "some", "ones", None) for s in (1, 2)}
        p = {}
        for s in u:
            p[s] = os.path.join(root, f"u{s}.miriad")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                u[s].write_miriad(p[s])
                u[s] = type(u[s])()
                u[s].read_miriad(p[s])
        for ps, a1, a2, asstr in itertools.product(W, (0, 1), (0, 1), (0, 1)):
            arg = NAME[ps] if asstr else ps
            sels = [{}]
            if a1 and a2:
                sels += [dict(bls=[(0, 1)]), dict(antenna_nums=[0, 1]), dict(ant_str="auto"), dict(time_range=[B.jd(0.5), B.jd(1.5)]), dict(polarizations=[W[ps][0][0], W[ps][1][0]])]
            for sel in sels:
                tr = dict(pstokes=arg, files=[a1, a2], **sel)
                ok, r = rec.attempt("files", pstokes.construct_pstokes, p[1] if a1 else u[1], p[2] if a2 else u[2], pstokes=arg, run_check=False, trace=tr, **sel)
                rec.step()
                rec.trace()
                if not ok:
                    continue
                want = combine(cells(u[1]), cells(u[2]), ps, "avg")
                if "bls" in sel:
                    want = {k: v for k, v in want.items() if k[0] == (0, 1)}
                if "antenna_nums" in sel:
                    want = {k: v for k, v in want.items() if set(k[0]) <= {0, 1}}
                if "ant_str" in sel:
                    want = {k: v for k, v in want.items() if k[0][0] == k[0][1]}
                if "time_range" in sel:
                    want = {k: v for k, v in want.items() if k[1] == 1}
                d = differs(cells(r), want, samples=False)
                rec.expect(d is None, "files:cells", d, tr)
                rec.state((ps, a1, a2, sorted(sel)))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_script(rec, task):
    import hera_pspec
    from pyuvdata import UVData

    src = os.path.dirname(os.path.dirname(os.path.dirname(hera_pspec.__file__)))
    script = os.path.join(src, "scripts", "generate_pstokes_run.py")
    root = fresh()
    try:
        jobs = []
        for i, (argv, out, keep) in enumerate([([], None, False), (["--pstokes", "pI", "pQ", "pU", "pV"], "o.uvh5", False), (["--keep_vispols", "--pstokes", "pV", "pI"], "o.uvh5", True), (["--keep_vispols"], None, True)]):
            d = os.path.join(root, f"d{i}")
            os.mkdir(d)
            u = make(LIN, 3, "some", "many", bls=((0, 1), (1, 2), (2, 3)))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                u.write_uvh5(os.path.join(d, "in.uvh5"))
            cmd = [sys.executable, script, "in.uvh5", "--clobber"] + (["--outputdata", out] if out else []) + argv
            jobs.append((d, argv, out, keep, u, subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for d, argv, out, keep, u, p in jobs:
            log = p.communicate()[0]
            rec.step()
            rec.trace()
            tr = dict(argv=argv)
            if not rec.expect(p.returncode == 0, "script:exit", log[-900:], tr):
                continue
            r = UVData()
            r.read_uvh5(os.path.join(d, out or "in.uvh5"))
            ask = [k for k in W if NAME[k] in argv] or [1]
            want = dict(cells(u)) if keep else {}
            for ps in ask:
                want.update(combine(cells(u), cells(u), ps, "avg"))
            e = differs(cells(r), want)
            rec.expect(e is None, "script:cells", e, tr)
            if out:
                s = UVData()
                s.read_uvh5(os.path.join(d, "in.uvh5"))
                rec.expect(differs(cells(s), cells(u)) is None, "script:input", "the input file changed", tr)
            rec.state(("script", tuple(argv), out))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def tasks(tier, seed):
    V.warm()
    return [dict(mode="script"), dict(mode="files"), dict(mode="arrays")] + [dict(mode="pairs", i=i, tier=tier) for i in range(len(polsets()))]


def run(task, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"pairs": run_pairs, "arrays": run_arrays, "files": run_files, "script": run_script}[task["mode"]](rec, task)
