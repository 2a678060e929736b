"""C34 - plots draw the requested spectra, and only those, at their own coordinates; the object is left alone."""

import itertools
import os
import re
import shutil
import warnings

import numpy as np

from mc import build as B
from mc import pscutil
from mc import table as T
from mc import uvd as V

PID = "C34"
LEVEL = "model_checking"
RULE = (
    "Over reduced (thorough: full) domains of each option: delay_spectrum: every combination of averaging over baseline-pairs and times, folding, axis, Delta^2, time selection, window, polarization and spelling of the baseline-pairs; "
    "every combination of component, lines, markers, errors, scale, statistic, label and title options. delay_waterfall: every combination of component, averaging, folding, axis, Delta^2, log, time "
    "selection, units, spelling, flagged rows. delay_wedge: every combination of baseline-pairs, times, folding, axis, rotation, component, log, Delta^2, tolerance, order of rows. plot_uvdata_waterfalls: array x format x name. "
    "The drawn lines, markers, bars, images, edges, labels and files are compared with the spectra the other (separately checked) operations return. States are drawn pictures; transitions are calls."
)
ASSUMPTIONS = ["the averaging, folding and unit operations a plot is documented to apply are those of UVPSpec (checked by C11, C12, C27)", "integrations are uniformly spaced in a waterfall's LST axis", "horizon and tick decorations only at the settings listed"]
X12, X23, X13, X14, X16 = ((1, 2), (1, 2)), ((1, 2), (2, 3)), ((1, 3), (1, 3)), ((1, 4), (1, 4)), ((1, 6), (1, 6))
SPWS = [(0, 6, 6), (10, 5, 5)]
POLS = [(-5, -5), (-5, -6)]

COMPS = ("real", "imag", "abs", "abs-real", "abs-imag")


def tasks(tier, seed):
    import matplotlib

    matplotlib.use("Agg")
    V.warm()
    full = tier == "thorough"
    out = [dict(mode="lines", a=a, t=t, full=full) for a in (0, 1) for t in (0, 1)] + [dict(mode="style", full=full, part=i) for i in range(3)]
    out += [dict(mode="water", full=full, comp=c) for c in COMPS]
    out += [dict(mode="wedge", full=full, part=i) for i in range(6)] + [dict(mode="uvd", full=full, part=i) for i in range(3)]
    return out


def run(task, rec):
    import matplotlib

    matplotlib.use("Agg")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        globals()["run_" + task["mode"]](task, rec)


def obj(order="bt", blps=(X12, X23, X13), nt=2, flag=False, stats=("P_N",), spws=SPWS, pols=POLS, **kw):
    u = B.uvp(blps=list(blps), tps=[(2 * k, 2 * k) for k in range(nt)], spws=list(spws), pols=list(pols), order=order, stats=list(stats), win=True, omega=True, cosmo=True, **kw)
    if flag:
        # the last time of the first pair is flagged
        r = np.where(u.blpair_array == B.ants_to_blp(blps[0]))[0][-1]
        for s in u.spw_array:
            u.integration_array[s][r] = 0.0
            u.wgt_array[s][r] = 0.0
    return u


def stages(u, groups, times, avg, tavg, fold, dsq):
    """The documented operations, by UVPSpec's own methods."""
    u = u.select(times=times, inplace=False) if times is not None else u.select(blpairs=u.get_blpairs(), inplace=False)
    if avg:
        u.average_spectra(blpair_groups=[[B.ants_to_blp(b) for b in g] for g in groups], time_avg=tavg, inplace=True)
    elif tavg:
        u.average_spectra(time_avg=True, inplace=True)
    if fold:
        u.fold_spectra()
    if dsq:
        u.convert_to_deltasq()
    return u


def ppint(p):
    return p


def eq(a, b, rtol=1e-9):
    a, b = np.ma.filled(np.ma.asarray(a, float), np.nan), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=1e-300, equal_nan=True)


def spelled(combos, full):
    """(combination, spelling of its groups): every spelling, or one in rotation"""
    for c, x in enumerate(combos):
        forms = [f for f in FORMS if "list" in f or all(len(g) == 1 for g in x[-1])]
        for form in forms if full else [forms[(c + c // len(forms)) % len(forms)]]:
            yield x, form


def wipe(*axes):
    """Empty axes without the cost of rebuilding them."""
    for ax in axes:
        for a in list(ax.lines) + list(ax.images) + list(ax.collections) + list(ax.containers):
            try:
                a.remove()
            except (ValueError, NotImplementedError):
                pass
        ax.containers.clear()
        if ax.get_legend() is not None:
            ax.get_legend().remove()
        ax.set_title("")
        ax.set_xlabel("")
        ax.set_ylabel("")
        ax.set_yscale("linear")
        ax.set_prop_cycle(None)
        ax.axis("on")
        fig = ax.get_figure()
        if fig._suptitle is not None:
            fig._suptitle.remove()
            fig._suptitle = None


def picture(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


FORMS = {  # name: (argument, groups)
    "ints": lambda g: [B.ants_to_blp(b) for x in g for b in x],
    "tuples": lambda g: [b for x in g for b in x],
    "lists": lambda g: [[B.ants_to_blp(b) for b in x] for x in g],
    "tuple-lists": lambda g: [list(x) for x in g],
}
GROUPS = [[[X12]], [[X12], [X13]], [[X13], [X23]], [[X12, X23]], [[X12, X23], [X13]], [[X23, X13, X12]]]


def run_lines(task, rec):
    import matplotlib.pyplot as plt

    from hera_pspec import plot

    avg, tavg = bool(task["a"]), bool(task["t"])
    fig, ax = plt.subplots(1, 1)
    objs = {(f, o): obj(order=o, flag=f) for f in (False, True) for o in ("bt", "tb")}
    tables = {k: T.table(u) for k, u in objs.items()}
    full = task["full"]
    tms = [None, [B.jd(0)], [B.jd(0), B.jd(2)]] + ([[B.jd(2)]] if full else [])
    sp = list(itertools.product((0, 1), POLS)) if full else [(0, POLS[1]), (1, POLS[0])]
    combos = spelled(itertools.product((False, True), (True, False), (False, True), tms, sp, GROUPS), full)
    for c, ((fold, delay, dsq, times, (spw, pol), groups), form) in enumerate(combos):
        key = ((c // 5) % 3 == 0, "bt" if c % 2 else "tb")
        u = objs[key]
        tr = dict(average_blpairs=avg, average_times=tavg, fold=fold, delay=delay, deltasq=dsq, times=times, spw=spw, pol=pol, groups=str(groups), form=form, flagged=key[0], order=key[1])
        arg = FORMS[form](groups)
        parg = pol if pol[0] != pol[1] or c % 2 else "xx"
        rec.step()
        rec.trace()
        wipe(ax)
        ok, _ = rec.attempt("lines", plot.delay_spectrum, u, arg, spw, parg, average_blpairs=avg, average_times=tavg, fold=fold, delay=delay, deltasq=dsq, times=times, ax=ax, logscale=False, trace=tr)
        if not ok:
            continue
        v = stages(u, groups, times, avg, tavg, fold, dsq and not delay)
        x = v.get_dlys(spw) * 1e9 if delay else v.get_kparas(spw)
        want = []
        for g in groups:
            for b in g[:1] if avg else g:
                k = (spw, b, pol)
                d = np.array(v.get_data(k).real)
                d[np.isclose(v.get_integrations(k), 0.0)] = np.nan
                want += list(d)
        got = picture(ax)
        rec.expect(len(got) == len(want), "lines:count", f"{len(got)} lines, expected {len(want)}", tr)
        for (gx, gy), w in zip(got, want):
            rec.expect(eq(gx, x), "lines:x", f"{gx} vs {x}", tr)
            rec.expect(eq(gy, w), "lines:y", f"{gy} vs {w}", tr)
        yl, xl = ax.get_ylabel(), ax.get_xlabel()
        rec.expect(("Delta" in yl) == (dsq and not delay), "lines:ylabel", yl, tr)
        rec.expect(("tau" in xl) == delay and ("k_" in xl) == (not delay), "lines:xlabel", xl, tr)
        rec.expect(T.diff(T.table(u), tables[key]) is None, "lines:object-changed", "", tr)
        rec.state(("lines", [g[1] for g in got], x))
    for bad in ([(1, 2)], [[(1, 2), (1, 2)]], ["abc"], [3.5]):
        rec.expect(rec.raises(plot.delay_spectrum, objs[(False, "bt")], bad, 0, "xx", ax=ax), "lines:bad-blpairs", repr(bad))
    # too many spectra are refused unless forced
    big = obj(nt=51, blps=(X12, X13), spws=SPWS[:1], pols=POLS[:1])
    wipe(ax)
    rec.expect(rec.raises(plot.delay_spectrum, big, [X12, X13], 0, "xx", ax=ax, average_blpairs=avg), "lines:many", "102 spectra drawn")
    wipe(ax)
    rec.attempt("lines:forced", plot.delay_spectrum, big, [X12, X13], 0, "xx", ax=ax, average_blpairs=avg, force_plot=True)
    rec.expect(len(ax.lines) == 102, "lines:forced", f"{len(ax.lines)} lines")
    plt.close(fig)


def run_style(task, rec):
    import matplotlib.pyplot as plt

    from hera_pspec import plot

    comp = ("real", "imag", "abs")[task["part"]]
    cast = {"real": np.real, "imag": np.imag, "abs": np.abs}[comp]
    fig, ax = plt.subplots(1, 1)
    u = obj(flag=True, stats=("P_N", "P_SN"))
    one = obj(blps=(X13,), nt=1, stats=("P_N",))
    t0 = T.table(u)
    for c, (lines, markers, err, log, stat, label, legend, tl, which) in enumerate(
        itertools.product((True, False), (False, True), (None, "P_N", "P_SN"), (True, False), (None, "P_N"), ("auto", "key", "blpair", "blpairt"), (False, True), (True, False), (0, 1))
    ):
        if which and err == "P_SN":
            continue
        v = one if which else u
        blps = [X13] if which else [X12, X13]
        pol, spw = POLS[c % 2], (c // 2) % 2
        tr = dict(component=comp, lines=lines, markers=markers, error=err, logscale=log, plot_stats=stat, label_type=label, legend=legend, title_legend=tl, single=which)
        rec.step()
        rec.trace()
        wipe(ax)
        ok, _ = rec.attempt("style", plot.delay_spectrum, v, blps, spw, pol, component=comp, lines=lines, markers=markers, error=err, logscale=log, plot_stats=stat, label_type=label, legend=legend, title_legend=tl, ax=ax, trace=tr)
        if not ok:
            continue
        x = v.get_dlys(spw) * 1e9
        ser = []
        for b in blps:
            k = (spw, b, pol)
            y = cast(np.array(v.get_data(k) if stat is None else v.get_stats(stat, k)))
            e = None if err is None else cast(np.array(v.get_stats(err, k)))
            fl = np.isclose(v.get_integrations(k), 0.0)
            ix = v.blpair_to_indices(b)
            for i in range(len(y)):
                ser.append((np.where(fl[i], np.nan, y[i]), None if e is None else np.where(fl[i], np.nan, e[i]), b, v.time_avg_array[ix][i], v.lst_avg_array[ix][i]))
        want = []
        for y, e, *_ in ser:
            if lines:
                want.append((x, np.abs(y) if log else y, "line"))
            if markers:
                want += [(x[y >= 0], np.abs(y[y >= 0]), "filled"), (x[y < 0], np.abs(y[y < 0]), "empty")] if log else [(x, y, "filled")]
        got = picture(ax)
        # the picture is a set of curves: compare irrespective of the order of drawing
        rec.expect(len(got) == len(want), "style:count", f"{len(got)} vs {len(want)}", tr)
        for j, ((gx, gy), (wx, wy, kind)) in enumerate(zip(got, want)):
            rec.expect(eq(gx, wx) and eq(gy, wy), "style:curve", f"{kind}: {gy} vs {wy}", tr)
            ln = ax.lines[j]
            if kind == "line":
                rec.expect(ln.get_linestyle() not in ("None", "", " "), "style:line", "", tr)
            else:
                face = ln.get_markerfacecolor()
                rec.expect(ln.get_linestyle() in ("None", "", " ") and ln.get_marker() == "o" and (isinstance(face, str) and face.lower() == "none") == (kind == "empty"), "style:marker", f"{kind} {face}", tr)
        segs = [s for col in ax.collections for s in col.get_segments()]
        wsegs = []
        if err is not None:
            for y, e, *_ in ser:
                yy = np.abs(y) if log else y
                wsegs += [(x[i], yy[i], e[i]) for i in range(len(x)) if np.isfinite(yy[i])]
            segs = [s for s in segs if len(s) == 2 and np.all(np.isfinite(s))]
            rec.expect(len(segs) == len(wsegs), "style:bars", f"{len(segs)} bars, expected {len(wsegs)}", tr)
            for s, (wx, wy, we) in zip(segs, wsegs):
                rec.expect(np.allclose(s[:, 0], wx) and np.allclose(sorted(s[:, 1]), [wy - we, wy + we]), "style:bar", f"{s} vs {wx} {wy} {we}", tr)
        else:
            rec.expect(not segs, "style:no-bars", "", tr)
        rec.expect(ax.get_yscale() == ("log" if log else "linear"), "style:scale", "", tr)
        # every series can be told from the title and its label
        title = ax.get_title()
        labels = [ln.get_label() for ln in ax.lines if not ln.get_label().startswith("_")]
        if not tl:
            rec.expect(title == "" and not labels and ax.get_legend() is None, "style:untitled", f"{title!r} {labels}", tr)
        elif lines or markers:
            if label == "auto":
                if which:
                    rec.expect(not labels, "style:auto-single", str(labels), tr)
                else:
                    rec.expect(len(labels) == len(ser) and len(set(labels)) == len(ser), "style:auto-labels", str(labels), tr)
                for i, (_, _, b, t, l) in enumerate(ser):
                    text = title + " | " + (labels[i] if not which and i < len(labels) else "")
                    for part in (f"spw={spw}", f"pol={pol}", f"blpair={b}", f"lst={l % (2 * np.pi) * 12 / np.pi:0.3f} hr"):
                        rec.expect(part in text, "style:auto-content", f"{part} not in {text}", tr)
            else:
                rec.expect(title == "" and len(labels) == len(ser), "style:manual", f"{title!r} {labels}", tr)
                for lab, (_, _, b, t, l) in zip(labels, ser):
                    rec.expect(str(b) in lab and (label != "blpairt" or f"{t:0.5f}" in lab) and (label != "key" or str(pol) in lab), "style:manual-content", lab, tr)
            leg = ax.get_legend()
            rec.expect((leg is not None) == (legend and not (label == "auto" and which == 1)), "style:legend", "", tr)
            if leg is not None:
                rec.expect([t.get_text() for t in leg.get_texts()] == labels, "style:legend-text", "", tr)
        rec.state(("style", tuple(str(v) for v in tr.values()), pol, spw))
    rec.expect(T.diff(T.table(u), t0) is None, "style:object-changed", "")
    rec.expect(rec.raises(plot.delay_spectrum, u, [X12], 0, "xx", error="nope", ax=ax) and rec.raises(plot.delay_spectrum, u, [X12], 0, "xx", plot_stats="nope", ax=ax), "style:unknown-stat", "")
    rec.expect(rec.raises(plot.delay_spectrum, u, [((1, 6), (1, 6))], 0, "xx", ax=ax) and rec.raises(plot.delay_spectrum, u, [X12], 0, "xy", ax=ax) and rec.raises(plot.delay_spectrum, u, [X12], 7, "xx", ax=ax), "style:absent", "a spectrum that is not there was drawn")
    ok, f2 = rec.attempt("style:newfig", plot.delay_spectrum, u, [X12], 0, "xx")
    if ok:
        rec.expect(f2 is not None and len(f2.axes) == 1 and len(f2.axes[0].lines) == 2, "style:newfig", "")
    plt.close("all")


# ---------------------------------------------------------------- waterfalls
def vector(blp):
    x = [np.subtract(B.ANT[j], B.ANT[i]) for i, j in blp]
    return 0.5 * (x[0] + x[1])


def run_water(task, rec):
    import matplotlib.pyplot as plt

    from hera_pspec import plot

    comp = task["comp"]
    fn = {"real": np.real, "imag": np.imag, "abs": np.abs, "abs-real": lambda z: np.abs(z.real), "abs-imag": lambda z: np.abs(z.imag)}[comp]
    objs = {(f, o): obj(order=o, flag=f, nt=3) for f in (False, True) for o in ("bt", "tb")}
    for u in objs.values():
        u.lst_avg_array = (u.lst_avg_array - u.lst_avg_array.min() + 2 * np.pi - 1e-3) % (2 * np.pi)  # wraps through 24 h
    tables = {k: T.table(u) for k, u in objs.items()}
    fig = plt.figure(figsize=(4, 4))
    full = task["full"]
    tms = [(None, True), ([B.jd(0), B.jd(2)], False)] if not full else [(None, True), ([B.jd(0), B.jd(2)], False), (None, False), ([B.jd(2)], True)]
    sp = list(itertools.product((0, 1), POLS)) if full else [(0, POLS[1]), (1, POLS[0])]
    axes = fig.subplots(2, 2)
    combos = spelled(itertools.product((False, True), (False, True), (True, False), (False, True), (True, False), tms, sp, GROUPS if full else GROUPS[2:5]), full)
    for c, ((avg, fold, delay, dsq, log, (times, hrs), (spw, pol), groups), form) in enumerate(combos):
        key = ((c // 3) % 2 == 0, "bt" if c % 2 else "tb")
        u = objs[key]
        tr = dict(component=comp, average_blpairs=avg, fold=fold, delay=delay, deltasq=dsq, log=log, times=times, lst_in_hrs=hrs, spw=spw, pol=pol, groups=str(groups), form=form, flagged=key[0], order=key[1])
        rec.step()
        rec.trace()
        wipe(*axes.ravel())
        ok, _ = rec.attempt("water", plot.delay_waterfall, u, FORMS[form](groups), spw, pol, component=comp, average_blpairs=avg, fold=fold, delay=delay, deltasq=dsq, log=log, times=times, lst_in_hrs=hrs, axes=axes, colorbar=False, trace=tr)
        if not ok:
            continue
        v = stages(u, groups, times, avg, False, fold, dsq and not delay)
        x = v.get_dlys(spw) * 1e9 if delay else v.get_kparas(spw)
        keys = list(dict.fromkeys(b for g in groups for b in (g[:1] if avg else g)))
        flat = list(axes.ravel())
        for ax, b in zip(flat, keys):
            if not rec.expect(len(ax.images) == 1, "water:missing", f"{b}", tr):
                continue
            im = ax.images[0]
            k = (spw, b, pol)
            want = fn(np.array(v.get_data(k)))
            bad = np.isclose(v.get_integrations(k), 0.0)
            want = np.where(bad[:, None], np.nan, want)
            got = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
            if not rec.expect(got.shape == want.shape, "water:shape", f"{got.shape} {want.shape}", tr):
                continue
            rec.expect(np.array_equal(np.isnan(got), np.isnan(want)), f"water:blank:{'log' if log else 'lin'}", f"blank cells {np.isnan(got).sum()} vs {np.isnan(want).sum()}", tr)
            if log:
                pos = want > 0
                rec.expect(np.allclose(got[pos], np.log10(want[pos]), rtol=1e-9, atol=1e-12), "water:values", f"{got[pos][:4]} vs {np.log10(want[pos])[:4]}", tr)
                neg = want < 0
                if neg.any():
                    rec.expect(np.all(np.isfinite(got[neg])) and (not pos.any() or got[neg].max() < got[pos].min()), "water:negative", f"{got[neg]}", tr)
            else:
                ok2 = np.isfinite(want)
                rec.expect(np.allclose(got[ok2], want[ok2], rtol=1e-9, atol=0), "water:values", f"{got[ok2][:4]} vs {want[ok2][:4]}", tr)
            ex = im.get_extent()
            lst = np.unwrap(v.lst_avg_array[v.blpair_to_indices(b)])
            day = 24.0 if hrs else 2 * np.pi
            lst = lst * day / (2 * np.pi)
            rec.expect(np.allclose(ex[:2], [x[0], x[-1]], rtol=1e-9, atol=1e-12), "water:x", f"{ex} vs {x[0]} {x[-1]}", tr)
            off = (np.array([ex[3] - lst[0], ex[2] - lst[-1]]) / day + 0.5) % 1 - 0.5
            rec.expect(np.all(np.abs(off) < 1e-7) and abs((ex[2] - ex[3]) - (lst[-1] - lst[0])) < 1e-7, "water:y", f"{ex} vs {lst}", tr)
            rec.expect(all(str(a) in ax.get_title() for a in b), "water:title", ax.get_title(), tr)
            rec.state(("water", comp, got, ex))
        rec.expect(all(not a.images for a in flat[len(keys) :]), "water:extra", "", tr)
        st = fig._suptitle.get_text()
        rec.expect(("Delta" in st) == (dsq and not delay) and ("log" in st) == log and str(pol) in st, "water:suptitle", st, tr)
        mhz = [float(w) for w in re.findall(r"\d+(?:\.\d+)?", st.split("|")[-1])]
        f = v.freq_array[v.spw_to_freq_indices(spw)]
        rec.expect(len(mhz) == 2 and abs(mhz[0] - f[0] / 1e6) < 0.011 and 0 <= mhz[1] - f[-1] / 1e6 < (f[-1] - f[0]) / 1e6, "water:range", f"{st} for {f / 1e6}", tr)
        rec.expect(T.diff(T.table(u), tables[key]) is None, "water:object-changed", "", tr)
    # pairs with different integrations: each at its own LSTs
    for rows in itertools.permutations([(X12, (0, 2, 4)), (X13, (2, 4)), (X23, (4, 6))]):
        u = B.uvp(rows=[(b, t, t) for b, ts in rows for t in ts], blps=[X12, X13, X23], spws=SPWS, pols=POLS, win=True, omega=True, cosmo=True)
        for hrs, avg in itertools.product((True, False), (False, True)):
            tr = dict(component=comp, ragged=str(rows), lst_in_hrs=hrs, average=avg)
            rec.step()
            wipe(*axes.ravel())
            groups = [[b] for b, _ in rows] if avg else [b for b, _ in rows]
            ok, _ = rec.attempt("water:ragged", plot.delay_waterfall, u, groups, 0, "xx", component=comp, average_blpairs=avg, lst_in_hrs=hrs, axes=axes, colorbar=False, trace=tr)
            for (b, ts), ax in zip(rows, axes.ravel()):
                if not ok or not rec.expect(len(ax.images) == 1, "water:missing", f"{b}", tr):
                    continue
                ex = ax.images[0].get_extent()
                lst = np.unwrap(u.lst_avg_array[u.blpair_to_indices(b)]) * (12 / np.pi if hrs else 1)
                off = (np.array([ex[3] - lst[0], ex[2] - lst[-1]]) / (24 if hrs else 2 * np.pi) + 0.5) % 1 - 0.5
                rec.expect(np.all(np.abs(off) < 1e-7), "water:own-lst", f"{ex} vs {lst}", tr)
                rec.state(("ragged", comp, str(rows), hrs, avg, b))
        # the lines of a spectrum plot are labelled with the LSTs of their own rows
        fg = plt.figure(figsize=(3, 3))
        ax = fg.subplots()
        rec.step()
        ok, _ = rec.attempt("lines:ragged", plot.delay_spectrum, u, [b for b, _ in rows], 0, "xx", legend=True, ax=ax)
        if ok:
            got = [ln.get_label() for ln in ax.get_lines()]
            want = [l * 12 / np.pi for b, _ in rows for l in u.lst_avg_array[u.blpair_to_indices(b)]]
            num = [re.findall(r"lst=(\d+\.\d+)", t) for t in got]
            rec.expect(len(got) == len(want) and all(len(n) == 1 and abs(float(n[0]) - w) < 6e-4 for n, w in zip(num, want)), "lines:own-lst", f"{got} {want}", dict(ragged=str(rows)))
        plt.close(fg)
    u = objs[(False, "bt")]
    rec.expect(rec.raises(plot.delay_waterfall, u, [X12], 0, "xx", component="nope") and rec.raises(plot.delay_waterfall, u, [(1, 2)], 0, "xx") and rec.raises(plot.delay_waterfall, u, [X16], 0, "xx"), "water:bad", "")
    ok, f2 = rec.attempt("water:newfig", plot.delay_waterfall, u, [X12, X13, X23], 0, "xx", component=comp, title_type="blvec")
    if ok:
        rec.expect(sum(len(a.images) for a in f2.axes[:4]) == 3, "water:newfig", "")
        tt = [a.get_title() for a in f2.axes[:3]]
        rec.expect(["14.0" in tt[0] or "14.00" in tt[0], "28.0" in tt[1], "14.0" in tt[2]] == [True] * 3, "water:blvec", str(tt))
    # titles by baseline vector: half the sum of the two baselines', whatever they are
    ants = (1, 2, 3, 4, 6)
    bls = [(a, b) for a in ants for b in ants if a != b]
    for b1 in bls[::3]:
        pairs = [(b1, b2) for b2 in bls if np.hypot(*vector((b1, b2))) > 1][list(COMPS).index(comp) :: 5]
        w = B.uvp(blps=pairs, spws=[(0, 3, 3)], pols=[(-5, -5)], tps=[(0, 0), (1, 1)])
        ok, f3 = rec.attempt("water:titles", plot.delay_waterfall, w, pairs, 0, ("xx", "xx"), component=comp, title_type="blvec", colorbar=False)
        rec.step()
        if ok:
            tt = [a.get_title() for a in f3.axes if a.images]
            rec.expect(len(tt) == len(pairs), "water:titles", f"{len(tt)} of {len(pairs)}")
            for b, t in zip(pairs, tt):
                e, n = vector(b)
                ang = np.degrees(np.arctan2(n, e)) % 180
                if abs(n) < 1 and ang > 90:
                    ang = 0.0
                num = [float(x) for x in re.findall(r"-?[0-9.]+", t)]
                rec.expect(len(num) == 2 and abs(num[0] - np.hypot(e, n)) < 0.011 and abs(num[1] - ang) < 0.51, "water:blvec:pair", f"{b}: {t!r} for {np.hypot(e, n)} m at {ang} deg")
                rec.state(("title", b))
        plt.close("all")
    plt.close("all")


# ---------------------------------------------------------------- wedges
SETS = [(X13, X12, X23), (X14, X12, X13), (X16, X13, X14, X12), (X12, X23, X14), (X12, X13), (X13, X16, X12, X23, X14)]
LEN = {X12: 14.0, X23: 14.0, X13: 28.0, X14: float(np.hypot(7, 12)), X16: 42.0}


def edges(x):
    d = np.diff(x)
    return np.concatenate([[x[0] - d[0] / 2], x[:-1] + d / 2, [x[-1] + d[-1] / 2]])


def run_wedge(task, rec):
    import matplotlib.pyplot as plt

    from hera_pspec import conversions, plot

    blps = SETS[task["part"]]
    fig, ax = plt.subplots(1, 1)
    objs = {o: obj(order=o, blps=blps, nt=2, flag=o == "tb") for o in ("bt", "tb")}
    tables = {k: T.table(u) for k, u in objs.items()}
    full = task["full"]
    subs = [None] + [list(s) for n in range(2, len(blps) + 1) for s in itertools.combinations(blps, n)]
    tms = [None, [B.jd(0)], [B.jd(0), B.jd(2)]]
    comps = {"real": np.real, "imag": np.imag, "abs": np.abs, "abs-real": lambda z: np.abs(z.real), "abs-imag": lambda z: np.abs(z.imag)}
    looks = list(itertools.product(comps, (True, False)))
    if not full:
        subs, tms, looks = [None, list(blps[-2:])], tms[:2], [("real", True), ("imag", False), ("abs-real", True), ("abs", False), ("abs-imag", True)]
    for c, (sub, times, fold, delay, rotate, (comp, log), dsq, tol) in enumerate(itertools.product(subs, tms, (False, True), (True, False), (False, True), looks, (False, True), (1.0, 0.05))):
        ew = ("P_N", None)[(c // 3) % 2]
        key = "bt" if c % 2 else "tb"
        u = objs[key]
        spw, pol = (c // 2) % 2, POLS[(c // 3) % 2]
        tr = dict(blpairs=str(sub), times=times, fold=fold, delay=delay, rotate=rotate, component=comp, log10=log, deltasq=dsq, red_tol=tol, error_weights=ew, order=key, spw=spw, pol=pol)
        use = list(sub or blps)
        # groups of equal length
        groups = []
        for b in [x for x in dict.fromkeys(map(tuple, u.get_blpairs())) if x in use]:
            g = [g for g in groups if abs(LEN[g[0]] - LEN[b]) <= tol]
            (g[0] if g else groups.append([]) or groups[-1]).append(b)
        rec.step()
        rec.trace()
        wipe(ax)
        deco = c % 5 == 0
        kw = dict(center_line=deco, horizon_lines=deco, fold=fold, delay=delay, rotate=rotate, component=comp, log10=log, deltasq=dsq, red_tol=tol, error_weights=ew, times=times, blpairs=sub, ax=ax)
        if len(groups) < 2:
            rec.expect(rec.raises(plot.delay_wedge, u, spw, pol, **kw), "wedge:one-length", "", tr)
            continue
        ok, _ = rec.attempt("wedge", plot.delay_wedge, u, spw, pol, trace=tr, **kw)
        rec.expect(T.diff(T.table(u), tables[key]) is None, "wedge:object-changed", "", tr)
        if not ok:
            continue
        v = u.select(blpairs=use, times=times, inplace=False)
        h = "h^-3" in u.norm_units
        v.average_spectra(blpair_groups=groups, time_avg=True, error_weights=ew, inplace=True)
        if dsq and not delay:
            v.convert_to_deltasq()
        if fold:
            v.fold_spectra()
        row = []
        for g in groups:
            length = LEN[g[0]]
            row.append((length, comps[comp](np.array(v.get_data((spw, g[0], pol)))[0]), g))
        row.sort(key=lambda r: r[0])
        lens = np.array([r[0] for r in row])
        want = np.array([r[1] for r in row])
        z = v.cosmo.f2z(np.mean(v.freq_array[v.spw_to_freq_indices(spw)]))
        x = v.get_dlys(spw) * 1e9 if delay else v.get_kparas(spw, little_h=h)
        y = lens if delay else lens * v.cosmo.bl_to_kperp(z, little_h=h)
        meshes = [m for m in ax.collections if hasattr(m, "get_coordinates")]
        if not rec.expect(len(meshes) == 1, "wedge:mesh", "", tr):
            continue
        co = np.asarray(meshes[0].get_coordinates(), float)
        got = np.ma.filled(np.ma.asarray(meshes[0].get_array(), float), np.nan).reshape(co.shape[0] - 1, co.shape[1] - 1)
        gx, gy = co[0, :, 0], co[:, 0, 1]
        if rotate:
            got, gx, gy = got.T, gy, gx
        if not rec.expect(got.shape == want.shape, "wedge:shape", f"{got.shape} vs {want.shape}", tr):
            continue
        if log:
            pos, neg = want > 0, want < 0
            rec.expect(np.allclose(got[pos], np.log10(want[pos]), rtol=1e-9, atol=1e-12), "wedge:values", f"{got} vs {np.log10(want)}", tr)
            if neg.any():
                rec.expect(np.all(np.isfinite(got[neg])) and (not pos.any() or got[neg].max() < got[pos].min()), "wedge:negative", "", tr)
        else:
            rec.expect(np.allclose(got, want, rtol=1e-9, atol=0), "wedge:values", f"{got} vs {want}", tr)
        # a group of nearly equal lengths sits at the length of its first pair or the mean of the group
        tol_y = 0.2 if any(len({LEN[b] for b in r[2]}) > 1 for r in row) else 1e-6
        rec.expect(np.allclose(gx, edges(x), rtol=1e-9, atol=1e-9), "wedge:delays", f"{gx} vs {edges(x)}", tr)
        rec.expect(np.allclose(gy, edges(y), rtol=1e-6, atol=tol_y * (y[-1] / lens[-1])), "wedge:lengths", f"{gy} vs {edges(y)}", tr)
        if deco:
            hor = lens / 299792458.0 * 1e9
            if not delay:
                hor = hor * v.cosmo.tau_to_kpara(z, little_h=h) / 1e9
            pts = []
            for ln in ax.lines:
                a, b = (np.asarray(q, float) for q in (ln.get_xdata(), ln.get_ydata()))
                if rotate:
                    a, b = b, a
                if len(a) == 2 and a[0] == a[1] and len(b) == 2 and not (a[0] == 0):
                    pts.append((a[0], b[0], b[1]))
            # each horizon spans the bin of its own length
            e = edges(y)
            for i, hv in enumerate(hor):
                for sign in (1, -1) if not fold else (1,):
                    rec.expect(any(abs(p[0] - sign * hv) <= 0.02 * hv and abs(p[1] - e[i]) <= tol_y * y[-1] / lens[-1] + 1e-6 and abs(p[2] - e[i + 1]) <= tol_y * y[-1] / lens[-1] + 1e-6 for p in pts), "wedge:horizon", f"{sign * hv} in {pts}", tr)
        rec.state(("wedge", got, gx, gy))
    ok, f2 = rec.attempt("wedge:newfig", plot.delay_wedge, objs["bt"], 0, POLS[0], colorbar=True, deltasq=True, delay=False, loglog=False, flip_yax=True, set_bl_tick_major=True, title="t") if len({round(LEN[b]) for b in blps}) > 1 else (False, None)
    if ok:
        rec.expect(f2 is not None and f2.axes[0].get_title() == "t" and any("Delta" in a.get_ylabel() for a in f2.axes), "wedge:newfig", "")
    for bad in (dict(component="nope"), dict(blpairs=[X16, ((1, 5), (1, 5))])):
        if X16 not in blps or "component" in bad:
            rec.expect(rec.raises(plot.delay_wedge, objs["bt"], 0, POLS[0], ax=ax, **bad), "wedge:bad", str(bad))
    plt.close("all")


# ---------------------------------------------------------------- visibilities
def run_uvd(task, rec):
    import matplotlib.figure
    import matplotlib.pyplot as plt

    from hera_pspec import plot

    base = pscutil.fresh()
    orig = matplotlib.figure.Figure.savefig
    tight = matplotlib.figure.Figure.tight_layout
    matplotlib.figure.Figure.tight_layout = lambda self, *a, **k: None  # slow, and only moves the axes
    seen = {}

    def save(self, fname, *a, **k):
        ims = [im for ax in self.axes for im in ax.images]
        seen[str(fname)] = (np.ma.filled(np.ma.asarray(ims[0].get_array(), float), np.nan), k.get("format"))

    matplotlib.figure.Figure.savefig = save
    try:
        for pols, order in [((-5,), "time"), ((-5, -6), "bl"), ((-6, -5), "time")][task["part"] : task["part"] + 1]:
            u = V.cached(bls=((0, 1), (1, 2), (2, 0)), times=(0, 1, 2), nf=4, pols=pols, order=order)
            u.flag_array[1::2, 1] = True
            u.nsample_array *= 1 + np.arange(u.Nblts)[:, None, None]
            keep = (u.data_array.copy(), u.flag_array.copy(), u.nsample_array.copy())
            for data, mode, (fmt, ext), pattern in itertools.product(("data", "flags", "nsamples"), ("abs", "real", "imag", "log"), (("png", ""), ("png", ".png"), ("pdf", ".pdf"), (None, ".png"), ("png", ".x")), ("w_{bl}_{pol}", "{pol}.{bl}")):
                seen.clear()
                name = os.path.join(base, pattern + ext)
                tr = dict(pols=pols, order=order, data=data, mode=mode, format=fmt, name=pattern + ext)
                rec.step()
                rec.trace()
                ok, _ = rec.attempt("uvd", plot.plot_uvdata_waterfalls, u, name, data=data, plot_mode=mode, format=fmt, trace=tr)
                plt.close("all")
                if not ok:
                    continue
                want = {}
                for b in ((0, 1), (1, 2), (0, 2)):
                    b = b if b in u.get_antpairs() else b[::-1]
                    for p, pstr in zip(pols, u.get_pols()):
                        out = name.format(bl=f"{b[0]}.{b[1]}", pol=pstr)
                        if fmt and not out.endswith(fmt):
                            out += "." + fmt
                        k = b + (V.POL[p],)
                        d = {"data": u.get_data, "flags": u.get_flags, "nsamples": u.get_nsamples}[data](k)
                        want[out] = {"abs": lambda z: np.abs(z), "real": np.real, "imag": np.imag, "log": None}[mode]
                        want[out] = want[out](np.array(d, complex)) if want[out] else None
                rec.expect(set(seen) == set(want), "uvd:files", f"{sorted(map(os.path.basename, seen))} vs {sorted(map(os.path.basename, want))}", tr)
                for k in set(seen) & set(want):
                    if want[k] is not None and not (mode == "imag" and data != "data"):
                        rec.expect(eq(seen[k][0], want[k]), "uvd:image", os.path.basename(k), tr)
                rec.expect(all(np.array_equal(a, b) for a, b in zip(keep, (u.data_array, u.flag_array, u.nsample_array))), "uvd:object-changed", "", tr)
                rec.state(("uvd", pols, order, data, mode, fmt, pattern + ext))
        rec.expect(rec.raises(plot.plot_uvdata_waterfalls, u, name, data="nope") and rec.raises(plot.plot_uvdata_waterfalls, "x", name), "uvd:bad", "")
    finally:
        matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.tight_layout = orig, tight
        shutil.rmtree(base, ignore_errors=True)
