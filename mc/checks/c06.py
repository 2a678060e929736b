"""C06 - saving and loading a power-spectrum object loses and changes nothing."""

import itertools
import json
import os
import shutil

from mc import build as B
from mc import table as T
from mc.pscutil import fresh

PID = "C06"
LEVEL = "model_checking"
RULE = (
    "Every combination of the optional content (covariances, plain or cylindrical window functions, 0-2 statistics with "
    "awkward names, beam integrals, cosmology, weighting parameters, folding, one or two windows, unequal delays and "
    "channels) is written and read back through each path (file, container held open or not, nested group), into a clean "
    "and into an already used object, and after an overwrite; every documented attribute and every labelled cell is "
    "compared bit for bit. States are distinct contents, transitions write/read steps."
)
ASSUMPTIONS = ["objects are bounded (<=2 windows, <=2 baseline-pairs, <=3 time pairs, <=2 polarization pairs)"]

SHAPES = {
    "small": dict(blps=[((1, 2), (1, 2))], tps=[(0, 0)], spws=[(0, 3, 3)], pols=[(-5, -5)]),
    "two": dict(blps=[((1, 2), (1, 2)), ((2, 3), (1, 2))], tps=[(0, 1), (2, 2)], order="tb", spws=[(10, 4, 4), (0, 3, 3)], pols=[(-6, -6), (1, 2)]),
    "resampled": dict(blps=[((1, 2), (2, 3))], tps=[(0, 0), (0, 1), (1, 2)], spws=[(0, 4, 7), (2, 6, 3)], pols=[(-5, -6)]),
}


def rpar(c):
    """A weighting-parameter string in the stored (compressed) form."""
    from hera_pspec import uvpspec_utils

    d = {}
    names = {-5: "xx", -6: "yy", 1: "pI", 2: "pQ"}
    for blp in c["blps"]:
        for pp in c["pols"]:
            for b, p in zip(blp, pp):
                d[b + (names[p],)] = {"filter_centers": [0.0], "filter_half_widths": [float(b[0])], "filter_factors": [1e-9 * p]}
    return uvpspec_utils.compress_r_params(d)


def configs():
    for sh, cov, win, st, om, co, rp, fo in itertools.product(
        SHAPES, [False, True], ["none", "plain", "exact"], [[], ["a"], ["b_0", "noise_P_N"]], [False, True], [False, True], [False, True], [False, True]
    ):
        yield dict(shape=sh, cov=cov, win=win, stats=st, omega=om, cosmo=co, rp=rp, folded=fo)


def make(c):
    s = dict(SHAPES[c["shape"]])
    kw = dict(s, cov=c["cov"], win=c["win"] == "plain", exact=c["win"] == "exact", stats=c["stats"], omega=c["omega"], cosmo=c["cosmo"])
    if c["rp"]:
        kw["r_params"] = rpar(s)
    u = B.uvp(salt=json.dumps(c, sort_keys=True), history="línea 1\nline 2", **kw)
    u.symmetric_taper = False
    if c["folded"]:
        u.folded = True  # content is arbitrary here: only storage is exercised
    return u


def tasks(tier, seed):
    n = 48
    return [{"part": i, "of": n, "tier": tier} for i in range(n)]


def run(task, rec):
    from hera_pspec import container, uvpspec

    root = fresh()
    allc = list(configs())
    prev = None
    mine = [c for i, c in enumerate(allc) if i % task["of"] == task["part"]]
    for n, c in enumerate(mine):
        u = make(c)
        want, wt = T.attrs(u), T.canon(T.table(u))
        rec.state(wt)

        def check(v, path, dirty):
            rec.step()
            rec.trace()
            tr = {"config": c, "path": path, "into used object": dirty}
            d = T.attr_diff(T.attrs(v, skip=("symmetric_taper",)), {k: x for k, x in want.items() if k != "symmetric_taper"})
            rec.expect(d is None, f"roundtrip:{d[0] if d else ''}", f"{d} {tr}", tr)
            rec.expect(getattr(v, "symmetric_taper", None) == u.symmetric_taper, "lost:symmetric_taper", f"symmetric_taper not restored {tr}", tr)
            rec.expect(T.canon(T.table(v)) == wt, "roundtrip:cells", "labelled cells differ", tr)
            rec.expect(T.attr_diff(T.attrs(u), want) is None, "source-modified", "saving changed the object", tr)

        f1 = os.path.join(root, "a.h5")
        ok, _ = rec.attempt("write_hdf5", u.write_hdf5, f1, overwrite=True, trace=c)
        if not ok:
            continue
        clean, used = uvpspec.UVPSpec(), prev if prev is not None else uvpspec.UVPSpec()
        for v, dirty in ((clean, False), (used, True)):
            ok, _ = rec.attempt("read_hdf5", v.read_hdf5, f1, trace=c)
            if ok:
                check(v, "file", dirty)
        # second generation
        f2 = os.path.join(root, "b.h5")
        if os.path.exists(f2):
            os.remove(f2)
        ok, _ = rec.attempt("rewrite", clean.write_hdf5, f2, trace=c)
        if ok:
            v = uvpspec.UVPSpec()
            ok, _ = rec.attempt("reread", v.read_hdf5, f2, trace=c)
            if ok:
                check(v, "file twice", False)
        # container, replacing whatever the previous configuration left there
        p = container.PSpecContainer(os.path.join(root, "c.h5"), mode="rw", keep_open=bool(n % 2))
        ok, _ = rec.attempt("set_pspec", p.set_pspec, "grp", "name", u, overwrite=True, trace=c)
        if ok:
            ok, v = rec.attempt("get_pspec", p.get_pspec, "grp", "name", trace=c)
            if ok:
                check(v, "container", False)
        if p.data is not None:
            p.data.close()
            p.data = None
        prev = clean
        rec.outcome(sorted(c.items(), key=str))
    rec.sample(mine[0])
    shutil.rmtree(root, ignore_errors=True)
