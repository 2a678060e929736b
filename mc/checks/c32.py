"""C32 - the bootstrap script stores exactly what the function stores, for every spelling of its options."""

import itertools
import os
import runpy
import shutil
import sys
import warnings

import numpy as np

from mc import build as B
from mc import table as T
from mc.checks.c14 import BL, source
from mc.pscutil import fresh

PID = "C32"
LEVEL = "model_checking"
RULE = (
    "Every single option value and every pair (thorough: every triple) of option values of bootstrap_run.py, with option words before or after the file name: the "
    "container left behind is compared cell by cell with the one that bootstrap_run leaves when called with the same values (documented defaults where "
    "no word is given); refusals must coincide and leave the container as it was. States are distinct containers; transitions are runs."
)
ASSUMPTIONS = ["what bootstrap_run itself stores is the subject of C14", "the script runs in-process with its own argument list"]

US = {("g1", "x"): "two", ("g1", "x_y"): "wrap", ("g2", "x"): "four"}


def ints(*groups):
    return ", ".join(" ".join(str(B.ants_to_blp(b)) for b in g) for g in groups)


def arg(*groups):
    return [[B.ants_to_blp(b) for b in g] for g in groups]


WORDS = {
    "spectra": {"one": (["--spectra", "g1/x"], dict(spectra=["g1/x"])), "two": (["--spectra", "g2/x", "g1/x"], dict(spectra=["g2/x", "g1/x"])), "part": (["--spectra", "g1/zz", "g2/x"], dict(spectra=["g1/zz", "g2/x"])), "none": (["--spectra", "g1/zz"], dict(spectra=["g1/zz"]))},
    "groups": {"one": (["--blpair_groups", ints(BL[:2])], dict(blpair_groups=arg(BL[:2]))), "two": (["--blpair_groups", ints(BL[1:2], BL[:1])], dict(blpair_groups=arg(BL[1:2], BL[:1]))), "spaced": (["--blpair_groups", " " + ints(BL[:2]).replace(" ", "  ") + " "], dict(blpair_groups=arg(BL[:2])))},
    "time": {s: (["--time_avg", s], dict(time_avg=b)) for s, b in (("True", True), ("False", False), ("true", True), ("0", False), ("no", False), ("1", True))},
    "N": {"3": (["--Nsamples", "3"], dict(Nsamples=3)), "1": (["--Nsamples", "1"], dict(Nsamples=1))},
    "seed": {"7": (["--seed", "7"], dict(seed=7))},
    "std": {s: (["--normal_std", s], dict(normal_std=b)) for s, b in (("False", False), ("True", True), ("f", False))},
    "robust": {s: (["--robust_std", s], dict(robust_std=b)) for s, b in (("True", True), ("False", False), ("yes", True))},
    "ci": {"one": (["--cintervals", "50"], dict(cintervals=[50.0])), "two": (["--cintervals", "16", "84.5"], dict(cintervals=[16.0, 84.5]))},
    "keep": {"T": (["--keep_samples"], dict(keep_samples=True))},
    "tol": {"big": (["--bl_error_tol", "500"], dict(bl_error_tol=500.0))},
    "over": {"T": (["--overwrite"], dict(overwrite=True))},
    "hist": {"h": (["--add_to_history", "note one"], dict(add_to_history="note one"))},
    "verb": {"T": (["--verbose"], dict(verbose=True))},
    "exist": {"avg": ([], {})},
}
DEFAULT = dict(Nsamples=100, seed=0, time_avg=False, normal_std=True, robust_std=False, verbose=False)


def tasks(tier, seed):
    vals = [(d, v) for d in WORDS for v in WORDS[d]]
    cs = [()] + [(a,) for a in vals] + [c for c in itertools.combinations(vals, 2) if c[0][0] != c[1][0]]
    if tier == "thorough":
        cs += [c for c in itertools.combinations(vals, 3) if len({x[0] for x in c}) == 3]
    k = 24 if tier != "thorough" else 96
    return [dict(opts=[[list(x) for x in c] for c in cs[i::k]]) for i in range(k)] + [dict(refuse=1)]


def container(f, exist):
    from hera_pspec import PSpecContainer

    base = (f"{exist}",)
    if base not in _FILES:
        d = fresh()
        p = os.path.join(d, "c.h5")
        psc = PSpecContainer(p, mode="rw", keep_open=False, swmr=False)
        for (g, s), c in US.items():
            psc.set_pspec(g, s, source(c)[0])
        if exist:
            psc.set_pspec("g1", "x_avg", source("folded")[0])
        with open(p, "rb") as h:
            _FILES[base] = h.read()
        shutil.rmtree(d)
    with open(f, "wb") as h:
        h.write(_FILES[base])


_FILES = {}


def content(f):
    from hera_pspec import PSpecContainer

    p = PSpecContainer(f, mode="r", keep_open=False, swmr=False)
    out = {}
    for g in p.groups():
        for s in p.spectra(g):
            u = p.get_pspec(g, s)
            out[g, s] = (T.attrs(u, ("history",)), u.history)
    return out


def run(task, rec):
    from hera_pspec import conversions, grouping

    conversions._astropy = False  # the astropy twin of each cosmology is a convenience attribute, slow to build
    if "refuse" in task:
        return refuse(rec, task)
    d = fresh()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            for c in task["opts"]:
                c = [tuple(x) for x in c]
                tr = dict(opts=[c])
                words, kw = [], dict(DEFAULT)
                for a, b in c:
                    words += WORDS[a][b][0]
                    kw.update(WORDS[a][b][1])
                small = []  # the default of 100 draws and of all spectra in single-option runs; pairs make do with less
                if "N" not in dict(c) and (len(c) > 1 or (c and c[0][0] not in ("seed", "std"))):
                    small, kw["Nsamples"] = ["--Nsamples", "2"], 2
                if "spectra" not in dict(c) and (len(c) > 1 or not small):
                    small, kw["spectra"] = small + ["--spectra", "g1/x"], ["g1/x"]
                exist = ("exist", "avg") in c
                f, f2 = os.path.join(d, "a.h5"), os.path.join(d, "b.h5")
                container(f, exist)
                container(f2, exist)
                argv = words + small
                # a list-valued option last would swallow the file name
                many = any(w in ("--spectra", "--cintervals") for w in argv)
                argv = [f] + argv if many or len(c) % 2 else argv + [f]
                err = []
                for fn, a, k in ((script, (argv,), {}), (grouping.bootstrap_run, (f2,), kw)):
                    try:
                        fn(*a, **k)
                        err.append(None)
                    except (Exception, SystemExit) as e:  # noqa: BLE001
                        err.append(e)
                    rec.step()
                rec.trace()
                rec.expect((err[0] is None) == (err[1] is None), "refusal", f"script {err[0]!r}, function {err[1]!r}", tr)
                got, want = content(f), content(f2)
                rec.expect(sorted(got) == sorted(want), "names", (sorted(got), sorted(want)), tr)
                for k in want:
                    if k in got:
                        df = T.attr_diff(got[k][0], want[k][0])
                        rec.expect(df is None, f"stored:{df and df[0]}", (k, df and df[1]), tr)
                        if kw.get("add_to_history") and err[0] is None:
                            rec.expect((kw["add_to_history"] in got[k][1]) == (kw["add_to_history"] in want[k][1]), "history", got[k][1], tr)
                rec.outcome(("ok" if err[0] is None else "refused", tuple(c)))
                rec.state([(k, [v[0]["data_array"][s] for s in sorted(v[0]["data_array"])] if isinstance(v[0].get("data_array"), dict) else 0) for k, v in got.items()])
        finally:
            shutil.rmtree(d)
    rec.sample(task["opts"][:2])


def refuse(rec, task):
    """option words that mean nothing are refused and change nothing"""
    d = fresh()
    try:
        for words in (["--time_avg", "maybe"], ["--Nsamples", "x"], ["--normal_std", "2"], ["--blpair_groups", "a b"], ["--nonsense"], ["--robust_std"], ["--cintervals", "x"]):
            f = os.path.join(d, "a.h5")
            container(f, False)
            b0 = open(f, "rb").read()
            try:
                old = sys.stderr
                sys.stderr = open(os.devnull, "w")
                try:
                    script([f] + words)
                finally:
                    sys.stderr.close()
                    sys.stderr = old
                bad = True
            except (Exception, SystemExit):  # noqa: BLE001
                bad = False
            rec.step()
            rec.expect(not bad, "refuse", words, dict(task, words=words))
            rec.expect(open(f, "rb").read() == b0, "refuse:changed", words, dict(task, words=words))
            rec.outcome(words)
        rec.state("refuse")
        rec.trace()
    finally:
        shutil.rmtree(d)


def script(argv):
    import logging

    import hera_pspec

    path = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(hera_pspec.__file__)))), "scripts", "bootstrap_run.py")
    old, handlers = sys.argv, logging.getLogger().handlers[:]
    sys.argv = ["bootstrap_run.py"] + argv
    try:
        runpy.run_path(path, run_name="__main__")
    finally:
        sys.argv = old
        logging.getLogger().handlers[:] = handlers


assert np
