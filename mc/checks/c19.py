"""C19 - what an estimator object computes depends on its current configuration and data, not on its history."""

import functools
import itertools
import warnings

import numpy as np

from mc import uvd as U

PID = "C19"
LEVEL = "model_checking"
RULE = (
    "All sequences of configuration calls up to the depth (4 spectral windows of equal and different length, delay counts, "
    "3 weightings incl. two dayenu parameter sets, tapers, symmetric/one-sided taper, filter extensions, dataset-editing calls and "
    "data replacement), with every matrix evaluated after every call (so every cache is warm) - the values are compared with those of a "
    "fresh object given only the final configuration. Configuration refusals are compared with the model too."
)
ASSUMPTIONS = ["two datasets of 9 channels and 6 times", "user-injected matrices (set_C, set_iC, set_R) are not part of the alphabet"]

SPWS = [(2, 6), (3, 7), (2, 5), (1, 6), (0, 9)]
RP = {
    "A": dict(filter_centers=[0.0], filter_half_widths=[1e-6], filter_factors=[1e-3]),
    "B": dict(filter_centers=[0.0], filter_half_widths=[2.5e-6], filter_factors=[1e-1]),
}
KEYS = [(0, (0, 1), "xx"), (1, (1, 2), "xx")]

OPS = (
    [("spw", s, None) for s in SPWS]
    + [("spw", (2, 6), 3)]
    + [("ndlys", 2), ("ndlys", None), ("ndlys", 99)]
    + [("weight", "identity"), ("weight", "iC"), ("dayenu", "A"), ("dayenu", "B")]
    + [("taper", "none"), ("taper", "hann")]
    + [("sym", True), ("sym", False)]
    + [("ext", (0, 0)), ("ext", (1, 1)), ("ext", (1, 0)), ("ext", (0, 2))]
)
DATA_OPS = [("jy2mk",), ("trim",), ("bcast",), ("unflag",), ("add",)]

START = dict(spw=(0, 9), nd=9, w="identity", rp=None, taper="none", sym=True, ext=(0, 0), data=())


def clip_ext(e, spw):
    return (min(e[0], spw[0]), min(e[1], 9 - spw[1]))


def model(cfg, op):
    """(new configuration, refused)."""
    c = dict(cfg)
    if op[0] == "spw":
        c["spw"] = op[1]
        c["ext"] = clip_ext(c["ext"], c["spw"])
        c["nd"] = op[1][1] - op[1][0] if op[2] is None else op[2]
    elif op[0] == "ndlys":
        n = c["spw"][1] - c["spw"][0]
        if op[1] is not None and op[1] > n:
            return cfg, True
        c["nd"] = n if op[1] is None else op[1]
    elif op[0] == "weight":
        c["w"] = op[1]
    elif op[0] == "dayenu":
        c["w"], c["rp"] = "dayenu", op[1]
    elif op[0] == "taper":
        c["taper"] = op[1]
    elif op[0] == "sym":
        if op[1] and sum(c["ext"]) > 0:
            return cfg, True
        c["sym"] = op[1]
    elif op[0] == "ext":
        c["ext"] = clip_ext(op[1], c["spw"])
        if sum(op[1]) > 0:
            c["sym"] = False
    elif op[0] in ("jy2mk", "trim"):
        if op not in c["data"]:
            c["data"] = c["data"] + (op,)
    elif op[0] in ("bcast", "unflag"):
        c["data"] = c["data"] + (op,)
        c["spw"], c["nd"], c["ext"] = (0, 9), 9, (0, 0)
    elif op[0] == "add":
        c["spw"], c["nd"], c["ext"] = (0, 9), 9, (0, 0)
    return c, False


def flags(bl, pol, t, nf):
    f = np.zeros(nf, bool)
    if bl == (0, 1):
        f[3] = True
        if t == 0:
            f[5] = True  # the only time at which ... (bcast flags the whole integration)
    if bl == (1, 2) and t > 1:
        f[4] = True  # 4 of 6 times: broadcast to all
    if bl == (1, 2) and t < 5:
        f[6] = True  # unflagged only at the last time, which `trim` removes
    return f


def fresh_ds():
    from hera_pspec import PSpecData, pspecbeam

    d1 = U.cached(bls=((0, 1), (1, 2)), times=(0, 1, 2, 3, 4, 5), nf=9, salt=1, ants=(0, 1, 2, 3))
    d2 = U.cached(bls=((0, 1), (1, 2)), times=(-1, 0, 1, 2, 3, 4), nf=9, salt=2, ants=(0, 1, 2, 3))
    for d in (d1, d2):
        for r in range(d.Nblts):
            t = int(round((d.time_array[r] - U.B.T0) / U.B.DT))
            d.flag_array[r, :, 0] = flags((int(d.ant_1_array[r]), int(d.ant_2_array[r])), -5, t, 9)
    fr = d1.freq_array
    beam = pspecbeam.PSpecBeamFromArray(OmegaP={"XX": 0.02 * (fr / fr[0]) ** -2}, OmegaPP={"XX": 0.01 * (fr / fr[0]) ** -2}, beam_freqs=fr, cosmo=cosmo())
    return PSpecData([d1, d2], [None, None], beam=beam)


_C = []


def cosmo():
    if not _C:
        from hera_pspec import conversions

        c = conversions.Cosmo_Conversions()
        c.X2Y = functools.lru_cache(None)(c.X2Y)  # the beam scalar integrates it afresh for every call
        _C.append(c)
    return _C[0]


def apply(ds, op):
    k = op[0]
    if k == "spw":
        ds.set_spw(op[1], ndlys=op[2])
    elif k == "ndlys":
        ds.set_Ndlys(op[1])
    elif k == "weight":
        ds.set_weighting(op[1])
    elif k == "dayenu":
        ds.set_weighting("dayenu")
        for key in KEYS:
            ds.set_r_param(key, RP[op[1]])
    elif k == "taper":
        ds.set_taper(op[1])
    elif k == "sym":
        ds.set_symmetric_taper(op[1])
    elif k == "ext":
        ds.set_filter_extension(op[1])
    elif k == "jy2mk":
        ds.Jy_to_mK()
    elif k == "trim":
        ds.trim_dset_lsts()
    elif k == "bcast":
        ds.broadcast_dset_flags(time_thresh=0.5)
    elif k == "unflag":
        ds.broadcast_dset_flags(unflag=True)
    elif k == "add":
        d = U.cached(bls=((0, 1), (1, 2)), times=(0, 1, 2, 3, 4, 5), nf=9, salt=3, ants=(0, 1, 2, 3))
        ds.add([d], [None])


def values(ds):
    k1, k2 = KEYS
    out = {}
    out["spw"] = tuple(int(x) for x in ds.spw_range) + (int(ds.spw_Ndlys),)
    out["ext"] = tuple(int(x) for x in ds.filter_extension) + (bool(ds.symmetric_taper),)
    out["dly"] = ds.delays()
    for n, k in (("1", k1), ("2", k2)):
        out["x" + n] = ds.x(k)
        out["Y" + n] = ds.Y(k)
        out["I" + n] = ds.I(k)
        if ds.data_weighting == "iC":
            out["iC" + n] = ds.iC(k)
        out["C" + n] = ds.C_model(k)
        out["R" + n] = ds.R(k)
    out["q"] = ds.q_hat(k1, k2)
    out["qalt"] = ds.get_Q_alt_tensor()
    out["G"] = ds.get_G(k1, k2)
    out["H"] = ds.get_H(k1, k2)
    if sum(ds.filter_extension) == 0:
        out["E"] = ds.get_unnormed_E(k1, k2)
    return out


def evaluate(ds):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return values(ds)
    except Exception as e:  # noqa: BLE001
        return {"raised": f"{type(e).__name__}: {e}"}


_WANT = {}


def want(cfg):
    key = repr(sorted(cfg.items()))
    if key not in _WANT:
        ds = fresh_ds()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for op in cfg["data"]:
                apply(ds, op)
            n = cfg["spw"][1] - cfg["spw"][0]
            ds.set_spw(cfg["spw"], ndlys=None if cfg["nd"] == n else cfg["nd"])
            if cfg["rp"]:
                apply(ds, ("dayenu", cfg["rp"]))
            ds.set_weighting(cfg["w"])
            ds.set_taper(cfg["taper"])
            if not cfg["sym"]:
                ds.set_symmetric_taper(False)
            if sum(cfg["ext"]):
                ds.set_filter_extension(cfg["ext"])
        _WANT[key] = evaluate(ds)
    return _WANT[key]


def differ(a, b):
    if set(a) != set(b):
        return "raised" if "raised" in (set(a) ^ set(b)) else "keys", f"{a.get('raised')} / {b.get('raised')} / {set(a) ^ set(b)}"
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, (str, tuple)):
            if k == "raised":
                continue  # both refuse
            if x != y:
                return k, f"{x} != {y}"
        elif x.shape != y.shape or not np.allclose(x, y, rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(y)) if y.size else 1)):
            return k, f"shape {x.shape}/{y.shape}" if x.shape != y.shape else f"max diff {np.max(np.abs(x - y))}"
    return None


def tasks(tier, seed):
    depth = 3 if tier == "quick" else 4
    evaluate(fresh_ds())  # compile and memoise before the workers are forked
    out = [dict(kind="cfg", first=i, second=j, depth=depth) for i in range(len(OPS)) for j in range(len(OPS))]
    out += [dict(kind="data", first=i, depth=depth) for i in range(len(DATA_OPS))]
    out.append(dict(kind="clip"))
    return out


def explore(seq, rec, eval_all=True):
    ds = fresh_ds()
    cfg = dict(START)
    for n, op in enumerate(seq):
        new, refused = model(cfg, op)
        rec.step()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if refused:
                r = rec.raises(apply, ds, op)
                if not rec.expect(r, f"accepted:{op[0]}", f"{op} was accepted in {cfg}", seq[: n + 1]):
                    return
            else:
                ok, _ = rec.attempt(f"op:{op[0]}", apply, ds, op, trace=seq[: n + 1])
                if not ok:
                    return
        cfg = new
        if not eval_all and n < len(seq) - 1:
            continue
        got = evaluate(ds)
        exp = want(cfg)
        rec.trace()
        rec.state((sorted(cfg.items()),))
        d = differ(got, exp)
        if not rec.expect(d is None, f"stale:{d and d[0]}:{op[0]}", f"after {seq[: n + 1]}: {d} configuration {cfg}", seq[: n + 1]):
            return
    rec.outcome(repr(sorted(cfg.items())))


def run(task, rec):
    if task["kind"] == "clip":
        return clip(rec)
    if task["kind"] == "cfg":
        head = [OPS[task["first"]], OPS[task["second"]]]
        rest = task["depth"] - 2
        # a warm start in every weighting: caches are filled before the sequence begins
        for tail in itertools.product(OPS, repeat=rest):
            explore(head + list(tail), rec)
        rec.sample({"ops": repr(head)})
    else:
        d = DATA_OPS[task["first"]]
        small = [("spw", (2, 6), None), ("spw", (3, 7), 3), ("weight", "iC"), ("dayenu", "A"), ("taper", "hann"), ("ext", (1, 1))]
        pre = [p for r in range(task["depth"]) for p in itertools.product(small, repeat=r)]
        for p in pre:
            for e in [()] + [(x,) for x in DATA_OPS] + [(("spw", (2, 6), None),), (("weight", "iC"),)]:
                seq = list(p) + [d] + list(e)
                if ("jy2mk",) in seq and ("trim",) in seq and seq.index(("jy2mk",)) < seq.index(("trim",)):
                    continue  # pyuvdata refuses to select from data in mK
                explore(seq, rec)


def clip(rec):
    """Extensions are clipped to the data range for every window and request."""
    for s0, s1 in itertools.combinations(range(10), 2):
        if s1 - s0 < 2:
            continue
        for e in itertools.product(range(0, 5), repeat=2):
            ds = fresh_ds()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ds.set_spw((s0, s1))
                ds.set_filter_extension(e)
            w = (min(e[0], s0), min(e[1], 9 - s1))
            rec.step()
            rec.trace()
            rec.expect(tuple(ds.filter_extension) == w, "clip", f"{(s0, s1)} {e}: {ds.filter_extension}", [s0, s1, e])
            rec.expect(tuple(ds.get_spw(include_extension=True)) == (s0 - w[0], s1 + w[1]), "clip-spw", f"{(s0, s1)} {e}: {ds.get_spw(include_extension=True)}")
            rec.expect(ds.x(KEYS[0]).shape[0] == s1 - s0 + sum(w), "clip-x", f"{(s0, s1)} {e}")
        for bad in ((-1, 0), (0.5, 0), (0, 1, 2), 3):
            rec.expect(rec.raises(fresh_ds().set_filter_extension, bad), "ext-accepted", str(bad))
