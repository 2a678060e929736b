"""C17 - two power-spectrum objects compare equal exactly when their content is the same."""

import copy
import itertools
import os
import shutil

import numpy as np

from mc import build as B
from mc import table as T
from mc.pscutil import fresh

PID = "C17"
LEVEL = "model_checking"
RULE = (
    "For each synthetic content, every single-place mutation is enumerated: every element of every array of every "
    "documented attribute moved by one natural step (one integration, one channel, one antenna, 1%), every optional "
    "attribute removed, every dictionary losing or gaining a window or statistic, every array losing its last row or "
    "column, every scalar or string changed; also where values are tiny in the units used. The object must compare unequal to each mutant, in both directions and "
    "without raising, and equal to copies, to metadata-only copies of itself and to what is read back from disk. "
    "States are distinct mutants, transitions comparisons."
)
ASSUMPTIONS = ["differences below the documented floating-point closeness (1e-5 relative) are out of scope", "beam file name not exercised"]

CONFIGS = {
    "plain": dict(blps=[((1, 2), (1, 2)), ((1, 2), (2, 3))], tps=[(0, 0), (1, 2)], spws=[(0, 3, 3), (5, 2, 4)], pols=[(-5, -5), (-6, -6)], stats=["a", "b_c"], cov=True, omega=True),
    "exact": dict(blps=[((1, 2), (2, 3))], tps=[(0, 1), (1, 1)], spws=[(0, 3, 3)], pols=[(-5, -5), (1, 2)], exact=True, stats=["z"]),
    "bare": dict(blps=[((1, 2), (1, 2))], tps=[(0, 0)], spws=[(0, 3, 3)], pols=[(-5, -5)], win=False, cosmo=False),
    # powers, errors and beam integrals in units that make them tiny
    "small": dict(blps=[((1, 2), (2, 3))], tps=[(0, 1), (1, 1)], spws=[(0, 3, 3)], pols=[(-5, -5), (1, 2)], stats=["z"], cov=True, omega=True),
}
SMALL = ("data_array", "cov_array_real", "cov_array_imag", "stats_array", "OmegaP", "OmegaPP", "scalar_array", "window_function_array", "dly_array")
RP = '{"0": {"rp": 1, "baselines": [[1, 2, "xx"]]}}'
OPTIONAL = """cov_model cov_array_real cov_array_imag window_function_array window_function_kperp window_function_kpara stats_array
OmegaP OmegaPP beam_freqs cosmo""".split()
SKIP = ("symmetric_taper",)  # not a registered parameter, see C06 finding


def mutants(u):
    """(name, function applying the mutation to a deep copy)."""
    for k in T.DOCUMENTED:
        if k in SKIP or not hasattr(u, k):
            if k not in SKIP and k in ("stats_array", "OmegaP"):
                yield (k, "added"), lambda v, k=k: setattr(v, k, {"q": {0: np.ones((1, 3, 1), complex)}} if k == "stats_array" else np.ones((7, 1)))
            continue
        a = getattr(u, k)
        yield (k, "removed"), lambda v, k=k: delattr(v, k)
        if isinstance(a, bool):
            yield (k, "flip"), lambda v, k=k, a=a: setattr(v, k, not a)
        elif isinstance(a, (int, np.integer)):
            for d in (1, -1):
                yield (k, "int", d), lambda v, k=k, a=a, d=d: setattr(v, k, a + d)
        elif isinstance(a, str):
            for b in (a + " ", a[:-1] if a else "y", a.upper() + "Z"):
                yield (k, "str", b), lambda v, k=k, b=b: setattr(v, k, b)
        elif k == "cosmo":
            yield (k, "H0"), lambda v, k=k: setattr(v, k, _other_cosmo())
        elif isinstance(a, np.ndarray):
            yield from arr(k, a, lambda v, k=k: getattr(v, k), lambda v, x, k=k: setattr(v, k, x))
        elif k == "stats_array":
            for s in a:
                for i in a[s]:
                    yield from arr((k, s, i), a[s][i], lambda v, s=s, i=i: v.stats_array[s][i], lambda v, x, s=s, i=i: v.stats_array[s].__setitem__(i, x))
                yield (k, s, "dropspw"), lambda v, s=s: v.stats_array[s].pop(max(v.stats_array[s]))
                yield (k, s, "drop"), lambda v, s=s: v.stats_array.pop(s)
                yield (k, s, "rename"), lambda v, s=s: v.stats_array.__setitem__(s + "x", v.stats_array.pop(s))
                yield (k, s, "extra"), lambda v, s=s: v.stats_array.__setitem__("new", copy.deepcopy(v.stats_array[s]))
        elif isinstance(a, dict):
            for i in a:
                yield from arr((k, i), a[i], lambda v, k=k, i=i: getattr(v, k)[i], lambda v, x, k=k, i=i: getattr(v, k).__setitem__(i, x))
            yield (k, "dropspw"), lambda v, k=k: getattr(v, k).pop(max(getattr(v, k)))
            yield (k, "extraspw"), lambda v, k=k: getattr(v, k).__setitem__(max(getattr(v, k)) + 1, getattr(v, k)[0].copy())


def arr(name, a, get, put):
    nm = name if isinstance(name, tuple) else (name,)
    step = {
        "time_1_array": B.DT, "time_2_array": B.DT, "time_avg_array": B.DT / 2, "freq_array": B.DF, "beam_freqs": B.DF,
    }.get(nm[0], None)
    # on the scale of the values themselves, where they are small
    unit = min(1.0, float(np.max(np.abs(a)))) if a.size and a.dtype.kind in "fc" else 1.0
    unit = unit or 1.0
    for j in range(a.size):
        if a.dtype.kind in "iu":
            def f(v, j=j):
                x = get(v).copy()
                x.flat[j] += 1
                put(v, x)

            yield nm + ("el", j), f
        elif a.dtype.kind in "US":
            def f(v, j=j):
                x = get(v).astype("U20")
                x.flat[j] = x.flat[j] + "'"
                put(v, x)

            yield nm + ("el", j), f
        else:
            for part in ("re", "im") if a.dtype.kind == "c" else ("re",):
                def f(v, j=j, part=part):
                    x = np.array(get(v))
                    o = x.flat[j]
                    d = step if step else max(abs(o) * 0.01, 0.001 * unit)
                    x.flat[j] = o + (d if part == "re" else 1j * d)
                    put(v, x)

                yield nm + ("el", j, part), f
    for ax in range(a.ndim):
        if a.shape[ax] > 0:
            yield nm + ("cut", ax), lambda v, ax=ax: put(v, np.take(get(v), range(get(v).shape[ax] - 1), axis=ax))
            yield nm + ("grow", ax), lambda v, ax=ax: put(v, np.concatenate([get(v), np.take(get(v), [-1], axis=ax)], axis=ax))
    # two rows exchanged: same values, other labels
    if a.ndim and a.shape[0] > 1 and not np.array_equal(a[0], a[-1]):
        yield nm + ("reverse",), lambda v: put(v, get(v)[::-1].copy())


_CO = None


def _other_cosmo():
    global _CO
    if _CO is None:
        from hera_pspec import conversions

        _CO = conversions.Cosmo_Conversions(H0=71.0)
    return _CO


def build(name, **kw):
    u = B.uvp(**dict(CONFIGS[name], **kw))
    if name == "plain":
        u.r_params = RP
    if name == "small":
        for k in SMALL:
            a = getattr(u, k)
            if isinstance(a, dict):
                for i in a:
                    if isinstance(a[i], dict):
                        a[i] = {j: x * 2.0**-40 for j, x in a[i].items()}
                    else:
                        a[i] = a[i] * 2.0**-40
            else:
                setattr(u, k, a * 2.0**-40)
    return u


def tasks(tier, seed):
    return [{"cfg": n, "part": i, "of": 8} for n in CONFIGS for i in range(8)]


def clone(u):
    v = copy.copy(u)
    v.__dict__ = dict(u.__dict__)
    for k, a in list(v.__dict__.items()):
        if k.startswith("_") or k == "cosmo":
            continue
        if isinstance(a, np.ndarray):
            v.__dict__[k] = a.copy()
        elif isinstance(a, dict):
            v.__dict__[k] = copy.deepcopy(a)
    return v


def compare(rec, a, b, want, sig, tr):
    for x, y, d in ((a, b, ""), (b, a, ":reversed")):
        rec.step()
        try:
            r = x == y
        except Exception as e:  # noqa: BLE001
            rec.evaluations += 1
            rec.fail(sig + d + ":raised", f"comparison raised {type(e).__name__}: {e}", tr)
            continue
        rec.expect(bool(r) == want, sig + d, f"comparison gave {r}, expected {want} for {tr}", tr)


def run(task, rec):
    from hera_pspec import uvpspec

    u = build(task["cfg"])
    ref = T.canon(T.table(u))
    rec.state(ref)
    for n, (name, f) in enumerate(mutants(u)):
        if n % task["of"] != task["part"]:
            continue
        v = clone(u)
        f(v)
        rec.state((task["cfg"], name))
        rec.trace()
        kind = [x for x in name if isinstance(x, str)]
        compare(rec, u, v, False, "differs:" + ":".join(kind[:1] + kind[1:][-1:]), (task["cfg"],) + tuple(name))
        rec.outcome(name[0])
    if task["part"] == 0:
        compare(rec, u, u, True, "self", "self")
        compare(rec, u, clone(u), True, "copy", "copy")
        compare(rec, u, copy.deepcopy(u), True, "deepcopy", "deepcopy")
        compare(rec, u, build(task["cfg"]), True, "rebuilt", "rebuilt")
        root = fresh()
        path = os.path.join(root, "u.h5")
        u.write_hdf5(path)
        v, m1, m2 = uvpspec.UVPSpec(), uvpspec.UVPSpec(), uvpspec.UVPSpec()
        v.read_hdf5(path)
        compare(rec, u, v, True, "readback", "readback")
        m1.read_hdf5(path, just_meta=True)
        m2.read_hdf5(path, just_meta=True)
        compare(rec, m1, m2, True, "meta-meta", "two metadata-only reads")
        compare(rec, u, m1, False, "full-vs-meta", "full object against metadata-only read")
        # objects that differ only in one label
        c = CONFIGS[task["cfg"]]
        for kw in (dict(salt=1), dict(tps=[(t[0] + 1, t[1] + 1) for t in c["tps"]]), dict(order="tb"), dict(pols=[(p[0], -8) for p in c["pols"]])):
            w = build(task["cfg"], **kw)
            compare(rec, u, w, list(T.row_keys(u)) == list(T.row_keys(w)) and "order" in kw, "relabel:" + next(iter(kw)), kw)
        shutil.rmtree(root, ignore_errors=True)
    rec.sample({"cfg": task["cfg"]})
