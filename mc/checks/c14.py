"""C14 - a bootstrap sample is the average with the drawn multiplicities; its error bars are the spread of the samples."""

import copy
import itertools
import os
import tempfile

import numpy as np

from mc import algebra as A
from mc import build as B
from mc import table as T

PID = "C14"
LEVEL = "model_checking"
RULE = (
    "For six small objects and every partition of their baseline-pairs into ordered groups: every sequence of draws the sampler can "
    "make for groups of up to three members (the random number source is replaced by the enumerated draws; a sampler that uses "
    "another source is run under 27 seeds instead), with and without time averaging; each sample must be the weighted average with "
    "the drawn multiplicities. Every combination of {error estimates} x {groups given or redundant} x {time average} x {seeds} for "
    "the error estimator; every number of groups for lists of up to nine baselines; and every combination of {spectra} x {keep samples} x {existing outputs} for the container driver."
)
ASSUMPTIONS = ["groups of at most three members, two groups", "for several objects: draws that give every object at least one member of each group (other draws are refused)"]

BL = [((1, 2), (1, 2)), ((1, 2), (2, 3)), ((2, 3), (2, 3)), ((4, 5), (4, 5))]
WRAP = B.WRAP
CFG = {
    "full": dict(blps=BL[:3], tps=[(0, 0), (1, 3)], spws=[(0, 4, 4), (10, 3, 5)], pols=[(-5, -5), (1, 2)], cov=True, stats=["e"]),
    "tb": dict(blps=[BL[2], BL[0], BL[1]], tps=[(0, 1), (2, 2), (3, 1)], order="tb", spws=[(0, 3, 4)], pols=[(-5, -5)], omega=True),
    "folded": dict(blps=BL[:3], tps=[(0, 0), (1, 1)], spws=[(0, 5, 5)], pols=[(-5, -5)], folded=True),
    "wrap": dict(blps=BL[1:], tps=[(WRAP - 3, WRAP - 2), (WRAP + 1, WRAP + 2)], spws=[(0, 3, 3)], pols=[(-5, -5)], win=False),
    "two": dict(blps=BL[:2], tps=[(0, 0)], spws=[(0, 3, 3)], pols=[(-5, -5), (-6, -6)]),
    "four": dict(blps=BL, tps=[(0, 0), (1, 1)], spws=[(0, 3, 3)], pols=[(-5, -5)]),
}
GROUPS = {
    "full": [[[0, 1, 2]], [[0, 1], [2]], [[2], [1, 0]], [[0, 2]], [[1], [0], [2]]],
    "tb": [[[0, 1, 2]], [[1, 0], [2]], [[2, 0]]],
    "folded": [[[0, 1, 2]], [[0], [2, 1]]],
    "wrap": [[[0, 1, 2]], [[2, 0], [1]]],
    "two": [[[0, 1]], [[1, 0]], [[1]]],
    "four": [[[0, 1], [2, 3]], [[3, 0, 1], [2]], [[1, 2, 3]]],
}


def tasks(tier, seed):
    out = [dict(mode="draws", cfg=c, g=i, ta=t) for c in CFG for i in range(len(GROUPS[c])) for t in (0, 1)]
    out += [dict(mode="error", cfg=c, ta=t) for c in CFG for t in (0, 1)]
    out += [dict(mode="many", ta=t, three=k) for t in (0, 1) for k in (0, 1, 2, 3)]
    out += [dict(mode="groups", n=n) for n in range(1, 10)]
    out += [dict(mode="run", keep=k, exist=e) for k in (0, 1) for e in (0, 1, 2, 3, 4)]
    return out


_MEMO = {}


def source(name):
    if name not in _MEMO:
        u = B.uvp(**CFG[name])
        _MEMO[name] = (u, A.view(u), T.table(u))
    return _MEMO[name]


class Draws:
    """Stand-in for numpy.random.randint: serves the enumerated draws, counts how often it was asked."""

    def __init__(self, seqs):
        self.seqs, self.used, self.real = list(seqs), 0, None

    def __call__(self, low, high=None, size=None, *a, **k):
        if high is None:
            low, high = 0, low
        if self.seqs and low == 0 and size is not None and np.ndim(size) == 0 and high == size == len(self.seqs[0]):
            self.used += 1
            return np.array(self.seqs.pop(0))
        return self.real(low, high, size, *a, **k)

    def __enter__(self):
        self.real = np.random.randint
        np.random.randint = self
        return self

    def __exit__(self, *e):
        np.random.randint = self.real


def weights_ok(rec, wl, gl, tr):
    ok = len(wl) == len(gl) and all(len(w) == len(g) for w, g in zip(wl, gl))
    rec.expect(ok, "weights:shape", f"{wl} for {gl}", tr)
    if ok:
        for w, g in zip(wl, gl):
            rec.expect(sum(w) == len(g) and all(x >= 0 and x == int(x) for x in w), "weights:count", f"{w}", tr)
    return ok


def draws(rec, task):
    from hera_pspec import grouping

    u0, v0, t0 = source(task["cfg"])
    blps = CFG[task["cfg"]]["blps"]
    gl = [[blps[i] for i in g] for g in GROUPS[task["cfg"]][task["g"]]]
    n = 0
    for seqs in itertools.product(*[itertools.product(range(len(g)), repeat=len(g)) for g in gl]):
        n += 1
        as_int = n % 2 == 0
        arg = [[B.ants_to_blp(b) for b in g] for g in gl] if as_int else copy.deepcopy(gl)
        keep = copy.deepcopy(arg)
        u = copy.deepcopy(u0) if n % 10 == 1 else u0
        tr = dict(task, draw=seqs, ints=as_int)
        with Draws(seqs) as d:
            ok, r = rec.attempt("sample", grouping.bootstrap_average_blpairs, u, blpair_groups=arg, time_avg=bool(task["ta"]), seed=n % 27, trace=tr)
        rec.step()
        rec.trace()
        if not ok:
            continue
        avg, wl = r
        rec.expect(arg == keep, "arguments", "the caller's groups were modified", tr)
        if not weights_ok(rec, wl, gl, tr):
            continue
        if d.used == len(gl):
            want = [[sum(1 for x in s if x == i) for i in range(len(g))] for s, g in zip(seqs, gl)]
            rec.expect([list(map(int, w)) for w in wl] == want, "weights:draw", f"draw {seqs}: {wl}", tr)
        want = A.average(v0, groups=gl, weights=wl, time_avg=bool(task["ta"]))
        for c in want.values():
            for f in [f for f in c if f.startswith("stat:")]:
                del c[f]
        got = A.view(avg)
        df = A.close(got, want, rtol=1e-9)
        rec.expect(df is None, f"sample:{df and df[0]}", df and df[1], tr)
        if n % 10 == 1:
            rec.expect(T.diff(T.table(u), t0) is None, "input", "the input was modified", tr)
        rec.state(("d", task["cfg"], task["g"], task["ta"], repr(wl)))
        rec.outcome(repr(wl))
    rec.expect(T.diff(T.table(u0), t0) is None, "input", "the input was modified", task)
    # the draw is a function of the seed
    u = u0
    for seed in range(8):
        a = grouping.bootstrap_average_blpairs(u, blpair_groups=copy.deepcopy(gl), time_avg=bool(task["ta"]), seed=seed)
        b = grouping.bootstrap_average_blpairs(u, blpair_groups=copy.deepcopy(gl), time_avg=bool(task["ta"]), seed=seed)
        rec.step(2)
        rec.expect(a[1] == b[1] and T.diff(T.table(a[0]), T.table(b[0])) is None, "seed", f"seed {seed} is not reproducible", task)
    missing = [g[:] for g in gl]
    missing[0] = missing[0] + [((5, 6), (5, 6))]
    rec.step()
    rec.expect(rec.raises(grouping.bootstrap_average_blpairs, u, blpair_groups=missing), "missing", "an absent baseline-pair was sampled", task)
    rec.sample(f"{task} -> {n} draws")


def many(rec, task):
    """Several objects: multiplicities are drawn over all of them; each average uses its own share."""
    from hera_pspec import grouping

    ta = bool(task["ta"])
    ua = B.uvp(blps=BL[:2], tps=[(0, 0), (1, 1)], spws=[(0, 3, 3), (10, 4, 4)], pols=[(-5, -5), (-6, -6)])
    ub = B.uvp(blps=[BL[2], BL[1]], tps=[(4, 4), (7, 7)], spws=[(0, 3, 3)], pols=[(-6, -6)], salt=1)
    us, members = [ua, ub], [[BL[0], BL[1]], [BL[1], BL[2]]]  # in group order
    if task.get("three"):
        us = [B.uvp(blps=[BL[2]], tps=[(4, 4), (7, 7)], spws=[(0, 3, 3)], pols=[(-6, -6)], salt=1), B.uvp(blps=[BL[1]], tps=[(5, 5), (6, 6)], spws=[(0, 3, 3)], pols=[(-6, -6)], salt=2)]
        us.insert(task["three"] - 1, ua)
        members = [[BL[2]], [BL[1]]]
        members.insert(task["three"] - 1, [BL[0], BL[1]])
    vs, ts = [A.view(u) for u in us], [T.table(u) for u in us]
    ends = np.cumsum([len(m) for m in members])
    sk, pol = (0, 3, 3), (-6, -6)
    cut = lambda v: {k: c for k, c in v.items() if k[0] == sk and k[1] == pol}  # noqa: E731
    gl = [BL[:3]]
    for seq in itertools.product(range(4), repeat=4):
        cnt = [sum(1 for x in seq if x == i) for i in range(4)]
        tr = dict(task, draw=seq)
        share = [cnt[e - len(m) : e] for e, m in zip(ends, members)]
        dead = any(sum(w) == 0 for w in share)
        with Draws([seq]) as d:
            try:
                r, err = grouping.bootstrap_average_blpairs(list(us), blpair_groups=[list(g) for g in gl], time_avg=ta), None
            except Exception as e:  # noqa: BLE001
                r, err = None, e
        rec.step()
        rec.trace()
        if dead and d.used:
            continue  # an object without any drawn member
        if not rec.expect(err is None, "many:raised", repr(err), tr):
            return
        avg, wl = r
        rec.expect(len(avg) == len(wl) == len(us) and sum(map(sum, sum(wl, []))) == 4, "many:weights", wl, tr)
        if d.used:
            rec.expect([w[0] for w in wl] == share, "many:draw", f"{seq}: {wl}", tr)
        for o, v, m, w in zip(avg, vs, members, wl):
            want = A.average(cut(v), groups=[m], weights=w, time_avg=ta)
            df = A.close(A.view(o), want, rtol=1e-9)
            rec.expect(df is None, f"many:{df and df[0]}", df and df[1], tr)
        rec.state(("m", task.get("three"), ta, cnt))
        rec.outcome(("m", cnt))
    rec.expect(all(T.diff(T.table(u), t) is None for u, t in zip(us, ts)), "many:input", "", task)
    if not ta:
        uc = B.uvp(blps=BL[:2], tps=[(0, 0)], spws=[(0, 3, 3)], pols=[(-6, -6)])
        rec.step()
        rec.expect(rec.raises(grouping.bootstrap_average_blpairs, [ua, uc], blpair_groups=[BL[:2]]), "many:times", "different numbers of times accepted without time average", task)


def spread(boots, key, kind, ci=None):
    from astropy import stats as astats

    x = np.array([b.get_data(key) for b in boots])
    if kind == "std":
        return x.real.std(axis=0) + 1j * x.imag.std(axis=0)
    if kind == "robust":
        return np.sqrt(astats.biweight_midvariance(x.real, axis=0)) + 1j * np.sqrt(astats.biweight_midvariance(x.imag, axis=0))
    return np.percentile(x.real, ci, axis=0) + 1j * np.percentile(x.imag, ci, axis=0)


def red_groups(v):
    """Redundant groups of this array, by first baseline vector."""
    out = {}
    for b in dict.fromkeys(k[2] for k in v):
        (x0, y0), (x1, y1) = B.ANT[b[0][0]], B.ANT[b[0][1]]
        out.setdefault((round(x1 - x0, 3), round(y1 - y0, 3)), []).append(b)
    return list(out.values())


def error(rec, task):
    from hera_pspec import grouping

    u0, v0, t0 = source(task["cfg"])
    blps = CFG[task["cfg"]]["blps"]
    ta = bool(task["ta"])
    n = 0
    for gi, (std, rob, ci), seed in itertools.product([None] + list(range(len(GROUPS[task["cfg"]]))), [(1, 0, None), (0, 1, [16.0, 84.0]), (1, 1, [2.5]), (0, 0, [50.0])], (0, 3)):
        n += 1
        gl = None if gi is None else [[blps[i] for i in g] for g in GROUPS[task["cfg"]][gi]]
        N = 2 + n % 4
        tr = dict(task, groups=gi, std=std, robust=rob, ci=ci, seed=seed, N=N)
        kw = dict(blpair_groups=copy.deepcopy(gl), time_avg=ta, Nsamples=N, seed=seed, normal_std=bool(std), robust_std=bool(rob), cintervals=ci)
        ok, r = rec.attempt("error", grouping.bootstrap_resampled_error, u0, trace=tr, **kw)
        rec.step()
        rec.trace()
        if not ok:
            continue
        avg, boots, wgts = r
        rec.expect(len(boots) == len(wgts) == N, "error:N", (len(boots), len(wgts)), tr)
        if gl is None:
            # all pairs of these objects that share their first baseline vector are redundant
            gl = red_groups(v0)
            key = lambda g: sorted(map(repr, g))  # noqa: E731
            fld = A.average(v0, groups=gl, time_avg=ta)
        else:
            fld = A.average(v0, groups=gl, time_avg=ta)
        names = set((["bs_std"] if std else []) + (["bs_robust_std"] if rob else []) + [f"bs_cinterval_{c:05.2f}" for c in ci or []])
        got = A.view(avg)
        base = {k: {f: x for f, x in c.items() if not f.startswith("stat:")} for k, c in got.items()}
        want = {k: {f: x for f, x in c.items() if not f.startswith("stat:")} for k, c in fld.items()}
        df = A.close(base, want, rtol=1e-9)
        rec.expect(df is None, f"error:avg:{df and df[0]}", df and df[1], tr)
        rec.expect(set(getattr(avg, "stats_array", {})) == names, "error:names", (list(getattr(avg, "stats_array", {})), names), tr)
        if df is None and set(getattr(avg, "stats_array", {})) == names:
            for k in avg.get_all_keys():
                for nm in names:
                    w = spread(boots, k, "std") if nm == "bs_std" else spread(boots, k, "robust") if nm == "bs_robust_std" else spread(boots, k, "ci", float(nm.split("_")[-1]))
                    g = avg.get_stats(nm, k)
                    rec.expect(np.allclose(g, w, rtol=1e-10, atol=1e-10, equal_nan=True), "error:" + nm[:11], f"{k}: got {g.ravel()[:3]} want {w.ravel()[:3]}", tr)
            if len(gl) == len(wgts[0]) and gi is not None:
                for b, w in zip(boots, wgts):
                    if not weights_ok(rec, w, gl, tr):
                        break
                    want = A.average(v0, groups=gl, weights=w, time_avg=ta)
                    for c in want.values():
                        for f in [f for f in c if f.startswith("stat:")]:
                            del c[f]
                    df = A.close(A.view(b), want, rtol=1e-9)
                    rec.expect(df is None, f"error:boot:{df and df[0]}", df and df[1], tr)
        a2, b2, w2 = grouping.bootstrap_resampled_error(u0, **kw)
        rec.step()
        rec.expect(w2 == wgts and T.diff(T.table(a2), T.table(avg)) is None, "error:seed", "the same seed gave another result", tr)
        rec.state(("e", repr(wgts), gi))
        rec.outcome(("e", repr(wgts)))
    # every sample, and every group of a sample, is drawn anew; without a seed the draws follow the global state
    for gi, g in enumerate(GROUPS[task["cfg"]]):
        gl = [[blps[i] for i in x] for x in g]
        if not any(len(x) > 1 for x in gl):
            continue
        seen = {}
        for seed in (0, 3, None):
            np.random.seed(17)
            _, boots, wgts = grouping.bootstrap_resampled_error(u0, blpair_groups=copy.deepcopy(gl), time_avg=ta, Nsamples=24, seed=seed, normal_std=True)
            rec.step()
            tr = dict(task, groups=gi, seed=seed, N=24)
            for j, x in enumerate(gl):
                col = [tuple(w[j]) for w in wgts]
                rec.expect(len(x) == 1 or len(set(col)) > 1, "error:fresh", f"all samples have weights {col[0]}", tr)
                for k in range(j):
                    if len(gl[k]) == len(x) > 1:
                        rec.expect(any(tuple(w[j]) != tuple(w[k]) for w in wgts), "error:groups", "two groups share their draws", tr)
            seen[seed] = repr(wgts)
        rec.expect(len(set(seen.values())) == 3, "error:seeds", "different seeds gave the same draws", dict(task, groups=gi))
    for bad in ([[blps[0]], [((1, 2), (5, 6))]], [[((1, 2), (5, 6))], [blps[0]]], [[blps[0], ((1, 2), (5, 6))]]):
        rec.expect(rec.raises(grouping.bootstrap_average_blpairs, [u0], copy.deepcopy(bad), time_avg=ta, seed=0), "error:missing", "absent baseline-pairs accepted", dict(task, bad=repr(bad)))
    rec.expect(T.diff(T.table(u0), t0) is None, "error:input", "the input was modified", task)


BASE = dict(Nsamples=2, seed=5, robust_std=False, normal_std=True)
RUNOPT = [{}, dict(normal_std=False, cintervals=[16.0, 84.0]), dict(robust_std=True), dict(time_avg=True, normal_std=False, robust_std=True), dict(blpair_groups=1, Nsamples=3), dict(seed=11, time_avg=True), dict(bl_error_tol=40.0), dict(normal_std=False)]


def run_container(rec, task):
    from hera_pspec import PSpecContainer, grouping

    with tempfile.TemporaryDirectory() as d:
        n = 0
        us = {("g1", "x"): "two", ("g1", "x_y"): "wrap", ("g2", "x"): "four"}
        alln = ["/".join(k) for k in us]
        for spectra, as_path in itertools.product([None, [alln[0]], [alln[2]], [alln[1], alln[0]], [alln[0], "g1/zz"]], (0, 1)):
            n += 1
            f = os.path.join(d, f"c{n}.h5")
            psc = PSpecContainer(f, mode="rw", keep_open=False, swmr=False)
            for (g, s), c in us.items():
                psc.set_pspec(g, s, source(c)[0])
            old = "x_avg" if task["exist"] < 3 else "x_bs0"
            if task["exist"]:
                psc.set_pspec("g1", old, source("folded")[0])
            tr = dict(task, spectra=spectra, as_path=as_path)
            names = alln if spectra is None else [s for s in spectra if s in alln]
            names = list(names) + (["g1/" + old] if spectra is None and task["exist"] else [])
            over = task["exist"] in (2, 4)
            before = {(g, s): T.table(psc.get_pspec(g, s)) for g in psc.groups() for s in psc.spectra(g)}
            opt = RUNOPT[(n + task["keep"] + 3 * task["exist"]) % len(RUNOPT)]
            if "blpair_groups" in opt:
                c = "two" if any("/x" == s[2:4] and len(s) == 4 and s[:2] == "g1" for s in names) else "wrap" if names and names[0] == alln[1] else "four"
                opt = dict(opt, blpair_groups=[[CFG[c]["blps"][i] for i in g] for g in GROUPS[c][1]]) if len(names) == 1 else {}
            kw = dict(spectra=spectra, keep_samples=bool(task["keep"]), overwrite=over, verbose=False, **dict(BASE, **opt))
            tr = dict(tr, opt=opt)
            clash = (task["exist"] == 1 or task["exist"] == 3 and task["keep"]) and "g1/x" in names
            try:
                grouping.bootstrap_run(f if as_path else psc, **kw)
                err = None
            except Exception as e:  # noqa: BLE001
                err = e
            rec.step()
            rec.trace()
            rec.expect((err is not None) == clash, "run:raised", repr(err), tr)
            psc = PSpecContainer(f, mode="r", keep_open=False, swmr=False)
            after = {(g, s): psc.get_pspec(g, s) for g in psc.groups() for s in psc.spectra(g)}
            new = set()
            for nm in names:
                g, s = nm.split("/")
                new.add((g, s + "_avg"))
                if task["keep"]:
                    new |= {(g, s + f"_bs{i}") for i in range(kw["Nsamples"])}
            if not clash:
                rec.expect(set(after) == set(before) | new, "run:names", (sorted(after), sorted(new)), tr)
            for k, t in before.items():
                if k not in new and rec.expect(k in after, "run:lost", k, tr):
                    rec.expect(T.diff(T.table(after[k]), t) is None, "run:changed", f"{k} changed", tr)
            if clash:
                rec.expect(T.diff(T.table(after[("g1", old)]), before[("g1", old)]) is None, "run:overwritten", f"an existing {old} was replaced without overwrite", tr)
                continue
            for nm in names:
                g, s = nm.split("/")
                if (g, s) in new:
                    continue
                src = source(us.get((g, s), "folded"))[0]
                avg, boots, _ = grouping.bootstrap_resampled_error(src, **dict(BASE, **opt))
                dd = A.close(A.view(after[(g, s + "_avg")]), A.view(avg), rtol=1e-10)
                rec.expect(dd is None, f"run:avg:{dd and dd[0]}", dd and dd[1], tr)
                if task["keep"]:
                    for i, b in enumerate(boots):
                        dd = A.close(A.view(after[(g, s + f"_bs{i}")]), A.view(b), rtol=1e-10)
                        rec.expect(dd is None, f"run:boot:{dd and dd[0]}", dd and dd[1], tr)
            rec.state(("r", sorted(after), repr(tr)))
        rec.sample(f"{task} -> {n} runs")


def grouping_helpers(rec, task):
    """group_baselines cuts its list into equal consecutive groups; sample_baselines draws as many as it is given."""
    from hera_pspec import grouping

    n = task["n"]
    for kind, seed, keep, rnd in itertools.product((0, 1), (0, 1, 7), (False, True), (False, True)):
        bls = [(i, i + 1 + (i * 7) % 3) for i in range(n)] if kind == 0 else [(5, 6)] * (n // 2) + [(i, 9) for i in range(n - n // 2)]
        for N in range(1, n + 3):
            tr = dict(task, N=N, keep=keep, randomize=rnd, seed=seed, kind=kind)
            arg = list(bls)
            call = lambda: grouping.group_baselines(arg, N, keep_remainder=keep, randomize=rnd, seed=seed)  # noqa: E731
            rec.step()
            rec.trace()
            if N > n:
                rec.expect(rec.raises(call), "group:many", "more groups than baselines accepted", tr)
                continue
            ok, g = rec.attempt("group", call, trace=tr)
            if not ok:
                continue
            rec.expect(arg == bls, "group:argument", "the caller's list was modified", tr)
            size = n // N
            lens = [size] * N
            if keep:
                lens[-1] += n - size * N
            rec.expect([len(x) for x in g] == lens, "group:sizes", f"{[len(x) for x in g]} want {lens}", tr)
            flat = [b for x in g for b in x]
            if rnd:
                left = list(bls)
                for b in flat:
                    if not rec.expect(b in left, "group:foreign", f"{b} used too often", tr):
                        break
                    left.remove(b)
                rec.expect(call() == g, "group:seed", "the same seed gave other groups", tr)
            else:
                rec.expect(flat == bls[:len(flat)], "group:order", f"{flat}", tr)
            rec.state(("g", n, N, keep, rnd, repr(g)))
        for arg in ([list(bls), [[b, (0, 1)] for b in bls]]):
            if n == 0:
                continue
            keep_arg = copy.deepcopy(arg)
            a, b = grouping.sample_baselines(arg, seed=seed), grouping.sample_baselines(arg, seed=seed)
            rec.step(2)
            rec.expect(a == b and len(a) == len(arg) and all(x in arg for x in a) and arg == keep_arg, "sample_baselines", f"{a}", task)


def run(task, rec):
    {"groups": grouping_helpers, "draws": draws, "error": error, "many": many, "run": run_container}[task["mode"]](rec, task)
