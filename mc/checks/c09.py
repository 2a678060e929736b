"""C09 - integer encodings are one-to-one and every spelling of a key addresses the same spectrum."""

import copy
import itertools

import numpy as np

from mc import build as B
from mc import table as T
from mc.checks.c08 import CONFIGS, STR, subsets

PID = "C09"
LEVEL = "model_checking"
RULE = (
    "Encodings: every baseline of antennas 0..899, every baseline-pair over 15 boundary antenna numbers and every "
    "polarization-pair of the twelve polarizations, encoded, decoded and conjugated. Keys: on every synthetic object "
    "every (window, baseline-pair, polarization-pair) in every spelling (tuple, dictionary, integers, nested tuples, "
    "strings) through every accessor, with every subset of rows flagged; every statistic store; every window / "
    "baseline-pair / polarization list through every index function; each compared with the labelled cells. "
    "States are distinct encodings and keys, transitions calls."
)
ASSUMPTIONS = ["antenna numbers below 900 (the documented three-digit encoding)"]

EDGE = [0, 1, 2, 9, 10, 99, 100, 101, 255, 349, 350, 511, 512, 898, 899]
POLS = [-8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4]
OBJ = dict(CONFIGS)
OBJ["exact"] = dict(blps=CONFIGS["bt"]["blps"][:2], tps=[(0, 0), (1, 2)], spws=[(0, 4, 4), (7, 3, 5)], pols=[(-6, -5), (1, 1)], exact=True, stats=["a"])


def tasks(tier, seed):
    out = [{"kind": "bl", "lo": i, "hi": i + 100} for i in range(0, 900, 100)]
    out += [{"kind": "blp", "a": a} for a in EDGE]
    out += [{"kind": "pol"}]
    out += [{"kind": "keys", "cfg": n} for n in OBJ]
    out += [{"kind": "stats", "cfg": n} for n in OBJ]
    out += [{"kind": "lists", "cfg": n} for n in OBJ]
    return out


def run_bl(task, rec):
    from hera_pspec import uvpspec_utils as uu

    seen = set()
    for a in range(task["lo"], task["hi"]):
        for b in range(900):
            i = uu._antnums_to_bl((a, b))
            rec.step(3)
            if i != B.ants_to_bl((a, b)) or not isinstance(i, (int, np.integer)):
                rec.fail("bl:encode", f"({a},{b}) -> {i}")
            if uu._bl_to_antnums(i) != (a, b) or uu._bl_to_antnums(np.int32(i)) != (a, b):
                rec.fail("bl:decode", f"{i} -> {uu._bl_to_antnums(i)}")
            if uu._conj_bl_int(i) != B.ants_to_bl((b, a)):
                rec.fail("bl:conj", f"{i} -> {uu._conj_bl_int(i)}")
            seen.add(i)
    rec.evaluations += 4 * len(seen)
    rec.states |= seen
    rec.expect(len(seen) == 900 * (task["hi"] - task["lo"]), "bl:collision", "two baselines share an integer")


def run_blp(task, rec):
    from hera_pspec import uvpspec_utils as uu

    a = task["a"]
    seen = set()
    for b, c, d in itertools.product(EDGE, repeat=3):
        p = ((a, b), (c, d))
        i = uu._antnums_to_blpair(p)
        rec.step(6)
        rec.evaluations += 6
        if i != B.ants_to_blp(p):
            rec.fail("blp:encode", f"{p} -> {i}")
            continue
        for j in (i, np.int64(i)):
            if uu._blpair_to_antnums(j) != p:
                rec.fail("blp:decode", f"{i} -> {uu._blpair_to_antnums(j)}")
        if tuple(uu._blpair_to_bls(i)) != (B.ants_to_bl((a, b)), B.ants_to_bl((c, d))) or tuple(uu._blpair_to_bls(p)) != tuple(uu._blpair_to_bls(i)):
            rec.fail("blp:bls", f"{i} -> {uu._blpair_to_bls(i)}")
        if uu._conj_blpair_int(i) != B.ants_to_blp(((c, d), (a, b))):
            rec.fail("blp:swap", f"{i} -> {uu._conj_blpair_int(i)}")
        for w, q in (("first", ((b, a), (c, d))), ("second", ((a, b), (d, c))), ("both", ((b, a), (d, c)))):
            if uu._conj_blpair(i, which=w) != B.ants_to_blp(q):
                rec.fail("blp:conj-" + w, f"{i} -> {uu._conj_blpair(i, which=w)}")
        seen.add(i)
    rec.states |= seen


def run_pol(rec):
    from hera_pspec import uvpspec_utils as uu

    names = {-8: "yx", -7: "xy", -6: "yy", -5: "xx", -4: "lr", -3: "rl", -2: "ll", -1: "rr", 1: "pI", 2: "pQ", 3: "pU", 4: "pV"}
    seen = {}
    for p, q in itertools.product(POLS, repeat=2):
        ints = set()
        for a, b in itertools.product((p, names[p]), (q, names[q])):
            rec.step()
            ints.add(int(uu.polpair_tuple2int((a, b))))
        rec.expect(len(ints) == 1, "pol:spelling", f"{(p, q)} -> {ints}")
        i = ints.pop()
        rec.expect(i == B.pp_int((p, q)), "pol:encode", f"{(p, q)} -> {i}")
        rec.expect(i not in seen, "pol:collision", f"{(p, q)} and {seen.get(i)} share {i}")
        seen[i] = (p, q)
        for j in (i, np.int32(i)):
            rec.expect(uu.polpair_int2tuple(j) == (p, q), "pol:decode", f"{i} -> {uu.polpair_int2tuple(j)}")
            rec.expect(tuple(s.lower() for s in uu.polpair_int2tuple(j, pol_strings=True)) == (names[p].lower(), names[q].lower()), "pol:strings", f"{i}")
        rec.state(i)
    allp = list(seen.values())
    rec.expect([int(x) for x in uu.polpair_tuple2int(allp)] == list(seen), "pol:list-encode")
    rec.expect(uu.polpair_int2tuple(list(seen)) == allp and uu.polpair_int2tuple(np.array(list(seen))) == allp, "pol:list-decode")
    for ori, m in (("east", {"ee": -5, "nn": -6, "en": -7, "ne": -8}), ("north", {"nn": -5, "ee": -6, "ne": -7, "en": -8})):
        for s, t in itertools.product(m, repeat=2):
            w = B.pp_int((m[s], m[t]))
            rec.expect(uu.polpair_tuple2int((s, t), x_orientation=ori) == w, "pol:orientation", f"{s},{t},{ori}")
            ok, r = rec.attempt("pol:orientation-list", uu.polpair_tuple2int, [(s, t)], x_orientation=ori)
            if ok:
                rec.expect(list(r) == [w], "pol:orientation-list", f"{s},{t},{ori} -> {r}")
    for bad in (109, 1100, 1125, 2512, 2525, 2600):
        rec.expect(rec.raises(uu.polpair_int2tuple, bad), "pol:range", f"{bad} decoded")


def spellings(i, blp, pp):
    sp = [i, np.int64(i), np.uint16(i)]
    bp = [blp, B.ants_to_blp(blp), np.int64(B.ants_to_blp(blp))]
    po = [pp, B.pp_int(pp), np.int32(B.pp_int(pp)), (STR[pp[0]], STR[pp[1]]), (STR[pp[0]].upper() if STR[pp[0]] in ("xx", "yy") else STR[pp[0]], STR[pp[1]])]
    if pp[0] == pp[1]:
        po.append(STR[pp[0]])
    for a, b, c in itertools.product(sp, bp, po):
        yield (a, b, c)
        yield {"spw": a, "blpair": b, "polpair": c}


def fields(u, key, of):
    x = {"data": u.get_data(key, omit_flags=of), "wgt": u.get_wgts(key, omit_flags=of), "int": u.get_integrations(key, omit_flags=of), "nsmp": u.get_nsamples(key, omit_flags=of)}
    if hasattr(u, "window_function_array"):
        x["win"] = u.get_window_function(key, omit_flags=of)
    if hasattr(u, "cov_array_real"):
        x["covr"] = u.get_cov(key, component="real", omit_flags=of)
        x["covi"] = u.get_cov(key, component="imag", omit_flags=of)
    for s in getattr(u, "stats_array", {}):
        x["stat:" + s] = u.get_stats(s, key, omit_flags=of)
    if not of:  # by default every row, and the real part
        y = {"data": u.get_data(key), "wgt": u.get_wgts(key), "int": u.get_integrations(key), "nsmp": u.get_nsamples(key)}
        if "win" in x:
            y["win"] = u.get_window_function(key)
        if "covr" in x:
            y["covr"] = u.get_cov(key)
        for s in getattr(u, "stats_array", {}):
            y["stat:" + s] = u.get_stats(s, key)
        for f in y:
            if not T.same(x[f], y[f]):
                raise RuntimeError(f"{f}: the default differs from keeping flagged rows")
    return x


def vis(c, folded):
    v = T.visible(c, folded)
    if c["data"].shape and np.ndim(c.get("win", 0)) == 3 and folded:
        nd = c["data"].shape[0]
        v["win"] = np.asarray(c["win"])[-(nd - nd // 2 - 1):]
    return v


def run_keys(task, rec):
    c = OBJ[task["cfg"]]
    u = B.uvp(**c)
    t = T.table(u)
    rows = T.row_keys(u)
    sp = [T.spw_key(u, i) for i in range(u.Nspws)]
    blps = list(dict.fromkeys(r[0] for r in rows))
    pols = [tuple(p) for p in c["pols"]]
    names = {-5: "XX", -6: "YY", 1: "pI", 2: "pQ"}
    want = {(i, b, (names[p[0]], names[p[1]])) for i in range(len(sp)) for b in blps for p in pols}
    got = [(k[0], k[1], tuple({"xx": "XX", "yy": "YY"}.get(s, s) for s in k[2])) for k in u.get_all_keys()]
    rec.expect(len(got) == len(want) and set(got) == want, "all-keys", f"{got[:4]}")
    rec.expect(u.get_blpairs() == blps, "get_blpairs", u.get_blpairs())
    gp = [tuple(s.lower() for s in p) for p in u.get_polpairs()]
    rec.expect(len(gp) == len(pols) and set(gp) == {(STR[p[0]].lower(), STR[p[1]].lower()) for p in pols}, "get_polpairs", gp)
    for i, b, p in itertools.product(range(len(sp)), blps, pols):
        mine = [n for n, r in enumerate(rows) if r[0] == b]
        # every spelling reaches the same place
        for key in spellings(i, b, p):
            rec.step()
            ok, r = rec.attempt("key", u.key_to_indices, key, trace=repr(key))
            if ok:
                rec.expect(int(r[0]) == i and list(r[1]) == mine and int(r[2]) == pols.index(p), "key:indices", f"{key} -> {r}", repr(key))
        rec.state((task["cfg"], i, b, p))
        for key in ((i, b, p), {"spw": i, "blpair": B.ants_to_blp(b), "polpair": (STR[p[0]], STR[p[1]])}, (i, b, B.pp_int(p))):
            x = fields(u, key, False)
            for n, m in enumerate(mine):
                w = vis(t[(sp[i], p) + rows[m]], u.folded)
                for f in x:
                    rec.expect(len(x[f]) == len(mine) and T.same(x[f][n], w[f]), "getter:" + f, f"{key} row {n}", repr(key))
            rec.trace()
        # flagged rows: every subset
        if len(mine) <= 3:
            for m in range(2 ** len(mine)):
                v = copy.copy(u)
                v.integration_array = {j: a.copy() for j, a in u.integration_array.items()}
                keep = []
                for q, row in enumerate(mine):
                    if m >> q & 1:
                        v.integration_array[i][row, pols.index(p)] = 0.0
                    else:
                        keep.append(q)
                x0 = fields(u, (i, b, p), False)
                x = fields(v, (i, b, p), True)
                rec.step()
                for f in x:
                    rec.expect(len(x[f]) == len(keep) and T.same(x[f], np.asarray(x0[f])[keep]), "omit:" + f, f"flagged {m:b}: {len(x[f])} rows", repr((i, b, p, m)))
    for key in ((len(sp), blps[0], pols[0]), (0, ((7, 8), (7, 8)), pols[0]), (0, blps[0], (-8, -8)), (0, blps[0]), (0, blps[0], pols[0], 1)):
        rec.expect(rec.raises(u.get_data, key), "bad-key-accepted", repr(key))


def run_stats(task, rec):
    c = OBJ[task["cfg"]]
    base = B.uvp(**c)
    rows = T.row_keys(base)
    sp = [T.spw_key(base, i) for i in range(base.Nspws)]
    blps = list(dict.fromkeys(r[0] for r in rows))
    pols = [tuple(p) for p in c["pols"]]
    t0 = T.table(base)
    for i, b, p, name in itertools.product(range(len(sp)), blps, pols, ("new", "a")):
        u = copy.copy(base)
        if hasattr(base, "stats_array"):
            u.stats_array = copy.deepcopy(base.stats_array)
        mine = [n for n, r in enumerate(rows) if r[0] == b]
        nd = u.data_array[i].shape[1]
        val = (np.arange(len(mine) * nd).reshape(len(mine), nd) + 1.0) * (1 + 1j)
        had = hasattr(base, "stats_array") and name in base.stats_array
        key = (i, b, p) if name == "new" else (i, B.ants_to_blp(b), B.pp_int(p))
        ok, _ = rec.attempt("set_stats", u.set_stats, name, key, val, trace=repr(key))
        rec.step()
        rec.trace()
        if not ok:
            continue
        t = T.table(u)
        rec.state((task["cfg"], i, b, p, name))
        for k in t:
            if k[0] == sp[i] and k[1] == p and k[2] == b:
                n = mine.index([m for m in mine if rows[m] == k[2:]][0])
                rec.expect(T.same(t[k]["stat:" + name], val[n]), "set_stats:value", repr(k), repr(key))
            elif had:
                rec.expect(T.same(t[k]["stat:" + name], t0[k]["stat:" + name]), "set_stats:elsewhere", repr(k), repr(key))
            else:
                rec.expect(bool(np.all(np.isnan(t[k]["stat:" + name]))), "set_stats:elsewhere-unset", repr(k), repr(key))
        d = T.diff(t, t0, fields=[f for f in next(iter(t0.values())) if f != "stat:" + name])
        rec.expect(d is None, "set_stats:other", d, repr(key))
        for shape in ((len(mine), nd + 1), (len(mine) + 1, nd), (len(mine),)):
            rec.expect(rec.raises(u.set_stats, name, key, np.ones(shape)), "set_stats:shape", repr(shape))
        rec.expect(rec.raises(u.get_stats, "absent", key), "get_stats:absent")


def run_lists(task, rec):
    c = OBJ[task["cfg"]]
    u = B.uvp(**c)
    rows = T.row_keys(u)
    ns = u.Nspws
    blps = list(dict.fromkeys(r[0] for r in rows))
    pols = [tuple(p) for p in c["pols"]]
    rng = u.get_spw_ranges()
    for i, s in enumerate(c["spws"]):
        f = u.freq_array[np.asarray(u.spw_freq_array) == i]
        rec.expect(np.allclose(f, B.F0 + B.DF * np.arange(s[0], s[0] + s[1])), "spw:freqs")
        vis_nd = s[2] - s[2] // 2 - 1 if u.folded else s[2]
        r = rng[i]
        rec.expect(abs(r[0] - f[0]) < 1 and abs(r[1] - f[0] - s[1] * B.DF) < 1 and r[2] == s[1] and r[3] == vis_nd, "spw:range", f"{r} for {s}")
        rec.expect(len(u.get_dlys(i)) == vis_nd and len(u.get_dlys(r)) == vis_nd, "spw:dlys")
    for sub in subsets(ns):
        for perm in itertools.permutations(sub):
            for q in ([i for i in perm], [rng[i] for i in perm]):
                rec.step(3)
                rec.state((task["cfg"], "spw", tuple(perm)))
                rec.expect(list(u.spw_to_freq_indices(q)) == [n for n, s in enumerate(u.spw_freq_array) if s in sub], "spw:freq-indices", repr(q))
                wd = [n for n, s in enumerate(u.spw_dly_array) if s in sub and not (u.folded and u.dly_array[n] < 1e-10)]
                rec.expect(list(u.spw_to_dly_indices(q)) == wd, "spw:dly-indices", repr(q))
                rec.expect(list(u.spw_indices(q)) == sub, "spw:indices", repr(q))
    for sub in subsets(len(blps)):
        for perm in itertools.permutations(sub):
            want = [n for n, r in enumerate(rows) if blps.index(r[0]) in sub]
            for q in ([blps[i] for i in perm], [B.ants_to_blp(blps[i]) for i in perm]):
                rec.step()
                rec.expect(list(u.blpair_to_indices(q)) == want, "blp:indices", repr(q))
                for t in dict.fromkeys((r[1] + r[2]) / 2 for r in rows):
                    w = [n for n in want if (rows[n][1] + rows[n][2]) / 2 == t]
                    rec.expect(list(u.time_to_indices(B.jd(t), blpairs=q)) == w, "time:indices", f"t={t} {q}")
    for t in dict.fromkeys((r[1] + r[2]) / 2 for r in rows):
        rec.expect(list(u.time_to_indices(B.jd(t))) == [n for n, r in enumerate(rows) if (r[1] + r[2]) / 2 == t], "time:indices", f"t={t}")
    for sub in subsets(len(pols)):
        for perm in itertools.permutations(sub):
            for q in ([pols[i] for i in perm], [B.pp_int(pols[i]) for i in perm], np.array([B.pp_int(pols[i]) for i in perm]), [(STR[pols[i][0]], STR[pols[i][1]]) for i in perm]):
                rec.step()
                rec.expect(list(u.polpair_to_indices(q)) == sub, "pol:indices", repr(q))
    # per-row geometry follows the row's own baseline-pair
    lens = {b: np.linalg.norm(np.array(B.ANT[b[1]]) - np.array(B.ANT[b[0]])) for p in blps for b in p}
    seps = u.get_blpair_seps()
    rec.expect(np.allclose(seps, [np.mean([lens[r[0][0]], lens[r[0][1]]]) for r in rows], atol=1e-3), "seps", f"{seps}")
    for sec in (False, True):
        v = u.get_blpair_blvecs(use_second_bl=sec)
        w = [np.array(B.ANT[b[int(sec)][1]]) - np.array(B.ANT[b[int(sec)][0]]) for b in blps]
        rec.expect(v.shape == (len(blps), 3) and np.allclose(v[:, :2], w, atol=1e-2), "blvecs", f"{v} {w}")
    for i, s in enumerate(c["spws"]):
        z = 1420.40575e6 / np.mean(B.F0 + B.DF * np.arange(s[0], s[0] + s[1])) - 1
        for lh in (True, False):
            kp, kl = u.get_kperps(i, little_h=lh), u.get_kparas(i, little_h=lh)
            a, d = u.cosmo.bl_to_kperp(z, little_h=lh), u.cosmo.tau_to_kpara(z, little_h=lh)
            rec.expect(np.allclose(kp, seps * a, rtol=1e-5), "kperp", f"{kp}")
            rec.expect(np.allclose(kl, u.get_dlys(i) * d, rtol=1e-5, atol=1e-12), "kpara", f"{kl}")
            rec.step(2)
    # downweighting of delays relative to the baseline's own line
    if hasattr(u, "stats_array"):
        nm = list(u.stats_array)[0]
        for m, b, above in itertools.product((0.0, 20.0, 100.0), (0.0, 900.0, 2500.0), (False, True)):
            v = copy.copy(u)
            v.stats_array = copy.deepcopy(u.stats_array)
            if u.folded:
                continue
            v.set_stats_slice(nm, m, b, above=above, val=7.0)
            rec.step()
            for i in range(ns):
                dl = np.abs(u.get_dlys(i)) * 1e9
                for n, r in enumerate(rows):
                    lim = seps[n] * m + b
                    hit = dl > lim if above else dl < lim
                    w = np.where(hit[:, None], 7.0, u.stats_array[nm][i][n])
                    rec.expect(T.same(v.stats_array[nm][i][n], w), "stats-slice", f"m={m} b={b} above={above}")


def run(task, rec):
    k = task["kind"]
    if k == "bl":
        run_bl(task, rec)
    elif k == "blp":
        run_blp(task, rec)
    elif k == "pol":
        run_pol(rec)
    elif k == "keys":
        run_keys(task, rec)
    elif k == "stats":
        run_stats(task, rec)
    else:
        run_lists(task, rec)
    rec.sample(task)
