"""C04 - merging the spectra of a container combines spectra of the same name and loses nothing."""

import contextlib
import io
import itertools
import os
import shutil

from mc import build as B
from mc import table as T
from mc.faults import Plan, installed
from mc.pscutil import fresh

PID = "C04"
LEVEL = "model_checking"
RULE = (
    "Every set of up to four (thorough five) names out of pools that differ by extension, share a prefix or a substring, or do not "
    "follow the convention, for four naming conventions, with payloads that can and cannot be combined x {overwrite} x {kept open, "
    "reopened, given as a path} x {history} x {groups}: the container is compared with a map whose names are merged by the "
    "documented split. For a sub-family a failure is injected at every HDF5 step of the merge: no stored cell may be lost and no "
    "other spectrum may change. States are distinct container contents; transitions are merges."
)
ASSUMPTIONS = ["names of one convention per container, plus names that do not follow it", "injected failures surface as exceptions"]

BL = [((1, 2), (1, 2)), ((1, 2), (2, 3)), ((4, 5), (4, 5))]
P = [(-5, -5), (-6, -6)]
PAY = {"A": (0, 0, 0), "B": (1, 0, 1), "E": (2, 0, 2), "C": (0, 1, 3), "D": (0, 0, 4)}
CONV = {
    "x": dict(split="_x_", ext="_", pool=["d1_x_d2_a", "d1_x_d2_b", "d1_x_d2", "d1_x_d20_a", "d1_x_d20_b", "dd1_x_d2_a", "d1_x_d3_c", "foo", "foo_1"]),
    "none": dict(split=None, ext="_", pool=["uvp_1", "uvp_2", "uvp_1_b", "uvp", "my_uvp_1", "uvp2_1", "uvp2_2", "vp_1"]),
    "dot": dict(split="", ext=".", pool=["s.1", "s.2", "s", "ss.1", "s_x.1", "t.s.1"]),
    "dash": dict(split="-", ext="+", pool=["a-b+1", "a-b+2", "a-bb+1", "aa-b+1", "a-b", "q+1"]),
}
ASSIGN = ["ABEC", "CABE", "ADBE", "ACBD", "BBAE"]


def objects():
    out = {}
    for k, (b, p, salt) in PAY.items():
        u = B.uvp(blps=[BL[b]], tps=[(0, 0), (1, 3)], spws=[(0, 3, 3)], pols=[P[p]], win=False, salt=salt, history=f"hist-{k};")
        del u.cosmo
        out[k] = u
    return out


def base(name, c):
    """The name a spectrum is merged into, or None if it does not follow the convention."""
    if not c["split"]:
        return name.split(c["ext"])[0]
    parts = name.split(c["split"])
    if len(parts) != 2:
        return None
    return parts[0] + c["split"] + parts[1].split(c["ext"])[0]


def combinable(ks):
    ids = [PAY[k][:2] for k in ks]
    if len(set(ids)) < len(ids):
        return False
    return len({i[0] for i in ids}) == 1 or len({i[1] for i in ids}) == 1


def model(content, c, overwrite):
    """content: name -> tuple of payloads. Returns the merged map."""
    out = dict(content)
    for b in dict.fromkeys(filter(None, (base(n, c) for n in content))):
        if b in content and not overwrite:
            continue
        mem = [n for n in content if base(n, c) == b]
        ks = tuple(k for n in sorted(mem) for k in content[n])
        if not combinable(ks):
            continue
        for n in mem:
            del out[n]
        out[b] = ks
    return out


_O = {}


def O():
    if not _O:
        _O["u"] = objects()
        _O["t"] = {k: T.table(u) for k, u in _O["u"].items()}
    return _O


def union(ks):
    t = {}
    for k in ks:
        t.update(O()["t"][k])
    return t


def read(path, grp):
    from hera_pspec import container

    p = container.PSpecContainer(path, mode="r", keep_open=False)
    if grp not in p.groups():
        return {}
    return {n: p.get_pspec(grp, n) for n in p.spectra(grp)}


def same(rec, got, want, tr, tag):
    if not rec.expect(sorted(got) == sorted(want), tag + "names", f"holds {sorted(got)}, expected {sorted(want)}", tr):
        return
    for n, ks in want.items():
        d = T.diff(T.table(got[n]), union(ks))
        rec.expect(d is None, tag + "content", f"{n} should hold {ks}: {d}", tr)


def tasks(tier, seed):
    out = []
    for cv, c in CONV.items():
        for n in range(1, (4 if tier == "quick" else 5) + 1):
            subsets = list(itertools.combinations(range(len(c["pool"])), n))
            for i in range(0, len(subsets), 24):
                out.append(dict(mode="merge", conv=cv, n=n, lo=i, hi=min(i + 24, len(subsets)), tier=tier))
    for cv in CONV:
        for keep in (0, 1):
            out.append(dict(mode="fault", conv=cv, keep=keep))
    out.append(dict(mode="script"))
    return out[::-1]


def store(path, content, extra=None):
    from hera_pspec import container

    p = container.PSpecContainer(path, mode="rw", keep_open=True)
    for n, ks in content.items():
        p.set_pspec("g", n, O()["u"][ks[0]])
    for n, ks in (extra or {}).items():
        p.set_pspec("other", n, O()["u"][ks[0]])
    p._close()


def merge(psc, **kw):
    from hera_pspec import container

    with contextlib.redirect_stdout(io.StringIO()):
        return container.combine_psc_spectra(psc, **kw)


def run_merge(rec, task, root):
    from hera_pspec import container

    c = CONV[task["conv"]]
    subsets = list(itertools.combinations(range(len(c["pool"])), task["n"]))[task["lo"]:task["hi"]]
    m = 0
    for sub in subsets:
        names = [c["pool"][i] for i in sub]
        pick = ASSIGN[:1] if task["n"] == 1 else ASSIGN if task["tier"] == "thorough" or task["n"] == 2 else [ASSIGN[sum(sub) % 5], ASSIGN[(sum(sub) * 3 + 2) % 5]][: 4 - task["n"] + 1]
        for ai, a in enumerate(pick):
            content = {n: (a[j % 4] if j < 4 else "DEAB"[j % 4],) for j, n in enumerate(names)}
            how = (sum(sub) + ai) % 3
            two = (len(names) + ai) % 2 == 0
            extra = {"e_1": ("A",), "e_x_f_1": ("B",), "d1_x_d2_a": ("C",)} if two else {}
            for ow in (False, True) if task["tier"] == "thorough" or task["n"] < 4 else (sum(sub) % 2 == 1,):
                m += 1
                path = os.path.join(root, f"m{m}.h5")
                store(path, content, extra)
                groups = [["g"], ["g", "missing"], None][m % 3] if two else None
                hist = bool(m % 2)
                kw = dict(groups=groups, dset_split_str=c["split"], ext_split_str=c["ext"], merge_history=hist, overwrite=ow, verbose=bool(m % 5 == 0))
                tr = dict(content=content, how=how, **{k: v for k, v in kw.items()})
                psc = path if how == 2 else container.PSpecContainer(path, mode="rw", keep_open=how == 0)
                ok, _ = rec.attempt("merge", merge, psc, trace=tr, **kw)
                rec.step()
                rec.trace()
                if how != 2 and psc.data is not None:
                    rec.expect(how == 0, "handle", "a transactional container was left open", tr)
                    psc._close()
                del psc
                if not ok:
                    os.remove(path)
                    continue
                want = model(content, c, ow)
                got = read(path, "g")
                same(rec, got, want, tr, "")
                for n, ks in want.items():
                    if n in got:
                        h = got[n].history
                        if len(ks) == 1:
                            rec.expect(f"hist-{ks[0]};" in h, "history", h, tr)
                        else:
                            has = [f"hist-{k};" in h for k in ks]
                            rec.expect(all(has) if hist else sum(has) == 1, "history", f"{n} {ks}: {h}", tr)
                if two:
                    we = extra if groups is not None else model(extra, c, ow)
                    same(rec, read(path, "other"), we, tr, "other:")
                rec.state(sorted(want.items()))
                rec.outcome(sorted(want.items()))
                os.remove(path)
        # merging twice changes nothing more
    rec.sample(f"{task} -> {m} merges")
    path = os.path.join(root, "e.h5")
    store(path, {}, {"a_1": ("A",)})
    rec.step()
    rec.expect(rec.raises(merge, path, groups=["nope"]), "missing-group", "no existing group was given and nothing was raised", task)
    same(rec, read(path, "other"), {"a_1": ("A",)}, task, "missing-group:")
    ro = container.PSpecContainer(path, mode="r", keep_open=False)
    with contextlib.suppress(Exception):
        merge(ro, groups=["other"], dset_split_str=None)
    rec.step()
    same(rec, read(path, "other"), {"a_1": ("A",)}, task, "read-only:")


def run_fault(rec, task, root):
    from hera_pspec import container

    c = CONV[task["conv"]]
    pool = c["pool"]
    m = 0
    for names, a, ow in [(pool[:2], "AB", False), (pool[:3], "ABE", True), (pool[:2] + pool[4:6], "ABAC", False), (pool[1:2], "C", False)]:
        content = {n: (k,) for n, k in zip(names, a)}
        src = os.path.join(root, "src.h5")
        store(src, content)
        k = 0
        while True:
            m += 1
            path = os.path.join(root, f"f{m}.h5")
            shutil.copy(src, path)
            psc = container.PSpecContainer(path, mode="rw", keep_open=bool(task["keep"]))
            plan = Plan(k)
            tr = dict(content=content, overwrite=ow, step=k, keep=task["keep"])
            err = None
            with installed(plan):
                try:
                    merge(psc, dset_split_str=c["split"], ext_split_str=c["ext"], overwrite=ow, verbose=False)
                except Exception as e:  # noqa: BLE001
                    err = e
            psc._close()
            rec.step()
            rec.trace()
            if not plan.fired:
                rec.expect(err is None, "fault:raised", repr(err), tr)
                same(rec, read(path, "g"), model(content, c, ow), tr, "fault:none:")
                os.remove(path)
                os.remove(src)
                break
            tr["what"] = plan.log[-1] if plan.log else ""
            try:
                got = read(path, "g")
            except Exception as e:  # noqa: BLE001
                rec.fail("fault:unreadable", repr(e), tr)
                os.remove(path)
                k += 1
                continue
            tabs = {n: T.table(u) for n, u in got.items()}
            final = model(content, c, ow)
            rec.expect(set(got) <= set(content) | set(final), "fault:names", f"{sorted(got)}", tr)
            for n, ks in content.items():
                # the content of every spectrum is still there, under its own or its merged name
                homes = [x for x in {n, base(n, c)} if x in tabs and all(key in tabs[x] for key in union(ks))]
                kept = any(T.diff({q: tabs[x][q] for q in union(ks)}, union(ks)) is None for x in homes)
                rec.expect(kept, "fault:lost", f"{n} ({ks}) is gone: {sorted(got)}", tr)
                if final.get(n) == ks and base(n, c) != n:
                    rec.expect(n in tabs and T.diff(tabs[n], union(ks)) is None, "fault:other", f"{n} changed", tr)
            for n in tabs:
                allowed = [content.get(n), final.get(n)]
                rec.expect(any(ks is not None and T.diff(tabs[n], union(ks)) is None for ks in allowed), "fault:content", f"{n} holds neither its old nor its merged content", tr)
            rec.state(("f", sorted((n, len(t)) for n, t in tabs.items())))
            rec.outcome(("f", task["conv"], k))
            os.remove(path)
            k += 1
            if k > 3000:
                rec.fail("fault:bound", "more than 3000 steps", tr)
                break
    rec.sample(f"{task} -> {m} interrupted merges")


def run_script(rec, task, root):
    """The command line does the same."""
    import subprocess
    import sys

    from hera_pspec import container

    src = os.path.dirname(os.path.dirname(os.path.dirname(container.__file__)))
    script = os.path.join(src, "scripts", "psc_merge_spectra.py")
    procs = []
    for cv, argv in (("x", []), ("x", ["--verbose"]), ("dash", ["--dset_split_str", "-", "--ext_split_str", "+"]), ("dot", ["--dset_split_str", "", "--ext_split_str", "."])):
        c = CONV[cv]
        content = {n: (k,) for n, k in zip(c["pool"][:2] + c["pool"][4:6], "ABAC")}
        path = os.path.join(root, f"s{len(procs)}.h5")
        store(path, content)
        procs.append((c, argv, content, path, subprocess.Popen([sys.executable, script, path] + argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=root)))
    for c, argv, content, path, p in procs:
        out = p.communicate()[0]
        rec.step()
        rec.trace()
        tr = dict(argv=argv, content=content)
        if rec.expect(p.returncode == 0, "script:exit", out[-800:], tr):
            same(rec, read(path, "g"), model(content, c, False), tr, "script:")


def run(task, rec):
    root = fresh()
    try:
        {"merge": run_merge, "fault": run_fault, "script": run_script}[task["mode"]](rec, task, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
