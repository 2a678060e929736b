"""C25 - the job monitor runs every job, retries exactly the failed ones, and reports what never succeeded."""

import itertools
import os
import shutil

import numpy as np

from mc.pscutil import fresh

PID = "C25"
LEVEL = "model_checking"
RULE = (
    "All failure schedules: every assignment of {succeeds on attempt 1, 2, 3, never} to up to five (thorough six) jobs x every bound on the number of "
    "tries x seven kinds of iterator (numbers, file names, tuples, generators, dictionaries, arrays) x five map functions (in order, "
    "eager list, reversed, shuffled by every permutation for few jobs, several at a time) x exit codes of either sign. The executed "
    "attempts and the returned failures are compared with a retry model. States are (attempts made, jobs still failing); transitions "
    "are job executions."
)
ASSUMPTIONS = ["map functions return results in the order of their input, as map does", "a first pass in which every job fails is refused, as coded and tested"]

NEVER = 99


def model(sched, maxiter):
    """Per job number of executions, and the list of failures; None if everything fails at first."""
    n = len(sched)
    if all(s > 1 for s in sched):
        return [1] * n, None
    runs = [1] * n
    failing = [i for i in range(n) if sched[i] > 1]
    tries = 1
    while failing and tries < maxiter:
        tries += 1
        for i in failing:
            runs[i] += 1
        failing = [i for i in failing if sched[i] > tries]
    return runs, failing


def elements(kind, n):
    """(iterator, list of its elements)"""
    if kind == "range":
        return range(n), list(range(n))
    if kind == "names":
        e = [f"file{10 - i}.uvh5" for i in range(n)]
        return list(e), e
    if kind == "tuples":
        e = [(i * 7 + 3, f"x{i}") for i in range(n)]
        return tuple(e), e
    if kind == "generator":
        e = [i * 5 + 1 for i in range(n)]
        return (x for x in e), e
    if kind == "dict":
        e = [f"k{i}" for i in range(n)]
        return {k: None for k in e}, e
    if kind == "array":
        e = [np.int64(n - i) for i in range(n)]
        return np.array(e), e
    if kind == "enumerate":
        e = [(i, f"v{i}") for i in range(n)]
        return enumerate(f"v{i}" for i in range(n)), e
    raise KeyError(kind)


KINDS = ["range", "names", "tuples", "generator", "dict", "array", "enumerate"]


def mapper(kind):
    if kind == "map":
        return map
    if kind == "list":
        return lambda f, it: [f(x) for x in it]
    if kind == "reversed":

        def m(f, it):
            it = list(it)
            out = {}
            for i in reversed(range(len(it))):
                out[i] = f(it[i])
            return [out[i] for i in range(len(it))]

        return m
    if kind == "threads":

        def m(f, it):
            from concurrent.futures import ThreadPoolExecutor

            with ThreadPoolExecutor(3) as ex:
                return list(ex.map(f, it))

        return m

    def m(f, it):  # a permutation
        it = list(it)
        out = {}
        for i in [j for j in kind if j < len(it)]:
            out[i] = f(it[i])
        return (out[i] for i in range(len(it)))

    return m


def one(rec, kind, mk, sched, maxiter, codes, lf=None):
    from hera_pspec import utils

    n = len(sched)
    it, el = elements(kind, n)
    key = {repr(e): i for i, e in enumerate(el)}
    runs = [0] * n
    alien = []

    def job(x):
        i = key.get(repr(x))
        if i is None:
            alien.append(repr(x))
            return 1
        runs[i] += 1
        return 0 if runs[i] >= sched[i] else codes[i % len(codes)]

    tr = dict(iterator=kind, map=repr(mk) if not callable(mk) else "", schedule=sched, maxiter=maxiter, codes=codes)
    want_runs, want_fail = model(sched, maxiter)
    err = None
    got = None
    try:
        got = utils.job_monitor(job, it, "JOB", M=mapper(mk), lf=lf, maxiter=maxiter, verbose=False)
    except Exception as e:  # noqa: BLE001
        err = e
    rec.step(max(1, sum(want_runs)))
    rec.trace()
    rec.expect(not alien, "alien", f"ran jobs that are not in the iterator: {alien}", tr)
    if want_fail is None:
        rec.expect(isinstance(err, ValueError), "all-failed", f"{err!r} {got}", tr)
    elif rec.expect(err is None, "raised", repr(err), tr):
        rec.expect([int(x) for x in got] == want_fail, "failures", f"{got}, expected {want_fail}", tr)
    rec.expect(runs == want_runs, "runs", f"executions per job {runs}, expected {want_runs}", tr)
    rec.state((tuple(want_runs), None if want_fail is None else tuple(want_fail)))
    rec.outcome((sched, maxiter, tuple(runs)))


def tasks(tier, seed):
    return [dict(n=n, kind=k, tier=tier) for n in range(6 if tier == "quick" else 7) for k in KINDS]


def run(task, rec):
    from hera_pspec import utils

    n, kind = task["n"], task["kind"]
    if n == 0:
        it, _ = elements(kind, 0)
        rec.step()
        rec.expect(rec.raises(utils.job_monitor, lambda x: 0, it, "JOB", verbose=False), "empty", "no job and no error", task)
        return
    maps = ["map", "list", "reversed", "threads"]
    if n <= 3:
        maps += list(itertools.permutations(range(n)))
    root = fresh()
    try:
        with open(os.path.join(root, "log"), "w") as lf:
            for sched in itertools.product((1, 2, 3, NEVER), repeat=n):
                for maxiter in (1, 2, 3, 4):
                    for j, mk in enumerate(maps if n < 4 else maps[:3]):
                        codes = [[1], [-1, 2], [255, 1, -7]][j % 3]
                        one(rec, kind, mk, sched, maxiter, codes, lf if j % 2 else None)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    rec.sample(f"{task}: {len(maps)} maps")
