"""Exploration runtime shared by all checks.

A check module defines
    PID, LEVEL, RULE, ASSUMPTIONS
    tasks(tier, seed) -> list of JSON-able task descriptions (a finite, fully enumerated space)
    run(task, rec)    -> explores everything described by `task`, reporting into `rec`
The runtime runs every task (8 worker processes), merges the counters, compares the violations with
KNOWN_FINDINGS.txt, writes the evidence file and prints the verdict.
"""

import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback

from mc import defaults

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TASK_LIMIT_S = 600


class Stop(Exception):
    """Raised to abandon a task after too many violations."""


class TaskTimeout(BaseException):
    pass


def digest(obj):
    """Stable 64-bit digest of a canonical form (nested tuples / numbers / strings / bytes)."""
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        import numpy as np

        if isinstance(o, np.ndarray):
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(np.ascontiguousarray(o).tobytes() if o.dtype != object else repr(o.tolist()).encode())
        elif isinstance(o, dict):
            h.update(b"{")
            for k in sorted(o, key=repr):
                feed(k)
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"(")
            for x in o:
                feed(x)
            h.update(b")")
        elif isinstance(o, (set, frozenset)):
            feed(sorted(o, key=repr))
        else:
            h.update(repr(o).encode() + b";")

    feed(obj)
    return int.from_bytes(h.digest(), "big")


# tools/mutate.py only: stop at the first violation
FAILFAST, KNOWN = bool(os.environ.get("VERIF_FAILFAST")), set()


class Rec:
    """Collects what one task explored."""

    def __init__(self, task):
        self.task = task
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.notes = {}

    # -- counters
    def state(self, canon):
        d = digest(canon)
        new = d not in self.states
        self.states.add(d)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def outcome(self, o):
        self.outcomes.add(digest(o))

    # -- verdicts
    def expect(self, cond, sig, what="", trace=None):
        self.evaluations += 1
        if not cond:
            self.fail(sig, what, trace)
        return bool(cond)

    def fail(self, sig, what="", trace=None):
        if any(v["sig"] == sig for v in self.violations):
            return
        self.violations.append({"sig": sig, "what": str(what)[:2000], "trace": trace, "task": self.task})
        if len(self.violations) >= 40 or (FAILFAST and sig not in KNOWN):
            raise Stop()

    def attempt(self, sig, fn, *a, trace=None, **k):
        """Run fn; an exception is a violation named sig.  Returns (ok, value)."""
        try:
            return True, fn(*a, **k)
        except Exception as e:  # noqa: BLE001
            self.evaluations += 1
            self.fail(sig + ":raised", f"{type(e).__name__}: {e}\n" + "".join(traceback.format_tb(e.__traceback__)[-3:]), trace)
            return False, None

    def raises(self, fn, *a, **k):
        """True if fn raises an Exception."""
        try:
            fn(*a, **k)
            return False
        except Exception:  # noqa: BLE001
            return True

    def merge_into(self, tot):
        tot.states |= self.states
        tot.transitions += self.transitions
        tot.traces += self.traces
        tot.evaluations += self.evaluations
        tot.outcomes |= self.outcomes
        if len(tot.samples) < 6:
            tot.samples.extend(self.samples[:2])
        for v in self.violations:
            if not any(w["sig"] == v["sig"] for w in tot.violations):
                tot.violations.append(v)
        for k, v in self.notes.items():
            tot.notes[k] = tot.notes.get(k, 0) + v if isinstance(v, (int, float)) else v


_MOD = None


def _alarm(signum, frame):
    raise TaskTimeout()


def run_task(task):
    rec = Rec(task)
    defaults.COUNT.clear()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TASK_LIMIT_S)
    devnull = open(os.devnull, "w")
    so, sys.stdout = sys.stdout, devnull
    se, sys.stderr = sys.stderr, devnull
    try:
        _MOD.run(task, rec)
    except Stop:
        pass
    except TaskTimeout:
        rec.violations.append({"sig": "hang", "what": f"task did not finish within {TASK_LIMIT_S}s", "trace": None, "task": task})
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        rec.violations.append({"sig": f"crash:{type(e).__name__}", "what": tb[-3000:], "trace": None, "task": task})
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = so, se
        devnull.close()
    return rec


def load_findings():
    """KNOWN_FINDINGS.txt: 'finding: property=<id> sig=<sig> :: <what>' and 'fixed: property=<id> <commit> <what>'."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, what = line[len("finding:"):].partition(" :: ")
                parts = dict(p.split("=", 1) for p in head.split())
                out.append((parts["property"], parts["sig"], what))
    return out


def main(argv):
    global _MOD
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tot = Rec(None)
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    KNOWN.update(s for p, s, w in load_findings() if p == pid)
    tasks = []
    try:
        import hera_pspec

        assert hera_pspec.__file__.startswith(os.environ.get("VERIF_SRC", "/repo/src/")), hera_pspec.__file__
        _MOD = importlib.import_module(f"mc.checks.{pid.lower()}")
        defaults.install()
        if replay:
            tasks = [json.load(open(replay))["task"]]
        else:
            tasks = _MOD.tasks(tier, seed)
    except Exception:  # noqa: BLE001
        tot.violations.append({"sig": "import", "what": traceback.format_exc()[-3000:], "trace": None, "task": None})
    if tasks:
        nproc = int(os.environ.get("VERIF_JOBS", "8"))
        if nproc > 1 and len(tasks) > 1:
            import multiprocessing as mp

            ctx = mp.get_context("fork")
            with ctx.Pool(min(nproc, len(tasks)), maxtasksperchild=None) as pool:
                for rec in pool.imap_unordered(run_task, tasks, chunksize=1):
                    rec.merge_into(tot)
                    if len(tot.violations) > 200 or (FAILFAST and any(v["sig"] not in KNOWN for v in tot.violations)):
                        pool.terminate()
                        break
        else:
            for t in tasks:
                run_task(t).merge_into(tot)
    known = [(s, w) for p, s, w in load_findings() if p == pid]
    fresh, seen = [], []
    for v in tot.violations:
        hit = [k for k in known if k[0] == v["sig"]]
        if hit:
            seen.append(hit[0])
        else:
            fresh.append(v)
    for s, w in dict.fromkeys(seen):
        print(f"KNOWN-FINDING: property={pid} {w} [{s}]")
    wall = time.time() - t0
    level = getattr(_MOD, "LEVEL", "model_checking") if _MOD else "model_checking"
    coverage = {
        "states": len(tot.states),
        "transitions": tot.transitions,
        "traces_validated_against_impl": tot.traces,
        "evaluations": tot.evaluations,
        "distinct_nontrivial": len(tot.outcomes) or len(tot.states),
        "rule": getattr(_MOD, "RULE", ""),
        "samples": tot.samples[:6] or ["(none)"],
        "exhaustive": True,
        "tasks": len(tasks),
    }
    coverage.update(tot.notes)
    with open(os.path.join(ev, f"{pid}.json"), "w") as f:
        json.dump(
            {
                "property": pid,
                "tier": tier,
                "seed": seed,
                "level": level,
                "coverage": coverage,
                "assumptions": getattr(_MOD, "ASSUMPTIONS", []),
                "wall_s": round(wall, 2),
                "violations": len(fresh),
            },
            f,
            indent=1,
            default=str,
        )
    print(
        f"{pid} tier={tier}: tasks={len(tasks)} states={len(tot.states)} transitions={tot.transitions} "
        f"traces={tot.traces} evaluations={tot.evaluations} outcomes={len(tot.outcomes)} "
        f"violations={len(fresh)} known={len(dict.fromkeys(seen))} wall={wall:.1f}s"
    )
    if fresh:
        for i, v in enumerate(fresh[: int(os.environ.get("VERIF_SHOW", "12"))]):
            path = os.path.join(ev, "replay", f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"   sig={v['sig']}")
            print("   " + v["what"][:1500].replace("\n", "\n   "))
            if v.get("trace") is not None:
                print("   trace=" + json.dumps(v["trace"], default=str)[:800])
        if len(fresh) > i + 1:
            print(f"   ... and {len(fresh) - i - 1} more")
        return 1
    return 0
