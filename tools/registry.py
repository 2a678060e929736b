"""Single source for properties.jsonl and MANIFEST.json: `python3 tools/registry.py` rewrites both.
Only properties whose check module exists are emitted."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, U, UU, G, PD, UT, PS, NO, BE, CV, CLI, TE = (
    "src/hera_pspec/container.py",
    "src/hera_pspec/uvpspec.py",
    "src/hera_pspec/uvpspec_utils.py",
    "src/hera_pspec/grouping.py",
    "src/hera_pspec/pspecdata.py",
    "src/hera_pspec/utils.py",
    "src/hera_pspec/pstokes.py",
    "src/hera_pspec/noise.py",
    "src/hera_pspec/pspecbeam.py",
    "src/hera_pspec/conversions.py",
    "src/hera_pspec/cli.py",
    "src/hera_pspec/testing.py",
)

P = []


def prop(id, title, statement, over, quant, why, files, mech, level, tech, note):
    assert len(title) <= 80, title
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": quant},
            why_tests_cant=why,
            anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
            _level=level,
            _tech=tech,
            _note=note,
        )
    )


prop(
    "C01",
    "A container behaves as a two-level map of spectra for every history",
    "After any history of stores, overwrites, list-stores, flushes and re-openings, a power-spectrum container lists exactly "
    "the groups and names stored so far and returns for each the spectrum last stored there, bit for bit, with absent names "
    "and unforced re-stores refused. This does not depend on whether the file is held open or re-opened for every operation, "
    "nor on which of several alternating handles is used, and a container opened read-only is never changed.",
    ["histories", "configurations"],
    "all sequences of container operations over two groups, two names each and three payloads up to a depth bound, both handle policies, one or two handles",
    "The tests store a handful of objects in one order with one handle policy; they do not quantify over histories, nor compare the whole observable map after each step.",
    [C],
    [("transactional open/close wrapper", C + ":transactional"), ("store with overwrite", C + ":PSpecContainer.set_pspec"), ("lookup and listing", C + ":PSpecContainer.get_pspec/spectra/groups/tree")],
    "model_checking",
    "stateless exhaustive exploration of operation sequences on the real container against a dictionary model",
    "bounded depth and alphabet; real HDF5 files; whole operations only (no overlap inside one operation)",
)
prop(
    "C02",
    "A failed store leaves everything already stored intact",
    "When storing a spectrum fails - because the object is invalid, the target exists and overwriting was not requested, or the "
    "file layer fails part-way - the container afterwards lists and returns exactly what it did before the attempt, with no "
    "partial entry and no loss of the entry being replaced. Likewise a rejected attempt to save a single object over an existing "
    "file leaves that file readable with its old content.",
    ["fault_sequences", "histories"],
    "a failure at every single file-layer step of every kind of store on several starting containers, and every kind of invalid payload",
    "No test makes a store fail after it has started; a half-written or lost entry only shows when a specific step fails.",
    [C, U],
    [("write to a temporary entry, then replace", C + ":PSpecContainer.set_pspec"), ("validity check before writing", U + ":UVPSpec.write_to_group/check")],
    "fault_enumeration",
    "exhaustive single-fault enumeration over every HDF5 primitive step of each store, compared with the pre-state",
    "one fault per store, surfaced as an exception; process or disk loss is out of scope",
)
prop(
    "C03",
    "Containers open with bounded retries and never leak a file handle",
    "Opening a container makes at most the configured number of attempts, waits between them, succeeds if any of those attempts "
    "succeeds and otherwise raises an I/O error. A container that is not kept open holds no file handle between operations, "
    "whether the operation succeeded, was refused or failed at any step, and remains usable afterwards; one opened read-only never alters the file.",
    ["fault_sequences", "schedules", "configurations"],
    "every success/failure schedule of open attempts for 1..5 allowed attempts, and a failure at every file-layer step of every operation",
    "The tests never make the file layer fail, so retry counting and the release of handles on error paths are not exercised.",
    [C],
    [("retry loop", C + ":PSpecContainer._open"), ("close on error", C + ":transactional"), ("read-only guard", C + ":PSpecContainer.set_pspec")],
    "fault_enumeration",
    "exhaustive enumeration of open-failure schedules and of single faults at every HDF5 step, with handle accounting",
    "the open failure is injected as OSError (validated against a genuinely locked file)",
)
prop(
    "C08",
    "Selection keeps exactly the requested spectra, each with its own labels",
    "Selecting on spectral windows, baselines, baseline-pairs, average times or LSTs and polarization pairs returns exactly the "
    "spectra that satisfy every criterion, for every spelling of the request. Each kept spectrum keeps its own values, weights, "
    "integration, sample count, window function, covariance, statistics, normalisation, dataset labels, times and delays unchanged, "
    "and all counts and baseline tables describe what is left; a non-inplace selection leaves its source untouched and an empty one is refused.",
    ["inputs", "configurations"],
    "every subset request on every axis (and combinations) of small multi-window, multi-polarization, ragged, folded and averaged objects",
    "Tests select a few fixed subsets from one file with one window and one polarization, where misaligned axes cannot show.",
    [U, UU],
    [("relational selection", UU + ":_select"), ("index maps", U + ":UVPSpec.spw_to_dly_indices, polpair_to_indices, blpair_to_indices")],
    "model_checking",
    "explicit enumeration of all selection requests on a label-keyed relational model, each replayed on the real object",
    "bounded object sizes; comparison is bit-exact",
)

# --- more properties are appended by the sections below -----------------------------------------
EXTRA = os.path.join(HERE, "tools", "registry_more.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))

P.sort(key=lambda p: p["id"])


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                "technique": p["_tech"],
                "level": p["_level"],
                "level_note": p["_note"],
            }
            for p in have
        ],
        "not_applicable": NOT_APPLICABLE if "NOT_APPLICABLE" in globals() else [],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print("properties:", [p["id"] for p in have])


if __name__ == "__main__":
    main()
