"""Writes mc/defaults.json: the documented default of every argument of every public function (run on the original tree)."""
import inspect, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import defaults as D

out = {}
for owner, nm, raw, f in D.members():
    d = {p.name: p.default for p in inspect.signature(f).parameters.values() if p.default is not p.empty and D.plain(p.default) and not (p.default != p.default)}
    if d:
        out[D.name_of(owner, nm)] = d
json.dump(out, open(D.TABLE, "w"), indent=0, sort_keys=True)
print(len(out), "functions", sum(map(len, out.values())), "defaults")
