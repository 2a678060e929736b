"""Writes DESIGN.md from the check modules, the registry, KNOWN_FINDINGS.txt, seeded/*/meta.json and the text below.
`python3 tools/design.py`; development tool, nothing in MANIFEST.json uses it."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)

HEAD = open("tools/design_head.md").read()
TAIL = open("tools/design_tail.md").read()
# what decides a single explored state, property by property
ORACLE = dict(re.findall(r"^(C\d\d): (.*)$", open("tools/design_oracles.txt").read(), re.M))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    props = [json.loads(l) for l in open("properties.jsonl")]
    man = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}
    fixed, found = {}, {}
    for l in open("KNOWN_FINDINGS.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m:
            fixed.setdefault(m[1], []).append((m[2], m[3]))
        m = re.match(r"finding: property=(\S+) sig=(\S+) :: (.*)", l)
        if m:
            found.setdefault(m[1], []).append((m[2], m[3]))
    seeds = {}
    for f in sorted(glob.glob("seeded/*/meta.json")):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
    costs = json.load(open("tools/costs.json")) if os.path.exists("tools/costs.json") else {}
    out = [HEAD.rstrip(), "", "## The properties, one by one", ""]
    for p in props:
        i = p["id"]
        c = consts(f"mc/checks/{i.lower()}.py")
        out += [f"### {i} - {p['title']}", ""]
        out += [f"*Specified.* {p['statement']}", ""]
        out += [f"*Enumerated.* {c['RULE']}", ""]
        out += [f"*Oracle.* {ORACLE[i]}", ""]
        cost = costs.get(i, {})
        line = f"*Bounds and cost.* {man[i]['level_note']}."
        if cost.get("quick"):
            line += f" Quick tier on the unchanged tree: {cost['quick']}."
        if cost.get("thorough"):
            line += f" Thorough tier: {cost['thorough']}."
        out += [line, ""]
        if c.get("ASSUMPTIONS"):
            out += ["*Assumed.* " + "; ".join(c["ASSUMPTIONS"]) + ".", ""]
        out += [f"*Why the tests cannot.* {p['why_tests_cant']}", ""]
        if i in fixed:
            out += ["*Defects it found, repaired:* " + "; ".join(f"{w} (`{h}`)" for h, w in fixed[i]) + ".", ""]
        if i in found:
            out += ["*Known finding, not repaired:* " + "; ".join(f"`{s}` - {w}" for s, w in found[i]) + ".", ""]
        if i in seeds:
            out += ["*Planted bugs:* " + "; ".join(f"`{s}` ({m['needs']})" for s, m in seeds[i]) + ".", ""]
    out += [TAIL.rstrip(), ""]
    open("DESIGN.md", "w").write("\n".join(out))
    print(len(out), "lines;", sum(map(len, fixed.values())), "fixed")


if __name__ == "__main__":
    main()
