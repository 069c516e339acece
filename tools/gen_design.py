"""gen_design.py (run with /opt/venv/bin/python): writes DESIGN.md from tools/design_head.md, the checks' own BOUNDS/ASSUMPTIONS and tools/design_tail.md."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo/src"]
props = {p["id"]: p for p in map(json.loads, open(ROOT + "/properties.jsonl"))}
man = {c["property"]: c for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]}
text = {}
exec(open(ROOT + "/tools/design_props.py").read(), text)
D = text["D"]
out = [open(ROOT + "/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for f in sorted(glob.glob(ROOT + "/mc/checks/c*.py")):
    d = vars(importlib.import_module("mc.checks." + os.path.basename(f)[:-3]))
    i = d["ID"]
    how, oracle, why = D[i]
    out += [f"### {i} {props[i]['title']}", "",
            f"* Method: {man[i]['technique'].split(': ', 1)[1]}. {how}",
            f"* Oracle: {oracle}",
            f"* Bounds, quick: {d['BOUNDS']['quick']}.",
            f"* Bounds, thorough: {d['BOUNDS']['thorough']}.",
            f"* Assumes: {'; '.join(d.get('ASSUMPTIONS', []))}.",
            f"* Beyond tests: {why}", ""]
out.append(open(ROOT + "/tools/design_tail.md").read().rstrip())
rows = []
for m in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    j = json.load(open(m))
    name = os.path.basename(os.path.dirname(m))
    rows.append(f"| {name} | {j['property']} | {j['needs']} | {text['FIRST'].get(name, 'caught')} |")
out += ["", "| change | caught by | needs | first run |", "|---|---|---|---|"] + rows
open(ROOT + "/DESIGN.md", "w").write("\n".join(out) + "\n")
