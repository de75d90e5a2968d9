#!/usr/bin/env python3
"""Generates DESIGN.md and MANIFEST.json from contracts_map.py, properties.jsonl and docs/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts_map import MODULES, NOTES
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
def mods(i):
    return '; '.join(f'configuration {c}: ' + ' '.join(m) for c, m in MODULES.get(i, {}).items()) or 'none'
checks, text = [], "## Properties\n\n"
for p in props:
    i = p["id"]
    n = NOTES[i]
    text += f"### {i} {p['title']}\n\nLevel: **{n['level']}**. Verified modules: {mods(i)}.\n\n"
    text += f"*Contracts:* {n['proved'] or '-'}\n\n*Bounded stand-in:* {n['bounded'] if n['bounded'] != '-' else 'only supplies failing inputs; nothing rests on it.'}\n\n"
    tech = "contracts on the real code discharged by Verus, with a bounded search for failing inputs" if n["bounded"] == "-" else "contracts on the real code discharged by Verus; labelled bounded stand-in for what is not under contract"
    th = {"theorems": n["theorems"]} if n.get("theorems") else {}
    checks.append({**th, "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough", "technique": tech,
                   "level": n["level"], "level_note": n["explanation"]})
man = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks}
old = json.load(open(V + "/MANIFEST.json"))
for k, v in old.items():
    if k not in man:
        man[k] = v
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
d = open(V + "/docs/DESIGN.in.md").read().replace("'''PROPS'''", text)
s = open(V + "/docs/seeds.md").read() if os.path.exists(V + "/docs/seeds.md") else ""
open(V + "/DESIGN.md", "w").write(d.replace("'''SEEDS'''", s))
