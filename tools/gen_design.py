"""Rewrites the generated tables of DESIGN.md (budgets and planted changes)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

ids = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
budgets = ["| property | component | quick cases | thorough cases |", "|---|---|---|---|"]
for id in ids:
    for c in importlib.import_module("harness.props." + id.lower()).COMPONENTS:
        counts = "all | all" if c.cases is not None else "%d | %d" % (c.quick, c.thorough)
        budgets.append("| %s | %s | %s |" % (id, c.name, counts))

planted = ["| property | change | what it breaks | shows only when |", "|---|---|---|---|"]
entries = []
for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    meta = json.load(open(os.path.join(ROOT, "seeded", name, "meta.json")))
    entries.append((meta["property"], name, meta["what_it_breaks"], meta["needs"]))
for entry in sorted(entries):
    planted.append("| %s |" % " | ".join(str(e).replace("|", "/").replace("\n", " ") for e in entry))

path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
for key, lines in (("budgets", budgets), ("planted", planted)):
    begin, end = "<!-- %s -->\n" % key, "<!-- end of %s -->" % key
    a, b = text.index(begin) + len(begin), text.index(end)
    text = text[:a] + "\n".join(lines) + "\n" + text[b:]
with open(path, "w") as handle:
    handle.write(text)
