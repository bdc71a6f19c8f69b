"""Writes MANIFEST.json."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

TECHNIQUE = {
    "C01": "property-based testing against a pulse-by-pulse model",
    "C02": "property-based testing against a timing model",
    "C03": "property-based testing of limits and of the documented pulse width",
    "C04": "property-based testing of acceptance and refusal against a realisability predicate",
    "C05": "metamorphic property-based testing (change of time unit)",
    "C06": "property-based testing: round trip of accepted inputs, refusal of spoiled ones",
    "C07": "property-based testing against independent formulas",
    "C08": "property-based testing: round trip through independent file parsers",
    "C09": "differential property-based testing (file of a sequence against file of its conversion)",
    "C10": "property-based testing against a model of the plot data",
    "C11": "property-based testing against a model of the plot data",
    "C12": "property-based testing with an independent rotation calculus",
    "C13": "property-based testing of the exact first-order error term",
    "C14": "property-based testing of the exact first-order error term",
    "C15": "property-based testing against the documented tables",
    "C16": "property-based testing of acceptance and refusal",
    "C17": "property-based testing against the documented shape",
    "C18": "enumeration and property-based testing against closed formulas",
    "C19": "exhaustive enumeration of the Paley orders against bitwise Walsh functions",
    "C20": "enumeration and property-based testing against a nested model",
    "C21": "enumeration and property-based testing against an integer recursion",
    "C22": "property-based testing of decoupling integrals",
    "C23": "metamorphic property-based testing (with and without rotations)",
    "C24": "property-based testing: round trip of accepted inputs, refusal of spoiled ones",
    "C25": "property-based testing of acceptance and refusal",
    "C26": "stateful property-based testing: histories against isolated recomputation",
    "C27": "property-based testing: numbers recovered from the printed text",
    "C28": "property-based testing: evaluation of the representation",
    "C29": "property-based testing of error texts and of files after refused exports",
    "C30": "metamorphic property-based testing (relaxed limits)",
    "C31": "metamorphic property-based testing (symmetries)",
    "C32": "differential property-based testing of call forms",
    "C33": "differential property-based testing between schemes",
    "C34": "property-based testing against a model of the helpers",
    "C35": "property-based testing: round trip through copies and pickles",
}

checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    id = json.loads(line)["id"]
    module = importlib.import_module("harness.props." + id.lower())
    note = "Explores generated cases only, so it shows presence and never absence of errors; it trusts the oracle, Hypothesis and numpy."
    if getattr(module, "ASSUMPTIONS", None):
        note += " Assumes: " + "; ".join(module.ASSUMPTIONS) + "."
    checks.append(
        {
            "property": id,
            "quick_cmd": "./check %s --tier quick" % id,
            "thorough_cmd": "./check %s --tier thorough" % id,
            "technique": TECHNIQUE[id],
            "level": "exploration",
            "level_note": note,
            "evidence_file": "evidence/%s.json" % id,
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import hypothesis' && /opt/venv/bin/python -c 'import numpy'",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo. Replay a failure with ./check <id> --replay <file>. Repaired defects are listed in known_findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as handle:
    json.dump(manifest, handle, indent=1)
    handle.write("\n")
