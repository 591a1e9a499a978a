"""Writes /verif/MANIFEST.json from the domains' registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NOTES:
        checks.append(dict(
            property=p,
            quick_cmd="python3 -m harness.check %s --tier quick" % p,
            thorough_cmd="python3 -m harness.check %s --tier thorough" % p,
            evidence_file="evidence/%s.json" % p,
            technique="TLA+ model checked with TLC, bound to the code by replaying TLC-generated behaviours and validating the recorded traces",
            level="model_checking", level_note=NOTES[p]))
    else:
        na.append(dict(property=p, reason="not claimed yet: its specification is still being built"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Specification language: TLA+ (TLC). No hooks in /repo: the real code is driven over a simulated network. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
