"""Writes /verif/MANIFEST.json (run by hand when the set of checks changes)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the elaborated netlist + SMT (z3), inductive over instructions, cex replayed in pysim"
NOTE = ("For every instruction word and every state between instructions satisfying a small invariant that the "
        "same run proves inductive: z3 decides the obligations on every micro-path (wait states closed, IRQ free "
        "every cycle, <=150 non-wait cycles per instruction). Trusts Amaranth's netlist builder, the bundled "
        "evaluator (validated against pysim each run) and z3; data-memory contents and bus timing are arbitrary.")
STEP = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16"]
OTHER = json.load(open(os.path.join(HERE, "tools", "other_checks.json")))
checks = []
for p in STEP:
    checks.append(dict(property=p, technique=TECH, level="model_checking", level_note=NOTE))
checks += OTHER["checks"]
checks.sort(key=lambda c: c["property"])
for c in checks:
    c["quick_cmd"] = f"python3-vt vlib/check.py {c['property']} --tier quick"
    c["thorough_cmd"] = f"python3-vt vlib/check.py {c['property']} --tier thorough"
    c["evidence_file"] = f"evidence/{c['property']}.json"
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=OTHER["not_applicable"],
         notes="No hooks: the checks elaborate /repo/src as it is. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
