"""Writes MANIFEST.json: a property is claimed when vf/props/<id>.py exists."""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C": "runtime monitor: generated cities observed through every accessor, reference geometry oracle",
    "D": "runtime monitor over generated edit histories and files, reference matrix oracle",
    "T": "runtime monitor over generated construction and edit histories, reference registry/route oracle",
    "X": "runtime monitor: extended graph observed link by link, independent reference graph oracle",
    "H": "runtime monitor: strategies observed per OD pair, optimality-equation oracle (independent fixed point)",
    "A": "runtime monitor: flow conservation oracle, independent node-flow propagation",
    "K": "runtime monitor: independent cost accounting oracle over generated instances",
    "O": "runtime monitor: recorded histories of optimiser calls with fault scripts, independent recomputation oracle",
    "M": "runtime monitor: metamorphic oracle, the same problem run under many equivalent descriptions",
    "R": "runtime monitor: printed reports parsed back and compared with the data they were given",
    "F": "runtime monitor with fault injection (full device, size limits, locales): saved bytes compared with the export oracle",
    "I": "runtime monitor: sessions scheduled together under a preempting baton, differential oracle against each session alone",
    "V": "runtime monitor: figures inspected artist by artist when saved or shown, reference drawing oracle",
}
NOTE = {
    "default": "Held on every generated case of the run (fixed number, seeded, all 8 cores); the oracle is an independent reference "
               "implementation of the documented semantics in vf/ref.py or in the check. Not a proof: inputs outside the generator are not "
               "covered. Float comparisons use relative tolerance 1e-7 or the one stated in the check; exact ties accept either side.",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "vf", "props", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py --property %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py --property %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i[0]], "level": "exploration",
                       "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "Pure Python under test, imported from /repo's working tree; nothing is compiled and no hook is needed."}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
