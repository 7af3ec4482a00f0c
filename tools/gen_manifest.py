"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LC = "explicit-state exploration of the real provider in lockstep with a reference automaton (all operation sequences " \
     "to a depth bound, state hashing)"
SW = "exhaustive enumeration of a bounded request/configuration space on the real provider against a reference predicate"
TECH = {
    "C01": (LC + "; stateless exploration of all two-thread schedules with bounded preemptions", "model_checking"),
    "C02": (LC, "model_checking"), "C03": (LC, "model_checking"), "C04": (LC, "model_checking"),
    "C05": (LC, "model_checking"), "C06": (LC + "; " + SW, "model_checking"), "C07": (LC + "; " + SW, "model_checking"),
    "C08": (SW, "exploration"), "C09": (LC + "; " + SW, "model_checking"),
    "C10": (LC, "model_checking"), "C11": (LC + "; " + SW, "model_checking"), "C12": (LC + "; " + SW, "model_checking"),
    "C13": (LC, "model_checking"), "C14": (LC + "; crash/restore at every point", "model_checking"),
    "C15": (SW, "exploration"), "C16": (LC, "model_checking"), "C17": (SW, "exploration"), "C18": (LC + "; " + SW, "model_checking"),
    "C19": (LC + "; " + SW + "; stateless exploration of all two-thread schedules with bounded preemptions", "model_checking"), "C20": (LC + "; stateless exploration of all two-thread schedules with bounded preemptions", "model_checking"), "C21": (LC + "; " + SW, "model_checking"),
    "C22": (LC, "model_checking"), "C23": (SW, "exploration"), "C24": (LC + "; " + SW, "model_checking"),
    "C25": (LC, "model_checking"), "C26": (LC + "; " + SW, "model_checking"),
}
NOTE = "Exhaustive within the alphabet and bounds listed in DESIGN.md and measured in the evidence file; runs the code of " \
       "/repo/src unmodified (virtual clock, harness login page). Trusts the reference predicate and cryptojwt/oidcmsg."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick",
                       "thorough_cmd": f"./check {i} --tier thorough", "technique": TECH[i][0], "level": TECH[i][1],
                       "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import oidcop'", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks are needed in /repo: checks drive the public endpoint API. Repairs are 'fix:' commits, see "
                    "known_findings.json."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
