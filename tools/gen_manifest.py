"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C07": "exhaustive fault-point enumeration on the implementation: every model evaluation of a step fails once",
    "C11": "stateless model checking: all two-thread schedules at source-line granularity up to a preemption bound",
}
MC = "explicit-state bounded model checking: exhaustive enumeration in lockstep with a reference model, each transition replayed on the implementation"
NOTE = (
    "Every state and transition of the bounded space (alphabets and depths in DESIGN.md) is executed on the real code and compared with an "
    "independent reference model; nothing is sampled. Says nothing about values outside the alphabets; trusts numpy, scipy and the reference model."
)
NOTES = {
    "C07": "Every evaluation index of the model inside a step is made to fail once, for every kind, method and history of the alphabet. Trusts the interpreter's exception semantics.",
    "C11": "All interleavings of two entity steps at line granularity of the library's own code with at most the stated number of preemptions; C code (numpy, scipy) is atomic.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf8")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", pid.lower() + ".py")):
        checks.append(
            {
                "property": pid, "quick_cmd": f"./run.sh {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {pid}",
                "evidence_file": f"evidence/{pid}.json", "technique": TECH.get(pid, MC),
                "level": "fault_enumeration" if pid == "C07" else "model_checking", "level_note": NOTES.get(pid, NOTE)
            }
        )
    else:
        na.append({"property": pid, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. Checks import /repo's working tree directly (pure Python; nothing to compile). Replay: ./run.sh <id> --replay out/<id>.replay.json",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf8"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
