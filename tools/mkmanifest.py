#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = {
    "mc": "Every schedule of the real library code (compiled from /repo, instrumented) in small scenarios is executed under a controlled scheduler: "
          "dynamic partial-order reduction until the scenario is exhausted, else all schedules up to the preemption bound named in the evidence. "
          "Trusts the scheduler's model of the pthread/clock/signal calls, sequential consistency (data races are detected and reported) and the bounded scenarios.",
    "seq": "Every operation sequence / input of a bounded alphabet up to the stated depth is executed on the real library code (ASan/UBSan build) in lock-step with a "
           "reference model. Trusts the reference model and that the bounded alphabet is representative.",
}
TECH = {
    "mc": "stateless model checking of the implementation: dynamic partial-order reduction and preemption-bounded exhaustive schedule enumeration under a controlled scheduler",
    "seq": "explicit enumeration of all operation sequences/inputs up to a depth on the implementation, checked against a reference model in every state",
}
checks = []
for p in ids:
    if p not in PROPS:
        continue
    ks = [k for k in ("mc", "seq") if PROPS[p].get(k)]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p} quick",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "; and ".join(TECH[k] for k in ks),
        "level": "model_checking",
        "level_note": " ".join(NOTE[k] for k in ks) + (" " + PROPS[p]["note"] if "note" in PROPS[p] else ""),
    })
m = {"version": 1,
     "setup_cmd": "python3 check.py --selftest",
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "not claimed yet: check under construction"} for p in ids if p not in PROPS],
     "notes": "No hooks in /repo: the checks compile /repo's unmodified sources (clang -fsanitize=thread instrumentation against our own runtime, or ASan/UBSan)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
