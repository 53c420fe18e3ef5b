"""Write MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ids = [json.loads(line)["id"] for line in open(os.path.join(V, "properties.jsonl"))]

MODEL = "TLA+ specification (TLC): exhaustive bounded model, every behaviour replayed on the code; recorded random calls judged by TLC (trace validation)"
TECH = {
    "C16": "TLA+ specification of schedules (TLC): interleavings, nestings and histories replayed on one real instance; outcomes judged by TLC against fresh ones",
    "C20": "TLA+ specification of two conversions in a row (TLC): behaviours replayed on the code; recorded compositions judged by TLC",
    "C21": "TLA+ specification of construction (TLC): every behaviour replayed on the constructor; probe calls judged by TLC",
    "C22": "TLA+ specification of histories with failing accesses (TLC): every behaviour replayed on the code with containers that raise there; outcomes judged by TLC",
    "C24": "TLA+ specification (TLC): termination by a decreasing measure and as a liveness property of the model; behaviours replayed and long recorded calls judged by TLC",
    "C25": "TLA+ specification of histories with failing accesses (TLC, invariant Released): behaviours replayed on the code with objects watched by weak references; recordings judged by TLC",
}
NOTE = ("The property's clauses hold in every state of the bounded model (all 81 style pairs, short queries over adversarial atoms); the code returned what the model "
        "does for every behaviour replayed, and for random calls beyond those bounds TLC evaluated the same clauses on what the code returned. Inputs outside both are not covered. "
        "Trusts TLC, the recorder, and Python's Unicode tables.")
NOTES = {
    "C16": "All interleavings of two calls at the grain of parameter accesses, all histories and nestings of up to 3 calls over 6 call templates, plus random ones with threads switched at "
           "source lines. Finer interleavings (within a line) are not forced.",
    "C22": "All histories of two (thorough: three) calls over four templates with a failure at each access; on random calls a failure at every access (up to 24, thorough 60, per call).",
    "C24": "Termination is checked on the bounded model for every behaviour; on the code, tens of thousands of texts of up to 3000 characters that repeat a special piece. A call counts as not ending "
           "after 5 s, some 200 times what the slowest takes.",
    "C25": "Histories of two (thorough: three) calls over the templates of Sched, with a failure at each access, and random calls; whatever can be referenced weakly is looked for after a "
           "garbage collection while the instances live on. Plain strings, numbers and tuples cannot be watched.",
    "C21": "All combinations of two or three settings (thorough: of all settings) over representative argument kinds; conversions sampled.",
}
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{"property": p, "quick_cmd": f"{PY} check.py {p} --tier quick", "thorough_cmd": f"{PY} check.py {p} --tier thorough",
                "technique": TECH.get(p, MODEL), "level": "model_checking", "level_note": NOTES.get(p, NOTE)} for p in ids],
    "not_applicable": [],
    "notes": "No hooks in /repo: the public API exposes all the state the specification talks about.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
