"""Hand recorded executions to TLC (TraceCalls) and collect its verdicts."""
import concurrent.futures
import json
import os
import tempfile
import time

import codec
from common import Machinery, TlcRun

CFG = """SPECIFICATION Spec
CONSTANT ExtTab <- TraceExt
INVARIANT Verdict
VIEW View
CHECK_DEADLOCK FALSE
"""


class Tally:
    """What the judge saw (goes into the evidence)."""

    def __init__(self):
        self.states = self.transitions = 0
        self.entries = 0
        self.succeeding = self.refused = self.with_refs = self.under_proviso = self.exact = self.tokens = 0
        self.wall = 0.0

    def as_dict(self):
        return {k: v for k, v in self.__dict__.items() if k not in ("states", "transitions", "wall")}


def _one(prop, part, path, scratch, timeout):
    calls = [e["call"] for e in part] + [p for e in part for p in e["pre"]]
    with open(path, "w") as fh:
        json.dump({"prop": prop, "ext": codec.ext_table(calls),
                   "entries": [{"pre": e["pre"], "call": e["call"], "res": e["res"], "peers": [{"rel": p["rel"], "res": p["res"]} for p in e["peers"]]}
                               for e in part]}, fh, separators=(",", ":"))
    verdicts = {}

    def sink(v):
        verdicts[v["i"]] = v
    run = TlcRun("TraceCalls", CFG, scratch, env={"TRACE": path}, sink=sink, timeout=timeout, workers=1, heap="3g")
    os.unlink(path)
    run.require()
    if len(verdicts) != len(part):
        raise Machinery(f"{len(verdicts)} verdicts for {len(part)} recorded calls\n{run.text[-2000:]}")
    return run, verdicts


def weight(e):
    c = e["call"]
    return len(c["sql"]) + 20 * sum(1 + len(it["v"]["e"]) for r in c["rows"] for it in r["items"])


def judge(prop, entries, scratch, tally, jobs=8, timeout=800):
    """Entries -> list of (entry, verdict) whose property clauses fail."""
    if not entries:
        return []
    t0 = time.time()
    # Deal the entries, the largest first, so that the parts take about as long.
    order = sorted(entries, key=weight, reverse=True)
    n = max(1, min(-(-len(entries) // 100), max(jobs, -(-len(entries) // 2000))))
    parts = [order[k::n] for k in range(n)]
    bad = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        base = tempfile.mkdtemp(dir=scratch.dir)
        futs = [pool.submit(_one, prop, part, os.path.join(base, f"trace{k}.json"), scratch, timeout) for k, part in enumerate(parts)]
        done = [f.result() for f in futs]
    for part, (run, verdicts) in zip(parts, done):
        tally.states += run.states
        tally.transitions += run.transitions
        for i, e in enumerate(part, 1):
            v = verdicts[i]
            tally.entries += 1
            tally.succeeding += v["ok"]
            tally.refused += not v["ok"]
            tally.with_refs += v["refs"] > 0
            tally.under_proviso += bool(v["ok"] and v["prov"])
            tally.exact += v["exact"]
            tally.tokens += v["steps"]
            if v["bad"]:
                bad.append((e, v))
    tally.wall += time.time() - t0
    return bad


def entry(call, res, peers=(), pre=(), note=None):
    return {"call": call, "res": res, "peers": list(peers), "pre": list(pre), "note": note}
