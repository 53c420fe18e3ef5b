#!/usr/bin/env python3
"""Decide one property of sqlparams: check.py C01 [--tier quick|thorough] [--seed N]

Exit 0: it held on everything explored.  Exit 1 with a VIOLATION line: it does
not.  Anything else: the check itself could not do its work.

check.py --replay FILE makes the call of a VIOLATION's replay file again.
"""
import argparse
import hashlib
import json
import os
import random
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
os.environ.setdefault("PYTHONHASHSEED", "0")

import codec
import configs
import drivers
import faults
import gen
import isolation
import judge
import record
import replay
import retention
from common import VERIF, Machinery, Scratch, import_repo

# Profiles of the model to enumerate and replay: (profile, atoms, simulations, most to replay).
PLAN = {
    "C01": {"quick": [("core", 2), ("wide", 12, 300)], "thorough": [("core", 3), ("tuple", 3), ("wide", 12, 6000), ("wide", 30, 2000)], "n": (2500, 24000)},
    "C02": {"quick": [("near", 2), ("esc", 2)], "thorough": [("near", 3), ("esc", 3), ("core", 3), ("wide", 16, 4000)], "n": (2500, 24000)},
    "C03": {"quick": [("pct", 2)], "thorough": [("pct", 4), ("wide", 12, 4000)], "n": (2500, 24000)},
    "C04": {"quick": [("core", 2)], "thorough": [("core", 3), ("tuple", 3)], "n": (1600, 16000)},
    "C05": {"quick": [("core", 2), ("tuple", 2)], "thorough": [("core", 3), ("tuple", 3), ("many", 2), ("wide", 12, 4000)], "n": (2500, 24000)},
    "C06": {"quick": [("tuple", 2)], "thorough": [("tuple", 3), ("many", 2), ("wide", 12, 4000)], "n": (2500, 24000)},
    "C07": {"quick": [("tuple", 2), ("names", 2)], "thorough": [("tuple", 3), ("names", 3), ("wide", 14, 4000)], "n": (2500, 24000)},
    "C08": {"quick": [("tuple", 2), ("addr", 2)], "thorough": [("tuple", 3), ("addr", 3), ("wide", 14, 4000)], "n": (2500, 24000)},
    "C09": {"quick": [("names", 2)], "thorough": [("names", 3), ("tuple", 3), ("wide", 14, 4000)], "n": (2500, 24000)},
    "C10": {"quick": [("many", 1), ("wide", 8, 200)], "thorough": [("many", 2), ("rows3", 2), ("wide", 10, 4000)], "n": (1800, 16000)},
    "C11": {"quick": [("rows3", 1), ("many", 1), ("norows", 2)], "thorough": [("rows3", 2), ("many", 2), ("norows", 3)], "n": (2500, 24000)},
    "C12": {"quick": [("esc", 2)], "thorough": [("esc", 4), ("wide", 14, 4000)], "n": (2500, 24000)},
    "C13": {"quick": [("near", 2)], "thorough": [("near", 4), ("wide", 14, 4000)], "n": (2500, 24000)},
    "C14": {"quick": [("com", 3)], "thorough": [("com", 5), ("wide", 14, 4000)], "n": (2500, 24000)},
    "C15": {"quick": [("bytes", 2)], "thorough": [("bytes", 3)], "n": (1800, 18000)},
    "C16": {"quick": [], "thorough": [], "n": (0, 0)},
    "C17": {"quick": [("addr", 2), ("norows", 2)], "thorough": [("addr", 3), ("norows", 3), ("rows3", 2)], "n": (2500, 24000)},
    "C18": {"quick": [("addr", 2)], "thorough": [("addr", 3)], "n": (1400, 14000)},
    "C19": {"quick": [("oracle", 2)], "thorough": [("oracle", 4)], "n": (2500, 24000)},
    "C20": {"quick": [("chain", 1)], "thorough": [("chain", 2)], "n": (1800, 18000)},
    "C21": {"quick": [], "thorough": [], "n": (0, 0)},
    "C22": {"quick": [], "thorough": [], "n": (0, 0)},
    "C23": {"quick": [("addr", 2), ("many", 1)], "thorough": [("addr", 3), ("many", 2), ("core", 3)], "n": (1600, 16000)},
    "C25": {"quick": [], "thorough": [], "n": (0, 0)},
    "C24": {"quick": [("com", 3), ("near", 2)], "thorough": [("com", 5), ("near", 3), ("esc", 3)], "n": (30000, 600000)},
}

ASSUME = [
    "TLC evaluates the specification correctly",
    "the recorder (harness/codec.py) reports what the call was given and returned; values are known by object identity",
    "isalnum()/decimal()/upper() of the running Python give the Unicode facts for characters above 127",
]


def key_of(call):
    """Identity of a call apart from the values bound."""
    shape = {k: call[k] for k in ("in", "out", "esc", "escs", "expand", "quotes", "com", "bytes", "many", "input", "sql")}
    shape["rows"] = [[r["t"], [[it["k"], it["v"]["t"], len(it["v"]["e"])] for it in r["items"]]] for r in call["rows"]]
    return hashlib.sha1(json.dumps(shape, sort_keys=True).encode()).hexdigest()[:16]


def known_findings(prop):
    """Listed findings of prop: key -> description ('fixed:' lines suppress nothing)."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as fh:
        for line in fh:
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == "known:" and parts[1] == f"property={prop}" and parts[2].startswith("key="):
                out[parts[2][4:]] = parts[3]
    return out


def shown(e, v):
    r = e["res"]
    got = {"sql": codec.text(r["sql"]) if r["ty"] != "bytes" else bytes(r["sql"]).decode("latin1"), "shape": r["shape"],
           "params": r["rows"]} if r["ok"] else {"raised": r["err"]}
    return {"call": e.get("note"), "returned": got, "failing clauses": v["bad"],
            "specification": "succeeds" if v["ok"] else f"refuses with {v['err']}", "agrees with the specification's result": v["exact"]}


class Outcome:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.bad = []            # (entry or None, description)
        self.coverage = {}
        self.states = self.transitions = self.traces = 0
        self.samples = []


def run_standard(o, scratch):
    plan = PLAN[o.prop]
    sp = import_repo()
    acc = replay.Replayed()
    for item in plan[o.tier]:
        prof, atoms, sim, limit = (list(item) + [None, None])[:4]
        replay.replay_profile(prof, atoms, scratch, o.seed, acc, prop=o.prop, simulate=sim, limit=limit)
    rng = random.Random(o.seed)
    n = plan["n"][o.tier == "thorough"]
    mix = 400 if o.tier == "thorough" else 60
    entries, ended = [], 0
    try:
        for e in drivers.calls(o.prop, sp, rng, n, mix):
            if "counts" in e:
                ended += 1
            else:
                entries.append(e)
    except codec.TooManyHangs:
        pass
    tally, drift_tally = judge.Tally(), judge.Tally()
    drift = acc.drift
    if len(drift) > 1600:
        drift = rng.sample(drift, 1600)
    # Replayed behaviours whose result differs from the model's are judged by the property's clauses.
    bad = judge.judge(o.prop, drift, scratch, drift_tally) + judge.judge(o.prop, entries, scratch, tally)
    o.bad = [(e, shown(e, v)) for e, v in bad]
    o.states = acc.states + tally.states + drift_tally.states
    o.transitions = acc.transitions + tally.transitions + drift_tally.transitions
    o.traces = acc.behaviours + tally.entries + ended
    o.coverage = {"model_runs": acc.runs, "behaviours_replayed": acc.behaviours, "replayed_succeeding": acc.succeeding, "replayed_binding_values": acc.binding,
                  "replays_differing_from_the_model": len(acc.drift), "recorded_calls_judged": tally.as_dict()}
    if o.prop == "C24":
        r = replay.liveness(scratch)
        o.states, o.transitions = o.states + r.states, o.transitions + r.transitions
        o.coverage["liveness"] = {"property": "Ends under weak fairness", "states": r.states}
        o.coverage["long_texts_that_ended"] = ended
    if entries:
        o.samples.append({"recorded call": entries[0]["note"]})
        o.samples.append({"recorded call": entries[len(entries) // 2]["note"]})
    for s in acc.sample[:2]:
        o.samples.append({"replayed behaviour": {"in": s["call"]["in"], "out": s["call"]["out"], "sql": codec.text(s["call"]["sql"]),
                                                 "ok": s["exp"]["ok"], "err": s["exp"]["err"], "converted": codec.text(s["exp"]["sql"])}})
    if not acc.drift and tally.entries and tally.exact < tally.entries:
        o.coverage["recorded_calls_differing_from_the_model"] = tally.entries - tally.exact


def run_isolation(o, scratch):
    stats = {}
    if o.prop == "C22":
        runs, entries = faults.run(scratch, o.seed, o.tier, stats)
    elif o.prop == "C25":
        runs, entries = retention.run(scratch, o.seed, o.tier, stats)
    else:
        runs, entries = isolation.run(scratch, o.seed, o.tier, stats)
        try:
            for e in drivers.calls(o.prop, import_repo(), random.Random(o.seed), 0, 800 if o.tier == "thorough" else 80):
                entries.append(e)
                stats["repeated"] = stats.get("repeated", 0) + 1
        except codec.TooManyHangs:
            pass
    tally = judge.Tally()
    bad = judge.judge(o.prop, entries, scratch, tally)
    o.bad = [(e, shown(e, v)) for e, v in bad]
    o.states = sum(r["states"] for r in runs) + tally.states
    o.transitions = sum(r["transitions"] for r in runs) + tally.transitions
    o.traces = sum(stats.get(k, 0) for k in ("history", "nested", "threads", "lines", "repeated", "histories", "random"))
    o.coverage = {"model_runs": runs, "schedules_carried_out": stats, "distinct_calls_judged": tally.as_dict()}
    o.samples = [e["note"] for e in entries[:3]]


def run_configs(o, scratch):
    stats = {}
    run, bad, entries = configs.run(scratch, o.seed, o.tier, stats)
    tally = judge.Tally()
    failing = judge.judge(o.prop, entries, scratch, tally)
    o.bad = [(None, {"configuration": b, "behaviour": beh}) for b, beh in bad] + [(e, shown(e, v)) for e, v in failing]
    o.states, o.transitions = run.states + tally.states, run.transitions + tally.transitions
    o.traces = stats["replayed"] + tally.entries
    o.coverage = {"constructions_replayed": stats["replayed"], "probe_calls_judged": tally.as_dict()}
    o.samples = [e["note"] for e in entries[:3]]


def floor(o):
    """Refuse to call a vacuous run a pass."""
    if o.bad:
        return
    if o.traces < 500:
        raise Machinery(f"only {o.traces} executions were checked")
    t = o.coverage.get("recorded_calls_judged") or o.coverage.get("distinct_calls_judged") or o.coverage.get("probe_calls_judged")
    if t and o.prop != "C24" and not (t["with_refs"] > t["entries"] / 4 and t["succeeding"] > t["entries"] / 4):
        raise Machinery(f"the recorded calls exercise too little: {t}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    o = Outcome(a.prop, tier, a.seed)
    scratch = Scratch()
    try:
        {"C16": run_isolation, "C21": run_configs, "C22": run_isolation, "C25": run_isolation}.get(a.prop, run_standard)(o, scratch)
        floor(o)
    finally:
        scratch.close()
    known = known_findings(a.prop)
    fresh, hit = [], {}
    for e, what in o.bad:
        k = key_of(e["call"]) if e else None
        if k in known:
            hit[k] = known[k]
        else:
            fresh.append((e, what))
    for k, what in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={a.prop} {what}")
    if drivers.TRIPS:
        o.coverage["harness_trips"] = drivers.TRIPS[:]
    evid = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evid, exist_ok=True)
    with open(os.path.join(evid, f"{a.prop}.json"), "w") as fh:
        json.dump({"property": a.prop, "tier": tier, "seed": a.seed, "level": "model_checking",
                   "coverage": {"states": o.states, "transitions": o.transitions, "traces_validated_against_impl": o.traces,
                                "samples": o.samples, **o.coverage},
                   "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}, fh, indent=1, default=repr)
    print(f"{a.prop} {tier}: {o.states} states, {o.traces} executions of the code checked, {len(fresh)} violations, {time.time() - t0:.1f} s")
    if not fresh:
        return 0
    rdir = os.path.join(evid, "replays")
    os.makedirs(rdir, exist_ok=True)
    # The shortest queries first, one per set of failing clauses.
    fresh.sort(key=lambda x: (len(x[0]["call"]["sql"]) + sum(len(r["items"]) for r in x[0]["call"]["rows"])) if x[0] else 0)
    seen = set()
    for e, what in fresh:
        c = json.dumps(what.get("failing clauses", "configuration"))
        if c in seen or len(seen) >= 4:
            continue
        seen.add(c)
        name = f"{a.prop}-{len(seen)}.json"
        with open(os.path.join(rdir, name), "w") as fh:
            json.dump({"property": a.prop, "seed": a.seed, "tier": tier, "key": key_of(e["call"]) if e else None, "what": what, "entry": e}, fh, indent=1, default=repr)
        print(json.dumps(what, default=repr)[:1500])
        print(f"VIOLATION property={a.prop} replay=evidence/replays/{name}")
    return 1


def do_replay(path):
    with open(path) as fh:
        d = json.load(fh)
    print(json.dumps(d["what"], indent=1))
    e = d["entry"]
    if not e or d["property"] in ("C16", "C20", "C22", "C23", "C24", "C25"):
        print(f"run again with: check.py {d['property']} --tier {d['tier']} --seed {d['seed']}")
        return 0
    sp = import_repo()
    rng = random.Random(d["seed"])
    scratch = Scratch()
    try:
        _, again = replay.replay_one(sp, {"call": e["call"], "exp": codec.failed(ValueError())}, rng, prop=d["property"], keep_all=True)
        again["note"].pop("specification", None)
        bad = judge.judge(d["property"], [again], scratch, judge.Tally())
    finally:
        scratch.close()
    print("now:", json.dumps(shown(again, bad[0][1]) if bad else "holds", default=repr, indent=1))
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        code = main()
    except Machinery as e:
        print(f"the check could not do its work: {e}", file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
