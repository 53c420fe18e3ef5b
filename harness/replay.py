"""Enumerate the specification with TLC and replay every behaviour on the code."""
import json
import multiprocessing
import random
import time

import codec
import record
from common import TlcRun, import_repo
from gen import Case
from judge import entry

INVS = ["InvRecognition", "InvStrip", "InvSkeleton", "InvMeaning", "InvStrict", "InvIds", "InvNumbering", "InvOrdinal",
        "InvNames", "InvShape", "InvRefusal", "InvContainer", "InvMeasure"]


def cfg(prof, atoms, emit=True, props=True, invs=True):
    return "\n".join(
        ["SPECIFICATION Spec", "CONSTANT ExtTab <- NoExt", f'CONSTANT Prof = "{prof}"', f"CONSTANT MaxAtoms = {atoms}",
         f"CONSTANT EmitOn = {'TRUE' if emit else 'FALSE'}", "CHECK_DEADLOCK FALSE"]
        + (["INVARIANT " + i for i in INVS] if invs else [])
        + ["INVARIANT EmitBehaviour"]
        + (["PROPERTY ConfigConst", "PROPERTY Monotone", "PROPERTY Progress"] if props else [])) + "\n"


_SP = None


def peers_for(prop, sp, case, rng, reg):
    """Further calls a property compares a (differing) call with."""
    def other(kw, sql, rows, many, rel):
        return {"rel": rel, "res": record.perform(sp, Case(kw, sql, rows, many), rng, reg=reg)[1]}
    if prop == "C10" and case.many:
        return [other(case.kw, case.sql, [r], False, "row") for r in case.rows]
    if prop == "C15" and isinstance(case.sql, str) and all(ord(c) < 256 for c in case.sql):
        return [other(case.kw, case.sql.encode("latin1"), case.rows, case.many, "bytes")]
    return []


def replay_one(sp, beh, rng, prop="", keep_all=False):
    """Replay one behaviour; (matches, entry or None)."""
    call, exp = beh["call"], beh["exp"]
    reg, alias = codec.Reg(), {}
    rows = [codec.make_row(r, reg, rng, alias) for r in call["rows"]]
    kw = codec.make_config(call, rng)
    sql = bytes(call["sql"]) if call["bytes"] else codec.text(call["sql"])
    if call["input"] == "badsql":
        sql = rng.choice(codec.BAD_SQL)
    arg = rng.choice(codec.BAD_MANY) if call["input"] == "badmany" else codec.rows_arg(rows, rng) if call["many"] else rows[0]
    inst, err = codec.guarded(lambda: sp.SQLParams(**kw))
    if err is not None:
        res = codec.failed(err)
    else:
        res, _ = codec.run_call(inst, sql, arg, call["many"], reg)
    want = codec.exp_mapped(exp, alias)
    ok = codec.canon(res) == codec.canon(want)
    if ok and not keep_all:
        return True, None
    # The call as it was really made (aliased values share an identity).
    real = codec.a_call(kw, sql, None if call["input"] == "badmany" else rows, call["many"], reg)
    peers = peers_for(prop, sp, Case(kw, sql, rows, call["many"]), rng, reg) if call["input"] == "ok" else []
    return ok, entry(real, res, peers, note={"SQLParams": {k: repr(v) for k, v in kw.items()}, "sql": repr(sql),
                                      "params": [repr(r)[:300] for r in rows],
                                      "specification": {"ok": want["ok"], "err": want["err"], "sql": codec.text(want["sql"])}})


def replay_chain(sp, beh, rng):
    """Replay a behaviour of Chain: two real conversions in a row."""
    call, c2 = beh["call"], beh["call2"]
    reg, alias = codec.Reg(), {}
    rows = [codec.make_row(r, reg, rng, alias) for r in call["rows"]]
    many = call["many"]
    k1 = codec.make_config(call, rng)
    k2 = codec.make_config(c2, rng)
    one = Case(k1, codec.text(call["sql"]), rows, many)
    pre, r1, reg = record.perform(sp, one, rng, reg=reg)
    last = r1
    if r1["ok"]:
        mid_sql, mid = one.got
        two = Case(k2, mid_sql, mid if many else [mid], many)
        _, last, _ = record.perform(sp, two, rng, reg=reg)
    ok = codec.canon(r1) == codec.canon(codec.exp_mapped(beh["mid"], alias)) and codec.canon(last) == codec.canon(codec.exp_mapped(beh["exp"], alias))
    if ok:
        return True, None
    kd = dict(k1, out_style=k2["out_style"], expand_tuples=True)
    direct, rd, _ = record.perform(sp, Case(kd, one.sql, rows, many), rng, reg=reg)
    return False, entry(direct, rd, [{"rel": "chain", "res": last}], pre=[pre],
                        note={**record.describe(one), "then": {k: repr(v) for k, v in k2.items()}})


def _work(args):
    seed, lo, lines, prop = args
    sp = import_repo()
    out, refs = [], 0
    n = okc = 0
    for i, line in enumerate(lines):
        beh = json.loads(line)
        rng = random.Random(seed * 1000003 + lo + i)
        try:
            same, e = replay_chain(sp, beh, rng) if "call2" in beh else replay_one(sp, beh, rng, prop)
        except codec.TooManyHangs:
            break
        n += 1
        okc += beh["exp"]["ok"]
        refs += bool(beh["exp"]["ok"] and any(beh["exp"]["rows"]))
        if not same and len(out) < 300:
            out.append(e)
    return n, okc, refs, out, len(out)


class Replayed:
    def __init__(self):
        self.behaviours = self.succeeding = self.binding = self.states = self.transitions = 0
        self.runs = []
        self.drift = []
        self.sample = []


def replay_profile(prof, atoms, scratch, seed, acc, prop="", timeout=800, jobs=8, limit=None, simulate=None, heap="8g"):
    """Model-check a profile and replay what it emitted."""
    lines = []
    t0 = time.time()
    run = _run(prof, atoms, scratch, lines, timeout, simulate, seed, heap)
    t1 = time.time()
    rng = random.Random(seed)
    if limit is not None and len(lines) > limit:
        lines = rng.sample(lines, limit)
    if lines:
        acc.sample.append(json.loads(rng.choice(lines)))
    step = max(200, -(-len(lines) // (jobs * 4)))
    work = [(seed, lo, lines[lo:lo + step], prop) for lo in range(0, len(lines), step)]
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        for n, okc, refs, out, _ in pool.imap_unordered(_work, work):
            acc.behaviours += n
            acc.succeeding += okc
            acc.binding += refs
            acc.drift.extend(out)
    acc.states += run.states
    acc.transitions += run.transitions
    acc.runs.append({"profile": prof, "atoms": atoms, "mode": "simulate" if simulate else "exhaustive", "states": run.states,
                     "transitions": run.transitions, "depth": run.depth, "behaviours": run.emitted, "replayed": len(lines),
                     "tlc_s": round(t1 - t0, 1), "replay_s": round(time.time() - t1, 1)})
    return run


def liveness(scratch):
    """Every call ends: the temporal property, under weak fairness of the machine."""
    text = "\n".join(["SPECIFICATION FairSpec", "CONSTANT ExtTab <- NoExt", 'CONSTANT Prof = "com"', "CONSTANT MaxAtoms = 2", "CONSTANT EmitOn = FALSE",
                      "PROPERTY Ends", "PROPERTY Progress", "CHECK_DEADLOCK FALSE"]) + "\n"
    return TlcRun("MC", text, scratch, timeout=300).require()


def _run(prof, atoms, scratch, lines, timeout, simulate, seed, heap):
    args = []
    if simulate:
        args = ["-simulate", f"num={simulate}", "-depth", "400", "-seed", str(seed)]
    module, text = "MC", cfg(prof, atoms, props=not simulate)
    if prof == "chain":
        module = "Chain"
        text = (f'SPECIFICATION CSpec\nCONSTANTS ExtTab <- NoExt\n Prof = "chain"\n MaxAtoms = {atoms}\n EmitOn = TRUE\n'
                'INVARIANT Composes\nINVARIANT EmitChain\nCHECK_DEADLOCK FALSE\n')
    run = TlcRun(module, text, scratch, args=args, sink=lines.append, timeout=timeout, heap=heap, raw=True)
    return run.require()
