"""C22: the caller's own failures, raised while his containers are read.

The specification (Sched, mode "faults") enumerates histories of calls on one
instance in which any access to a caller's container or iterable of rows may
fail; each is carried out on a real instance with containers that raise at that
access.  TLC judges (clause PeersCaller) that the call failed with the very
exception object raised, and (PeersSame) that every other call returned what it
returns on a fresh instance.
"""
import multiprocessing
import random

import codec
import gen
import isolation
from common import import_repo
from drivers import PAIRS
from isolation import HOOK


class Trouble(Exception):
    pass


class RuntimeTrouble(RuntimeError):
    pass


class SystemTrouble(OSError):
    pass


class NumberTrouble(ArithmeticError):
    pass


class ValueTrouble(ValueError):
    pass


class WarnTrouble(UserWarning):
    pass


class Halt(codec.Stop):
    pass


KINDS = [Trouble, RuntimeTrouble, SystemTrouble, NumberTrouble, ValueTrouble, WarnTrouble, Halt]


class Counter:
    """Raises at the k-th access."""

    def __init__(self, k, exc):
        self.k, self.n, self.exc, self.hit = k, 0, exc, False

    def __call__(self):
        self.n += 1
        if self.n == self.k:
            self.hit = True
            raise self.exc


def call_with_fault(g, sh, i, at, rng, how):
    """Call case i with the at-th access failing (0: none does); accesses made."""
    exc = rng.choice(KINDS)("the caller's own failure")
    c = Counter(at, exc)
    sh.trouble = exc
    before = g.watch()
    HOOK.fn = c
    try:
        r = sh.elsewhere(g.cases[i]) if rng.random() < 0.2 else sh.call(g.cases[i], True)
    finally:
        HOOK.fn = None
        sh.trouble = None
    if g.watch() != before:
        r["mut"] = True
    g.saw(i, r, {**how, "case": i, "access": at, "raised": type(exc).__name__}, "caller" if c.hit else "same")
    return c.n, c.hit


def fault_nested(g, prog, rng, how):
    """A call that fails while another one, on the same instance, is under way."""
    sh = g.shared()
    state = {"n": 0, "depth": 0}
    frames = []
    out = []

    def begin(i):
        exc = rng.choice(KINDS)("the caller's own failure")
        at = rng.choice([0, 1, 2, 3, 4, 6, 9])
        f = {"n": 0, "at": at, "exc": exc, "hit": False}
        frames.append(f)
        saved, sh.trouble = sh.trouble, exc
        try:
            r = sh.call(g.cases[i], len(frames) == 1)
        finally:
            frames.pop()
            sh.trouble = saved
        out.append((i, r, f))

    todo = list(prog)

    def hook():
        if todo and len(frames) < 4 and rng.random() < 0.35:
            begin(todo.pop(0))
        f = frames[-1] if frames else None
        if f is not None:
            f["n"] += 1
            if f["n"] == f["at"]:
                f["hit"] = True
                raise f["exc"]

    before = g.watch()
    HOOK.fn = hook
    try:
        while todo:
            begin(todo.pop(0))
    finally:
        HOOK.fn = None
    if g.watch() != before:
        for _, r, _ in out:
            r["mut"] = True
    hits = 0
    for i, r, f in out:
        hits += f["hit"]
        g.saw(i, r, {**how, "case": i, "access": f["at"]}, "caller" if f["hit"] else "same")
    return hits


def _work(args):
    seed, part, plan, budget = args
    sp = import_repo()
    rng = random.Random(seed * 6007 + part)
    counts = {"histories": 0, "nested": 0, "calls": 0, "failing accesses": 0, "groups": 0}
    tg, rg = [], []
    try:
        tg.extend(isolation.template_group(sp, rng, i, o) for i, o in plan["pairs"])
        rg.extend(isolation.random_group(sp, rng, i, o, bare=0.0, many=0.5) for i, o in plan["random"])
        carry_out(plan, budget, rng, tg, rg, counts)
    except codec.TooManyHangs:
        pass
    out = []
    for g in [g for g, _ in tg] + rg:
        counts["calls"] += g.n
        counts["groups"] += 1
        out.extend(g.entries())
    return out, counts


def carry_out(plan, budget, rng, tg, rg, counts):
    for n, beh in enumerate(plan["behaviours"]):
        g, index = tg[n % len(tg)]
        sh = g.shared()
        for c in beh["prog"][0]:
            _, hit = call_with_fault(g, sh, index[1 + n % 2, c["t"]], c["f"], rng, {"mode": "faults", "prog": beh["prog"][0]})
            counts["failing accesses"] += hit
        counts["histories"] += 1
    for g in rg + [g for g, _ in tg]:
        # every access of every case in turn, on one instance and with calls that succeed in between
        sh = g.shared()
        for i in range(len(g.cases)):
            total, _ = call_with_fault(g, sh, i, 0, rng, {"mode": "every access"})
            ks = list(range(1, total + 1))
            if len(ks) > budget["accesses"]:
                ks = sorted(rng.sample(ks, budget["accesses"] - 2) + [1, total])
            for k in ks:
                _, hit = call_with_fault(g, sh, i, k, rng, {"mode": "every access"})
                counts["failing accesses"] += hit
                if rng.random() < 0.3:
                    call_with_fault(g, sh, rng.randrange(len(g.cases)), 0, rng, {"mode": "every access"})
            counts["histories"] += 1
        for _ in range(budget["nested"]):
            prog = [rng.randrange(len(g.cases)) for _ in range(rng.choice([2, 3, 5]))]
            counts["failing accesses"] += fault_nested(g, prog, rng, {"mode": "nested faults", "calls": prog})
            counts["nested"] += 1


def run(scratch, seed, tier, stats):
    rng = random.Random(seed)
    deep = tier == "thorough"
    behs = []
    r = isolation.schedules(scratch, "faults", 3 if deep else 2, behs.append, seed=seed, timeout=800)
    runs = [{"mode": "faults", "calls": 3 if deep else 2, "how": "exhaustive", "states": r.states, "transitions": r.transitions, "behaviours": len(behs)}]
    stats["wrong designs"] = isolation.refuted(scratch, "C22")
    rng.shuffle(behs)
    jobs = 8
    pairs = list(PAIRS)
    rng.shuffle(pairs)
    more = list(PAIRS) * (8 if deep else 2)
    rng.shuffle(more)
    work = [(seed, p, {"pairs": pairs[p::jobs], "random": more[p::jobs], "behaviours": behs[p::jobs]},
             {"accesses": 60 if deep else 24, "nested": 12 if deep else 4}) for p in range(jobs)]
    entries = []
    with multiprocessing.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
        for out, counts in pool.imap_unordered(_work, work, 1):
            entries.extend(out)
            for k, v in counts.items():
                stats[k] = stats.get(k, 0) + v
    return runs, entries
