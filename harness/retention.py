"""C25: what a call was given is let go of when it is over.

The specification (Sched, invariant Released) has it that with no call under way
nothing of the earlier ones is held.  Its histories, failing accesses included,
and random calls of every kind are carried out with parameters that can be told
from outside to be gone (weak references); the instances stay.  TLC judges the
recordings (clause Released).
"""
import collections
import collections.abc
import gc
import multiprocessing
import random
import weakref

import codec
import faults
import gen
import isolation
import record
from common import import_repo
from drivers import PAIRS, spoil
from gen import Case
from isolation import HOOK
from judge import entry


class Thing:
    """A value that can be watched."""


class Tracked(dict):
    pass


class TrackedList(list):
    pass


def thing(v, rng):
    """Such a value in place of v (tuples and lists hold them)."""
    if isinstance(v, tuple):
        return tuple(Thing() for _ in v)
    if type(v) is list:
        return TrackedList([Thing()])
    return Thing()


def things_in(x, out):
    if isinstance(x, (Thing, Tracked, TrackedList)):
        out.append(x)
    if isinstance(x, collections.abc.Mapping):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        for y in x:
            things_in(y, out)


MAPS = [Tracked, Tracked, collections.OrderedDict, codec.GenMap, codec.KeyedMap, collections.UserDict, codec.LazyDict, isolation.GMap]
SEQS = [TrackedList, TrackedList, codec.GenSeq, collections.deque, collections.UserList, codec.LazyList, isolation.GSeq, tuple]


def watched_rows(rows, rng, stops=False):
    """The rows over again, of objects that can be watched; and all those objects."""
    new, all_of = [], []
    for row in rows:
        if isinstance(row, collections.abc.Mapping):
            items = [(k, thing(v, rng)) for k, v in row.items()]
            for _, v in items:
                things_in(v, all_of)
            made = (isolation.GMap if stops else rng.choice(MAPS))(items)
        elif isinstance(row, collections.abc.Sequence) and not isinstance(row, (str, bytes)):
            vals = [thing(v, rng) for v in row]
            things_in(vals, all_of)
            made = (isolation.GSeq if stops else rng.choice(SEQS))(vals)
        else:
            made = rng.choice([Thing(), Thing(), row])
        # What the generator of cases made is known to it, so is not watched.
        if made is not row:
            all_of.append(made)
        new.append(made)
    return new, all_of


class Batch:
    """Calls whose objects are looked for together, once they should be gone."""

    def __init__(self):
        self.insts, self.open, self.out = [], [], []
        self.watched = 0

    def call(self, inst, kw, sql, rows, many, rng, at=0, stops=False):
        """One call with watched stand-ins for the rows; the at-th access fails."""
        rows, all_of = watched_rows(rows, rng, stops)
        reg = codec.Reg()
        call = codec.a_call(kw, sql, rows, many, reg)
        note = record.describe(Case(kw, sql, rows, many))
        exc = rng.choice(faults.KINDS)("the caller's own failure")
        note["failing access"] = at
        HOOK.fn = faults.Counter(at, exc) if at else None
        arg = rows[0]
        if many:
            how = rng.choice(["list", "generator", "rows"])
            arg = TrackedList(rows) if how == "list" else (r for r in rows) if how == "generator" else codec.Rows(rows)
            all_of.append(arg)
        try:
            res, got = codec.run_call(inst, sql, arg, many, reg)
        finally:
            HOOK.fn = None
        refs = []
        for x in all_of + [got[1] if isinstance(got, tuple) and len(got) == 2 else None, exc]:
            try:
                refs.append(weakref.ref(x))
            except TypeError:
                pass
        self.watched += len(refs)
        # everything of the call goes, bar the references that do not count
        del rows, all_of, reg, arg, got, exc, x
        self.open.append((call, res, note, refs))

    def settle(self):
        gc.collect()
        for call, res, note, refs in self.open:
            left = [r() for r in refs]
            left = [type(x).__name__ for x in left if x is not None]
            if left:
                res["kept"] = True
                note["still held"] = left[:6]
            self.out.append(entry(call, res, note=note))
        self.open = []
        self.insts = []


def _work(args):
    seed, part, plan, n = args
    sp = import_repo()
    rng = random.Random(seed * 4243 + part)
    b = Batch()
    counts = {"histories": 0, "random": 0}
    try:
        carry_out(sp, plan, n, rng, b, counts)
    except codec.TooManyHangs:
        pass
    b.settle()
    counts["watched objects"] = b.watched
    return b.out, counts


def carry_out(sp, plan, n, rng, b, counts):
    pairs = list(PAIRS)
    rng.shuffle(pairs)
    for k, beh in enumerate(plan):
        i, o = pairs[k % len(pairs)]
        kw = {"in_style": i, "out_style": o, "expand_tuples": True}
        inst, err = record.build(sp, kw)
        if err is not None:
            continue
        b.insts.append(inst)
        make = isolation.spec_cases(rng, i, True)
        for c in beh["prog"][0]:
            many = rng.random() < 0.4
            sql, rows = make(c["t"], many)
            b.call(inst, kw, sql, rows, many, rng, at=c["f"], stops=True)
        counts["histories"] += 1
        if len(b.open) > 600:
            b.settle()
    for k in range(n):
        i, o = pairs[k % len(pairs)]
        kw = gen.pick_config(rng, i, o, com=0.1, esc=0.2)
        inst, err = record.build(sp, kw, rng)
        if err is not None:
            continue
        b.insts.append(inst)
        for _ in range(rng.choice([1, 2, 3])):
            case = gen.make_case(rng, kw, literals=gen.CLEAN, ptup=0.4)
            if rng.random() < 0.3:
                case = spoil(rng, case) or case
            fails = rng.random() < 0.2
            b.call(inst, kw, case.sql, case.rows, case.many, rng, at=rng.choice([1, 2, 3, 5, 8, 13]) if fails else 0, stops=fails)
        counts["random"] += 1
        if len(b.open) > 600:
            b.settle()


def run(scratch, seed, tier, stats):
    rng = random.Random(seed)
    deep = tier == "thorough"
    behs, runs = [], []
    for mode, calls in [("history", 3 if deep else 2), ("faults", 2)]:
        got = []
        r = isolation.schedules(scratch, mode, calls, got.append, seed=seed, timeout=800)
        rng.shuffle(got)
        behs.extend(got if deep else got[:700])
        runs.append({"mode": mode, "calls": calls, "how": "exhaustive", "states": r.states, "transitions": r.transitions, "behaviours": len(got)})
    stats["wrong designs"] = isolation.refuted(scratch, "C25")
    rng.shuffle(behs)
    jobs = 8
    work = [(seed, p, behs[p::jobs], 3000 if deep else 220) for p in range(jobs)]
    entries = []
    with multiprocessing.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
        for out, counts in pool.imap_unordered(_work, work, 1):
            entries.extend(out)
            for k, v in counts.items():
                stats[k] = stats.get(k, 0) + v
    return runs, entries
