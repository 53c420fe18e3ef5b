"""C16: calls on one instance, in histories, in threads and within each other.

The specification (Sched) enumerates the schedules; each is carried out on a
real instance whose parameter containers stop at every access, and what each
call returned is held (by TLC, clause PeersSame) against what a fresh instance
in a process that made no other call returns.
"""
import collections
import collections.abc
import json
import multiprocessing
import os
import random
import sys
import threading
import time

import codec
import gen
import record
from codec import Reg
from common import REPO, Machinery, TlcRun, import_repo
from drivers import PAIRS
from gen import INTRO, Case, kind
from judge import entry

CFG = """SPECIFICATION Spec
CONSTANTS Design = "{design}"
 Mode = "{mode}"
 MaxCalls = {calls}
 EmitOn = {emit}
INVARIANT Isolation
INVARIANT FaultComesThrough
INVARIANT Released
INVARIANT EmitBehaviour
CHECK_DEADLOCK FALSE
"""


# Designs that are wrong, and where TLC has to find that out.
WRONG = {"C16": [("shared", "threads", 1), ("shared", "nested", 2), ("leak", "history", 2), ("memo", "history", 2), ("identity", "recycled", 2)],
         "C22": [("leak", "faults", 2), ("swallow", "faults", 1)],
         "C25": [("shared", "history", 1), ("leak", "faults", 1), ("memo", "history", 1), ("identity", "recycled", 1)]}


def refuted(scratch, prop):
    """TLC refutes the wrong designs, so the invariants say something."""
    out = []
    for design, mode, calls in WRONG[prop]:
        # each property's own invariants are to be what refutes them
        own = {"C16": ["Isolation"], "C22": ["Isolation", "FaultComesThrough"], "C25": ["Released"]}[prop]
        cfg = "\n".join(l for l in CFG.split("\n") if not l.startswith("INVARIANT") or l.split()[1] in own)
        r = TlcRun("Sched", cfg.format(design=design, mode=mode, calls=calls, emit="FALSE"), scratch, timeout=300)
        if r.rc != 12 or "is violated" not in r.text:
            raise Machinery(f"TLC does not refute the design {design} in mode {mode}:\n{r.text[-1500:]}")
        out.append({"design": design, "mode": mode, "calls": calls, "refuted": True})
    return out


def schedules(scratch, mode, calls, sink, simulate=None, seed=1, timeout=600):
    args = ["-simulate", f"num={simulate}", "-depth", "60", "-seed", str(seed)] if simulate else []
    return TlcRun("Sched", CFG.format(design="percall", mode=mode, calls=calls, emit="TRUE"), scratch, args=args, sink=sink, timeout=timeout).require()


# --------------------------------------------------------------------------
# Containers that stop at every access

class Hook:
    """Called at every access of a gated container (when set)."""
    fn = None


HOOK = Hook()


def touch():
    f = HOOK.fn
    if f is not None:
        f()


class GMap(collections.abc.Mapping):
    def __init__(self, items):
        self._d = dict(items)

    def __getitem__(self, k):
        touch()
        return self._d[k]

    def __iter__(self):
        touch()
        return iter(list(self._d))

    def __len__(self):
        touch()
        return len(self._d)


class GSeq(collections.abc.Sequence):
    def __init__(self, items):
        self._l = list(items)

    def __getitem__(self, i):
        touch()
        return self._l[i]

    def __iter__(self):
        touch()
        return iter(list(self._l))

    def __len__(self):
        touch()
        return len(self._l)


class GTup(tuple):
    """A tuple (to be expanded, perhaps)."""

    def __getitem__(self, i):
        touch()
        return tuple.__getitem__(self, i)

    def __iter__(self):
        touch()
        return tuple.__iter__(self)

    def __len__(self):
        touch()
        return tuple.__len__(self)


def gated(row, rng=None):
    def value(v):
        return GTup(v) if rng is not None and type(v) is tuple and rng.random() < 0.4 else v
    if isinstance(row, collections.abc.Mapping):
        return GMap([(k, value(v)) for k, v in row.items()])
    if isinstance(row, collections.abc.Sequence) and not isinstance(row, (str, bytes)):
        return GSeq([value(v) for v in row])
    return row


def plain(row):
    """The row as a list or dictionary."""
    if isinstance(row, collections.abc.Mapping):
        return dict(row.items())
    if isinstance(row, collections.abc.Sequence) and not isinstance(row, (str, bytes)):
        return list(row)
    return row


def rows_gen(rows):
    for r in rows:
        touch()
        yield r


class GRows:
    """Rows that can be gone through again and again."""

    def __init__(self, rows):
        self._rows = rows

    def __iter__(self):
        touch()
        return rows_gen(self._rows)


# --------------------------------------------------------------------------
# One call on a shared instance

class Shared:
    """An instance under test with everything that was passed to and returned by it."""

    def __init__(self, inst, reg):
        self.inst, self.reg = inst, reg
        self.known = {}      # id -> collection: the caller's, and those already returned
        self.trouble = None  # what a container raised during the call

    def own(self, obj):
        self.known[id(obj)] = obj

    def elsewhere(self, case):
        """The call, made in another thread; a failure to come back is an outcome."""
        box = []
        t = threading.Thread(target=lambda: box.append(self.call(case, False)), daemon=True)
        t.start()
        t.join(8)
        if box:
            return box[0]
        if not t.is_alive():
            return codec.failed(RuntimeError("the thread died"))
        codec.HANGS[0] += 1
        if codec.HANGS[0] >= 6:
            raise codec.TooManyHangs()
        return codec.failed(codec.Hang())

    def call(self, case, guard, boxes=None):
        rows = case.rows if boxes is None else boxes.filled(case)
        arg = (GRows(rows) if case.lazy == "again" else rows_gen(rows) if case.lazy else rows if boxes is not None else list(rows)) if case.many else rows[0]
        fn = self.inst.formatmany if case.many else self.inst.format
        if guard:
            got, err = codec.guarded(fn, case.sql, arg, limit=8.0)
        else:
            try:
                got, err = fn(case.sql, arg), None
            except (Exception, codec.Stop) as e:
                got, err = None, e
        if err is not None:
            return codec.failed(err, self.trouble)
        res = codec.a_result(got, case.many, self.reg)
        if isinstance(got, tuple) and len(got) == 2:
            cols = [got[1]] + (list(got[1]) if case.many and isinstance(got[1], list) else [])
            for c in cols:
                if not isinstance(c, (list, dict)):
                    continue
                if id(c) in self.known:
                    res["shared"] = True
                self.known[id(c)] = c
            # The caller does as he likes with what he was given.
            for c in cols:
                if isinstance(c, dict):
                    c.clear()
                    c["changed"] = self
                elif isinstance(c, list):
                    c[:] = [self, self]
        return res


class Boxes:
    """Containers that are refilled before each call (never put in a box: what is no mapping or sequence)."""

    def __init__(self, sh, rng):
        self.sh, self.boxes, self.outer = sh, {}, []
        self.kinds = {"map": rng.choice([dict, dict, GMap, collections.OrderedDict]), "seq": rng.choice([list, list, GSeq, collections.deque])}
        sh.own(self.outer)

    def filled(self, case):
        rows = []
        for n, row in enumerate(case.rows):
            what = "map" if isinstance(row, collections.abc.Mapping) else "seq" if isinstance(row, collections.abc.Sequence) and not isinstance(row, (str, bytes)) else None
            if what is None:
                rows.append(row)
                continue
            if (what, n) not in self.boxes:
                box = self.boxes[what, n] = self.kinds[what]([])
                self.sh.own(box)
            box = self.boxes[what, n]
            inner = box._d if isinstance(box, GMap) else box._l if isinstance(box, GSeq) else box
            inner.clear()
            (inner.update if what == "map" else inner.extend)(row.items() if what == "map" else row)
            rows.append(box)
        self.outer[:] = rows
        return self.outer

    def watch(self):
        return codec.snapshot(self.outer)


def run_recycled(g, prog, objs, how, rng):
    """A history in which the caller hands over the same containers, refilled (where objs has 1)."""
    sh = g.shared()
    boxes = Boxes(sh, rng)
    before = g.watch()
    out = []
    try:
        for i, o in zip(prog, objs):
            if not o:
                out.append((i, sh.call(g.cases[i], True)))
                continue
            boxes.filled(g.cases[i])
            was = boxes.watch()
            r = sh.call(g.cases[i], True, boxes=boxes)
            if boxes.watch() != was:
                r["mut"] = True
            out.append((i, r))
    finally:
        g.saw_all(out, before, how)


def spec_cases(rng, st, expand):
    """The call templates of Sched for source style st; values by (thread)."""
    k = kind(st)
    shapes = {1: (1,), 2: (1, 2), 3: (2, 1, 2), 4: (1, 3), 5: (), 6: (1, 2)}

    def make(t, many):
        refs = shapes[t]
        sql = "S%s" % {6: 2}.get(t, t)
        for r in refs:
            sql += " " + (gen.ref_text(st, "") if k == "ordinal" else gen.ref_text(st, "abc"[r - 1]) if k == "named" else INTRO[st] + str(r))
        rows = []
        for _ in range(2 if many else 1):
            vals = {r: codec.fresh_scalar(rng) for r in (1, 2)}
            if t == 6:
                vals[2] = (codec.fresh_scalar(rng), codec.fresh_scalar(rng))
            if k == "named":
                rows.append(GMap([("abc"[r - 1], v) for r, v in vals.items()]))
            elif k == "numeric":
                rows.append(GSeq([vals[1], vals[2]]) if rng.random() < 0.5 else GMap([(r, v) for r, v in vals.items()]))
            else:
                n = len(refs) - (1 if t == 4 else 0)
                vs = [vals[r] for r in refs[:n]]
                rows.append(GSeq(vs) if rng.random() < 0.5 else GMap(list(enumerate(vs))))
        return sql, rows
    return make


def new_case(kw, sql, rows, many, lazy=False):
    c = Case(kw, sql, rows, many)
    c.lazy = lazy
    return c


def in_child(fn):
    """fn() in a forked child that made no call before; its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else codec.failed(RuntimeError("the child died"))


def fresh_result(sp, case, reg):
    def go():
        inst, err = record.build(sp, case.kw)
        if err is not None:
            return codec.failed(err)
        arg = list(case.rows) if case.many else case.rows[0]
        res, _ = codec.run_call(inst, case.sql, arg, case.many, reg, watch=[case.rows])
        return res
    res = in_child(go)
    if res["err"] == "Hang":
        codec.HANGS[0] += 1
        if codec.HANGS[0] >= 6:
            raise codec.TooManyHangs()
    return res


class Group:
    """A configuration, its cases, what each returns alone, and what was seen."""

    def __init__(self, sp, kw, cases, rng):
        self.sp, self.kw, self.cases = sp, kw, cases
        self.reg = Reg()
        self.calls = [codec.a_call(c.kw, c.sql, c.rows, c.many, self.reg) for c in cases]
        self.fresh = [fresh_result(sp, c, self.reg) for c in cases]
        self.seen = [{} for _ in cases]
        self.n = 0
        self.watched = [c.rows for c in cases]

    def shared(self):
        sh = Shared(self.sp.SQLParams(**self.kw), self.reg)
        for c in self.cases:
            sh.own(c.rows)
            for r in c.rows:
                sh.own(r)
        return sh

    def watch(self):
        return codec.snapshot(self.watched)

    def saw(self, i, res, how, rel="same"):
        self.n += 1
        key = repr((codec.canon(res), res["mut"], res["shared"], rel))
        if key not in self.seen[i]:
            self.seen[i][key] = (res, how, rel)

    def saw_all(self, out, before, how):
        changed = self.watch() != before
        for i, r in out:
            if changed:
                r["mut"] = True
            self.saw(i, r, how)

    def entries(self):
        for i, c in enumerate(self.cases):
            peers = [{"rel": rel, "res": r} for r, _, rel in self.seen[i].values()]
            if peers:
                yield entry(self.calls[i], self.fresh[i], peers,
                            note={**record.describe(c), "schedules": [how for _, how, _ in self.seen[i].values()][:4]})


# --------------------------------------------------------------------------
# Carrying out schedules

def run_history(g, prog, how, rng):
    sh = g.shared()
    before = g.watch()
    out = []
    threads = rng.random() < 0.3
    try:
        for i in prog:
            out.append((i, sh.elsewhere(g.cases[i]) if threads and rng.random() < 0.5 else sh.call(g.cases[i], True)))
    finally:
        g.saw_all(out, before, how)


def run_nested(g, prog, sched, how, rng=None):
    """prog: cases in the order they begin; sched: events (negative: begin within)."""
    sh = g.shared()
    before = g.watch()
    out = []
    todo = list(prog)
    events = list(sched)
    depth = [0]

    def begin():
        i = todo.pop(0)
        depth[0] += 1
        try:
            r = sh.call(g.cases[i], depth[0] == 1)
        finally:
            depth[0] -= 1
        out.append((i, r))

    def hook():
        if rng is not None:
            if todo and depth[0] < 4 and rng.random() < 0.3:
                begin()
            return
        while events and events[0] < 0:
            events.pop(0)
            if todo and depth[0] < 5:
                begin()
        if events:
            events.pop(0)

    HOOK.fn = hook
    try:
        while todo:
            if events and rng is None:
                events.pop(0)
            begin()
    finally:
        HOOK.fn = None
        g.saw_all(out, before, how)


class Stepper:
    """Threads of which one runs at a time, from one stop to the next."""

    def __init__(self, n):
        self.cv = threading.Condition()
        self.state = ["idle"] * n
        self.turn = [False] * n
        self.free = False
        self.me = threading.local()

    def stop(self):
        th = getattr(self.me, "th", None)
        if th is None or self.free:
            return
        with self.cv:
            self.state[th] = "idle"
            self.cv.notify_all()
            while not self.turn[th] and not self.free:
                self.cv.wait(5)
            self.turn[th] = False
            self.state[th] = "running"

    def step(self, th, wait=0.3):
        """Let th run to its next stop; False when it cannot move."""
        with self.cv:
            if self.state[th] != "idle":
                return False
            self.turn[th] = True
            self.cv.notify_all()
            end = time.monotonic() + wait
            while self.turn[th] or self.state[th] == "running":
                left = end - time.monotonic()
                if left <= 0:
                    break      # waiting for something another thread holds
                self.cv.wait(left)
            return True

    def finish(self, th):
        with self.cv:
            self.state[th] = "done"
            self.cv.notify_all()


def run_threads(g, progs, sched, how, lines=False, rng=None):
    """progs: per thread the cases it calls; sched: the order of turns."""
    sh = g.shared()
    before = g.watch()
    st = Stepper(len(progs))
    results = [[] for _ in progs]
    root = os.path.realpath(REPO) + os.sep + "sqlparams"

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root) and not os.path.realpath(frame.f_code.co_filename).startswith(root):
            return None

        def local(frame, event, arg):
            if event == "line":
                st.stop()
            return local
        return local

    def work(th):
        st.me.th = th
        try:
            for i in progs[th]:
                st.stop()
                if lines:
                    sys.settrace(tracer)
                try:
                    r = sh.call(g.cases[i], False)
                finally:
                    sys.settrace(None)
                results[th].append(r)
        finally:
            st.finish(th)

    HOOK.fn = None if lines else st.stop
    threads = [threading.Thread(target=work, args=(th,), daemon=True) for th in range(len(progs))]
    try:
        for t in threads:
            t.start()
        # every thread comes to rest before its first call
        with st.cv:
            st.cv.wait_for(lambda: all(s == "idle" for s in st.state) or "done" in st.state, 2)
        for th in (sched if sched is not None else turns(st, len(progs), rng)):
            st.step(th)
        # whatever is left runs to its end, one thread after another
        end = time.monotonic() + 20
        while any(s != "done" for s in st.state) and time.monotonic() < end:
            for th in range(len(progs)):
                while st.step(th):
                    if time.monotonic() > end:
                        break
    finally:
        with st.cv:
            st.free = True
            st.cv.notify_all()
        for t in threads:
            t.join(5)
        HOOK.fn = None
    changed = g.watch() != before
    for th, prog in enumerate(progs):
        for k, i in enumerate(prog):
            r = results[th][k] if k < len(results[th]) else codec.failed(TimeoutError())
            if changed:
                r["mut"] = True
            g.saw(i, r, how)


def turns(st, n, rng):
    """Random turns: bursts and single steps."""
    for _ in range(4000):
        if all(s == "done" for s in st.state):
            return
        th = rng.randrange(n)
        for _ in range(rng.choice([1, 1, 1, 2, 3, 5, 10, 40, 150])):
            yield th


# --------------------------------------------------------------------------
# Groups

def template_group(sp, rng, st_in, st_out):
    kw = {"in_style": st_in, "out_style": st_out, "expand_tuples": True}
    make = spec_cases(rng, st_in, True)
    cases, index = [], {}
    for th in (1, 2):
        for t in range(1, 7):
            many = rng.random() < 0.3
            sql, rows = make(t, many)
            if rng.random() < 0.15:
                sql = sql.encode()
            index[th, t] = len(cases)
            cases.append(new_case(kw, sql, rows, many, lazy=rng.random() < 0.5))
    return Group(sp, kw, cases, rng), index


def random_group(sp, rng, st_in, st_out, bare=0.4, many=0.25):
    """Calls about the same few queries, with parameters of different shapes."""
    kw = gen.pick_config(rng, st_in, st_out, com=0.2, expand=rng.choice([True, True, None, False]))
    letters = rng.random() < 0.12
    if letters:
        kw["strip_comments"] = rng.choice([["REM"], ["rem", "--"], [("BEGIN", "END"), "REM"]])
    cases = []
    for _ in range(rng.choice([1, 2, 3])):
        lits = gen.CLEAN + (["\nREM x\n", "\nrem x\n", "REM", "\n  rem y", "\n-- c\n", "\n/* c\n*/"] * 6 if kw.get("strip_comments") else [])
        base = gen.make_case(rng, kw, literals=lits, ptup=0.6, many=False, nparams=rng.choice([0, 1, 2, 3, 4]), extras=rng.random() < 0.5)
        if letters:
            base.sql = rng.choice(["rem x\n", "REM x\n", "Rem x\n", "begin end\n"]) + base.sql
            cases.append(new_case(kw, base.sql.replace("rem x", "REM x") if "rem" in base.sql else base.sql.replace("REM x", "rem x"), base.rows, False))
        # Containers that stop at every access, or the caller's own lists and dictionaries.
        wrap = plain if rng.random() < bare else lambda row: gated(row, rng)
        rows = [wrap(r) for r in base.rows]
        cases.append(new_case(kw, base.sql, rows, False))
        row = base.rows[0]
        if rng.random() < 0.6:
            # the tuples as lists
            def untuple(v):
                return rng.choice([list] * 8 + [codec.GenSeq, collections.deque])(v) if isinstance(v, tuple) else v
            alike = {k: untuple(v) for k, v in row.items()} if isinstance(row, collections.abc.Mapping) else [untuple(v) for v in row]
            cases.append(new_case(kw, base.sql, [wrap(alike)], False))
            empty = {k: gen.tup(rng, 0) for k in row} if isinstance(row, collections.abc.Mapping) else [gen.tup(rng, 0) for _ in row]
            cases.append(new_case(kw, base.sql, [wrap(empty)], False))
        if rng.random() < 0.4:
            # nearly the same query
            for how in rng.sample([str.upper, str.lower, str.swapcase, str.casefold, lambda t: t + " ", lambda t: "\n" + t, lambda t: t.replace(" ", "  "), lambda t: " ".join(t.split()), lambda t: t.strip(),
                                   lambda t: t + "\n-- c", lambda t: t + t, lambda t: t[:-1], lambda t: t + "\0"], 2):
                cases.append(new_case(kw, how(base.sql), [wrap(gen.reshape(rng, row, False))], False))
        for _ in range(rng.choice([2, 3, 4])):
            other = wrap(gen.reshape(rng, row))
            r = rng.random()
            if r < many:
                cases.append(new_case(kw, base.sql, [other] + [wrap(gen.reshape(rng, row, False)) for _ in range(rng.choice([0, 1, 1, 2]))], True,
                                      lazy=rng.choice([True, True, "again", False])))
            elif r < many + 0.15 and all(ord(ch) < 256 for ch in base.sql) and not (st_in == "named_oracle" and any(ch in "ÿµ" for ch in base.sql)):
                cases.append(new_case(kw, base.sql.encode("latin1"), [other], False))
            else:
                cases.append(new_case(kw, base.sql, [other], False))
    return Group(sp, kw, cases, rng)


def _work(args):
    seed, part, plan, budget = args
    sp = import_repo()
    rng = random.Random(seed * 7919 + part)
    out, counts = [], {"history": 0, "recycled": 0, "nested": 0, "threads": 0, "lines": 0, "calls": 0, "groups": 0}
    # Everything a fresh instance returns is found out before this process makes its first call.
    tg, rg = [], []
    try:
        tg.extend(template_group(sp, rng, i, o) for i, o in plan["pairs"])
        rg.extend(random_group(sp, rng, i, o) for i, o in plan["random"])
        carry_out(sp, plan, budget, rng, tg, rg, counts)
    except codec.TooManyHangs:
        pass
    groups = [g for g, _ in tg] + rg
    for g in groups:
        counts["calls"] += g.n
        counts["groups"] += 1
        out.extend(g.entries())
    return out, counts


def carry_out(sp, plan, budget, rng, tg, rg, counts):
    for n, (mode, beh) in enumerate(plan["behaviours"]):
        g, index = tg[n % len(tg)]
        prog = [[index[th + 1, c["t"]] for c in p] for th, p in enumerate(beh["prog"])]
        how = {"mode": mode, **beh}
        if mode == "history":
            run_history(g, prog[0], how, rng)
        elif mode == "recycled":
            run_recycled(g, prog[0], [c["o"] for c in beh["prog"][0]], how, rng)
        elif mode == "nested":
            run_nested(g, prog[0], beh["sched"], how)
        else:
            run_threads(g, prog, [th - 1 for th in beh["sched"]], how)
        counts[mode] += 1
    for g in rg:
        n = len(g.cases)
        order = list(range(n))
        for i in range(n):
            # each call after each other one
            rng.shuffle(order)
            for j in order:
                run_history(g, [i, j], {"mode": "pairs", "calls": [i, j]}, rng)
                counts["history"] += 1
        for k in range(budget["history"]):
            prog = [rng.randrange(n) for _ in range(rng.choice([3, 6, 12]))]
            run_history(g, prog, {"mode": "random history", "calls": prog}, rng)
            counts["history"] += 1
            prog = [rng.randrange(n) for _ in range(rng.choice([3, 6, 12]))]
            run_recycled(g, prog, [rng.random() < 0.8 for _ in prog], {"mode": "random history, same containers", "calls": prog}, rng)
            counts["recycled"] += 1
        for k in range(budget["nested"]):
            prog = [rng.randrange(n) for _ in range(rng.choice([2, 3, 5]))]
            run_nested(g, prog, [], {"mode": "random nesting", "calls": prog}, rng=rng)
            counts["nested"] += 1
        for k in range(budget["lines"]):
            progs = [[rng.randrange(n) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 2, 3]))]
            run_threads(g, progs, None, {"mode": "threads, switched at lines", "calls": progs}, lines=True, rng=rng)
            counts["lines"] += 1
    if rg and budget.get("long"):
        # one long history: many different queries, then the first ones again
        g = rg[0]
        run_long(sp, g, rng, counts)


def run_long(sp, g, rng, counts):
    sh = g.shared()
    order = list(range(len(g.cases)))
    first = [sh.call(g.cases[i], True) for i in order]
    for k in range(700):
        codec.guarded(sh.inst.format, f"-- {k} x", {} if kind(g.kw["in_style"]) == "named" else [])
    again = [sh.call(g.cases[i], True) for i in order]
    for i, (a, b) in enumerate(zip(first, again)):
        g.saw(i, a, {"mode": "long history", "calls": "first"})
        g.saw(i, b, {"mode": "long history", "calls": "after 700 others"})
    counts["history"] += 1


def run(scratch, seed, tier, stats):
    """All of C16's executions: (TLC runs, entries)."""
    rng = random.Random(seed)
    deep = tier == "thorough"
    behs, runs = [], []
    for mode, calls, sim in [("threads", 1, None), ("history", 4 if deep else 3, None), ("recycled", 3 if deep else 2, None), ("nested", 4 if deep else 3, None)] + (
            [("threads", 2, 4000), ("threads", 3, 2000)] if deep else [("threads", 2, 300)]):
        got = []
        r = schedules(scratch, mode, calls, lambda b: got.append((mode, b)), simulate=sim, seed=seed)
        behs.extend(got)
        runs.append({"mode": mode, "calls": calls, "how": "simulate" if sim else "exhaustive", "states": r.states, "transitions": r.transitions, "behaviours": len(got)})
    stats["wrong designs"] = refuted(scratch, "C16")
    rng.shuffle(behs)
    jobs = 8
    pairs = list(PAIRS)
    rng.shuffle(pairs)
    more = list(PAIRS) * (5 if deep else 2)
    rng.shuffle(more)
    work = []
    for p in range(jobs):
        work.append((seed, p, {"pairs": pairs[p::jobs], "random": more[p::jobs], "behaviours": behs[p::jobs]},
                     {"history": 10 if deep else 4, "nested": 10 if deep else 4, "lines": 12 if deep else 3, "long": True}))
    entries = []
    with multiprocessing.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
        for out, counts in pool.imap_unordered(_work, work, 1):
            entries.extend(out)
            for k, v in counts.items():
                stats[k] = stats.get(k, 0) + v
    return runs, entries
