"""C21: replay the Config specification and probe the instances it makes."""
import json
import multiprocessing
import random

import codec
import gen
import record
from common import TlcRun, import_repo
from gen import INTRO
from judge import entry

CFG = """SPECIFICATION Spec
CONSTANTS ExtTab = ext
 Full = {full}
 EmitOn = TRUE
INVARIANTS EscOk ExpandOk ComOk QuoteOk EmitBehaviour
PROPERTY Stable
CHECK_DEADLOCK FALSE
"""

DEFAULT = [("/*", "*/"), "--"]
ESC = {"none": None, "true": True, "false": False, "empty": "", "str1": "\\", "str2": "!!", "int": 5, "bytes": b"\\", "truthy": 1}
EXP = {"none": None, "true": True, "false": False, "one": 1, "zero": 0}
QUO = {"none": None, "true": True, "false": False}
BAD_ITEM = [[5], [None], [b"--"], ["--", 5], [("/*", "*/"), None], [object()], [1.5], [{"/*": 1, "*/": 2}], [frozenset(["a", "b"])], [b"ab"], [iter(["a", "b"])],
            ["--", {"a", "b"}]]
BAD_WHOLE = [5, 1, object(), 1.5]


def com_value(rng, c):
    return {"none": None, "true": True, "false": False, "empty": rng.choice([[], ()]), "lines": ["--", "#"],
            "mixed": [rng.choice([("/*", "*/"), ["/*", "*/"]]), "--"], "tuples": (("<!--", "-->"),), "baditem": rng.choice(BAD_ITEM), "badwhole": rng.choice(BAD_WHOLE)}[c]


def real_args(arg, rng):
    bad = {"?unknown": rng.choice(["nope", "Named", "named ", "postgres", "psycopg2"]), "?empty": "", "?none": None, "?int": rng.choice([5, b"named", object()])}
    kw = {"in_style": bad.get(arg["in"], arg["in"]), "out_style": bad.get(arg["out"], arg["out"])}
    if arg["esc"] != "-":
        kw["escape_char"] = ESC[arg["esc"]]
    if arg["expand"] != "-":
        kw["expand_tuples"] = EXP[arg["expand"]]
    if arg["com"] != "-":
        kw["strip_comments"] = com_value(rng, arg["com"])
    if arg["quotes"] != "-":
        kw["allow_out_quotes"] = QUO[arg["quotes"]]
    if rng.random() < 0.1:
        kw = {k: codec.Str(v) if type(v) is str else v for k, v in kw.items()}
    return kw


def comments(x):
    return [c if isinstance(c, str) else tuple(c) for c in x] if x else []


def as_it_is(x):
    """What a list of comment styles holds, by identity."""
    if isinstance(x, (list, tuple)):
        return [(id(y), list(map(id, y)) if isinstance(y, (list, tuple)) else None) for y in x]
    return None


def reported(inst):
    return {"in_style": inst.in_style, "out_style": inst.out_style, "escape_char": inst.escape_char,
            "expand_tuples": inst.expand_tuples, "strip_comments": comments(inst.strip_comments)}


def expected(beh, kw):
    c = beh["conf"]
    return {"in_style": kw["in_style"], "out_style": kw["out_style"], "escape_char": codec.text(c["esc"]) or None,
            "expand_tuples": c["expand"],
            "strip_comments": [] if c["com"] in ("none", "empty") else comments(DEFAULT if c["com"] == "default" else kw["strip_comments"])}


def same(a, b):
    return a == b and all(isinstance(a[k], bool) == isinstance(b[k], bool) for k in a)


def replay(sp, beh, rng, probe):
    """One behaviour; (faults, entries)."""
    kw = real_args(beh["arg"], rng)
    shown = {k: repr(v) for k, v in kw.items()}
    before = as_it_is(kw.get("strip_comments"))
    inst, err = record.build(sp, kw)
    if as_it_is(kw.get("strip_comments")) != before:
        return [f"SQLParams({shown}) changed its argument to {kw['strip_comments']!r}"], []
    if not beh["ok"]:
        if err is None:
            return [f"SQLParams({shown}) was accepted, but should be refused with {beh['errs']}"], []
        if type(err).__name__ not in beh["errs"]:
            return [f"SQLParams({shown}) raised {type(err).__name__}, not one of {beh['errs']}"], []
        return [], []
    if err is not None:
        return [f"SQLParams({shown}) raised {type(err).__name__}: {err}"], []
    bad, entries = [], []
    want = expected(beh, kw)

    def look(when):
        got, e = codec.guarded(reported, inst)
        if e is not None or not same(got, want):
            bad.append(f"SQLParams({shown}) {when} reports {got if e is None else e!r}, not {want}")
    look("when made")
    for name in want:
        _, e = codec.guarded(setattr, inst, name, rng.choice([None, "qmark", True]))
        if e is None:
            bad.append(f"SQLParams({shown}): {name} can be assigned")
    look("after attempts to assign its settings")
    if probe:
        for case in probe_cases(kw, rng):
            call, res, _ = record.perform(sp, case, rng, inst=inst)
            entries.append(entry(call, res, note=record.describe(case)))
        look("after being used")
    if not isinstance(kw.get("strip_comments"), (list, tuple)) and isinstance(inst.strip_comments, list):
        # What this instance reports is the caller's to change: it does not concern another instance.
        mine, was = inst.strip_comments, list(inst.strip_comments)
        mine.append("#")
        try:
            other, err = record.build(sp, kw)
            got, e = (None, err) if err is not None else codec.guarded(reported, other)
            if e is not None or not same(got, want):
                bad.append(f"SQLParams({shown}), made after another's strip_comments was appended to, reports {got if e is None else e!r}, not {want}")
        finally:
            mine[:] = was
    return bad, entries


def probe_cases(kw, rng):
    """Queries that bring out every setting."""
    i = kw["in_style"]
    e = kw.get("escape_char")
    e = INTRO[i] if e is True else e or rng.choice([INTRO[i], "\\", "!!"])
    lits = [" ", "x ", e + INTRO[i], e, " -- c\n", "\n-- gone\n", "\n/* gone\n*/", "\n# gone\n", "\n<!-- gone -->", "% "]
    yield gen.make_case(rng, kw, literals=lits, ptup=0.5, tight=0.2, nparams=rng.choice([0, 1, 2, 3]))
    if rng.random() < 0.3:
        yield gen.make_case(rng, kw, literals=gen.CLEAN, ptup=0.5)


def _work(args):
    seed, lo, lines, every = args
    sp = import_repo()
    bad, entries = [], []
    for n, line in enumerate(lines):
        rng = random.Random(seed * 1000003 + lo + n)
        beh = json.loads(line)
        b, e = replay(sp, beh, rng, (lo + n) % every == 0)
        if b and len(bad) < 50:
            bad.append((b, beh))
        entries.extend(e)
    return len(lines), bad, entries


def run(scratch, seed, tier, stats):
    lines = []
    r = TlcRun("Config", CFG.format(full="TRUE" if tier == "thorough" else "FALSE"), scratch, sink=lines.append, raw=True, timeout=800).require()
    rng = random.Random(seed)
    rng.shuffle(lines)
    want = 12000 if tier == "thorough" else 3000
    every = max(1, len(lines) // want)
    step = -(-len(lines) // 32)
    bad, entries = [], []
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for n, b, e in pool.imap_unordered(_work, [(seed, lo, lines[lo:lo + step], every) for lo in range(0, len(lines), step)]):
            stats["replayed"] = stats.get("replayed", 0) + n
            bad.extend(b)
            entries.extend(e)
    return r, bad, entries
