"""Per property: random executions of the real code, recorded for the judge."""
import array
import collections.abc
import itertools
import os
import re
import unicodedata

import codec
import gen
import record
from autodict import NEW_INTS
from gen import INTRO, STYLES, Case, kind
from judge import entry

NAMED = [s for s in STYLES if kind(s) == "named"]
NUMERIC = [s for s in STYLES if kind(s) == "numeric"]
ORDINAL = [s for s in STYLES if kind(s) == "ordinal"]
PCT = [s for s in STYLES if INTRO[s] == "%"]
NONPCT = [s for s in STYLES if INTRO[s] != "%"]
PAIRS = [(i, o) for i in STYLES for o in STYLES]


def pairs(rng, n, ins=STYLES, outs=STYLES):
    """n style pairs covering all of ins x outs evenly."""
    ps = [(i, o) for i in ins for o in outs]
    out = []
    while len(out) < n:
        rng.shuffle(ps)
        out.extend(ps)
    return out[:n]


def plain_entry(sp, case, rng):
    return record.record(sp, case, rng)


def twin_entry(sp, case, rng):
    """The call with twins that supply the same parameters with other values."""
    call, res, reg = record.perform(sp, case, rng)
    peers = []
    for _ in range(2):
        other = Case(case.kw, case.sql, [twin_row(rng, r, gen.expands(case.kw)) for r in case.rows], case.many)
        _, r2, _ = record.perform(sp, other, rng, reg=reg)
        peers.append({"rel": "twin", "res": r2})
    return entry(call, res, peers, note={**record.describe(case), "twin params": [record.short(r, 400) for r in other.rows]})


def bytes_entry(sp, case, rng):
    """The call with the same query as bytes."""
    if not isinstance(case.sql, str) or any(ord(ch) > 255 for ch in case.sql):
        return plain_entry(sp, case, rng)
    call, res, reg = record.perform(sp, case, rng)
    b = Case(case.kw, case.sql.encode("latin1"), case.rows, case.many)
    _, rb, _ = record.perform(sp, b, rng, reg=reg)
    if res["ok"] and any(x > 255 for x in res["sql"]):
        return None
    return entry(call, res, [{"rel": "bytes", "res": rb}], note={**record.describe(case), "bytes sql": repr(b.sql)})


def mapping_entry(sp, case, rng):
    """The call with the mappings that address its parameters alike."""
    if kind(case.kw["in_style"]) == "named" or not all(isinstance(r, collections.abc.Sequence) and not isinstance(r, (str, bytes)) for r in case.rows) or not case.rows:
        return plain_entry(sp, case, rng)
    call, res, reg = record.perform(sp, case, rng)
    peers = []
    base = 1 if kind(case.kw["in_style"]) == "numeric" else 0
    for ct in ("imap", "smap", "bmap", "xmap"):
        rows = []
        for row in case.rows:
            items = []
            for j, v in enumerate(row):
                t = ct if ct != "xmap" else rng.choice(["imap", "smap", "bmap"])
                a = j + base
                items.append((a if t == "imap" else str(a) if t == "smap" else str(a).encode(), v))
            if rng.random() < 0.6:
                for x in rng.sample(["q", "-1", -1, "1a", "", "²", 2.5, None, "1.0", b"x", -7, "x1"] + ([0, "0", b"0"] if base else []), 3):
                    items.append((x, gen.scalar(rng)))
            if rng.random() < 0.7:
                rng.shuffle(items)
            rows.append(codec.map_of(items, rng) if rng.random() < 0.9 or not case.many else row)
        _, r2, _ = record.perform(sp, Case(case.kw, case.sql, rows, case.many), rng, reg=reg)
        if res["ok"]:
            peers.append({"rel": "same", "res": r2})
    return entry(call, res, peers, note={**record.describe(case), "last mapping": [record.short(r, 300) for r in rows]})


def chain_entry(sp, case, rng, mid=None):
    """The direct conversion with the one through an intermediate style."""
    i, o = case.kw["in_style"], case.kw["out_style"]
    m = mid or rng.choice(STYLES)
    if not case.rows or not isinstance(case.sql, (str, bytes)):
        return None
    ex = rng.choice([(True, False), (False, True), (True, True), (None, None)])
    k1 = dict(case.kw, out_style=m, expand_tuples=ex[0], allow_out_quotes=True)
    if "%" in (INTRO[i], INTRO[o]):
        sql = case.sql if isinstance(case.sql, str) else case.sql.decode("latin1")
        if "%" in (sql if i not in PCT else re.sub(r"%\(\w+\)s" if i == "pyformat" else "%s", "", sql)):
            return None
    try:
        # nested tuples would be expanded again by the second hop
        rows = [codec.map_of([(a, flat(b)) for a, b in r.items()], rng) if isinstance(r, collections.abc.Mapping) else codec.seq_of([flat(b) for b in r], rng)
                for r in case.rows if is_row(r)]
    except TypeError:
        return None
    if len(rows) != len(case.rows):
        return None
    first = Case(k1, case.sql, rows, case.many)
    pre, r1, reg = record.perform(sp, first, rng)
    # the direct conversion, to hold the composition against
    k2 = {"in_style": m, "out_style": o, "expand_tuples": ex[1], "allow_out_quotes": True, "escape_char": INTRO[i] != "%" and INTRO[m] == "%"}
    kd = dict(k1, out_style=o, expand_tuples=gen.expands(k1) or gen.expands(k2))
    call, res, _ = record.perform(sp, Case(kd, case.sql, rows, case.many), rng, reg=reg)
    final = r1
    if r1["ok"]:
        mid_sql, mid_rows = first.got
        second = Case(k2, mid_sql, mid_rows if case.many else [mid_rows], case.many)
        _, final, _ = record.perform(sp, second, rng, reg=reg)
    return entry(call, res, [{"rel": "chain", "res": final}], pre=[pre], note={**record.describe(first), "then": {k: repr(v) for k, v in k2.items()}})


def again_entry(sp, case, rng):
    """The call on a fresh instance with the same call on one that made others."""
    call, res, reg = record.perform(sp, case, rng, warming=0.0)
    _, r2, _ = record.perform(sp, case, rng, reg=reg, warming=1.0)
    return entry(call, res, [{"rel": "same", "res": r2}], note=record.describe(case))


def is_row(r):
    return isinstance(r, (collections.abc.Mapping, collections.abc.Sequence)) and not isinstance(r, (str, bytes))


def conflated(kw, row):
    """Do two keys of the mapping address the same parameter?"""
    k = kind(kw["in_style"])
    if k == "named":
        if kw["in_style"] != "named_oracle":
            return False
        ks = [x for x in row if isinstance(x, str)]
        full = [len(x) > 1 and x[0] == '"' == x[-1] for x in ks]
        if any('"' in (x[:1], x[-1:]) and not f for x, f in zip(ks, full)):
            return True     # an error once it is reached
        return len({x[1:-1] if f else x.upper() for x, f in zip(ks, full)}) != len(ks)
    ns = []
    for x in row:
        try:
            ns.append(int(x))
        except (TypeError, ValueError):
            pass
    return len(set(ns)) != len(ns)


def other_container(rng, kw, row, keys=False):
    if isinstance(row, collections.abc.Mapping):
        items = list(row.items())
        # where two keys mean the same parameter their order counts
        fixed = conflated(kw, row)
        if not fixed:
            rng.shuffle(items)
        return rng.choice([m for m in (codec.KEY_MAPPINGS if keys else codec.MAPPINGS) if not fixed or m is not codec.halves])(items)
    if isinstance(row, collections.abc.Sequence) and not isinstance(row, (str, bytes)):
        return rng.choice(codec.KEY_SEQUENCES if keys else codec.SEQUENCES)(list(row))
    return row


def container_entry(sp, case, rng):
    """The call with the same parameters handed over in other containers."""
    call, res, reg = record.perform(sp, case, rng)
    peers = []
    for _ in range(4):
        keys = case.many and rng.random() < 0.15
        rows = [other_container(rng, case.kw, r, keys) for r in case.rows]
        other = Case(case.kw, case.sql, rows, case.many)
        it = rng.choice(codec.KEY_ITERABLES if keys else codec.ITERABLES)
        _, r2, _ = record.perform(sp, other, rng, reg=reg, rows_arg=lambda rs, _: it(list(rs)))
        peers.append({"rel": "same", "res": r2})
    return entry(call, res, peers, note={**record.describe(case), "last containers": [f"{type(r).__name__} {record.short(r)}" for r in rows]})


def numbers(rng):
    """Small numbers, and the containers that hold just those."""
    m = rng.choice([0, 1, 2, 3, 4, 6])
    a, d = rng.choice([0, 1, 3, 5]), rng.choice([1, 1, 2, 3])
    how = [list, tuple, bytearray, lambda l: memoryview(bytes(l)), lambda l: array.array("i", l), codec.GenSeq, lambda l: memoryview(array.array("h", l)), lambda l: collections.deque(l, len(l))]
    if rng.random() < 0.5:
        return list(range(a, a + d * m, d)), how + [lambda l: range(a, a + d * m, d)] * 3
    return [rng.randrange(200) for _ in range(m)], how


def number_entry(sp, rng, c):
    """Sequences of small numbers that are not lists."""
    i = c["in_style"]
    lists = [numbers(rng) for _ in range(rng.choice([1, 1, 2]))]
    m = min(len(l) for l, _ in lists)
    refs = [gen.ref_text(i, "")] * m if kind(i) == "ordinal" else [INTRO[i] + str(rng.randrange(1, m + 1)) for _ in range(m)]
    many = len(lists) > 1 or rng.random() < 0.3
    case = Case(c, rng.choice(["SELECT ", "x IN (", ""]) + rng.choice([" ", ", "]).join(refs), [l for l, _ in lists], many)
    call, res, reg = record.perform(sp, case, rng)
    peers = []
    for _ in range(4):
        rows = [rng.choice(how)(l) for l, how in lists]
        _, r2, _ = record.perform(sp, Case(c, case.sql, rows, many), rng, reg=reg)
        peers.append({"rel": "same", "res": r2})
    return entry(call, res, peers, note={**record.describe(case), "last containers": [f"{type(r).__name__} {record.short(r)}" for r in rows]})


def c23(sp, rng, n):
    for i, o in pairs(rng, n // 8, NUMERIC + ORDINAL):
        if DECIDING[0] == "C23":
            yield number_entry(sp, rng, gen.pick_config(rng, i, o, com=0.0, esc=0.0))
    for i, o in pairs(rng, n):
        c = gen.pick_config(rng, i, o, com=0.03, esc=0.1)
        case = gen.make_case(rng, c, literals=gen.CLEAN, nparams=rng.choice([0, 1, 2, 3, 4, 6]), nrefs=None, extras=rng.random() < 0.4)
        if rng.random() < 0.15:
            case = spoil(rng, case, later=False) or case
        yield emit(sp, case, rng)


PUMPS = [" ", "\t", "\n", "\r\n", "(", ")", '"', "'", "s", "a", "A", "_", "1", "0", "9", ",", ";", "\\", "!", "*", "/", "-", "#", "é", "²", "٣", "x y", " \n", "\0"]


def pumps(rng, i, o, e, com):
    """Pieces that recognition treats specially, to be repeated."""
    s = INTRO[i]
    al = PUMPS + [s, s * 2, INTRO[o], "%", "%s", "%(", "%(a", "%(a)", s + "a", s + "(", s + '"', s + '"a', s + '"a"', '"' + s, "a" + s, s + "1", s + "_", ")" + s, s + " ", "\n" + s]
    if e:
        al += [e, e + s, s + e, e * 2, e[0], e + "a"] * 2
    for m in com:
        a, b = (m, "") if isinstance(m, str) else m
        al += [a, "\n" + a, a + "\n", " " + a, "\n " + a, b, a + b, b + a, a[:1], b + "\n", "\n" + b, a + " ", a + "\r"] * 2
    return al


def c24(sp, rng, n):
    """Texts that repeat what is special, up to thousands of times."""
    weird = [["--"], ["#", "--"], [("/*", "*/")], [("/*", "*/"), "--"], [("/*", "\n")], [("a", "a")], [("((", "))"), "//"], ["-", "--"], [("<!--", "-->"), "--"], ["*"],
             [(" ", " ")], ["a"], [("--", "--")], [("aa", "ab")], [("\n", "\n")], [" "], ["\t"]]
    for i, o in pairs(rng, n):
        kw = {"in_style": i, "out_style": o}
        e = escape_or_none(rng, i, kw)
        com = []
        if rng.random() < 0.5:
            com = rng.choice(weird + [True] * 4)
            kw["strip_comments"] = com
            com = [("/*", "*/"), "--"] if com is True else com
        al = pumps(rng, i, o, e, com)
        pump = "".join(rng.choice(al) for _ in range(rng.choice([1, 1, 2, 2, 3]))) or "a"
        pre = "".join(rng.choice(al) for _ in range(rng.choice([0, 1, 2])))
        suf = "".join(rng.choice(al) for _ in range(rng.choice([0, 1, 1, 2])))
        if rng.random() < 0.3:
            # something begun and never finished
            opens = [INTRO[i], INTRO[i] + "(", INTRO[i] + '"', INTRO[i] + "a", e or "(", '"'] + [m if isinstance(m, str) else m[0] for m in com]
            pre = rng.choice(["", "\n", " "]) + rng.choice(opens)
            pump = rng.choice(["a", "1", "_", " ", "\t", "ab", "a1", " a", "a ", "\n", '"', ")", "\\", "é", "٣", ".", "a_", "__", "\r", "\r\n", "%", INTRO[i]])
            suf = rng.choice(["", "", ")", '"', "!", " ", "\n", ")s", "\0", ")" + INTRO[i]])
        size = 12000 if rng.random() < 0.05 else rng.choice([30, 60, 400, 3000])
        mid = pump * max(1, size // len(pump))
        if rng.random() < 0.2:
            q = rng.choice(al) or "b"
            mid += q * max(1, size // len(q))
        sql = pre + mid + suf
        kd = kind(i)
        row = dict.fromkeys(["a", "A", '"a"', "s"], 1) if kd == "named" else [1, (2, 3)] * (len(sql) // 2 + 1) if rng.random() < 0.8 else [1]
        if i == "named_oracle":
            row = {"a": 1, '"b"': 2}
        if kd == "named" and rng.random() < 0.5:
            # the long names, too
            for x in needed(i, sql)[:3]:
                row[x] = rng.choice([1, (1, 2)])
        many = rng.random() < 0.2
        if len(sql) <= 100 and rng.random() < 0.3:
            yield record.record(sp, Case(kw, sql, [row], many), rng, warming=0.0)
            continue
        inst, err = record.build(sp, kw)
        for limit in (5.0, 10.0):
            # once more, in case it was only the machine that was busy
            err = err or codec.guarded(inst.formatmany if many else inst.format, sql, [row] if many else row, limit=limit)[1]
            if not isinstance(err, codec.Hang) or limit > 5:
                break
            err = None
        if not isinstance(err, codec.Hang):
            yield {"counts": 1}
            continue
        # What did not end is judged as it is; the text is given to the judge in short.
        call = codec.a_call(kw, sql[:60], [], many, codec.Reg())
        yield entry(call, codec.failed(err), note={"SQLParams": {a: repr(b) for a, b in kw.items()}, "call": "formatmany" if many else "format",
                                                   "sql": f"{pre!r} + {mid[:80]!r} ... + {suf!r} ({len(sql)} characters)", "params": record.short(row)})


def escape_or_none(rng, i, kw):
    if rng.random() < 0.45:
        kw["escape_char"] = gen.escape_of(rng, i)
    e = kw.get("escape_char")
    return INTRO[i] if e is True else e or ""


# How a call is compared, by property.
EMIT = {"C23": container_entry, "C16": again_entry, "C04": twin_entry, "C15": bytes_entry, "C18": mapping_entry, "C20": chain_entry}
DECIDING = [None]
TRIPS = []


def alike(case):
    """Do the rows spell their keys alike, none matching what another matches?"""
    if case.kw["in_style"] != "named_oracle":
        return True
    spelled = set()
    for row in case.rows:
        if not isinstance(row, collections.abc.Mapping):
            return False
        ks = [str(k) for k in row]
        if len({k[1:-1] if k[:1] == '"' == k[-1:] else k.upper() for k in ks}) != len(ks):
            return False
        spelled.add(frozenset(ks))
    return len(spelled) == 1


def emit(sp, case, rng):
    if DECIDING[0] == "C10" and case.many and case.rows and alike(case):
        return with_single(sp, rng, case)
    return EMIT.get(DECIDING[0], plain_entry)(sp, case, rng)


def calls(prop, sp, rng, n, mix):
    """n calls aimed at prop, then mix calls aimed at each other property."""
    DECIDING[0] = prop
    if prop in DRIVERS:
        yield from steady(prop, sp, rng, n)
    for q in sorted(DRIVERS):
        if q not in (prop, "C24") and mix:
            yield from steady(q, sp, rng, mix)


def steady(q, sp, rng, n):
    """The driver's calls; should it trip over what the code returned, it goes on with what is left."""
    for left in range(6):
        made = 0
        try:
            for e in DRIVERS[q](sp, rng, n):
                made += 1
                if e is not None:
                    yield e
            return
        except codec.TooManyHangs:
            raise
        except Exception as e:
            if left == 5 or os.environ.get("VERIF_STRICT"):
                raise
            TRIPS.append(f"{q}: {type(e).__name__}: {e}")
            n = max(1, n - made)


def sweep(sp, rng, n, ins=STYLES, outs=STYLES, cfg=None, **kw):
    for i, o in pairs(rng, n, ins, outs):
        c = gen.pick_config(rng, i, o, **(cfg or {}))
        yield emit(sp, gen.make_case(rng, c, **kw), rng)


def c01(sp, rng, n):
    yield from sweep(sp, rng, n // 2)
    yield from sweep(sp, rng, n // 4, literals=gen.CLEAN, tight=0.0, cfg={"esc": 0.1}, ptup=0.4)
    yield from sweep(sp, rng, n // 8, literals=gen.CLEAN, nparams=0, cfg={"esc": 0.1})
    yield from sweep(sp, rng, n // 8, literals=gen.CLEAN, nparams=14, cfg={"esc": 0.1}, many=False)


def any_text(rng, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.6:
            out.append(chr(rng.randrange(0, 128)))
        elif r < 0.8:
            out.append(chr(rng.randrange(128, 0x250)))
        elif r < 0.9:
            out.append(rng.choice("\u2028\u2029\x85\u200b\ufeff\u00a0\u3000\u0660\u0966\u212a\u017f\u0130\ufb01\u1e9e"))
        else:
            while True:
                c = rng.randrange(0x250, 0x10FFFF)
                if not 0xD800 <= c <= 0xDFFF:
                    break
            out.append(chr(c))
    return "".join(out)


def c02(sp, rng, n):
    yield from sweep(sp, rng, n // 2, literals=gen.DIRTY)
    for i, o in pairs(rng, n // 4):
        lits = [any_text(rng, rng.randrange(1, 6)) for _ in range(6)] + [" ", INTRO[i], INTRO[o]]
        c = gen.pick_config(rng, i, o)
        yield emit(sp, gen.make_case(rng, c, literals=lits, nparams=rng.choice([0, 1, 2, 3]), nrefs=3), rng)
    yield from sweep(sp, rng, n // 4, cfg={"esc": 0.0, "com": 0.0}, literals=["{", "}", "{}", "{param}", "{0}", "\\", "\\1", "\\g<1>", "\\n",
                                                                              "$", "'", '"', "\0", "\r", "\n", "\t", "  ", "(", ")", ",", "NULL", ";", "%", "%%"])


def c03(sp, rng, n):
    for i, o in pairs(rng, n, NONPCT, PCT):
        c = gen.pick_config(rng, i, o, esc=0.5, com=0.05)
        if rng.random() < 0.25:
            c["escape_char"] = rng.choice(["%", "%%", True, "\\%", "%" + INTRO[i]])
        yield emit(sp, gen.make_case(rng, c, literals=gen.PCT + [x for x in (directive(rng) for _ in range(14)) if INTRO[i] not in x], tight=0.7), rng)


def directive(rng):
    """Percent signs as formats, dates, addresses and patterns have them."""
    how = rng.random()
    if how < 0.6:
        return "%" + rng.choice(["", "", "", "1$", "2$", "10$", "(a)", "(a b)", "(1)", "{a}", "[a]"]) + rng.choice(["", "", "-", "+", " ", "0", "#", "'", "-0"]) + rng.choice(["", "", "5", "10", "*", "1"]) \
            + rng.choice(["", "", ".2", ".*", ".", ".s"]) + rng.choice(["", "", "l", "ll", "h", "L"]) + rng.choice("sdifgeGxXocruapnjtDT%$&|")
    if how < 0.75:
        return "%" + rng.choice("YmdHMSyjWwBbAaZzfIpcxXUVGD") + rng.choice(["", "-", ":", "/"])
    if how < 0.9:
        return "%" + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(2)) + rng.choice(["", "%", "x"])
    return rng.choice(["%_", "_%", "%'", "'%", "\\%", "%\\", "%%%%", "%\n", "\n%", "%\0", "%\u0661", "%é", "%;", "%,", "% %", "%=", "%%'", "5%2", "% (a)s", "%( a)s", "%(a)", "%()s", "%(a)d", "%%(", "%$", "$%", "%:", ":%", "%?", "?%", "%@"])


TWIN_SC = [None, 0, "", "?", ":a", ":1", "$1", "%s", "%(a)s", "%", "'; DROP TABLE t; --", "NULL", "(1, 2)", [], [1], {}, b"x", 3.5, True,
           False, "a__0_sqlp", "é", 10 ** 30, float("nan")]


def twin_value(rng, v, exp):
    if isinstance(v, tuple):
        if exp:
            els = [rng.choice(TWIN_SC) if rng.random() < 0.9 else (1, 2) for _ in v]
            return codec.Tup(els) if rng.random() < 0.2 else tuple(els)
    if not exp and rng.random() < 0.3:
        return gen.tup(rng)
    return rng.choice(TWIN_SC)


def twin_row(rng, row, exp):
    if isinstance(row, collections.abc.Mapping):
        return codec.map_of([(k, twin_value(rng, v, exp)) for k, v in row.items()], rng)
    if not isinstance(row, collections.abc.Sequence) or isinstance(row, (str, bytes)):
        return row
    return codec.seq_of([twin_value(rng, v, exp) for v in row], rng)


def c04(sp, rng, n):
    if n > 500:
        for case in parade(rng):
            yield emit(sp, case, rng)
    for i, o in pairs(rng, n):
        yield emit(sp, gen.make_case(rng, gen.pick_config(rng, i, o)), rng)


def c05(sp, rng, n):
    if n > 500:
        for case in parade(rng):
            yield emit(sp, case, rng)
    yield from sweep(sp, rng, n // 2, literals=gen.CLEAN, cfg={"esc": 0.1, "com": 0.05})
    yield from sweep(sp, rng, n // 2, literals=gen.CLEAN, cfg={"esc": 0.0, "com": 0.0}, nparams=3, nrefs=7, ptup=0.5)


def c06(sp, rng, n):
    if n > 500:
        for case in big_one(rng):
            yield emit(sp, case, rng)
    yield from sweep(sp, rng, n // 2, literals=gen.CLEAN, ptup=0.75, cfg={"esc": 0.1, "com": 0.05})
    yield from sweep(sp, rng, n // 4, literals=gen.CLEAN, ptup=0.6, cfg={"expand": True, "esc": 0.0, "com": 0.0}, nparams=4, nrefs=6)
    yield from sweep(sp, rng, n // 8, literals=gen.CLEAN, ptup=0.9, cfg={"expand": None, "esc": 0.0, "com": 0.0}, nparams=2)
    yield from sweep(sp, rng, n // 8, literals=gen.CLEAN, ptup=0.9, cfg={"expand": False, "esc": 0.0, "com": 0.0}, nparams=2)


def c07(sp, rng, n):
    if n > 500:
        for case in big_one(rng, outs=("numeric",)):
            yield emit(sp, case, rng)
    yield from sweep(sp, rng, n // 2, outs=NUMERIC, literals=gen.CLEAN, tight=0.0, cfg={"esc": 0.1, "com": 0.05})
    yield from sweep(sp, rng, n // 4, outs=NUMERIC, literals=gen.CLEAN, tight=0.0, nparams=12, nrefs=16, cfg={"esc": 0.0, "com": 0.0})
    yield from sweep(sp, rng, n // 4, outs=NUMERIC, literals=gen.CLEAN, tight=0.0, nparams=4, nrefs=9, ptup=0.6, cfg={"esc": 0.0, "com": 0.0})
    for i, o in pairs(rng, n // 8, outs=NUMERIC):
        yield emit(sp, run_together(rng, i, gen.pick_config(rng, i, o, esc=0.0, com=0.0, expand=True)), rng)


def c08(sp, rng, n):
    if n > 500:
        for case in big_one(rng):
            yield emit(sp, case, rng)
    yield from sweep(sp, rng, n // 3, outs=ORDINAL, literals=gen.CLEAN, ptup=0.4)
    yield from sweep(sp, rng, n // 3, ins=ORDINAL, ptup=0.4, cfg={"esc": 0.4})
    yield from sweep(sp, rng, n // 3, ins=ORDINAL, literals=gen.CLEAN, tight=0.0, nparams=rng.choice([3, 12]), ptup=0.4)


def run_together(rng, i, c):
    """Two parameters whose numbers, one with that of an element, read alike."""
    p, e = rng.randrange(1, 13), rng.choice([0, 0, 1, 2, 3, 9, 10, 11, 12, 20])
    size = e + rng.choice([1, 1, 2])
    if kind(i) == "named":
        x = rng.choice(["a", "a_", "_", "x1", "A"])
        others = [x + y for y in (f"{e}", f"_{e}", f"__{e}", f"__{e}_sqlp", f"_{e}_sqlp", f"{e}_sqlp", f"__{e}_sqlp_", f"__0{e}_sqlp")]
        names = [x] + rng.sample(others, rng.choice([1, 2, 3]))
        rng.shuffle(names)
        row = {y: gen.tup(rng, size) if y == x else rng.choice([gen.scalar, lambda r: gen.tup(r, 2)])(rng) for y in names}
        refs = [gen.ref_text(i, y) for y in names]
    elif kind(i) == "numeric":
        qs = [int(f"{p}{e}"), int(f"{p}0{e}"), p + e, p * 10 + e]
        row = {y: rng.choice([gen.scalar, lambda r: gen.tup(r, rng.choice([2, size]))])(rng) for y in qs[:rng.choice([1, 2, 4])]}
        row[p] = gen.tup(rng, size)
        nums = list(row)
        rng.shuffle(nums)
        refs = [INTRO[i] + str(y) for y in nums]
    else:
        m = min(130, int(f"{p}{e}") + 1)
        row = [gen.scalar(rng) for _ in range(m)]
        row[min(p, m - 1)] = gen.tup(rng, size)
        refs = [gen.ref_text(i, "")] * m
    return Case(c, " ".join(refs + refs[:1] if kind(i) != "ordinal" else refs), [row], False)


def c09(sp, rng, n):
    if n > 500:
        for case in big_one(rng, outs=("named",)):
            yield emit(sp, case, rng)
    for i, o in pairs(rng, n // 8, outs=NAMED):
        yield emit(sp, run_together(rng, i, gen.pick_config(rng, i, o, esc=0.0, com=0.0, expand=True)), rng)
    yield from sweep(sp, rng, n // 2, outs=NAMED, literals=gen.CLEAN, tight=0.0, names="gen", ptup=0.5, cfg={"expand": True, "esc": 0.05, "com": 0.02})
    yield from sweep(sp, rng, n // 4, outs=NAMED, literals=gen.CLEAN, tight=0.0, nparams=4, nrefs=8, ptup=0.4, cfg={"esc": 0.05, "com": 0.02})
    yield from sweep(sp, rng, n // 4, outs=NAMED, literals=gen.CLEAN, tight=0.0, nparams=12, nrefs=14, cfg={"esc": 0.0, "com": 0.0})


def with_single(sp, rng, case, watch=False):
    """A batch call with the conversion of each row alone as its peers."""
    inst, err = record.build(sp, case.kw)
    call, res, reg = record.perform(sp, case, rng, watch=watch)
    peers = []
    for r in case.rows:
        one = Case(case.kw, case.sql, [r], False)
        _, r1, _ = record.perform(sp, one, rng, reg=reg, watch=False)
        peers.append({"rel": "row", "res": r1})
    return entry(call, res, peers, note=record.describe(case))


def c10(sp, rng, n):
    if n > 500:
        for case in big_many(rng):
            yield emit(sp, case, rng)
    for i, o in pairs(rng, n):
        c = gen.pick_config(rng, i, o, com=0.05, esc=0.15)
        yield emit(sp, gen.make_case(rng, c, literals=gen.CLEAN if i == "named_oracle" else rng.choice([gen.CLEAN, gen.CLEAN, gen.DIRTY]), many=True,
                                     nrows=gen.sizes(rng, [1, 2, 2, 3, 4, 7, 12], 2600), nparams=rng.choice([0, 1, 2, 3, 3, 5])), rng)


# As long as the tuple, but no tuple.
LOOKALIKES = [lambda t: range(len(t)), lambda t: "ab" * (len(t) // 2) + "c" * (len(t) % 2), lambda t: bytes(len(t)), lambda t: bytearray(len(t)), codec.GenSeq, codec.ListRow,
              collections.deque, collections.UserList, list, lambda t: dict(enumerate(t)), lambda t: dict(enumerate(t)).values(), lambda t: dict.fromkeys(range(len(t))),
              lambda t: codec.GenMap(enumerate(t)), iter, lambda t: set(range(len(t))), lambda t: frozenset(range(len(t))), lambda t: array.array("i", range(len(t))),
              lambda t: memoryview(bytes(len(t))), lambda t: (x for x in t), lambda t: codec.Hostile(), reversed, lambda t: [list(t)], lambda t: [tuple(t)], lambda t: None,
              lambda t: collections.UserString("x" * len(t)), lambda t: collections.OrderedDict(enumerate(t)), lambda t: dict.fromkeys(range(len(t))).keys(), codec.sqlite_row]
BAD_ROWS = [None, 5, "ab", b"xy", {1, 2}, frozenset([1]), object(), iter([1]), (x for x in [1]), 1.5, True, 0, codec.Duck({"a": 1, "b": 2, 1: 1, 0: 1}), "", b"", {"a": 1}.items(),
            {"a": 1, "b": 2}.keys(), set(), NotImplemented, dict, list]


def plain_style(rng, k):
    return rng.choice({"named": NAMED, "numeric": NUMERIC, "ordinal": ORDINAL}[k])


def simple(rng, i, vals):
    """A query that references each value in turn, and the row that supplies them."""
    if kind(i) == "named":
        names = ["a", "b", "c_1", "d", "e2", "f", "g", "h", "k", "m"][:len(vals)]
        return [gen.ref_text(i, x) for x in names], dict(zip(names, vals))
    refs = [gen.ref_text(i, "")] * len(vals) if kind(i) == "ordinal" else [INTRO[i] + str(k + 1) for k in range(len(vals))]
    return refs, list(vals)


KINDS = ("named", "numeric", "ordinal")


def parade(rng):
    """Every kind of value, between every two kinds of style: alone, in a tuple, in a later row."""
    makers = codec.ODD + [lambda r, v=v: v for v in codec.SINGLE]
    for a in KINDS:
        for b in KINDS:
            rng.shuffle(makers)
            for lo in range(0, len(makers), 8):
                vals = [m(rng) for m in makers[lo:lo + 8]]
                i, o = plain_style(rng, a), plain_style(rng, b)
                c = {"in_style": i, "out_style": o}
                if o == "named_oracle":
                    c["allow_out_quotes"] = rng.random() < 0.5
                refs, row = simple(rng, i, vals)
                rows = [row]
                if rng.random() < 0.5:
                    other = [m(rng) for m in makers[lo:lo + 8]]
                    rng.shuffle(other)
                    rows.append(simple(rng, i, other)[1])
                yield Case(c, " ".join(refs), rows, len(rows) > 1)
                c = {**c, "expand_tuples": True}
                vals.append(rng.choice(vals))
                if rng.random() < 0.3:
                    vals = [vals[0]] * rng.choice([2, 3, 4])
                refs, row = simple(rng, i, [tuple(vals), vals[0]])
                rows = [row]
                if rng.random() < 0.5:
                    rows.append(simple(rng, i, [tuple(rng.sample(vals, len(vals))), vals[0]])[1])
                yield Case(c, " ".join(refs), rows, len(rows) > 1)


def misfits(rng, looks=True):
    """Rows of the wrong type, with and without parameters, and values that only look like tuples."""
    for a in KINDS:
        for b in KINDS:
            for bad in BAD_ROWS:
                i, o = plain_style(rng, a), plain_style(rng, b)
                c = gen.pick_config(rng, i, o, esc=0.0, com=0.0)
                refs, row = simple(rng, i, [gen.scalar(rng) for _ in range(rng.choice([0, 0, 1, 2]))])
                rows = [dict(row) if kind(i) == "named" else list(row) for _ in range(rng.choice([1, 2, 3]))]
                if bad is None and kind(i) == "named" and rng.random() < 0.5:
                    bad = rng.choice([[], (), [1], (1, 2)])
                many = rng.random() < 0.7
                if not many:
                    rows = rows[:1]
                rows[rng.randrange(1, len(rows)) if len(rows) > 1 and rng.random() < 0.8 else 0] = bad
                yield Case(c, " ".join(refs) if refs else rng.choice(["", "SELECT 1", "x"]), rows, many)
            for look in LOOKALIKES if looks else []:
                i, o = plain_style(rng, a), plain_style(rng, b)
                c = gen.pick_config(rng, i, o, esc=0.0, com=0.0, expand=True)
                size = rng.choice([1, 1, 2, 2, 3]) if look is codec.sqlite_row else rng.choice([0, 1, 1, 2, 2, 3])
                where = rng.randrange(2)
                rows = []
                refs = []
                for k in range(rng.choice([2, 3])):
                    v = [gen.scalar(rng), gen.scalar(rng)]
                    v[where] = gen.tup(rng, size, nest=False)
                    refs, row = simple(rng, i, v)
                    rows.append(row)
                j = rng.randrange(1, len(rows))
                v = list(rows[j].values()) if kind(i) == "named" else rows[j]
                v[where] = look(v[where])
                rows[j] = simple(rng, i, v)[1]
                yield Case(c, " ".join(refs), rows, True)


def shifted(rng):
    """Mappings by number that begin or end one off."""
    for a in ("numeric", "ordinal"):
        for b in KINDS:
            for off in (-2, -1, 0, 1, 2):
                for key in (int, str, lambda x: str(x).encode()):
                    i, o = plain_style(rng, a), plain_style(rng, b)
                    c = gen.pick_config(rng, i, o, esc=0.0, com=0.0)
                    m = rng.choice([1, 2, 3])
                    rows = []
                    for n in range(rng.choice([1, 2, 3])):
                        d = off if n == 0 or rng.random() < 0.5 else 0
                        rows.append(rng.choice([dict, dict, codec.GenMap, codec.KeyedMap])([(key(k + d + (a == "numeric")), gen.scalar(rng)) for k in range(m + rng.choice([0, 0, 1]))]))
                    refs, _ = simple(rng, i, [0] * m)
                    if a == "numeric":
                        rng.shuffle(refs)
                    many = len(rows) > 1 or rng.random() < 0.3
                    yield Case(c, rng.choice([" ", ", "]).join(refs), rows, many)


def mentioned(rng, low, high, most):
    """Sizes just above those the code has come to mention."""
    near = [n + rng.choice([1, 2, n // 2]) for n in NEW_INTS if low < n and n + n // 2 <= high]
    return rng.sample(near, min(most, len(near)))


def big_many(rng):
    """More rows than any code is likely to take at a time, between every two kinds of style."""
    for a in KINDS:
        for b in KINDS:
            for m in [rng.choice([260, 515, 1030, 2060, 4200])] + mentioned(rng, 2060, 20000, 2):
                i, o = plain_style(rng, a), plain_style(rng, b)
                rows = [simple(rng, i, [k])[1] for k in range(10 ** 6, 10 ** 6 + m)]
                yield Case({"in_style": i, "out_style": o}, simple(rng, i, [0])[0][0], rows, True)


def big_one(rng, ins=KINDS, outs=KINDS):
    """A long tuple, and many parameters, between every two kinds of style."""
    for a in ins:
        for b in outs:
            i, o = plain_style(rng, a), plain_style(rng, b)
            c = {"in_style": i, "out_style": o, "expand_tuples": True}
            for m in [rng.choice([130, 260, 515, 1030] if b == "named" else [130, 260, 515, 1030, 2100, 4200])] + mentioned(rng, 1030, 6000 if b == "named" else 15000, 1):
                refs, row = simple(rng, i, [gen.scalar(rng), tuple(range(10 ** 6, 10 ** 6 + m)), gen.scalar(rng)])
                yield Case(c, " ".join(refs if a == "ordinal" or m > 2000 else refs + refs), [row], False)
            for m in [rng.choice([70, 130, 260])] + mentioned(rng, 260, 1000 if a == "named" else 2200, 1):
                names = [f"a{k}" for k in range(m)] if a == "named" else range(1, m + 1)
                rng.shuffle(order := list(range(m)))
                vals = [10 ** 6 + k for k in range(m)]
                refs = [gen.ref_text(i, names[k]) if a == "named" else gen.ref_text(i, "") if a == "ordinal" else INTRO[i] + str(names[k]) for k in order]
                if a == "numeric":
                    refs += rng.sample(refs, min(20, m))
                yield Case(c, " ".join(refs), [dict(zip(names, vals)) if a == "named" else vals], False)


def spoil(rng, case, later=True):
    """Make one row of a case unfit; returns the case or None."""
    c = case.kw
    if not case.rows:
        return None
    j = rng.randrange(1 if later and len(case.rows) > 1 else 0, len(case.rows))
    row = case.rows[j]
    is_map = isinstance(row, collections.abc.Mapping)
    k = rng.random()
    if k < 0.15:
        bad = rng.choice([None, 5, "ab", b"xy", {1, 2}, object(), iter([1]), codec.Duck(dict(row.items()) if is_map else dict(enumerate(row)))])
        if kind(c["in_style"]) == "named" and rng.random() < 0.5:
            bad = rng.choice([[1, 2, 3], (1, 2, 3), [], ()])
        case.rows[j] = bad
        return case
    keys = list(row.keys()) if is_map else list(range(len(row)))
    if not keys:
        return None
    # Bias towards tuples: their shape is what a row must repeat.
    vals = dict(row.items()) if is_map else dict(enumerate(row))
    tups = [x for x in keys if isinstance(vals[x], tuple)]
    x = rng.choice(tups) if tups and k < 0.8 else rng.choice(keys)
    if x in tups and k < 0.8 and j > 0 and gen.expands(c):
        t = vals[x]
        how = rng.randrange(12)
        n = len(t)
        if how >= 8:
            v = rng.choice(LOOKALIKES)(t)
        elif how == 0:
            v = tuple(t) + (rng.choice([None, 1]),)
        elif how == 1:
            v = tuple(t)[:-1] if t else (1,)
        elif how == 2:
            v = () if t else (None,)
        elif how == 3:
            v = list(t)
        elif how == 4:
            v = rng.choice([None, 0, "", "ab"[:len(t)]])
        elif how == 5:
            v = "x" * len(t)
        elif how == 6:
            v = {i: e for i, e in enumerate(range(len(t)))}
        else:
            v = tuple(t) * 2 if t else ((),)
        vals[x] = v
        if rng.random() < 0.2 and j + 1 < len(case.rows):
            pass
    elif is_map:
        del vals[x]
    else:
        cut = rng.randrange(len(row))
        vals = {a: b for a, b in vals.items() if a < cut}
    case.rows[j] = codec.map_of(list(vals.items()), rng) if is_map else codec.seq_of([vals[a] for a in sorted(vals)], rng)
    return case


def c11(sp, rng, n):
    if n > 500:
        for case in misfits(rng):
            yield emit(sp, case, rng)
    for i, o in pairs(rng, n):
        c = gen.pick_config(rng, i, o, com=0.02, esc=0.05, expand=rng.choice([True, True, None, False]))
        case = gen.make_case(rng, c, literals=gen.CLEAN, tight=0.0, many=True, nrows=rng.choice([2, 2, 3, 3, 4, 6]), ptup=0.7,
                             nparams=rng.choice([1, 2, 3, 4]), nrefs=rng.choice([1, 2, 4, 5]), extras=rng.random() < 0.3)
        r = rng.random()
        if r < 0.03:
            case.rows = []
        elif r < 0.9:
            case = spoil(rng, case) or case
        yield emit(sp, case, rng)


def c12(sp, rng, n):
    for i, o in pairs(rng, n):
        c = gen.pick_config(rng, i, o, esc=1.0, com=0.03)
        if rng.random() < 0.12:
            c["escape_char"] = rng.choice([None, False, ""])
        e = c.get("escape_char")
        s = INTRO[i]
        e = s if e is True else e or s
        lits = [s, e, e + s, e + s + s, e + e + s, e[0], e + "x", s * 3, s * 4, " ", "x", "%", "%%", e + "a", gen.ref_text(i, "a")[1:] or "q", e + gen.ref_text(i, "a"),
                "\\", s + " ", " " + e]
        yield emit(sp, gen.make_case(rng, c, literals=lits, tight=0.8, nparams=rng.choice([0, 1, 2, 3])), rng)


def near(rng, st):
    """Text around the introducer, over a small alphabet."""
    s = INTRO[st]
    al = [s, s, s, "a", "A", "_", "1", "0", "9", '"', "(", ")", "s", "%", " ", "é", "٣", "²", "ñ", "-", ".", ":", "$", "@", "?", "b1", "(a)s", '"a"', "\n", "Z",
          "\u0391", "ª", "\u0301", "\u200d", "'"]
    if rng.random() < 0.06:
        # Long runs: of digits, of letters, of introducers, of quotes.
        run = rng.choice(["0", "0", "a", "_", s, '"', "(", "1", "s", "é", "٠"]) * rng.choice([17, 18, 19, 20, 31, 32, 33, 64, 65, 130, 260])
        return rng.choice(["", " ", "a", s]) + rng.choice(["", s, s, s + '"', s + "("]) + run + rng.choice(["", "1", "a", "_", "2x", '"', ")s", "(a)s", " ", s])
    return "".join(rng.choice(al) for _ in range(rng.randrange(2, 16)))


def needed(st, sql):
    """Names / numbers that text could refer to: every maximal run after an introducer."""
    out = []
    s = INTRO[st]
    for k, ch in enumerate(sql):
        if ch == s:
            j = k + 1
            while j < len(sql) and sql[j] in '"(':
                j += 1
            e = j
            while e < len(sql) and (sql[e].isalnum() or sql[e] == "_"):
                e += 1
            if e > j:
                out.append(sql[j:e])
    return out


def long_runs(rng):
    """Names and numbers of every length that might be thought enough."""
    for i in STYLES:
        for m in (17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 128, 255, 256, 257, 300):
            c = gen.pick_config(rng, i, None, esc=0.1, com=0.0)
            if kind(i) == "named":
                name = rng.choice(["a" * m, "_" * m, "a" + "0" * (m - 1), "Z" + "é" * (m - 1), ("ab_1" * m)[:m]])
                q = i == "named_oracle" and rng.random() < 0.5
                row = {f'"{name}"' if q else name: gen.scalar(rng)}
                ref = gen.ref_text(i, name, quoted=q)
            elif kind(i) == "numeric":
                d = rng.choice("0٠0")
                row = [gen.scalar(rng), gen.scalar(rng)]
                ref = INTRO[i] + d * (m - 1) + rng.choice("12")
            else:
                row = [gen.scalar(rng)] * m
                ref = " ".join([gen.ref_text(i, "")] * m)
            yield Case(c, rng.choice(["", " ", "x = "]) + ref + rng.choice(["", " ", " y"]), [row], False)


def c13(sp, rng, n):
    if n > 500:
        for case in long_runs(rng):
            yield emit(sp, case, rng)
    for i, o in pairs(rng, n):
        c = gen.pick_config(rng, i, o, esc=0.1, com=0.0)
        sql = near(rng, i)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            # a real placeholder somewhere in it
            r = gen.ref_text(i, rng.choice(["a", "b1", "_Z"]), quoted=i == "named_oracle" and rng.random() < 0.5) if kind(i) != "numeric" else INTRO[i] + rng.choice("19")
            at = rng.randrange(len(sql) + 1)
            sql = sql[:at] + rng.choice(["", " "]) + r + rng.choice(["", " "]) + sql[at:]
        k = kind(i)
        drop = rng.random() < 0.15
        if k == "named":
            names = needed(i, sql)
            if drop and names:
                names.remove(rng.choice(names))
            d = {}
            for x in names:
                if i == "named_oracle":
                    d[rng.choice([x.upper(), f'"{x}"', f'"{x.upper()}"'])] = gen.scalar(rng)
                    if rng.random() < 0.6:
                        d[f'"{x}"'] = gen.scalar(rng)
                        d[f'"{x.upper()}"'] = gen.scalar(rng)
                else:
                    d[x] = gen.scalar(rng)
            row = codec.map_of(list(d.items()), rng)
        elif k == "numeric":
            d = {}
            for x in needed(i, sql):
                ds = ""
                for ch in x:
                    if not ch.isdecimal():
                        break
                    ds += ch
                if ds and int(ds) < 10 ** 7:
                    d[int(ds)] = gen.scalar(rng)
            if drop and d:
                del d[rng.choice(list(d))]
            row = codec.map_of(list(d.items()), rng)
        else:
            row = codec.seq_of([gen.scalar(rng) for _ in range(rng.randrange(0, 4) if drop else sql.count(INTRO[i]))], rng)
        yield emit(sp, Case(c, sql, [row], False), rng)


LINES = ["x = {r}", "-- {m}", "--{m}", "  -- c", "\t--", "# {m}", "#", "// z {m}", "a -- b", "/* {m} */", "/* a\n{m} */", "/**/", "  /* c */", "/* x */ y {r}",
         "/* x */ -- y", "/* unterminated {r0}", "*/", "a /* b */", "--", "", " ", "/* -- */", "-- /* {m}", "-- */", "/*\n--\n*/", "{r}", "/* a */ /* b */ {r}",
         "'--'", "- -", "/ *", "{{- c {m} -}}", "<!-- h {m} -->", "*", "*{m}", ". z", "--\r", "\x0b-- {r0}", "\u00a0-- {r0}", "\u2003--{r0}", "--\u2028{m}", "--\x0c{m}",
         "--\x85{m}", "/*\u2028*/{r}", "--\r{m}",
         "/* a/b {m} */", "/*/ {m} */", "/*/\n{r0}", "/** {m} **/", "/***/ {r}", "/* * / {m} */ x", "/* // {m}\n -- */{r}", "/* /* {m} */ {r0} */", "/*-- {m}\n*/", "-- /*\n{r0}",
         "--*/ {m}", "---- {m}", "- {r0}", "##{m}", "/{r0}", "/ {r0}", "*/{r0}", "<!-- {m} --", "--> {r0}", "<!--->{r0}", "<!---->{r0}", "{{-{m}-}}{r0}", "{{--}}{r0}",
         "%% {m} %%", "%% {m}\nx\n%%{r}", "%%%%", "%%%", "++{m}", "++ {m}\n\n{m} ++ {r}", "-- {m}\n-- {r0}", "--\n{m}--", "## {m}\n{m} ##", " " * 41 + "-- {m}", " " * 150 + "/* {m} */",
         "\t" * 70 + "# {m}", "-- " + "{m} " * 60, "/*" + " {m}\n" * 40 + "*/{r}", " \t" * 300 + "--", " " * 90 + "{r}", "/*" + "*" * 80 + "/{r}", "-" * 90, "/*" + "\n" * 70 + "*/ {r}"]
# Markers that go with their own kind of line.
EQUAL = [([("%%", "%%")], ["%% {m} %%", "%% {m}\nx\n%%{r}", "%%%%", "%%%", "%{r}", "{r} %%", "%%\n%%\n{r}"]),
         ([("++", "++"), "--"], ["++{m}", "++ {m}\n\n{m} ++ {r}", "+{r}", "++++{r}", "++ x\n-- {m}\n++", "--++\n{r}"]),
         ([("--", "--")], ["-- {m}\n-- {r}", "--\n{m}--", "-- {m} --", "---{r}", "----{r}"]),
         ([("##", "##"), "#"], ["## {m}\n{m} ##", "# {m}", "###", "#### {r}", "##\n# {m}\n##"]),
         (["REM", ("Begin", "End")], ["REM {m}", "rem {r}", "Rem {r}", "REMARK {m}", "Begin {m}\nend {m} End{r}", "begin {r}", "  REM {m}"]),
         ([("\"\"\"", "\"\"\"")], ["\"\"\"{m}\n\"\"\"{r}", "\"\" {r}", "\"\"\"\"\"\"{r}"])]
COMS = [True, True, ["--"], ["#"], ["#", "--"], [("/*", "*/")], [("/*", "*/"), "#"], ["--", ("/*", "*/")], (("/*", "*/"), "--"), [["{-", "-}"]], ["//", "--"],
        [("<!--", "-->"), "--"], ["*"], ["."], [("/*", "*/"), "--", "#"], None, False, [], ["-"], ["--", "-"], [(" /*", "*/")], [("--", "\n")], ["--", "--"],
        [("/*", "*/"), ("/*", "*/")]]


def c14(sp, rng, n):
    for i, o in pairs(rng, n):
        c = gen.pick_config(rng, i, o, esc=0.1, com=0.0)
        c["strip_comments"], lines = rng.choice(COMS), LINES
        if rng.random() < 0.08:
            c["strip_comments"], own = rng.choice(EQUAL)
            lines = own * 4 + LINES
        off = not c["strip_comments"]
        k = kind(i)
        sql = ""
        names = ["a", "b", "cc"]
        for _ in range(rng.randrange(1, 8)):
            line = rng.choice(lines)
            ref = gen.ref_text(i, rng.choice(names)) if k != "numeric" else INTRO[i] + str(rng.randrange(1, 4))
            miss = gen.ref_text(i, "missing") if k != "numeric" else INTRO[i] + "77"
            if k == "ordinal" and rng.random() < 0.7:
                miss = "m"
            line = line.format(r=ref, r0=ref, m=miss)
            if rng.random() < 0.2:
                line = rng.choice([" ", "\t", "  \t"]) + line
            sql += line + rng.choice(["\n", "\n", "\n", "\r\n", "", " \n", "\n\n", "\r"])
        if k == "named":
            row = {x: gen.scalar(rng) for x in names}
            if off or rng.random() < 0.25:
                row["missing"] = 1
        elif k == "numeric":
            row = {j: gen.scalar(rng) for j in (1, 2, 3)}
            if off or rng.random() < 0.25:
                row[77] = 1
        else:
            row = [gen.scalar(rng) for _ in range(12)]
        rows = [row]
        many = rng.random() < 0.2
        yield emit(sp, Case(c, sql, rows, many), rng)


def c15(sp, rng, n):
    for i, o in pairs(rng, n):
        c = gen.pick_config(rng, i, o)
        c = {k: v for k, v in c.items() if k != "escape_char" or v != "é" or rng.random() < 0.5}
        hi = [chr(x) for x in range(160, 256) if not (i == "named_oracle" and chr(x) in "ÿµ")]
        lits = [rng.choice(hi) for _ in range(6)] + [chr(rng.randrange(0, 160)) for _ in range(6)] + [" ", "x", "\x80", "\xa0", "\x85", "\xad", "\n", INTRO[i], "\r\n", "\r", "\r\n\x85", "\xff", "\xfe\xff",
                                                                                                     "\xef\xbb\xbf", "\xc3\xa9", "\x00", "\x1a", "\\x41", "\\u0041", "b'x'", "\xc2\xa0", "\xdf", "\xb5"]
        case = gen.make_case(rng, c, literals=lits, nparams=rng.choice([0, 1, 2, 3]), names="plain")
        if any(ord(ch) > 255 for ch in case.sql):
            continue
        yield emit(sp, case, rng)


def misnamed(rng, c):
    """A parameter that is not there, while one is that could be taken for it."""
    i = c["in_style"]
    if kind(i) == "named":
        x = rng.choice(["a", "Name", "user_id", "a1", "_x", "x_", "a\uff41", "x\ufb01", "e\u0301", "x\u00e9", "K\u212a", "a\u00aa", "s\u00df", "x\u0130", "a\u00b5", "a\u03bc", "x\u0661", "x1", "a__0", "aa"])
        alike = [x.upper(), x.lower(), x.swapcase(), x.casefold(), x.capitalize(), x + "_", "_" + x, x[:-1], x.strip("_"), x * 2, x + "0", f"{x}__0", f" {x}", f"{x} ", f"{x}\n", f":{x}", f"@{x}", f"${x}",
                 f"%({x})s", f"'{x}'", x.replace("_", ""), x.replace("_", "-"), x.encode(), (x,), x[::-1]] + [unicodedata.normalize(f, x) for f in ("NFC", "NFD", "NFKC", "NFKD")]
        if i == "named_oracle":
            alike = [y for y in alike if isinstance(y, str)]
        else:
            alike.append(f'"{x}"')
        keys = [y for y in set(alike) if y != x and y != ""]
        ref = gen.ref_text(i, x)
        keys = rng.sample(keys, rng.choice([1, 2, 4, len(keys)]))
        make = lambda: codec.map_of([(y, gen.scalar(rng)) for y in keys], rng)
    else:
        n = rng.choice([1, 2, 3, 5, 12])
        away = [n + 2 ** b for b in (8, 15, 16, 31, 32, 63, 64)] + [n + 10 ** b for b in (1, 2, 3, 5, 9, 18)] + [n * 10, int(f"{n}{n}"), int(f"1{n}"), int(f"{n}1"), 0]
        far = rng.choice(away)
        keys = [m for m in range(1, n + 1) if m != far]
        ref = INTRO[i] + rng.choice(["", "", "0"]) + str(far)
        if rng.random() < 0.6:
            make = lambda: codec.seq_of([gen.scalar(rng) for _ in range(n)], rng) if far > n or far == 0 else codec.map_of([(m, gen.scalar(rng)) for m in keys], rng)
        else:
            more = [m for m in (-far, far - 2 ** 32, -1, -n) if m != far]
            make = lambda: codec.map_of([(rng.choice([m, str(m)]), gen.scalar(rng)) for m in keys + rng.sample(more, 1)], rng)
    many = rng.random() < 0.3
    return Case(c, rng.choice(["", " ", "x = "]) + ref + rng.choice(["", " ", " "]), [make() for _ in range(rng.choice([1, 2]) if many else 1)], many)


def c17(sp, rng, n):
    if n > 500:
        for case in itertools.chain(misfits(rng, looks=False), shifted(rng)):
            yield emit(sp, case, rng)
    for i, o in pairs(rng, n):
        c = gen.pick_config(rng, i, o, com=0.02, esc=0.1)
        k = kind(i)
        r = rng.random()
        if r < 0.06:
            # no usable query or rows at all
            reg = codec.Reg()
            inst, err = record.build(sp, c)
            if err is not None:
                continue
            many = rng.random() < 0.5
            sql = rng.choice(codec.BAD_SQL) if not many or rng.random() < 0.5 else rng.choice(["x", b"x"])
            rows = [{"a": 1}] if k == "named" else [[1]]
            if many and rng.random() < 0.7:
                arg, rows = rng.choice(codec.BAD_MANY), None
            else:
                if isinstance(sql, (str, bytes)):
                    sql = 5
                arg = rows if many else rows[0]
            res, _ = codec.run_call(inst, sql, arg, many, reg)
            yield entry(codec.a_call(c, sql, rows, many, reg), res, note={"SQLParams": repr(c), "sql": repr(sql), "params": repr(arg)})
            continue
        case = gen.make_case(rng, c, literals=gen.CLEAN, tight=0.0, nparams=rng.choice([1, 2, 3, 4, 12]), extras=rng.random() < 0.3,
                             many=rng.random() < 0.3, ptup=0.2)
        if r < 0.62:
            case = spoil(rng, case, later=rng.random() < 0.5) or case
        elif k != "ordinal" and r < 0.75:
            case = misnamed(rng, c)
        elif k == "numeric" and r < 0.9:
            # numbers around the ends of the list
            size = rng.randrange(0, 4)
            nums = [rng.choice([0, 0, 1, size, size + 1, size + 2, "00", "01", 10, 999999]) for _ in range(rng.randrange(1, 3))]
            case.sql = " ".join(INTRO[i] + str(x) for x in nums)
            vals = [gen.scalar(rng) for _ in range(size)]
            case.rows = [codec.seq_of(vals, rng) if rng.random() < 0.6 else codec.map_of([(rng.choice([a, str(a)]), b) for a, b in enumerate(vals, rng.choice([0, 1, 1]))], rng)]
            case.many = False
        elif k == "ordinal" and r < 0.9:
            size = rng.randrange(0, 4)
            m = max(0, size + rng.choice([-1, 0, 1, 1, 2]))
            case.sql = " ".join([gen.ref_text(i, "")] * m)
            vals = [gen.scalar(rng) for _ in range(size)]
            case.rows = [codec.seq_of(vals, rng) if rng.random() < 0.6 else codec.map_of([(rng.choice([a, str(a)]), b) for a, b in enumerate(vals, rng.choice([0, 0, 1]))], rng)]
            case.many = False
        yield emit(sp, case, rng)


def c18(sp, rng, n):
    for i, o in pairs(rng, n, NUMERIC + ORDINAL):
        c = gen.pick_config(rng, i, o, com=0.02, esc=0.1)
        case = gen.make_case(rng, c, literals=rng.choice([gen.CLEAN, gen.CLEAN, gen.DIRTY]), container="seq", ptup=0.3,
                             nparams=rng.choice([0, 1, 2, 3, 5, 12]), many=rng.random() < 0.3)
        yield emit(sp, case, rng)
    # Mappings on their own, complete or not.
    for i, o in pairs(rng, n // 2, NUMERIC + ORDINAL):
        c = gen.pick_config(rng, i, o, com=0.02, esc=0.1)
        case = gen.make_case(rng, c, literals=gen.CLEAN, container=rng.choice(["imap", "smap", "bmap", "xmap"]), ptup=0.3)
        if rng.random() < 0.3:
            case = spoil(rng, case, later=False) or case
        yield plain_entry(sp, case, rng)


def c19(sp, rng, n):
    half = n // 2
    plain = ["a", "ab", "A_b", "x1", "Id", "straße", "é".join("ab"), "a__0_sqlp"]
    odd = ["a\u0130", "k\u0131", "s\u017f", "K\u212a", "a\u00b5", "a\u03bc", "w\u03c2", "w\u03c3", "x\u1e9e", "n\u0149", "j\u01f0", "d\u01c5", "f\ufb01", "a\u0390", "a\u1fb3", "a\u10d0",
           "a\u13a0", "a\uab70", "a\u0345", "a\u2160", "a\u2170", "a\u24d0", "c\u0441", "z\u00ff", "b\u0180", "a\u00e0", "q\u00c0", "y\u0587", "o\U00010428", "i\u0307"]
    # A key is written into the output as it stands, so each spelling of a name has to be a name.
    odd = [x for x in odd if all(re.fullmatch(r"\w+", y) for y in (x, x.upper(), x.lower(), x.swapcase()))]
    for i, o in pairs(rng, half, ["named_oracle"]):
        c = gen.pick_config(rng, i, o, com=0.0, esc=0.05, quotes=0.8, expand=rng.choice([None, True, False]))
        names = rng.sample(rng.choice([plain, plain, odd]), rng.choice([1, 1, 2, 3]))
        keys = []
        for x in names:
            for k in (x, x.upper(), x.lower(), f'"{x}"', f'"{x.upper()}"', f'"{x.lower()}"', x.swapcase(), f'"{x.swapcase()}"'):
                if rng.random() < 0.3 and k not in keys:
                    keys.append(k)
        if not keys:
            keys = [names[0]]
        if rng.random() < 0.25:
            # Keys that are nearly one of the names.
            x = rng.choice(names)
            for k in rng.sample([f" {x}", f"{x} ", f"{x.upper()}\n", f"\t{x}", f'" {x}"', f'"{x} "', f'"{x.upper()} "', f' "{x}"', f'"{x}" ', f"'{x}'", f"`{x}`", f"[{x}]", f":{x}", f':"{x}"', f'""{x}""',
                                 f'"{x}', f'{x}"', f'"{x}"x', x + "\0", f"{x}.", f"({x})", "\ufeff" + x, f'"""{x}"""', '"', '""', "", " ", f"{x}{x}", unicodedata.normalize("NFD", x), f"{x[:-1]}", None, 5, 0, x.encode(), x.upper().encode(), (x,), frozenset([x]), 1.5, True], 3):
                if k not in keys:
                    keys.append(k)
            if rng.random() < 0.5:
                for k in (x, x.upper(), x.lower()):
                    if k in keys and len(keys) > 1:
                        keys.remove(k)
        rng.shuffle(keys)
        refs = []
        for _ in range(rng.randrange(1, 6)):
            x = rng.choice(names)
            sp_ = rng.choice([x, x.upper(), x.lower(), x.swapcase()])
            refs.append(f':"{sp_}"' if rng.random() < 0.45 else f":{sp_}")
        sql = rng.choice([" ", " , "]).join(refs)
        many = rng.random() < 0.35
        shape = {k: rng.choice([None, None, None, 0, 1, 2]) for k in keys}
        rows = [codec.map_of([(k, gen.scalar(rng) if shape[k] is None else gen.tup(rng, shape[k])) for k in keys], rng)
                for _ in range(rng.choice([2, 3]) if many else 1)]
        yield emit(sp, Case(c, sql, rows, many), rng)
    yield from sweep(sp, rng, n // 4, ins=["named_oracle"], literals=gen.CLEAN, tight=0.0, cfg={"quotes": 0.8, "esc": 0.05})
    yield from sweep(sp, rng, n // 4, outs=["named_oracle"], literals=gen.CLEAN, tight=0.0, cfg={"quotes": 0.8, "esc": 0.05}, ptup=0.4)


def c20(sp, rng, n):
    triples = [(i, m, o) for i in STYLES for m in STYLES for o in STYLES]
    todo = []
    while len(todo) < n:
        rng.shuffle(triples)
        todo.extend(triples)
    for i, m, o in todo[:n]:
        ex = rng.choice([(True, False), (False, True), (True, True), (None, None)])
        k1 = {"in_style": i, "out_style": m, "expand_tuples": ex[0], "allow_out_quotes": True}
        if rng.random() < 0.2:
            k1["escape_char"] = rng.choice([True, "\\"])
        if rng.random() < 0.1:
            k1["strip_comments"] = True
        lits = [x for x in gen.CLEAN if not any(s in x for s in (INTRO[i], INTRO[m], INTRO[o]))] + ([] if INTRO[i] == "%" or INTRO[o] == "%" else ["% ", "%x ", " 50% "])
        case = gen.make_case(rng, k1, literals=lits, tight=0.1, esc_bits=False, many=rng.random() < 0.35, nrows=3, extras=False,
                             ptup=0.3, nparams=rng.choice([1, 2, 3, 4, 11]))
        case.kw = dict(k1, out_style=o)
        yield chain_entry(sp, case, rng, m) if DECIDING[0] == "C20" else emit(sp, case, rng)


def flat(v):
    if isinstance(v, tuple):
        return tuple(x if not isinstance(x, tuple) else "t" for x in v)
    return v


DRIVERS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
           "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C23": c23, "C24": c24}
