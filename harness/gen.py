"""Random calls of the real API, biased towards what each property is about."""
import collections
import collections.abc
import re

import codec
from autodict import NEW_INTS, NEW_STRS

STYLES = ("named", "named_dollar", "named_oracle", "named_sqlserver", "pyformat", "numeric", "numeric_dollar", "format", "qmark")
INTRO = {"named": ":", "named_dollar": "$", "named_oracle": ":", "named_sqlserver": "@", "pyformat": "%",
         "numeric": ":", "numeric_dollar": "$", "format": "%", "qmark": "?"}


def kind(st):
    return "numeric" if st.startswith("numeric") else "ordinal" if st in ("format", "qmark") else "named"


NAMES = ["a", "b", "id", "name", "user_id", "x1", "_", "_x", "A", "Name", "a_b", "aa", "ab", "a1", "s", "n", "class", "self",
         "sub", "race", "hour", "minute", "é1".replace("é", "e"), "z9", "param", "escape", "quote", "out_percent", "i", "B", "ID"]
UNI_NAMES = ["aé", "naïve", "x²", "tß", "cµ", "o_ñ", "kа", "v٣"]
ODD_NAMES = ["None", "True", "None_", "NULL", "null", "if", "x" * 40, "a" * 130, "long_" * 8, "__class__", "__init__", "a__b", "_a_", "__", "___", "p0", "p1", "p10", "p_1",
             "arg", "format", "sql", "key", "value", "values", "keys", "items", "get", "count", "index", "limit", "offset", "select", "from", "where",
             "UserId", "userID", "camelCase", "X", "Y1", "Z_", "e1", "E10", "L", "o0", "I1l", "_sqlp", "sqlp", "a_sqlp", "a0", "a00", "a01", "x__"]
GEN_NAMES = ["a__0_sqlp", "a__1_sqlp", "_1", "_0", "_1_0", "_0_1", "_0_0", "_2", "__0_sqlp", "a__0_sqlp_", "a__0_sqlp__0_sqlp",
             "A__0_sqlp", "b__0_sqlp", "a__10_sqlp", "_10", "_1_1"]

CLEAN = [" ", "SELECT * FROM t WHERE x = ", " AND y IN ", ", ", " (", ") ", "INSERT INTO t VALUES (", ")", "\n", "\t", " x'", "' ", ";",
         " -- c\n", "/* c */", " || ", " = ", "+", "-", " é ü ", "\\", "{} ", "{0} {param}", "\\1 ", "\\g<0>", "&", "#", "[1]", "\r\n",
         " \x00", "\x7f", " NULL ", "''", "\"q\" ", "`b`", " ~ ^ | ", " <> ", "ñ"]
CLEAN += ["\r", "\x85", "\u2028", "\ufeff", "\u00a0", "\x1c", "\x0b", "\x0c", "\u200b", "\U0001f600", " e\u0301 ", " SELECT", " select ", " NULL", " null ", " None ", ".", "!", "<", ">",
          "()", "( )", "(NULL)", "[", "]", "{", "}", "\\\\", "\\n", "''''", "'it''s'", " IN ()", " VALUES ", " 0", " 1", " 10 ", " 00", " _ ", " A ", "  ", "\t\t", "\n\n", " \n", "\n ", "--\n", "--",
          "/*", "*/", "#x\n", " AS x", " E'\\n'", " x'00'", " N'x'", " Ü", " ß", " ı", " İ", " K", " ١", " Ⅷ", " ª", "\ud800", " \udcff ", "\udfff\ud800", "\ufffd", "\ufffe", "\U0010ffff", "\u202e", "\u0301", "\u1160"]
# Digits that are not ASCII.
DIGITS = [{ord("0") + d: z + d for d in range(10)} for z in (0x660, 0x6F0, 0x966, 0xFF10, 0x1D7CE)]
DIRTY = CLEAN + ["%", "%%", "%s", "%d", "%(a)s", "%(", ":", "::", ":a", ":1", "$", "$$", "$1", "$a", "@", "@@", "@a", "?", "??", "12:30:45",
                 "'a:b'", "100%", "LIKE '%x%'", "::int", ":=", "a", "s", "1", "0", "\"", "% s", "%s%s", "50%%", "$tag$", "@@rowcount", "?|", "?&",
                 "e@x.com", "\\:", "\\%", "\\?", "%-5s", "(a)s", "²", ":é", ":²", "٣", ":٣", "a:1", "a$b", "%%s", "%%(a)s", ":\"a\"", ":\"", ":A"]
PCT = ["%", "%%", "%%%", "%s", "%(a)s", "%(x)s", "%d", "% ", "100%", "'%x%'", " ", "%(", "%)", "a", "s", "d", "(a)s", "%%s", "%%(a)s", "x ", "\n"]


NEW_WORDS = sorted({w for x in NEW_STRS for w in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", x)})
# Text the code has come to mention, alone and with something about it.
NEW_TEXT = sorted({y for x in NEW_STRS for y in (x, x + "a", "a" + x, " " + x + " ", x * 2, x.upper())})


def sizes(rng, usual, cap):
    """One of the usual sizes, now and then one the code has come to mention."""
    near = [k for n in NEW_INTS for k in (n - 1, n, n + 1, n * 2, n * 2 + 1, n * 2 + n // 2) if 0 <= k <= cap]
    if near and rng.random() < 0.3:
        k = rng.choice(near)
        if k <= 60 or rng.random() < 60 / k:
            return k
    return rng.choice(usual)


def twin_name(rng, x):
    """A name that is nearly x."""
    return rng.choice([x.swapcase(), x.upper(), x.lower(), x.capitalize(), x + "_", "_" + x, x + "__0_sqlp", x + "__1_sqlp", x + "_0", x + "1", x + x,
                       x[:-1] or x, x + "s", "__" + x, x + "__", x.replace("_", "__"), x.replace("_", ""), x + str(rng.randrange(13)), x + "_" + str(rng.randrange(13)), x + "__" + str(rng.randrange(13)) + "_sqlp"])


def ident(x):
    return bool(x) and (x[0] == "_" or (x[0].isascii() and x[0].isalpha())) and all(c == "_" or c.isalnum() for c in x)


class Names:
    """Names for the parameters of a query."""

    def __init__(self, rng, n, pool="mix"):
        src = {"plain": NAMES, "gen": NAMES[:4] + GEN_NAMES * 2, "mix": NAMES + NAMES + UNI_NAMES + GEN_NAMES + ODD_NAMES}[pool]
        if NEW_WORDS and rng.random() < 0.5:
            src = src + NEW_WORDS * max(1, len(src) // (2 * len(NEW_WORDS)))
        twins = rng.choice([0.0, 0.0, 0.3, 0.6])
        out = []
        while len(out) < n:
            x = rng.choice(src)
            if out and rng.random() < twins:
                x = twin_name(rng, rng.choice(out))
                if pool == "plain" and not x.isascii() or not ident(x):
                    continue
            elif NEW_WORDS and rng.random() < 0.1:
                x = rng.choice([x + rng.choice(NEW_WORDS), rng.choice(NEW_WORDS) + x, rng.choice(NEW_WORDS).upper(), rng.choice(NEW_WORDS).lower()])
            if x in out:
                x = x + rng.choice("abcxyz0123456789_")
                if x in out:
                    continue
            out.append(x)
        self.names = out


SINGLES = [None, True, False, 0, 1, 1.0, "", "a", (), b"", -1, 10 ** 20, "%s", ":a", "?", "NULL", "'", float("nan"), NotImplemented, Ellipsis, int, tuple]


def scalar(rng):
    if NEW_STRS and rng.random() < 0.2:
        return "".join([rng.choice(NEW_STRS)])
    if rng.random() < 0.3:
        v = rng.choice(SINGLES)
        return "" if isinstance(v, tuple) else v
    return codec.fresh_scalar(rng)


def tup(rng, n=None, nest=True):
    if n is None:
        n = sizes(rng, [0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 11, 12], 2100)
    if n and rng.random() < 0.06:
        return (scalar(rng),) * n
    els = []
    for _ in range(n):
        r = rng.random()
        if nest and r < 0.08:
            els.append(tuple(codec.fresh_scalar(rng) for _ in range(rng.randrange(3))))
        elif r < 0.2 and els:
            els.append(rng.choice(els))
        else:
            els.append(scalar(rng))
    k = rng.random()
    if k < 0.12:
        return codec.Tup(els)
    if k < 0.2 and n in codec.NT:
        return codec.NT[n](*els)
    return tuple(els)


def ref_text(st, name, rng=None, quoted=False):
    if st == "pyformat":
        return f"%({name})s"
    if st == "format":
        return "%s"
    if st == "qmark":
        return "?"
    if quoted:
        return f':"{name}"'
    return INTRO[st] + name


def blanks(st_in, st_out):
    """Introducers that must not occur in clean text."""
    return INTRO[st_in] + INTRO[st_out]


ACCIDENT = ["a", "A", "s", "x", "int", "tag", "rowcount", "aa", "as", "sa", "b", "e", "ab"]


class Case:
    """A call before it is made: constructor arguments, query, rows."""

    def __init__(self, kw, sql, rows, many, slots=None):
        self.kw, self.sql, self.rows, self.many = kw, sql, rows, many
        self.slots = slots or []


def escape_of(rng, st):
    """An escape setting: the style's own, or one of many texts."""
    s = INTRO[st]
    if rng.random() < 0.3:
        return True
    if NEW_STRS and rng.random() < 0.2:
        return rng.choice(NEW_STRS)
    return rng.choice(["\\", "!!", "::", "^^^", "e", s, s * 2, s * 3, s * 4, "%", "%%", "?", "??", "$", "$$", "\\\\", ".*", "[", "(", "é", "a", "1", "_", " ", "\t", "\n", "\"", "'",
                       "\\" + s, s + "\\", "ab", "aa", "aaa", "{}", "{0}", "{char}", "|", "(?:", ")", "+", "*", "^", "$", "#", "\\b", "\\d", "[a-z]", "-", "--", "/*", "\U0001f600",
                       "E", "ESC", "escape", "\\" * 3, "!?!", s + "x" + s, "x" + s])


COMMENTS = [True, True, ["--"], ["#", "--"], [("/*", "*/")], [("/*", "*/"), "#"], ["--", ("/*", "*/")], (("/*", "*/"), "--"),
            [["{-", "-}"]], ["//"], [("<!--", "-->")], ["*"], ["."]]


def pick_config(rng, st_in=None, st_out=None, esc=0.35, expand=None, com=0.12, quotes=0.5):
    i = st_in or rng.choice(STYLES)
    o = st_out or rng.choice(STYLES)
    kw = {"in_style": i, "out_style": o}
    r = rng.random()
    if r < esc:
        kw["escape_char"] = escape_of(rng, i)
    elif rng.random() < 0.3:
        kw["escape_char"] = rng.choice([None, False, ""])
    if expand is not None:
        kw["expand_tuples"] = expand
    elif rng.random() < 0.6:
        kw["expand_tuples"] = rng.choice([True, False, None, True])
    if rng.random() < com:
        kw["strip_comments"] = rng.choice(COMMENTS)
        if NEW_STRS and rng.random() < 0.2:
            kw["strip_comments"] = [rng.choice([rng.choice(NEW_STRS), (rng.choice(NEW_STRS), rng.choice(NEW_STRS + ["*/"]))])]
    elif rng.random() < 0.3:
        kw["strip_comments"] = rng.choice([None, False, []])
    if rng.random() < quotes:
        kw["allow_out_quotes"] = rng.choice([True, True, False, None])
    return kw


def expands(kw):
    ex = kw.get("expand_tuples")
    return kind(kw["out_style"]) != "named" if ex is None else bool(ex)


def make_case(rng, kw, nparams=None, nrefs=None, ptup=0.3, literals=None, names="mix", many=None, container=None, nrows=None,
              tight=0.3, same_shape=True, extras=True, key_case=True, tuple_len=None, esc_bits=True):
    """A complete, well-formed case for configuration kw."""
    st = kw["in_style"]
    k = kind(st)
    lits = literals if literals is not None else rng.choice([CLEAN, DIRTY])
    if NEW_TEXT and rng.random() < 0.4:
        safe = [x for x in NEW_TEXT if literals is not CLEAN or not set(x) & set(":$@%?\"")]
        lits = lits + safe * max(1, len(lits) // (2 * len(safe))) if safe else lits
    # Now and then something far larger than usual.
    big = rng.choice(["params", "rows", "tuple", "text", "refs"]) if rng.random() < 0.012 else None
    n = nparams if nparams is not None else sizes(rng, [0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 13], 300)
    if big == "params":
        n = rng.choice([40, 99, 100, 101, 130, 260])
    m = nrefs if nrefs is not None else rng.randrange(n, n + 20) if n > 100 else (rng.randrange(n, 2 * n + 3) if n else 0)
    intro = INTRO[st]
    esc = kw.get("escape_char")
    escs = intro if esc is True else esc if esc else None
    # Which parameter each reference names.
    if k == "named":
        nm = Names(rng, n, names).names
        if st == "named_oracle":
            # distinct when upper-cased, so that spelling never conflates two parameters
            seen, keep = set(), []
            for x in nm:
                if x.upper() not in seen:
                    seen.add(x.upper())
                    keep.append(x)
            nm, n = keep, len(keep)
        which = [rng.randrange(n) for _ in range(m)] if n else []
    elif k == "numeric":
        which = [rng.randrange(n) for _ in range(m)] if n else []
    else:
        m = n
        which = list(range(n))
    if big == "refs" and m and n:
        m = rng.choice([60, 120, 260])
        which = [rng.randrange(n) for _ in range(m)] if k != "ordinal" else which
    shapes = [(sizes(rng, [0, 1, 2, 2, 3, 3, 4, 11], 2100) if tuple_len is None else tuple_len) if rng.random() < ptup else None for _ in range(n)]
    if big == "tuple" and n:
        shapes[rng.randrange(n)] = rng.choice([33, 64, 100, 101, 200, 256, 300, 1001, 2100])
    if k == "named" and kind(kw["out_style"]) == "named":
        # a text of hundreds of thousands of characters takes minutes to judge
        shapes = [sh and min(sh, 50000 // ((len(nm[j]) + 14) * max(1, which.count(j)))) for j, sh in enumerate(shapes)]
    foreign = k == "numeric" and rng.random() < 0.06
    quoted = [st == "named_oracle" and rng.random() < 0.4 for _ in range(n)]
    pieces = []

    def lit(must=False):
        for _ in range(rng.choice([0, 1, 1, 2]) or int(must)):
            t = rng.choice(lits)
            pieces.append(t)
        if escs and esc_bits and rng.random() < 0.25:
            pieces.append(escs + intro)
        if escs and esc_bits and rng.random() < 0.1:
            pieces.append(rng.choice([escs, escs * 2, escs + "x", intro * 2, escs + intro * 2]))

    lit()
    if big == "text":
        pieces.append(rng.choice([" ", "ab ", "x\n", "é, "]) * rng.choice([300, 700, 1200, 1400, 5000, 22000]))
    for j in which:
        if pieces and rng.random() > tight:
            pieces.append(" ")
        if k == "named":
            name = nm[j]
            if st == "named_oracle" and not quoted[j]:
                # upper() can lengthen a name; keep to spellings with the same upper case
                alt = rng.choice([name, name.upper(), name.lower(), name.swapcase()])
                if alt.upper() == name.upper() and (alt[0].isascii()):
                    name = alt
            pieces.append(ref_text(st, name, quoted=quoted[j]))
        elif k == "numeric":
            pieces.append(intro + rng.choice(["", "", "", "", "0", "00"]) + (str(j + 1).translate(rng.choice(DIGITS)) if foreign and rng.random() < 0.5 else str(j + 1)))
        else:
            pieces.append(ref_text(st, ""))
        if rng.random() > tight:
            pieces.append(" ")
        lit()
    sql = "".join(pieces)
    if many is None:
        many = rng.random() < 0.35
    rn = (nrows if nrows is not None else sizes(rng, [1, 2, 2, 3, 5], 2600)) if many else 1
    if big == "rows" and many:
        rn = rng.choice([30, 64, 101, 257, 1001, 2500])
    rn = min(rn, max(2, 12000 // (1 + n + sum(sh or 0 for sh in shapes)))) if many else rn

    def one_row(first):
        vals = []
        for sh in shapes:
            if sh is None:
                if not first and not expands(kw) and rng.random() < 0.2:
                    vals.append(tup(rng))
                else:
                    vals.append(scalar(rng))
            elif not same_shape and not first:
                vals.append(tup(rng))
            else:
                vals.append(tup(rng, sh))
        return vals

    okeys = None
    rows = []
    acc = extras and lits is not CLEAN and rng.random() < 0.85   # supply what dirty text may happen to refer to
    for r in range(rn):
        vals = one_row(r == 0)
        if k == "named":
            if st == "named_oracle":
                if okeys is None:
                    okeys = []
                    for j, x in enumerate(nm):
                        if quoted[j]:
                            okeys.append(f'"{x}"' if x != x.upper() else rng.choice([f'"{x}"', x]))
                        else:
                            alt = rng.choice([x, x.upper(), x.lower(), '"' + x.upper() + '"'])
                            okeys.append(alt if alt.strip('"').upper() == x.upper() else x)
                items = list(zip(okeys, vals))
            else:
                items = list(zip(nm, vals))
            if extras and rng.random() < 0.3:
                have = {kk.strip('"').upper() for kk, _ in items} if st == "named_oracle" else {kk for kk, _ in items}
                for x in rng.sample(["zz", "unused", "Q", "_9", 3, 0, None, b"a", b"A", ("a",), 1.5, frozenset(), -1], 2):
                    if x not in have and str(x).upper() not in have:
                        items.append((x, scalar(rng)))
            if acc:
                have = {str(kk) for kk, _ in items}
                for x in ACCIDENT:
                    if x not in have:
                        items.append((x, scalar(rng)))
            if rng.random() < 0.3:
                rng.shuffle(items)
            rows.append(codec.map_of([(codec.odd_key(a, rng) if isinstance(a, str) and rng.random() < 0.05 else a, b) for a, b in items], rng))
            continue
        base = 1 if k == "numeric" else 0
        ct = container or rng.choice(["seq", "seq", "imap", "smap", "bmap", "xmap"])
        if ct == "seq":
            if extras and rng.random() < 0.3:
                vals = vals + [scalar(rng)]
            if acc:
                vals = vals + [scalar(rng) for _ in range(rng.choice([3, 8, 46]))]
            rows.append(codec.seq_of(vals, rng))
        else:
            ks = []
            if acc:
                vals = vals + [scalar(rng) for _ in range(rng.choice([3, 8]))]
            for j in range(len(vals)):
                a = j + base
                t = ct if ct != "xmap" else rng.choice(["imap", "smap", "bmap"])
                ks.append(a if t == "imap" else str(a) if t == "smap" else str(a).encode())
            items = list(zip(ks, vals))
            if extras and rng.random() < 0.4:
                for x in rng.sample(["q", "-1", -1, 99, "1a", "", "²", 2.5, None, "1.0", b"x", -0.5, len(vals) + base, " 1", "1 ", "1_0", "+1", "1\n", "0x1", "1e0", "--1", b" 1", b"+1", "\u00b9", "\u2460", ("1",), "one"], 2):
                    items.append((x, scalar(rng)))
            if rng.random() < 0.5:
                rng.shuffle(items)
            rows.append(codec.map_of([(codec.odd_key(a, rng) if rng.random() < 0.04 else a, b) for a, b in items], rng))
    # Text pieces may by accident form references of their own: those are part
    # of the query too; the specification decides what they need.
    return Case(kw, sql, rows, many, which)


def reshape(rng, row, shape=True):
    """The same parameters with other values, or some missing."""
    def val(v):
        if shape and rng.random() < 0.4:
            return tup(rng, rng.choice([0, 1, 2, 3])) if rng.random() < 0.6 else scalar(rng)
        if shape and rng.random() < 0.2:
            # as long, but no longer a tuple, or one now
            if isinstance(v, tuple):
                return rng.choice([list, list, collections.deque, codec.GenSeq, codec.ListRow, lambda t: dict(enumerate(t)), lambda t: "x" * len(t)])([scalar(rng) for _ in v])
            if isinstance(v, (list, str, collections.deque, codec.GenSeq)):
                return tup(rng, len(v))
        if isinstance(v, tuple):
            return tup(rng, len(v))
        return scalar(rng)
    if isinstance(row, collections.abc.Mapping):
        items = [(k, val(v)) for k, v in row.items()]
        if shape and items and rng.random() < 0.2:
            items.pop(rng.randrange(len(items)))
        return dict(items)
    items = [val(v) for v in row]
    if shape and items and rng.random() < 0.2:
        items.pop()
    return items
