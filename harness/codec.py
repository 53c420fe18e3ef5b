"""Between the specification's calls and results and real Python objects.

A value is known to the specification only by its identity (a small number).
`Reg` keeps every object of a call alive and maps identities both ways.
"""
import array
import collections
import collections.abc
import datetime
import decimal
import enum
import fractions
import io
import itertools
import pathlib
import re
import signal
import sqlite3
import types
import unicodedata
import uuid
import weakref

HUGE = 100000000


def codes(s):
    return [ord(c) for c in s]


def text(cs):
    return "".join(map(chr, cs))


class Reg:
    def __init__(self):
        self.by_obj = {}
        self.objs = {}
        self.n = 0

    def add(self, obj, want=None):
        """Identity of obj; `want` is used when obj is new."""
        k = id(obj)
        if k in self.by_obj:
            return self.by_obj[k]
        if want is None:
            self.n += 1
            want = self.n + 1000000
        self.by_obj[k] = want
        self.objs[want] = obj
        return want

    def find(self, obj):
        return self.by_obj.get(id(obj), -1)


# --------------------------------------------------------------------------
# Real -> abstract

def a_value(v, reg):
    if isinstance(v, tuple):
        return {"t": "tup", "id": reg.add(v), "e": [reg.add(x) for x in v]}
    return {"t": "sc", "id": reg.add(v), "e": []}


def a_key(k):
    if isinstance(k, str):
        return {"t": "s", "s": codes(k), "n": 0}
    if isinstance(k, bytes):
        return {"t": "b", "s": list(k), "n": 0}
    if isinstance(k, int) and abs(k) < HUGE:
        return {"t": "i", "s": [], "n": int(k)}
    return {"t": "o", "s": [], "n": 0}


def a_row(row, reg):
    if isinstance(row, collections.abc.Mapping):
        return {"t": "map", "items": [{"k": a_key(k), "v": a_value(v, reg)} for k, v in row.items()]}
    if isinstance(row, collections.abc.Sequence) and not isinstance(row, (str, bytes)):
        return {"t": "seq", "items": [{"k": {"t": "i", "s": [], "n": i}, "v": a_value(v, reg)} for i, v in enumerate(row)]}
    return {"t": "bad", "items": []}


def a_config(kw):
    """Constructor arguments -> the configuration fields of a call."""
    esc = kw.get("escape_char")
    com = kw.get("strip_comments")
    if com is True:
        com = (("/*", "*/"), "--")
    ex = kw.get("expand_tuples")
    return {
        "in": kw["in_style"], "out": kw["out_style"],
        "esc": "default" if esc is True else "custom" if esc else "none",
        "escs": codes(esc) if isinstance(esc, str) else [],
        "expand": "default" if ex is None else "yes" if ex else "no",
        "quotes": bool(kw.get("allow_out_quotes")),
        "com": [] if not com else [
            {"t": "line", "a": codes(c), "b": []} if isinstance(c, str) else {"t": "block", "a": codes(c[0]), "b": codes(c[1])}
            for c in com],
    }


def a_call(kw, sql, rows, many, reg):
    c = a_config(kw)
    c["bytes"] = isinstance(sql, bytes)
    c["many"] = many
    c["input"] = "ok" if isinstance(sql, (str, bytes)) else "badsql"
    c["sql"] = list(sql) if isinstance(sql, bytes) else codes(sql) if isinstance(sql, str) else []
    if rows is None:
        c["input"] = "badmany" if c["input"] == "ok" else c["input"]
        rows = []
    c["rows"] = [a_row(r, reg) for r in rows]
    return c


ERRS = ("KeyError", "IndexError", "TypeError", "ValueError")


class Stop(BaseException):
    """A failure of the caller's that is no Exception."""


def failed(e, trouble=None):
    """The record of a call that raised e; trouble is what the caller's container raised."""
    name = type(e).__name__ if trouble is None or e is not trouble else "Caller"
    return {"ok": False, "err": name, "sql": [], "ty": "", "shape": "", "rows": [], "mut": False, "shared": False, "kept": False}


def a_result(got, many, reg):
    """The value returned by format() / formatmany() -> result record (total)."""
    r = {"ok": True, "err": "", "sql": [], "ty": "other", "shape": "other", "rows": [], "mut": False, "shared": False, "kept": False}
    if not isinstance(got, tuple) or len(got) != 2:
        return r
    sql, out = got
    if isinstance(sql, str):
        r["ty"], r["sql"] = "str", codes(sql)
    elif isinstance(sql, bytes):
        r["ty"], r["sql"] = "bytes", list(sql)
    if many:
        if type(out) is not list:
            return r
        rows = out
    else:
        rows = [out]
    if all(type(x) is dict for x in rows):
        r["shape"] = "dict"
    if all(type(x) is list for x in rows):
        r["shape"] = "list" if rows else "other"
    for x in rows:
        if type(x) is dict:
            r["rows"].append([{"k": codes(k) if isinstance(k, str) else [-1], "v": reg.find(v)} for k, v in x.items()])
        elif isinstance(x, (list, tuple)):
            r["rows"].append([{"k": [], "v": reg.find(v)} for v in x])
        else:
            r["rows"].append([{"k": [-2], "v": -1}])
    return r


def canon(r):
    """Comparable form of a result (key order of dicts aside)."""
    if not r["ok"]:
        return (False, r["err"])
    rows = r["rows"]
    if r["shape"] == "dict":
        rows = [sorted((tuple(e["k"]), e["v"]) for e in row) for row in rows]
    else:
        rows = [[(tuple(e["k"]), e["v"]) for e in row] for row in rows]
    return (True, tuple(r["sql"]), r["ty"], r["shape"], rows)


# --------------------------------------------------------------------------
# Unicode facts for the specification

_W = re.compile(r"\w")


def ext_table(calls):
    seen = set()
    for c in calls:
        seen.update(x for x in c["sql"] if x > 127)
        seen.update(x for x in c["escs"] if x > 127)
        for m in c["com"]:
            seen.update(x for x in m["a"] + m["b"] if x > 127)
        for r in c["rows"]:
            for it in r["items"]:
                seen.update(x for x in it["k"]["s"] if x > 127)
    for x in list(seen):
        seen.update(ord(y) for y in chr(x).upper() if ord(y) > 127)
    out = []
    for x in sorted(seen):
        ch = chr(x)
        out.append({"c": x, "w": ch.isalnum() or ch == "_", "d": unicodedata.decimal(ch, -1), "up": codes(ch.upper())})
    return out


# --------------------------------------------------------------------------
# Running the real thing

class Hang(BaseException):
    pass


class TooManyHangs(Exception):
    """Raised outside the guard: enough calls did not come back."""


HANGS = [0]


def _alarm(*_):
    raise Hang()


def guarded(fn, *args, limit=5.0):
    """fn(*args) under a time limit; (value, None) or (None, exception)."""
    if HANGS[0] >= 6:
        raise TooManyHangs()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(*args), None
    except Hang as e:
        HANGS[0] += 1
        return None, e
    except (Exception, Stop) as e:
        return None, e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# Sequences that make up their elements as they are asked for.
MADE_UP = (collections.UserString, range, memoryview, array.array, bytearray)


def snapshot(x, depth=0):
    """Structure and identities of an argument, to see whether a call changed it."""
    if isinstance(x, (str, bytes)) or depth > 3:
        return ("a", id(x))
    if isinstance(x, MADE_UP):
        return ("v", id(x), str(x) if isinstance(x, collections.UserString) else list(x))
    if isinstance(x, collections.abc.Mapping):
        return ("m", id(x), [(id(k), k if isinstance(k, (str, int, bytes)) else None, snapshot(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, collections.abc.Sequence):
        return ("s", id(x), [snapshot(v, depth + 1) for v in x])
    return ("a", id(x))


def collections_in(x, depth=0):
    """The lists and dictionaries a caller passed, nested ones included."""
    if depth > 3 or isinstance(x, (str, bytes, *MADE_UP)):
        return
    if isinstance(x, (list, dict)):
        yield x
    if isinstance(x, collections.abc.Mapping):
        x = list(x.values())
    if isinstance(x, collections.abc.Sequence):
        for y in x:
            yield from collections_in(y, depth + 1)


def shares(got, many, given):
    """Is a collection of the result one of the caller's, or twice in the result?"""
    if not isinstance(got, tuple) or len(got) != 2:
        return False
    cols = [got[1]] + (list(got[1]) if many and isinstance(got[1], list) else [])
    ids = [id(c) for c in cols if isinstance(c, (list, dict))]
    return len(set(ids)) != len(ids) or not set(ids).isdisjoint(id(c) for c in collections_in(given))


def run_call(inst, sql, params, many, reg, watch=None, by_name=False):
    """One real call; `watch`: objects that must come out unchanged."""
    before = snapshot(watch) if watch is not None else None
    if by_name:
        got, err = guarded(lambda: inst.formatmany(sql=sql, many_params=params) if many else inst.format(sql=sql, params=params))
    else:
        got, err = guarded(inst.formatmany if many else inst.format, sql, params)
    if err is not None:
        r = failed(err)
    else:
        r = a_result(got, many, reg)
    if watch is not None and snapshot(watch) != before:
        r["mut"] = True
    if watch is not None and err is None and shares(got, many, [watch, params if isinstance(params, (list, dict)) else None]):
        r["shared"] = True
    return r, got


# --------------------------------------------------------------------------
# Abstract -> real (replay of specification behaviours)

class Eq:
    """Equal to everything, false, and hashable: only identity tells it apart."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 7

    def __bool__(self):
        return False


class Touched(Exception):
    """A value was looked into."""


def _hands_off(self, *_):
    raise Touched()


class Hostile:
    """Bears being passed along and shown, and nothing else."""


for _name in ("eq ne lt le gt ge hash bool len iter next getitem setitem contains reversed copy deepcopy reduce reduce_ex str format bytes int float index "
              "call add radd mul mod rmod enter await length_hint fspath conform").split():
    setattr(Hostile, f"__{_name}__", _hands_off)


class Str(str):
    pass


class Bytes(bytes):
    pass


class Num(int):
    pass


class Duck:
    """Looks things up, but is neither a mapping nor a sequence."""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def keys(self):
        return self._d.keys()

    def items(self):
        return self._d.items()

    def __contains__(self, k):
        return k in self._d

    def __len__(self):
        return len(self._d)


class Tup(tuple):
    pass


NT = {n: collections.namedtuple(f"NT{n}", [f"f{i}" for i in range(n)]) for n in range(0, 5)}


ODD = [lambda r: Eq(), lambda r: Hostile(), lambda r: iter([1, 2]), lambda r: (x for x in (1, 2)), lambda r: range(2), lambda r: frozenset([1]), lambda r: complex(1, 2),
       lambda r: memoryview(b"ab"), lambda r: GenSeq([1, 2]), lambda r: GenMap({"a": 1}), lambda r: collections.deque([1]), lambda r: ValueError("v"),
       lambda r: type("T", (), {}), lambda r: type("T", (tuple,), {}), lambda r: Num(5), lambda r: Bytes(b"?"), lambda r: types.SimpleNamespace(a=1), lambda r: array.array("i", [1]),
       lambda r: float("nan"), lambda r: [], lambda r: [1, 2], lambda r: {}, lambda r: {"a": 1}, lambda r: Str(r.choice(["", "?", ":1", "%s", "%(a)s", "1; DROP TABLE t--", "it's", "a"])),
       lambda r: float(r.randrange(3)), lambda r: int("1%03d" % r.randrange(1000)) + 10 ** 6, lambda r: "".join(["v", str(r.randrange(3)), ":a ? $1 %s"]),
       lambda r: bytearray(b""), lambda r: bytearray(b"xy"), lambda r: {1, 2}, lambda r: set(), lambda r: object(), lambda r: bytes([r.randrange(256) for _ in range(3)]) + b"zz",
       lambda r: datetime.datetime(2020, 1, r.randrange(1, 28), 5), lambda r: decimal.Decimal("1.50"), lambda r: uuid.UUID(int=r.getrandbits(128)), lambda r: (lambda: 1),
       lambda r: datetime.timedelta(r.randrange(9)), lambda r: fractions.Fraction(1, 3), lambda r: slice(1, 2), lambda r: ListRow([1, 2]), lambda r: collections.UserList([1]),
       lambda r: collections.UserString("?"), lambda r: enum.Enum("E", "A B").A, lambda r: -float(r.randrange(1, 9)), lambda r: 10 ** 30 + r.randrange(99), lambda r: {"a": 1}.keys(),
       lambda r: {1: 2}.items(), lambda r: [()], lambda r: [(1, 2)], lambda r: pathlib.PurePosixPath("/a"), lambda r: io.StringIO("a"), lambda r: weakref.WeakSet()]
SINGLE = [None, True, False, 0, "", 1, NotImplemented, Ellipsis, int, tuple, b"", -1, "NULL", "a"]


def fresh_scalar(rng):
    """A new object of some awkward type (never shared with another value)."""
    return rng.choice(ODD)(rng)


def make_value(v, reg, rng, alias):
    """Object for an abstract value; alias maps its ids to the ids registered."""
    if v["t"] == "tup":
        els = []
        for e in v["e"]:
            if e in alias:
                els.append(reg.objs[alias[e]])
            else:
                x = fresh_scalar(rng)
                alias[e] = reg.add(x, e)
                els.append(x)
        k = rng.randrange(4)
        if k == 0:
            obj = Tup(els)
        elif k == 1 and len(els) in NT:
            obj = NT[len(els)](*els)
        else:
            obj = tuple(els)
        alias[v["id"]] = reg.add(obj, v["id"])
        return obj
    if v["id"] in alias:
        return reg.objs[alias[v["id"]]]
    obj = fresh_scalar(rng)
    if rng.randrange(4) == 0:
        s = rng.choice(SINGLE)
        if reg.find(s) == -1:
            obj = s
    alias[v["id"]] = reg.add(obj, v["id"])
    return obj


class GenMap(collections.abc.Mapping):
    """A Mapping that is not a dict."""

    def __init__(self, items):
        self._d = dict(items)

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class GenSeq(collections.abc.Sequence):
    """A Sequence that is neither list nor tuple."""

    def __init__(self, items):
        self._l = list(items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return GenSeq(self._l[i])
        return self._l[i]

    def __len__(self):
        return len(self._l)


def map_of(d, rng):
    k = rng.randrange(8)
    if k == 0:
        return collections.OrderedDict(d)
    if k == 1:
        return types.MappingProxyType(dict(d))
    if k == 2:
        return collections.UserDict(d)
    if k == 3:
        return collections.ChainMap({}, dict(d))
    if k == 4:
        return GenMap(d)
    return dict(d)


def seq_of(l, rng):
    k = rng.randrange(8)
    if k in (0, 1):
        return tuple(l)
    if k == 2:
        return collections.deque(l)
    if k == 3:
        return collections.UserList(l)
    if k == 4:
        return GenSeq(l)
    return list(l)


class KeyedMap(collections.abc.Mapping):
    """The least a Mapping can be; a new iterator over the keys each time."""

    def __init__(self, items):
        self._keys, self._vals = [k for k, _ in items], [v for _, v in items]

    def __getitem__(self, k):
        for a, v in zip(self._keys, self._vals):
            if a is k or isinstance(a, (str, int, bytes)) and a == k:
                return v
        raise KeyError(k)

    def __iter__(self):
        yield from self._keys

    def __len__(self):
        return len(self._keys)

    __eq__ = object.__eq__
    __hash__ = object.__hash__


class IdRow(tuple):
    """A tuple that can be the key of a dictionary whatever it holds."""

    __eq__ = object.__eq__
    __hash__ = object.__hash__


class ListRow(list):
    pass


class DictRow(dict):
    pass


class _Sealed:
    def __init__(self, v):
        self.v = v


class LazyDict(dict):
    """A dict whose entries are what its own methods give, not what is stored."""

    def __init__(self, items):
        super().__init__((k, _Sealed(v)) for k, v in items)

    def __getitem__(self, k):
        return super().__getitem__(k).v

    def __iter__(self):
        return super().__iter__()

    def get(self, k, default=None):
        return self[k] if k in self else default

    def keys(self):
        return collections.abc.KeysView(self)

    def values(self):
        return collections.abc.ValuesView(self)

    def items(self):
        return collections.abc.ItemsView(self)

    def copy(self):
        return dict(self.items())

    __eq__ = object.__eq__
    __hash__ = object.__hash__


class LazyList(list):
    """The same of a list."""

    def __init__(self, items):
        super().__init__(_Sealed(v) for v in items)

    def __getitem__(self, i):
        return [x.v for x in super().__getitem__(i)] if isinstance(i, slice) else super().__getitem__(i).v

    def __iter__(self):
        return (x.v for x in super().__iter__())

    def __reversed__(self):
        return (x.v for x in super().__reversed__())

    def copy(self):
        return list(self)

    __eq__ = object.__eq__
    __hash__ = object.__hash__


def sqlite_row(l):
    cur = sqlite3.connect(":memory:").cursor()
    cur.execute("SELECT " + ", ".join(f"1 AS c{i}" for i in range(max(1, len(l)))))
    return sqlite3.Row(cur, tuple(l))


def halves(items):
    """A ChainMap with some of the items in each map."""
    a, b = {}, {}
    for i, (k, v) in enumerate(items):
        (a if i % 2 else b)[k] = v
    return collections.ChainMap(a, b)


# All the ways to hand over the same parameters.
MAPPINGS = [dict, collections.OrderedDict, lambda it: types.MappingProxyType(dict(it)), collections.UserDict, halves, GenMap, KeyedMap, DictRow, LazyDict]
SEQUENCES = [list, tuple, collections.deque, collections.UserList, GenSeq, ListRow, Tup, IdRow, LazyList, lambda l: NT[len(l)](*l) if len(l) in NT else tuple(l),
             lambda l: sqlite_row(l) if 0 < len(l) < 100 else list(l)]


class Rows:
    """An iterable and nothing else."""

    def __init__(self, rows):
        self._rows = rows

    def __iter__(self):
        for r in self._rows:
            yield r


def as_keys(rs, kind):
    """The rows as the keys of a dictionary, where they can be."""
    try:
        d = kind((r, i) for i, r in enumerate(rs))
    except Exception:   # not all hashable, or comparing them fails
        return rs
    return d if len(d) == len(rs) else rs


# Rows that can be keys.
KEY_SEQUENCES = [tuple, Tup, IdRow, LazyList]
KEY_MAPPINGS = [KeyedMap, LazyDict]
KEY_ITERABLES = [lambda rs: as_keys(rs, dict), lambda rs: as_keys(rs, dict).keys() if isinstance(as_keys(rs, dict), dict) else rs, lambda rs: as_keys(rs, collections.OrderedDict),
                 lambda rs: as_keys(rs, GenMap), lambda rs: iter(as_keys(rs, dict)), lambda rs: as_keys(rs, collections.UserDict)]
ITERABLES = [list, tuple, iter, collections.deque, lambda rs: (r for r in rs), lambda rs: map(lambda r: r, rs), lambda rs: dict(enumerate(rs)).values(), Rows, GenSeq,
             collections.UserList, lambda rs: itertools.chain(rs[:1], rs[1:]), lambda rs: {id(r): r for r in rs}.values() if len({id(r) for r in rs}) == len(rs) else rs,
             lambda rs: filter(lambda r: True, rs), lambda rs: reversed(rs[::-1])]


def make_key(k):
    return text(k["s"]) if k["t"] == "s" else bytes(k["s"]) if k["t"] == "b" else k["n"] if k["t"] == "i" else object()


def odd_key(k, rng):
    """The same key as an instance of a subclass (booleans for 0 and 1)."""
    if isinstance(k, str):
        return Str(k)
    if isinstance(k, bytes):
        return Bytes(k)
    if type(k) is int:
        return bool(k) if k in (0, 1) and rng.random() < 0.5 else Num(k)
    return k


def make_row(row, reg, rng, alias):
    if row["t"] == "bad":
        return rng.choice([None, 5, "ab", b"ab", {1, 2}, object(), 1.5, iter([1, 2]), True, Duck({"a": 1, "b": 2, 0: 3, 1: 4, 2: 5})])
    vals = [make_value(it["v"], reg, rng, alias) for it in row["items"]]
    if row["t"] == "seq":
        return seq_of(vals, rng)
    return map_of([(make_key(it["k"]), v) for it, v in zip(row["items"], vals)], rng)


def rows_arg(rows, rng):
    """An iterable over the rows: lists, tuples, one-shot iterators, ..."""
    k = rng.randrange(8)
    if k == 0:
        return iter(list(rows))
    if k == 1:
        return (r for r in rows)
    if k == 2:
        return tuple(rows)
    if k == 3:
        return collections.deque(rows)
    if k == 4:
        return map(lambda r: r, rows)
    if k == 5:
        return dict(enumerate(rows)).values()
    return list(rows)


BAD_SQL = [None, 5, ["a"], bytearray(b"a"), memoryview(b"a"), 1.5, object()]
BAD_MANY = [None, 5, "ab", b"ab", object(), 1.5, True]


def make_config(c, rng=None):
    """Constructor arguments for a call's configuration."""
    kw = {"in_style": c["in"], "out_style": c["out"]}
    pick = rng.choice if rng is not None else (lambda xs: xs[0])
    kw["escape_char"] = {"none": pick([None, False, None]), "default": True, "custom": text(c["escs"])}[c["esc"]]
    kw["expand_tuples"] = {"default": None, "yes": True, "no": False}[c["expand"]]
    kw["strip_comments"] = [text(m["a"]) if m["t"] == "line" else (text(m["a"]), text(m["b"])) for m in c["com"]] or pick([None, False, []])
    kw["allow_out_quotes"] = c["quotes"]
    return kw


def exp_mapped(exp, alias):
    r = dict(exp)
    r["rows"] = [[{"k": e["k"], "v": alias.get(e["v"], e["v"])} for e in row] for row in exp["rows"]]
    return r
