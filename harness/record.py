"""Make real calls and write down what happened, for the judge."""
import collections.abc

import codec
import gen
from judge import entry


ORDER = ["in_style", "out_style", "escape_char", "expand_tuples", "strip_comments", "allow_out_quotes"]
DEFAULTS = dict.fromkeys(ORDER[2:])


def build(sp, kw, rng=None):
    """A fresh instance; (instance, None) or (None, exception)."""
    if rng is not None and rng.random() < 0.3:
        # the arguments in the documented order, some left to their default
        last = max(ORDER.index(k) for k in kw)
        n = rng.randrange(2, last + 2)
        args = [kw.get(k, DEFAULTS.get(k)) for k in ORDER[:n]]
        return codec.guarded(lambda: sp.SQLParams(*args, **{k: kw[k] for k in ORDER[n:] if k in kw}))
    return codec.guarded(lambda: sp.SQLParams(**kw))


def warm(inst, case, rng):
    """Earlier calls on the same instance, most of them about the same query."""
    for _ in range(rng.choice([1, 1, 2, 3])):
        sql, rows = case.sql, list(case.rows)
        if not rows:
            return
        if not isinstance(sql, (str, bytes)):
            sql = "x"
        if rng.random() < 0.25:
            sql = sql + (b" x" if isinstance(sql, bytes) else " x") if rng.random() < 0.5 else sql[:len(sql) // 2]
        elif isinstance(sql, str) and rng.random() < 0.2 and all(ord(c) < 256 for c in sql):
            sql = sql.encode("latin1")
        if rng.random() < 0.8:
            rows = [gen.reshape(rng, r, rng.random() < 0.6) if isinstance(r, (collections.abc.Mapping, list, tuple)) else r for r in rows]
        if rng.random() < 0.5:
            codec.guarded(inst.format, sql, rows[0])
        else:
            codec.guarded(inst.formatmany, sql, rows)


def perform(sp, case, rng, inst=None, reg=None, watch=True, warming=0.25, rows_arg=codec.rows_arg):
    """Make the call of a Case: (abstract call, result record, reg)."""
    reg = reg or codec.Reg()
    call = codec.a_call(case.kw, case.sql, case.rows, case.many, reg)
    if inst is None:
        inst, err = build(sp, case.kw, rng)
        if err is not None:
            return call, codec.failed(err), reg
        if rng.random() < warming:
            warm(inst, case, rng)
    arg = rows_arg(case.rows, rng) if case.many else case.rows[0]
    sql = case.sql
    if rng.random() < 0.04 and isinstance(sql, (str, bytes)):
        sql = codec.Str(sql) if isinstance(sql, str) else codec.Bytes(sql)
    res, got = codec.run_call(inst, sql, arg, case.many, reg, watch=[case.rows, case.kw.get("strip_comments")] if watch else None, by_name=rng.random() < 0.2)
    case.got = got
    return call, res, reg


def record(sp, case, rng, **kw):
    call, res, reg = perform(sp, case, rng, **kw)
    return entry(call, res, note=describe(case))


def short(x, n=200):
    try:
        s = repr(x)
    except Exception:
        s = f"<{type(x).__name__}>"
    return s if len(s) <= n else s[:n] + "..."


def describe(case):
    return {"SQLParams": {k: short(v) for k, v in case.kw.items()}, "call": "formatmany" if case.many else "format",
            "sql": short(case.sql, 600), "params": [short(r, 400) for r in case.rows]}
