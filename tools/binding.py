#!/usr/bin/env python3
"""How firmly the recordings are tied to the specification.

Takes calls the code really made, changes one field of what was recorded, and
lets TLC judge it by each property's clauses.  Prints, per kind of change, the
share of changed recordings that each property (and any property) rejects.
Usage: binding.py [calls per property, default 40] [seed]
"""
import copy
import os
import random
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import drivers
import judge
from common import Scratch, import_repo

PROPS = [f"C{i:02d}" for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 23, 24, 25)]


def rows_of(r):
    return [x for x in r["rows"] if x]


def drop_char(rng, r):
    if r["sql"]:
        del r["sql"][rng.randrange(len(r["sql"]))]
        return True


def change_char(rng, r):
    if r["sql"]:
        k = rng.randrange(len(r["sql"]))
        r["sql"][k] = 126 if r["sql"][k] != 126 else 125
        return True


def add_char(rng, r):
    r["sql"].insert(rng.randrange(len(r["sql"]) + 1), 126)
    return True


def other_value(rng, r):
    rs = rows_of(r)
    if rs:
        rng.choice(rng.choice(rs))["v"] += 77777
        return True


def swap_values(rng, r):
    rs = [x for x in rs_ if len({e["v"] for e in x}) > 1] if (rs_ := rows_of(r)) else []
    if rs:
        x = rng.choice(rs)
        a, b = rng.choice([(a, b) for a in x for b in x if a["v"] != b["v"]])
        a["v"], b["v"] = b["v"], a["v"]
        return True


def drop_entry(rng, r):
    rs = rows_of(r)
    if rs:
        x = rng.choice(rs)
        del x[rng.randrange(len(x))]
        return True


def add_entry(rng, r):
    if r["rows"]:
        rng.choice(r["rows"]).append({"k": [122, 122, 122] if r["shape"] == "dict" else [], "v": 1000001})
        return True


def rename_key(rng, r):
    rs = rows_of(r)
    if rs and r["shape"] == "dict":
        rng.choice(rng.choice(rs))["k"].append(122)
        return True


def drop_row(rng, r):
    if len(r["rows"]) > 1:
        del r["rows"][rng.randrange(len(r["rows"]))]
        return True


def to_failure(rng, r):
    if r["ok"]:
        r.update(ok=False, err=rng.choice(["KeyError", "TypeError", "RuntimeError"]), sql=[], ty="", shape="", rows=[])
        return True


def other_error(rng, r):
    if not r["ok"]:
        r["err"] = "RuntimeError"
        return True


def to_success(rng, r):
    if not r["ok"]:
        r.update(ok=True, err="", sql=[120], ty="str", shape="list", rows=[[]])
        return True


def other_type(rng, r):
    if r["ok"]:
        r["ty"] = "bytes" if r["ty"] == "str" else "str"
        return True


def other_shape(rng, r):
    if r["ok"]:
        r["shape"] = "list" if r["shape"] == "dict" else "dict"
        return True


def hang(rng, r):
    r.update(ok=False, err="Hang", sql=[], ty="", shape="", rows=[])
    return True


def mutated(rng, r):
    r["mut"] = True
    return True


def shared(rng, r):
    r["shared"] = True
    return True


def kept(rng, r):
    r["kept"] = True
    return True


SPOIL = [drop_char, change_char, add_char, other_value, swap_values, drop_entry, add_entry, rename_key, drop_row, to_failure, other_error, to_success, other_type, other_shape, hang, mutated, shared, kept]


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    rng = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    sp = import_repo()
    scratch = Scratch()
    try:
        kinds = {}
        for p in PROPS:
            drivers.DECIDING[0] = p
            entries = [e for e in drivers.calls(p, sp, rng, n, 0) if "counts" not in e] if p in drivers.DRIVERS else []
            if not entries:
                drivers.DECIDING[0] = "C01"
                entries = [e for e in drivers.calls("C01", sp, rng, n, 0)]
            work, names = [], []
            for e in entries:
                for f in SPOIL:
                    for where in ["result"] + (["peer"] if e["peers"] else []):
                        x = copy.deepcopy({k: e[k] for k in ("call", "res", "peers", "pre")})
                        if f(rng, x["res"] if where == "result" else rng.choice(x["peers"])["res"]):
                            x["note"] = len(work)
                            work.append(x)
                            names.append((f.__name__, where))
            bad = {e["note"] for e, _ in judge.judge(p, work, scratch, judge.Tally())}
            for i, k in enumerate(names):
                t = kinds.setdefault(k, {}).setdefault(p, [0, 0])
                t[0] += i in bad
                t[1] += 1
        for k in kinds:
            row = kinds[k]
            print(f"{k[0]:12s} {k[1]:6s} " + " ".join(f"{p}:{100 * a // b}%" for p, (a, b) in row.items() if a))
    finally:
        scratch.close()


main()
