"""Constants of the code under test, to draw inputs towards.

A change that singles out some text or size has to mention it.  Constants the
code has gained over those listed in known_constants.json are tried as names,
text, values, marks and sizes far more often than chance would.  They only
steer which calls are made; what a call must return is for the specification.
"""
import ast
import glob
import json
import os

from common import REPO

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_constants.json")


def constants(root):
    strs, ints = set(), set()
    for path in sorted(glob.glob(os.path.join(root, "sqlparams", "*.py"))):
        try:
            with open(path, encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError, ValueError):
            continue
        docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
        for n in ast.walk(tree):
            if not isinstance(n, ast.Constant) or id(n) in docs:
                continue
            v = n.value
            if isinstance(v, bytes):
                v = v.decode("latin1")
            if isinstance(v, str) and 0 < len(v) <= 40:
                strs.add(v)
            elif isinstance(v, int) and not isinstance(v, bool) and 1 < v <= 70000:
                ints.add(v)
    return sorted(strs), sorted(ints)


def gained():
    strs, ints = constants(REPO)
    try:
        with open(KNOWN, encoding="utf-8") as fh:
            known = json.load(fh)
    except OSError:
        known = {"strs": [], "ints": []}
    ks, ki = set(known["strs"]), set(known["ints"])
    return [s for s in strs if s not in ks], [i for i in ints if i not in ki]


NEW_STRS, NEW_INTS = gained()

if __name__ == "__main__":
    s, i = constants(REPO)
    with open(KNOWN, "w", encoding="utf-8") as fh:
        json.dump({"strs": s, "ints": i}, fh, indent=1)
        fh.write("\n")
