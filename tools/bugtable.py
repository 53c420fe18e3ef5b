#!/usr/bin/env python3
"""Prints the table of planted bugs in DESIGN.md from their descriptions."""
import collections
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    with open(path) as fh:
        by[json.load(fh)["property"]].append(os.path.basename(os.path.dirname(path)))
for prop in sorted(by):
    print(f"| {prop} | {', '.join(by[prop])} |")
