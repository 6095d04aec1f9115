#!/usr/bin/env python3
"""Adds replay files' cases to the committed corpus: corpus.py REPLAY ...

Only small cases that pass on the current tree, at most six per sub-check.
"""
import collections
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT, PER_SUB = 2500, 6
for path in sorted(sys.argv[1:], key=os.path.getsize):
    replay = json.load(open(path))
    prop = replay["property"]
    line = json.dumps({"sub": replay["sub"], "case": replay["case"]}, separators=(",", ":"))
    if len(line) > LIMIT:
        continue
    dest = os.path.join(HERE, "corpus", f"{prop}.jsonl")
    os.makedirs(os.path.dirname(dest), exist_ok=True)
    lines = open(dest).read().splitlines() if os.path.exists(dest) else []
    subs = collections.Counter(json.loads(l)["sub"] for l in lines)
    if line in lines or subs[replay["sub"]] >= PER_SUB:
        continue
    run = subprocess.run([os.path.join(HERE, "check"), prop, "--replay", os.path.abspath(path)], capture_output=True)
    if run.returncode:
        print("fails on the current tree:", path)
        continue
    with open(dest, "w") as f:
        f.write("\n".join(lines + [line]) + "\n")
    print(path, len(line))
