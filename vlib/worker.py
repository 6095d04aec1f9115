"""Runs computations in a process of its own: worker.py IN OUT (used by P32).

IN holds {"imports", "here", "order", "items"}, results are pickled to OUT.
"""
import json
import os
import pickle
import sys

with open(sys.argv[1]) as f:
    job = json.load(f)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.remove(os.path.dirname(os.path.abspath(__file__)))
sys.path.append(here)
if job["in path"]:
    sys.path.insert(0, os.getcwd())

from vlib import core

sys.meta_path.insert(0, core.FreshFinder())
for name in job["imports"]:
    __import__("medil." + name)

import torch

torch.set_num_threads(1)
from vlib import work

results = [None] * len(job["items"])
for i in job["order"]:
    item = job["items"][i]
    try:
        results[i] = work.run(item["work"], work.thaw(item["args"]))
    except Exception as exc:
        results[i] = core.describe(exc)
with open(sys.argv[2], "wb") as f:
    pickle.dump(results, f)
