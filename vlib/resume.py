"""Continues histories with unpickled objects in a process of its own: resume.py IN OUT (used by P34)."""
import os
import pickle
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.remove(os.path.dirname(os.path.abspath(__file__)))
sys.path.append(here)

from vlib import core

sys.meta_path.insert(0, core.FreshFinder())
import torch

torch.set_num_threads(1)
from vlib import history

with open(sys.argv[1], "rb") as f:
    jobs = pickle.load(f)
out = []
for text, rest in jobs:
    try:
        out.append(history.run(pickle.loads(text), rest))
    except Exception as exc:
        out.append(core.describe(exc))
with open(sys.argv[2], "wb") as f:
    pickle.dump(out, f)
