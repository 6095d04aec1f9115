#!/usr/bin/env python3
"""Validate and store planted bugs, and run checks against them.

usage: plant.py add DEFS.py [ID ...]   validate the definitions and write seeded/<id>/
       plant.py run [--all] [ID ...]   run the checks (of the bug's property, or all)

DEFS.py defines BUGS, a list of dicts: id, property, needs, what_it_breaks,
edits [(file, old, new)], demo (Python source).  Everything happens in scratch copies
of /repo under /tmp; results of runs are appended to /tmp/plant/catches.jsonl.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "ae90423"
ENV = dict(
    os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0",
    MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
)
DEMO_SH = """#!/bin/bash
# exit 0: the property holds on this demonstration's input
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONPATH="$repo"
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$scratch" && timeout 250 /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy(patch=None):
    tmp = tempfile.mkdtemp(prefix="copy-", dir="/tmp/plant")
    repo = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    for d, dirs, _ in os.walk(repo):
        for x in list(dirs):
            if x == "__pycache__":
                shutil.rmtree(os.path.join(d, x))
                dirs.remove(x)
    if patch:
        subprocess.run(["git", "-C", repo, "apply", patch], check=True)
    return tmp, repo


def tests_pass(repo):
    junit = os.path.join(os.path.dirname(repo), "junit.xml")
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p",
        "no:xdist", "-p", "no:randomly", "--timeout=300", "-o", "junit_family=xunit2",
        f"--junitxml={junit}", "tests"], cwd=repo, env=ENV)
    passed = set()
    for tc in ET.parse(junit).getroot().iter("testcase"):
        if not len([c for c in tc if c.tag in ("failure", "error", "skipped")]):
            passed.add(f"{tc.get('classname')}::{tc.get('name')}")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return stable - passed


def add(bug):
    bid = bug["id"]
    tmp, repo = copy()
    try:
        for file, old, new in bug["edits"]:
            path = os.path.join(repo, file)
            text = open(path).read()
            if text.count(old) != 1:
                return bid, f"{file}: old text occurs {text.count(old)} times"
            open(path, "w").write(text.replace(old, new))
        diff = sh(["git", "-C", repo, "diff"]).stdout
        # every removed line, or at least one, must be from the base commit
        orig = 0
        for file in {e[0] for e in bug["edits"]}:
            blame = sh(["git", "-C", repo, "blame", "-s", BASE + "..HEAD", "--", file]).stdout.splitlines()
            hunks = sh(["git", "-C", repo, "diff", "-U0", file]).stdout.splitlines()
            for h in hunks:
                if h.startswith("@@"):
                    a = h.split()[1][1:].split(",")
                    start, num = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for l in blame[start - 1 : start - 1 + num]:
                        orig += l.startswith("^")
                        if not l.startswith("^"):
                            print(f"  {bid}: changes a fixed line: {l[:100]}")
        if not orig:
            return bid, "changes no original line"
        failed = tests_pass(repo)
        if failed:
            return bid, f"tests fail: {sorted(failed)}"
        stage = os.path.join(tmp, "stage")
        os.mkdir(stage)
        open(os.path.join(stage, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        open(os.path.join(stage, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(stage, "demo.sh"), 0o755)
        good = sh(["bash", os.path.join(stage, "demo.sh")], cwd="/repo")
        if good.returncode:
            return bid, "demo fails on the unchanged tree:\n" + good.stdout[-800:] + good.stderr[-1500:]
        bad = sh(["bash", os.path.join(stage, "demo.sh")], cwd=repo)
        if not bad.returncode:
            return bid, "demo passes with the patch"
        dest = os.path.join(HERE, "seeded", bid)
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(stage, dest)
        open(os.path.join(dest, "patch.diff"), "w").write(diff)
        json.dump({k: bug[k] for k in ("property", "needs", "what_it_breaks")},
                  open(os.path.join(dest, "meta.json"), "w"), indent=1)
        tail = (bad.stderr.strip().splitlines() or [""])[-1]
        return bid, f"ok ({tail[:100]})"
    finally:
        shutil.rmtree(tmp)


def run(bid, props, seed="1"):
    tmp, repo = copy(os.path.join(HERE, "seeded", bid, "patch.diff"))
    try:
        caught = {}
        env = dict(os.environ, MEDIL_VERIF_REPO=repo, MEDIL_VERIF_OUT=tmp,
                   VERIF_SEED=seed, VERIF_TIER="quick")
        for prop in props:
            r = sh([os.path.join(HERE, "check"), prop], env=env)
            text = r.stdout.strip().splitlines()
            what = next((l for l in text if l.startswith("sub-check")), text[0] if text else r.stderr[-300:])
            caught[prop] = (r.returncode, what[:160])
            for path in (l.split("replay=")[1] for l in text if l.startswith("VIOLATION")):
                os.makedirs("/tmp/plant/replays", exist_ok=True)
                shutil.copy(os.path.join(tmp, path), f"/tmp/plant/replays/{bid}.{prop}.{seed}.json")
        return bid, caught
    finally:
        shutil.rmtree(tmp)


def main():
    os.makedirs("/tmp/plant", exist_ok=True)
    mode, args = sys.argv[1], sys.argv[2:]
    if mode == "add":
        bugs = runpy.run_path(args[0])["BUGS"]
        if args[1:]:
            bugs = [b for b in bugs if b["id"] in args[1:]]
        with cf.ThreadPoolExecutor(7) as ex:
            for bid, msg in ex.map(add, bugs):
                print(bid, msg, flush=True)
    else:
        every = "--all" in args
        seed = next((a.split("=")[1] for a in args if a.startswith("--seed=")), "1")
        ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
        all_props = [f"P{i:02d}" for i in range(1, 1 + len(open(os.path.join(HERE, "properties.jsonl")).readlines()))]
        with cf.ThreadPoolExecutor(2) as ex:
            futures = []
            for bid in ids:
                own = json.load(open(os.path.join(HERE, "seeded", bid, "meta.json")))["property"]
                props = all_props if every else [own]
                futures.append((own, ex.submit(run, bid, props, seed)))
            for own, fut in futures:
                bid, caught = fut.result()
                hits = [p for p, (code, _) in caught.items() if code == 1]
                odd = [p for p, (code, _) in caught.items() if code not in (0, 1)]
                verdict = "caught" if own in hits else "MISSED"
                print(f"{bid} {own} {verdict} by {','.join(hits) or '-'} odd={odd} :: {caught[own][1]}", flush=True)
                with open("/tmp/plant/catches.jsonl", "a") as f:
                    f.write(json.dumps({"id": bid, "property": own, "hits": hits, "odd": odd, "every": every, "seed": seed}) + "\n")


main()
