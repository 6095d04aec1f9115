"""The engine shared by all checks.

A property module (props/pNN.py) lists sub-checks.  Each sub-check has a
Hypothesis strategy that generates JSON-able cases and a function that
runs the code under test on one case and compares it with an oracle.  Any
exception (a failed assertion or a crash of the code under test) is a
violation of the property.  The function returns (non-trivial?, labels).

The engine forks a fixed number of shards, seeds Hypothesis from
VERIF_SEED, the sub-check and the shard number, replays the committed
corpus first, shrinks failures, writes the replay and evidence files, and
reports.
"""
import argparse
import collections
import contextlib
import hashlib
import importlib
import importlib.abc
import importlib.util
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

# MEDIL_VERIF_REPO is only for trying the checks on scratch copies (tools/plant.py);
# evidence and replay files then go to MEDIL_VERIF_OUT.
REPO = os.environ.get("MEDIL_VERIF_REPO", "/repo")
SHARDS = {"quick": 6, "thorough": 8}
# Wall-clock limits after which no further cases are generated (never a verdict).
BUDGET = {"quick": 420, "thorough": 3 * 3600}
CASE_CPU_LIMIT = 150  # seconds of CPU time for one case, usually well below 1
CASE_WALL_LIMIT = 420


class Sub:
    """One sub-check."""

    def __init__(
        self, name, strategy, fn, quick, thorough, shrink=True, minimise=None, fork=True
    ):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.counts = {"quick": quick, "thorough": thorough}
        self.shrink = shrink
        self.minimise = minimise


class FreshFinder(importlib.abc.MetaPathFinder):
    """Imports medil from the current sources, never from cached bytecode."""

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "medil" and not fullname.startswith("medil."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            file, search = os.path.join(base, "__init__.py"), [base]
        elif os.path.isfile(base + ".py"):
            file, search = base + ".py", None
        else:
            return None
        return importlib.util.spec_from_file_location(
            fullname,
            file,
            loader=FreshLoader(fullname, file),
            submodule_search_locations=search,
        )


class FreshLoader(importlib.machinery.SourceFileLoader):
    def path_stats(self, path):
        raise OSError("don't use cached bytecode")

    def set_data(self, *args, **kwargs):
        pass


class NullOut(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


@contextlib.contextmanager
def quiet():
    null = NullOut()
    with contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(text):
    return hashlib.blake2b(text.encode(), digest_size=8).hexdigest()


def describe(exc):
    """The exception with the frames of the check and of the code under test."""
    frames = [
        f"{os.path.relpath(f.filename, '/')}:{f.lineno} {f.name}"
        for f in traceback.extract_tb(exc.__traceback__)
        if "/hypothesis/" not in f.filename and "vlib/core.py" not in f.filename
    ]
    return {
        "error": f"{type(exc).__name__}: {exc}"[:2000],
        "frames": frames[-6:],
    }


class Shard:
    def __init__(self, prop, mod, tier, seed, idx, num, scratch, started):
        self.prop, self.mod, self.tier, self.seed = prop, mod, tier, seed
        self.idx, self.num, self.scratch, self.started = idx, num, scratch, started
        self.evaluations = 0
        self.truncated = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.per_sub = collections.Counter()
        self.samples = {}
        self.out = os.path.join(scratch, f"shard{idx}.json")

    # -- reporting -------------------------------------------------------

    def write(self, status, failure=None, error=None):
        with open(self.out + ".tmp", "w") as f:
            json.dump(
                {
                    "status": status,
                    "failure": failure,
                    "error": error,
                    "evaluations": self.evaluations,
                    "truncated": self.truncated,
                    "nontrivial": sorted(self.nontrivial),
                    "labels": self.labels,
                    "per_sub": self.per_sub,
                    "samples": self.samples,
                },
                f,
            )
        os.replace(self.out + ".tmp", self.out)

    def hang(self, signum, frame):
        sub, case = self.current
        where = traceback.extract_stack(frame)
        self.write(
            "violation",
            {
                "sub": sub.name,
                "case": case,
                "error": "the call did not return",
                "frames": [f"{f.filename}:{f.lineno} {f.name}" for f in where[-6:]],
            },
        )
        os._exit(1)

    # -- running ---------------------------------------------------------

    def evaluate(self, sub, case, count=True):
        """Run one case; raises if the property is violated."""
        self.current = (sub, case)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
        signal.setitimer(signal.ITIMER_REAL, CASE_WALL_LIMIT)
        try:
            with quiet():
                nontrivial, labels = sub.fn(json.loads(canon(case)))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
        if not count:
            return
        self.labels.update(f"{sub.name}:{label}" for label in set(labels))
        if nontrivial:
            self.nontrivial.add(digest(sub.name + canon(case)))
            samples = self.samples.setdefault(sub.name, [])
            if len(samples) < 2 or (len(samples) < 3 and self.evaluations > 20):
                samples.append(case)

    def run_sub(self, sub):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis.errors import HypothesisException

        total = sub.counts[self.tier]
        count = total // self.num + (self.idx < total % self.num)
        if count == 0:
            return None
        failures = []

        def test(case):
            if time.time() - self.started > BUDGET[self.tier]:
                self.truncated += 1
                return
            self.evaluations += 1
            self.per_sub[sub.name] += 1
            try:
                self.evaluate(sub, case)
            except Exception as exc:
                failures.append((len(canon(case)), canon(case), describe(exc)))
                raise

        phases = [Phase.explicit, Phase.generate]
        if sub.shrink:
            phases.append(Phase.shrink)
        test = settings(
            max_examples=count,
            database=None,
            deadline=None,
            derandomize=False,
            phases=phases,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=list(HealthCheck),
        )(given(sub.strategy)(test))
        test = hypothesis.seed(
            (self.seed * 1000003 + zlib.crc32(sub.name.encode())) * 64 + self.idx
        )(test)
        try:
            with quiet():
                test()
        except Exception as exc:
            if not failures:
                raise
            if not isinstance(exc, (HypothesisException, BaseException)):
                raise
        if not failures:
            return None
        _, text, desc = min(failures, key=lambda f: (f[0], f[1]))
        case = json.loads(text)
        if sub.minimise is not None:
            case, desc = self.minimise(sub, case, desc)
        return {"sub": sub.name, "case": case, **desc}

    def minimise(self, sub, case, desc):
        """Greedy shrinking with the sub-check's own candidate generator."""
        until = time.time() + 30
        improved = True
        while improved and time.time() < until:
            improved = False
            for candidate in sub.minimise(case):
                if time.time() > until:
                    break
                try:
                    self.evaluate(sub, candidate, count=False)
                except Exception as exc:
                    case, desc, improved = candidate, describe(exc), True
                    break
        return case, desc

    def run(self, corpus):
        signal.signal(signal.SIGVTALRM, self.hang)
        signal.signal(signal.SIGALRM, self.hang)
        subs = {sub.name: sub for sub in self.mod.SUBS}
        for pos, (sub_name, case) in enumerate(corpus):
            if pos % self.num != self.idx:
                continue
            self.evaluations += 1
            self.per_sub["corpus"] += 1
            try:
                self.evaluate(subs[sub_name], case)
            except Exception as exc:
                self.write(
                    "violation", {"sub": sub_name, "case": case, **describe(exc)}
                )
                return 1
        for sub in self.mod.SUBS:
            failure = self.run_sub(sub)
            if failure is not None:
                self.write("violation", failure)
                return 1
        self.write("ok")
        return 0


def load_corpus(here, prop):
    path = os.path.join(here, "corpus", f"{prop}.jsonl")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [(e["sub"], e["case"]) for e in map(json.loads, filter(str.strip, f))]


def load_findings(here, prop):
    """Known findings of genuine defects that are recorded rather than fixed.

    Lines "finding: property=<id> sub=<name> case=<json> what=<text>"; lines
    "fixed: ..." are a record only and suppress nothing.
    """
    findings = []
    path = os.path.join(here, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"finding: property={prop} "):
                sub = line.split(" sub=")[1].split(" ")[0]
                case, what = line.split(" case=")[1].rstrip("\n").split(" what=")
                findings.append((sub, json.loads(case), what))
    return findings


def clip(value, limit=1500):
    text = canon(value)
    return value if len(text) <= limit else text[:limit] + "..."


def run(argv, here, scratch):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", choices=["quick", "thorough"])
    parser.add_argument("--replay")
    parser.add_argument("--sub", help="only this sub-check (no evidence is written)")
    parser.add_argument("--scale", type=float, default=1, help="scale case counts")
    args = parser.parse_args(argv)
    out = os.environ.get("MEDIL_VERIF_OUT", here)
    prop = args.property
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    started = time.time()

    os.chdir(scratch)
    sys.meta_path.insert(0, FreshFinder())
    # import the code under test; if it can't be imported, nothing was checked
    try:
        with quiet():
            import torch

            torch.set_num_threads(1)
            import medil

            assert medil.__file__.startswith(REPO + "/")
            mod = importlib.import_module(f"props.{prop.lower()}")
    except BaseException:
        traceback.print_exc()
        print(f"ERROR property={prop}: cannot import the code under test or the check")
        return 2

    import hypothesis.internal.conjecture.engine as engine

    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 45

    subs = {sub.name: sub for sub in mod.SUBS}
    assert len(subs) == len(mod.SUBS)

    if args.replay:
        with open(os.path.join(here, args.replay)) as f:
            replay = json.load(f)
        shard = Shard(prop, mod, tier, seed, 0, 1, scratch, started)
        try:
            shard.evaluate(subs[replay["sub"]], replay["case"])
        except Exception as exc:
            print(json.dumps(describe(exc), indent=1))
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print(f"property={prop}: the replayed case passes")
        return 0

    if args.sub:
        mod.SUBS = [subs[name] for name in args.sub.split(",")]
    for sub in mod.SUBS:
        sub.counts = {t: max(1, int(c * args.scale)) for t, c in sub.counts.items()}

    # known findings: still failing?
    known = []
    for sub_name, case, what in load_findings(here, prop):
        shard = Shard(prop, mod, tier, seed, 0, 1, scratch, started)
        try:
            shard.evaluate(subs[sub_name], case, count=False)
        except Exception:
            known.append((sub_name, canon(case)))
            print(f"KNOWN-FINDING: property={prop} {what}")

    corpus = [] if args.sub else load_corpus(here, prop)
    num = SHARDS[tier]
    pids = {}
    sys.stdout.flush()
    for idx in range(num):
        pid = os.fork()
        if pid == 0:
            code = 2
            try:
                os.setsid()
                shard = Shard(prop, mod, tier, seed, idx, num, scratch, started)
                work = os.path.join(scratch, f"work{idx}")
                os.mkdir(work)
                os.chdir(work)
                try:
                    code = shard.run(corpus)
                except BaseException as exc:
                    shard.write("error", error=traceback.format_exc()[-4000:])
            finally:
                os._exit(code)
        pids[pid] = idx

    results = {}
    limit = started + BUDGET[tier] + CASE_WALL_LIMIT
    stopping = False
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > limit:
                stopping = True
                for p in pids:
                    kill_group(p)
            time.sleep(0.02)
            continue
        if pid not in pids:
            continue
        idx = pids.pop(pid)
        kill_group(pid)
        path = os.path.join(scratch, f"shard{idx}.json")
        if os.path.exists(path):
            with open(path) as f:
                results[idx] = json.load(f)
        else:
            results[idx] = {"status": "killed" if stopping else "error",
                            "error": f"shard ended with status {status}"}
        if results[idx]["status"] != "ok" and not stopping:
            stopping = True
            for p in pids:
                kill_group(p)

    done = [r for r in results.values() if "evaluations" in r]
    evaluations = sum(r["evaluations"] for r in done)
    nontrivial = set().union(*(r["nontrivial"] for r in done)) if done else set()
    labels, per_sub = collections.Counter(), collections.Counter()
    samples = []
    for r in done:
        labels.update(r["labels"])
        per_sub.update(r["per_sub"])
    for sub in mod.SUBS:
        for r in done:
            got = r["samples"].get(sub.name, [])
            if got:
                samples.append({"sub": sub.name, "case": clip(got[-1])})
                break
    truncated = sum(r["truncated"] for r in done)
    violation = next((r for r in results.values() if r["status"] == "violation"), None)
    error = next((r for r in results.values() if r["status"] == "error"), None)

    if not args.sub:
        evidence = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(nontrivial),
                "rule": mod.RULE,
                "samples": samples,
                "cases_per_subcheck": dict(sorted(per_sub.items())),
                "labels": dict(sorted(labels.items())),
                "not_run_for_time": truncated,
                "shards": num,
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - started, 2),
            "violations": int(violation is not None),
        }
        os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
        with open(os.path.join(out, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    if violation is not None:
        failure = violation["failure"]
        text = canon(failure["case"])
        os.makedirs(os.path.join(out, "replays"), exist_ok=True)
        path = f"replays/{prop}-{digest(failure['sub'] + text)}.json"
        with open(os.path.join(out, path), "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, **failure}, f, indent=1)
            f.write("\n")
        if (failure["sub"], text) not in known:
            print(f"sub-check {failure['sub']}: {failure['error']}")
            for frame in failure["frames"]:
                print(f"  at {frame}")
            print(f"  case: {text[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    if error is not None:
        print(error["error"])
        print(f"ERROR property={prop}: the check itself failed")
        return 2
    if not done:
        print(f"ERROR property={prop}: no answer")
        return 2
    if args.sub:
        for label, num_cases in sorted(labels.items()):
            print(f"  {label}: {num_cases}")
    print(
        f"property={prop} tier={tier} seed={seed}: held on {evaluations} cases "
        f"({len(nontrivial)} distinct and non-trivial) in {time.time() - started:.1f} s"
    )
    return 0


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
