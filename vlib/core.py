"""Runs the tasks of a check in worker processes, collects their results, writes the evidence file."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import farm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
MODES = {"numba": "TRUE", "numpy": "FALSE"}


class Task:
    """One worker process: `func` of the check module, called with a Recorder and `args`."""

    def __init__(self, func, mode, cpus=1, timeout=600, env=None, **args):
        self.func, self.mode, self.cpus, self.timeout = func, mode, cpus, timeout
        self.args, self.env = args, env or {}

    @property
    def name(self):
        extra = ",".join(f"{k}={v}" for k, v in self.args.items())
        return f"{self.func}[{self.mode}{',' + extra if extra else ''}]"


def worker_env(farm_dir, scratch, mode, extra=None):
    env = {
        "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        "HOME": os.path.join(scratch, "home"),
        "LANG": "C.UTF-8",
        "PYTHONPATH": farm_dir + ":" + VERIF,
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "PYTHONWARNINGS": "ignore",
        "NPP_USE_NUMBA": MODES.get(mode, mode),
        "XDG_CACHE_HOME": os.path.join(scratch, "cache-" + mode),
        "TMPDIR": scratch,
        "NUMBA_NUM_THREADS": "8",
        "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1",
        "VERIF_FARM": farm_dir,
        "VERIF_SCRATCH": scratch,
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
    }
    env.update(extra or {})
    return env


def kill_group(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


class Runner:
    def __init__(self, cid, tier, seed):
        self.cid, self.tier, self.seed = cid, tier, seed
        self.scratch = tempfile.mkdtemp(prefix=f"vp-{cid}-")
        os.makedirs(os.path.join(self.scratch, "home"))
        self.farm = farm.build(os.path.join(self.scratch, "farm"))
        self.lock = threading.Condition()
        self.free = 8
        self.first, self.found, self.running = False, False, set()
        # a quick check that meets an endless loop still answers
        self.deadline = time.time() + (780 if tier == "quick" else 10 ** 6)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def run_task(self, module, task, number):
        with self.lock:
            self.lock.wait_for(lambda: self.free >= min(task.cpus, 8))
            self.free -= min(task.cpus, 8)
            if self.found:
                self.free += min(task.cpus, 8)
                self.lock.notify_all()
                return {"failures": [], "counts": {}, "samples": [], "notes": ["not run"], "task": task.name, "mode": task.mode, "wall_s": 0}
        out = os.path.join(self.scratch, f"task{number}.json")
        log = os.path.join(self.scratch, f"task{number}.log")
        start, result = time.time(), None
        try:
            # every task has its own scratch folder and cache unless it asks otherwise
            own = os.path.join(self.scratch, f"t{number}")
            os.makedirs(os.path.join(own, "home"))
            env = worker_env(self.farm, own, task.mode, task.env)
            env["VERIF_TIER"], env["VERIF_SEED"] = self.tier, str(self.seed)
            with open(log, "wb") as logf:
                proc = subprocess.Popen(
                    [PYTHON, "-m", "vlib.worker", module, task.func, json.dumps(task.args), out],
                    cwd=self.scratch, env=env, stdin=subprocess.DEVNULL, stdout=logf,
                    stderr=subprocess.STDOUT, start_new_session=True,
                )
                try:
                    self.running.add(proc)
                    rc = proc.wait(max(1, min(task.timeout, self.deadline - time.time())))
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                finally:
                    self.running.discard(proc)
                    kill_group(proc)
                    proc.wait()
            try:
                with open(out) as f:
                    result = json.load(f)
            except (OSError, ValueError):
                result = None
            if result is None and rc == "timeout" and time.time() >= self.deadline:
                # still exploring new states when the time is up: a shorter exploration, no finding
                try:
                    fresh = time.time() - os.stat(out + ".progress").st_mtime < 60
                except OSError:
                    fresh = False
                if fresh:
                    result = {"failures": [], "counts": {}, "samples": [], "notes": [f"{task.name}: stopped when the time was up"]}
            if result is None and self.found:
                result = {"failures": [], "counts": {}, "samples": [], "notes": ["stopped"]}
            if result is None:
                progress = ""
                try:
                    with open(out + ".progress") as f:
                        progress = f.read()
                except OSError:
                    pass
                with open(log, errors="replace") as f:
                    tail = f.read()[-3000:]
                what = "did not finish in time" if rc == "timeout" else f"ended with {rc}"
                result = {
                    "failures": [{
                        "key": f"{task.func}:{'hang' if rc == 'timeout' else 'crash'}",
                        "message": f"{task.name} {what} while exploring {progress!r}",
                        "case": {"progress": progress, "log": tail}, "code": None,
                    }],
                    "counts": {}, "samples": [], "notes": [],
                }
            with open(log, errors="replace") as f:
                result["log"] = f.read()[-2000:]
        finally:
            with self.lock:
                if self.first and not self.found and result and result["failures"]:
                    self.found = True
                    for proc in list(self.running):
                        kill_group(proc)
                self.free += min(task.cpus, 8)
                self.lock.notify_all()
        result["task"], result["mode"] = task.name, task.mode
        result["wall_s"] = round(time.time() - start, 2)
        return result

    def run(self, module, tasks):
        results = [None] * len(tasks)

        def body(i):
            results[i] = self.run_task(module, tasks[i], i)

        threads = [threading.Thread(target=body, args=(i,)) for i in range(len(tasks))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return results


def known_findings(cid):
    """Lines `known: property=<id> key=<key> <what fails>` of the known findings file."""
    found = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                parts = line.strip().split(None, 3)
                if len(parts) >= 3 and parts[0] == "known:" and parts[1] == f"property={cid}":
                    found[parts[2][len("key="):]] = parts[3] if len(parts) > 3 else ""
    except OSError:
        pass
    return found


def main(cid, tier, seed, only=None, keep_log=False, first=False):
    start = time.time()
    module = f"checks.{cid.lower()}"
    check = importlib.import_module(module)
    runner = Runner(cid, tier, seed)
    runner.first = first
    try:
        tasks = check.tasks(tier)
        if only:
            tasks = [t for t in tasks if only in t.name]
        results = runner.run(module, tasks)
    finally:
        runner.close()
    counts, samples, notes, failures = {}, [], [], []
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        samples += r["samples"][:3]
        notes += r["notes"]
        for f in r["failures"]:
            f["task"], f["mode"] = r["task"], r["mode"]
            failures.append(f)
        if keep_log:
            print(f"-- {r['task']} {r['wall_s']}s {r['counts']}")
            if r.get("log"):
                print(r["log"])
    known = known_findings(cid)
    violations, seen_known = [], set()
    for f in failures:
        if f["key"] in known:
            seen_known.add(f["key"])
        else:
            violations.append(f)
    for key in known:
        # listed findings are reported whether or not this tier's exploration reached them
        print(f"KNOWN-FINDING: property={cid} {known[key]}")
    wall = time.time() - start
    coverage = {k: v for k, v in counts.items()}
    coverage["samples"] = samples[:12]
    coverage["rule"] = check.RULE
    coverage["bounds"] = check.bounds(tier) if hasattr(check, "bounds") else check.RULE
    coverage["tasks"] = [
        {"task": r["task"], "wall_s": r["wall_s"], **r["counts"]} for r in results
    ]
    if notes:
        coverage["notes"] = notes
    need = {
        "model_checking": ("states", "transitions", "traces_validated_against_impl"),
        "exploration": ("evaluations", "distinct_nontrivial"),
        "fault_enumeration": ("evaluations", "distinct_nontrivial"),
    }[check.LEVEL]
    for k in need:
        coverage.setdefault(k, 0)
    evidence = {
        "property": cid, "tier": tier, "seed": seed, "level": check.LEVEL,
        "coverage": coverage, "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{cid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{cid} {tier}: " + " ".join(f"{k}={v}" for k, v in counts.items()) + f" wall={wall:.1f}s")
    if not violations:
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for i, f in enumerate(violations[:10]):
        path = os.path.join(VERIF, "replays", f"{cid}-{i}.json")
        with open(path, "w") as out:
            json.dump({"property": cid, **f}, out, indent=1)
        print(f"  {f['task']}: {f['message']}"[:1500])
        print(f"VIOLATION property={cid} replay={path}")
    if len(violations) > 10:
        print(f"  ... {len(violations) - 10} more")
    return 1


def self_test():
    """the interpreter, the compiler and the package's mirror are usable"""
    runner = Runner("setup", "quick", 1)
    code = "import numpy, numba_pokemon_prngs.options as o; print(numpy.__version__, o.USE_NUMBA)"
    try:
        for mode in MODES:
            env = worker_env(runner.farm, runner.scratch, mode)
            rc = subprocess.call([PYTHON, "-c", code], env=env, cwd=runner.scratch)
            if rc:
                return rc
    finally:
        runner.close()
    return 0


def replay(path):
    """Runs the stand-alone program stored with a violation against /repo's current tree."""
    with open(path) as f:
        case = json.load(f)
    print(json.dumps({k: v for k, v in case.items() if k != "code"}, indent=1))
    if not case.get("code"):
        print("no stand-alone program is stored for this violation; rerun the check itself")
        return 2
    runner = Runner(case["property"], "quick", 1)
    try:
        env = worker_env(runner.farm, runner.scratch, case["mode"])
        print(case["code"])
        rc = subprocess.call([PYTHON, "-c", case["code"]], env=env, cwd=runner.scratch)
    finally:
        runner.close()
    print("reproduced" if rc else "not reproduced")
    return 1 if rc else 0
