"""C13: compiled and uncompiled modes return the same results for all argument types."""
import json
import os
import subprocess
import sys
from vlib import machines
from vlib.core import Task

LEVEL = "model_checking"
RULE = ("every public operation is run, in both modes, on every listed argument value spelled as a plain integer, as the declared type and as every narrower "
        "unsigned type wide enough; the outcome (returned value and the following draws of the object, or the exception) must be one and the same for all "
        "spellings and both modes; a state is an operation with numeric arguments, a transition one run of it")
ASSUMPTIONS = ["outcomes are compared by numeric value, not by type", "plain integers stay below 2^63 (the compiler refuses larger ones)",
               "the values themselves are judged by the other checks; this one judges agreement"]
SECTIONS = machines.NAMES + ["lists", "util", "hash", "state", "wild0", "wild1", "areas"]


def bounds(tier):
    return ("all constructors, re-initialisations, draws, bounded draws, advances, jumps and prepared jumps and draws of the 16 generator classes at their boundary arguments; "
            "12 list configurations; bit, hex, hash and PID helpers; SHA-1 parameters; generated states, reports, slot and level selection, wild generation; all encounter tables")


def tasks(tier):
    slow = ["wild1", "state", "wild0", "lists", "areas"]
    order = slow + [s for s in SECTIONS if s not in slow]
    return [Task("compare", "numpy", timeout=3000, section=s) for s in order]


def compare(R, section):
    outs = {}
    procs = {}
    for mode, flag in (("compiled", "TRUE"), ("uncompiled", "FALSE")):
        outs[mode] = os.path.join(R.scratch, f"{mode}.json")
        env = dict(os.environ, NPP_USE_NUMBA=flag, XDG_CACHE_HOME=os.path.join(R.scratch, "cache-" + mode))
        with open(os.path.join(R.scratch, mode + ".log"), "w") as log:
            procs[mode] = subprocess.Popen([sys.executable, "-m", "checks._transcript", section, outs[mode]], env=env, stdout=log, stderr=log)
    data = {}
    for mode, p in procs.items():
        rc = p.wait()
        try:
            with open(outs[mode]) as f:
                got = json.load(f)
        except (OSError, ValueError):
            with open(os.path.join(R.scratch, mode + ".log"), errors="replace") as f:
                R.fail(f"{section}:crash", f"{section}: the {mode} run ended with {rc}: {f.read()[-1500:]}", {})
            return
        data[mode] = got["data"]
        R.count("transitions", got["runs"])
    keys = set(data["compiled"]) | set(data["uncompiled"])
    R.count("states", len(keys))
    R.count("traces_validated_against_impl", sum(len(labels) for d in data.values() for outcomes in d.values() for labels in outcomes.values()))
    for key in sorted(keys):
        outcomes = {}
        for mode in data:
            for outcome, labels in data[mode].get(key, {"missing": ["all"]}).items():
                outcomes.setdefault(outcome, []).append(f"{mode}: {', '.join(labels)}")
        bad = len(outcomes) != 1 or next(iter(outcomes)).startswith('"raises')
        if bad:
            text = "; ".join(f"{o[:160]} ({' | '.join(w)})" for o, w in outcomes.items())
            R.fail(f"{section}:{key.split(' ')[0]}", f"{section}: {key} differs between modes or argument types: {text}", {"operation": key, "outcomes": outcomes})
    R.sample({"section": section, "operations": len(keys)})
