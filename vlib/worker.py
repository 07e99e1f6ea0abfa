"""Worker process: python -m vlib.worker MODULE FUNC ARGS_JSON OUT"""
import importlib
import json
import os
import sys
import traceback
import warnings


class Recorder:
    """Collects counts, samples and failures of one task."""

    LIMIT = 8

    def __init__(self, out):
        self.out = out
        self.counts, self.samples, self.failures, self.notes = {}, [], [], []
        self.failed = 0
        self.seen = set()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.numba = os.environ.get("NPP_USE_NUMBA", "TRUE") == "TRUE"
        self.scratch = os.environ["VERIF_SCRATCH"]
        self.farm = os.environ["VERIF_FARM"]

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def state(self, *key):
        """one explored state or input; equal ones count once"""
        self.seen.add(hash(key))

    def sample(self, value):
        if len(self.samples) < 4:
            self.samples.append(value)

    def note(self, text):
        self.notes.append(text)

    def progress(self, text):
        with open(self.out + ".progress", "w") as f:
            f.write(str(text))

    def fail(self, key, message, case=None, code=None):
        self.failed += 1
        if len(self.failures) < self.LIMIT:
            self.failures.append({"key": key, "message": message, "case": plain(case), "code": code})

    def full(self):
        return len(self.failures) >= self.LIMIT

    def write(self):
        if self.seen:
            self.count("states", len(self.seen))
            self.seen = set()
        with open(self.out + ".tmp", "w") as f:
            json.dump({"counts": self.counts, "samples": plain(self.samples),
                       "failures": self.failures, "notes": self.notes}, f)
        os.replace(self.out + ".tmp", self.out)


def plain(value):
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if isinstance(value, (str, bool, type(None), float)):
        return value
    if isinstance(value, int):
        return int(value)
    try:
        return value.item()
    except Exception:
        try:
            return [plain(v) for v in value]
        except TypeError:
            return repr(value)


def main():
    module, func, args, out = sys.argv[1:5]
    warnings.simplefilter("ignore")
    rec = Recorder(out)
    try:
        mod = importlib.import_module(module)
        getattr(mod, func)(rec, **json.loads(args))
    except Exception:
        # the harness uses only documented operations in their documented domain, so an exception
        # that no harness handles is the code under test refusing or failing such an operation
        text = traceback.format_exc()
        progress = ""
        try:
            with open(out + ".progress") as f:
                progress = f.read()
        except OSError:
            pass
        rec.fail(f"{func}:exception", f"exception while exploring {progress!r}: {text[-1200:]}",
                 {"progress": progress, "traceback": text})
    rec.write()
    sys.stdout.flush()
    os._exit(0)


main()
