"""C22: the encounter cache survives crashes and concurrent imports."""
import hashlib
import json
import os
import shutil
import sys
from vlib.core import Task

LEVEL = "model_checking"
RULE = ("the package's own code runs under a controller that stops it at every file operation in the cache directory; a state is one content of the cache directory together with the progress of "
        "every process, a transition one file operation (or its failure, or the end of the process at it); a schedule is one complete execution, after which the package is used again "
        "and its tables are compared with those computed without a cache")
ASSUMPTIONS = ["an interruption ends the process between two file operations or in the middle of a write; what a completed operation did is not undone later",
               "earlier versions of the package wrote entries in place, so an entry may also be found cut to any length",
               "a run which itself meets a failing file operation may report it; every other run and every later run must work",
               "schedules which differ only in the order of operations on different files are explored once"]
TECHNIQUE = "stateless model checking of the implementation: exhaustive schedules, crash points, torn writes and I/O errors under an interposing controller, with sleep sets"


def bounds(tier):
    t = tier == "thorough"
    return ("cache helper on real tables: two processes and two threads, all interleavings of their file operations from every starting content (none, valid, cut short, leftovers), with up to "
            + ("two crashes" if t else "one crash") + " at any operation or after any of 3 prefixes of a write; every operation failing with each of 5 errors or writing short; the entry cut to "
            "every length; " + ("three processes all interleavings; all interleavings of two without reduction; " if t else "") +
            "whole import: process ended at every operation and within every write" + (" (16 prefixes)" if t else " (2 prefixes)") + ", used again in the same mode (uncompiled) or both; "
            "two whole imports, one switching to the other and back at every changing operation")


def tasks(tier):
    t = tier == "thorough"
    kinds = ("gen3", "la")
    found = [Task("toy", "numpy", timeout=3000, scenario="cuts", kind=k, part=i, parts=4 if t else 1) for k in kinds for i in range(4 if t else 1)]
    found += [Task("toy", "numpy", timeout=3000, scenario="errors", kind=k) for k in kinds]
    found += [Task("toy", "numpy", timeout=3000, scenario="pairs", kind=k, start=s) for k in kinds for s in ("none", "valid", "cut", "leftover")]
    found += [Task("toy", "numpy", timeout=3000, scenario="threads", kind=k, start=s) for k in kinds for s in ("none", "cut")]
    found += [Task("toy", "numba", timeout=3000, scenario="cuts", kind="la"), Task("toy", "numba", timeout=3000, scenario="pairs", kind="la", start="none")]
    found += [Task("whole", "numpy", timeout=3000, scenario="crashes", part=i, parts=3) for i in range(3)]
    found += [Task("whole", "numpy", timeout=3000, scenario="switches", part=i, parts=4) for i in range(4)]
    found += [Task("whole", "numba", timeout=3000, scenario="crashes", part=i, parts=4 if t else 2) for i in range(4 if t else 2)]
    if t:
        found += [Task("toy", "numpy", timeout=3000, scenario="reduction", kind="gen3")]
        found += [Task("toy", "numpy", timeout=3000, scenario="triples", kind="gen3", start=s) for s in ("none", "cut")]
        found += [Task("whole", "numba", timeout=3000, scenario="switches", part=i, parts=4) for i in range(4)]
    return found


def preload(R):
    """continues under the interposer"""
    from vlib import fsched
    if "VP_LIB" in os.environ:
        return fsched, os.environ["VP_LIB"]
    lib = fsched.library(R.scratch)
    env = dict(os.environ, LD_PRELOAD=lib, VP_LIB=lib)
    os.execve(sys.executable, [sys.executable, "-m", "vlib.worker"] + sys.argv[1:], env)


# ---- the cache helper on real tables
def plain_gen3(value):
    names, table = value
    return hashlib.sha1(repr((tuple(names), table.tobytes(), str(table.dtype), len(table))).encode()).hexdigest()


def plain_la(value):
    import numpy as np
    rows = []
    for key in value.keys():
        area = value[np.uint64(key)]
        rows.append((int(key), int(area.table_id), area.slots.tobytes(), str(area.slots.dtype.descr)))
    return hashlib.sha1(repr(sorted(rows)).encode()).hexdigest()


class Toy:
    def __init__(self, R, kind):
        from numba_pokemon_prngs.data import encounter as E
        from numba_pokemon_prngs.enums import Game, LAArea
        self.root = os.path.join(R.scratch, "shared")
        self.kind = kind
        # the helper is not public: where it has another shape, only whole imports are explored
        self.helper = getattr(E, "pickle_cached", None)
        codec = [getattr(E, f"encounter_tables_la_{k}", None) for k in ("encode", "decode")]
        try:
            self.helper("toy_{}.pkl", **({} if kind == "gen3" else {"encode": codec[0], "decode": codec[1]}))(lambda _number: None)
            self.ok = kind == "gen3" or all(codec)
        except TypeError:
            self.ok = False
        if not self.ok:
            R.note("there is no cache helper to explore on its own")
            return
        if kind == "gen3":
            self.value = (E.MAP_NAMES_GEN3[Game.RUBY], E.ENCOUNTER_INFORMATION_GEN3[Game.RUBY])
            self.options, self.plain = {}, plain_gen3
        else:
            self.value = E.ENCOUNTER_INFORMATION_LA[LAArea.COBALT_COASTLANDS]
            self.options = {"encode": codec[0], "decode": codec[1]}
            self.plain = plain_la
        self.right = self.plain(self.value)
        self.computed = 0

    def use(self, times=1):
        """what a process does: get the tables through the cache"""
        os.environ["XDG_CACHE_HOME"] = self.root

        def compute(_number):
            self.computed += 1
            return self.value
        wrapped = self.helper("toy_{}.pkl", **self.options)(compute)
        return [self.plain(wrapped(7)) == self.right for _ in range(times)]

    def later(self):
        """a later process: None, or what is wrong"""
        read, write = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    text = "" if all(self.use(2)) else "a later use gets other tables"
                except BaseException as e:
                    text = f"a later use fails: {type(e).__name__}: {e}"
                os.write(write, text.encode()[:4000])
            finally:
                os._exit(0)
        os.close(write)
        text = b""
        while True:
            got = os.read(read, 4096)
            if not got:
                break
            text += got
        os.close(read)
        os.waitpid(pid, 0)
        return text.decode()

    def recording(self, fsched, lib, files):
        """images of the directory before every operation of one undisturbed run, and (operation, image) pairs"""
        fsched.refresh(self.root, files)
        run, found = fsched.Run(lib, self.root, [self.use]), []
        try:
            while run.enabled():
                p = run.procs[0]
                found.append((str(p.op), p.op, fsched.snapshot(self.root, True)[1]))
                run.act(p)
            found.append(("end", None, fsched.snapshot(self.root, True)[1]))
            return found, run.procs[0].result
        finally:
            run.close()


def toy(R, scenario, kind, start="none", part=0, parts=1):
    fsched, lib = preload(R)
    toy = Toy(R, kind)
    if not toy.ok:
        return
    recorded, result = toy.recording(fsched, lib, {})
    if result != ("ok", [True]):
        R.fail(f"{kind}:undisturbed", f"an undisturbed run gives {result}", {"result": result}, None)
        return
    R.sample({"kind": kind, "operations of one run": [name for name, _op, _image in recorded]})
    full = recorded[-1][2]
    entries = [f for f in full if f.endswith("toy_7.pkl")]
    if entries:
        entry = entries[0]
    else:
        R.note("the helper leaves no entry of the expected name")
        entry = None
    if scenario == "reduction":
        return reduction(R, toy, fsched, lib)
    if scenario == "cuts":
        return cuts(R, toy, fsched, full, entry, part, parts)
    if scenario == "errors":
        return errors(R, toy, fsched, lib, full, entry)
    starts = {"none": [{}], "valid": [full], "cut": [], "leftover": []}
    if entry:
        size = len(full[entry])
        starts["cut"] = [{**full, entry: full[entry][:n]} for n in ((0, 1, size // 2, size - 1) if R.thorough else (0, size // 2))]
    images = {}
    for name, op, image in recorded[:-1]:
        if image:
            images[json.dumps({k: hashlib.sha1(v).hexdigest() for k, v in sorted(image.items())})] = image
    starts["leftover"] = [i for i in images.values() if i != full][:None if R.thorough else 2]
    count = 3 if scenario == "triples" else 2
    crashes = 0 if scenario in ("threads", "triples") else 2 if R.thorough and kind == "gen3" else 1
    stats, judged = fsched.Stats(), set()
    if R.numba:
        crashes = 0

    def faults(op):
        if not (op.changes or R.thorough):
            return []
        found = ["c"]
        if op.kind == "write":
            found += [f"t {n}" for n in sorted({1, op.size // 2, op.size - 1}) if 0 < n < op.size]
        return found

    for files in starts[start]:
        def make():
            fsched.refresh(toy.root, files)
            R.progress(f"{scenario} {kind} {start} schedule {stats.schedules}")
            return fsched.Run(lib, toy.root, [toy.use] * count, threads=scenario == "threads")

        def finished(run):
            what = "threads" if scenario == "threads" else "processes"
            case = {"start": {k: len(v) for k, v in files.items()}, "schedule": run.trace}
            for p in run.procs:
                if not p.crashed and p.result != ("ok", [True]):
                    R.fail(f"{kind}:{scenario}", f"{what} sharing a cache directory (starting content: {start}), schedule {run.trace}: one of them gives {p.result}", case, None)
            digest = fsched.snapshot(run.root)
            if digest not in judged:
                judged.add(digest)
                wrong = toy.later()
                if wrong:
                    R.fail(f"{kind}:{scenario}:later", f"after {what} sharing a cache directory (starting content: {start}), schedule {run.trace}: {wrong}", case, None)

        if not R.full():
            fsched.explore(make, faults, finished, stats, crashes=crashes, stop=R.full)
    R.count("states", len(stats.states))
    R.count("transitions", stats.transitions)
    R.count("traces_validated_against_impl", stats.schedules)
    R.count("schedules_pruned", stats.pruned)
    R.count("later_uses", len(judged))


def reduction(R, toy, fsched, lib):
    """every interleaving of two processes without any reduction: the reduced exploration misses no final content"""
    ends, stats = {}, {}
    for sleep in (True, False):
        seen, st = set(), fsched.Stats()

        def make():
            fsched.refresh(toy.root, {})
            R.progress(f"{'reduced' if sleep else 'full'} {st.schedules}")
            return fsched.Run(lib, toy.root, [toy.use] * 2)

        def finished(run):
            seen.add((fsched.snapshot(run.root), repr(sorted((p.index, p.result) for p in run.procs))))

        fsched.explore(make, lambda op: [], finished, st, sleep=sleep)
        ends[sleep], stats[sleep] = seen, st
    if ends[True] != ends[False] or any(e for e in ends[False] if "raised" in e[1] or "False" in e[1]):
        R.fail("reduction", f"all interleavings end in {len(ends[False])} ways, the reduced exploration in {len(ends[True])}: {ends}", None, None)
    R.note(f"{stats[False].schedules} interleavings in full, {stats[True].schedules} after reduction, {len(ends[False])} final outcome(s)")
    R.count("states", len(stats[False].states))
    R.count("transitions", stats[False].transitions)
    R.count("traces_validated_against_impl", stats[False].schedules)


def cuts(R, toy, fsched, full, entry, part, parts):
    """the entry cut to every length, read by a later use"""
    if not entry:
        return
    data, n = full[entry], 0
    path = os.path.join(toy.root, entry)
    fsched.refresh(toy.root, full)
    lengths = range(len(data) + 1) if toy.kind == "gen3" or R.thorough else sorted(set(range(0, len(data) + 1, 37)) | set(range(min(400, len(data)))) | set(range(max(0, len(data) - 400), len(data) + 1)))
    if R.numba:
        lengths = list(lengths)[::len(lengths) // 60]
    for length in lengths[part::parts]:
        if length % 64 < parts:
            R.progress(f"entry cut to {length} of {len(data)}")
        with open(path, "wb") as f:
            f.write(data[:length])
        n += 1
        toy.computed = 0
        try:
            right = toy.use(1) == [True]
            wrong = "" if right else "other tables"
        except Exception as e:
            wrong = f"{type(e).__name__}: {e}"
        if wrong:
            R.fail(f"{toy.kind}:cut", f"a cache entry of {len(data)} bytes cut to {length}: a later use gives {wrong}", {"length": length}, None)
            if R.full():
                break
    R.count("states", n)
    R.count("transitions", n)
    R.count("traces_validated_against_impl", n)


def errors(R, toy, fsched, lib, full, entry):
    """every operation of a run failing with every error, alone or with all that follow it; short writes and reads"""
    import errno
    codes = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EMFILE]
    starts = [{}, full] + ([{**full, entry: full[entry][:len(full[entry]) // 2]}] if entry else [])
    states, transitions, runs, judged = set(), 0, 0, set()
    for files in starts:
        at = 0
        while True:
            reached = False
            for action in [f"e {c}" for c in codes] + [f"E {c}" for c in codes] + ["s 1", "s 100"]:
                fsched.refresh(toy.root, files)
                run = fsched.Run(lib, toy.root, [toy.use])
                try:
                    hit = False
                    while run.enabled():
                        p = run.procs[0]
                        states.add((fsched.snapshot(toy.root), p.steps, hit and action))
                        here = p.steps == at or action[0] == "E" and p.steps > at
                        if here and action[0] == "s" and p.op.kind not in ("read", "write"):
                            here = False
                        # a failing look at a file only says that it is not there; a failing read is not a write error
                        do = action.lower() if here else "g"
                        hit = hit or here
                        reached = reached or p.steps >= at
                        run.act(p, do)
                        transitions += 1
                    runs += 1
                    result, case = run.procs[0].result, {"trace": run.trace}
                    if result != ("ok", [True]) and (result[0] != "raised" or not hit or action[0] == "s"):
                        R.fail(f"{toy.kind}:error", f"a run whose operation {at} meets {action}: {result}; {run.trace}", case, None)
                    digest = fsched.snapshot(toy.root)
                    if digest not in judged:
                        judged.add(digest)
                        wrong = toy.later()
                        if wrong:
                            R.fail(f"{toy.kind}:error:later", f"after a run whose operation {at} met {action}: {wrong}; {run.trace}", case, None)
                finally:
                    run.close()
                if R.full():
                    return
            if not reached:
                break
            at += 1
    R.count("states", len(states))
    R.count("transitions", transitions)
    R.count("traces_validated_against_impl", runs)
    R.count("later_uses", len(judged))


# ---- the whole import
def whole_use():
    """imports the encounter data afresh; a digest of everything it holds"""
    from vlib import encdump
    return hashlib.sha1(json.dumps([encdump.gen3(), {k: sorted(v) if isinstance(v, list) else v for k, v in encdump.la().items()}], sort_keys=True).encode()).hexdigest()


def whole(R, scenario, part, parts):
    fsched, lib = preload(R)
    import numba_pokemon_prngs.compilation    # noqa: the children start with the libraries loaded
    import numba_pokemon_prngs.enums
    import flatbuffers
    import platformdirs
    root = os.path.join(R.scratch, "shared")
    os.environ["XDG_CACHE_HOME"] = root
    states, transitions, runs = set(), 0, 0

    def run_one(bodies):
        return fsched.Run(lib, root, bodies, timeout=200)

    # one undisturbed run: the image of the directory before every operation
    fsched.refresh(root, {})
    run, images = run_one([whole_use]), []
    try:
        while run.enabled():
            p = run.procs[0]
            images.append((str(p.op), p.op, fsched.snapshot(root, True)))
            run.act(p)
            transitions += 1
        images.append(("end", None, fsched.snapshot(root, True)))
        outcome = run.procs[0].result
    finally:
        run.close()
    if outcome[0] != "ok":
        R.fail("whole:undisturbed", f"an undisturbed import gives {outcome}", None, None)
        return
    right = outcome[1]
    R.note(f"{len(images) - 1} file operations of one import, {sum(1 for _n, op, _i in images if op is not None and op.changes)} of them changing the cache")

    def later(label, files, mode=None):
        """imports again from this content, in this or the other mode"""
        nonlocal runs
        fsched.refresh(root, files)
        R.progress(label)
        runs += 1
        run = run_one([whole_use])
        try:
            nonlocal transitions
            while run.enabled():
                run.act(run.procs[0])
                transitions += 1
            result = run.procs[0].result
        finally:
            run.close()
        if result != ("ok", right):
            R.fail("whole:later", f"{label}: importing again gives {result if result[0] != 'ok' else 'other tables'}", {"label": label, "files": {k: len(v) for k, v in files.items()}}, None)

    if scenario == "crashes":
        cases, seen = [], set()
        for at, (name, op, (digest, files)) in enumerate(images):
            if digest not in seen:
                seen.add(digest)
                cases.append((f"ended before operation {at} ({name})", files))
            if op is not None and op.kind == "write":
                after = images[at + 1][2][1]
                grown = [f for f in after if files.get(f) != after[f]]
                for f in grown:
                    base, size = len(files.get(f, b"")), op.size
                    count = 16 if R.thorough else 2
                    for n in sorted({max(1, size * (i + 1) // (count + 1)) for i in range(count)}):
                        cases.append((f"ended after {n} of {size} bytes of operation {at} ({name})", {**files, f: after[f][:base + n]}))
            states.add(digest)
        # entries cut short, one at a time
        final = images[-1][2][1]
        for f, data in final.items():
            for n in (0, len(data) // 3, len(data) - 1):
                cases.append((f"entry {f} cut to {n} bytes", {**final, f: data[:n]}))
        chosen = [c for i, c in enumerate(cases) if i % parts == part]
        if R.numba and not R.thorough:
            chosen = chosen[(R.seed + part) % 7::7]
        for label, files in chosen:
            states.add(hashlib.sha1(repr(sorted((k, hashlib.sha1(v).hexdigest()) for k, v in files.items())).encode()).hexdigest())
            later(label, files)
            if R.full():
                break
        if not chosen:
            return
        R.sample({"interruptions": [c[0] for c in chosen[:6]]})
        # what the other mode makes of a directory this mode was interrupted in
        if part == 0:
            from vlib import encdump
            other = "numpy" if R.numba else "numba"
            for label, files in (("complete", final), ("cut", {f: d[:len(d) // 2] for f, d in final.items()}), ("half filled", images[len(images) // 2][2][1])):
                fsched.refresh(root, files)
                found = encdump.load("both", other, root, os.path.join(R.scratch, "out.json"), extra={"LD_PRELOAD": ""})
                runs += 1
                if isinstance(found, str) or hashlib.sha1(json.dumps([found["gen3"], {k: sorted(v) if isinstance(v, list) else v for k, v in found["la"].items()}], sort_keys=True).encode()).hexdigest() != right:
                    R.fail(f"whole:other:{label}", f"a {label} cache of the {'compiled' if R.numba else 'uncompiled'} mode, used by the other one: {found if isinstance(found, str) else 'other tables'}", {"label": label}, None)
    else:
        # one import stops at an operation, a second one runs (to its end, or to an operation of its own), the first goes on
        changing = [i for i, (_n, op, _i) in enumerate(images) if op is not None and (op.changes or R.thorough)]
        count = 0
        for at in changing:
            count += 1
            if count % parts != part:
                continue
            fsched.refresh(root, {})
            R.progress(f"switch at operation {at} ({images[at][0]})")
            run = run_one([whole_use, whole_use])
            try:
                first, second = run.procs
                while first.op is not None and first.steps < at:
                    run.act(first)
                # the second follows to the same operation, then both alternate
                mode = count // parts % 3
                while second.op is not None and (mode == 0 or second.steps < at + mode - 1):
                    run.act(second)
                turn = 0
                while run.enabled():
                    waiting = run.enabled()
                    run.act(waiting[0] if mode != 2 else waiting[turn % len(waiting)])
                    turn += 1
                    states.add((fsched.snapshot(root), first.steps, second.steps))
                transitions += len(run.trace)
                runs += 1
                for p in run.procs:
                    if p.result != ("ok", right):
                        R.fail("whole:switch", f"two imports, the first one stopped at operation {at} ({images[at][0]}): one gives {p.result if p.result[0] != 'ok' else 'other tables'}", {"at": at, "trace": run.trace[-40:]}, None)
            finally:
                run.close()
            if R.full():
                return
        later("after the two imports", fsched.snapshot(root, True)[1])
    R.count("states", len(states))
    R.count("transitions", transitions)
    R.count("traces_validated_against_impl", runs)
    shutil.rmtree(root, ignore_errors=True)
