"""Systematic exploration of processes (and threads) that share a directory.

Runs under LD_PRELOAD of native/fsched.c: every file operation below the shared directory stops until
the controller decides.  `Run` executes one schedule; `explore` enumerates all schedules depth first,
re-running from the start, with sleep sets (schedules which only exchange independent operations are
explored once).
"""
import ctypes
import hashlib
import os
import pickle
import select
import shutil
import signal
import subprocess
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
READS = {"stat", "read"}


def library(scratch):
    """builds the interposer"""
    path = os.path.join(scratch, "fsched.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", path, os.path.join(VERIF, "native", "fsched.c"), "-ldl"], check=True)
    return path


class Op:
    """an announced operation: kind, size, flags, paths; `touch` maps the objects it uses to 'r' or 'w'"""

    def __init__(self, line):
        kind, size, flags, path, other = line.rstrip("\n").split("\t")
        self.kind, self.size, self.flags, self.path, self.other = kind, int(size), int(flags), path, other
        self.touch = {}

    @property
    def writing(self):
        return self.kind == "open" and bool(self.flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))

    @property
    def changes(self):
        """whether it can change what another process sees"""
        return self.writing or self.kind in ("write", "rename", "link", "unlink", "mkdir", "truncate")

    def __str__(self):
        flag = "w" if self.writing else ""
        return self.kind + flag + " " + os.path.basename(self.path) + (" " + os.path.basename(self.other) if self.other else "")


def dependent(a, b):
    for obj, how in a.touch.items():
        if how == "w" and obj in b.touch or how == "r" and b.touch.get(obj) == "w":
            return True
    return False


class Proc:
    def __init__(self, index):
        self.index, self.op, self.done, self.crashed, self.steps = index, None, False, False, 0
        self.result, self.files, self.text = None, {}, b""


class Files:
    """which file each name stands for, to tell operations on the same file from others"""

    def __init__(self, root):
        self.root, self.names, self.fresh = root, {}, 0
        for base, dirs, files in os.walk(root):
            for f in files:
                self.names[os.path.join(base, f)] = self.new()

    def new(self):
        self.fresh += 1
        return self.fresh

    def touched(self, proc, op):
        name = ("name", op.path)
        here = self.names.get(op.path)
        if op.kind in ("read", "write", "sync", "close", "truncate"):
            ident = proc.files.get(op.path, here)
            if op.kind in ("close", "sync"):
                return {}
            return {("file", ident): "r" if op.kind == "read" else "w"}
        if op.kind == "open":
            found = {name: "w" if op.flags & os.O_CREAT and here is None else "r"}
            if here is not None:
                found["file", here] = "w" if op.flags & os.O_TRUNC else "r"
            return found
        if op.kind == "stat":
            found = {name: "r"}
            if here is not None:
                found["file", here] = "r"
            return found
        found = {name: "w"}
        if op.kind in ("rename", "link"):
            found["name", op.other] = "w"
        if op.kind == "mkdir" and os.path.isdir(op.path):
            found = {name: "r"}
        return found

    def executed(self, proc, op):
        if op.kind == "open":
            if op.path not in self.names and os.path.exists(op.path):
                self.names[op.path] = self.new()
            proc.files[op.path] = self.names.get(op.path)
        elif op.kind == "rename" and not os.path.lexists(op.path) and op.path in self.names:
            self.names[op.other] = self.names.pop(op.path)
        elif op.kind == "link" and op.path in self.names and os.path.lexists(op.other):
            self.names[op.other] = self.names[op.path]
        elif op.kind == "unlink" and not os.path.lexists(op.path):
            self.names.pop(op.path, None)


def snapshot(root, keep=False):
    """digest of the directory; temporary names count as what they hold only"""
    rows, contents = [], {}
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for d in dirs:
            rows.append(("d", os.path.relpath(os.path.join(base, d), root)))
        for f in sorted(files):
            path = os.path.join(base, f)
            with open(path, "rb") as handle:
                data = handle.read()
            rel = os.path.relpath(path, root)
            contents[rel] = data
            rows.append((rel if rel.endswith(".pkl") else os.path.dirname(rel) + "/temporary", hashlib.sha1(data).hexdigest()))
    digest = hashlib.sha1(repr(sorted(rows)).encode()).hexdigest()
    return (digest, contents) if keep else digest


class Run:
    """One execution of `bodies` (functions without arguments, results are pickled) below `root`."""

    def __init__(self, lib, root, bodies, threads=False, timeout=60):
        self.lib = ctypes.CDLL(lib)
        self.root, self.timeout = root, timeout
        self.lib.vp_prefix(os.fsencode(root))
        self.procs = [Proc(i) for i in range(len(bodies))]
        self.files = Files(root)
        self.pids, self.trace, self.threads = [], [], threads
        self.readers, self.writers, self.results = [], [], []
        ends = []
        for _ in bodies:
            a, b, c = os.pipe(), os.pipe(), os.pipe()
            self.readers.append(a[0])
            self.writers.append(b[1])
            self.results.append(c[0])
            ends.append((a[1], b[0], c[1]))
        mine = self.readers + self.writers + self.results

        def body(i, function):
            out, inn, res = ends[i]
            self.lib.vp_attach(out, inn)
            try:
                value = ("ok", function())
            except BaseException as e:
                value = ("raised", f"{type(e).__name__}: {e}")
            self.lib.vp_attach(-1, -1)
            data = pickle.dumps(value)
            while data:
                data = data[os.write(res, data):]
            os.close(res)
            os.close(out)

        groups = [list(range(len(bodies)))] if threads else [[i] for i in range(len(bodies))]
        for group in groups:
            pid = os.fork()
            if pid == 0:
                try:
                    for fd in mine:
                        os.close(fd)
                    for i, triple in enumerate(ends):
                        if i not in group:
                            for fd in triple:
                                os.close(fd)
                    if len(group) == 1:
                        body(group[0], bodies[group[0]])
                    else:
                        workers = [threading.Thread(target=body, args=(i, bodies[i])) for i in group]
                        for w in workers:
                            w.start()
                        for w in workers:
                            w.join()
                finally:
                    os._exit(0)
            self.pids.append(pid)
        for triple in ends:
            for fd in triple:
                os.close(fd)
        self.owner = {i: self.pids[g] for g, group in enumerate(groups) for i in group}
        for p in self.procs:
            self.wait(p)

    def wait(self, p):
        """until the process announces an operation or ends"""
        limit = time.time() + self.timeout
        line, open_, res = b"", True, self.results[p.index]
        while True:
            ready = select.select([self.readers[p.index]] + ([res] if open_ else []), [], [], max(0.0, limit - time.time()))[0]
            if not ready:
                p.op, p.done, p.result = None, True, ("hung", f"no answer within {self.timeout} s")
                return
            if res in ready:
                got = os.read(res, 1 << 16)
                p.text += got
                open_ = bool(got)
            if self.readers[p.index] in ready:
                got = os.read(self.readers[p.index], 1 << 14)
                if not got:
                    p.op, p.done = None, True
                    while open_:
                        got = os.read(res, 1 << 16)
                        p.text += got
                        open_ = bool(got)
                    if p.text:
                        p.result = pickle.loads(p.text)
                    elif not p.crashed:
                        p.result = ("died", "the process ended without a result")
                    return
                line += got
                if line.endswith(b"\n"):
                    p.op = Op(line.decode(errors="surrogateescape"))
                    p.op.touch = self.files.touched(p, p.op)
                    return

    def enabled(self):
        return [p for p in self.procs if p.op is not None]

    def act(self, p, action="g"):
        """lets the process execute its operation (or fail, or end), until its next one"""
        op = p.op
        self.trace.append((p.index, str(op), action))
        p.steps += 1
        if action[0] in "ct":
            p.crashed = True
        os.write(self.writers[p.index], action.encode() + b"\n")
        self.wait(p)
        self.files.executed(p, op)
        for q in self.procs:
            if q.op is not None:
                q.op.touch = self.files.touched(q, q.op)

    def close(self):
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        for fd in self.readers + self.writers + self.results:
            os.close(fd)


def refresh(root, files):
    """the shared directory with these contents and nothing else"""
    shutil.rmtree(root, ignore_errors=True)
    for rel, data in files.items():
        path = os.path.join(root, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)


class Stats:
    def __init__(self):
        self.states, self.transitions, self.schedules, self.pruned = set(), 0, 0, 0


def explore(make, faults, finished, stats, crashes=0, sleep=True, stop=lambda: False, part=None):
    """All schedules of the runs `make()` returns.

    faults(op): extra decisions ("c", "t N", "e N") tried besides "g", at most `crashes` per schedule
    finished(run): called at the end of each complete schedule
    part: (i, n) explores every n-th branch of the first few levels only
    """
    stack = []      # nodes: [choices left to explore after the current one, current, sleeping set]
    while not stop():
        run = make()
        depth, sleeping, used, complete = 0, {}, 0, True
        try:
            while True:
                procs = run.enabled()
                if not procs:
                    break
                if depth < len(stack):
                    node = stack[depth]
                else:
                    options = []
                    for p in procs:
                        if (p.index, "g") not in sleeping:
                            options.append((p.index, "g"))
                        if used < crashes:
                            options += [(p.index, a) for a in faults(p.op) if (p.index, a) not in sleeping]
                    if not options:
                        complete = False
                        break
                    node = [options, 0, dict(sleeping)]
                    stack.append(node)
                    state = (snapshot(run.root), tuple((p.steps, p.crashed, p.done) for p in run.procs))
                    stats.states.add(state)
                options, at, asleep = node
                index, action = options[at]
                p = run.procs[index]
                if sleep:
                    # what was explored before at this node sleeps until something dependent happens
                    zzz = dict(asleep)
                    for i, a in options[:at]:
                        zzz[i, a] = run.procs[i].op
                    sleeping = {key: op for key, op in zzz.items()
                                if key[0] != index and (action == "c" or key[1] == "c" or not dependent(op, p.op))}
                used += action != "g"
                run.act(p, action)
                stats.transitions += 1
                depth += 1
            if complete:
                stats.schedules += 1
                finished(run)
            else:
                stats.pruned += 1
        finally:
            run.close()
        while stack and stack[-1][1] + 1 >= len(stack[-1][0]):
            stack.pop()
        if not stack:
            return
        stack[-1][1] += 1
