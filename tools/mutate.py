#!/opt/venv/bin/python
"""Systematic small edits of the package, to look for gaps of the checks.

mutate.py generate FILE.json [--per-file N] [--seed S]   choose edits
mutate.py tests FILE.json [-j N]                         which of them build and pass the stable tests
mutate.py checks FILE.json [-j N] [--limit N]            which of those the checks of the edited file catch

Each edit lives in a scratch copy below /tmp which is removed again.  The result file is updated as it goes.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "numba_pokemon_prngs/"
# checks of the properties anchored in a file, the most specific first
CHECKS = {
    "lcrng/": ["C02", "C03", "C01", "C09"], "mersenne_twister/mt.py": ["C04", "C09"], "mersenne_twister/sfmt.py": ["C05", "C09"], "mersenne_twister/tinymt.py": ["C06", "C09"],
    "xorshift/xorshift128.py": ["C07"], "xorshift/xoro": ["C08", "C09"], "compatability.py": ["C25"], "compilation.py": ["C24"], "options.py": ["C24"], "patch.py": ["C26", "C21"],
    "util.py": ["C14", "C16", "C13"], "fnv.py": ["C14"], "sha1.py": ["C11"], "rng_list.py": ["C10", "C12"], "data/util.py": ["C26", "C19"], "data/personal/": ["C19"], "data/__init__": ["C19"],
    "data/fbs/": ["C23", "C21"], "data/encounter/": ["C21", "C20", "C22"], "gen3/util.py": ["C15"], "gen3/state.py": ["C16", "C18"], "gen3/encounter_area_3.py": ["C17", "C18"],
    "gen3/wild": ["C18", "C17"], "enums/": ["C17", "C18", "C19", "C11", "C21", "C16"],
}


def checks_of(file):
    rel = file[len(P):]
    best = max((k for k in CHECKS if rel.startswith(k)), key=len, default=None)
    return CHECKS[best] if best else []


def edits_of(file):
    text = open(f"/repo/{file}", encoding="utf8").read()
    lines = text.split("\n")
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)
    data = text.encode()
    out = []

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def add(a, b, new, what):
        out.append({"file": file, "line": data[:a].count(b"\n") + 1, "start": a, "end": b, "old": data[a:b].decode(), "new": new, "what": what})

    tree = ast.parse(text)
    annotation = set()
    for node in ast.walk(tree):
        for field in ("annotation", "returns"):
            part = getattr(node, field, None)
            if part is not None:
                annotation |= {id(x) for x in ast.walk(part)}
    swaps = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "+"), ast.FloorDiv: ("//", "%"), ast.Mod: ("%", "//"), ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<"),
             ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "^"), ast.BitXor: ("^", "|")}
    compares = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.Is: ("is", "is not"), ast.In: ("in", "not in")}
    widths = {"uint64": ["uint32"], "uint32": ["uint16", "uint64", "int32"], "uint16": ["uint8", "uint32"], "uint8": ["uint16", "int8"], "float32": ["float64"], "float64": ["float32"],
              "U8": ["U16"], "U16": ["U8"], "U32": ["U16"], "U64": ["U32"]}
    for node in ast.walk(tree):
        if id(node) in annotation:
            continue
        if isinstance(node, ast.Constant) and type(node.value) is int:
            a, b = span(node)
            hexa = data[a:b].startswith(b"0x")
            for v in {node.value + 1, node.value - 1}:
                if v >= 0:
                    add(a, b, hex(v) if hexa else str(v), "constant")
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            add(*span(node), str(not node.value), "truth")
        elif isinstance(node, (ast.BinOp, ast.AugAssign)) and type(node.op) in swaps:
            left = span(node.left if isinstance(node, ast.BinOp) else node.target)[1]
            right = span(node.right if isinstance(node, ast.BinOp) else node.value)[0]
            old, new = swaps[type(node.op)]
            at = data[left:right].decode().find(old)
            if at >= 0:
                add(left + at, left + at + len(old), new, "operator")
            if isinstance(node, ast.AugAssign):
                add(*span(node), "pass", "no statement")
        elif isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in compares:
            left, right = span(node.left)[1], span(node.comparators[0])[0]
            old, new = compares[type(node.ops[0])]
            at = data[left:right].decode().find(old)
            if at >= 0:
                add(left + at, left + at + len(old), new, "comparison")
        elif isinstance(node, ast.BoolOp):
            left, right = span(node.values[0])[1], span(node.values[1])[0]
            old = "and" if isinstance(node.op, ast.And) else "or"
            at = data[left:right].decode().find(old)
            if at >= 0:
                add(left + at, left + at + len(old), "or" if old == "and" else "and", "junction")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            a, b = span(node)
            add(a, b, data[span(node.operand)[0]:b].decode(), "sign")
        elif isinstance(node, (ast.If, ast.While)) and not isinstance(node.test, ast.Constant):
            add(*span(node.test), "False", "branch")
            if isinstance(node, ast.If):
                add(*span(node.test), "True", "branch")
        elif isinstance(node, ast.IfExp):
            a, b = span(node)
            add(a, b, "(" + data[slice(*span(node.body))].decode() + ")", "choice")
            add(a, b, "(" + data[slice(*span(node.orelse))].decode() + ")", "choice")
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            add(*span(node), "pass", "no statement")
        elif isinstance(node, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in node.targets):
            add(*span(node), "pass", "no statement")
        elif isinstance(node, ast.Attribute) and node.attr in widths and isinstance(node.value, ast.Name) and node.value.id in ("np",):
            a, b = span(node)
            for w in widths[node.attr]:
                add(a, b, "np." + w, "width")
        if isinstance(node, ast.Call) and len(node.args) == 1 and isinstance(node.func, ast.Attribute) and node.func.attr in widths and not isinstance(node.args[0], ast.Constant):
            a, b = span(node.args[0])
            inner = data[a:b].decode()
            add(*span(node), inner if isinstance(node.args[0], (ast.Name, ast.Attribute, ast.Subscript, ast.Call)) else f"({inner})", "cast")
        elif isinstance(node, ast.Call) and len(node.args) == 2 and not node.keywords and not any(isinstance(x, ast.Starred) for x in node.args):
            (a, b), (c, d) = span(node.args[0]), span(node.args[1])
            if data[a:b] != data[c:d]:
                add(a, d, data[c:d].decode() + data[b:c].decode() + data[a:b].decode(), "arguments")
    # field types of record classes
    for node in ast.walk(tree):
        if isinstance(node, ast.AnnAssign) and isinstance(node.annotation, ast.Name) and node.annotation.id in widths:
            for w in widths[node.annotation.id]:
                add(*span(node.annotation), w, "field type")
    seen, unique = set(), []
    for e in out:
        key = (e["start"], e["end"], e["new"])
        if key not in seen and e["old"] != e["new"]:
            seen.add(key)
            unique.append(e)
    return unique


def generate(path, per_file, seed, kind):
    rng = random.Random(seed)
    chosen = []
    for directory, _, files in sorted(os.walk("/repo/numba_pokemon_prngs")):
        for name in sorted(files):
            if name.endswith(".py"):
                file = os.path.relpath(os.path.join(directory, name), "/repo")
                found = [e for e in edits_of(file) if not kind or e["what"] == kind]
                if not checks_of(file):
                    continue
                number = max(4, per_file * len(found) // 100) if len(found) > 8 else len(found)
                chosen += rng.sample(found, min(len(found), number, 60))
    for k, e in enumerate(chosen):
        e["id"] = k
    json.dump(chosen, open(path, "w"), indent=0)
    by = {}
    for e in chosen:
        by[e["file"]] = by.get(e["file"], 0) + 1
    print(len(chosen), by)


def copy(edit):
    top = tempfile.mkdtemp(prefix=f"mutant-{edit['id']}-")
    shutil.copytree("/repo", top + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    path = f"{top}/repo/{edit['file']}"
    data = open(path, "rb").read()
    assert data[edit["start"]:edit["end"]].decode() == edit["old"], edit
    open(path, "wb").write(data[:edit["start"]] + edit["new"].encode() + data[edit["end"]:])
    return top


def run_tests(edit):
    top = copy(edit)
    try:
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        ovp = top + "/vp"
        os.mkdir(ovp)
        for f in os.listdir("/opt/vp"):
            if os.path.isfile("/opt/vp/" + f):
                t = open("/opt/vp/" + f, encoding="utf8", errors="replace").read()
                open(f"{ovp}/{f}", "w").write(t.replace("/repo", top + "/repo").replace("/opt/vp", ovp))
        env = {"PATH": os.environ["PATH"], "HOME": top, "PYTHONDONTWRITEBYTECODE": "1"}
        for mode in ("FALSE", "TRUE"):
            p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", ovp + "/check_build.py", "--import"], cwd=top + "/repo", timeout=300, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               env=dict(env, NPP_USE_NUMBA=mode, PYTHONPATH=top + "/repo", XDG_CACHE_HOME=top + "/cache" + mode))
            if p.returncode:
                return "does not build"
        p = subprocess.run(["bash", ovp + "/test.sh", top + "/out.json"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        passed = set(json.load(open(top + "/out.json"))["passed"])
        return "tests pass" if set(stable) <= passed else "tests fail"
    except subprocess.TimeoutExpired:
        return "tests fail"
    except (OSError, ValueError, KeyError) as e:
        return f"tests fail ({type(e).__name__})"
    finally:
        shutil.rmtree(top, ignore_errors=True)


def run_checks(edit):
    top = copy(edit)
    try:
        for check in ["C13"] + checks_of(edit["file"])[:2] if edit["what"] == "cast" else checks_of(edit["file"]):
            env = dict(os.environ, VERIF_REPO=top + "/repo")
            p = subprocess.run([VERIF + "/run.py", check, "--first"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                return f"caught {check}"
            if p.returncode:
                return f"ERROR {check} {p.returncode}: {p.stdout[-300:]}"
        return "SURVIVES"
    except subprocess.TimeoutExpired:
        return "ERROR timeout"
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("path")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--per-file", type=int, default=10)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--kind", help="only edits of this kind, such as cast")
    ap.add_argument("--limit", type=int, default=10 ** 6)
    a = ap.parse_args()
    if a.what == "generate":
        return generate(a.path, a.per_file, a.seed, a.kind)
    edits = json.load(open(a.path))
    lock = threading.Lock()
    if a.what == "tests":
        todo, work, key = [e for e in edits if "tests" not in e], run_tests, "tests"
    else:
        todo, work, key = [e for e in edits if e.get("tests") == "tests pass" and "checks" not in e], run_checks, "checks"
    with concurrent.futures.ThreadPoolExecutor(a.j) as pool:
        jobs = {pool.submit(work, e): e for e in todo[:a.limit]}
        for job in concurrent.futures.as_completed(jobs):
            e = jobs[job]
            with lock:
                e[key] = job.result()
                json.dump(edits, open(a.path + ".new", "w"), indent=0)
                os.replace(a.path + ".new", a.path)
                print(e["id"], e["file"], e["line"], repr(e["old"][:60]), "->", repr(e["new"][:60]), e[key], flush=True)


main()
