#!/opt/venv/bin/python
"""Plant the bugs described in tools/bugs.py, one scratch copy of /repo each.

plant.py [-j N] [--no-check] ID...     (all when no ID is given)

For each bug: copy /repo, edit it, build, run the stable tests, run the demonstration on the
unchanged and on the changed tree, then run the property's check on the changed tree.  What is
confirmed (tests pass, demonstration 0 / non-zero) is written to seeded/<id>/.
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import bugs  # noqa: E402

DEMO_SH = """#!/bin/bash
# exit 0: the guarantee holds; non-zero: it is broken.  Run with the repository as cwd.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
SCRATCH=$(mktemp -d) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
mkdir "$SCRATCH/src" || exit 2
cp -r numba_pokemon_prngs "$SCRATCH/src/" || exit 2
# the published tree lacks this file, and the encounter module reads it when imported
NAMES="$SCRATCH/src/numba_pokemon_prngs/resources/encount/la/spawner_names.json"
[ -e "$NAMES" ] || echo '{}' > "$NAMES"
for MODE in %s; do
    mkdir "$SCRATCH/cache-$MODE" || exit 2
    (cd "$SCRATCH" && NPP_USE_NUMBA=$MODE PYTHONPATH="$SCRATCH/src" XDG_CACHE_HOME="$SCRATCH/cache-$MODE" \\
        /opt/venv/bin/python -W ignore "$HERE/demo.py") || { echo "broken with NPP_USE_NUMBA=$MODE"; exit 1; }
done
exit 0
"""


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def one(bug, check):
    top = tempfile.mkdtemp(prefix=f"plant-{bug['id']}-")
    try:
        repo = top + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for file, old, new in bug["edits"]:
            path = f"{repo}/{file}"
            text = open(path, encoding="utf8").read()
            if text.count(old) != 1:
                return f"edit of {file} matches {text.count(old)} times: {old[:50]!r}"
            open(path, "w", encoding="utf8").write(text.replace(old, new))
        patch = sh(["git", "diff"], cwd=repo)[1]
        demo = top + "/demo"
        os.mkdir(demo)
        open(demo + "/demo.sh", "w").write(DEMO_SH % " ".join(bug.get("modes", ("TRUE", "FALSE"))))
        open(demo + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        rc, out = sh(["bash", demo + "/demo.sh"], cwd="/repo", timeout=300)
        if rc:
            return f"demo fails on the unchanged tree ({rc}): {out[-600:]}"
        rc, out = sh(["bash", demo + "/demo.sh"], cwd=repo, timeout=300)
        if not rc:
            return "demo passes on the changed tree"
        demo_out = out.strip().splitlines()[-2:]
        ovp = top + "/vp"
        os.mkdir(ovp)
        for f in os.listdir("/opt/vp"):
            if os.path.isfile("/opt/vp/" + f):
                t = open("/opt/vp/" + f, encoding="utf8", errors="replace").read()
                open(f"{ovp}/{f}", "w").write(t.replace("/repo", repo).replace("/opt/vp", ovp))
        rc, out = sh(["bash", ovp + "/build.sh"])
        if rc:
            return f"does not build: {out[-500:]}"
        sh(["bash", ovp + "/test.sh", top + "/out.json"])
        res = json.load(open(top + "/out.json"))
        missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res["passed"])
        if missing:
            return f"breaks tests {sorted(missing)[:4]}"
        dst = f"{VERIF}/seeded/{bug['id']}"
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(patch)
        shutil.copy(demo + "/demo.sh", dst)
        os.chmod(dst + "/demo.sh", 0o755)
        shutil.copy(demo + "/demo.py", dst)
        with open(dst + "/meta.json", "w") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"],
                       "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        if not check:
            return f"confirmed; demo: {demo_out}"
        env = dict(os.environ, VERIF_REPO=repo, VERIF_TIER="quick")
        rc, out = sh(["/verif/run.py", bug["property"]], cwd=VERIF, env=env)
        line = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        if rc == 1 and line:
            return "CAUGHT " + line[0][:150]
        return f"MISSED rc={rc} {out[-400:]}"
    except Exception as e:  # noqa: BLE001
        return f"error {type(e).__name__} {str(e)[:300]}"
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("-j", type=int, default=2)
    ap.add_argument("--no-check", action="store_true")
    a = ap.parse_args()
    todo = [b for b in bugs.BUGS if not a.ids or b["id"] in a.ids or b["property"] in a.ids]
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for b, r in zip(todo, ex.map(lambda b: one(b, not a.no_check), todo)):
            print(f"{b['id']:40} {r}", flush=True)


main()
