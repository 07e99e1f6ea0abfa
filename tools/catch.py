#!/usr/bin/env python3
"""Run the property's check against planted bugs: catch.py [-j N] [-t TIER] [--check CNN] ID|PROPERTY...

Each patch is applied to its own scratch copy of /repo (VERIF_REPO).
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name, check, tier):
    meta = json.load(open(f"{VERIF}/seeded/{name}/meta.json"))
    top = tempfile.mkdtemp(prefix=f"catch-{name}-")
    try:
        shutil.copytree("/repo", top + "/repo", symlinks=True)
        p = subprocess.run(["git", "-C", top + "/repo", "apply", f"{VERIF}/seeded/{name}/patch.diff"])
        if p.returncode:
            return name, "does not apply", 0
        start = time.time()
        p = subprocess.run([f"{VERIF}/run.py", check or meta["property"], "--tier", tier],
                           env=dict(os.environ, VERIF_REPO=top + "/repo", VERIF_EVIDENCE=top),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        return name, ("CAUGHT" if p.returncode == 1 and hit else f"MISSED rc={p.returncode}"), time.time() - start
    finally:
        shutil.rmtree(top)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=2)
    ap.add_argument("-t", default="quick")
    ap.add_argument("--check")
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    names = []
    for d in sorted(os.listdir(f"{VERIF}/seeded")):
        prop = json.load(open(f"{VERIF}/seeded/{d}/meta.json"))["property"]
        if not a.ids or d in a.ids or prop in a.ids:
            names.append(d)
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(lambda n: one(n, a.check, a.t), names):
            print("%-40s %s (%d s)" % r, flush=True)
