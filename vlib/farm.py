"""Builds an importable mirror of the package under test.

The mirror is a tree of symbolic links to the files of /repo's working tree (so every change of the
working tree is seen), plus an empty `spawner_names.json` where /repo lacks that data file: without
it the encounter data cannot be imported from this copy of the repository at all.
"""
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGE = "numba_pokemon_prngs"
OPTIONAL = os.path.join(PACKAGE, "resources", "encount", "la", "spawner_names.json")


def build(dest, repo=None):
    repo = repo or REPO
    top = os.path.join(repo, PACKAGE)
    if not os.path.isdir(top):
        raise SystemExit(f"no package at {top}")
    for directory, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        rel = os.path.relpath(directory, repo)
        os.makedirs(os.path.join(dest, rel), exist_ok=True)
        for name in files:
            if name.endswith((".pyc", ".pyo")):
                continue
            os.symlink(os.path.join(directory, name), os.path.join(dest, rel, name))
    optional = os.path.join(dest, OPTIONAL)
    if not os.path.lexists(optional):
        with open(optional, "w") as f:
            f.write("{}")
    return dest
