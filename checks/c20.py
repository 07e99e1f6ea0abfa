"""C20: Gen 3 encounter tables hold what the data files say, computed or cached."""
import itertools
import os
import re
import shutil
from vlib.core import Task
from vlib import encdump, gen3

LEVEL = "model_checking"
RULE = ("a state is one published value (rate, species with form, level bound, location, name) of one game's tables after one loading history; a transition is the loading of one game's "
        "tables (computed or from a cache entry); every value is compared with an independent decoding of the data files")
ASSUMPTIONS = ["the data files in the repository are the games' own", "the letters of the Tanoby chambers are the games'",
               "species numbers are the positions in the repository's species list"]
NAMES = {"land": "GRASS", "water": "SURFING", "rock": "ROCK_SMASH", "fish_old": "OLD_ROD", "fish_good": "GOOD_ROD", "fish_super": "SUPER_ROD"}
RATE_OF = {"land_rate": "GRASS", "water_rate": "SURFING", "rock_rate": "ROCK_SMASH", "fish_rate": "OLD_ROD"}


def bounds(tier):
    t = tier == "thorough"
    return ("all 5 games x all areas x all encounter kinds x all slots; loading histories: empty cache, complete cache, a cache left by the other mode, "
            + ("uncompiled every subset of the five cache entries, compiled every single entry missing" if t else "uncompiled every single entry missing and every single entry present")
            + ", and loading once more from what that leaves; names: every map constant of the data files and every composition of up to " + ("3" if t else "2") + " typical words")


def tasks(tier):
    return [Task("histories", "numpy", cpus=4, timeout=3000), Task("histories", "numba", cpus=4, timeout=3000), Task("names", "numpy"), Task("names", "numba")]


def clean(text):
    """MAP_ROUTE101 -> Route 101, MAP_CAVE_B1F -> Cave B1F"""
    words = []
    for token in text[len("MAP_"):].split("_"):
        m = re.fullmatch(r"(ROUTE|ROOM)(\d+)", token)
        if m:
            words += [m[1].capitalize(), m[2]]
        elif re.fullmatch(r"B?\d+F|\d+R", token):
            words.append(token)
        else:
            words.append(token[:1].upper() + token[1:].lower())
    return " ".join(words)


def expected(root, game):
    names, areas = [], []
    for i, area in enumerate(gen3.encounters(root, game)):
        row = {"location": 0 if area is None else i}
        for rate, kind in RATE_OF.items():
            row[rate] = 0 if area is None else area[kind][0]
        for field, kind in NAMES.items():
            row[field] = [[0, 0, 0]] * len(gen3.PERCENT[kind]) if area is None else [[s | f << 11, lo, hi] for s, f, lo, hi in area[kind][1]]
        names.append("" if area is None else clean(area["map"]))
        areas.append(row)
    return {"names": names, "areas": areas}


CODE = """
import os, shutil, subprocess, sys, tempfile
program = '''
import numpy as np
from numba_pokemon_prngs.data import encounter as E
from numba_pokemon_prngs.enums import Game
game = Game.%s
%s
'''
top = tempfile.mkdtemp()
try:
    for mode in %r:
        env = dict(os.environ, XDG_CACHE_HOME=top, NPP_USE_NUMBA=mode)
        subprocess.run([sys.executable, '-W', 'ignore', '-c', program], env=env, check=True)
finally:
    shutil.rmtree(top)
"""


def compare(R, game, got, want, history, modes):
    """every value of one game's tables"""
    n = 0

    def bad(where, value, right, expr):
        R.fail(f"{game}:{where}", f"{game} after {history}: {where} is {value}, the data files say {right}", {"game": game, "history": history},
               CODE % (game, f"got = {expr}\nassert got == {right!r}, got", modes))

    if len(got["areas"]) != len(want["areas"]) or len(got["names"]) != len(want["names"]):
        bad("number of areas", [len(got["areas"]), len(got["names"])], len(want["areas"]), "len(E.ENCOUNTER_INFORMATION_GEN3[game])")
        return 1
    for i, (a, w) in enumerate(zip(got["areas"], want["areas"])):
        n += 1
        if got["names"][i] != want["names"][i]:
            bad(f"name of area {i}", got["names"][i], want["names"][i], f"str(E.MAP_NAMES_GEN3[game][{i}])")
        for field, value in w.items():
            if isinstance(value, list):
                n += 3 * len(value)
                if len(a[field]) != len(value):
                    bad(f"number of {field} slots of area {i}", len(a[field]), len(value), f"len(E.ENCOUNTER_INFORMATION_GEN3[game][{i}]['{field}'])")
                    continue
                for j, slot in enumerate(value):
                    if list(a[field][j]) != list(slot):
                        bad(f"{field} slot {j} of area {i} (species and form, levels)", a[field][j], list(slot),
                            f"[int(E.ENCOUNTER_INFORMATION_GEN3[game][{i}]['{field}'][{j}][k]) for k in ('species', 'min_level', 'max_level')]")
            else:
                n += 1
                if a[field] != value:
                    bad(f"{field} of area {i}", a[field], value, f"int(E.ENCOUNTER_INFORMATION_GEN3[game][{i}]['{field}'])")
            if R.full():
                return n
    return n


def entries(cache):
    """game -> cache entry, from what loading into an empty cache created"""
    found = []
    for base, _dirs, files in os.walk(cache):
        found += [os.path.join(base, f) for f in files]
    return sorted(found)


def histories(R):
    mode = "numba" if R.numba else "numpy"
    other = "numpy" if R.numba else "numba"
    want = {g: expected(R.farm, g) for g in gen3.GAMES}
    states = loads = looks = 0

    def look(cache, history, m, modes):
        nonlocal states, loads, looks
        looks += 1
        found = encdump.load("gen3", m, cache, os.path.join(R.scratch, "out.json"))
        if isinstance(found, str):
            R.fail(f"load:{history}", f"loading the tables after {history} fails: {found}", {"history": history}, CODE % ("RUBY", "", modes))
            return False
        if not found["gen3"]["games"]:
            R.fail("games", "the tables are not those of the five Gen 3 games", None, CODE % ("RUBY", "assert len(E.ENCOUNTER_INFORMATION_GEN3) == len(E.MAP_NAMES_GEN3) == 5", modes))
        for game in gen3.GAMES:
            states += compare(R, game, found["gen3"][game], want[game], history, modes)
            loads += 1
        return True

    flag = encdump.ENV
    full = os.path.join(R.scratch, "full")
    if not look(full, "an empty cache", mode, [flag[mode]]):
        return
    R.sample({"game": "LEAF_GREEN", "area": want["LEAF_GREEN"]["names"][1], "values": want["LEAF_GREEN"]["areas"][1]})
    look(full, "a complete cache", mode, [flag[mode]] * 2)
    files = entries(full)
    mine = [f for f in files if "encounter_3" in os.path.basename(f)]
    R.note(f"{mode}: loading leaves {len(files)} cache entries, {len(mine)} of them Gen 3")
    crossed = os.path.join(R.scratch, "crossed")
    look(crossed, "an empty cache", other, [flag[other]])
    look(crossed, f"a cache left by the {other} mode", mode, [flag[other], flag[mode]])
    if mine:
        every = [s for k in range(len(mine) + 1) for s in itertools.combinations(mine, k)]
        if R.numba:
            chosen = [s for s in every if len(s) == len(mine) - 1] if R.thorough else []
        else:
            chosen = every if R.thorough else [s for s in every if len(s) in (1, len(mine) - 1)]
        for keep in chosen:
            if R.full():
                break
            R.progress(f"keeping {[os.path.basename(k) for k in keep]}")
            part = os.path.join(R.scratch, "part")
            shutil.copytree(full, part)
            for f in mine:
                if f not in keep:
                    os.unlink(os.path.join(part, os.path.relpath(f, full)))
            label = f"a cache with only {[os.path.basename(k) for k in keep]} of the Gen 3 entries"
            look(part, label, mode, [flag[mode]] * 2)
            if len(keep) < 2 or R.thorough:
                look(part, label + ", then once more", mode, [flag[mode]] * 3)
            shutil.rmtree(part)
    R.count("states", states)
    R.count("transitions", loads)
    R.count("traces_validated_against_impl", looks)


def names(R):
    """the map name clean up, over every map constant of the three data files and composed ones"""
    import json
    from numba_pokemon_prngs.data.encounter import clean_map_string
    texts = set()
    for file in sorted(set(gen3.FILES.values())):
        with open(gen3.resource(R.farm, "encount", file + "_wild_encounters.json"), encoding="utf-8") as f:
            texts |= {e["map"] for e in json.load(f)["wild_encounter_groups"][0]["encounters"]}
    words = ["ROUTE1", "ROUTE101", "ROUTE110", "ROOM3", "ROOM12", "1F", "12F", "B1F", "B12F", "2R", "SAFARI", "ZONE", "MT", "S", "FAR"]
    for k in (1, 2, 3) if R.thorough else (1, 2):
        texts |= {"MAP_" + "_".join(t) for t in itertools.product(words, repeat=k)}
    for text in sorted(texts):
        got, want = clean_map_string(text), clean(text)
        if got != want:
            R.fail("name", f"{text} is shown as {got!r}, expected {want!r}", {"text": text},
                   f"from numba_pokemon_prngs.data.encounter import clean_map_string\ngot = clean_map_string({text!r})\nassert got == {want!r}, got\n")
    R.count("states", len(texts))
    R.count("transitions", len(texts))
