"""Loads the encounter data in a process of its own and writes it out as plain values.

python -m vlib.encdump WHAT OUT     (WHAT: gen3, la or both)
"""
import json
import os
import subprocess
import sys

GAMES = ("RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN")
AREAS = ("OBSIDIAN_FIELDLANDS", "CRIMSON_MIRELANDS", "CORONET_HIGHLANDS", "COBALT_COASTLANDS", "ALABASTER_ICELANDS")
KINDS = ("land", "water", "rock", "fish_old", "fish_good", "fish_super")
RATES = ("land_rate", "water_rate", "rock_rate", "fish_rate")
SLOT_LA = ("species", "gender", "form", "min_level", "max_level", "guaranteed_ivs", "base_probability", "is_alpha")
ENV = {"numba": "TRUE", "numpy": "FALSE"}


def gen3():
    from numba_pokemon_prngs.data import encounter as E
    from numba_pokemon_prngs.enums import Game
    found = {}
    for name in GAMES:
        game = Game[name]
        table, names = E.ENCOUNTER_INFORMATION_GEN3[game], E.MAP_NAMES_GEN3[game]
        areas = []
        for i in range(len(table)):
            area = {"location": int(table[i]["location"])}
            for rate in RATES:
                area[rate] = int(table[i][rate])
            for kind in KINDS:
                area[kind] = [(int(s["species"]), int(s["min_level"]), int(s["max_level"])) for s in table[i][kind]]
            areas.append(area)
        found[name] = {"names": [str(n) for n in names], "areas": areas}
    found["games"] = sorted(int(g) for g in E.ENCOUNTER_INFORMATION_GEN3) == sorted(int(Game[g]) for g in GAMES) == sorted(int(g) for g in E.MAP_NAMES_GEN3)
    return found


def la_slot(slot):
    return {**{k: int(slot[k]) for k in SLOT_LA}, "time": [float(v) for v in slot["time_multipliers"]], "weather": [float(v) for v in slot["weather_multipliers"]]}


def la():
    import numpy as np
    from numba_pokemon_prngs.data import encounter as E
    from numba_pokemon_prngs.enums import LAArea
    found = {}
    for name in AREAS:
        tables = E.ENCOUNTER_INFORMATION_LA[LAArea[name]]
        rows = []
        for key in tables.keys():
            area = tables[np.uint64(key)]
            rows.append((int(key), int(area.table_id), [la_slot(s) for s in area.slots]))
        found[name] = rows
    found["areas"] = sorted(int(a) for a in E.ENCOUNTER_INFORMATION_LA) == sorted(int(LAArea[a]) for a in AREAS)
    return found


def load(what, mode, cache, out, timeout=300, extra=None):
    """the tables as another process sees them, or an error text"""
    env = dict(os.environ)
    env["NPP_USE_NUMBA"], env["XDG_CACHE_HOME"] = ENV[mode], cache
    env.update(extra or {})
    try:
        done = subprocess.run([sys.executable, "-W", "ignore", "-m", "vlib.encdump", what, out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return "no answer in time"
    if done.returncode:
        return done.stdout.decode(errors="replace")[-1500:] or f"ended with {done.returncode}"
    with open(out) as f:
        found = json.load(f)
    os.unlink(out)
    return found


def main():
    what, out = sys.argv[1:3]
    found = {}
    if what in ("gen3", "both"):
        found["gen3"] = gen3()
    if what in ("la", "both"):
        found["la"] = la()
    with open(out, "w") as f:
        json.dump(found, f)


if __name__ == "__main__":
    main()
