"""Independent decoding of the Legends Arceus data files and the rules of the encounter tables."""
import json
import os
from .fb import F32, I32, I8, U64, Table

AREAS = {"OBSIDIAN_FIELDLANDS": 1, "CRIMSON_MIRELANDS": 2, "CORONET_HIGHLANDS": 4, "COBALT_COASTLANDS": 3, "ALABASTER_ICELANDS": 5}
BOOSTS = (15, 15, 15, 20, 20)
TIMES, WEATHERS = 4, 9


def read(root, name):
    with open(os.path.join(root, "numba_pokemon_prngs", "resources", "encount", "la", name), "rb") as f:
        return f.read()


def multipliers(root):
    """(species, form) -> four time multipliers, nine weather multipliers"""
    return {(t.get(0, I32), t.get(1, I32)): ([t.get(2 + i, F32, 0.0) for i in range(4)], [1.0] + [t.get(6 + i, F32, 0.0) for i in range(8)])
            for t in Table(read(root, "poke_encount.bin")).children(0)}


def misc(root):
    """(species, form) -> alpha level index"""
    return {(t.get(0, I32), t.get(1, I32)): t.get(6, I32) for t in Table(read(root, "poke_misc.bin")).children(0)}


def choose(own, species):
    """own multiplier, the species' where it is negative, 1 where both are"""
    return [1.0 if o < 0 and s < 0 else s if o < 0 else o for o, s in zip(own, species)]


def slot(s, levels, mult, alpha_index):
    key = s.get(0, I32), s.get(3, I32)
    alpha = any(s.child(46).get(i, I8) for i in range(2))
    low, high = s.get(30, I32), s.get(31, I32)
    low, high = low if 0 < low <= 100 else levels[0], high if 0 < high <= 100 else levels[1]
    if alpha:
        boost = BOOSTS[alpha_index[key] - 1]
        low, high = low + boost, high + boost
    traits = s.child(45)
    return {"species": key[0], "gender": s.get(2, I32) & 255, "form": key[1], "min_level": low, "max_level": high, "guaranteed_ivs": s.get(25, I32), "base_probability": s.get(29, I32),
            "is_alpha": int(alpha), "time": choose([traits.get(7 + i, F32, 0.0) for i in range(4)], mult[key][0]),
            "weather": choose([1.0] + [traits.get(11 + i, F32, 0.0) for i in range(8)], mult[key][1])}


def tables(root, area):
    """[(table id, [slot])] of one area, in file order"""
    mult, alpha_index = multipliers(root), misc(root)
    found = []
    for t in Table(read(root, f"ha_area{AREAS[area]:02d}_encounter.bin")).children(0):
        levels = t.get(1, I32), t.get(2, I32)
        found.append((t.get(0, U64), [slot(s, levels, mult, alpha_index) for s in t.children(3)]))
    return found


def spawners(root, area):
    found = []
    for t in Table(read(root, f"ha_area{AREAS[area]:02d}_spawner.bin")).children(0):
        point = t.children(2)[0].child(7)
        found.append({"spawner_id": t.get(0, U64), "group_id": t.get(1, U64), "coordinates": [point.get(i, F32, 0.0) for i in range(3)], "min_spawn_count": t.get(7, I32),
                      "max_spawn_count": t.get(8, I32), "is_mass_outbreak": int(bool(t.get(10, I8))), "is_water": int(bool(t.get(11, I8))), "is_sky": int(bool(t.get(12, I8))),
                      "encounter_table_id": t.children(20)[0].get(0, U64)})
    return found


def outbreak_groups(root):
    return [{"hash": t.get(0, U64), "waves": [w.get(7, U64) for w in t.children(1)], "first": t.get(2, U64)} for t in Table(read(root, "new_huge_outbreak_group.bin")).children(0)]


def outbreak_lotteries(root):
    return [{"hash": t.get(0, U64), "common": [d.get(0, U64) for d in t.children(1)], "rare_1": [d.get(0, U64) for d in t.children(2)], "rare_2": [d.get(0, U64) for d in t.children(3)]}
            for t in Table(read(root, "new_huge_outbreak_group_lottery.bin")).children(0)]


def table_names(root):
    return {int(k): v for k, v in json.loads(read(root, "encounter_table_names.json")).items()}


def fnv(text):
    h = 0xCBF29CE484222645
    for b in text.encode():
        h = (h ^ b) * 0x100000001B3 & 0xFFFFFFFFFFFFFFFF
    return h
