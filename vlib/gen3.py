"""Independent decoding of the Generation 3 data files and reference procedures of wild encounters.

The procedures work on plain integers: as they are (uncompiled tasks) or under numba.njit (compiled
tasks, through `compiled()`), with the same results.
"""
import json
import os
import re
import struct

GAMES = ("RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN")
KINDS = ("GRASS", "ROCK_SMASH", "SURFING", "OLD_ROD", "GOOD_ROD", "SUPER_ROD")
FIELD = {"GRASS": "land", "ROCK_SMASH": "rock", "SURFING": "water", "OLD_ROD": "fish_old", "GOOD_ROD": "fish_good", "SUPER_ROD": "fish_super"}
RATE = {"GRASS": "land_rate", "ROCK_SMASH": "rock_rate", "SURFING": "water_rate", "OLD_ROD": "fish_rate", "GOOD_ROD": "fish_rate", "SUPER_ROD": "fish_rate"}
# percentages of the games' slots, in slot order
PERCENT = {"GRASS": (20, 20, 10, 10, 10, 10, 5, 5, 4, 4, 1, 1), "ROCK_SMASH": (60, 30, 5, 4, 1), "SURFING": (60, 30, 5, 4, 1), "OLD_ROD": (70, 30),
           "GOOD_ROD": (60, 20, 20), "SUPER_ROD": (40, 40, 15, 4, 1)}
SLOT_OF = {kind: [i for i, p in enumerate(percents) for _ in range(p)] for kind, percents in PERCENT.items()}
STEEL, ELECTRIC = 8, 13
RS_SAFARI, E_SAFARI = (90, 187, 89, 186, 92, 189, 91, 188), (73, 98, 74, 20, 97, 72)
FILES = {"RUBY": "rs", "SAPPHIRE": "rs", "EMERALD": "e", "FIRE_RED": "frlg", "LEAF_GREEN": "frlg"}
LABEL = {"RUBY": "Ruby", "SAPPHIRE": "Sapphire", "EMERALD": "", "FIRE_RED": "FireRed", "LEAF_GREEN": "LeafGreen"}
PERSONAL = {"RUBY": "rs", "SAPPHIRE": "rs", "EMERALD": "e", "FIRE_RED": "fr", "LEAF_GREEN": "lg"}
TANOBY = {"MONEAN": "AAAAAAAAAAA?", "LIPTOO": "CCCDDDHHHUUO", "WEEPTH": "NNNNSSSSIIEE", "DILFORD": "PPLLJJRRRQQQ", "SCUFIB": "YYTTGGGFFFKK",
          "RIXY": "VVVWWWXXMMBB", "VIAPOIS": "ZZZZZZZZZZZ!"}
LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ!?"


def resource(root, *parts):
    return os.path.join(root, "numba_pokemon_prngs", "resources", *parts)


def personal(root, game):
    """per species: (hp, attack, defense, speed, special attack, special defense), types, gender ratio, abilities"""
    with open(resource(root, "bin", "personal", "personal_" + PERSONAL[game]), "rb") as f:
        raw = f.read()
    rows = []
    for at in range(0, len(raw), 28):
        b = raw[at:at + 28]
        rows.append({"base": (b[0], b[1], b[2], b[4], b[5], b[3]), "types": (b[6], b[7]), "ratio": b[16], "abilities": (b[22], b[23])})
    return rows


def species_numbers(root):
    with open(resource(root, "txt", "species_en.txt"), encoding="utf-8-sig") as f:
        names = f.read().split("\n")
    return names


def constant(name):
    """the data files' constant of a species name"""
    name = name.replace("\u2640", "_F").replace("\u2642", "_M").replace("\u00e9", "e").upper()
    name = re.sub(r"[.'\u2019]", "", name)
    return "SPECIES_" + re.sub(r"[^A-Z0-9_]+", "_", name)


def encounters(root, game):
    """list of areas: None for blank ones, else {"name", "map", kind: (rate, [(species, form, low, high)])}"""
    with open(resource(root, "encount", FILES[game] + "_wild_encounters.json"), encoding="utf-8") as f:
        groups = json.load(f)["wild_encounter_groups"]
    numbers = {constant(n): i for i, n in reversed(list(enumerate(species_numbers(root)))) if n.strip()}
    areas = []
    for entry in groups[0]["encounters"]:
        if LABEL[game] not in entry["base_label"]:
            continue
        label = entry["base_label"]
        if "Unused" in label or re.match(r"gAlteringCave[2-9]$", label) or re.search(r"AlteringCave_[2-9](_|$)", label):
            areas.append(None)
            continue
        area = {"map": entry["map"], "label": label}
        letters = None
        m = re.match(r"MAP_SEVEN_ISLAND_TANOBY_RUINS_(\w+)_CHAMBER$", entry["map"])
        if m:
            letters = [LETTERS.index(c) for c in TANOBY[m[1]]]
        for kind, key, lo, hi in (("GRASS", "land_mons", 0, 12), ("SURFING", "water_mons", 0, 5), ("ROCK_SMASH", "rock_smash_mons", 0, 5), ("OLD_ROD", "fishing_mons", 0, 2),
                                  ("GOOD_ROD", "fishing_mons", 2, 5), ("SUPER_ROD", "fishing_mons", 5, 10)):
            size = len(PERCENT[kind])
            if key not in entry:
                area[kind] = (0, [(0, 0, 0, 0)] * size)
                continue
            mons = entry[key]["mons"][lo:hi]
            slots = [(numbers[m["species"]], letters[i] if letters and kind == "GRASS" else 0, m["min_level"], m["max_level"]) for i, m in enumerate(mons)]
            slots += [(0, 0, 0, 0)] * (size - len(slots))
            area[kind] = (entry[key]["encounter_rate"], slots)
        areas.append(area)
    return areas


def safari(game, location):
    return location in (RS_SAFARI if game in ("RUBY", "SAPPHIRE") else E_SAFARI if game == "EMERALD" else ())


def matching(slots, info, lead):
    """indices of the slots a type-attracting lead picks from"""
    want = STEEL if lead == "MAGNET_PULL" else ELECTRIC if lead == "STATIC" else None
    return [i for i, s in enumerate(slots) if want in info[s[0]]["types"]]


def step(s):
    return (s * 0x41C64E6D + 0x6073) & 0xFFFFFFFF


def back(s):
    return ((s - 0x6073) * 0xEEB9EB65) & 0xFFFFFFFF


def seeds_for(raw, low=0):
    """seed whose next draw is raw (the low half of the state after it being `low`)"""
    return back(raw << 16 | low)


def letter(pid):
    return ((pid >> 24 & 3) << 6 | (pid >> 16 & 3) << 4 | (pid >> 8 & 3) << 2 | pid & 3) % 28


# parameters of `wild` in its vector p
METHOD, LEAD, RSE, SAFARI, RATE16, TSV, SMASH = range(7)


def wild(seed, p, table, slots, mod, nmod, ratios, out):
    """One wild encounter from the stream state `seed`: 1 and out = pid, slot, level, six IVs, shiny, raw calls; 0 if the rock smash check fails.

    p: method 1, 2 or 4; lead (255 none, 0-24 synchronize, 25/26 cute charm female/male, 27/28 magnet pull/static, 32 pressure); flags
    table: slot of each of 100 draws; slots: rows of species, form, low, high; mod: slots a type lead picks from; ratios: by species
    """
    calls = 0
    if p[SMASH] and p[RSE]:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        if (seed >> 16) % 2880 >= p[RATE16]:
            return 0
        calls += 1
    chosen = -1
    if p[LEAD] == 27 or p[LEAD] == 28:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        calls += 1
        if (seed >> 16) % 2 == 0 and nmod > 0:
            seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
            calls += 1
            chosen = mod[(seed >> 16) % nmod]
    if chosen < 0:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        calls += 1
        chosen = table[(seed >> 16) % 100]
    species, form, low, high = slots[chosen][0], slots[chosen][1], slots[chosen][2], slots[chosen][3]
    seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
    calls += 1
    above = (seed >> 16) % (high - low + 1)
    if p[LEAD] == 32:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        calls += 1
        if (seed >> 16) % 2 == 0:
            above = high - low
        elif above > 0:
            above -= 1
    ratio = ratios[species]
    charm = 0
    if (p[LEAD] == 25 or p[LEAD] == 26) and 0 < ratio and ratio < 254:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        calls += 1
        if (seed >> 16) % 3 != 0:
            charm = p[LEAD]
    if p[SAFARI]:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        calls += 1
    nature = -1
    if p[LEAD] <= 24:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        calls += 1
        if (seed >> 16) % 2 == 0:
            nature = p[LEAD]
    if nature < 0:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        calls += 1
        nature = (seed >> 16) % 25
    while True:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        pid = seed >> 16
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        pid += (seed >> 16) * 65536
        calls += 2
        if pid % 25 != nature:
            continue
        # a female lead attracts males, a male lead females
        if charm == 25 and pid % 256 < ratio:
            continue
        if charm == 26 and pid % 256 >= ratio:
            continue
        if species == 201 and (((pid >> 24) % 4) * 64 + ((pid >> 16) % 4) * 16 + ((pid >> 8) % 4) * 4 + pid % 4) % 28 != form:
            continue
        break
    if p[METHOD] == 2:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
    seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
    first = seed >> 16
    if p[METHOD] == 4:
        seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
    seed = (seed * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
    second = seed >> 16
    out[0], out[1], out[2] = pid, chosen, low + above
    # HP, attack, defense, then special attack, special defense, speed (the game stores speed first)
    out[3], out[4], out[5] = first % 32, first // 32 % 32, first // 1024 % 32
    out[6], out[7], out[8] = second // 32 % 32, second // 1024 % 32, second % 32
    diff = (pid >> 16) ^ (pid & 0xFFFF) ^ p[TSV]
    out[9] = 2 if diff == 0 else 1 if diff < 8 else 0
    out[10] = calls
    return 1


def compiled():
    import numba
    return numba.njit(nogil=True)(wild)
