"""C19: personal data lookups return the game's own table with every field at its offset."""
import os
import struct
import numpy as np
from vlib.core import Task
from vlib import gen3

LEVEL = "model_checking"
RULE = ("every row and field of every game's table, reached through every lookup, is compared with the value unpacked from that game's data file at the documented "
        "offset; a state is a (game, row), a transition one field read")
ASSUMPTIONS = ["the record layouts are the ones documented by the source of the data files (PKHeX), cross-checked against the data", "flag combinations of several games are not lookups"]

HEAD3 = [("hp", 0, 1), ("attack", 1, 1), ("defense", 2, 1), ("speed", 3, 1), ("special_attack", 4, 1), ("special_defense", 5, 1), ("type_1", 6, 1), ("type_2", 7, 1), ("catch_rate", 8, 1)]
G3 = HEAD3 + [("base_exp", 9, 1), ("ev_yield", 0xA, 2), ("item_1", 0xC, 2), ("item_2", 0xE, 2), ("gender_ratio", 0x10, 1), ("hatch_cycles", 0x11, 1), ("base_friendship", 0x12, 1),
              ("exp_growth", 0x13, 1), ("egg_group_1", 0x14, 1), ("egg_group_2", 0x15, 1), ("ability_1", 0x16, 1), ("ability_2", 0x17, 1), ("escape_rate", 0x18, 1)]
G4 = G3 + [("form_count", 0x29, 1), ("form_stats_index", 0x2A, 2)]
MID5 = [("evo_stage", 9, 1), ("ev_yield", 0xA, 2), ("item_1", 0xC, 2), ("item_2", 0xE, 2), ("item_3", 0x10, 2), ("gender_ratio", 0x12, 1), ("hatch_cycles", 0x13, 1), ("base_friendship", 0x14, 1),
        ("exp_growth", 0x15, 1), ("egg_group_1", 0x16, 1), ("egg_group_2", 0x17, 1)]
TAIL5 = [("form_count", 0x20, 1), ("misc", 0x21, 1), ("base_exp", 0x22, 2), ("height", 0x24, 2), ("weight", 0x26, 2)]
G5 = HEAD3 + MID5 + [("ability_1", 0x18, 1), ("ability_2", 0x19, 1), ("ability_h", 0x1A, 1), ("escape_rate", 0x1B, 1), ("form_stats_index", 0x1C, 2), ("form_sprite", 0x1E, 2)] + TAIL5
Z7 = [("special_z_item", 0x4C, 2), ("special_z_base_move", 0x4E, 2), ("special_z_move", 0x50, 2), ("local_variant", 0x52, 1)]
G8 = HEAD3 + MID5 + [("ability_1", 0x18, 2), ("ability_2", 0x1A, 2), ("ability_h", 0x1C, 2), ("form_stats_index", 0x1E, 2)] + TAIL5
LAYOUT = {
    "PersonalInfo1": (0x1C, [("gender_ratio", 0, 1), ("hp", 1, 1), ("attack", 2, 1), ("defense", 3, 1), ("speed", 4, 1), ("special", 5, 1), ("type_1", 6, 1), ("type_2", 7, 1), ("catch_rate", 8, 1),
                             ("base_exp", 9, 1), ("move_1", 0xF, 1), ("move_2", 0x10, 1), ("move_3", 0x11, 1), ("move_4", 0x12, 1), ("exp_growth", 0x13, 1)]),
    "PersonalInfo2": (0x20, [("dex_id", 0, 1), ("hp", 1, 1), ("attack", 2, 1), ("defense", 3, 1), ("speed", 4, 1), ("special_attack", 5, 1), ("special_defense", 6, 1), ("type_1", 7, 1), ("type_2", 8, 1),
                             ("catch_rate", 9, 1), ("base_exp", 0xA, 1), ("item_1", 0xB, 1), ("item_2", 0xC, 1), ("gender_ratio", 0xD, 1), ("hatch_cycles", 0xF, 1), ("exp_growth", 0x16, 1), ("egg_group", 0x17, 1)]),
    "PersonalInfo3": (0x1C, G3), "PersonalInfo4": (0x2C, G4), "PersonalInfo5BW": (0x3C, G5), "PersonalInfo5B2W2": (0x4C, G5), "PersonalInfo6XY": (0x40, G5), "PersonalInfo6AO": (0x50, G5),
    "PersonalInfo7": (0x54, G5 + Z7), "PersonalInfo7GG": (0x54, G5 + [("go_species", 0x48, 2)] + Z7),
    "PersonalInfo8SWSH": (0xB0, G8 + [("species", 0x4C, 2), ("hatch_species", 0x56, 2), ("local_form_index", 0x58, 2), ("regional_flags", 0x5A, 2), ("pokedex_index", 0x5C, 2), ("regional_form_index", 0x5E, 2),
                                     ("armor_dex_index", 0xAC, 2), ("crown_dex_index", 0xAE, 2)]),
    "PersonalInfo8BDSP": (0x44, G8 + [("species", 0x3C, 2), ("hatch_species", 0x3E, 2), ("hatch_form_index", 0x40, 2), ("pokedex_index", 0x42, 2)]),
    "PersonalInfo8LA": (0xB0, G8 + [("hatch_species", 0x56, 2), ("hatch_form_index", 0x58, 2), ("regional_flags", 0x5A, 2), ("species", 0x5C, 2), ("form", 0x5E, 2), ("dex_index_hisui", 0x60, 2)] +
                        [(f"dex_index_hisui_local_{k}", 0x60 + 2 * k, 2) for k in range(1, 6)]),
    "PersonalInfo9SV": (0x44, HEAD3 + [("evo_stage", 9, 1), ("ev_yield", 0xA, 2), ("gender_ratio", 0xC, 1), ("hatch_cycles", 0xD, 1), ("base_friendship", 0xE, 1), ("exp_growth", 0xF, 1), ("egg_group_1", 0x10, 1),
                                       ("egg_group_2", 0x11, 1), ("ability_1", 0x12, 2), ("ability_2", 0x14, 2), ("ability_h", 0x16, 2), ("form_stats_index", 0x18, 2), ("form_count", 0x1A, 1), ("misc", 0x1B, 1),
                                       ("is_present_in_game", 0x1C, 1), ("dex_group", 0x1D, 1), ("dex_index", 0x1E, 2), ("height", 0x20, 2), ("weight", 0x22, 2), ("hatch_species", 0x24, 2),
                                       ("local_form_index", 0x26, 2), ("regional_flags", 0x28, 2), ("regional_form_index", 0x2A, 2)]),
}
# fields that hold raw bytes: name, offset, size
BYTES = {"PersonalInfo4": [("tm_hm", 0x1C, 13)], "PersonalInfo5BW": [("tm_hm", 0x28, 16), ("type_tutors", 0x38, 4)],
         "PersonalInfo5B2W2": [("tm_hm", 0x28, 16), ("type_tutors", 0x38, 4), ("specific_tutors", 0x3C, 16)], "PersonalInfo6XY": [("tm_hm", 0x28, 16), ("type_tutors", 0x38, 8)],
         "PersonalInfo6AO": [("tm_hm", 0x28, 16), ("type_tutors", 0x38, 8), ("specific_tutors", 0x40, 16)], "PersonalInfo7": [("tm", 0x28, 16), ("type_tutors", 0x38, 4), ("specific_tutors", 0x3C, 16)],
         "PersonalInfo7GG": [("tm", 0x28, 32)], "PersonalInfo8SWSH": [("tm", 0x28, 16), ("type_tutors", 0x38, 4), ("tr", 0x3C, 16), ("armor_tutor", 0xA8, 4)],
         "PersonalInfo8BDSP": [("tm", 0x28, 16), ("type_tutors", 0x38, 4)], "PersonalInfo8LA": [("move_shop", 0xA8, 8)], "PersonalInfo9SV": [("tm", 0x2C, 24)], "PersonalInfo1": [("tm_hm", 0x14, 7)],
         "PersonalInfo2": [("tm_hm", 0x18, 8)]}
TABLE = {"RUBY": ("rs", "PersonalInfo3"), "SAPPHIRE": ("rs", "PersonalInfo3"), "EMERALD": ("e", "PersonalInfo3"), "FIRE_RED": ("fr", "PersonalInfo3"), "LEAF_GREEN": ("lg", "PersonalInfo3"),
         "DIAMOND": ("dp", "PersonalInfo4"), "PEARL": ("dp", "PersonalInfo4"), "PLATINUM": ("pt", "PersonalInfo4"), "HEART_GOLD": ("hgss", "PersonalInfo4"), "SOUL_SILVER": ("hgss", "PersonalInfo4"),
         "BLACK": ("bw", "PersonalInfo5BW"), "WHITE": ("bw", "PersonalInfo5BW"), "BLACK2": ("b2w2", "PersonalInfo5B2W2"), "WHITE2": ("b2w2", "PersonalInfo5B2W2"), "X": ("xy", "PersonalInfo6XY"),
         "Y": ("xy", "PersonalInfo6XY"), "OMEGA_RUBY": ("ao", "PersonalInfo6AO"), "ALPHA_SAPPHIRE": ("ao", "PersonalInfo6AO"), "SUN": ("sm", "PersonalInfo7"), "MOON": ("sm", "PersonalInfo7"),
         "ULTRA_SUN": ("uu", "PersonalInfo7"), "ULTRA_MOON": ("uu", "PersonalInfo7"), "SWORD": ("swsh", "PersonalInfo8SWSH"), "SHIELD": ("swsh", "PersonalInfo8SWSH"),
         "BRILLIANT_DIAMOND": ("bdsp", "PersonalInfo8BDSP"), "SHINING_PEARL": ("bdsp", "PersonalInfo8BDSP"), "LEGENDS_ARCEUS": ("la", "PersonalInfo8LA")}
# the package has no table for these (a later one may serve HeartGold and SoulSilver from their own file)
REFUSED = ("NONE", "GALES", "COLOSSEUM", "HEART_GOLD", "SOUL_SILVER")
ROWS = {"rs": 387, "e": 387, "fr": 387, "lg": 387, "dp": 501, "pt": 508, "bw": 668, "b2w2": 709, "xy": 799, "ao": 826, "sm": 961, "uu": 976, "swsh": 1192, "bdsp": 560, "la": 1276}
OTHER_FILES = {"rb": "PersonalInfo1", "y": "PersonalInfo1", "gs": "PersonalInfo2", "c": "PersonalInfo2", "hgss": "PersonalInfo4", "gg": "PersonalInfo7GG", "sv": "PersonalInfo9SV"}


def bounds(tier):
    return "all 28 games of the package (and no game) x all rows x all fields, by game and by name, in both modes, whole columns, single rows and from compiled code; the records of the data files no game uses"


def tasks(tier):
    return [Task(f, m, timeout=3000) for m in ("numba", "numpy") for f in ("games", "records")] + [Task("compiled", "numba", timeout=3000)]


def unpack(R, file, record):
    size, fields = LAYOUT[record]
    with open(gen3.resource(R.farm, "bin", "personal", "personal_" + file), "rb") as f:
        raw = f.read()
    rows = []
    for at in range(0, len(raw) // size * size, size):
        rows.append({n: struct.unpack_from("<B" if w == 1 else "<H", raw, at + off)[0] for n, off, w in fields} |
                    {n: list(raw[at + off:at + off + w]) for n, off, w in BYTES.get(record, [])})
    return rows, len(raw) % size


def read(row, name, attribute):
    v = getattr(row, name) if attribute else row[name]
    return [int(x) for x in v] if getattr(v, "shape", ()) else int(v)


def compare(R, key, table, rows, lookup, single=True):
    """lookup: source text evaluating to the table"""
    reads = 0
    if len(table) != len(rows):
        R.fail(f"{key}:rows", f"{key}: the table has {len(table)} rows, its data file {len(rows)}", {"table": key}, lookup + f"assert len(table) == {len(rows)}, len(table)\n")
        return reads
    for name in rows[0]:
        if name not in table.dtype.names:
            R.fail(f"{key}:{name}", f"{key}: there is no field {name}", {"field": name}, lookup + f"assert {name!r} in table.dtype.names\n")
            continue
        column = table[name].tolist()
        want = [r[name] for r in rows]
        reads += len(want)
        if column != want:
            i = next(i for i in range(len(want)) if column[i] != want[i])
            R.fail(f"{key}:{name}", f"{key}: {name} of species row {i} is {column[i]}, the data file says {want[i]}", {"row": i, "field": name},
                   lookup + f"got = table[{i}][{name!r}].tolist()\nassert got == {want[i]}, got\n")
            if R.full():
                return reads
    if single:
        for i, want in enumerate(rows):
            row = table[i]
            for name in want:
                reads += 1
                if name in table.dtype.names and read(row, name, True) != want[name] and not R.full():
                    R.fail(f"{key}:{name}", f"{key}: attribute {name} of species row {i} is {read(row, name, True)}, the data file says {want[name]}", {"row": i, "field": name},
                           lookup + f"got = int(np.sum(table[{i}].{name}))\nassert got == {int(np.sum(want[name]))}, got\n")
    return reads


def games(R):
    from numba_pokemon_prngs.data import personal as P
    from numba_pokemon_prngs.enums import Game
    head = "import numpy as np\nfrom numba_pokemon_prngs.data.personal import get_info_table, get_info_table_3\nfrom numba_pokemon_prngs.enums import Game\n"
    values = [int(g) for g in Game.__members__.values()]
    if len(set(values)) != len(values) or any(v & (v - 1) for v in values):
        R.fail("flags", f"game flags are not distinct bits: {dict(Game.__members__)}", {}, head + "v = [int(g) for g in Game.__members__.values()]\nassert len(set(v)) == len(v) and not any(x & (x - 1) for x in v), v\n")
    missing = [g for g in list(TABLE) + list(REFUSED) if g not in Game.__members__]
    if missing:
        R.fail("games", f"games missing: {missing}", {})
        return
    served = {}
    for name, (file, record) in TABLE.items():
        R.progress(name)
        lookup = head + f"table = get_info_table(Game.{name})\n"
        rows, _ = unpack(R, file, record)
        try:
            table = P.get_info_table(Game[name])
        except Exception as e:
            if name not in REFUSED:
                R.fail(f"{name}:refused", f"get_info_table({name}) raises {type(e).__name__}: {e}", {"game": name}, lookup)
            continue
        if name not in REFUSED and len(rows) != ROWS[file]:
            R.note(f"{file} has {len(rows)} rows")
        R.count("transitions", compare(R, name, table, rows, lookup, single=file not in served))
        R.count("states", len(rows))
        served[file] = True
        if name in gen3.GAMES:
            for kind in ("Game", "int", "np.uint8", "np.uint32"):
                wrap = {"Game": Game[name], "int": int(Game[name]), "np.uint8": np.uint8(Game[name]), "np.uint32": np.uint32(Game[name])}[kind]
                R.count("transitions", compare(R, f"{name} ({kind})", P.get_info_table_3(wrap), rows, head + f"table = get_info_table_3({kind}({int(Game[name])}))\n", single=False))
        if R.full():
            return
    for name in REFUSED:
        if name in TABLE:
            continue
        try:
            table = P.get_info_table(Game[name])
            R.fail(f"{name}:accepted", f"get_info_table({name}) returns a table of {len(table)} rows although there is none for it", {"game": name}, head + f"try:\n    get_info_table(Game.{name})\nexcept Exception:\n    pass\nelse:\n    raise AssertionError\n")
        except Exception:
            pass
        R.count("states")
    for public, (file, record) in {"PERSONAL_INFO_RS": TABLE["RUBY"], "PERSONAL_INFO_E": TABLE["EMERALD"], "PERSONAL_INFO_FR": TABLE["FIRE_RED"], "PERSONAL_INFO_LG": TABLE["LEAF_GREEN"],
                                   "PERSONAL_INFO_DP": TABLE["DIAMOND"], "PERSONAL_INFO_PT": TABLE["PLATINUM"], "PERSONAL_INFO_BW": TABLE["BLACK"], "PERSONAL_INFO_B2W2": TABLE["BLACK2"],
                                   "PERSONAL_INFO_XY": TABLE["X"], "PERSONAL_INFO_ORAS": TABLE["OMEGA_RUBY"], "PERSONAL_INFO_SM": TABLE["SUN"], "PERSONAL_INFO_USUM": TABLE["ULTRA_SUN"],
                                   "PERSONAL_INFO_SWSH": TABLE["SWORD"], "PERSONAL_INFO_BDSP": TABLE["BRILLIANT_DIAMOND"], "PERSONAL_INFO_LA": TABLE["LEGENDS_ARCEUS"]}.items():
        if hasattr(P, public):
            R.count("transitions", compare(R, public, getattr(P, public), unpack(R, file, record)[0], f"import numpy as np\nfrom numba_pokemon_prngs.data.personal import {public} as table\n", single=False))
    R.count("traces_validated_against_impl", len(values))
    R.sample({"games": len(values), "files": sorted(served)})


def records(R):
    """the record layouts read every data file of their generation, also those no game uses"""
    from numba_pokemon_prngs.data.personal import personal_info as PI
    n = 0
    for file, record in {**{f: r for f, r in TABLE.values()}, **OTHER_FILES}.items():
        path = gen3.resource(R.farm, "bin", "personal", "personal_" + file)
        if not os.path.exists(path):
            continue
        dtype = getattr(PI, record).dtype
        rows, rest = unpack(R, file, record)
        lookup = f"import os\nimport numpy as np\nimport numba_pokemon_prngs\nfrom numba_pokemon_prngs.data.personal.personal_info import {record}\n" \
                 f"table = np.fromfile(os.path.join(os.path.dirname(numba_pokemon_prngs.__file__), 'resources/bin/personal/personal_{file}'), dtype={record}.dtype).view(np.recarray)\n"
        if dtype.itemsize != LAYOUT[record][0] or rest:
            R.fail(f"{record}:size", f"{record} has {dtype.itemsize} bytes, its file's records {LAYOUT[record][0]}", {"record": record}, lookup + f"assert {record}.dtype.itemsize == {LAYOUT[record][0]}\n")
            continue
        n += compare(R, f"{record} {file}", np.fromfile(path, dtype=dtype).view(np.recarray), rows, lookup, single=False)
        R.count("states", len(rows))
    R.count("transitions", n)
    R.count("traces_validated_against_impl", n)


def compiled(R):
    """the lookup and the fields as compiled code sees them"""
    import numba
    from numba_pokemon_prngs.data import personal as P
    from numba_pokemon_prngs.enums import Game
    names = [n for n, _o, _w in G3]
    scope = {"numba": numba, "get": P.get_info_table_3, "np": np}
    body = "\n".join(f"        out[i, {k}] = r.{n}" for k, n in enumerate(names))
    exec("@numba.njit\ndef fill(game, out):\n    t = get(game)\n    for i in range(len(t)):\n        r = t[i]\n" + body + "\n    return len(t)\n", scope)
    for name in gen3.GAMES:
        rows, _ = unpack(R, *TABLE[name])
        for game in (Game[name], np.uint8(Game[name]), np.uint32(Game[name])):
            out = np.zeros((1000, len(names)), np.int64)
            count = scope["fill"](game, out)
            R.count("states", count)
            R.count("transitions", count * len(names))
            R.count("traces_validated_against_impl", count)
            want = [[r[n] for n in names] for r in rows]
            if count != len(rows) or out[:count].tolist() != want:
                i = next((i for i in range(min(count, len(rows))) if out[i].tolist() != want[i]), -1)
                R.fail(f"compiled:{name}", f"{name}: compiled code reads {out[i].tolist()} in row {i}, the data file says {want[i]}", {"row": i, "game": name},
                       f"import numba\nimport numpy as np\nfrom numba_pokemon_prngs.data.personal import get_info_table_3\nfrom numba_pokemon_prngs.enums import Game\n@numba.njit\ndef f(g, i):\n    r = get_info_table_3(g)[i]\n"
                       f"    return [{', '.join('int(r.' + n + ')' for n in names)}]\ngot = list(f(Game.{name}, {i}))\nassert got == {want[i]}, got\n")
                return
