"""C17: encounter slot, level, rate and lead selection follow the games' tables."""
import numpy as np
from vlib.core import Task
from vlib import gen3, nb

LEVEL = "model_checking"
RULE = ("every selection is run from a generator state whose next draws are the enumerated raw values; the result and the state left behind are compared with the "
        "games' cumulative percentages, level rule and type-lead rule; a state is one (area, kind, lead, raw draws) combination, a transition one selection")
ASSUMPTIONS = ["type-attracting leads are judged for every encounter kind by the same rule", "Harvest, Flash Fire and Storm Drain attract in Generation 8 only and are judged there",
               "species and types come from the data files, decoded independently; the safari location numbers are those of the published table"]
U8, U32 = np.uint8, np.uint32


def bounds(tier):
    t = tier == "thorough"
    return ("slots: all 65536 draws x 6 kinds x 2 low halves of the state; levels: compiled all 100 range widths x 65536 draws x both coin results x pressure at both ends of the level scale "
            f"and all 5050 level ranges x {'every 3rd draw' if t else 'every 251st draw'}; leads: every subset of matching slots of every kind x both types x both coin results x every residue, "
            "and every Gen 3 area x kind x lead; attracted type: every game x lead x pair of types of a slot; rates: every kind of every area; safari: every area. Uncompiled: the same with fewer draws per subset and range")


def tasks(tier):
    return ([Task("levels_sweep", "numba", cpus=8, timeout=3000), Task("leads_sweep", "numba", cpus=4, timeout=3000)] +
            [Task("slots", mode, timeout=3000) for mode in ("numpy", "numba")] + [Task("areas", mode, timeout=3000, game=g) for mode in ("numpy", "numba") for g in gen3.GAMES] +
            [Task("types", mode, timeout=3000) for mode in ("numpy", "numba")] + [Task("levels_plain", "numpy", timeout=3000)] + [Task("leads_plain", "numpy", timeout=3000, part=i) for i in range(2)])


IMPORTS = """
import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod
from numba_pokemon_prngs.enums import Encounter, Game, Lead
from numba_pokemon_prngs.data.encounter.encounter_area_3 import EncounterArea3, Slot3
from numba_pokemon_prngs.data.personal import PersonalInfo3, get_info_table_3
from numba_pokemon_prngs.gen3 import encounter_area_3 as E
"""


def kit():
    scope = {}
    exec(IMPORTS, scope)
    return scope


# synthetic area: slot i of kind k has species 1 + 12 * k + i and its own level bounds
SYNTHETIC = """
areas = np.zeros(1, EncounterArea3.dtype).view(np.recarray)
area = areas[0]
area.location = 500
for k, (field, size) in enumerate((("land", 12), ("rock", 5), ("water", 5), ("fish_old", 2), ("fish_good", 3), ("fish_super", 5))):
    for i in range(size):
        slot = getattr(area, field)[i]
        slot.species, slot.min_level, slot.max_level = 1 + 12 * k + i, 2 + i, 3 + 2 * i + k
area.land_rate, area.rock_rate, area.water_rate, area.fish_rate = 11, 22, 33, 44
"""
RATES = {"GRASS": 11, "ROCK_SMASH": 22, "SURFING": 33, "OLD_ROD": 44, "GOOD_ROD": 44, "SUPER_ROD": 44}


def synthetic(K):
    exec(SYNTHETIC, K)
    return K["areas"], K["area"]


def after(seed, calls):
    for _ in range(calls):
        seed = gen3.step(seed)
    return seed


def slots(R):
    K = kit()
    _areas, area = synthetic(K)
    E, rng = K["E"], K["PokeRNGMod"](U32(0))
    n = 0
    for kx, kind in enumerate(gen3.KINDS):
        e = K["Encounter"][kind]
        got_rate = int(E.get_encounter_rate(area, e))
        if got_rate != RATES[kind]:
            R.fail(f"rate:{kind}", f"the {kind} rate is {got_rate}, the area's is {RATES[kind]}", {"kind": kind}, IMPORTS + SYNTHETIC + f"got = int(E.get_encounter_rate(area, Encounter.{kind}))\nassert got == {RATES[kind]}, got\n")
        for raw in range(65536):
            if raw % 4096 == 0:
                R.progress(f"{kind} {raw}")
            for low in (0, 0xFFFF) if R.numba or raw % 16 == 0 else (raw * 7 & 0xFFFF,):
                seed = gen3.seeds_for(raw, low)
                rng.re_init(U32(seed))
                got = E.calculate_hslot(area, rng, e)
                n += 1
                R.state(kind, seed)
                want = 1 + 12 * kx + gen3.SLOT_OF[kind][raw % 100]
                if int(got["species"]) != want or int(rng.seed) != gen3.step(seed):
                    R.fail(f"hslot:{kind}", f"{kind}: draw {raw} gives slot {int(got['species']) - 1 - 12 * kx} and state {int(rng.seed):#x}, expected slot {gen3.SLOT_OF[kind][raw % 100]} and state {gen3.step(seed):#x}",
                           {"kind": kind, "raw": raw, "seed": seed}, IMPORTS + SYNTHETIC + f"rng = PokeRNGMod(np.uint32({seed}))\ngot = [int(E.calculate_hslot(area, rng, Encounter.{kind})['species']), int(rng.seed)]\nassert got == {[want, gen3.step(seed)]}, got\n")
                    if R.full():
                        return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", len(gen3.KINDS))


def level_of(low, high, seed, pressure):
    s = gen3.step(seed)
    v = (s >> 16) % (high - low + 1)
    if pressure:
        s = gen3.step(s)
        if (s >> 16) % 2 == 0:
            return high, s
        v = max(v - 1, 0)
    return low + v, s


def level_code(low, high, seed, pressure, want):
    return IMPORTS + f"""
slot = np.zeros(1, Slot3.dtype).view(np.recarray)[0]
slot.min_level, slot.max_level = {low}, {high}
rng = PokeRNGMod(np.uint32({seed}))
got = [float(E.calculate_level(slot, rng, {pressure})), int(rng.seed)]
assert got == {list(want)}, got
"""


def level_fail(R, low, high, seed, pressure, got):
    want = level_of(low, high, seed, pressure)
    R.fail(f"level:{'pressure' if pressure else 'plain'}", f"levels {low}-{high}, state {seed:#x}, pressure {pressure}: got {got}, expected {want}",
           {"low": low, "high": high, "seed": seed, "pressure": pressure}, level_code(low, high, seed, pressure, want))


def levels_sweep(R):
    import numba
    K = kit()
    PokeRNGMod, calculate_level = K["PokeRNGMod"], K["E"].calculate_level

    @numba.njit(nogil=True)
    def kernel(lo, hi, out, pairs, table, raw_step):
        rng = PokeRNGMod(np.uint32(0))
        for v in range(lo, hi):
            slot = table[v]
            low, high = pairs[v][0], pairs[v][1]
            for raw in range(v % raw_step, 65536, raw_step):
                parities = 0
                for low_half in range(0, 64):
                    seed = (((raw << 16 | low_half) - 0x6073) * 0xEEB9EB65) & 0xFFFFFFFF
                    s1 = raw << 16 | low_half
                    s2 = (s1 * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
                    coin = (s2 >> 16) & 1
                    if parities >> coin & 1:
                        continue
                    parities |= 1 << coin
                    rise = raw % (high - low + 1)
                    for pressure in (False, True):
                        want, state = low + rise, s1
                        if pressure:
                            state = s2
                            if coin == 0:
                                want = high
                            elif rise > 0:
                                want = low + rise - 1
                        rng.re_init(np.uint32(seed))
                        got = calculate_level(slot, rng, pressure)
                        out[8] += np.uint64(1)
                        if got != want or rng.seed != state:
                            if out[0] == 0:
                                out[1], out[2], out[3], out[4] = np.uint64(v), np.uint64(seed), np.uint64(pressure), np.uint64(got)
                            out[0] += np.uint64(1)
                    if parities == 3:
                        break
    whole = [(1, w) for w in range(1, 101)] + [(101 - w, 100) for w in range(1, 101)]
    every = [(a, b) for a in range(1, 101) for b in range(a, 101)]
    for pairs, raw_step in ((whole, 1), (every, 3 if R.thorough else 251)):
        table = np.zeros(len(pairs), K["Slot3"].dtype).view(np.recarray)
        for i, (a, b) in enumerate(pairs):
            table[i].min_level, table[i].max_level = a, b
        res = nb.par(kernel, len(pairs), (np.array(pairs, np.int64), table, raw_step))
        R.count("states", res[8] // 2)
        R.count("transitions", res[8])
        R.count("traces_validated_against_impl", len(pairs))
        if res[0]:
            low, high = pairs[res[1]]
            level_fail(R, low, high, res[2], bool(res[3]), f"{res[4]} ({res[0]} cases differ)")


def levels_plain(R):
    K = kit()
    n = rows = 0
    rng = K["PokeRNGMod"](U32(0))
    slot = np.zeros(1, K["Slot3"].dtype).view(np.recarray)[0]
    for low in range(1, 101):
        R.progress(f"level {low}")
        for high in range(low, 101) if low in (1, 5, 30, 99, 100) or R.thorough else (low, min(low + 1, 100), min(low + 5, 100), min(low + 40, 100), 100):
            slot.min_level, slot.max_level = low, high
            rows += 1
            width = high - low + 1
            for raw in set(range(0, width)) | {65535, 65536 - width, 32768, width, 2 * width}:
                for half in (0, 0x8000):
                    seed = gen3.seeds_for(raw & 0xFFFF, half)
                    R.state(low, high, seed)
                    for pressure in (False, True):
                        rng.re_init(U32(seed))
                        got = (float(K["E"].calculate_level(slot, rng, pressure)), int(rng.seed))
                        n += 1
                        if got != level_of(low, high, seed, pressure):
                            level_fail(R, low, high, seed, pressure, got)
                            if R.full():
                                return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", rows)


# synthetic species table: species s has the lead's type as first or second type exactly when bit (s - 1) % 12 of the subset is set
SPECIES = """
table = np.zeros(400, PersonalInfo3.dtype).view(np.recarray)
def paint(kind, size, subset, lead_type, decoy):
    for i in range(size):
        on = subset >> i & 1
        first = (i + subset) % 2
        r = table[1 + 12 * kind + i]
        r.type_1, r.type_2 = (lead_type if on and first or i % 3 == 2 and on else decoy), (lead_type if on and not first or i % 3 == 2 and on else decoy)
"""


def lead_seed(raw, coin, low=0):
    """state whose next two draws are of parity `coin` and equal to raw"""
    while True:
        one = gen3.back(raw << 16 | low)
        if (one >> 16) & 1 == coin:
            return gen3.back(one)
        low += 1


def lead_want(kind, mod, seed, lead):
    """(slot index, state after)"""
    s = seed
    if lead in ("MAGNET_PULL", "STATIC"):
        s = gen3.step(s)
        if (s >> 16) % 2 == 0 and mod:
            s = gen3.step(s)
            return mod[(s >> 16) % len(mod)], s
    s = gen3.step(s)
    return gen3.SLOT_OF[kind][(s >> 16) % 100], s


def lead_fail(R, what, kx, subset, lead, seed, got):
    kind = gen3.KINDS[kx]
    size = len(gen3.PERCENT[kind])
    mod = [i for i in range(size) if subset >> i & 1]
    body = IMPORTS + SYNTHETIC + SPECIES + f"""
paint({kx}, {size}, {subset}, {gen3.STEEL if lead == 'MAGNET_PULL' else gen3.ELECTRIC}, {gen3.ELECTRIC if lead == 'MAGNET_PULL' else gen3.STEEL})
slots = E.get_modified_slots(area, Encounter.{kind}, Lead.{lead}, Game.EMERALD, table)
got = [int(s['species']) - {1 + 12 * kx} for s in slots]
assert got == {mod}, got
"""
    want = mod
    if seed is not None:
        want = lead_want(kind, mod, seed, lead)
        body += f"rng = PokeRNGMod(np.uint32({seed}))\ngot = [int(E.calculate_hslot_lead(area, rng, Encounter.{kind}, Lead.{lead}, slots)['species']) - {1 + 12 * kx}, int(rng.seed)]\nassert got == {list(want)}, got\n"
    R.fail(f"{what}:{lead}:{kind}", f"{kind}, {lead}, matching slots {mod}, state {seed if seed is None else hex(seed)}: got {got}, expected {want}", {"kind": kind, "subset": subset, "lead": lead, "seed": seed}, body)


def leads_sweep(R):
    import numba
    K = kit()
    E, PokeRNGMod = K["E"], K["PokeRNGMod"]
    modified, choose = E.get_modified_slots, E.calculate_hslot_lead

    @numba.njit(nogil=True)
    def kernel(lo, hi, out, areas, table, kind, kx, size, lead, lead_type, decoy, slot_of, draws):
        area = areas[0]
        rng = PokeRNGMod(np.uint32(0))
        mod = np.zeros(12, np.int64)
        for subset in range(lo, hi):
            count = 0
            for i in range(size):
                on = subset >> i & 1
                first = (i + subset) % 2
                r = table[1 + 12 * kx + i]
                both = i % 3 == 2
                r.type_1 = lead_type if on and (first == 1 or both) else decoy
                r.type_2 = lead_type if on and (first == 0 or both) else decoy
                if on:
                    mod[count] = i
                    count += 1
            picked = modified(area, kind, lead, np.uint8(4), table)
            bad = len(picked) != count
            for i in range(min(count, len(picked))):
                bad = bad or picked[i].species != 1 + 12 * kx + mod[i]
            out[8] += np.uint64(1)
            if bad:
                if out[0] == 0:
                    out[1], out[2] = np.uint64(subset), np.uint64(1 << 40)
                out[0] += np.uint64(1)
                continue
            for k in range(draws):
                raw = k if k < 128 else (k * 40503) & 0xFFFF
                for coin in range(2):
                    low_half = 0
                    while True:
                        one = (((raw << 16 | low_half) - 0x6073) * 0xEEB9EB65) & 0xFFFFFFFF
                        if (one >> 16) & 1 == coin:
                            break
                        low_half += 1
                    seed = ((one - 0x6073) * 0xEEB9EB65) & 0xFFFFFFFF
                    want = mod[raw % count] if coin == 0 and count > 0 else slot_of[raw % 100]
                    rng.re_init(np.uint32(seed))
                    got = choose(area, rng, kind, lead, picked)
                    out[8] += np.uint64(1)
                    if got.species != 1 + 12 * kx + want or rng.seed != (raw << 16 | low_half):
                        if out[0] == 0:
                            out[1], out[2], out[3] = np.uint64(subset), np.uint64(seed), np.uint64(got.species)
                        out[0] += np.uint64(1)
    for lead, own, decoy in (("MAGNET_PULL", gen3.STEEL, gen3.ELECTRIC), ("STATIC", gen3.ELECTRIC, gen3.STEEL)):
        for kx, kind in enumerate(gen3.KINDS):
            areas, _area = synthetic(K)
            scope = dict(K)
            exec(SPECIES, scope)
            size = len(gen3.PERCENT[kind])
            tables = scope["table"]
            res = nb.par(kernel, 1 << size, (areas, tables, U8(K["Encounter"][kind]), kx, size, U8(K["Lead"][lead]), own, decoy, np.array(gen3.SLOT_OF[kind], np.int64),
                                             1 << 16 if size < 12 else 4096 if R.thorough else 256), threads=1)
            R.count("states", res[8])
            R.count("transitions", res[8])
            R.count("traces_validated_against_impl", 1 << size)
            if res[0]:
                lead_fail(R, "lead", kx, res[1], lead, None if res[2] >> 40 else res[2], f"{'another slot list' if res[2] >> 40 else res[3] - 1 - 12 * kx} ({res[0]} cases differ)")


def leads_plain(R, part):
    K = kit()
    _areas, area = synthetic(K)
    exec(SPECIES, K)
    E, rng = K["E"], K["PokeRNGMod"](U32(0))
    lead, own, decoy = (("MAGNET_PULL", gen3.STEEL, gen3.ELECTRIC), ("STATIC", gen3.ELECTRIC, gen3.STEEL))[part]
    n = rows = 0
    for kx, kind in enumerate(gen3.KINDS):
        size = len(gen3.PERCENT[kind])
        for subset in range(1 << size) if size < 12 else range(0, 1 << size, 1 if R.thorough else 3):
            if subset % 64 == 0:
                R.progress(f"{kind} subset {subset}")
            K["paint"](kx, size, subset, own, decoy)
            mod = [i for i in range(size) if subset >> i & 1]
            rows += 1
            picked = E.get_modified_slots(area, K["Encounter"][kind], K["Lead"][lead], K["Game"].EMERALD, K["table"])
            n += 1
            if [int(s["species"]) - 1 - 12 * kx for s in picked] != mod:
                lead_fail(R, "modified", kx, subset, lead, None, [int(s["species"]) - 1 - 12 * kx for s in picked])
                return
            for coin in (0, 1):
                for raw in range(0, max(2 * len(mod), 2)) if size < 12 else ((subset * 13 + coin) & 0xFFFF, 65535 - subset):
                    seed = lead_seed(raw, coin)
                    R.state(kind, subset, seed)
                    rng.re_init(U32(seed))
                    got = (int(E.calculate_hslot_lead(area, rng, K["Encounter"][kind], K["Lead"][lead], picked)["species"]) - 1 - 12 * kx, int(rng.seed))
                    n += 1
                    if got != lead_want(kind, mod, seed, lead):
                        lead_fail(R, "lead", kx, subset, lead, seed, got)
                        if R.full():
                            return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", rows)


# generation of each game flag; the type-attracting abilities that act in it, and the number of their type in its data
GENERATION = {3: ["RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN"], 4: ["DIAMOND", "PEARL", "PLATINUM", "HEART_GOLD", "SOUL_SILVER"],
              5: ["BLACK", "WHITE", "BLACK2", "WHITE2"], 6: ["X", "Y", "OMEGA_RUBY", "ALPHA_SAPPHIRE"], 7: ["SUN", "MOON", "ULTRA_SUN", "ULTRA_MOON"], 8: ["SWORD", "SHIELD"]}


def lead_type(lead, generation):
    """generations 3 and 4 have the ??? type at 9; Harvest, Flash Fire and Storm Drain attract from generation 8 on"""
    if lead in ("MAGNET_PULL", "STATIC"):
        return 8 if lead == "MAGNET_PULL" else 13 if generation < 5 else 12
    return {"HARVEST": 11, "FLASH_FIRE": 9, "STORM_DRAIN": 10}[lead] if generation >= 8 else None


def types(R):
    """which type each lead attracts: every game x lead x pair of types of one slot"""
    K = kit()
    _areas, area = synthetic(K)
    exec(SPECIES, K)
    E, Lead, Encounter, Game, table = K["E"], K["Lead"], K["Encounter"], K["Game"], K["table"]
    n = 0
    for generation, games in GENERATION.items():
        for game in games:
            for lead in ("MAGNET_PULL", "STATIC", "HARVEST", "FLASH_FIRE", "STORM_DRAIN"):
                want = lead_type(lead, generation)
                if want is None:
                    continue
                R.progress(f"{game} {lead}")
                for kx, kind in enumerate(gen3.KINDS):
                    if kx and generation > 3:
                        continue
                    size = len(gen3.PERCENT[kind])
                    for first in range(18):
                        # slot i has the types (first, second); second runs over all
                        for base in range(0, 18, size):
                            for i in range(size):
                                table[1 + 12 * kx + i].type_1, table[1 + 12 * kx + i].type_2 = first, (base + i) % 18
                            mod = [i for i in range(size) if want in (first, (base + i) % 18)]
                            picked = E.get_modified_slots(area, Encounter[kind], Lead[lead], Game[game], table)
                            got = [int(s["species"]) - 1 - 12 * kx for s in picked]
                            n += 1
                            R.state(game, lead, kind, first, base)
                            if got != mod:
                                R.fail(f"type:{lead}", f"{game}, {lead}, {kind}: slots of types {first}/{[(base + i) % 18 for i in range(size)]}: picks {got}, those of type {want} are {mod}",
                                       {"game": game, "lead": lead, "kind": kind}, IMPORTS + SYNTHETIC + SPECIES + f"""
for i in range({size}):
    table[{1 + 12 * kx} + i].type_1, table[{1 + 12 * kx} + i].type_2 = {first}, ({base} + i) % 18
got = [int(s["species"]) - {1 + 12 * kx} for s in E.get_modified_slots(area, Encounter.{kind}, Lead.{lead}, Game.{game}, table)]
assert got == {mod}, got
""")
                                return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", n)


def areas(R, game):
    """real areas: rates, safari zone and the slots type leads pick from"""
    K = kit()
    from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_GEN3
    E, Lead, Encounter, Game = K["E"], K["Lead"], K["Encounter"], K["Game"]
    info = gen3.personal(R.farm, game)
    table = K["get_info_table_3"](Game[game])
    rng = K["PokeRNGMod"](U32(0))
    n = rows = 0
    # the predicate over every location number
    blank = np.zeros(1, ENCOUNTER_INFORMATION_GEN3[Game[game]].dtype).view(np.recarray)
    for location in [v for v in range(1 << 16) if v < 1024 or v & 0xFF in (0, 90, 255)]:
        blank.location[0] = location
        want = gen3.safari(game, location)
        if bool(E.is_rse_safari_zone(blank[0], Game[game])) != want:
            R.fail("safari", f"{game} location {location}: is_rse_safari_zone is {not want}", {"game": game, "location": location}, IMPORTS + f"""
from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_GEN3
a = np.zeros(1, ENCOUNTER_INFORMATION_GEN3[Game.{game}].dtype).view(np.recarray)
a.location[0] = {location}
assert bool(E.is_rse_safari_zone(a[0], Game.{game})) == {want}
""")
            break
        n += 1
    others = [lead for lead in Lead if lead.name not in ("MAGNET_PULL", "STATIC", "HARVEST", "FLASH_FIRE", "STORM_DRAIN")]
    head = IMPORTS + f"from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_GEN3\ntable = get_info_table_3(Game.{game})\n"
    for i, ref in enumerate(gen3.encounters(R.farm, game)):
        R.progress(f"{game} area {i}")
        if ref is None:
            continue
        area = ENCOUNTER_INFORMATION_GEN3[Game[game]][i]
        rows += 1
        at = head + f"area = ENCOUNTER_INFORMATION_GEN3[Game.{game}][{i}]\n"
        want = "SAFARI_ZONE" in ref["map"] and game in ("RUBY", "SAPPHIRE", "EMERALD")
        got = bool(E.is_rse_safari_zone(area, Game[game]))
        n += 1
        R.state(i)
        if got != want:
            R.fail("safari", f"{game} {ref['map']}: is_rse_safari_zone is {got}", {"game": game, "area": i}, at + f"assert bool(E.is_rse_safari_zone(area, Game.{game})) == {want}\n")
        for kind in gen3.KINDS:
            rate, ref_slots = ref[kind]
            got = int(E.get_encounter_rate(area, Encounter[kind]))
            n += 1
            if got != rate:
                R.fail(f"rate:{kind}", f"{game} {ref['map']}: the {kind} rate is {got}, the data says {rate}", {"game": game, "area": i}, at + f"got = int(E.get_encounter_rate(area, Encounter.{kind}))\nassert got == {rate}, got\n")
            for lead in (Lead.MAGNET_PULL, Lead.STATIC) + ((others[(i + len(kind)) % len(others)],) if not R.numba or i % 8 == 0 else ()):
                mod = gen3.matching(ref_slots, info, lead.name)
                picked = E.get_modified_slots(area, Encounter[kind], lead, Game[game], table)
                want = [ref_slots[j] for j in mod]
                got = [(int(s["species"]) & 0x7FF, int(s["species"]) >> 11, int(s["min_level"]), int(s["max_level"])) for s in picked]
                n += 1
                body = at + f"picked = E.get_modified_slots(area, Encounter.{kind}, Lead.{lead.name}, Game.{game}, table)\n"
                if got != want:
                    R.fail(f"matching:{lead.name}:{kind}", f"{game} {ref['map']} {kind}: {lead.name} picks from {got}, matching slots are {want}", {"game": game, "area": i, "kind": kind},
                           body + f"got = [(int(s['species']) & 0x7FF, int(s['species']) >> 11, int(s['min_level']), int(s['max_level'])) for s in picked]\nassert got == {want}, got\n")
                    continue
                for k in range(4 if R.numba else 6):
                    seed = (i * 2654435761 + k * 0x9E3779B1 + len(kind)) & 0xFFFFFFFF
                    rng.re_init(U32(seed))
                    R.state(i, kind, lead.name, seed)
                    slot = E.calculate_hslot_lead(area, rng, Encounter[kind], lead, picked)
                    got = (int(slot["species"]) & 0x7FF, int(slot["species"]) >> 11, int(slot["min_level"]), int(slot["max_level"])), int(rng.seed)
                    index, state = lead_want(kind, mod, seed, lead.name)
                    n += 1
                    if got != (ref_slots[index], state):
                        R.fail(f"lead area:{lead.name}:{kind}", f"{game} {ref['map']} {kind} {lead.name} state {seed:#x}: got {got}, expected {ref_slots[index], state}", {"game": game, "area": i, "kind": kind, "seed": seed},
                               body + f"rng = PokeRNGMod(np.uint32({seed}))\ns = E.calculate_hslot_lead(area, rng, Encounter.{kind}, Lead.{lead.name}, picked)\n"
                               f"got = ((int(s['species']) & 0x7FF, int(s['species']) >> 11, int(s['min_level']), int(s['max_level'])), int(rng.seed))\nassert got == {(ref_slots[index], state)}, got\n")
            if R.full():
                return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", rows)
