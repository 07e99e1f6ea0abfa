"""C21: Legends Arceus tables match their data files; slot choice follows the weights."""
import itertools
import os
from fractions import Fraction
import numpy as np
from vlib import encdump, farm, fb, la
from vlib.core import Task

LEVEL = "model_checking"
RULE = ("a state is one encounter slot, spawner, outbreak group or name after one loading history, compared field by field with an independent decoding of the data files, or one "
        "(weights, time, weather, draw) combination of a slot choice, compared with exact rational arithmetic; a transition is one loading of an area or one slot choice")
ASSUMPTIONS = ["the field positions of the game's binary tables are those of the public format descriptions the package follows",
               "draws closer to an interval boundary than the precision of the weights are not judged, nor are tables in which every weight is zero at that time and weather"]
HEAD = """
import numpy as np
from numba_pokemon_prngs.data import encounter as E
from numba_pokemon_prngs.data.encounter.encounter_area_la import EncounterAreaLA, SlotLA
from numba_pokemon_prngs.enums import LAArea
"""


def bounds(tier):
    t = tier == "thorough"
    return ("all 5 areas x all tables x all slots x all fields, computed, cached, cached by the other mode, and after loss of " + ("every subset of entries" if t else "each single entry") + " (uncompiled); "
            "constructed data files with all combinations of level overrides, alpha flags, alpha level classes, multiplier fallbacks and absent fields; all spawners, outbreak groups and table names; "
            "slot choice: every real table x 4 times x 9 weathers x every slot's interval, every distinct real weight vector x every interval boundary and its neighbours (32 and 64 bit draws), "
            f"every vector of up to {4 if t else 3} slots over {12 if t else 15} weight combinations x every boundary")


def tasks(tier):
    return ([Task("histories", m, cpus=2, timeout=3000) for m in ("numpy", "numba")] + [Task("constructed", m, timeout=3000) for m in ("numpy", "numba")] +
            [Task("records", m, timeout=3000) for m in ("numpy", "numba")] + [Task("choices", m, timeout=3000) for m in ("numpy", "numba")] +
            [Task("vectors", m, timeout=3000, part=i, parts=4) for m in ("numpy", "numba") for i in range(4)])


def expected(root):
    return {a: dict(la.tables(root, a)) for a in la.AREAS}


FIELDS = encdump.SLOT_LA + ("time", "weather")
NAMES = {"time": "time_multipliers", "weather": "weather_multipliers"}
CODE = """
import os, shutil, subprocess, sys, tempfile
program = '''%s
area = E.ENCOUNTER_INFORMATION_LA[LAArea.%s]
%s
'''
top = tempfile.mkdtemp()
try:
    for mode in %r:
        env = dict(os.environ, XDG_CACHE_HOME=top, NPP_USE_NUMBA=mode)
        subprocess.run([sys.executable, '-W', 'ignore', '-c', program], env=env, check=True)
finally:
    shutil.rmtree(top)
"""


def compare(R, got, want, history, modes, code=True):
    n = 0

    def bad(area, where, value, right, check):
        R.fail(f"{area}:{where}", f"{area} after {history}: {where} is {value}, the data files say {right}", {"area": area, "history": history, "where": where},
               CODE % (HEAD, area, check, modes) if code else None)

    if not got["areas"]:
        R.fail("areas", "the areas are not those of the game", None, None)
    for area, tables in want.items():
        rows = got[area]
        if sorted(r[0] for r in rows) != sorted(tables):
            bad(area, "set of tables", len(rows), len(tables), f"assert sorted(int(k) for k in area.keys()) == {sorted(tables)!r}")
            continue
        for key, own, slots in rows:
            right = tables[key]
            if own != key or len(slots) != len(right):
                bad(area, f"table {key:#x}", [own, len(slots)], [key, len(right)], f"t = area[np.uint64({key})]\nassert [int(t.table_id), len(t.slots)] == {[key, len(right)]!r}")
                continue
            for i, (s, w) in enumerate(zip(slots, right)):
                n += 1
                for field in FIELDS:
                    if s[field] != w[field]:
                        name = NAMES.get(field, field)
                        bad(area, f"{field} of slot {i} of table {key:#x}", s[field], w[field],
                            f"got = area[np.uint64({key})].slots[{i}]['{name}'].tolist()\nassert got == {w[field]!r}, got")
                if R.full():
                    return n
    return n


def histories(R):
    import shutil
    mode, other = ("numba", "numpy") if R.numba else ("numpy", "numba")
    want = expected(R.farm)
    flag = encdump.ENV
    states = loads = looks = 0

    def look(cache, history, m, modes):
        nonlocal states, loads, looks
        looks += 1
        R.progress(history)
        found = encdump.load("la", m, cache, os.path.join(R.scratch, "out.json"))
        loads += len(la.AREAS)
        if isinstance(found, str):
            R.fail(f"load:{history}", f"loading the tables after {history} fails: {found}", {"history": history}, CODE % (HEAD, "OBSIDIAN_FIELDLANDS", "", modes))
        else:
            states += compare(R, found["la"], want, history, modes)

    full, crossed = os.path.join(R.scratch, "full"), os.path.join(R.scratch, "crossed")
    look(full, "an empty cache", mode, [flag[mode]])
    look(full, "a complete cache", mode, [flag[mode]] * 2)
    look(crossed, "an empty cache", other, [flag[other]])
    look(crossed, f"a cache left by the {other} mode", mode, [flag[other], flag[mode]])
    files = [os.path.join(b, f) for b, _d, fs in os.walk(full) for f in fs]
    mine = sorted(f for f in files if "_la_" in os.path.basename(f))
    R.note(f"{mode}: loading leaves {len(mine)} Legends Arceus cache entries")
    R.sample({"area": "CORONET_HIGHLANDS", "table": str(list(want["CORONET_HIGHLANDS"])[0]), "slot": list(want["CORONET_HIGHLANDS"].values())[0][0]})
    if not R.numba or R.thorough:
        sizes = range(1, len(mine) + 1) if R.thorough and not R.numba else (1,)
        for drop in [d for k in sizes for d in itertools.combinations(mine, k)]:
            part = os.path.join(R.scratch, "part")
            shutil.copytree(full, part)
            for f in drop:
                os.unlink(os.path.join(part, os.path.relpath(f, full)))
            look(part, f"the loss of the cache entries {[os.path.basename(f) for f in drop]}", mode, [flag[mode]])
            shutil.rmtree(part)
            if R.full():
                break
    R.count("states", states)
    R.count("transitions", loads)
    R.count("traces_validated_against_impl", looks)


# ---- constructed data files
OVERRIDES = (None, -1, 0, 1, 57, 100, 101)
OWN, SPECIES = (None, -1.0, 0.5, 1.0, 0.0, -0.5), (None, -1.0, 0.5, 2.0, -0.25)


def encode_slot(species, form=None, gender=None, ivs=None, base=10, low=None, high=None, alpha=(None, None), own=(1.0,) * 12):
    def put(fields):
        return {k: v for k, v in fields.items() if v is not None}

    def i32(v):
        return None if v is None else (fb.I32, v)

    traits = put({7 + i: None if v is None else (fb.F32, v) for i, v in enumerate(own)})
    oybn = put({i: None if v is None else (fb.I8, v) for i, v in enumerate(alpha)})
    fields = put({0: (fb.I32, species), 1: (fb.U64, 77), 2: i32(gender), 3: i32(form), 25: i32(ivs), 29: (fb.I32, base), 30: i32(low), 31: i32(high),
                  45: ("object", (19, traits)), 46: ("object", (4, oybn))})
    return (47, fields)


def constructed_files(root):
    """three data files; the real species keep their entries"""
    combos = list(itertools.product(OWN, SPECIES))
    kinds = {}      # species -> (alpha class, multipliers)
    for shift in range(len(combos)):
        kinds[1000 + shift] = (1 + shift % 5, [combos[(shift + i) % len(combos)][1] for i in range(12)])
    tables = [[]]
    shapes = itertools.product(OVERRIDES, OVERRIDES, ((None, None), (1, None), (None, 1), (1, 1), (0, 0)))
    for n, (low, high, alpha) in enumerate(shapes):
        tables.append([encode_slot(1000 + c, low=low, high=high, alpha=alpha, gender=(None, 0, 1, 2, -1)[(n + c) % 5], ivs=(None, 0, 3, 6)[n % 4], base=(1, 100, 70000)[n % 3]) for c in range(5)])
    for shift in range(len(combos)):
        tables.append([encode_slot(1000 + shift, own=[combos[(shift + i) % len(combos)][0] for i in range(12)])])
    for form in (None, 0, 3):
        tables.append([encode_slot(25, form=form, alpha=(1, None)), encode_slot(1002, form=form)])
    rows = []
    for n, slots in enumerate(tables):
        fields = {0: (fb.U64, 0xF000000000000000 + n * 0x10001), 1: (fb.I32, 3 + n % 90), 2: (fb.I32, 5 + n % 90)}
        if slots:
            fields[3] = ("array", slots)
        rows.append((4, fields))
    encounter = fb.Builder(share_vtables=True).finish(1, {0: ("array", rows)})
    mult, misc = la.multipliers(root), la.misc(root)

    def entry(species, form, values):
        fields = {0: (fb.I32, species)}
        if form:
            fields[1] = (fb.I32, form)
        fields.update({2 + i: (fb.F32, v) for i, v in enumerate(values) if v is not None})
        return (14, fields)

    entries = [entry(s, f, list(t) + list(w[1:])) for (s, f), (t, w) in mult.items()]
    entries += [entry(s, f, values) for s, (_c, values) in kinds.items() for f in ((0, 3) if s == 1002 else (0,))] + [entry(25, 3, [0.25] * 12)]
    multiplier = fb.Builder(share_vtables=True).finish(1, {0: ("array", entries)})
    rows = [(7, {0: (fb.I32, s), 1: (fb.I32, f), 6: (fb.I32, c)}) for (s, f), c in misc.items()]
    rows += [(7, {0: (fb.I32, s), 1: (fb.I32, f), 6: (fb.I32, c)}) for s, (c, _v) in kinds.items() for f in ((0, 3) if s == 1002 else (0,))] + [(7, {0: (fb.I32, 25), 1: (fb.I32, 3), 6: (fb.I32, 5)})]
    return {"ha_area01_encounter.bin": encounter, "poke_encount.bin": multiplier, "poke_misc.bin": fb.Builder(share_vtables=True).finish(1, {0: ("array", rows)})}


def constructed(R):
    mode = "numba" if R.numba else "numpy"
    top = farm.build(os.path.join(R.scratch, "other"), R.farm)
    for name, data in constructed_files(R.farm).items():
        path = os.path.join(top, "numba_pokemon_prngs", "resources", "encount", "la", name)
        os.unlink(path)
        with open(path, "wb") as f:
            f.write(data)
    want = expected(top)
    states = 0
    env = {"PYTHONPATH": top + ":" + os.environ["PYTHONPATH"].split(":", 1)[1]}
    for history in ("an empty cache", "a complete cache"):
        found = encdump.load("la", mode, os.path.join(R.scratch, "cache"), os.path.join(R.scratch, "out.json"), extra=env)
        if isinstance(found, str):
            R.fail("constructed", f"loading constructed data files after {history} fails: {found}", {"history": history}, None)
            return
        states += compare(R, found["la"], want, "constructed data files and " + history, [], code=False)
    R.count("states", states)
    R.count("transitions", 2 * len(la.AREAS))
    R.count("traces_validated_against_impl", 2)


# ---- spawners, outbreaks, names
def records(R):
    scope = {}
    exec(HEAD, scope)
    E, LAArea = scope["E"], scope["LAArea"]
    n = 0

    def differ(key, message, case, check):
        R.fail(key, message, case, HEAD + check)

    for area in la.AREAS:
        table, want = E.SPAWNER_INFORMATION_LA[LAArea[area]], la.spawners(R.farm, area)
        if len(table.spawners) != len(want) or len(table.spawner_table_lookup) != len(want) or len(table.spawner_by_group) != len(want):
            differ(f"{area}:spawners", f"{area} has {len(table.spawners)} spawners, its file {len(want)}", None, f"assert len(E.SPAWNER_INFORMATION_LA[LAArea.{area}].spawners) == {len(want)}\n")
            continue
        for i, w in enumerate(want):
            s = table.spawners[i]
            for field, value in w.items():
                n += 1
                got = [v or 0.0 for v in s.coordinates.as_tuple()] if field == "coordinates" else int(getattr(s, field) or 0)
                if got != value:
                    differ(f"{area}:{field}", f"{area}: {field} of spawner {i} is {got}, its file says {value}", {"area": area, "spawner": i},
                           f"s = E.SPAWNER_INFORMATION_LA[LAArea.{area}].spawners[{i}]\ngot = [v or 0.0 for v in s.coordinates.as_tuple()] if {field == 'coordinates'} else int(s.{field} or 0)\nassert got == {value!r}, got\n")
            if table.spawner_table_lookup[w["spawner_id"]].group_id != w["group_id"] or table.spawner_by_group[w["group_id"]].spawner_id != w["spawner_id"]:
                differ(f"{area}:lookup", f"{area}: spawner {i} is not found under its own numbers", {"area": area, "spawner": i},
                       f"t = E.SPAWNER_INFORMATION_LA[LAArea.{area}]\nassert t.spawner_table_lookup[{w['spawner_id']}].group_id == {w['group_id']} and t.spawner_by_group[{w['group_id']}].spawner_id == {w['spawner_id']}\n")
    groups, table = la.outbreak_groups(R.farm), E.NHO_GROUP_TABLE_LA
    got = [{"hash": int(g.hash), "waves": [int(w.encounter_table_id or 0) for w in g.wave_details], "first": int(g.first_wave_encounter_table_id or 0)} for g in table.groups]
    n += len(groups)
    if got != groups or any(int(table.group_lookup[g["hash"]].hash) != g["hash"] for g in groups):
        differ("outbreak groups", "the outbreak groups differ from their file", None,
               f"got = [[int(g.hash), [int(w.encounter_table_id or 0) for w in g.wave_details], int(g.first_wave_encounter_table_id or 0)] for g in E.NHO_GROUP_TABLE_LA.groups]\nassert got == {[list(g.values()) for g in groups]!r}\n")
    lotteries, table = la.outbreak_lotteries(R.farm), E.NHO_LOTTERY_TABLE_LA
    got = [{"hash": int(g.hash), "common": [int(d.hash) for d in g.table_common], "rare_1": [int(d.hash) for d in g.table_rare_1], "rare_2": [int(d.hash) for d in g.table_rare_2]} for g in table.lottery_groups]
    n += sum(len(g["common"]) * 3 for g in lotteries)
    if got != lotteries:
        differ("outbreak lotteries", "the outbreak lotteries differ from their file", None,
               f"got = [[int(g.hash), [int(d.hash) for d in g.table_common], [int(d.hash) for d in g.table_rare_1], [int(d.hash) for d in g.table_rare_2]] for g in E.NHO_LOTTERY_TABLE_LA.lottery_groups]\nassert got == {[list(g.values()) for g in lotteries]!r}\n")
    for g in lotteries:
        whole = g["common"] + g["rare_1"] + g["rare_2"]
        own = table.lottery_group_lookup[g["hash"]]
        if [int(d.hash) for d in own.full_table] != whole or set(own.full_table_lookup) != set(whole) or any(int(own.full_table_lookup[h].hash) != h for h in whole):
            differ("outbreak table", f"the whole table of lottery {g['hash']:#x} is not its three parts", {"lottery": g["hash"]},
                   f"own = E.NHO_LOTTERY_TABLE_LA.lottery_group_lookup[{g['hash']}]\nassert [int(d.hash) for d in own.full_table] == {whole!r} and set(own.full_table_lookup) == set({whole!r})\n")
    names = la.table_names(R.farm)
    n += len(names)
    if {int(k): v for k, v in E.ENCOUNTER_TABLE_NAMES_LA.items()} != names:
        differ("table names", "the table names differ from their file", None, f"import json, hashlib\nassert len(E.ENCOUNTER_TABLE_NAMES_LA) == {len(names)}\n")
    from numba_pokemon_prngs.fnv import fnv1a_64
    for key, name in names.items():
        n += 1
        if la.fnv(name) != key or int(fnv1a_64(name)) != key:
            differ("name hash", f"the table {name} is listed under {key:#x}, its hash is {la.fnv(name):#x}, the package computes {int(fnv1a_64(name)):#x}", {"name": name},
                   f"from numba_pokemon_prngs.fnv import fnv1a_64\nassert int(fnv1a_64({name!r})) == {la.fnv(name)} == {key}\n")
            if R.full():
                break
    # outbreak tables name existing encounter tables of some area, spawners a table of their own area or an outbreak lottery
    everything = {k for a in la.AREAS for k in E.ENCOUNTER_INFORMATION_LA[LAArea[a]].keys()}
    empty = la.fnv("")
    for g in groups:
        for key in g["waves"] + [g["first"]]:
            n += 1
            if key not in everything and key != empty and key:
                differ("outbreak reference", f"outbreak group {g['hash']:#x} names the unknown table {key:#x}", {"group": g["hash"]}, "")
    mult, misc = la.multipliers(R.farm), la.misc(R.farm)
    for key, (times, weathers) in mult.items():
        m = E.ENCOUNTER_MULTIPLIER_LA.multiplier_lookup.get(key)
        n += 13
        if m is None or list(m.time_of_day_multipliers) != times or list(m.weather_multipliers) != weathers:
            differ("multipliers", f"the multipliers of {key} differ from their file", {"species": key},
                   f"m = E.ENCOUNTER_MULTIPLIER_LA.multiplier_lookup[{key}]\nassert list(m.time_of_day_multipliers) == {times} and list(m.weather_multipliers) == {weathers}\n")
    for key, index in misc.items():
        n += 1
        got = E.POKE_MISC_LA.misc_lookup.get(key)
        if got is None or int(got.alpha_level_index) != index:
            differ("misc", f"the alpha class of {key} differs from its file", {"species": key}, f"assert E.POKE_MISC_LA.misc_lookup[{key}].alpha_level_index == {index}\n")
    if len(mult) != len(E.ENCOUNTER_MULTIPLIER_LA.multiplier_lookup) or len(misc) != len(E.POKE_MISC_LA.misc_lookup):
        differ("lookups", "there are entries which are not in the files", None, f"assert len(E.ENCOUNTER_MULTIPLIER_LA.multiplier_lookup) == {len(mult)} and len(E.POKE_MISC_LA.misc_lookup) == {len(misc)}\n")
    R.count("states", n)
    R.count("transitions", len(la.AREAS) + 6)
    R.count("traces_validated_against_impl", len(la.AREAS) + 6)


# ---- slot choice
def weights_of(rows, t, w):
    return [Fraction(r[0]) * Fraction(r[1][t]) * Fraction(r[2][w]) for r in rows]


def interval(weights, draw):
    """index of the slot the draw selects, or None where the precision of the weights does not settle it"""
    total = sum(weights)
    scaled = Fraction(float(draw)) * total
    fine = all((x * 64).denominator == 1 for x in weights) and (scaled * 2 ** 40).denominator == 1 and total < 2 ** 12
    upto = Fraction(0)
    for i, x in enumerate(weights):
        upto += x
        if abs(scaled - upto) < total / 2 ** 44 and not (fine and x):
            if x:
                return None
        if scaled < upto and x:
            return i
    return None


def draws_for(weights):
    """the boundaries of every interval, their neighbours, and its middle"""
    total = sum(weights)
    found, upto = {}, Fraction(0)
    for x in weights:
        for value in (upto / total, (upto + x / 2) / total, (upto + x) / total):
            f = np.float32(float(value))
            for near in (f, np.nextafter(f, np.float32(0)), np.nextafter(f, np.float32(1))):
                if 0 <= near < 1:
                    found[float(near), 32] = near
            d = float(value)
            for near in (d, d - 2.0 ** -36, d + 2.0 ** -36):
                if 0 <= near < 1:
                    found[near, 64] = near
        upto += x
    return list(found.values())


def build(scope, rows, tag=True):
    """an area of one table with these weights; its slots are told apart by their species"""
    area = scope["EncounterAreaLA"](np.uint64(1), np.uint64(len(rows)))
    slots = np.zeros(len(rows), scope["SlotLA"].dtype)
    for i, (base, time, weather) in enumerate(rows):
        slots[i]["species"], slots[i]["base_probability"] = i + 1, base
        slots[i]["time_multipliers"], slots[i]["weather_multipliers"] = time, weather
    area.slots = slots
    return area


def choice_code(rows, draw, t, w, want):
    wide = "np.float32" if isinstance(draw, np.float32) else "float"
    return HEAD + f"""
rows = {[[r[0], list(map(float, r[1])), list(map(float, r[2]))] for r in rows]!r}
area = EncounterAreaLA(np.uint64(1), np.uint64(len(rows)))
slots = np.zeros(len(rows), SlotLA.dtype)
for i, (base, time, weather) in enumerate(rows):
    slots[i]['species'], slots[i]['base_probability'] = i + 1, base
    slots[i]['time_multipliers'], slots[i]['weather_multipliers'] = time, weather
area.slots = slots
got = int(area.calc_slot({wide}({float(draw)!r}), {t}, {w})['species']) - 1
assert got == {want}, got
"""


def judge(R, area, rows, weights, draw, t, w):
    want = interval(weights, draw)
    if want is None:
        return 0
    R.state(tuple(weights), t, w, float(draw), isinstance(draw, np.float32))
    got = int(area.calc_slot(draw, t, w)["species"]) - 1
    if got != want:
        R.fail("choice", f"weights {[float(x) for x in weights]}, draw {float(draw)!r} ({'32' if isinstance(draw, np.float32) else '64'} bit), time {t}, weather {w}: slot {got}, expected {want}",
               {"weights": [float(x) for x in weights], "draw": float(draw), "time": t, "weather": w}, choice_code(rows, draw, t, w, want))
    return 1


def choices(R):
    scope = {}
    exec(HEAD, scope)
    E, LAArea = scope["E"], scope["LAArea"]
    n = skipped = 0
    seen = set()
    for area in la.AREAS:
        tables = E.ENCOUNTER_INFORMATION_LA[LAArea[area]]
        for number, (key, slots) in enumerate(la.tables(R.farm, area)):
            real = tables[np.uint64(key)]
            rows = [(s["base_probability"], s["time"], s["weather"]) for s in slots]
            tagged = None
            for t, w in itertools.product(range(la.TIMES), range(la.WEATHERS)):
                vector = tuple((r[0], r[1][t], r[2][w]) for r in rows)
                fresh = vector not in seen
                # every real table is asked at every time and weather whose weights differ from the previous ones
                floats = [r[0] * r[1][t] * r[2][w] for r in rows]
                total = sum(floats)
                if not total:
                    skipped += 1
                    continue
                if fresh:
                    R.progress(f"{area} {key:#x} {t} {w}")
                    seen.add(vector)
                    weights = weights_of(rows, t, w)
                    tagged = tagged or build(scope, rows)
                    for draw in draws_for(weights):
                        n += judge(R, tagged, rows, weights, draw, t, w)
                if not R.thorough and not fresh and (number + t * 9 + w) % 6:
                    continue
                upto = 0.0
                for i, x in enumerate(floats):
                    if x:
                        draw = np.float32((upto + x / 2) / total)
                        got, want = real.calc_slot(draw, t, w), slots[i]
                        R.state(area, key, t, w, i)
                        n += 1
                        if [int(got[f]) for f in encdump.SLOT_LA] != [want[f] for f in encdump.SLOT_LA]:
                            R.fail("real choice", f"{area} table {key:#x}, time {t}, weather {w}, draw {float(draw)!r}: {[int(got[f]) for f in encdump.SLOT_LA]}, expected slot {i}: {[want[f] for f in encdump.SLOT_LA]}",
                                   {"area": area, "table": key, "time": t, "weather": w, "draw": float(draw)},
                                   HEAD + f"got = E.ENCOUNTER_INFORMATION_LA[LAArea.{area}][np.uint64({key})].calc_slot(np.float32({float(draw)!r}), {t}, {w})\ngot = [int(got[f]) for f in {encdump.SLOT_LA!r}]\nassert got == {[want[f] for f in encdump.SLOT_LA]!r}, got\n")
                    upto += x
                if R.full():
                    return
    R.note(f"{len(seen)} distinct weight vectors, {skipped} table, time and weather combinations without any eligible slot")
    R.count("transitions", n)
    R.count("traces_validated_against_impl", len(seen))


def vectors(R, part, parts):
    scope = {}
    exec(HEAD, scope)
    single = ((0, 1.0, 1.0), (1, 0.0, 1.0), (1, 1.0, 0.0), (1, 1.0, 1.0), (1, 0.5, 1.0), (1, 2.0, 1.5), (3, 1.0, 0.5), (10, 0.5, 0.5), (100, 0.25, 1.0), (70, 1.5, 2.0), (3, 1.0, 1.0), (100, 1.0, 1.0), (2, 1.0, 1.0), (50, 1.0, 1.0), (1, 1.2, 0.8))
    n = number = judged = 0
    pairs = list(itertools.product(range(la.TIMES), range(la.WEATHERS)))
    for size in range(1, 5 if R.thorough else 4):
        for vector in itertools.product(single[:12] if R.thorough and size == 4 else single, repeat=size):
            number += 1
            if number % parts != part:
                continue
            t, w = pairs[number // parts % len(pairs)]
            # the other times and weathers hold other values
            rows = []
            for i, (base, time, weather) in enumerate(vector):
                times = [float(np.float32(0.25 + 0.5 * ((i + j) % 3))) for j in range(la.TIMES)]
                weathers = [float(np.float32(0.5 * ((i * 2 + j) % 4))) for j in range(la.WEATHERS)]
                times[t], weathers[w] = float(np.float32(time)), float(np.float32(weather))
                rows.append((base, times, weathers))
            weights = weights_of(rows, t, w)
            if not sum(weights):
                continue
            area = build(scope, rows)
            judged += 1
            if number % 512 == 0:
                R.progress(f"vector {number}: {vector} time {t} weather {w}")
            draws = draws_for(weights)
            # all 32 bit ones and every third 64 bit one
            for k, draw in enumerate(draws):
                if isinstance(draw, np.float32) and k % 2 == number // parts % 2 or k % 9 == number // parts % 9:
                    n += judge(R, area, rows, weights, draw, t, w)
            if R.full():
                return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", judged)
