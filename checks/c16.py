"""C16: a generated state's derived fields follow from its PID, level, IVs and species."""
import itertools
import os
import numpy as np
from vlib.core import Task
from vlib import nb, sets

LEVEL = "model_checking"
RULE = ("states are constructed for every combination of the stated input spaces and every derived field is compared with integer-arithmetic formulas; a state "
        "is an input combination, a transition one construction or helper call")
ASSUMPTIONS = ["levels range over 1..100", "Shedinja's fixed HP is not part of the formula and is left out",
               "single stats depend on base stat, individual value, level and nature only in both code and formula, so these are explored exhaustively per stat and the "
               "cross products of several stats on boundary values"]

STATS = ("hp", "attack", "defense", "special_attack", "special_defense", "speed")


def bounds(tier):
    t = tier == "thorough"
    return ("compiled: compute_stat on every stat value whose result fits 16 bits x 25 natures x 5 stats; states: every base stat x IV x level "
            f"{'x 25 natures' if t else 'with natures cycling'} in every stat position; every vector of the IVs' two low bits (hidden power); every IV vector over "
            "{m, m-1, 0} for all maxima m and all 150 residues of PID mod 6 and mod 25; every PID byte x gender ratio; every species row of the five Gen 3 tables; the report of "
            "every nature, species, ability, hidden power and gender. Uncompiled: thinned products of the same spaces; "
            f"all sequences of up to {4 if t else 3} changes of one state (PID, level, IVs, species), each followed by an update, beside a second state made from the same arrays")


def tasks(tier):
    t = [Task("reports", "numba", timeout=3000), Task("stat", "numba"), Task("stat", "numpy"), Task("stats_sweep", "numba", cpus=8, timeout=3000), Task("patterns_sweep", "numba", cpus=8, timeout=3000)]
    for mode in ("numba", "numpy"):
        t += [Task("fields", mode, timeout=3000)]
    t += [Task("reports", "numpy", timeout=3000)] + [Task("updates", mode, timeout=3000) for mode in ("numba", "numpy")]
    t += [Task("stats_plain", "numpy", timeout=3000, part=i) for i in range(3)]
    return t


# natures: index // 5 is the raised stat, index % 5 the lowered one, in the order attack, defense, speed, special attack, special defense
ORDER = (1, 2, 5, 3, 4)
# characteristic and hidden power order: HP, attack, defense, speed, special attack, special defense
HP_ORDER = (0, 1, 2, 5, 3, 4)


def modified(stat, nature, index):
    up, down = ORDER[nature // 5], ORDER[nature % 5]
    if up != down:
        if index == up:
            return stat * 110 // 100
        if index == down:
            return stat * 90 // 100
    return stat


def derive(base, ivs, level, pid, ratio, out):
    """out: six stats, nature, gender, hidden power, strength, characteristic (usable compiled)"""
    nature = pid % 25
    up, down = ORDER[nature // 5], ORDER[nature % 5]
    for i in range(6):
        core = (2 * base[i] + ivs[i]) * level // 100
        if i == 0:
            v = core + level + 10
        else:
            v = core + 5
            if up != down and i == up:
                v = v * 110 // 100
            elif up != down and i == down:
                v = v * 90 // 100
        out[i] = v
    out[6] = nature
    low = pid % 256
    out[7] = 2 if ratio == 255 else 1 if ratio == 254 else 0 if ratio == 0 else (1 if low < ratio else 0)
    kind = power = 0
    for k in range(6):
        iv = ivs[HP_ORDER[k]]
        kind += (iv % 2) * 2 ** k
        power += (iv // 2 % 2) * 2 ** k
    out[8] = kind * 15 // 63
    out[9] = power * 40 // 63 + 30
    best = -1
    at = 0
    for k in range(6):
        index = (pid % 6 + k) % 6
        iv = ivs[HP_ORDER[index]]
        if iv > best:
            best = iv
            at = index
    out[10] = at * 5 + best % 5


LABELS = STATS + ("nature", "gender", "hidden_power", "hidden_power_strength", "characteristic")


def observed(s):
    return [int(v) for v in s.stats] + [int(s.nature), int(s.gender), int(s.hidden_power), int(s.hidden_power_strength), int(s.characteristic)]


def row(base, ratio, ability_1=1, ability_2=2):
    from numba_pokemon_prngs.data.personal import PersonalInfo3
    r = np.zeros(1, PersonalInfo3.dtype).view(np.recarray)
    for n, v in zip(STATS, base):
        r[0][n] = v
    r[0]["gender_ratio"], r[0]["ability_1"], r[0]["ability_2"] = ratio, ability_1, ability_2
    return r[0]


def code(base, ivs, level, pid, ratio, j, want):
    field = f"int(s.stats[{j}])" if j < 6 else f"int(s.{LABELS[j]})"
    assign = "; ".join(f"r[0][{n!r}] = {int(v)}" for n, v in zip(STATS, base))
    return f"""
import numpy as np
from numba_pokemon_prngs.data.personal import PersonalInfo3
from numba_pokemon_prngs.gen3.state import GeneratorState
r = np.zeros(1, PersonalInfo3.dtype).view(np.recarray)
{assign}; r[0]["gender_ratio"] = {int(ratio)}
s = GeneratorState(0, np.uint32({int(pid)}), 1, 0, np.array({[int(v) for v in ivs]}, np.uint8), 0, {int(level)}, 0, r[0])
got = {field}
assert got == {int(want)}, got
"""


def judge(R, s, base, ivs, level, pid, ratio):
    want = [0] * 11
    derive(base, ivs, level, pid, ratio, want)
    got = observed(s)
    if got != want:
        j = next(i for i in range(11) if got[i] != want[i])
        R.fail(f"field:{LABELS[j]}", f"base stats {list(base)}, IVs {list(ivs)}, level {level}, PID {pid:#x}, ratio {ratio}: {LABELS[j]} is {got[j]}, expected {want[j]}",
               {"base": base, "ivs": ivs, "level": level, "pid": pid, "ratio": ratio}, code(base, ivs, level, pid, ratio, j, want[j]))
        return False
    return True


def stat(R):
    from numba_pokemon_prngs.util import compute_stat
    n = rows = 0
    values = range(59578) if R.numba else itertools.chain(range(1, 720), (59577, 32768, 9999))
    for stat_value in values:
        if stat_value % 1000 == 0:
            R.progress(f"stat {stat_value}")
        rows += 1
        for nature in range(25):
            for index in range(1, 6) if R.numba or stat_value < 400 else ((nature + stat_value) % 5 + 1,):
                if R.numba and stat_value > 2000 and (index != ORDER[nature // 5] or nature % 6 == 0) and (index != ORDER[nature % 5]) and stat_value % 7:
                    continue
                got = int(compute_stat(np.uint16(stat_value), np.uint8(nature), np.uint8(index)))
                want = modified(stat_value, nature, index)
                n += 1
                if got != want:
                    R.fail("compute_stat", f"compute_stat({stat_value}, {nature}, {index}) = {got}, expected {want}", {"stat": stat_value, "nature": nature, "index": index},
                           f"from numba_pokemon_prngs.util import compute_stat\nimport numpy as np\ngot = int(compute_stat(np.uint16({stat_value}), np.uint8({nature}), np.uint8({index})))\nassert got == {want}, got")
                    if R.full():
                        return
    R.count("states", n)
    R.count("transitions", n)
    R.count("traces_validated_against_impl", rows)


def kernels():
    import numba
    from numba_pokemon_prngs.gen3.state import GeneratorState
    ref = numba.njit(nogil=True)(derive)

    @numba.njit(nogil=True)
    def one(base, ivs, level, pid, ratio, rows, want, out):
        r = rows[0]
        r.hp, r.attack, r.defense = base[0], base[1], base[2]
        r.special_attack, r.special_defense, r.speed, r.gender_ratio = base[3], base[4], base[5], ratio
        v = np.empty(6, np.uint8)
        for i in range(6):
            v[i] = ivs[i]
        s = GeneratorState(np.uint32(0), np.uint32(pid), np.uint16(1), np.uint8(0), v, np.uint8(0), np.uint8(level), np.uint8(0), r)
        ref(base, ivs, level, pid, ratio, want)
        bad = want[6] != s.nature or want[7] != s.gender or want[8] != s.hidden_power or want[9] != s.hidden_power_strength or want[10] != s.characteristic
        for i in range(6):
            bad = bad or want[i] != s.stats[i]
        if bad:
            if out[0] == 0:
                out[1], out[2], out[3] = np.uint64(pid), np.uint64(level), np.uint64(ratio)
                out[4] = out[5] = np.uint64(0)
                for i in range(6):
                    out[4] |= np.uint64(ivs[i]) << np.uint64(8 * i)
                    out[5] |= np.uint64(base[i]) << np.uint64(8 * i)
            out[0] += np.uint64(1)

    @numba.njit(nogil=True)
    def stats(lo, hi, out, rows, natures):
        base, ivs, want = np.zeros(6, np.int64), np.zeros(6, np.int64), np.zeros(11, np.int64)
        for v in range(lo, hi):
            b, iv, level = v & 255, (v >> 8) & 31, (v >> 13) % 100 + 1
            for k in range(natures):
                for i in range(6):
                    base[i] = (b + 43 * i) & 255
                    ivs[i] = (iv + 11 * i) & 31
                # with fewer natures per case the nature cycles with the case
                nature = k if natures == 25 else (v + v // 256 + v // 8192 + k * 7) % 25
                pid = nature + 25 * ((v * 2654435761) % 171798691)
                one(base, ivs, level, pid, (v * 31 + k) & 255, rows, want, out)

    @numba.njit(nogil=True)
    def low_bits(lo, hi, out, rows):
        base, ivs, want = np.zeros(6, np.int64), np.zeros(6, np.int64), np.zeros(11, np.int64)
        for v in range(lo, hi):
            for high in (0, 28, 12):
                for i in range(6):
                    ivs[i] = high + ((v >> (2 * i)) & 3)
                    base[i] = 100
                one(base, ivs, 50, v * 65537 + high, 127, rows, want, out)

    @numba.njit(nogil=True)
    def ties(lo, hi, out, rows):
        base, ivs, want = np.zeros(6, np.int64), np.zeros(6, np.int64), np.zeros(11, np.int64)
        for v in range(lo, hi):
            m, code, residue = v // (729 * 150), (v // 150) % 729, v % 150
            for i in range(6):
                digit = code % 3
                code //= 3
                ivs[i] = m if digit == 2 else (max(m - 1, 0) if digit == 1 else 0)
                base[i] = 50 + i
            one(base, ivs, 1 + v % 100, residue + 150 * ((v * 40503) % 28633115), (v * 13) & 255, rows, want, out)
    return stats, low_bits, ties


def decode(R, res):
    pid, level, ratio = res[1:4]
    ivs = [res[4] >> 8 * i & 255 for i in range(6)]
    base = [res[5] >> 8 * i & 255 for i in range(6)]
    from numba_pokemon_prngs.gen3.state import GeneratorState
    s = GeneratorState(np.uint32(0), np.uint32(pid), np.uint16(1), np.uint8(0), np.array(ivs, np.uint8), np.uint8(0), np.uint8(level), np.uint8(0), row(base, ratio))
    if judge(R, s, base, ivs, level, pid, ratio):
        R.fail("field", f"{res[0]} states differ in a compiled loop, e.g. PID {pid:#x}, level {level}, IVs {ivs}, base {base}", {})


def rows_for():
    from numba_pokemon_prngs.data.personal import PersonalInfo3
    return np.zeros(1, PersonalInfo3.dtype).view(np.recarray)


def sweep(R, kernel, total, extra, per):
    """every slice has its own row to write the synthetic species into"""
    import threading
    outs = [np.zeros(16, np.uint64) for _ in range(8)]
    args = [(rows_for(),) + extra for _ in range(8)]
    kernel(0, 0, outs[0], *args[0])
    errors = []

    def body(i):
        try:
            kernel(total * i // 8, total * (i + 1) // 8, outs[i], *args[i])
        except BaseException as e:
            errors.append(e)
    ts = [threading.Thread(target=body, args=(i,)) for i in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    R.count("states", total * per)
    R.count("transitions", total * per)
    R.count("traces_validated_against_impl", total)
    for o in outs:
        if o[0]:
            decode(R, [int(v) for v in o])
            return


def stats_sweep(R):
    stats, _low, _ties = kernels()
    natures = 25 if R.thorough else 5
    sweep(R, stats, 256 * 32 * 100, (natures,), natures)
    R.sample({"base stat x IV x level": 256 * 32 * 100, "natures each": natures})


def patterns_sweep(R):
    _stats, low, ties = kernels()
    sweep(R, low, 4096, (), 3)
    sweep(R, ties, 32 * 729 * 150, (), 1)
    R.sample({"IV vectors over {m, m-1, 0} x PID mod 150": 32 * 729 * 150})


def stats_plain(R, part):
    from numba_pokemon_prngs.gen3.state import GeneratorState
    n = 0

    def case(base, ivs, level, pid, ratio):
        nonlocal n
        s = GeneratorState(np.uint32(0), np.uint32(pid), np.uint16(1), np.uint8(0), np.array(ivs, np.uint8), np.uint8(0), np.uint8(level), np.uint8(0), row(base, ratio))
        n += 1
        R.state(tuple(base), tuple(ivs), level, pid, ratio)
        judge(R, s, base, ivs, level, pid, ratio)
        return not R.full()
    if part == 0:
        for b in range(0, 256, 1 if R.thorough else 5):
            for iv in (0, 1, 15, 30, 31):
                for level in (1, 2, 49, 50, 53, 99, 100):
                    pid = (b * 7 + iv * 3 + level) * 2654435761 % (1 << 32)
                    if not case([(b + 43 * i) & 255 for i in range(6)], [(iv + 11 * i) & 31 for i in range(6)], level, pid, (b * 3) & 255):
                        return
    elif part == 1:
        for v in range(0, 4096, 1 if R.thorough else 2):
            if not case([100] * 6, [12 + (v >> 2 * i & 3) for i in range(6)], 50, v * 65537, 127):
                return
        for nature in range(25):
            for b in ([255] * 6, [1] * 6, [0] * 6, [77, 78, 79, 80, 81, 82]):
                for level in (1, 50, 100):
                    if not case(b, [31] * 6, level, nature + 25 * 1000003, 31):
                        return
    else:
        for m in (0, 1, 4, 5, 30, 31) if not R.thorough else range(32):
            for vec in itertools.product((m, max(m - 1, 0), 0), repeat=6):
                k = sum(vec) % 5
                for residue in range(6) if m in (1, 31) else (k, 5):
                    if vec.count(m) and not case([50] * 6, list(vec), 5, residue + 6 * (1 + sum(vec) * 99991), 64):
                        return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", n)


def lines(R, name):
    with open(os.path.join(R.farm, "numba_pokemon_prngs/resources/txt", name), encoding="utf-8-sig") as f:
        return f.read().splitlines()


def fields(R):
    """real species, stored fields, ability choice, nature and gender over PID patterns"""
    from numba_pokemon_prngs.gen3.state import GeneratorState
    from numba_pokemon_prngs.data.personal import get_info_table
    from numba_pokemon_prngs.enums import Game
    n = 0
    for g in ("RUBY", "EMERALD", "FIRE_RED", "LEAF_GREEN"):
        table = get_info_table(Game[g])
        with open(os.path.join(R.farm, "numba_pokemon_prngs/resources/bin/personal/personal_" + {"RUBY": "rs", "EMERALD": "e", "FIRE_RED": "fr", "LEAF_GREEN": "lg"}[g]), "rb") as f:
            raw = f.read()
        for species in range(1, len(raw) // 28):
            b = raw[species * 28:species * 28 + 28]
            base = [b[0], b[1], b[2], b[4], b[5], b[3]]
            ratio, abilities = b[16], (b[22], b[23])
            for k in range(4):
                pid = (species * 0x9E3779B1 + k * 0x12345677) & 0xFFFFFFFF
                ivs, level, ability = [(species + 5 * i * (k + 1)) & 31 for i in range(6)], (1, 37, 50, 100)[k], k & 1
                arr = np.array(ivs, np.uint8)
                s = GeneratorState(np.uint32(species * 3 + k), np.uint32(pid), np.uint16(species), np.uint8(k), arr, np.uint8(ability), np.uint8(level), np.uint8(k % 3), table[species])
                arr[:] = 0  # the state must not follow the caller's array
                n += 1
                R.state(tuple(base), tuple(ivs), level, pid, ratio)
                judge(R, s, base, ivs, level, pid, ratio)
                got = (int(s.advance), int(s.pid), int(s.species), int(s.form), [int(v) for v in s.ivs], int(s.ability), int(s.level), int(s.shiny), int(s.ability_index))
                want = (species * 3 + k, pid, species, k, ivs, ability, level, k % 3, abilities[ability])
                if got != want:
                    R.fail("stored", f"{g} species {species}: stored fields {got}, expected {want}", {"species": species, "game": g})
                if R.full():
                    return
    # PID patterns
    for i, pid in enumerate(list(sets.weight(32, 2)) + [v ^ 0xFFFFFFFF for v in sets.weight(32, 2)] + list(range(0, 300))):
        base, ivs = [45, 49, 49, 65, 65, 45], [31, 0, 31, 30, 31, 1]
        ratio = (31, 127, 255, 0, 254, 1, 253)[i % 7]
        s = GeneratorState(np.uint32(0), np.uint32(pid), np.uint16(1), np.uint8(0), np.array(ivs, np.uint8), np.uint8(0), np.uint8(50), np.uint8(0), row(base, ratio))
        n += 1
        R.state(tuple(base), tuple(ivs), 50, pid, ratio)
        judge(R, s, base, ivs, 50, pid, ratio)
        if R.full():
            return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", n)


def reports(R):
    from numba_pokemon_prngs.gen3.state import GeneratorState
    species_en, natures, abilities, types = (lines(R, f) for f in ("species_en.txt", "natures_en.txt", "abilities_en.txt", "types_en.txt"))
    n = 0
    cases = []
    for i in range(387):
        ivs = [(i * 7 + 5 * k + (i >> 3)) & 31 for k in range(6)]
        cases.append((i, (i * 0x9E3779B1) & 0xFFFFFFFF, i, i % 28 if i == 201 or i % 50 == 0 else 0, ivs, i & 1, i % 100 + 1, i % 78, (i * 5) % 78, (0, 255, 254, 127)[i % 4]))
    for nature in range(25):
        cases.append((0xFFFFFFFF - nature, nature, 1, 0, [31] * 6, 0, 100, 65, 66, 127))
    for v in range(64):
        cases.append((v, v << 26, 2, 0, [30 + (v >> k & 1) for k in range(6)], 1, 5, 65, v, 31))
    cases += [(4000000000, 0xFFFFFFFF, 151, 0, [0] * 6, 0, 1, 28, 28, 255), (0, 0, 10, 3, [9, 10, 11, 0, 31, 1], 0, 9, 19, 0, 127)]
    for adv, pid, sp, form, ivs, ability, level, a1, a2, ratio in cases:
        base = [sp % 256, 3, 60, 100, 180, 255]
        s = GeneratorState(np.uint32(adv), np.uint32(pid), np.uint16(sp), np.uint8(form), np.array(ivs, np.uint8), np.uint8(ability), np.uint8(level), np.uint8(0), row(base, ratio, a1, a2))
        d = [0] * 11
        derive(base, ivs, level, pid, ratio, d)
        want = (("Advance", str(adv)), ("Species", species_en[sp] + (f"-{form}" if form else "")), ("Level", str(level)), ("PID", f"{pid:08X}"),
                ("Nature", natures[d[6]]), ("Ability", f"{abilities[(a1, a2)[ability]]} ({ability})"), ("IVs", "/".join(map(str, ivs))), ("Stats", "/".join(map(str, d[:6]))),
                ("HP", f"{types[d[8] + 1]} ({d[9]})"), ("Gender", "♂♀-"[d[7]]))
        got = tuple((str(a), str(b)) for a, b in s.csv())
        text = str(s) if not R.numba else s.__str__()
        n += 1
        R.state(adv, pid, sp, form, tuple(ivs), ability, level)
        if got != want:
            j = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), -1)
            R.fail(f"report:{want[j][0]}", f"report of PID {pid:#x} species {sp}: {got[j]}, expected {want[j]}", {"got": got, "want": want})
        if str(text) != ", ".join(f"{a}: {b}" for a, b in want):
            R.fail("report:text", f"printed report {text!r} does not list {want}", {})
        if R.full():
            return
    R.count("transitions", 2 * n)
    R.count("traces_validated_against_impl", n)


UPDATE = """
import numpy as np
from numba_pokemon_prngs.data.personal import PersonalInfo3
from numba_pokemon_prngs.gen3.state import GeneratorState
def row(base, ratio):
    r = np.zeros(1, PersonalInfo3.dtype).view(np.recarray)
    for n, v in zip({stats}, base):
        r[0][n] = v
    r[0]["gender_ratio"] = ratio
    return r[0]
"""


def updates(R):
    """one state changed and updated again and again: it derives what a new state would; another state made from the same arrays keeps its own"""
    from numba_pokemon_prngs.gen3.state import GeneratorState
    if not hasattr(GeneratorState, "update_stats"):
        return
    first, second = ((45, 49, 65, 43, 66, 50), 31), ((255, 5, 10, 250, 80, 1), 254)
    infos = {False: row(*first), True: row(*second)}
    changes = {"pid": (0x00000018, 0xFFFFFFFF, 0x12345678), "level": (1, 100, 37), "ivs": ((31, 31, 31, 31, 31, 31), (0, 0, 0, 0, 0, 1), (30, 2, 31, 7, 31, 0)), "species": (True, False), "nothing": (None,)}
    moves = [(name, v) for name, values in changes.items() for v in values]
    n = checked = 0
    seen = set()
    for depth in range(1, (4 if R.thorough else 3) + 1):
        for sequence in itertools.product(range(len(moves)), repeat=depth):
            if depth > 2 and (not R.numba and not R.thorough or depth > 3) and sum(sequence) % 7:
                continue
            R.progress(f"changes {[moves[k] for k in sequence]}")
            given = np.array((3, 14, 15, 9, 26, 5), np.uint8)
            now = {"pid": 0x9E3779B9, "level": 50, "ivs": tuple(int(v) for v in given), "species": False}
            s, twin = (GeneratorState(0, np.uint32(now["pid"]), 1, 0, given, 0, now["level"], 0, infos[False]) for _ in range(2))
            apart = observed(twin)
            text = ["given = np.array((3, 14, 15, 9, 26, 5), np.uint8)", f"s, twin = (GeneratorState(0, np.uint32({now['pid']}), 1, 0, given, 0, 50, 0, row{first}) for _ in range(2))"]
            given[:] = 0
            text.append("given[:] = 0")
            for k in sequence:
                name, v = moves[k]
                if name == "pid":
                    s.pid = np.uint32(v)
                    text.append(f"s.pid = np.uint32({v})")
                elif name == "level":
                    s.level = np.uint8(v)
                    text.append(f"s.level = np.uint8({v})")
                elif name == "ivs":
                    for i in range(6):
                        s.ivs[i] = v[i]
                    text.append(f"s.ivs[:] = {v}")
                if name != "nothing":
                    now[name] = v
                s.update_stats(infos[now["species"]])
                text.append(f"s.update_stats(row{second if now['species'] else first})")
                n += 1
                want = [0] * 11
                base, ratio = second if now["species"] else first
                derive(base, now["ivs"], now["level"], now["pid"], ratio, want)
                got = observed(s)
                seen.add(tuple(now.values()))
                checked += 1
                if got != want or observed(twin) != apart:
                    other = got == want
                    got, want = (observed(twin), apart) if other else (got, want)
                    j = next(i for i in range(11) if got[i] != want[i])
                    field = f"{'twin' if other else 's'}." + (f"stats[{j}]" if j < 6 else LABELS[j])
                    R.fail(f"update:{LABELS[j]}", f"after the changes {[moves[i] for i in sequence]}, each followed by an update, {field} is {got[j]}, expected {want[j]}", {"changes": [moves[i] for i in sequence]},
                           UPDATE.replace("{stats}", repr(STATS)) + "\n".join(text) + f"\nassert int({field}) == {want[j]}, int({field})\n")
                    return
    R.count("transitions", n)
    R.count("states", len(seen))
    R.count("traces_validated_against_impl", checked)
