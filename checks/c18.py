"""C18: Generation 3 wild generation equals the games' procedure at every advance."""
import itertools
import numpy as np
from vlib.core import Task
from vlib import gen3
from checks.c16 import derive

LEVEL = "model_checking"
RULE = ("the games' procedure is run on a reference stream at every advance of a window and compared, field by field, with the list the generator returns; all splits of a window "
        "and all call sequences up to the depth bound on one generator object are explored too; a state is one (configuration, advance), a transition one generated entry or list")
ASSUMPTIONS = ["Unown entries follow the package's own order of draws (nature first, low half first); whether the games' Unown procedure differs is not adjudicated",
               "windows do not cross advance 2^32", "leads act in Emerald only, as in the games"]
U8, U16, U32 = np.uint8, np.uint16, np.uint32
FIELDS = ["advance", "pid", "species", "form", "iv0", "iv1", "iv2", "iv3", "iv4", "iv5", "ability", "ability_index", "level", "shiny", "hp", "attack", "defense", "special_attack",
          "special_defense", "speed", "nature", "gender", "hidden_power", "hidden_power_strength", "characteristic"]
METHODS = {"METHOD_1": 1, "METHOD_2": 2, "METHOD_4": 4}
LEADS = {"NONE": 255, "CUTE_CHARM_F": 25, "CUTE_CHARM_M": 26, "MAGNET_PULL": 27, "STATIC": 28, "PRESSURE": 32, "SUCTION_CUPS": 255, "COMPOUND_EYES": 255, "ARENA_TRAP": 255}
SYNCS = ("HARDY", "LONELY", "BRAVE", "ADAMANT", "NAUGHTY", "BOLD", "DOCILE", "RELAXED", "IMPISH", "LAX", "TIMID", "HASTY", "SERIOUS", "JOLLY", "NAIVE", "MODEST", "MILD", "QUIET", "BASHFUL",
         "RASH", "CALM", "GENTLE", "SASSY", "CAREFUL", "QUIRKY")
LEADS.update({"SYNCHRONIZE_" + s: i for i, s in enumerate(SYNCS)})
SEEDS = (0, 0x5A0, 0xFFFFFFFF, 0x9E3779B9, 0x80000000)


def bounds(tier):
    t = tier == "thorough"
    return (f"compiled: every area x encounter kind of the five games x methods 1, 2, 4 x leads ({'all' if t else '9 of each group, synchronize natures cycling'} in Emerald; two, ignored, elsewhere) x "
            f"{'5 seeds x windows of 128' if t else '2 seeds x windows of 40'} advances, delays and starts up to 2^32; "
            f"one representative area per kind x every lead x method x window of {10000 if t else 1500}, one window of {200000 if t else 66000} per kind for Emerald and Fire Red; "
            "trainers at every distance 0-16 and 2^i from an entry's shiny value, per game x kind x method; "
            "all splits of windows up to 24 and all sequences of up to 3 calls on one generator; uncompiled: the same on one area per kind and game with short windows")


def tasks(tier):
    return ([Task("areas", "numba", cpus=1, timeout=3000, game=g) for g in ("EMERALD", "FIRE_RED", "LEAF_GREEN", "RUBY", "SAPPHIRE")] +
            [Task("windows", "numba", timeout=3000, part=i) for i in range(3)] + [Task("histories", m, timeout=3000) for m in ("numpy", "numba")] +
            [Task("plain", "numpy", timeout=3000, game=g) for g in gen3.GAMES] + [Task("trainers", m, timeout=3000) for m in ("numpy", "numba")])


IMPORTS = """
import numpy as np
from numba_pokemon_prngs.enums import Encounter, Game, Lead, Method
from numba_pokemon_prngs.gen3.wild_generator_3 import WildGenerator3
from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_GEN3
"""
TRAINERS = {"METHOD_1": (24680, 13579), "METHOD_2": (0xFFFF, 1), "METHOD_4": (0, 0)}


class Config:
    """one generator configuration and its reference inputs"""

    def __init__(self, K, root, game, ref, index, kind, method, lead, areas, info, trainer=None):
        self.K, self.game, self.ref, self.index, self.kind, self.method, self.lead, self.info = K, game, ref, index, kind, method, lead, info
        rate, self.slots = ref[kind]
        lead_id = LEADS[lead] if game == "EMERALD" else 255
        effective = lead if game == "EMERALD" else "NONE"
        self.mod = gen3.matching(self.slots, info, effective) if lead_id in (27, 28) else []
        self.tid, self.sid = trainer or TRAINERS[method]
        self.tsv = self.tid ^ self.sid
        rse = game in ("RUBY", "SAPPHIRE", "EMERALD")
        self.p = [METHODS[method], lead_id, int(rse), int(rse and "SAFARI_ZONE" in ref["map"]), rate * 16, self.tsv, int(kind == "ROCK_SMASH")]
        self.area = areas[index]

    def generator(self):
        K = self.K
        return K["WildGenerator3"](K["Method"][self.method], K["Encounter"][self.kind], K["Lead"][self.lead], K["Game"][self.game], U16(self.tid), U16(self.sid))

    def label(self):
        return f"{self.game} {self.ref['map']} {self.kind} {self.lead} {self.method}"

    def code(self, seed, delay, start, count, k, j, want):
        expr = f"states[{k}]"
        name = FIELDS[j]
        get = f"int({expr}.ivs[{name[2]}])" if name[:2] == "iv" else f"int({expr}.stats[{j - 14}])" if 14 <= j < 20 else f"int({expr}.{name})"
        return IMPORTS + f"""
g = WildGenerator3(Method.{self.method}, Encounter.{self.kind}, Lead.{self.lead}, Game.{self.game}, np.uint16({self.tid}), np.uint16({self.sid}))
states = g.generate(np.uint32({seed}), np.uint32({delay}), np.uint32({start}), np.uint32({count}), ENCOUNTER_INFORMATION_GEN3[Game.{self.game}][{self.index}])
got = {get}
assert got == {want}, got
"""


def kit():
    scope = {}
    exec(IMPORTS, scope)
    return scope


def row_of(s):
    return [int(s.advance), int(s.pid), int(s.species), int(s.form)] + [int(v) for v in s.ivs] + [int(s.ability), int(s.ability_index), int(s.level), int(s.shiny)] + [int(v) for v in s.stats] + \
        [int(s.nature), int(s.gender), int(s.hidden_power), int(s.hidden_power_strength), int(s.characteristic)]


def jump(seed, n):
    a, c, ra, rc = 0x41C64E6D, 0x6073, 1, 0
    while n:
        if n & 1:
            ra, rc = ra * a & 0xFFFFFFFF, (rc * a + c) & 0xFFFFFFFF
        a, c = a * a & 0xFFFFFFFF, (c * a + c) & 0xFFFFFFFF
        n >>= 1
    return (seed * ra + rc) & 0xFFFFFFFF


def complete(out, species, form, info, advance):
    """the reference row of an entry from `wild`'s output"""
    row = [advance, out[0], species, form] + list(out[3:9]) + [out[0] & 1, info["abilities"][out[0] & 1], out[2], out[9]]
    tail = [0] * 11
    derive(info["base"], row[4:10], row[12], row[1], info["ratio"], tail)
    return row + tail


def reference(c, seed, delay, start, count):
    """expected rows, in plain Python"""
    state = jump(seed, delay + start)
    ratios = [i["ratio"] for i in c.info]
    rows = []
    out = [0] * 11
    table = gen3.SLOT_OF[c.kind]
    for k in range(count):
        if gen3.wild(state, c.p, table, c.slots, c.mod, len(c.mod), ratios, out):
            species, form = c.slots[out[1]][:2]
            rows.append(complete(out, species, form, c.info[species], start + k))
        state = gen3.step(state)
    return rows


def compare(R, c, args, got, want):
    if got == want:
        return True
    if len(got) != len(want):
        R.fail(f"length:{c.kind}", f"{c.label()} seed {args[0]:#x} delay {args[1]} window {args[2]}+{args[3]}: {len(got)} entries, expected {len(want)}", {"config": c.label(), "args": args},
               IMPORTS + f"g = WildGenerator3(Method.{c.method}, Encounter.{c.kind}, Lead.{c.lead}, Game.{c.game}, np.uint16({c.tid}), np.uint16({c.sid}))\n"
               f"states = g.generate(np.uint32({args[0]}), np.uint32({args[1]}), np.uint32({args[2]}), np.uint32({args[3]}), ENCOUNTER_INFORMATION_GEN3[Game.{c.game}][{c.index}])\nassert len(states) == {len(want)}, len(states)\n")
        return False
    k = next(i for i in range(len(got)) if got[i] != want[i])
    j = next(i for i in range(len(FIELDS)) if got[k][i] != want[k][i])
    R.fail(f"{FIELDS[j]}:{c.kind}", f"{c.label()} seed {args[0]:#x} delay {args[1]} window {args[2]}+{args[3]}: entry {k} (advance {want[k][0]}) has {FIELDS[j]} {got[k][j]}, expected {want[k][j]}",
           {"config": c.label(), "args": args, "got": got[k], "want": want[k]}, c.code(*args, k, j, want[k][j]))
    return False


def fast(K):
    """compiled comparison of whole windows: number of entries compared, or -1 - entries before the first difference"""
    import numba
    ref = gen3.compiled()
    tail = numba.njit(nogil=True)(derive)

    @numba.njit(nogil=True)
    def sweep(gen, area, state, p, table, slots, mod, nmod, ratios, base, abilities, seed, delay, start, count):
        states = gen.generate(np.uint32(seed), np.uint32(delay), np.uint32(start), np.uint32(count), area)
        out = np.zeros(11, np.int64)
        more = np.zeros(11, np.int64)
        n = 0
        for k in range(count):
            if ref(state, p, table, slots, mod, nmod, ratios, out):
                if n >= len(states):
                    return -1 - n
                s = states[n]
                sp, pid = slots[out[1]][0], out[0]
                ok = s.advance == start + k and s.pid == pid and s.species == sp and s.form == slots[out[1]][1] and s.ability == pid % 2 and \
                    s.ability_index == abilities[sp][pid % 2] and s.level == out[2] and s.shiny == out[9]
                tail(base[sp], out[3:9], out[2], pid, ratios[sp], more)
                for i in range(6):
                    ok = ok and s.ivs[i] == out[3 + i] and s.stats[i] == more[i]
                ok = ok and s.nature == more[6] and s.gender == more[7] and s.hidden_power == more[8] and s.hidden_power_strength == more[9] and s.characteristic == more[10]
                if not ok:
                    return -1 - n
                n += 1
            state = (state * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        if len(states) != n:
            return -1 - n
        return n

    def run(R, c, gen, args):
        info = c.info
        key = id(info)
        if key not in cached:
            cached[key] = (np.array([i["ratio"] for i in info], np.int64), np.array([i["base"] for i in info], np.int64), np.array([i["abilities"] for i in info], np.int64))
        ratios, base, abilities = cached[key]
        seed, delay, start, count = args
        n = sweep(gen, c.area, jump(seed, delay + start), np.array(c.p, np.int64), np.array(gen3.SLOT_OF[c.kind], np.int64), np.array(c.slots, np.int64), np.array(c.mod + [0], np.int64), len(c.mod), ratios, base,
                  abilities, seed, delay, start, count)
        R.count("transitions", 1 + max(n, 0))
        R.count("states", count)
        R.count("traces_validated_against_impl")
        if n >= 0:
            return True
        # the same window through the interpreter names the difference
        got, want = [row_of(s) for s in gen.generate(U32(seed), U32(delay), U32(start), U32(count), c.area)], reference(c, *args)
        if compare(R, c, args, got, want):
            R.fail(f"compiled:{c.kind}", f"{c.label()} {args}: differs when called from compiled code only, from entry {-1 - n}", {"args": args})
        return False
    cached = {}
    return run


def load(K, R, game):
    return gen3.encounters(R.farm, game), gen3.personal(R.farm, game), K["ENCOUNTER_INFORMATION_GEN3"][K["Game"][game]]


def usable(ref, kind):
    """kinds of an area with all its slots filled"""
    return ref is not None and ref[kind][0] and all(s[0] for s in ref[kind][1])


GROUPS = (("NONE",), ("CUTE_CHARM_F", "CUTE_CHARM_M"), ("MAGNET_PULL",), ("STATIC",), ("PRESSURE",), ("SUCTION_CUPS", "COMPOUND_EYES", "ARENA_TRAP"), tuple("SYNCHRONIZE_" + s for s in SYNCS))


def areas(R, game):
    K = kit()
    refs, info, tables = load(K, R, game)
    check = fast(K)
    turn = 0
    for index, ref in enumerate(refs):
        for kind in gen3.KINDS:
            if not usable(ref, kind):
                continue
            R.progress(f"{game} {ref['map']} {kind}")
            if game != "EMERALD":
                leads = ["NONE", ("SYNCHRONIZE_BOLD", "CUTE_CHARM_F", "PRESSURE", "STATIC", "MAGNET_PULL")[turn % 5]]
            elif R.thorough:
                leads = list(LEADS)
            else:
                leads = [x for g in GROUPS for x in ((g[turn % len(g)],) if len(g) != 2 else g)] + ["SYNCHRONIZE_" + SYNCS[(turn * 7 + 3) % 25]]
            for lead in leads:
                for method in METHODS:
                    turn += 1
                    c = Config(K, R.farm, game, ref, index, kind, method, lead, tables, info)
                    gen = c.generator()
                    for i in range(5 if R.thorough else 2):
                        seed = SEEDS[(turn + i) % 5] if i else (turn * 0x9E3779B1 + R.seed) & 0xFFFFFFFF
                        delay = (0, 1, 500, 0x7FFFFFFF, 0xFFFFFFFF)[(turn + i) % 5]
                        start = (0, 1, 1000, 0x80000000 - 8, 0xFFFFFF00)[(turn // 5 + i) % 5]
                        if not check(R, c, gen, (seed, delay, start, 128 if R.thorough else 40)) and R.full():
                            return
    R.sample({"game": game, "configurations": turn})


def representatives(refs, kind, info):
    """areas that differ in what matters: gender ratios, types, widths of levels, safari"""
    seen, out = set(), []
    for i, ref in enumerate(refs):
        if usable(ref, kind):
            traits = (frozenset(info[s[0]]["ratio"] for s in ref[kind][1]), bool(gen3.matching(ref[kind][1], info, "STATIC")), bool(gen3.matching(ref[kind][1], info, "MAGNET_PULL")),
                      "SAFARI" in ref["map"])
            if traits not in seen:
                seen.add(traits)
                out.append(i)
    return out


def windows(R, part):
    K = kit()
    refs, info, tables = load(K, R, "EMERALD")
    check = fast(K)
    n = 10000 if R.thorough else 1500
    for kind in gen3.KINDS[part::3]:
        for index in representatives(refs, kind, info)[:8 if R.thorough else 4]:
            for lead in LEADS:
                R.progress(f"{refs[index]['map']} {kind} {lead}")
                for method in METHODS:
                    c = Config(K, R.farm, "EMERALD", refs[index], index, kind, method, lead, tables, info)
                    count = n if lead in ("NONE", "CUTE_CHARM_F", "CUTE_CHARM_M", "MAGNET_PULL", "STATIC", "PRESSURE") else n // 5
                    if not check(R, c, c.generator(), (0x12345678 ^ index * 0x10001, index, index * 100, count)) and R.full():
                        return
        # more entries than 16 bits count
        for game, method, lead in (("EMERALD", "METHOD_2", "NONE"), ("FIRE_RED", "METHOD_1", "NONE")):
            refs_, info_, tables_ = load(K, R, game)
            index = representatives(refs_, kind, info_)
            if not index:
                continue
            R.progress(f"{game} {kind}: a long window")
            c = Config(K, R.farm, game, refs_[index[-1]], index[-1], kind, method, lead, tables_, info_)
            if not check(R, c, c.generator(), (0xC0FFEE, 3, 65500, 200000 if R.thorough else 66000)) and R.full():
                return


def histories(R):
    """all splits of a window; all sequences of calls on one generator object"""
    K = kit()
    n = lists_read = 0
    seen = set()
    for game, kind, lead, method in (("EMERALD", "GRASS", "CUTE_CHARM_M", "METHOD_4"), ("EMERALD", "ROCK_SMASH", "STATIC", "METHOD_1"), ("RUBY", "ROCK_SMASH", "NONE", "METHOD_2"), ("FIRE_RED", "ROCK_SMASH", "NONE", "METHOD_4"),
                                     ("FIRE_RED", "SUPER_ROD", "NONE", "METHOD_1"), ("EMERALD", "SURFING", "PRESSURE", "METHOD_2")):
        refs, info, tables = load(K, R, game)
        picks = [i for i in range(len(refs)) if usable(refs[i], kind)]
        if kind == "ROCK_SMASH":
            # a rate low enough for some checks to fail
            picks.sort(key=lambda i: refs[i][kind][0])
        c = Config(K, R.farm, game, refs[picks[0]], picks[0], kind, method, lead, tables, info)
        other = Config(K, R.farm, game, refs[picks[-1]], picks[-1], kind, method, lead, tables, info)
        gen = c.generator()

        def take(conf, seed, delay, start, count):
            return [row_of(s) for s in gen.generate(U32(seed), U32(delay), U32(start), U32(count), conf.area)]
        size = 24 if R.numba or R.thorough else 12
        for seed in (0xC0FFEE, 3):
            for delay, start in ((0, 0), (7, 100), (0x80000000, 0x7FFFFFF0)):
                whole = take(c, seed, delay, start, size)
                n += 1
                if not compare(R, c, (seed, delay, start, size), whole, reference(c, seed, delay, start, size)):
                    return
                for cut in range(size + 1):
                    R.progress(f"{c.label()} split at {cut}")
                    for second_first in (False, True):
                        if second_first:
                            b = take(c, seed, delay, start + cut, size - cut)
                            a = take(c, seed, delay, start, cut)
                        else:
                            a = take(c, seed, delay, start, cut)
                            b = take(c, seed, delay, start + cut, size - cut)
                        n += 2
                        lists_read += 1
                        seen.add((game, kind, seed, delay, start, cut, second_first))
                        if a + b != whole:
                            bad, args = (a, (seed, delay, start, cut)) if a != [r for r in whole if r[0] < start + cut] else (b, (seed, delay, start + cut, size - cut))
                            if compare(R, c, args, bad, reference(c, *args)):
                                R.fail("split", f"{c.label()} window {start}+{size} split at {cut}: the halves differ from the whole", {"cut": cut})
                            return
        # windows of the same draws: delay and start only matter as a sum
        # most advances fail the rock smash check: longer windows, in which the rates of the two areas tell
        w = 50 if kind == "ROCK_SMASH" else 1
        calls = [(c, 1, 0, 0, 3 * w), (c, 1, 2, 5, 2 * w), (other, 0xFFFFFFFF, 0, 0, 2 * w), (c, 0xABCDEF, 0, 4, 0), (other, 1, 0, 0, 3 * w)]
        wants = [reference(*call) for call in calls]
        for depth in (1, 2, 3):
            for sequence in itertools.product(range(len(calls)), repeat=depth):
                R.progress(f"{c.label()} calls {sequence}")
                gen = c.generator()
                lists = []
                for k in sequence:
                    lists.append((k, gen.generate(U32(calls[k][1]), U32(calls[k][2]), U32(calls[k][3]), U32(calls[k][4]), calls[k][0].area)))
                n += depth
                lists_read += depth
                seen.update((game, kind, sequence[:i + 1]) for i in range(depth))
                for k, states in lists:  # read after all calls: earlier results must not have changed
                    if [row_of(s) for s in states] != wants[k]:
                        R.fail("history", f"{c.label()}: after the calls {[calls[i][1:] for i in sequence]} call {calls[k][1:]} holds other entries than on a fresh generator", {"sequence": sequence, "call": k})
                        return
    R.count("states", len(seen))
    R.count("transitions", n)
    R.count("traces_validated_against_impl", lists_read)


def plain(R, game):
    K = kit()
    refs, info, tables = load(K, R, game)
    turn = n = 0
    for kind in gen3.KINDS:
        picks = representatives(refs, kind, info)
        for index in picks if R.thorough else picks[:3] if game == "EMERALD" else picks[:1] + picks[-1:]:
            leads = list(LEADS) if R.thorough and game == "EMERALD" else [x for g in GROUPS[:-1] for x in g] + ["SYNCHRONIZE_HARDY", "SYNCHRONIZE_QUIRKY", "SYNCHRONIZE_" + SYNCS[turn % 25]] if game == "EMERALD" else ["NONE", "CUTE_CHARM_F", "PRESSURE"]
            for lead in leads:
                for method in METHODS:
                    turn += 1
                    c = Config(K, R.farm, game, refs[index], index, kind, method, lead, tables, info)
                    args = ((turn * 0x9E3779B1 + R.seed) & 0xFFFFFFFF, (0, 1, 500, 0x7FFFFFFF, 0xFFFFFFFF)[turn % 5], (0, 1, 1000, 0x80000000 - 3, 0xFFFFFF00)[turn // 5 % 5], 12 if R.thorough else 6)
                    R.progress(f"{c.label()} {args}")
                    got = [row_of(s) for s in c.generator().generate(U32(args[0]), U32(args[1]), U32(args[2]), U32(args[3]), c.area)]
                    n += 1 + len(got)
                    for r in got:
                        R.state(c.label(), *args[:2], r[0])
                    if not compare(R, c, args, got, reference(c, *args)) and R.full():
                        return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", turn)


def trainers(R):
    """trainers for whom the entries of a window are shiny, and nearly so: the window is generated again for each of them"""
    K = kit()
    n = lists_read = 0
    distances = list(range(17)) + [1 << i for i in range(5, 16)] + [0xFFFF, 0x8007, 0xFF00]
    tids = (0, 1, 0xFF, 0x100, 12345, 0x7FFF, 0x8000, 0xAAAA, 0xFFFE, 0xFFFF) if R.thorough else (0, 0xFF, 12345, 0x8000, 0xFFFF)
    turn = 0
    for game in gen3.GAMES:
        refs, info, tables = load(K, R, game)
        for kind in gen3.KINDS:
            picks = representatives(refs, kind, info)
            if not picks:
                continue
            for method in METHODS:
                turn += 1
                index = picks[turn % len(picks)]
                lead = ("NONE", "CUTE_CHARM_F", "SYNCHRONIZE_BOLD", "STATIC")[turn % 4]
                seed, start = (turn * 0x9E3779B1 + R.seed) & 0xFFFFFFFF, (0, 77, 0xFFFF00)[turn % 3]
                base = Config(K, R.farm, game, refs[index], index, kind, method, lead, tables, info)
                size = 4
                rows = reference(base, seed, 3, start, size)
                while not rows and size < 400:
                    size *= 2
                    rows = reference(base, seed, 3, start, size)
                if not rows:
                    continue
                pid = rows[-1][1]
                # the window shrinks to the one entry, except for the first trainer
                at = rows[-1][0]
                for t, tid in enumerate(tids if R.numba or R.thorough else tids[turn % 5:][:1]):
                    for d in distances:
                        trainer = (tid, tid ^ (pid >> 16) ^ (pid & 0xFFFF) ^ d)
                        R.progress(f"{base.label()} trainer {trainer}")
                        c = Config(K, R.farm, game, refs[index], index, kind, method, lead, tables, info, trainer)
                        args = (seed, 3, start, size) if t == 0 and d < 2 else (seed, 3, at, 1)
                        got = [row_of(s) for s in c.generator().generate(U32(args[0]), U32(args[1]), U32(args[2]), U32(args[3]), c.area)]
                        want = reference(c, *args)
                        n += 1 + len(got)
                        lists_read += 1
                        R.state(game, kind, method, tid, d)
                        if not want or want[-1][13] != (2 if d == 0 else 1 if d < 8 else 0):
                            raise AssertionError("the reference disagrees with the distance")
                        if not compare(R, c, args, got, want) and R.full():
                            return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", lists_read)
