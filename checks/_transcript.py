"""Transcript of the package's public operations: python -m checks._transcript SECTION OUT

Every operation is run with its numeric arguments given as plain integers, as the declared type and
as every narrower unsigned type wide enough. The transcript maps an operation and its numeric
arguments to the set of distinct outcomes seen; run once per mode, the outcomes must all be one.
"""
import itertools
import json
import os
import sys
import warnings
import numpy as np

UINTS = (np.uint8, np.uint16, np.uint32, np.uint64)
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def plain(v):
    if isinstance(v, (str, bytes)):
        return str(v)
    if v is None:
        return None
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return int(v) if float(v).is_integer() else round(float(v), 5)
    if isinstance(v, np.void) and v.dtype.names:
        return {n: plain(v[n]) for n in v.dtype.names if n != "misc"}
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    return [plain(x) for x in v]


def variants(values, declared):
    """(label, typed values): all plain, all declared, then each argument and all arguments in each other wide enough type"""
    ints = [i for i, d in enumerate(declared) if d is not None]
    out = []

    def add(label, vals):
        if label not in [o[0] for o in out]:
            out.append((label, vals))

    def typed(assign):
        return [v if assign.get(i) is None else assign[i](v) for i, v in enumerate(values)]
    if all(values[i] < 1 << 63 for i in ints):
        add("int", list(values))
    add("declared", typed(dict((i, declared[i]) for i in ints)))
    def narrower(t, i):
        return np.dtype(t).itemsize < np.dtype(declared[i]).itemsize and values[i] < 1 << np.dtype(t).itemsize * 8
    for i in ints:
        for t in UINTS:
            if narrower(t, i):
                add(f"arg{i} {t.__name__}", typed({**{j: declared[j] for j in ints}, i: t}))
    if len(ints) > 1:
        for t in UINTS:
            use = {i: t if narrower(t, i) else declared[i] for i in ints}
            if any(v is t for v in use.values()):
                add(f"all {t.__name__}", typed(use))
    return out


class Transcript:
    def __init__(self):
        self.data = {}
        self.runs = 0

    def call(self, key, values, declared, fn, few=False):
        """fn(*typed values) -> outcome"""
        seen = {}
        todo = variants(values, declared)
        if few:
            todo = [v for v in todo if not v[0].startswith("all")]
        for label, typed in todo:
            self.runs += 1
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    outcome = plain(fn(*typed))
            except Exception as e:
                outcome = f"raises {type(e).__name__}: {str(e)[:200]}"
            seen.setdefault(json.dumps(outcome), []).append(label)
        self.data[f"{key} {values}"] = seen


def edge(*values):
    return [(v,) for v in values]


def generator_section(T, name):
    from vlib import machines
    M = machines.get(name)
    scope = {"np": np}
    exec(M.imports, scope)
    cls = scope[name]

    def observe(g):
        r = [g.next()]
        if hasattr(g, "previous"):
            r += [g.next(), g.previous(), g.previous(), g.next()]
        return r + [g.next_rand(np.uint16(1000)) if name in machines.lcgs.CLASSES else g.next_rand(np.uint32(1000)), g.next()]
    U8, U16, U32, U64 = UINTS
    is_lcg = name in machines.lcgs.CLASSES
    big = is_lcg and machines.lcgs.CLASSES[name][0] == 64
    seed_t = U64 if big or name in ("Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus") else U32
    top = (1 << np.dtype(seed_t).itemsize * 8) - 1
    if name == "Xorshift128":
        seeds = [(1, 2, 3, 4), (255, 0, 254, 1), (0xFFFF, 300, 1, 0), (top, top, top - 1, top), (0x80000000, 0, 0, 0)]
        types = (U32,) * 4
    elif name == "Xoroshiro128PlusRejection":
        seeds = [(5, 9), (255, 1), (0xFFFF, 0x8000), (0xFFFFFFFF, 0x80000000), (top >> 1, 1 << 62), (top, top)]
        types = (U64,) * 2
    else:
        seeds = edge(0, 1, 255, 256, 65535, 0x12345678, 0x80000000, 0xFFFFFFFF) + (edge(1 << 32, (1 << 63) - 1, 1 << 63, top) if seed_t is U64 else [])
        types = (seed_t,)
    one = name == "Xoroshiro128PlusRejection"
    for s in seeds:
        T.call("constructor", s, types, lambda *a: observe(cls(*a)))

        def again(*a):
            g = M.new(0)
            g.next()
            g.re_init(*a)
            return observe(g)
        T.call("re_init", s, types, again)
    if one:
        for s in edge(0, 255, 0xFFFFFFFF, top >> 1, top):
            T.call("constructor with the default second seed", s, (U64,), lambda a: observe(cls(a)))
            T.call("re_init with the default second seed", s, (U64,), lambda a: (lambda g: (g.re_init(a), observe(g))[1])(M.new(1)))

    def method(op):
        def run(*a):
            g = M.new(1)
            r = getattr(g, op)(*a)
            return [r if op not in ("advance",) or is_lcg else None] + observe(g)
        return run
    half_t = (U32 if big else U16) if is_lcg else U64 if name == "SIMDFastMersenneTwister" else U32
    maxima = [1, 2, 3, 25, 100, 255, 256, 1000, 32767, 32768, 65535] + ([65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF] if half_t is not U16 else []) + \
        ([1 << 32, (1 << 63) - 1, (1 << 64) - 1] if half_t is U64 else [])
    rands = ["next_rand"] + (["next_rand_mod"] if name in ("MersenneTwister", "TinyMersenneTwister") else []) + (["next_alternate_rand"] if name == "Xorshift128" else [])
    for op in rands:
        for k in maxima:
            T.call(op, (k,), (half_t,), method(op))
    adv_t = U64 if name in ("Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus") or big else U32
    advances = [0, 1, 2, 5, 255, 256, 700, 65535] if name not in machines.BLOCKS else [0, 1, 2, 5, 255, 256, 311, 312, 313, 624, 625, 700]
    for k in advances:
        T.call("advance", (k,), (adv_t,), method("advance"))
    if name == "Xorshift128":
        for lo, hi in ((0, 10), (5, 9), (0, 0x7FFFFFFF), (-5, 9), (-0x80000000, 0x7FFFFFFF), (-100, -3)):
            for label, typed in (("int", (lo, hi)), ("int32", (np.int32(lo), np.int32(hi))), ("int64", (np.int64(lo), np.int64(hi)))):
                T.call(f"next_randrange [{label}]" if False else "next_randrange", (), (), lambda typed=typed: [lo, hi] + method("next_randrange")(*typed))
                T.data[f"next_randrange {lo, hi} {label}"] = T.data.pop("next_randrange ()")
        for lo, hi in ((0, 10), (3, 4), (200, 255)):
            T.call("next_randrange", (lo, hi), (U32, U32), method("next_randrange"))
        for lo, hi in ((0.0, 1.0), (-1.0, 1.0), (0.25, 100.0)):
            for t in (float, np.float32, np.float64):
                T.call(f"next_float_randrange {lo} {hi} {t.__name__}", (), (), lambda: method("next_float_randrange")(t(lo), t(hi)))
        T.call("next_float_randrange of integers", (0, 1), (U32, U32), method("next_float_randrange"))
    if is_lcg:
        for k in [0, 1, 2, 6, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF] + ([1 << 32, 1 << 62, 1 << 63, (1 << 64) - 1] if big else []):
            T.call("jump", (k,), (U64,), method("jump"))
            T.call("const_jump", (k,), (U64,), lambda a: (lambda g, f: [f(g)] + observe(g))(M.new(1), cls.const_jump(a)))
        for k in (1, 3, 25, 255, 256, 65535) + ((65536, 0xFFFFFFFF) if big else ()):
            T.call("const_rand", (k,), (half_t,), lambda a: (lambda g, f: [f(g)] + observe(g))(M.new(1), cls.const_rand(a)))
        for op in ("next", "next_u32" if big else "next_u16"):
            T.call(op, (), (), method(op))
    else:
        for op in ("next",) + (("previous",) if hasattr(M.new(0), "previous") else ()):
            T.call(op, (), (), method(op))
    # pairs of operations with the arguments' types varied (a wrongly typed state shows in the next operation)
    pair_ops = [("advance", 3, adv_t), ("next_rand", 200, half_t)] + ([("jump", 77, U64)] if is_lcg else [])
    for (a, x, ta), (b, y, tb) in itertools.product(pair_ops, repeat=2):
        def run(p, q):
            g = M.new(0)
            r = getattr(g, a)(p), getattr(g, b)(q)
            return [v if op == "next_rand" or is_lcg else None for op, v in zip((a, b), r)] + observe(g)
        T.call(f"{a} then {b}", (x, y), (ta, tb), run, few=True)
    # initial state typed differently, then every operation
    s0 = seeds[0] if not is_lcg else (200,)
    for a, x, ta in pair_ops:
        T.call(f"constructor then {a}", s0, types, lambda *s: (lambda g: [getattr(g, a)(ta(x)) if is_lcg or a == "next_rand" else getattr(g, a)(ta(x)) and None] + observe(g))(cls(*s)))


def lists_section(T):
    from checks import c10
    U32 = np.uint32
    for config in [c10.CONFIGS[i] for i in (1, 2, 4, 5, 9, 10, 11, 12, 14)] + [("PokeRNGDiv", "next_u16", "uint8", 4), ("ARNG", "next", "uint16", 4), ("BWRNG", "next", "uint32", 2)]:
        made, M, _take, _m = c10.build(config)

        def start(i=0):
            g = M.new(i)
            return made(g)

        def observe(lst, n=config[3] + 1):
            return [lst.get_value() for _ in range(n)]
        key = "list " + str(config)
        T.call(key + " window", (), (), lambda: observe(start()))
        for k in (0, 1, 3, 255, 256, 65535, 65536, 0xFFFFFFFF):
            T.call(key + " advance", (k,), (U32,), lambda a: (lambda l: (l.advance(a), observe(l))[1])(start()))
        for k in (1, 3, 4, 5, 255, 256, 300):
            T.call(key + " advance_states", (k,), (U32,), lambda a: (lambda l: (l.advance_states(a), observe(l))[1])(start()))
        T.call(key + " advance_state", (), (), lambda: (lambda l: (l.advance_state(), l.advance_state(), observe(l))[2])(start()))
        T.call(key + " re_init", (), (), lambda: (lambda l: (l.advance_state(), l.get_value(), l.re_init(), observe(l))[3])(start()))


def util_section(T):
    from numba_pokemon_prngs import util, fnv
    from numba_pokemon_prngs.gen3 import util as g3
    U8, U16, U32, U64 = UINTS
    words = [0, 1, 255, 256, 0xA5, 0x1234, 0xFFFF, 0x10000, 0x80000000, 0x12345678, 0xFFFFFFFF]
    for v in words:
        T.call("change_endian_u32", (v,), (U32,), util.change_endian_u32)
        T.call("hex_32", (v,), (U32,), util.hex_32)
        for c in (0, 1, 5, 8, 16, 31):
            T.call("rotate_left_u32", (v, c), (U32, U8), util.rotate_left_u32)
            T.call("rotate_right_u32", (v, c), (U32, U8), util.rotate_right_u32)
    for v in words + [1 << 32, (1 << 63) - 1, 1 << 63, 0xFEDCBA9876543210, (1 << 64) - 1]:
        for c in (0, 1, 24, 37, 63):
            T.call("rotate_left_u64", (v, c), (U64, U8), util.rotate_left_u64)
            T.call("rotate_right_u64", (v, c), (U64, U8), util.rotate_right_u64)
    for s in (0, 5, 9, 10, 11, 100, 255, 256, 714, 999):
        for nature in range(25):
            for index in range(1, 6):
                if (s + nature + index) % 3 == 0 or s in (100, 999):
                    T.call("compute_stat", (s, nature, index), (U16, U8, U8), util.compute_stat, few=True)
    for pid in (0, 1, 30, 31, 126, 127, 255, 256, 0xFF, 0x1FF, 0x80000000, 0xFFFFFFFF, 0x12345678):
        for ratio in (0, 1, 31, 127, 225, 254, 255):
            T.call("get_gender", (pid, ratio), (U32, U8), g3.get_gender)
        for tsv in (0, 7, 8, 255, 0x444C, 0x4448, 0xFFFF):
            T.call("get_shiny", (pid, tsv), (U32, U16), g3.get_shiny)
        for form in (0, 1, 3, 27):
            T.call("unown_check", (pid, form), (U32, U8), g3.unown_check)
    for letter in range(28):
        pid = sum((letter >> 2 * k & 3) << 8 * k for k in range(4))
        for form in range(28):
            T.call("unown_check", (pid, form), (U32, U8), g3.unown_check)
    for s in ["", "a", "lnd_no_01", "é", "あ", "\U0001f600", "mixé あ", "x" * 100]:
        for f in ("fnv1_64", "fnv1a_64"):
            T.call(f"{f} {s!r}", (), (), lambda: getattr(fnv, f)(s))
            T.call(f"{f} {s!r} as np.str_", (), (), lambda: getattr(fnv, f)(np.str_(s)))


def hash_section(T):
    from numba_pokemon_prngs.sha1 import SHA1
    from numba_pokemon_prngs.enums import Game, Language, DSType
    U8, U16, U32, U64 = UINTS

    def start(version=Game.WHITE, language=Language.ENGLISH, ds=DSType.DSI, mac=0x9BF123456, reset=False, frame=6, gx=6):
        s = SHA1(version, language, ds, mac, reset, frame, gx)
        s.set_button(np.uint32(0xFF2F0000))
        s.set_timer0(np.uint32(0xC7A), np.uint8(0x5F))
        s.set_date(2011, 3, 6, 0)
        s.set_time(16, 12, 20)
        return s

    def done(s):
        alpha = s.precompute()
        return [list(alpha), s.hash_seed(alpha)]
    for g, l, d in itertools.product((Game.BLACK, Game.WHITE, Game.BLACK2, Game.WHITE2), Language, DSType):
        T.call(f"version {g.name} {l.name} {d.name}", (), (), lambda: done(start(g, l, d)))
    for mac in (0, 255, 0xFFFF, 0x10000, 0xFFFFFFFF, 0x9BF123456, 0xFFFFFFFFFFFF):
        T.call("mac", (mac,), (U64,), lambda a: done(start(mac=a)))
    for frame in (0, 6, 127, 128, 255):
        T.call("frame", (frame,), (U8,), lambda a: done(start(frame=a)))
        T.call("gx", (frame,), (U8,), lambda a: done(start(gx=a)))
    for r in (False, True):
        T.call(f"soft reset {r}", (), (), lambda: done(start(reset=r)))
        T.call(f"soft reset {r} as np.bool_", (), (), lambda: done(start(reset=np.bool_(r))))
    for b in (0, 255, 0xFFFF, 0x2FFF, 0x80000000, 0xFF2F0000, 0xFFFFFFFF):
        T.call("button", (b,), (U32,), lambda a: (lambda s: (s.set_button(a), done(s))[1])(start()))
    for t, v in ((0, 0), (255, 255), (0xC7A, 0x5F), (0xFFFF, 0xFF), (0x8000, 0x80)):
        T.call("timer", (t, v), (U32, U8), lambda a, b: (lambda s: (s.set_timer0(a, b), done(s))[1])(start()))
    for date in ((2000, 1, 1, 6), (2011, 3, 6, 0), (2099, 12, 31, 4), (2009, 9, 10, 3), (2010, 10, 9, 1)):
        T.call("date", date, (U16, U8, U8, U8), lambda *a: (lambda s: (s.set_date(*a), done(s))[1])(start()))
    for ds in DSType:
        for time in ((0, 0, 0), (9, 10, 11), (11, 59, 59), (12, 0, 0), (23, 59, 59)):
            T.call(f"time {ds.name}", time, (U8, U8, U8), lambda *a: (lambda s: (s.set_time(*a), done(s))[1])(start(ds=ds)))


def state_section(T):
    from numba_pokemon_prngs.gen3.state import GeneratorState
    from numba_pokemon_prngs.data.personal import get_info_table, get_info_table_3
    from numba_pokemon_prngs.enums import Game
    U8, U16, U32, U64 = UINTS

    def view(s):
        return [s.advance, s.pid, s.species, s.form, list(s.ivs), s.ability, s.ability_index, s.level, s.shiny, list(s.stats), s.gender, s.nature, s.hidden_power,
                s.hidden_power_strength, s.characteristic]
    table = get_info_table(Game.EMERALD)
    for species in (1, 25, 81, 201, 292, 386):
        for pid in (0, 255, 0x8000FFFF, 0xFFFFFFFF, 12345678):
            for level in (1, 50, 100):
                ivs = np.array([(species * 7 + level + 5 * i) & 31 for i in range(6)], np.uint8)
                T.call(f"GeneratorState species {species} level {level}", (3, pid, 1), (U32, U32, U8),
                       lambda adv, p, ab: view(GeneratorState(adv, p, species, 0, ivs, ab, level, 0, table[species])), few=True)
    for pid in (0, 25, 0x12345678, 0xFFFFFFFF):
        ivs = np.array([31, 0, 15, 30, 1, 2], np.uint8)
        T.call("report", (pid,), (U32,), lambda p: str(GeneratorState(np.uint32(7), p, np.uint16(201), np.uint8(3), ivs, np.uint8(1), np.uint8(50), np.uint8(0), table[201])))
        T.call("csv", (pid,), (U32,), lambda p: [list(x) for x in GeneratorState(np.uint32(7), p, np.uint16(25), np.uint8(0), ivs, np.uint8(0), np.uint8(5), np.uint8(2), table[25]).csv()])
    for lvl in (1, 2, 99, 100):
        T.call("GeneratorState small arguments", (9, 200, 25, 1, 1, lvl, 2), (U32, U32, U16, U8, U8, U8, U8),
               lambda adv, p, sp, form, ab, level, sh: view(GeneratorState(adv, p, sp, form, np.array([1, 2, 3, 4, 5, 31], np.uint8), ab, level, sh, table[25])), few=THOROUGH is False)
    for g in (Game.RUBY, Game.SAPPHIRE, Game.EMERALD, Game.FIRE_RED, Game.LEAF_GREEN):
        T.call(f"get_info_table_3 {g.name}", (), (), lambda: [plain(r) for r in get_info_table_3(g)[::25]])
    for g in Game:
        if g and not g & (Game.GALES | Game.COLOSSEUM | Game.HEART_GOLD | Game.SOUL_SILVER):
            T.call(f"get_info_table {g.name}", (), (), lambda: [len(get_info_table(g)), plain(get_info_table(g)[25]), plain(get_info_table(g)[-1])])


def wild_section(T, part=0):
    from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_GEN3, MAP_NAMES_GEN3
    from numba_pokemon_prngs.data.personal import get_info_table_3
    from numba_pokemon_prngs.enums import Game, Lead, Method, Encounter
    from numba_pokemon_prngs.gen3 import encounter_area_3 as E
    from numba_pokemon_prngs.gen3.wild_generator_3 import WildGenerator3
    from numba_pokemon_prngs.lcrng import PokeRNGMod
    U8, U16, U32, U64 = UINTS
    kinds = (Encounter.GRASS, Encounter.ROCK_SMASH, Encounter.SURFING, Encounter.OLD_ROD, Encounter.GOOD_ROD, Encounter.SUPER_ROD)
    field = {Encounter.GRASS: "land", Encounter.ROCK_SMASH: "rock", Encounter.SURFING: "water", Encounter.OLD_ROD: "fish_old", Encounter.GOOD_ROD: "fish_good",
             Encounter.SUPER_ROD: "fish_super"}

    def area_with(game, kind, skip=0):
        for i, a in enumerate(ENCOUNTER_INFORMATION_GEN3[game]):
            if MAP_NAMES_GEN3[game][i] and any(int(s.species) for s in getattr(a, field[kind])):
                if not skip:
                    return i, a
                skip -= 1

    def view(s):
        return [s.advance, s.pid, s.species, s.form, list(s.ivs), s.ability, s.ability_index, s.level, s.shiny, list(s.stats), s.gender, s.nature, s.hidden_power,
                s.hidden_power_strength, s.characteristic]
    if part == 0:
        for kind in kinds:
            for kind_value in (kind, int(kind), np.uint8(kind)):
                for skip in (0, 3):
                    i, area = area_with(Game.EMERALD, kind, skip)
                    label = f"{kind.name} area {i}"
                    T.call(f"get_encounter_rate {label}", (), (), lambda: E.get_encounter_rate(area, kind_value))
                    for seed in (0, 0x1234, 0xFFFFFFFF):
                        for lead in (Lead.NONE, Lead.MAGNET_PULL, Lead.STATIC, Lead.PRESSURE):
                            def hslot():
                                rng = PokeRNGMod(np.uint32(seed))
                                return [plain(E.calculate_hslot(area, rng, kind_value)), rng.next()]

                            def lead_slot():
                                rng = PokeRNGMod(np.uint32(seed))
                                slots = E.get_modified_slots(area, kind_value, lead, Game.EMERALD, get_info_table_3(Game.EMERALD))
                                return [plain(E.calculate_hslot_lead(area, rng, kind_value, lead, slots)), rng.next(), [plain(s) for s in slots]]
                            # one key for all spellings of the kind
                            T.call(f"calculate_hslot {label} {type(kind_value).__name__} {seed}", (), (), hslot)
                            T.call(f"calculate_hslot_lead {label} {type(kind_value).__name__} {lead.name} {seed}", (), (), lead_slot)
        for skip in range(6):
            i, area = area_with(Game.EMERALD, Encounter.GRASS, skip)
            for slot in area.land[:6]:
                for pressure in (False, True):
                    for seed in (0, 99, 0xABCDEF01):
                        def level():
                            rng = PokeRNGMod(np.uint32(seed))
                            return [E.calculate_level(slot, rng, pressure), rng.next()]
                        T.call(f"calculate_level area {i} {plain(slot)} {pressure} {seed}", (), (), level)
        for game in ENCOUNTER_INFORMATION_GEN3:
            for i, area in enumerate(ENCOUNTER_INFORMATION_GEN3[game]):
                T.call(f"is_rse_safari_zone {game.name} {i}", (), (), lambda: bool(E.is_rse_safari_zone(area, game)))
        return
    for kind in kinds:
        for game, lead, method in ((Game.EMERALD, Lead.NONE, Method.METHOD_1), (Game.EMERALD, Lead.SYNCHRONIZE_JOLLY, Method.METHOD_2),
                                   (Game.EMERALD, Lead.CUTE_CHARM_F, Method.METHOD_4), (Game.EMERALD, Lead.PRESSURE, Method.METHOD_1),
                                   (Game.RUBY, Lead.NONE, Method.METHOD_2), (Game.LEAF_GREEN, Lead.NONE, Method.METHOD_4)):
            i, area = area_with(game, kind)

            def run(seed, delay, start, count):
                return [view(s) for s in WildGenerator3(method, kind, lead, game, 12345, 54321).generate(seed, delay, start, count, area)]
            for args in ((0, 0, 0, 3), (200, 100, 200, 2), (0xFFFFFFFF, 1, 65535, 2), (0x12345678, 65535, 65535, 2), (1, 0, 255, 3)):
                T.call(f"generate {game.name} {lead.name} {method.name} {kind.name} area {i}", args, (U32,) * 4, run, few=kind != Encounter.GRASS)
    i, area = area_with(Game.EMERALD, Encounter.GRASS)
    for tid, sid in ((0, 0), (255, 1), (65535, 65535), (12345, 54321)):
        T.call("trainer", (tid, sid), (U16, U16),
               lambda a, b: [[s.pid, s.shiny] for s in WildGenerator3(Method.METHOD_1, Encounter.GRASS, Lead.NONE, Game.EMERALD, a, b).generate(np.uint32(5), np.uint32(0), np.uint32(0), np.uint32(40), area)])


def areas_section(T):
    from numba_pokemon_prngs.data import encounter as D
    from numba_pokemon_prngs.enums import LATime, LAWeather
    U8, U64 = np.uint8, np.uint64
    for game, table in D.ENCOUNTER_INFORMATION_GEN3.items():
        for i, a in enumerate(table):
            T.call(f"area {game.name} {i}", (), (), lambda: [D.MAP_NAMES_GEN3[game][i], plain(a)])
    for name, table in D.ENCOUNTER_INFORMATION_LA.items():
        T.call(f"keys {name.name}", (), (), lambda: sorted(int(k) for k in table.keys()))
        for j, key in enumerate(sorted(int(k) for k in table.keys())):
            area = table[np.uint64(key)]
            T.call(f"LA {name.name} {key:#x}", (), (), lambda: [area.table_id, [plain(s) for s in area.slots]])
            if j % 12 == 0 and len(area.slots):
                for time, weather in ((LATime.DAWN, LAWeather.SUNNY), (LATime.NIGHT, LAWeather.SNOW), (LATime.DAY, LAWeather.FOG)):
                    for rand in (0.0, 0.125, 0.3, 0.61803, 0.99):
                        for t in (float, np.float32, np.float64):
                            T.call(f"calc_slot {name.name} {key:#x} {rand} {t.__name__} {int(time)} {int(weather)}", (), (), lambda: plain(area.calc_slot(t(rand), time, weather)))
    for name, table in D.SPAWNER_INFORMATION_LA.items():
        T.call(f"spawners {name.name}", (), (), lambda: len(table.spawners))


SECTIONS = {"lists": lists_section, "util": util_section, "hash": hash_section, "state": state_section, "wild0": lambda T: wild_section(T, 0), "wild1": lambda T: wild_section(T, 1),
            "areas": areas_section}


def main(section, out):
    warnings.simplefilter("ignore")
    T = Transcript()
    if section in SECTIONS:
        SECTIONS[section](T)
    else:
        generator_section(T, section)
    with open(out, "w") as f:
        json.dump({"runs": T.runs, "data": T.data}, f)


if __name__ == "__main__":
    main(*sys.argv[1:3])
    sys.stdout.flush()
    os._exit(0)
