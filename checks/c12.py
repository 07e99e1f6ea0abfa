"""C12: generator objects are independent of one another."""
import itertools
import numpy as np
from vlib.core import Task
from vlib import machines, lcgs

LEVEL = "model_checking"
RULE = ("every interleaving, up to the depth, of operations on two objects (draws, skips, constant jumps and draws prepared anew, re-initialisation, "
        "replacement by an object created later) is run on the real objects next to two ideal machines that share nothing; every value returned and the "
        "next outputs of both objects are compared. For objects without an ideal machine (SHA1, wild generators) each object's results are compared with "
        "the same operations run alone. A state is a history, a transition one operation")
ASSUMPTIONS = ["objects are used from one thread; interleaving is at the granularity of whole operations"]

LCG = list(lcgs.CLASSES)
OTHER = list(machines.BLOCKS) + list(machines.SHIFTS)
# compiled cross-class pairs of the quick tier: a ring, so that every class meets two others, and all pairs of one family
FAMILIES = [["PokeRNGMod", "PokeRNGDiv", "PokeRNGRMod", "PokeRNGRDiv"], ["ARNG", "ARNGR", "XDRNG", "XDRNGR"], ["BWRNG", "BWRNGR", "PokeRNGMod", "Xorshift128"],
            ["MersenneTwister", "SIMDFastMersenneTwister", "TinyMersenneTwister"], ["Xorshift128", "Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus", "XDRNG"]]
LISTS = [("PokeRNGMod", "next_u16", "uint16", 4), ("PokeRNGMod", "next", "uint32", 4), ("PokeRNGMod", "next_u16", "uint16", 2), ("BWRNG", "next_u32", "uint32", 4),
         ("Xorshift128", "previous", "uint32", 4), ("MersenneTwister", "next", "uint32", 4)]


def bounds(tier):
    t = tier == "thorough"
    return (f"two objects of one class, all 16 classes: all histories of length {5 if t else 4} over 7 operations on each; two objects of different classes: all "
            f"{len(machines.NAMES) * (len(machines.NAMES) - 1) // 2} pairs uncompiled and {'all' if t else 'the pairs within families'} compiled, length {4 if t else 3}; two cached lists, and a "
            f"list and a generator, length {5 if t else 4}; two SHA1 objects, length {5 if t else 4}; two wild generators and their result lists, length {4 if t else 3}")


def tasks(tier):
    t = []
    for mode in ("numba", "numpy"):
        t += [Task("same", mode, timeout=3000, names=[n]) for n in OTHER]
        t += [Task("same", mode, timeout=3000, names=LCG[i::3]) for i in range(3)]
        t += [Task("lists", mode, timeout=3000, part=i) for i in range(3)]
        t += [Task("hashes", mode, timeout=3000), Task("wild", mode, timeout=3000)]
    pairs = list(itertools.combinations(machines.NAMES, 2))
    t += [Task("cross", "numpy", timeout=3000, pairs=pairs[i::8]) for i in range(8)]
    if tier == "thorough":
        t += [Task("cross", "numba", timeout=3000, pairs=pairs[i::12]) for i in range(12)]
    else:
        t += [Task("cross", "numba", timeout=3000, pairs=list(itertools.combinations(f, 2))) for f in FAMILIES]
    return t


def alphabet(R, M, few=False):
    """(label, real(holder, index), model) - a holder is a list [object], so that an operation can replace it"""
    ops = {o.label: o for o in M.ops}
    order = list(ops)
    pick = ["next()"]
    pick += [o for o in order if o.startswith("previous")]
    pick += [o for o in order if o.startswith("next_rand(")][:1]
    pick += [o for o in order if o.startswith("const_jump(10")] + [o for o in order if o.startswith("advance") and "(0)" not in o][:1]
    pick += [o for o in order if o.startswith("re_init")][:1]
    if not few:
        pick += [o for o in order if o.startswith("next_rand")][1:2] + [o for o in order if o.startswith("const_rand")]
    chosen = [ops[p] for p in dict.fromkeys(pick)][:4 if few else 6]
    out = []
    for o in chosen:
        def real(h, o=o):
            if o.label.startswith("const_jump") and not R.numba:
                return type(h[0]).const_jump(10)(h[0])  # prepared anew within the history
            return o.real(h[0])
        out.append((o.label, real, o.model))
    return out


def explore(R, pair, depth, few):
    Ms = [machines.get(n) for n in pair]
    same = pair[0] == pair[1]
    alph = []
    for who in (0, 1):
        for label, real, model in alphabet(R, Ms[who], few):
            alph.append((who, label, real, model))
        alph.append((who, "new object", "new", "new"))
    if not R.numba and any(n in ("MersenneTwister", "SIMDFastMersenneTwister") for n in pair):
        depth = min(depth, 3 if same and R.thorough else 2)
    n = 0
    for hist in itertools.product(range(len(alph)), repeat=depth):
        # an interleaving that leaves one object alone is covered by C09
        if n % 512 == 0:
            R.progress(f"{pair}: {[(alph[k][0], alph[k][1]) for k in hist]}")
        # the two objects of one class start from different seeds
        seeds = [0, 1]
        objs = [[Ms[0].new(0)], [Ms[1].new(1)]]
        mods = [Ms[0].model(0), Ms[1].model(1)]
        bad = None
        for i, k in enumerate(hist):
            who, label, real, model = alph[k]
            if real == "new":
                seeds[who] ^= 1
                objs[who][0] = Ms[who].new(seeds[who])
                mods[who] = Ms[who].model(seeds[who])
                continue
            got, want = machines.value(real(objs[who])), machines.value(model(mods[who]))
            R.state(pair, mods[0].key(), mods[1].key())
            if want is not None and got != want:
                bad = (i, who, label, got, want)
                break
        if bad is None:
            for who in (0, 1, 0):
                got, want = Ms[who].probe(objs[who][0], mods[who], 2 if who else 1)
                if got != want:
                    bad = (depth, who, "next()", got, want)
                    break
        n += 1
        if bad:
            i, who, label, got, want = bad
            labels = [("AB"[alph[k][0]], alph[k][1]) for k in hist[:i]]
            R.fail(f"pair:{pair[0]}:{pair[1]}", f"A = {pair[0]}, B = {pair[1]}: after {labels}, {label} of {'AB'[who]} gives {got}, expected {want}",
                   {"pair": pair, "history": labels, "got": got, "want": want}, None)
            if R.full():
                break
    R.count("transitions", n * (depth + 4))
    R.count("traces_validated_against_impl", n)
    R.sample({"pair": pair, "depth": depth, "alphabet": [("AB"[a[0]], a[1]) for a in alph]})


def same(R, names):
    for name in names:
        explore(R, (name, name), 5 if R.thorough else 4, name in LCG and not R.thorough)
        if R.full():
            return


def cross(R, pairs):
    for a, b in pairs:
        explore(R, (a, b), 4 if R.thorough else 3, True)
        if R.full():
            return


def lists(R, part):
    from checks import c10
    built = {}

    def make(config):
        if config not in built:
            built[config] = c10.build(config)
        return built[config]
    combos = [(i, j, shared) for i in range(len(LISTS)) for j in range(i, len(LISTS)) for shared in (False,)]
    combos += [(0, 1, True), (0, 2, True), (0, 0, True)]
    depth = 5 if R.thorough else 4
    for i, j, shared in combos[part::3]:
        slow = not R.numba and "MersenneTwister" in (LISTS[i][0], LISTS[j][0])
        sides, alph = [], []
        for who, c in enumerate((LISTS[i], LISTS[j])):
            made, M, take, _module = make(c)
            sides.append((made, M, take, c[3]))
            ops = c10.ops_for(M, c[3], None)
            keep = ("get", "advance(", "advance_state()", "re_init()", "generator re_init") if not slow else ("get", "advance_state()", "re_init()")
            seen = set()
            for o in ops:
                head = next((k for k in keep if o[0].startswith(k)), None)
                if head and head not in seen:
                    seen.add(head)
                    alph.append((who, o))
        n = 0
        for hist in itertools.product(range(len(alph)), repeat=3 if slow or (R.seed + i + j) % 2 and not R.thorough else depth):
            if n % 1024 == 0:
                R.progress(f"lists {LISTS[i]} {LISTS[j]} shared={shared}")
            gens = [sides[0][1].new(0)]
            mods = [sides[0][1].model(0)]
            gens.append(gens[0] if shared else sides[1][1].new(1))
            mods.append(mods[0] if shared else sides[1][1].model(1))
            # two lists may share a generator on purpose: then they share its stream and nothing else
            ls, ws = [], []
            for who in (0, 1):
                ls.append(sides[who][0](gens[who]))
                ws.append(c10.Window(mods[who], sides[who][2], sides[who][3]))
            got, want = [], []
            for k in hist:
                who, o = alph[k]
                a, b = o[1](ls[who], gens[who]), o[2](ws[who])
                R.state(i, j, shared, ws[0].key(), ws[1].key())
                if o[0] == "get":
                    got.append(int(a))
                    want.append(b)
            for who in (0, 1):
                for _ in range(sides[who][3]):
                    got.append(int(ls[who].get_value()))
                    want.append(ws[who].get())
            n += 1
            R.count("transitions", len(hist) + 8)
            if got != want:
                labels = [("AB"[alph[k][0]], alph[k][1][0]) for k in hist]
                R.fail(f"lists:{i}:{j}", f"lists A = {LISTS[i]}, B = {LISTS[j]}{' over one generator' if shared else ''}: after {labels} read {got}, expected {want}",
                       {"configs": [LISTS[i], LISTS[j]], "history": labels})
                if R.full():
                    return
        R.count("traces_validated_against_impl", n)


def hashes(R):
    from checks import c11
    pairs = [(dict(version="BLACK", ds_type="DS"), dict(version="WHITE2", ds_type="DS3", mac=5)), (dict(), dict(soft_reset=True)), (dict(), dict())]
    ops = {"date": lambda s: s.set_date(2000 + 3, 4, 5, 6), "timer": lambda s: s.set_timer0(np.uint32(0x1234), np.uint8(0x56)), "time": lambda s: s.set_time(1, 2, 3),
           "button": lambda s: s.set_button(np.uint32(0xFE2F0000)), "precompute": None, "hash": None}
    names = list(ops)
    depth = 5 if R.thorough and R.numba else 4 if R.numba else 3
    alone = {}

    def start(kw):
        p = c11.new(**kw)
        s = c11.real(p)
        c11.set_all(s, p)
        return [s, s.precompute()]

    def step(side, op):
        if op == "precompute":
            side[1] = side[0].precompute()
            return tuple(int(v) for v in side[1])
        if op == "hash":
            return int(side[0].hash_seed(side[1]))
        ops[op](side[0])

    def run_alone(kw, seq):
        key = (str(kw), seq)
        if key not in alone:
            side = start(kw)
            alone[key] = [step(side, op) for op in seq + ("hash",)]
        return alone[key]
    n = 0
    for k, pair in enumerate(pairs):
        for hist in itertools.product([(w, op) for w in (0, 1) for op in names], repeat=depth if k == 0 or R.thorough else min(depth, 3)):
            if n % 1024 == 0:
                R.progress(f"{pair} {hist}")
            sides = [start(kw) for kw in pair]
            got = [[], []]
            for who, op in hist + ((0, "hash"), (1, "hash")):
                got[who].append(step(sides[who], op))
            want = [run_alone(pair[w], tuple(op for v, op in hist if v == w)) for w in (0, 1)]
            n += 1
            if got != want:
                R.fail("sha1", f"two SHA1 objects {pair}, history {hist}: results {got}, alone {want}", {"pair": pair, "history": hist})
                if R.full():
                    return
    R.count("states", len(alone))
    R.count("transitions", n * (depth + 2))
    R.count("traces_validated_against_impl", n)


def wild(R):
    from numba_pokemon_prngs.enums import Method, Encounter, Lead, Game
    from numba_pokemon_prngs.gen3.wild_generator_3 import WildGenerator3
    from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_GEN3 as areas
    emerald, ruby = areas[Game.EMERALD], areas[Game.RUBY]
    makers = [lambda: WildGenerator3(Method.METHOD_1, Encounter.GRASS, Lead.NONE, Game.RUBY, 1, 2),
              lambda: WildGenerator3(Method.METHOD_4, Encounter.GRASS, Lead.SYNCHRONIZE_ADAMANT, Game.EMERALD, 100, 200),
              lambda: WildGenerator3(Method.METHOD_1, Encounter.GRASS, Lead.STATIC, Game.EMERALD, 0, 0)]
    tables = [ruby, emerald, emerald]
    args = [(np.uint32(0x1234), np.uint32(0), np.uint32(0), np.uint32(3)), (np.uint32(0x1234), np.uint32(2), np.uint32(1), np.uint32(4))]

    def flat(states):
        return [(int(s.advance), int(s.pid), int(s.species), int(s.level), tuple(int(v) for v in s.ivs), tuple(int(v) for v in s.stats), int(s.nature),
                 int(s.ability), int(s.gender), int(s.shiny)) for s in states]
    grassy = [[a for a in t if any(int(s.species) for s in a.land)][:2] for t in tables]
    ops = [("generate", a, k) for a in range(2) for k in range(2)] + [("new", 0, 0)]
    alone = {}
    n = 0
    depth = 4 if R.thorough else 3
    for pair in ((0, 1), (1, 2), (1, 1)):
        for hist in itertools.product([(w, o) for w in (0, 1) for o in ops], repeat=depth):
            if n % 64 == 0:
                R.progress(f"wild generators {pair}: {hist}")
            gens = [makers[k]() for k in pair]
            kept = []
            bad = None
            for w, (what, a, k) in hist:
                if what == "new":
                    gens[w] = makers[pair[w]]()
                    continue
                key = (pair[w], a, k)
                if key not in alone:
                    alone[key] = flat(makers[pair[w]]().generate(*args[a], grassy[pair[w]][k]))
                kept.append((key, gens[w].generate(*args[a], grassy[pair[w]][k])))
            # results stay what they were when they were returned
            for key, states in kept:
                if flat(states) != alone[key]:
                    bad = key
            n += 1
            if bad:
                R.fail("wild", f"wild generators {pair}: after {hist} the states of call {bad} differ from the same call made alone", {"history": hist})
                if R.full():
                    return
    R.count("states", len(alone))
    R.count("transitions", n * depth)
    R.count("traces_validated_against_impl", n)
