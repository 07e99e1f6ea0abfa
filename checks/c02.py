"""C02: jumps, constant jumps and advances equal single steps."""
import numpy as np
from vlib.core import Task
from vlib import lcgs, sets

LEVEL = "model_checking"
RULE = ("the state reached by jump(n), const_jump(n) and advance(n) of the real generator is compared with the state "
        "of a model that is stepped one transition at a time (windows) or whose n-fold step is composed by plain "
        "integer arithmetic, itself validated against literal stepping on this run")
ASSUMPTIONS = ["64-bit distances: listed families only", "plain Python integer distances up to 2^63-1 in compiled mode"]
SEEDS32 = [0, 1, 0xFFFFFFFF, 0x80000000, 0x12345678]
SEEDS64 = [0, 1, 0xFFFFFFFFFFFFFFFF, 1 << 63, 0x123456789ABCDEF0]


def bounds(tier):
    n = "2^28 (2^32, every distance, for four classes)" if tier == "thorough" else "2^25"
    return (f"compiled 32-bit: all distances below {n} by literal stepping; all distances with at most 4 (quick, 64 bits: 3) bits set or clear "
            "for 5 seeds; compiled 64-bit: the same families for 64 bits and windows of 2^17 around every power of two; "
            "advance: all n <= 4096, around every power of two up to 2^26, 2^31, 2^32-1 and (64-bit) 2^32+5; "
            "jumps of equal length prepared for all classes before any is used; const_jump compiled: every power of two, "
            "its predecessor and mixed patterns; uncompiled: all n <= 1024, at most 3 (2) bits set or clear, near powers")


def tasks(tier):
    t = []
    for name, (bits, *_r) in lcgs.CLASSES.items():
        big = tier == "thorough" and name in ("PokeRNGMod", "PokeRNGRDiv", "ARNG", "XDRNGR")
        t.append(Task("compiled", "numba", cpus=4 if bits == 32 and big else 2, name=name, big=big))
    for name in lcgs.CLASSES:
        t.append(Task("const", "numba", name=name))
        t.append(Task("plain", "numpy", name=name))
    return t + [Task("mixed", mode) for mode in ("numba", "numpy")]


def mixed(R):
    """jumps of the same length prepared for several classes in one process, all before any is used"""
    import itertools
    import numba_pokemon_prngs.lcrng as L
    names = list(lcgs.CLASSES)
    if R.numba:
        orders = [names, names[::-1]] + ([names[i:] + names[:i] for i in range(1, 10)] if R.thorough else [])
    else:
        orders = list(itertools.permutations(names, 2)) + [names, names[::-1]]
    runs = 0
    for order in orders:
        for ns in ((0, 1, 5), (1000, 1 << 31, 1)):
            R.progress(f"const_jump of {order} for {ns}")
            made = [(name, n, getattr(L, name).const_jump(n)) for n in ns for name in order]
            for name, n, fn in made:
                bits, pair, _d, _i = lcgs.CLASSES[name]
                cls, T = getattr(L, name), np.uint32 if bits == 32 else np.uint64
                for seed in (1, 0x12345678):
                    def f():
                        rng = cls(T(seed))
                        r = fn(rng)
                        return r, rng.seed
                    check_one(R, name, "const_jump", f, seed, n, pair, bits)
            runs += 1
            if R.full():
                return
    R.sample({"order": list(orders[-1]), "runs": runs})


def snippet(name, seed, n, op):
    bits, pair, _d, _i = lcgs.CLASSES[name]
    a, c = lcgs.compose(pair, n, bits)
    call = {"jump": f"rng.jump(np.uint{bits}(n))", "advance": f"rng.advance(np.uint{bits}(n))",
            "const_jump": f"{name}.const_jump(n)(rng)"}[op]
    return f"""
from numba_pokemon_prngs.lcrng import {name}
import numpy as np
s, n = {seed}, {n}
want = (s * {a} + {c}) & {(1 << bits) - 1}   # the {n}-fold composition of the single step
rng = {name}(np.uint{bits}(s))
got = int({call})
assert got == want and int(rng.seed) == want, (hex(got), hex(int(rng.seed)), hex(want))
"""


def make(cls, pair, bits):
    from numba import njit
    M, A = np.uint64(pair[0]), np.uint64(pair[1])
    F = np.uint64((1 << bits) - 1)
    T = np.uint32 if bits == 32 else np.uint64

    @njit(nogil=True)
    def window(lo, hi, out, seed, base, states):
        # distances base+lo .. base+hi-1; states[j] is the model state of the first distance of slice j,
        # found by position: slices start at multiples that the caller prepared
        rng = cls(T(0))
        first = True
        state = np.uint64(0)
        for i in range(lo, hi):
            if first:
                for j in range(len(states)):
                    if np.int64(states[j, 0]) == i:
                        state = states[j, 1]
                first = False
            else:
                state = (state * M + A) & F
            rng.re_init(T(seed))
            n = T(np.uint64(base) + np.uint64(i))
            r = np.uint64(rng.jump(n))
            if r != state or np.uint64(rng.seed) != state:
                if out[0] == 0:
                    out[1] = n
                    out[2] = r
                    out[3] = state
                out[0] += np.uint64(1)

    @njit(nogil=True)
    def listed(lo, hi, out, seed, ns, want):
        rng = cls(T(0))
        for i in range(lo, hi):
            rng.re_init(T(seed))
            r = np.uint64(rng.jump(T(ns[i])))
            if r != want[i] or np.uint64(rng.seed) != want[i]:
                if out[0] == 0:
                    out[1] = ns[i]
                    out[2] = r
                    out[3] = want[i]
                out[0] += np.uint64(1)

    @njit(nogil=True)
    def adv(lo, hi, out, seed, base):
        rng = cls(T(0))
        state = np.uint64(seed)
        for i in range(0, hi):
            if i > 0:
                state = (state * M + A) & F
            if i < lo:
                continue
            rng.re_init(T(seed))
            r = np.uint64(rng.advance(T(i)))
            if r != state or np.uint64(rng.seed) != state:
                if out[0] == 0:
                    out[1] = i
                    out[2] = r
                    out[3] = state
                out[0] += np.uint64(1)

    @njit(nogil=True)
    def steps(state, n):
        for _ in range(n):
            state = (state * M + A) & F
        return state
    return window, listed, adv, steps


def run_window(R, nb, window, pair, bits, name, seed, base, size, threads):
    mask = (1 << bits) - 1
    threads = min(threads, size)
    starts = [size * i // threads for i in range(threads)]
    st = []
    for s in starts:
        a, c = lcgs.compose(pair, (base + s) & mask, bits)
        st.append((s, (seed * a + c) & mask))
    states = np.array(st, np.uint64)
    res = nb.par(window, size, (np.uint64(seed), np.uint64(base), states), threads=threads)
    R.count("states", size)
    R.count("transitions", 2 * size)
    R.count("traces_validated_against_impl", threads)
    if res[0]:
        R.fail(f"jump:{name}", f"{name}: jump({res[1]:#x}) from {seed:#x} gives {res[2]:#x}, stepping gives {res[3]:#x} "
               f"({res[0]} distances differ)", {"class": name, "seed": seed, "n": res[1]}, snippet(name, seed, res[1], "jump"))


def compiled(R, name, big):
    from vlib import nb
    import numba_pokemon_prngs.lcrng as L
    bits, pair, _d, _i = lcgs.CLASSES[name]
    cls = getattr(L, name)
    window, listed, adv, steps = make(cls, pair, bits)
    mask = (1 << bits) - 1
    seeds = SEEDS32 if bits == 32 else SEEDS64
    R.progress(f"{name} model composition")
    for n in (0, 1, 2, 3, 1000, 65537, 1 << 20, (1 << 22) + 12345):
        a, c = lcgs.compose(pair, n, bits)
        assert int(steps(np.uint64(seeds[4]), n)) == (seeds[4] * a + c) & mask
    T = np.uint32 if bits == 32 else np.uint64
    # all distances of the listed family
    k = 4 if bits == 32 or R.thorough else 3
    ns = np.unique(np.concatenate([sets.weight_array(bits, k), np.array(sets.near_powers(bits, 32), np.uint64)]))
    maps = [lcgs.compose(pair, int(n), bits) for n in ns]
    ma = np.array([m[0] for m in maps], np.uint64)
    mc = np.array([m[1] for m in maps], np.uint64)
    for seed in seeds:
        R.progress(f"{name} jumps with few bits set or clear from {seed:#x}")
        want = (np.uint64(seed) * ma + mc) & np.uint64(mask)
        res = nb.par(listed, len(ns), (np.uint64(seed), ns, want), threads=2)
        R.count("states", len(set(want.tolist())))
        R.count("transitions", len(ns))
        R.count("traces_validated_against_impl", 1)
        if res[0]:
            R.fail(f"jump:{name}", f"{name}: jump({res[1]:#x}) from {seed:#x} gives {res[2]:#x}, model {res[3]:#x} "
                   f"({res[0]} distances differ)", {"class": name, "seed": seed, "n": res[1]},
                   snippet(name, seed, res[1], "jump"))
    # literal stepping
    if bits == 32:
        R.progress(f"{name} all distances by stepping")
        run_window(R, nb, window, pair, bits, name, 0x12345678, 0, 1 << 32 if big else 1 << (28 if R.thorough else 25), 8 if R.thorough else 4)
    else:
        for k in range(0, 64):
            base = max(0, (1 << k) - (1 << 16))
            R.progress(f"{name} window around 2^{k}")
            run_window(R, nb, window, pair, bits, name, seeds[4], base, 1 << 17, 2)
        run_window(R, nb, window, pair, bits, name, seeds[4], (1 << 64) - (1 << 17), 1 << 17, 2)
        run_window(R, nb, window, pair, bits, name, seeds[4], 0, 1 << (28 if R.thorough else 22), 2)
    # advance
    for seed in seeds[2:]:
        R.progress(f"{name} advance(n), n <= 4096")
        res = nb.par(adv, 4097, (np.uint64(seed), 0), threads=2)
        R.count("states", 4097)
        R.count("transitions", 4097)
        R.count("traces_validated_against_impl", 1)
        if res[0]:
            R.fail(f"advance:{name}", f"{name}: advance({res[1]}) from {seed:#x} gives {res[2]:#x}, stepping gives {res[3]:#x}",
                   {"class": name, "seed": seed, "n": res[1]}, snippet(name, seed, res[1], "advance"))
    large = sorted({(1 << k) + d for k in range(12, 27) for d in (-1, 0, 1, 5)}) + [(1 << 31) - 1, (1 << 31) + 3, (1 << 32) - 1]
    if bits == 64:
        large += [1 << 32, (1 << 32) + 5]
    for n in large:
        R.progress(f"{name} advance({n})")
        rng = cls(T(seeds[4]))
        r = int(rng.advance(T(n) if n % 3 else n))
        a, c = lcgs.compose(pair, n, bits)
        want = (seeds[4] * a + c) & mask
        R.state(name, seeds[4], n)
        R.count("transitions")
        R.count("traces_validated_against_impl")
        if r != want or int(rng.seed) != want:
            R.fail(f"advance:{name}", f"{name}: advance({n}) from {seeds[4]:#x} gives {r:#x}, model {want:#x}",
                   {"class": name, "seed": seeds[4], "n": n}, snippet(name, seeds[4], n, "advance"))
    R.sample({"class": name, "seed": seeds[4], "n": int(ns[len(ns) // 3]), "state": int(want)})


def check_one(R, name, op, f, seed, n, pair, bits):
    a, c = lcgs.compose(pair, n, bits)
    mask = (1 << bits) - 1
    want = (seed * a + c) & mask
    r, st = f()
    R.state(name, seed, n)
    R.count("transitions")
    R.count("traces_validated_against_impl")
    if int(r) != want or int(st) != want:
        R.fail(f"{op}:{name}", f"{name}: {op}({n:#x}) from {seed:#x} returns {int(r):#x}, leaves {int(st):#x}, expected {want:#x}",
               {"class": name, "seed": seed, "n": n, "operation": op}, snippet(name, seed, n, op))


def const_list(bits, full):
    mask = (1 << bits) - 1
    ns = {0, 1, 2, 3, 5, 6, 7, 100, 1000, mask, mask - 1, mask >> 1}
    for k in range(bits):
        ns.add(1 << k)
        if full:
            ns.add((1 << k) - 1)
            ns.add(((1 << k) + 1) & mask)
    ns |= {0x55555555_55555555 & mask, 0xAAAAAAAA_AAAAAAAA & mask, 0x12345678_9ABCDEF0 & mask, 0x00FF00FF_00FF00FF & mask}
    return sorted(ns)


def const(R, name):
    from numba import njit
    import numba_pokemon_prngs.lcrng as L
    bits, pair, _d, _i = lcgs.CLASSES[name]
    cls = getattr(L, name)
    T = np.uint32 if bits == 32 else np.uint64
    seeds = (SEEDS32 if bits == 32 else SEEDS64)
    seeds = [seeds[1], seeds[4]]
    ns = const_list(bits, R.thorough or name in ("PokeRNGRMod",))
    for i, n in enumerate(ns):
        R.progress(f"{name}.const_jump({n:#x})")
        # alternate between a plain integer and the declared type, and between options
        arg = T(n) if i % 2 or n >= 1 << 63 else n
        fn = cls.const_jump(arg, **({"inline": "always"} if i % 5 == 0 else {}))
        for seed in seeds:
            def f():
                rng = cls(T(seed))
                r = fn(rng)
                return r, rng.seed
            check_one(R, name, "const_jump", f, seed, n, pair, bits)
        if i % 8 == 0:
            # called from compiled code, as the package itself does
            @njit
            def caller(rng):
                return fn(rng)

            def g():
                rng = cls(T(seeds[1]))
                r = caller(rng)
                return r, rng.seed
            check_one(R, name, "const_jump", g, seeds[1], n, pair, bits)
        if R.full():
            break
    R.sample({"class": name, "const_jump": int(ns[-1]), "seed": seeds[1]})


def plain(R, name):
    import numba_pokemon_prngs.lcrng as L
    bits, pair, _d, _i = lcgs.CLASSES[name]
    cls = getattr(L, name)
    T = np.uint32 if bits == 32 else np.uint64
    k = 3 if bits == 32 else 2
    ns = sorted(set(range(1025)) | set(int(v) for v in sets.weight_array(bits, k)) | set(sets.near_powers(bits, 8)))
    if not R.thorough and len(ns) > 8000:
        ns = sorted(set(range(1025)) | set(int(v) for v in sets.weight_array(bits, 2)) | set(sets.near_powers(bits, 8)))
    seeds = (SEEDS32 if bits == 32 else SEEDS64)
    R.progress(f"{name} uncompiled jumps")
    for i, n in enumerate(ns):
        seed = seeds[i % len(seeds)]
        for arg in (n, T(n)):
            def f():
                rng = cls(T(seed))
                r = rng.jump(arg)
                return r, rng.seed
            check_one(R, name, "jump", f, seed, n, pair, bits)

            def g():
                fn = cls.const_jump(arg)
                rng = cls(T(seed))
                r = fn(rng)
                return r, rng.seed
            check_one(R, name, "const_jump", g, seed, n, pair, bits)
        if R.full():
            return
    R.progress(f"{name} uncompiled advance")
    for n in list(range(0, 300)) + [(1 << k) + d for k in range(9, 17) for d in (-1, 0, 1, 5)] + [(1 << 18) + 5]:
        def h():
            rng = cls(T(seeds[4]))
            r = rng.advance(T(n) if n % 2 else n)
            return r, rng.seed
        check_one(R, name, "advance", h, seeds[4], n, pair, bits)
    R.sample({"class": name, "jump": ns[-2], "seed": seeds[4]})
