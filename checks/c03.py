"""C03: bounded draws of the LCRNGs."""
import numpy as np
from vlib.core import Task
from vlib import lcgs, sets

LEVEL = "model_checking"
RULE = ("every (raw output, maximum) pair is one transition: the real generator is put in front of the raw output, draws, "
        "and value, range and reached state are compared with the documented distribution in integer arithmetic")
ASSUMPTIONS = ["the raw output alone determines the draw except for the low half of the state, which takes two values per raw output",
               "64-bit generators: all bucket boundaries of the listed maxima"]
FULL = ("PokeRNGMod", "PokeRNGRDiv")  # all pairs also in the quick tier
CONST_MAX = [1, 2, 3, 4, 5, 7, 10, 25, 100, 255, 256, 257, 2880, 32767, 32768, 32769, 65534, 65535]


def bounds(tier):
    return ("32-bit generators compiled: all 65536 raw values x all maxima 1..65535 (quick: for " + " and ".join(FULL) + "; the other "
            "classes all raw values x about 3300 maxima and every 32nd raw value x all maxima). 64-bit compiled: both sides of every bucket "
            f"boundary for all maxima up to {8192 if tier == 'thorough' else 2048}, the first and last 2048 buckets of all maxima "
            "within 64 of a power of two. Constant draws compiled: the listed maxima x all raw values (boundaries for 64-bit). "
            "Uncompiled: all maxima x boundary raw values, listed maxima x all raw values, both general and constant draws")


def tasks(tier):
    t = []
    for name, (bits, *_r) in lcgs.CLASSES.items():
        t.append(Task("pairs32" if bits == 32 else "pairs64", "numba", cpus=4, name=name))
    for name in lcgs.CLASSES:
        t.append(Task("const", "numba", name=name))
        t.append(Task("plain", "numpy", name=name))
    return t + [Task("mixed", mode) for mode in ("numba", "numpy")]


def mixed(R):
    """draws for the same constant prepared for several classes in one process, all before any is used"""
    import itertools
    import numba_pokemon_prngs.lcrng as L
    names = list(lcgs.CLASSES)
    if R.numba:
        orders = [names, names[::-1]] + ([names[i:] + names[:i] for i in range(1, 10)] if R.thorough else [])
    else:
        orders = list(itertools.permutations(names, 2)) + [names, names[::-1]]
    n = 0
    for order in orders:
        for maxima in ((3, 25, 100), (100, 2880, 25)):
            R.progress(f"const_rand of {order} for {maxima}")
            made = [(name, m, getattr(L, name).const_rand(m)) for m in maxima for name in order]
            for name, m, fn in made:
                bits = lcgs.CLASSES[name][0]
                cls, T = getattr(L, name), np.uint32 if bits == 32 else np.uint64
                for raw in raws_for(name, m, False)[::5]:
                    def f(seed):
                        rng = cls(T(seed))
                        return fn(rng), rng.seed
                    n += check(R, name, "const_rand", raw, 0, m, f)
            if R.full():
                return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", 2 * len(orders))


def seed_for(name, raw, low):
    """a seed whose next output is raw"""
    bits, pair, _d, _i = lcgs.CLASSES[name]
    ia, ic = lcgs.inverse(pair, bits)
    st = (raw << (bits // 2)) | low
    return (st * ia + ic) & ((1 << bits) - 1), st


def snippet(name, raw, low, maximum, op="next_rand"):
    bits, _p, dist, _i = lcgs.CLASSES[name]
    seed, st = seed_for(name, raw, low)
    want = lcgs.rand(dist, raw, maximum)
    call = f"rng.next_rand(np.uint{bits // 2}(m))" if op == "next_rand" else f"{name}.const_rand(m)(rng)"
    return f"""
from numba_pokemon_prngs.lcrng import {name}
import numpy as np
seed, m = {seed}, {maximum}      # the next raw output is {raw}
rng = {name}(np.uint{bits}(seed))
got = int({call})
assert got == {want} and int(rng.seed) == {st}, (got, {want}, hex(int(rng.seed)), {hex(st)!r})
"""


def report(R, name, res, what):
    if res[0]:
        raw, low, m, got, st = res[1:6]
        R.fail(f"rand:{name}", f"{name}.next_rand({m}) with raw output {raw} gives {got} and leaves {st:#x}, expected "
               f"{lcgs.rand(lcgs.CLASSES[name][2], raw, m)} ({res[0]} pairs of {what} differ)",
               {"class": name, "raw": raw, "maximum": m}, snippet(name, raw, low, m))


def pairs32(R, name):
    from numba import njit
    from vlib import nb
    import numba_pokemon_prngs.lcrng as L
    bits, pair, dist, _i = lcgs.CLASSES[name]
    cls = getattr(L, name)
    ia, ic = lcgs.inverse(pair, bits)
    IA, IC, F = np.uint64(ia), np.uint64(ic), np.uint64(0xFFFFFFFF)
    mod = dist == "mod"

    @njit(nogil=True)
    def k(lo, hi, out, ms, step, start):
        rng = cls(np.uint32(0))
        for i in range(lo, hi):
            raw = i * step + start
            for par in range(2):
                low = np.uint64((raw * 40503 + 12345) & 0xFFFF)
                if par:
                    low ^= np.uint64(0xFFFF)
                st = (np.uint64(raw) << np.uint64(16)) | low
                seed = np.uint32((st * IA + IC) & F)
                for j in range(par, len(ms), 2):
                    m = ms[j]
                    rng.re_init(seed)
                    v = np.int64(rng.next_rand(np.uint16(m)))
                    if mod:
                        want = raw % m
                    else:
                        want = raw // (65535 // m + 1)
                    if v != want or v >= m or np.uint64(rng.seed) != st:
                        if out[0] == 0:
                            out[1] = raw
                            out[2] = low
                            out[3] = m
                            out[4] = v
                            out[5] = rng.seed
                        out[0] += np.uint64(1)
    R.progress(f"{name}.next_rand, raw values and maxima")
    if R.thorough or name in FULL:
        plans = [(range(1, 65536), 1, 0)]
    else:
        some = set(range(1, 1025)) | {v for v in sets.near_powers(16, 40) if v} | set(range(65536 // 3, 65536, 65536 // 3))
        some |= set(range(R.seed % 61 + 1, 65536, 61))
        plans = [(sorted(some), 1, 0), (range(1, 65536), 32, R.seed % 32)]
    for ms, step, start in plans:
        total = 65536 // step
        res = nb.par(k, total, (np.array(ms, np.int64), step, start), threads=4)
        R.count("states", 2 * total)
        R.count("transitions", total * len(ms))
        R.count("traces_validated_against_impl", len(ms))
        report(R, name, res, f"{total} raw values x {len(ms)} maxima")
    R.sample({"class": name, "raw": 65535, "maximum": 65535, "value": lcgs.rand(dist, 65535, 65535)})


def pairs64(R, name):
    from numba import njit
    from vlib import nb
    import numba_pokemon_prngs.lcrng as L
    bits, pair, dist, _i = lcgs.CLASSES[name]
    cls = getattr(L, name)
    ia, ic = lcgs.inverse(pair, bits)
    IA, IC = np.uint64(ia), np.uint64(ic)
    S = np.uint64(32)

    @njit(nogil=True)
    def one(rng, raw, low, m, out):
        st = (raw << S) | low
        seed = st * IA + IC
        rng.re_init(seed)
        v = np.uint64(rng.next_rand(np.uint32(m)))
        want = (raw * m) >> S
        if v != want or v >= m or np.uint64(rng.seed) != st:
            if out[0] == 0:
                out[1] = raw
                out[2] = low
                out[3] = m
                out[4] = v
                out[5] = rng.seed
            out[0] += np.uint64(1)
        out[8] += np.uint64(1)

    @njit(nogil=True)
    def k(lo, hi, out, ms):
        rng = cls(np.uint64(0))
        for i in range(lo, hi):
            m = ms[i]
            n = m if m < np.uint64(2048) else np.uint64(2048)
            for side in range(2):
                for j in range(n):
                    kk = np.uint64(j) if side == 0 else m - np.uint64(j)
                    raw = ((kk << S) + m - np.uint64(1)) // m
                    low = np.uint64(0) if j & 1 else np.uint64(0xFFFFFFFF)
                    if raw <= np.uint64(0xFFFFFFFF):
                        one(rng, raw, low, m, out)
                    if raw > np.uint64(0):
                        one(rng, raw - np.uint64(1), low, m, out)
    @njit(nogil=True)
    def near(lo, hi, out, rows):
        rng = cls(np.uint64(0))
        for i in range(lo, hi):
            one(rng, rows[i, 0], np.uint64(0x9E3779B9) * rows[i, 0] & np.uint64(0xFFFFFFFF), rows[i, 1], out)
    rows = []
    many = set(range(1, 3000)) | {v for v in sets.near_powers(32, 64) if v} | set(range((1 << 32) // 3, 1 << 32, (1 << 32) // (30011 if R.thorough else 3001)))
    for m in sorted(many):
        rows += [(raw, m) for raw in sets.nearest(m, 32, 8)]
    R.progress(f"{name}.next_rand at the products closest to a multiple of 2^32")
    res = nb.par(near, len(rows), (np.array(rows, np.uint64),), threads=4)
    R.count("transitions", res[8])
    R.count("traces_validated_against_impl", len(many))
    report(R, name, res, "the closest products")
    ms = sorted(set(range(1, 8193 if R.thorough else 2049)) | set(v for v in sets.near_powers(32, 64) if v))
    R.progress(f"{name}.next_rand at bucket boundaries")
    res = nb.par(k, len(ms), (np.array(ms, np.uint64),), threads=4)
    R.count("transitions", res[8])
    R.count("traces_validated_against_impl", len(ms))
    report(R, name, res, "the boundary family")
    R.sample({"class": name, "maxima": len(ms), "largest": ms[-1]})


def check(R, name, op, raw, low, m, f):
    bits, _p, dist, _i = lcgs.CLASSES[name]
    seed, st = seed_for(name, raw, low)
    v, got = f(seed)
    R.state(name, seed)
    want = lcgs.rand(dist, raw, m)
    if int(v) != want or int(got) != st:
        R.fail(f"{op}:{name}", f"{name} {op}({m}) with raw output {raw} gives {int(v)} and leaves {int(got):#x}, expected {want}, {st:#x}",
               {"class": name, "raw": raw, "maximum": m, "operation": op}, snippet(name, raw, low, m, op))
    return 1


def raws_for(name, m, every):
    bits, _p, dist, _i = lcgs.CLASSES[name]
    if every and bits == 32:
        return range(65536)
    top = (1 << (bits // 2)) - 1
    s = {0, 1, 2, top, top - 1, m - 1, m, m + 1}
    if dist == "div":
        d = 0xFFFF // m + 1
        s |= {d - 1, d, d + 1, 2 * d - 1, (0xFFFF // d) * d, (0xFFFF // d) * d - 1}
    elif dist == "mod":
        s |= {(top // m) * m, (top // m) * m - 1}
    else:
        for k in list(range(0, min(m, 64))) + list(range(max(0, m - 64), m)):
            r = -(-(k << 32) // m)
            s |= {r, r - 1}
        s |= set(sets.nearest(m, 32, 8))
    return sorted(v for v in s if 0 <= v <= top)


def const(R, name):
    import numba_pokemon_prngs.lcrng as L
    from numba import njit
    bits, _p, dist, _i = lcgs.CLASSES[name]
    cls = getattr(L, name)
    T = np.uint32 if bits == 32 else np.uint64
    H = np.uint16 if bits == 32 else np.uint32
    maxima = CONST_MAX + ([] if bits == 32 else [65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1])
    rng = cls(T(0))
    n = 0
    for i, m in enumerate(maxima):
        R.progress(f"{name}.const_rand({m})")
        fn = cls.const_rand(H(m) if i % 2 else m, **({"inline": "always"} if i % 4 == 3 else {}))

        def f(seed):
            rng.re_init(T(seed))
            return fn(rng), rng.seed

        every = m in (1, 3, 100, 65535)
        for raw in raws_for(name, m, every):
            n += check(R, name, "const_rand", raw, raw * 31 & 0xFFFF, m, f)
        if i % 6 == 0:
            @njit
            def caller(g):
                return fn(g)

            def g(seed):
                rng.re_init(T(seed))
                return caller(rng), rng.seed
            for raw in raws_for(name, m, False):
                n += check(R, name, "const_rand", raw, 0, m, g)
        if R.full():
            break
    R.count("transitions", n)
    R.count("traces_validated_against_impl", len(maxima))


def plain(R, name):
    import numba_pokemon_prngs.lcrng as L
    bits, _p, dist, _i = lcgs.CLASSES[name]
    cls = getattr(L, name)
    T = np.uint32 if bits == 32 else np.uint64
    H = np.uint16 if bits == 32 else np.uint32
    rng = cls(T(0))
    n = 0
    R.progress(f"{name} uncompiled")
    maxima = range(1, 65536, 1 if R.thorough else 5) if bits == 32 else \
        sorted(set(range(1, 300)) | {v for v in sets.near_powers(32, 3) if v})
    maxima = sorted(set(maxima) | set(CONST_MAX) | {v for v in sets.near_powers(16, 2) if v})
    for i, m in enumerate(maxima):
        arg = H(m) if i % 2 else m
        fn = cls.const_rand(arg)

        def f(seed):
            rng.re_init(T(seed))
            return rng.next_rand(arg), rng.seed

        def g(seed):
            rng.re_init(T(seed))
            return fn(rng), rng.seed
        every = m in (1, 3, 100, 65535) and bits == 32 and R.thorough
        for raw in raws_for(name, m, every):
            n += check(R, name, "next_rand", raw, 0xFFFF, m, f)
            n += check(R, name, "const_rand", raw, 0, m, g)
        if R.full():
            break
    R.count("transitions", n)
    R.count("traces_validated_against_impl", len(maxima))
    R.sample({"class": name, "maxima": len(maxima)})
