"""C01: LCRNG transition relation and its inverse."""
import numpy as np
from vlib.core import Task
from vlib import lcgs, sets

LEVEL = "model_checking"
RULE = ("every transition (seed -> state, output) of the real generator is compared with the published "
        "recurrence evaluated by independent integer arithmetic, and the inverse generator is run on the result")
ASSUMPTIONS = [
    "compiled kernels inline the real methods; the optimiser may fold a loop it can show to find no difference",
    "64-bit generators: the listed families of seeds are enumerated completely, not all 2^64 seeds",
]


def bounds(tier):
    return ("32-bit generators compiled: all 2^32 seeds of all 8 generators. 64-bit compiled: all seeds with at most "
            "4 bits set or clear, all 2^32 low halves with each of 3 high halves and vice versa"
            + (", all seeds with at most 5 bits set or clear, 16 high/low halves" if tier == "thorough" else "")
            + ". Uncompiled: seeds with at most 3 (2 for 64 bits) bits set or clear, all seeds within 64 of a power of two, "
            "all 65536 top halves. User declared generators: all odd multipliers below 512 and of weight <= 2, "
            "4 increments, uncompiled; 3 compiled")


def tasks(tier):
    t = []
    for name, (bits, *_r) in lcgs.CLASSES.items():
        if bits == 32:
            t.append(Task("full32", "numba", cpus=4, name=name))
        else:
            t.append(Task("wide64", "numba", cpus=4, name=name))
    for name in lcgs.CLASSES:
        t.append(Task("plain", "numpy", name=name))
    t.append(Task("custom", "numpy"))
    t.append(Task("custom", "numba"))
    return t


def snippet(name, seed):
    bits, (m, a), _d, inv = lcgs.CLASSES[name]
    return f"""
from numba_pokemon_prngs.lcrng import {name}, {inv}
import numpy as np
M = (1 << {bits}) - 1
s = {seed}
want = (s * {m} + {a}) & M
rng = {name}(np.uint{bits}(s)); got = int(rng.next())
assert got == want and int(rng.seed) == want, (hex(s), hex(got), hex(int(rng.seed)), hex(want))
rng = {name}(np.uint{bits}(s)); got = int(rng.next_u{bits//2}())
assert got == want >> {bits//2} and int(rng.seed) == want, (hex(s), hex(got), hex(want))
rng = {inv}(np.uint{bits}(want)); got = int(rng.next())
assert got == s and int(rng.seed) == s, ('inverse', hex(want), hex(got), hex(s))
"""


def report(R, name, res, what):
    if res[0]:
        s = res[1]
        R.fail(f"step:{name}", f"{name}: {res[0]} of the seeds of {what} break the recurrence; first seed {s:#x} "
               f"returned {res[2]:#x}, state {res[3]:#x}, expected {res[4]:#x} (stage {res[5]})",
               {"class": name, "seed": s}, snippet(name, s))


def kernel32(cls, inv, m, a):
    from numba import njit
    M = np.uint64(m)
    A = np.uint64(a)
    F = np.uint64(0xFFFFFFFF)
    S16 = np.uint64(16)

    @njit(nogil=True)
    def k(lo, hi, out):
        rng = cls(np.uint32(0))
        back = inv(np.uint32(0))
        for i in range(lo, hi):
            s = np.uint32(i)
            want = (np.uint64(s) * M + A) & F
            rng.re_init(s)
            r = np.uint64(rng.next())
            st = np.uint64(rng.seed)
            stage = 1
            ok = r == want and st == want
            if ok:
                stage = 2
                rng.re_init(s)
                r = np.uint64(rng.next_u16())
                st = np.uint64(rng.seed)
                ok = r == (want >> S16) and st == want
            if ok:
                stage = 3
                back.re_init(np.uint32(want))
                r = np.uint64(back.next())
                st = np.uint64(back.seed)
                ok = r == np.uint64(s) and st == np.uint64(s)
            if not ok:
                if out[0] == 0:
                    out[1] = s
                    out[2] = r
                    out[3] = st
                    out[4] = want
                    out[5] = stage
                out[0] += np.uint64(1)
    return k


def kernel64(cls, inv, m, a):
    from numba import njit
    M = np.uint64(m)
    A = np.uint64(a)
    S32 = np.uint64(32)

    @njit(nogil=True)
    def one(s, rng, back, out):
        want = s * M + A
        rng.re_init(s)
        r = np.uint64(rng.next())
        st = np.uint64(rng.seed)
        stage = 1
        ok = r == want and st == want
        if ok:
            stage = 2
            rng.re_init(s)
            r = np.uint64(rng.next_u32())
            st = np.uint64(rng.seed)
            ok = r == (want >> S32) and st == want
        if ok:
            stage = 3
            back.re_init(want)
            r = np.uint64(back.next())
            st = np.uint64(back.seed)
            ok = r == s and st == s
        if not ok:
            if out[0] == 0:
                out[1] = s
                out[2] = r
                out[3] = st
                out[4] = want
                out[5] = stage
            out[0] += np.uint64(1)

    @njit(nogil=True)
    def karr(lo, hi, out, arr):
        rng = cls(np.uint64(0))
        back = inv(np.uint64(0))
        for i in range(lo, hi):
            one(arr[i], rng, back, out)

    @njit(nogil=True)
    def khalf(lo, hi, out, other, high):
        rng = cls(np.uint64(0))
        back = inv(np.uint64(0))
        for i in range(lo, hi):
            v = np.uint64(i)
            if high:
                v = (v << S32) | other
            else:
                v = v | (other << S32)
            one(v, rng, back, out)
    return karr, khalf


def full32(R, name):
    from vlib import nb
    import numba_pokemon_prngs.lcrng as L
    _b, (m, a), _d, inv = lcgs.CLASSES[name]
    R.progress(f"{name} all seeds")
    k = kernel32(getattr(L, name), getattr(L, inv), m, a)
    res = nb.par(k, 1 << 32, threads=4)
    R.count("states", 1 << 32)
    R.count("transitions", 3 << 32)
    R.count("traces_validated_against_impl", 1 << 32)
    R.sample({"class": name, "seeds": "0..2^32-1", "operations": ["next", "next_u16", "inverse next"]})
    report(R, name, res, "all 2^32")


def wide64(R, name):
    from vlib import nb
    import numba_pokemon_prngs.lcrng as L
    _b, (m, a), _d, inv = lcgs.CLASSES[name]
    karr, khalf = kernel64(getattr(L, name), getattr(L, inv), m, a)
    arr = sets.weight_array(64, 5 if R.thorough else 4)
    mi = np.uint64(pow(m, -1, 1 << 64))
    pre = (arr - np.uint64(a)) * mi  # preimages: the states reached have few bits set or clear
    near = np.array(sets.near_powers(64, 64), np.uint64)
    arr = np.unique(np.concatenate([arr, pre, near]))
    R.progress(f"{name} seeds with few bits set or clear")
    res = nb.par(karr, len(arr), (arr,), threads=4)
    report(R, name, res, "the low weight family")
    n = len(arr)
    others = [0, 0xFFFFFFFF, 0x9E3779B9]
    if R.thorough:
        others += [1, 0x80000000, 0x7FFFFFFF, 0x55555555, 0xAAAAAAAA, 0x6C078965, 0x5D588B65,
                   0x0000FFFF, 0xFFFF0000, 0x00FF00FF, 0x12345678, 0x87654321, 0xDEADBEEF]
    for o in others:
        for high in (False, True):
            R.progress(f"{name} all {'high' if high else 'low'} halves with {o:#x}")
            res = nb.par(khalf, 1 << 32, (np.uint64(o), high), threads=4)
            report(R, name, res, f"all {'high' if high else 'low'} halves with {o:#x}")
            n += 1 << 32
    R.count("states", 2 * n)
    R.count("transitions", 3 * n)
    R.count("traces_validated_against_impl", n)
    R.sample({"class": name, "seed": int(arr[len(arr) // 2]), "operations": ["next", "next_u32", "inverse next"]})


def check_plain(R, cls, inv, bits, m, a, seeds, name, code):
    mask = (1 << bits) - 1
    half = bits // 2
    T = np.uint32 if bits == 32 else np.uint64
    rng, back = cls(T(1)), inv(T(1))
    top = rng.next_u16 if bits == 32 else rng.next_u32
    n = 0
    for s in seeds:
        s = int(s)
        want = (s * m + a) & mask
        rng.re_init(T(s))
        r = int(rng.next())
        if r != want or int(rng.seed) != want:
            R.fail(f"step:{name}", f"{name}: seed {s:#x} steps to {r:#x} (state {int(rng.seed):#x}), expected {want:#x}",
                   {"class": name, "seed": s}, code(s))
        rng.re_init(T(s))
        r = int(top())
        if r != want >> half or int(rng.seed) != want:
            R.fail(f"top:{name}", f"{name}: seed {s:#x} top half {r:#x}, expected {want >> half:#x}",
                   {"class": name, "seed": s}, code(s))
        back.re_init(T(want))
        r = int(back.next())
        if r != s or int(back.seed) != s:
            R.fail(f"inverse:{name}", f"inverse of {name}: {want:#x} steps back to {r:#x}, expected {s:#x}",
                   {"class": name, "seed": s}, code(s))
        n += 1
        if R.full():
            break
    R.count("states", 2 * n)
    R.count("transitions", 3 * n)
    R.count("traces_validated_against_impl", n)


def plain(R, name):
    import numba_pokemon_prngs.lcrng as L
    bits, (m, a), _d, inv = lcgs.CLASSES[name]
    k = 3 if bits == 32 else 2
    if R.thorough:
        k += 1
    seeds = list(sets.weight_array(bits, k)) + sets.near_powers(bits, 64)
    seeds += [(i << (bits - 16)) | (i * 0x9E37 & 0xFFFF) for i in range(0, 65536, 1 if R.thorough else 4)]
    R.progress(f"{name} uncompiled")
    check_plain(R, getattr(L, name), getattr(L, inv), bits, m, a, seeds, name, lambda s: snippet(name, s))
    R.sample({"class": name, "seed": int(seeds[-1])})


def custom(R):
    from numba_pokemon_prngs.lcrng import (
        LCRNG32, LCRNG64, LCRNG32RandomDistribution, LCRNG64RandomDistribution, lcrng32_init, lcrng64_init)

    def build(bits, m, a):
        if bits == 32:
            @lcrng32_init(add=a, mult=m, distribution=LCRNG32RandomDistribution.MODULO)
            class Fwd(LCRNG32):
                pass

            @lcrng32_init(add=a, mult=m, distribution=LCRNG32RandomDistribution.MODULO, reverse=True)
            class Rev(LCRNG32):
                pass
        else:
            @lcrng64_init(add=a, mult=m, distribution=LCRNG64RandomDistribution.MULTIPLICATION_SHIFT)
            class Fwd(LCRNG64):
                pass

            @lcrng64_init(add=a, mult=m, distribution=LCRNG64RandomDistribution.MULTIPLICATION_SHIFT, reverse=True)
            class Rev(LCRNG64):
                pass
        return Fwd, Rev

    for bits in (32, 64):
        mask = (1 << bits) - 1
        if R.numba:
            params = [(mask - 2, 3)] if bits == 32 else [((1 << 63) + 1, mask)]
        else:
            mults = sorted(set(range(1, 512, 2)) | {v | 1 for v in sets.weight(bits, 2)} | {mask - 2 * i for i in range(16)})
            params = [(m, a) for m in mults for a in (0, 1, 0x6073, mask)]
            if not R.thorough:
                params = params[:: 3 if bits == 32 else 7]
        seeds = [0, 1, 2, 3, mask, mask - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, 0x9E3779B97F4A7C15 & mask, 0x12345678]
        for m, a in params:
            R.progress(f"custom {bits}-bit mult {m:#x} add {a:#x}")
            fwd, rev = build(bits, m, a)

            def code(s, bits=bits, m=m, a=a):
                return f"""
import numpy as np
from numba_pokemon_prngs.lcrng import LCRNG{bits}, lcrng{bits}_init
@lcrng{bits}_init(add={a}, mult={m})
class F(LCRNG{bits}): pass
@lcrng{bits}_init(add={a}, mult={m}, reverse=True)
class B(LCRNG{bits}): pass
s = {s}; want = (s * {m} + {a}) & {mask}
f = F(np.uint{bits}(s)); assert int(f.next()) == want, (f.seed, want)
b = B(np.uint{bits}(want)); assert int(b.next()) == s, (b.seed, s)
"""
            check_plain(R, fwd, rev, bits, m, a, seeds, f"custom{bits}", code)
            if R.full():
                return
