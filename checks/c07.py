"""C07: Xorshift128 steps forward and backward consistently."""
import itertools
import numpy as np
from vlib.core import Task
from vlib import far, refs, sets

LEVEL = "model_checking"
RULE = ("the real generator is placed in each explored 128-bit state by its constructor or re_init and every forward step, backward step and "
        "draw is compared with an independent two-way xorshift128 machine; four further outputs identify the whole state reached; one operation "
        "is one transition")
ASSUMPTIONS = ["the step is linear over GF(2), so states of low weight exercise every tap and every pair of taps",
               "float draws are accepted when equal to the documented formula evaluated in single, double or mixed precision"]


def bounds(tier):
    t = tier == "thorough"
    return (f"compiled: all states of weight <= {4 if t else 3} and their complements, 2^22 dense states; step, step back, 3 steps back and forward. "
            f"All next/previous histories of length <= {14 if t else 11} in both modes. Bounded draws: all pairs of signed bounds from a "
            "boundary set x raw outputs at the wrap-around points, all 2^23 float mantissas x 6 ranges; advance 0..600 from 10 states; advances around every "
            "power of two up to 2^24 and of 2^26+3, 2^28+1, 2^31+1 and 2^32-1 (uncompiled: up to 2^16 and 2^18+5)")


def tasks(tier):
    return [Task("states", "numba", cpus=8, timeout=3000), Task("floats", "numba", cpus=4), Task("ops", "numba"), Task("plain", "numpy"), Task("ops", "numpy"), Task("distant", "numba"), Task("distant", "numpy")]


HEAD = """
from numba_pokemon_prngs.xorshift import Xorshift128
from vlib.refs import xs128_two_way
import numpy as np
"""


def snip(s, hist):
    return HEAD + f"""
s = {tuple(int(v) for v in s)}
rng, want, p = Xorshift128(*map(np.uint32, s)), xs128_two_way(*s), 0
for op in {hist!r} + "nnnn":
    if op == "n":
        got, ref, p = int(rng.next()), want.at(p), p + 1
    else:
        got, ref, p = int(rng.previous()), want.at(p - 1), p - 1
    assert got == ref, (op, p, hex(got), hex(ref))
"""


def compiled_refs():
    from numba import njit

    @njit(nogil=True)
    def step(st):
        t = st[0]
        t ^= (t << 11) & 0xFFFFFFFF
        t ^= t >> 8
        t ^= st[3] ^ (st[3] >> 19)
        st[0], st[1], st[2], st[3] = st[1], st[2], st[3], t
        return np.uint64(t)

    @njit(nogil=True)
    def back(st):
        y = st[3] ^ st[2] ^ (st[2] >> 19)
        a = y
        for _ in range(4):
            a = y ^ (a >> 8)
        b = a
        for _ in range(3):
            b = (a ^ (b << 11)) & 0xFFFFFFFF
        out = st[3]
        st[0], st[1], st[2], st[3] = b, st[0], st[1], st[2]
        return np.uint64(out)
    return step, back


def kernel(cls):
    from numba import njit
    step, back = compiled_refs()

    @njit(nogil=True)
    def bad(out, a, b, c, d, what):
        if out[0] == 0:
            out[1] = a
            out[2] = b
            out[3] = c
            out[4] = d
            out[5] = what
        out[0] += np.uint64(1)

    @njit(nogil=True)
    def one(rng, st, a, b, c, d, out):
        # n p | nnnn, then p ppp nnn | nnnn
        rng.re_init(np.uint32(a), np.uint32(b), np.uint32(c), np.uint32(d))
        st[0], st[1], st[2], st[3] = a, b, c, d
        ok = True
        v = step(st)
        ok = ok and np.uint64(rng.next()) == v
        back(st)
        ok = ok and np.uint64(rng.previous()) == v
        if not ok:
            bad(out, a, b, c, d, 1)
            return
        for _ in range(5):
            ok = ok and np.uint64(rng.next()) == step(st)
        if not ok:
            bad(out, a, b, c, d, 2)
            return
        for _ in range(8):
            ok = ok and np.uint64(rng.previous()) == back(st)
        if not ok:
            bad(out, a, b, c, d, 3)
            return
        for _ in range(4):
            ok = ok and np.uint64(rng.next()) == step(st)
        if not ok:
            bad(out, a, b, c, d, 4)
        out[8] += np.uint64(19)

    @njit(nogil=True)
    def product(lo, hi, out, first, second, F):
        rng = cls(np.uint32(1), np.uint32(0), np.uint32(0), np.uint32(0))
        st = np.zeros(4, np.int64)
        for i in range(lo, hi):
            for j in range(len(second)):
                a, b, c, d = first[i, 0], first[i, 1], second[j, 0], second[j, 1]
                one(rng, st, a, b, c, d, out)
                one(rng, st, a ^ F, b ^ F, c ^ F, d ^ F, out)

    @njit(nogil=True)
    def dense(lo, hi, out, salt):
        st = np.zeros(4, np.int64)
        for i in range(lo, hi):
            x = (i * 2 + 1) * 2654435761 + salt
            a, b = x & 0xFFFFFFFF, (x >> 11) * 40503 & 0xFFFFFFFF
            c, d = (a * 1103515245 + i) & 0xFFFFFFFF, (b * 69069 + 1) & 0xFFFFFFFF
            rng = cls(np.uint32(a), np.uint32(b), np.uint32(c), np.uint32(d))
            one(rng, st, a, b, c, d, out)
    return product, dense


HISTS = {1: "np", 2: "npnnnnn", 3: "npnnnnnpppppppp", 4: "npnnnnnppppppppnnnn"}


def report(R, res, what):
    if res[0]:
        s, h = tuple(res[1:5]), HISTS[res[5]]
        R.fail("step", f"Xorshift128{tuple(hex(v) for v in s)}: history {h} (n next, p previous) differs from the reference "
               f"({res[0]} of {what} differ)", {"state": s, "history": h}, snip(s, h))


def states(R):
    from vlib import nb
    from numba_pokemon_prngs.xorshift import Xorshift128 as cls
    F = 0xFFFFFFFF
    product, dense = kernel(cls)
    k = 4 if R.thorough else 3
    arr = np.array([(v >> 32, v & F, bin(v).count("1")) for v in sets.weight(64, k)], np.int64)
    counts = [int((arr[:, 2] <= w).sum()) for w in range(k + 1)]
    for w in range(k + 1):
        first = np.ascontiguousarray(arr[counts[w - 1] if w else 0:counts[w]])
        second = np.ascontiguousarray(arr[:counts[k - w]])
        R.progress(f"states of weight <= {k}")
        res = nb.par(product, len(first), (first, second, F))
        R.count("states", 2 * len(first) * len(second))
        R.count("transitions", res[8])
        R.count("traces_validated_against_impl", 2 * len(first) * len(second))
        report(R, res, f"the states of weight <= {k}")
    n = 1 << (26 if R.thorough else 22)
    R.progress("dense states")
    res = nb.par(dense, n, (R.seed,))
    R.count("states", n)
    R.count("transitions", res[8])
    R.count("traces_validated_against_impl", n)
    report(R, res, f"{n} dense states")
    R.sample({"weight": k, "dense": n})


def float_values(raw, lo, hi):
    """the documented formula in the three precisions"""
    f32, f64 = np.float32, np.float64
    t = f32(raw & 0x7FFFFF) / f32(0x7FFFFF)
    lo, hi = f32(lo), f32(hi)
    a = f32(f32(t * lo) + f32(f32(f32(1) - t) * hi))
    b = f64(f32(t * lo)) + (f64(1) - f64(t)) * f64(hi)
    c = f64(t) * f64(lo) + (f64(1) - f64(t)) * f64(hi)
    return [float(a), float(b), float(c), float(f32(b)), float(f32(c))]


RANGES = [(0.0, 1.0), (1.0, 2.0), (-1.0, 1.0), (0.1, 0.7), (-5.5, -2.25), (0.8, 2.4)]


def floats(R):
    """every mantissa: the state (0, 0, 0, x) gives the output x ^ (x >> 19)"""
    from numba import njit
    from vlib import nb
    from numba_pokemon_prngs.xorshift import Xorshift128 as cls
    f32, f64 = np.float32, np.float64

    @njit(nogil=True)
    def k(lo, hi, out, rmin, rmax, top):
        rng = cls(np.uint32(0), np.uint32(0), np.uint32(0), np.uint32(0))
        z = np.uint32(0)
        for i in range(lo, hi):
            x = i | (top << 23)
            rng.re_init(z, z, z, np.uint32(x))
            v = f64(rng.next_float_randrange(rmin, rmax))
            after = np.int64(rng.next())
            raw = x ^ (x >> 19)
            t = f32(raw & 0x7FFFFF) / f32(0x7FFFFF)
            one = f32(1)
            a = f64(f32(f32(t * rmin) + f32(f32(one - t) * rmax)))
            b = f64(f32(t * rmin)) + (f64(1) - f64(t)) * f64(rmax)
            c = f64(t) * f64(rmin) + (f64(1) - f64(t)) * f64(rmax)
            good = v == a or v == b or v == c or v == f64(f32(b)) or v == f64(f32(c))
            # the next output of (0, 0, x, raw)
            if not good or after != (raw ^ (raw >> 19)):
                if out[0] == 0:
                    out[1] = x
                out[0] += np.uint64(1)
            out[8] += np.uint64(1)
    for j, (lo, hi) in enumerate(RANGES):
        R.progress(f"next_float_randrange({lo}, {hi})")
        res = nb.par(k, 1 << 23, (f32(lo), f32(hi), j * 73 % 512), threads=4)
        R.count("states", 1 << 23)
        R.count("transitions", res[8])
        R.count("traces_validated_against_impl", 1 << 23)
        if res[0]:
            x = res[1]
            R.fail("float", f"next_float_randrange({lo}, {hi}) from state (0, 0, 0, {x:#x}) is not the documented value or does not take one step "
                   f"({res[0]} of 2^23 differ)", {"state": x, "range": [lo, hi]}, HEAD + f"""
from checks.c07 import float_values
rng, raw = Xorshift128(0, 0, 0, {x}), {x ^ (x >> 19)}
got = float(rng.next_float_randrange(np.float32({lo}), np.float32({hi})))
assert got in float_values(raw, {lo}, {hi}), (got, float_values(raw, {lo}, {hi}))
assert int(rng.next()) == raw ^ (raw >> 19)
""")


def feeder(raw):
    """a state whose next output is raw"""
    return (0, 7, 9, raw ^ (raw >> 19))


LOWS = [-0x80000000, -0x7FFFFFFF, -0x40000000, -65536, -257, -3, -1, 0, 1, 2, 100, 65535, 0x3FFFFFFF, 0x7FFFFFFE]
HIGHS = [-0x7FFFFFFF, -65535, -2, -1, 0, 1, 2, 3, 5, 100, 101, 256, 65536, 0x40000000, 0x7FFFFFFE, 0x7FFFFFFF]


def raws(diff, low):
    top = 0xFFFFFFFF
    s = {0, 1, 2, diff - 1, diff, diff + 1, top, top - 1, 0x7FFFFFFF, 0x80000000, (top // diff) * diff, (top // diff) * diff - 1,
         (-low) & top, (-low - 1) & top, (-low + 1) & top}
    return sorted(v for v in s if 0 <= v <= top)


def distant(R):
    """advances as far as the implementation can walk"""
    from numba_pokemon_prngs.xorshift import Xorshift128 as cls
    states = [(R.seed & 0xFFFFFFFF, 0x9E3779B9, 0x7F4A7C15, 0xDEADBEEF), (1, 0, 0, 0), (0xFFFFFFFF, 0, 0x80000000, 0x12345678)]
    cases = [(f"Xorshift128{s}", lambda s=s: cls(*(np.uint32(v) for v in s)), far.pack(s, 32),
              HEAD + f"rng = Xorshift128(*map(np.uint32, {s}))") for s in states]
    far.explore(R, "advance", "xs128", cases, wide=False)


def ops(R):
    from numba_pokemon_prngs.xorshift import Xorshift128 as cls
    rng = cls(1, 2, 3, 4)
    n = 0

    def draw(op, args, raw, want, label):
        nonlocal n
        s = feeder(raw)
        rng.re_init(*(np.uint32(v) for v in s))
        got = getattr(rng, op)(*args)
        after = int(rng.next())
        ref = refs.xs128_step(refs.xs128_step(s))[3]
        n += 1
        good = float(got) in want if isinstance(want, list) else int(got) == want
        if not good or after != ref:
            shown = ", ".join(f"np.{type(a).__name__}({a})" if isinstance(a, np.generic) else repr(a) for a in args)
            R.fail(op, f"Xorshift128.{op}({label}) with raw output {raw:#x} gives {got}, expected {want}; next output {after:#x}, reference {ref:#x}",
                   {"operation": op, "arguments": label, "raw": raw}, HEAD + f"""
rng = Xorshift128(*map(np.uint32, {s}))
got, want = rng.{op}({shown}), {want}
assert (float(got) in want if isinstance(want, list) else int(got) == want), (got, want)
assert int(rng.next()) == {ref}
""")
    for lo in LOWS:
        for hi in HIGHS:
            if lo >= hi or R.full():
                continue
            R.progress(f"next_randrange({lo}, {hi})")
            for i, raw in enumerate(raws(hi - lo, lo)):
                value = (raw % (hi - lo) + lo) & 0xFFFFFFFF
                args = (lo, hi) if i % 2 else (np.int32(lo), np.int32(hi))
                draw("next_randrange", args, raw, value, f"{lo}, {hi}")
    for m in sorted(set(range(1, 70)) | {v for v in sets.near_powers(32, 1) if v}):
        if R.full():
            break
        R.progress(f"next_rand({m})")
        arg = [m, np.uint32(m)] + ([np.uint16(m)] if m < 65536 else [])
        for i, raw in enumerate(raws(m, -m)):
            draw("next_rand", (arg[i % len(arg)],), raw, raw % m, f"{m}")
            alt = ((raw % 0xFFFFFFFF) + 0x80000000) & 0xFFFFFFFF
            draw("next_alternate_rand", (arg[(i + 1) % len(arg)],), raw, alt % m, f"{m}")
    for lo, hi in RANGES + [(-1e30, 1e30), (3.0, 3.0), (1e-30, 2e-30)]:
        for raw in [0, 1, 2, 0x7FFFFF, 0x7FFFFE, 0x800000, 0x3FFFFF, 0x400000, 0xFFFFFFFF, 0x80000001, 0x2AAAAA, 0x555555]:
            draw("next_float_randrange", (np.float32(lo), np.float32(hi)), raw, float_values(raw, lo, hi), f"{lo}, {hi}")
    # advances
    for j, s in enumerate([(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0xFFFFFFFF,) * 4, (R.seed, 2, 3, 4),
                           (0x80000000, 0, 0, 0x80000000), (5, 6, 7, 8), (0, 0, 0xFFFF0000, 3), (0x12345678, 0x9ABCDEF0, 1, 2)]):
        want = refs.XS128Stream(*s)
        for d in list(range(601 if R.numba else 60)) + [1000, 4096] + ([65535, 65536] if R.numba else []):
            R.progress(f"advance({d})")
            rng.re_init(*s)
            rng.advance(np.uint32(d) if d % 2 else d)
            got, ref = [int(rng.next()) for _ in range(4)], want.window(d, d + 4)
            n += 1
            if got != ref:
                R.fail("advance", f"Xorshift128{s}.advance({d}) is not {d} steps: next outputs {got}, reference {ref}", {"state": s, "advance": d},
                       HEAD + f"""
rng, want = Xorshift128(*map(np.uint32, {s})), xs128_two_way(*{s})
rng.advance({d})
assert [int(rng.next()) for _ in range(4)] == [want.at({d} + i) for i in range(4)]
""")
                if R.full():
                    return
    # all next/previous histories
    depth = (14 if R.thorough else 11) - (0 if R.numba else 2)
    for s in [(R.seed & 0xFFFFFFFF, 0xDEADBEEF, 0, 0xFFFFFFFF), (1, 0, 0, 0)]:
        want = refs.xs128_two_way(*s)
        for hist in itertools.product("np", repeat=depth):
            rng.re_init(*s)
            p = 0
            for i, op in enumerate(hist):
                R.state(s, p)
                if op == "n":
                    got, ref, p = int(rng.next()), want.at(p), p + 1
                else:
                    got, ref, p = int(rng.previous()), want.at(p - 1), p - 1
                if got != ref:
                    h = "".join(hist[:i + 1])
                    R.fail("history", f"Xorshift128{s}: history {h}: the last operation gives {got:#x}, reference {ref:#x}",
                           {"state": s, "history": h}, snip(s, h))
                    break
            if R.full():
                return
        R.count("traces_validated_against_impl", 2 ** depth)
        n += 2 ** depth * depth
    R.count("transitions", n)
    R.sample({"histories": depth})


def plain(R):
    from numba_pokemon_prngs.xorshift import Xorshift128 as cls
    F = (1 << 128) - 1
    rng = cls(1, 2, 3, 4)
    for i, v in enumerate(sets.weight(128, 2)):
        for f in (0, F):
            s = tuple(((v ^ f) >> (32 * j)) & 0xFFFFFFFF for j in range(4))
            R.progress(f"state {s}")
            if i % 5:
                rng.re_init(*(np.uint32(x) for x in s))
            else:
                rng = cls(*s)
            want = refs.xs128_two_way(*s)
            got = [int(rng.next()), int(rng.previous()), int(rng.previous()), int(rng.next())] + [int(rng.next()) for _ in range(4)]
            ref = [want.at(0), want.at(0), want.at(-1), want.at(-1)] + [want.at(j) for j in range(4)]
            R.count("states")
            R.count("transitions", 8)
            R.count("traces_validated_against_impl")
            if got != ref:
                R.fail("step", f"Xorshift128{s}: history nppnnnnn gives {got}, reference {ref}", {"state": s}, snip(s, "nppnnnnn"))
                if R.full():
                    return
