"""C08: both xoroshiro128+ generators step, reverse, seed and draw as documented."""
import itertools
import numpy as np
from vlib.core import Task
from vlib import far, refs, sets

LEVEL = "model_checking"
RULE = ("the real generator is placed in each explored 128-bit state (by its constructor; the split-mix variant through its public state array) "
        "or seeded, and every step, backward step and bounded draw is compared with an independent two-way xoroshiro128+ machine (24, 16, 37); "
        "following outputs identify the state reached; one operation is one transition")
ASSUMPTIONS = ["apart from the output sum the step is linear over GF(2), so states of low weight exercise every tap and every pair of taps"]
F = 0xFFFFFFFFFFFFFFFF
DEFAULT = 0x82A2B175229D6A5B


def bounds(tier):
    t = tier == "thorough"
    return (f"compiled: all states of weight <= {4 if t else 3} and their complements, 2^22 dense states: next, previous, 8 steps back and forth, "
            f"for both generators; seeds of weight <= {4 if t else 3}, their complements and 2^20 low seeds; rejection draws for all maxima 1..4096 and within 2 "
            "of powers of two from raw outputs at m-1, m, m+1, mask, mask+1 and over 256 consecutive stream positions. "
            f"All next/previous/draw histories of length <= {8 if t else 6} in both modes. Uncompiled: weight <= 2 states and seeds, the same draws for fewer maxima. "
            "Advances around every power of two up to 2^24 and of 2^26+3, 2^28+1, 2^31+1, 2^32-1, 2^32 and 2^32+5 (uncompiled: up to 2^16 and 2^18+5)")


def tasks(tier):
    return [Task("states", "numba", cpus=8, timeout=3000), Task("draws_compiled", "numba", cpus=4, timeout=3000), Task("ops", "numba"),
            Task("ops", "numpy"), Task("plain", "numpy"), Task("plain", "numba"),
            Task("distant", "numba"), Task("distant", "numpy")]


HEAD = """
from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection, SplitMixXoroshiro128Plus
from vlib.refs import xoro_two_way, splitmix
import numpy as np
"""


def make(name, s, seed=None):
    if name == "Xoroshiro128PlusRejection":
        return f"rng = Xoroshiro128PlusRejection(np.uint64({s[0]}), np.uint64({s[1]}))"
    if seed is not None:
        return f"rng = SplitMixXoroshiro128Plus(np.uint64({seed}))"
    return f"rng = SplitMixXoroshiro128Plus(np.uint64(0))\nrng.state[0], rng.state[1] = np.uint64({s[0]}), np.uint64({s[1]})"


def snip(name, s, hist, seed=None):
    shift = 0 if name == "Xoroshiro128PlusRejection" else 32
    return HEAD + f"""
{make(name, s, seed)}
want, p = xoro_two_way({s[0]}, {s[1]}, {shift}), 0
for op in {hist!r} + "nnn":
    if op == "n":
        got, ref, p = int(rng.next()), want.at(p), p + 1
    else:
        got, ref, p = int(rng.previous()), want.at(p - 1), p - 1
    assert got == ref, (op, p, hex(got), hex(ref))
"""


def snip_draw(name, s, m, seed=None):
    shift = 0 if name == "Xoroshiro128PlusRejection" else 32
    return HEAD + f"""
{make(name, s, seed)}
want, m, p = xoro_two_way({s[0]}, {s[1]}, {shift}), {m}, 1
if {shift == 0}:
    mask = (1 << (m - 1).bit_length()) - 1
    while want.at(p - 1) & mask >= m:
        p += 1
    expected = want.at(p - 1) & mask
else:
    expected = want.at(0) % m
got, after = int(rng.next_rand(np.uint32(m))), int(rng.next())
assert (got, after) == (expected, want.at(p)), (got, expected, hex(after), hex(want.at(p)))
"""


def layout(R):
    from numba_pokemon_prngs.xorshift import SplitMixXoroshiro128Plus
    try:
        ok = [int(v) for v in SplitMixXoroshiro128Plus(np.uint64(42)).state] == list(refs.splitmix(42))
    except Exception:
        ok = False
    if not ok:
        R.note("SplitMixXoroshiro128Plus.state is not the plain state: its states are reached through seeds only")
    return ok


def compiled_refs():
    from numba import njit
    U = np.uint64

    @njit(nogil=True)
    def rl(v, n):
        return (v << n) | (v >> (U(64) - n))

    @njit(nogil=True)
    def step(st):
        a, b = st[0], st[1]
        d = a ^ b
        st[0] = rl(a, U(24)) ^ d ^ (d << U(16))
        st[1] = rl(d, U(37))
        return a + b

    @njit(nogil=True)
    def back(st):
        d = rl(st[1], U(27))
        a = rl(st[0] ^ d ^ (d << U(16)), U(40))
        st[0] = a
        st[1] = a ^ d
        return st[0] + st[1]

    @njit(nogil=True)
    def mix(x):
        z = x
        z = (z ^ (z >> U(30))) * U(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> U(27))) * U(0x94D049BB133111EB)
        return z ^ (z >> U(31))
    return step, back, mix


def states(R):
    from numba import njit
    from vlib import nb
    from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection as A, SplitMixXoroshiro128Plus as B
    refs.self_check()
    step, back, mix = compiled_refs()
    U = np.uint64
    inject = layout(R)

    @njit(nogil=True)
    def walk(rng, st, shift):
        v = step(st) >> shift
        if U(rng.next()) != v:
            return 1
        back(st)
        if U(rng.previous()) != v:
            return 2
        for _ in range(4):
            if U(rng.next()) != step(st) >> shift:
                return 3
        for _ in range(8):
            if U(rng.previous()) != back(st) >> shift:
                return 4
        for _ in range(3):
            if U(rng.next()) != step(st) >> shift:
                return 5
        return 0

    @njit(nogil=True)
    def one(ra, rb, st, a, b, inject, out):
        st[0], st[1] = a, b
        ra.re_init(a, b)
        r = walk(ra, st, U(0))
        which = 0
        if r == 0 and inject:
            st[0], st[1] = a, b
            rb.state[0] = a
            rb.state[1] = b
            r = walk(rb, st, U(32))
            which = 1
        if r:
            if out[0] == 0:
                out[1] = a
                out[2] = b
                out[3] = which
                out[4] = r
            out[0] += U(1)
        out[8] += U(34)

    @njit(nogil=True)
    def product(lo, hi, out, first, second, inject):
        ra, rb = A(U(1), U(2)), B(U(0))
        st = np.zeros(2, np.uint64)
        for i in range(lo, hi):
            for j in range(len(second)):
                one(ra, rb, st, first[i], second[j], inject, out)
                one(ra, rb, st, ~first[i], ~second[j], inject, out)

    @njit(nogil=True)
    def dense(lo, hi, out, salt, inject):
        ra, rb = A(U(1), U(2)), B(U(0))
        st = np.zeros(2, np.uint64)
        for i in range(lo, hi):
            x = mix(U(i) * U(0x9E3779B97F4A7C15) + salt)
            one(ra, rb, st, x, mix(x), inject, out)

    @njit(nogil=True)
    def seeds(lo, hi, out, arr, start):
        rb = B(U(0))
        st = np.zeros(2, np.uint64)
        for i in range(lo, hi):
            seed = arr[i] if len(arr) else U(start) + U(i)
            if i & 1:
                rb = B(seed)
            else:
                rb.re_init(seed)
            st[0] = mix(seed + U(0x9E3779B97F4A7C15))
            st[1] = mix(seed + U(0x3C6EF372FE94F82A))
            r = walk(rb, st, U(32))
            if r == 0:
                # the pairing variant: one value and the documented constant
                ra = A(seed, U(DEFAULT))
                st[0], st[1] = seed, U(DEFAULT)
                r = walk(ra, st, U(0))
                if r == 0:
                    ra.re_init(~seed, U(DEFAULT))
                    st[0], st[1] = ~seed, U(DEFAULT)
                    r = walk(ra, st, U(0))
                if r:
                    r += 10
            if r:
                if out[0] == 0:
                    out[1] = seed
                    out[2] = r
                out[0] += U(1)
            out[8] += U(51)

    k = 4 if R.thorough else 3
    vals = list(sets.weight(64, k))
    arr = np.array(vals, np.uint64)
    w = np.array([bin(v).count("1") for v in vals])
    counts = [int((w <= x).sum()) for x in range(k + 1)]

    def report(res, what):
        if res[0]:
            s, name = tuple(res[1:3]), ("Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus")[res[3]]
            R.fail(f"step:{name}", f"{name} in state {tuple(hex(v) for v in s)} does not step forth and back as the reference (phase {res[4]}; "
                   f"{res[0]} of {what} differ)", {"class": name, "state": s}, snip(name, s, "npnnnnppppppppnnn"))
    for x in range(k + 1):
        first, second = arr[counts[x - 1] if x else 0:counts[x]], arr[:counts[k - x]]
        R.progress("states of low weight")
        res = nb.par(product, len(first), (first, second, inject))
        n = 2 * len(first) * len(second)
        R.count("states", n)
        R.count("transitions", res[8])
        R.count("traces_validated_against_impl", n)
        report(res, f"the states of weight <= {k}")
    n = 1 << (26 if R.thorough else 22)
    R.progress("dense states")
    res = nb.par(dense, n, (U(R.seed), inject))
    R.count("states", n)
    R.count("transitions", res[8])
    R.count("traces_validated_against_impl", n)
    report(res, "the dense states")
    none = np.zeros(0, np.uint64)
    for label, a, start, total in [("weight", sets.weight_array(64, k), 0, 0), ("low", none, 0, 1 << 20), ("near 2^32", none, (1 << 32) - (1 << 15), 1 << 16)]:
        R.progress(f"seeds {label}")
        total = total or len(a)
        res = nb.par(seeds, total, (a, start))
        R.count("states", total)
        R.count("transitions", res[8])
        R.count("traces_validated_against_impl", total)
        if res[0]:
            seed, r = res[1], res[2]
            if r > 10:
                R.fail("seed:pair", f"Xoroshiro128PlusRejection({seed:#x}) (or of its complement) differs from the reference", {"seed": seed},
                       HEAD + f"""
for seed in ({seed}, {seed ^ F}):
    rng, want = Xoroshiro128PlusRejection(np.uint64(seed)), xoro_two_way(seed, {DEFAULT}, 0)
    rng2 = Xoroshiro128PlusRejection(np.uint64(1))
    rng2.re_init(np.uint64(seed))
    for i in range(4):
        assert int(rng.next()) == want.at(i) == int(rng2.next())
""")
            else:
                s = refs.splitmix(seed)
                R.fail("seed:splitmix", f"SplitMixXoroshiro128Plus({seed:#x}) differs from the reference ({res[0]} seeds of {label})", {"seed": seed},
                       snip("SplitMixXoroshiro128Plus", s, "npnnnnppppppppnnn", seed))
    R.sample({"weight": k, "dense": n})


def mask_of(m):
    return (1 << (m - 1).bit_length()) - 1


def draw_ref(name, want, p, m):
    """(value, position afterwards)"""
    if name == "SplitMixXoroshiro128Plus":
        return want.at(p) % m, p + 1
    while want.at(p) & mask_of(m) >= m:
        p += 1
    return want.at(p) & mask_of(m), p + 1


def maxima(R):
    return sorted(set(range(1, 4097 if R.numba else 130)) | {v for v in sets.near_powers(32, 2) if v})


def draws_compiled(R):
    from numba import njit
    from vlib import nb
    from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection as A, SplitMixXoroshiro128Plus as B
    step, back, mix = compiled_refs()
    U = np.uint64

    @njit(nogil=True)
    def one(rng, st, m, mask, out, a, b, kind):
        if kind == 0:
            r = step(st) & mask
            while r >= m:
                r = step(st) & mask
                out[9] += U(1)
        else:
            r = (step(st) >> U(32)) % m
        v = U(rng.next_rand(np.uint32(m)))
        if v != r:
            if out[0] == 0:
                out[1], out[2], out[3], out[4], out[5], out[6] = a, b, m, v, r, kind
            out[0] += U(1)
            return False
        out[8] += U(1)
        return True

    @njit(nogil=True)
    def after(rng, st, out, a, b, m, kind):
        v, r = U(rng.next()), step(st)
        if kind:
            r = r >> U(32)
        if v != r:
            if out[0] == 0:
                out[1], out[2], out[3], out[4], out[5], out[6] = a, b, m, v, r, kind
            out[0] += U(1)

    @njit(nogil=True)
    def k(lo, hi, out, ms, masks, length):
        ra, rb = A(U(1), U(2)), B(U(0))
        st = np.zeros(2, np.uint64)
        for i in range(lo, hi):
            m, mask = ms[i], masks[i]
            # raw outputs at the edges: the state (0, raw) gives raw
            for e in range(12):
                for h in range(3):
                    base = (U(0), m - U(1), m, m + U(1), mask, mask + U(1), mask - U(1), m ^ mask, U(1), mask + m, mask + m + U(1), U(0xFFFFFFFF))[e]
                    raw = base | ((U(0), U(0xFFFFFFFF00000000), U(0x8000000100000000))[h])
                    st[0], st[1] = U(0), raw
                    ra.re_init(U(0), raw)
                    if one(ra, st, m, mask, out, U(0), raw, 0):
                        after(ra, st, out, U(0), raw, m, 0)
            # consecutive draws of a stream
            a, b = mix(m), mix(m + U(77))
            st[0], st[1] = a, b
            ra.re_init(a, b)
            for j in range(length):
                x, y = st[0], st[1]
                if not one(ra, st, m, mask, out, x, y, 0):
                    break
            rb.re_init(m)
            st[0] = mix(m + U(0x9E3779B97F4A7C15))
            st[1] = mix(m + U(0x3C6EF372FE94F82A))
            for j in range(length):
                x, y = st[0], st[1]
                if not one(rb, st, m, mask, out, x, y, 1):
                    break
            after(rb, st, out, m, U(0), m, 1)
    ms = maxima(R)
    R.progress("bounded draws")
    res = nb.par(k, len(ms), (np.array(ms, np.uint64), np.array([mask_of(m) for m in ms], np.uint64), 8192 if R.thorough else 512), threads=4)
    R.count("states", len(ms) * 36)
    R.count("transitions", res[8])
    R.count("traces_validated_against_impl", len(ms))
    R.count("rejected_outputs", res[9])
    if res[0]:
        a, b, m, v, r, kind = res[1:7]
        name = ("Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus")[kind]
        R.fail(f"draw:{name}", f"{name} in state ({a:#x}, {b:#x}): next_rand({m}) or the output after it is {v:#x}, expected {r:#x} ({res[0]} draws differ)",
               {"class": name, "state": (a, b), "maximum": m}, snip_draw(name, (a, b), m))
    R.sample({"maxima": len(ms), "rejected": res[9]})


def ops(R):
    """histories and argument types, through the objects"""
    from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection as A, SplitMixXoroshiro128Plus as B
    n = 0
    U = np.uint64
    depth = (8 if R.thorough else 6)
    symbols = ["n", "p", 1, 3, 257, 0x80000001, "a"]
    for name, cls, shift in (("Xoroshiro128PlusRejection", A, 0), ("SplitMixXoroshiro128Plus", B, 32)):
        for s in [(0x0123456789ABCDEF, R.seed)] + ([(F, 1)] if R.thorough else []):
            if shift:
                seed, s = s[0], refs.splitmix(s[0])
            want = refs.xoro_two_way(*s, shift)
            rng = cls(U(5))
            for i, hist in enumerate(itertools.product(symbols, repeat=depth if R.numba or R.thorough else depth - 1)):
                if shift:
                    rng.re_init(U(seed))
                else:
                    rng.re_init(U(s[0]), U(s[1]))
                p = 0
                for j, op in enumerate(hist):
                    if op == "n":
                        got, ref, p = rng.next(), want.at(p), p + 1
                    elif op == "p":
                        got, ref, p = rng.previous(), want.at(p - 1), p - 1
                    elif op == "a":
                        rng.advance(5)
                        got = ref = 0
                        p += 5
                    else:
                        got = rng.next_rand(op if i % 2 else np.uint32(op))
                        ref, p = draw_ref(name, want, p, op)
                    n += 1
                    R.state(name, s, p)
                    if int(got) != ref:
                        R.fail(f"history:{name}", f"{name} in state {s}: history {hist[:j + 1]} (n next, p previous, a advance(5), numbers bounded draws): "
                               f"the last gives {int(got):#x}, reference {ref:#x}", {"class": name, "state": s, "history": hist[:j + 1]}, None)
                        break
                if int(rng.next()) != want.at(p):
                    R.fail(f"history:{name}", f"{name} in state {s}: after history {hist} the next output is not that of position {p}",
                           {"class": name, "state": s, "history": hist}, None)
                if R.full():
                    return
                R.count("traces_validated_against_impl")
    # draws at the edges with every argument type
    rng = A(U(1), U(2))
    for i, m in enumerate(maxima(R)):
        if R.numba and i % 4 and m > 300 and m < 4000:
            continue
        R.progress(f"next_rand({m})")
        mask = mask_of(m)
        types = [m, np.uint32(m), U(m)] + ([np.uint16(m)] if m < 65536 else []) + ([np.uint8(m)] if m < 256 else [])
        for j, raw in enumerate(sorted({0, m - 1, m & mask, mask, (m + 1) & mask, m - 1 + (1 << 40), mask + 1 + (m & mask), F})):
            rng.re_init(U(0), U(raw))
            want = refs.xoro_two_way(0, raw, 0)
            v, p = draw_ref("Xoroshiro128PlusRejection", want, 0, m)
            arg = types[(i + j) % len(types)]
            got, after = int(rng.next_rand(arg)), int(rng.next())
            n += 1
            if (got, after) != (v, want.at(p)):
                R.fail("draw:Xoroshiro128PlusRejection", f"Xoroshiro128PlusRejection in state (0, {raw:#x}): next_rand({arg!r}) gives {got}, expected {v}; "
                       f"then {after:#x}, expected {want.at(p):#x}", {"raw": raw, "maximum": m}, snip_draw("Xoroshiro128PlusRejection", (0, raw), m))
                if R.full():
                    return
    seed = R.seed + 1000
    rng, want, p = B(U(seed)), refs.xoro_two_way(*refs.splitmix(seed), 32), 0
    for i, m in enumerate(maxima(R)):
        types = [m, np.uint32(m)] + ([np.uint16(m)] if m < 65536 else []) + ([np.uint8(m)] if m < 256 else [])
        for arg in types:
            v = want.at(p) % m
            got = int(rng.next_rand(arg))
            p += 1
            n += 1
            if got != v:
                R.fail("draw:SplitMixXoroshiro128Plus", f"SplitMixXoroshiro128Plus({seed}) draw {p - 1}: next_rand({arg!r}) gives {got}, expected {v}",
                       {"seed": seed, "draw": p - 1, "maximum": m},
                       snip_draw("SplitMixXoroshiro128Plus", want.state(p - 1), m))
                if R.full():
                    return
    for name, make_, want in (("Xoroshiro128PlusRejection", lambda: A(U(seed)), refs.xoro_two_way(seed, DEFAULT, 0)),
                              ("SplitMixXoroshiro128Plus", lambda: B(U(seed)), refs.xoro_two_way(*refs.splitmix(seed), 32))):
        for d in list(range(300 if R.numba else 40)) + [1000, 65536 if R.numba else 2000]:
            rng = make_()
            rng.advance(U(d) if d % 2 else d)
            n += 1
            got, ref = [int(rng.next()) for _ in range(2)], [want.at(d), want.at(d + 1)]
            if got != ref:
                R.fail(f"advance:{name}", f"{name}({seed}).advance({d}) is not {d} steps: then {got}, reference {ref}", {"class": name, "advance": d}, None)
                if R.full():
                    return
    R.count("transitions", n)
    R.sample({"history depth": depth, "symbols": symbols})


def distant(R):
    """advances as far as the implementation can walk"""
    from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection as A, SplitMixXoroshiro128Plus as B
    U = np.uint64
    states = [(R.seed + 77, 0x9E3779B97F4A7C15), (1, 0), (F, 1 << 63)]
    far.explore(R, "advance:Xoroshiro128PlusRejection", "xoro",
                [(f"Xoroshiro128PlusRejection{s}", lambda s=s: A(*(U(v) for v in s)), far.pack(s, 64), HEAD + make("Xoroshiro128PlusRejection", s))
                 for s in states], wide=True)
    far.explore(R, "advance:SplitMixXoroshiro128Plus", "xoro",
                [(f"SplitMixXoroshiro128Plus({s})", lambda s=s: B(U(s)), far.pack(refs.splitmix(s), 64), HEAD + make("SplitMixXoroshiro128Plus", None, s))
                 for s in (R.seed + 5, 0, F)], wide=True, shift=32)


def plain(R):
    from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection as A, SplitMixXoroshiro128Plus as B
    U = np.uint64
    inject = layout(R)
    ra, rb = A(1, 2), B(1)

    def walk(rng, want, name, s, seed=None):
        got = [int(rng.next()), int(rng.previous()), int(rng.next()), int(rng.next()), int(rng.previous()), int(rng.previous()), int(rng.previous()),
               int(rng.next()), int(rng.next())]
        ref = [want.at(0), want.at(0), want.at(0), want.at(1), want.at(1), want.at(0), want.at(-1), want.at(-1), want.at(0)]
        R.count("states")
        R.count("transitions", 9)
        R.count("traces_validated_against_impl")
        if got != ref:
            R.fail(f"step:{name}", f"{name} in state {s} (seed {seed}): history npnnpppnn gives {got}, reference {ref}", {"class": name, "state": s},
                   snip(name, s, "npnnpppnn", seed))
    for i, v in enumerate(sets.weight(128, 2)):
        for f in (0, (1 << 128) - 1):
            s = ((v ^ f) & F, (v ^ f) >> 64)
            R.progress(f"state {s}")
            if i % 4:
                ra.re_init(U(s[0]), U(s[1]))
            else:
                ra = A(*(x if x < 1 << 63 else U(x) for x in s))
            walk(ra, refs.xoro_two_way(*s, 0), "Xoroshiro128PlusRejection", s)
            if inject:
                rb.state[0], rb.state[1] = U(s[0]), U(s[1])
                walk(rb, refs.xoro_two_way(*s, 32), "SplitMixXoroshiro128Plus", s)
            if R.full():
                return
    for i, v in enumerate(sets.weight(64, 2)):
        for seed in (v, v ^ F):
            R.progress(f"seed {seed}")
            if i % 2:
                rb.re_init(U(seed))
            else:
                rb = B(seed if seed < 1 << 63 else U(seed))
            s = refs.splitmix(seed)
            walk(rb, refs.xoro_two_way(*s, 32), "SplitMixXoroshiro128Plus", s, seed)
            ra = A(seed if seed < 1 << 63 else U(seed))
            walk(ra, refs.xoro_two_way(seed, DEFAULT, 0), "Xoroshiro128PlusRejection", (seed, DEFAULT))
            ra.re_init(U(seed) if i % 3 or seed >= 1 << 63 else seed)
            walk(ra, refs.xoro_two_way(seed, DEFAULT, 0), "Xoroshiro128PlusRejection", (seed, DEFAULT))
            if R.full():
                return
