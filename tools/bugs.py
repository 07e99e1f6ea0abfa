"""Planted bugs: each an edit of the package, a demonstration and what it needs to show."""
P = "numba_pokemon_prngs/"
BUGS = []
DROP = {"c04-shuffle-last-word", "c05-certification-late-seed", "c05-certification-fold", "c05-scalar-second-lag",
        "c06-zero-state-check", "c07-range-signed-width", "c07-float-mask", "c08-reject-equal", "c11-word-20-precomputed",
        "c12-nazo-mutated",  # the repository's own tests see these
        "c10-pointer-16-bit", "c19-heart-gold-given"}  # on lines of the repairs


def bug(id_, property_, edits, needs, breaks, demo, modes=("TRUE", "FALSE")):
    if id_ in DROP:
        return
    BUGS.append({"id": id_, "property": property_, "edits": edits, "needs": needs,
                 "breaks": breaks, "demo": demo, "modes": modes})


# ---------------------------------------------------------------- linear congruential generators
bug("c01-u32-through-float", "C01",
    [(P + "lcrng/lcrng64.py",
      "return np.uint32(np.uint64(self.next()) >> np.uint64(32))",
      "return np.uint32(np.float64(self.next()) / np.float64(4294967296.0))")],
    "a state whose low word is within 2^10 of rolling over, so that rounding the state to a double carries into the top half",
    "the 32-bit draw of a 64-bit generator is one more than the top half of its state for about one state in four million",
    '''
from numba_pokemon_prngs.lcrng import BWRNG, BWRNGR
INV = pow(0x5D588B656C078965, -1, 1 << 64)
for top in (0x89ABCDEF, 0xFFFFFFFE, 0x80000001):
    for low in (0xFFFFFFFF, 0xFFFFFF80, 0xFFFFFC01):
        want = top << 32 | low
        rng = BWRNGR(want)
        before = int(rng.next())
        rng = BWRNG(0)
        import numpy as np
        rng.re_init(np.uint64(before))
        got = int(rng.next_u32())
        assert got == top, (hex(before), hex(got), hex(top))
''')

bug("c02-table-one-short", "C02",
    [(P + "lcrng/lcrng32.py", "    for i in range(31):\n", "    for i in range(30):\n"),
     (P + "lcrng/lcrng32.py", "                    add, mult = jump_table[i]\n",
      "                    add, mult = jump_table[min(i, 30)]\n"),
     (P + "lcrng/lcrng32.py", "                add_val, mult_val = jump_table[i]\n",
      "                add_val, mult_val = jump_table[min(i, 30)]\n")],
    "a jump distance of at least 2^31",
    "jumps of 2^31 and more use the 2^30 entry again",
    '''
from numba_pokemon_prngs.lcrng import PokeRNGMod, XDRNG
def power(seed, mult, add, n):
    m, a = 1, 0
    while n:
        if n & 1:
            m, a = m * mult, a * mult + add
        add, mult = add * (mult + 1), mult * mult
        n >>= 1
        m, a, add, mult = (v % (1 << 32) for v in (m, a, add, mult))
    return (seed * m + a) % (1 << 32)
import numpy as np
for n in (0x80000000, 0xFFFFFFFF, 0x80000001, 0x7FFFFFFF):
    rng = PokeRNGMod(0x12345678)
    assert int(rng.jump(np.uint32(n))) == power(0x12345678, 0x41C64E6D, 0x6073, n), n
    rng = PokeRNGMod(0x12345678)
    assert int(PokeRNGMod.const_jump(n)(rng)) == power(0x12345678, 0x41C64E6D, 0x6073, n), n
''')

bug("c02-const-jump-memo-shared", "C02",
    [(P + "lcrng/lcrng32.py", "def lcrng32_init(\n", "_CONST_JUMPS = {}\n\n\ndef lcrng32_init(\n"),
     (P + "lcrng/lcrng32.py",
      "            i = 0\n            mult = np.uint32(1)\n",
      "            key = (adv, reverse, tuple(kwargs.items()))\n            if key in _CONST_JUMPS:\n"
      "                return _CONST_JUMPS[key]\n"
      "            i = 0\n            mult = np.uint32(1)\n"),
     (P + "lcrng/lcrng32.py", "            return jump_func\n",
      "            _CONST_JUMPS[key] = jump_func\n            return jump_func\n")],
    "two generator classes preparing a jump for the same distance in one process",
    "the second class gets the jump function prepared with the first class's constants",
    '''
from numba_pokemon_prngs.lcrng import PokeRNGMod, XDRNG, ARNG
for cls in (PokeRNGMod, XDRNG, ARNG):
    for n in (0, 1, 5, 1000):
        a, b = cls(0xDEADBEEF), cls(0xDEADBEEF)
        want = 0xDEADBEEF
        for _ in range(n):
            want = int(b.next())
        assert int(cls.const_jump(n)(a)) == want, (cls, n)
''')

bug("c03-rand-through-float", "C03",
    [(P + "lcrng/lcrng64.py",
      '''                return np.uint32(
                    (np.uint64(self.next_u32()) * np.uint64(maximum)) >> np.uint64(32)
                )
''',
      '''                return np.uint32(
                    np.float64(self.next_u32()) * np.float64(maximum) / 4294967296.0
                )
''')],
    "a large maximum together with a raw draw whose product is just below a multiple of 2^32",
    "the bounded draw rounds up, and can equal the maximum",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import BWRNG, BWRNGR
for maximum in (0xF2345679, 0xFFFFFFF1, 0x9ABCDEF1, 100, 2999):
    raw = -pow(maximum | 1, -1, 1 << 32) % (1 << 32)
    rng = BWRNGR(0)
    rng.re_init(np.uint64(raw << 32 | 5))
    before = np.uint64(int(rng.next()))
    rng = BWRNG(0)
    rng.re_init(before)
    got = int(rng.next_rand(np.uint32(maximum)))
    assert got == raw * maximum >> 32, (hex(raw), hex(maximum), got)
    # the unbounded case of ordinary use
for seed in range(200):
    a, b = BWRNG(seed), BWRNG(seed)
    assert int(a.next_rand(100)) == int(b.next_u32()) * 100 >> 32
''')

bug("c03-const-rand-div-hoisted", "C03",
    [(P + "lcrng/lcrng32.py",
      '''                @optional_njit(**kwargs)
                def rand_func(self: LCRNG32) -> np.uint16:
                    return np.uint16(
                        np.uint32(self.next_u16())
                        // ((np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1))
                    )
''',
      '''                divisor = np.uint16(0x10000 // int(maximum))

                @optional_njit(**kwargs)
                def rand_func(self: LCRNG32) -> np.uint16:
                    return np.uint16(np.uint32(self.next_u16()) // np.uint32(divisor))
''')],
    "a prepared bounded draw with a maximum that does not divide 65536",
    "the prepared draw rounds its divisor down, so it disagrees with the general draw and can reach the maximum",
    '''
from numba_pokemon_prngs.lcrng import PokeRNGDiv
for maximum in (2, 3, 25, 100, 256, 2880):
    func = PokeRNGDiv.const_rand(maximum)
    for seed in range(0, 1 << 32, 15485863):
        a, b = PokeRNGDiv(seed), PokeRNGDiv(seed)
        raw = int(PokeRNGDiv(seed).next_u16())
        got = int(func(a))
        assert got == raw // (65535 // maximum + 1) == int(b.next_rand(maximum)) < maximum, (maximum, seed, got)
''')

# ---------------------------------------------------------------- Mersenne twisters
MT_REF = '''
def mt_stream(seed, count):
    s = [seed]
    for i in range(1, 624):
        s.append((0x6C078965 * (s[-1] ^ s[-1] >> 30) + i) & 0xFFFFFFFF)
    out = []
    while len(out) < count:
        for i in range(624):
            y = s[i] & 0x80000000 | s[(i + 1) % 624] & 0x7FFFFFFF
            s[i] = s[(i + 397) % 624] ^ y >> 1 ^ (0x9908B0DF if y & 1 else 0)
        for y in s:
            y ^= y >> 11
            y ^= y << 7 & 0x9D2C5680
            y ^= y << 15 & 0xEFC60000
            out.append(y ^ y >> 18)
    return out[:count]
'''
bug("c04-seed-zero-default", "C04",
    [(P + "mersenne_twister/mt.py",
      "        self.index = np.uint16(624)  # ensures shuffle after initialization\n        self.state[0] = seed\n",
      "        self.index = np.uint16(624)  # ensures shuffle after initialization\n"
      "        if seed == np.uint32(0):\n            # the reference implementation's default seed\n"
      "            seed = np.uint32(5489)\n        self.state[0] = seed\n")],
    "the seed 0",
    "seed 0 is replaced by the reference implementation's default seed",
    MT_REF + '''
from numba_pokemon_prngs.mersenne_twister import MersenneTwister
for seed in (0, 1, 5489, 0xFFFFFFFF):
    rng = MersenneTwister(seed)
    assert [int(rng.next()) for _ in range(700)] == mt_stream(seed, 700), seed
''')

bug("c04-shuffle-last-word", "C04",
    [(P + "mersenne_twister/mt.py",
      "        y_val = (state[623] & upper_mask) | (state[0] & lower_mask)\n",
      "        y_val = (state[623] & upper_mask) | (first & lower_mask)\n"),
     (P + "mersenne_twister/mt.py",
      "        one = np.uint32(1)\n\n        for i in range(227):\n",
      "        one = np.uint32(1)\n        first = state[0]\n\n        for i in range(227):\n"),
     ],
    "reading the last output of a block (the tests compare a state after one shuffle of one seed)",
    "the last word of each refill mixes in the old first word instead of the new one",
    MT_REF + '''
from numba_pokemon_prngs.mersenne_twister import MersenneTwister
rng = MersenneTwister(77)
assert [int(rng.next()) for _ in range(1300)] == mt_stream(77, 1300)
''')

bug("c04-rand-low-bits", "C04",
    [(P + "mersenne_twister/mt.py",
      "        return np.uint32((np.uint64(self.next()) * np.uint64(maximum)) >> np.uint64(32))\n",
      "        rand = self.next()\n"
      "        high = (rand >> np.uint32(16)) * np.uint64(maximum)\n"
      "        low = (rand & np.uint32(0xFFFF)) * np.uint64(maximum)\n"
      "        return np.uint32((np.uint64(high) + (np.uint64(low) >> np.uint64(17))) >> np.uint64(16))\n")],
    "a bounded draw close to the upper end of an interval",
    "half of the low product is lost, so some draws map one too low",
    MT_REF + '''
from numba_pokemon_prngs.mersenne_twister import MersenneTwister
for maximum in (3, 100, 65537, 0xFFFFFFFF):
    rng = MersenneTwister(3)
    for raw in mt_stream(3, 2000):
        assert int(rng.next_rand(maximum)) == raw * maximum >> 32, (raw, maximum)
''')

SFMT_REF = '''
def sfmt_stream(seed, count):
    s = [seed]
    for i in range(1, 624):
        s.append((0x6C078965 * (s[-1] ^ s[-1] >> 30) + i) & 0xFFFFFFFF)
    inner = s[0] & 1 ^ s[3] & 0x13C9E684
    if bin(inner).count("1") % 2 == 0:
        s[0] ^= 1
    vec = [s[i] | s[i + 1] << 32 | s[i + 2] << 64 | s[i + 3] << 96 for i in range(0, 624, 4)]
    mask = 0xDFFFFFEF | 0xDDFECB7F << 32 | 0xBFFAFFFF << 64 | 0xBFFFFFF6 << 96
    full = (1 << 128) - 1
    lane = lambda v, f: sum((f(v >> 32 * k & 0xFFFFFFFF) & 0xFFFFFFFF) << 32 * k for k in range(4))
    out = []
    while len(out) < count:
        for i in range(156):
            a, b, c, d = vec[i], vec[(i + 122) % 156], vec[i - 2], vec[i - 1]
            vec[i] = (a ^ a << 8 & full ^ lane(b, lambda w: w >> 11) & mask ^ c >> 8 ^ lane(d, lambda w: w << 18))
        for v in vec:
            out += [v & (1 << 64) - 1, v >> 64]
    return out[:count]
'''
bug("c05-certification-late-seed", "C05",
    [(P + "mersenne_twister/sfmt.py",
      "        inner = np.uint32(seed & np.uint32(1))\n\n", "\n"),
     (P + "mersenne_twister/sfmt.py",
      "        inner ^= self.state[3] & np.uint32(0x13C9E684)\n",
      "        inner = (seed & np.uint32(1)) ^ (self.state[3] & np.uint32(0x13C9E684))\n")],
    "a seed whose last initial word has the other parity (not so for the four seeds the tests use)",
    "the period certification takes its first bit from the wrong word",
    SFMT_REF + '''
from numba_pokemon_prngs.mersenne_twister import SIMDFastMersenneTwister
for seed in (*range(12), 0x12345678, 0xFFFFFFFF):
    rng = SIMDFastMersenneTwister(seed)
    assert [int(rng.next()) for _ in range(10)] == sfmt_stream(seed, 10), seed
''')

bug("c05-certification-fold", "C05",
    [(P + "mersenne_twister/sfmt.py",
      "        inner ^= self.state[3] & np.uint32(0x13C9E684)\n",
      "        inner ^= self.state[3] & np.uint32(0x03C9E684)\n")],
    "a seed whose fourth initial word has bit 28 set",
    "one bit of the parity vector is dropped, so half of all seeds are certified wrongly",
    SFMT_REF + '''
from numba_pokemon_prngs.mersenne_twister import SIMDFastMersenneTwister
for seed in range(40):
    rng = SIMDFastMersenneTwister(seed)
    assert [int(rng.next()) for _ in range(3)] == sfmt_stream(seed, 3), seed
''')

bug("c05-scalar-second-lag", "C05",
    [(P + "mersenne_twister/sfmt.py",
      "    d_0 = state[0] << 18\n    d_1 = state[1] << 18\n    d_2 = state[2] << 18\n    d_3 = state[3] << 18\n",
      "    d_0 = state[0] << 18\n    d_1 = state[1] << 18\n    d_2 = state[2] << 18\n    d_3 = (state[3] & 0x7FFFFFFF) << 18\n"),
     (P + "mersenne_twister/sfmt.py",
      "    b_3 = (state[495] >> 11) & 0xBFFFFFF6\n", "    b_3 = (state[495] >> 11) & 0xBFFFFFF7\n")],
    "uncompiled mode and a state whose word 495 has bit 11 set when the block is refilled",
    "the scalar refill keeps a mask bit the vector one clears, so the modes' streams part",
    SFMT_REF + '''
from numba_pokemon_prngs.mersenne_twister import SIMDFastMersenneTwister
for seed in range(8):
    rng = SIMDFastMersenneTwister(seed)
    assert [int(rng.next()) for _ in range(700)] == sfmt_stream(seed, 700), seed
''')

bug("c05-boundary-advance", "C05",
    [(P + "mersenne_twister/sfmt.py",
      "        self.index = np.uint16(adv)\n",
      "        self.index = np.uint16(adv if adv else 624)\n")],
    "an advance that ends exactly on a block boundary",
    "an advance that ends at the beginning of a block skips that block",
    SFMT_REF + '''
from numba_pokemon_prngs.mersenne_twister import SIMDFastMersenneTwister
want = sfmt_stream(9, 2000)
for first in (0, 1, 311, 312):
    for n in (1, 311, 312, 313, 624, 625):
        rng = SIMDFastMersenneTwister(9)
        for _ in range(first):
            rng.next()
        rng.advance(n)
        assert int(rng.next()) == want[first + n], (first, n)
''')

TINY_REF = '''
class Tiny:
    def __init__(self, seed):
        s = self.s = [seed, 0x8F7011EE, 0xFC78FF1F, 0x3793FDFF]
        for i in range(1, 8):
            p = s[i - 1 & 3]
            s[i & 3] ^= (0x6C078965 * (p ^ p >> 30) + i) & 0xFFFFFFFF
        for _ in range(8):
            self.step()
    def step(self):
        s = self.s
        y, x = s[3], s[0] & 0x7FFFFFFF ^ s[1] ^ s[2]
        x ^= x << 1 & 0xFFFFFFFF
        y ^= y >> 1 ^ x
        s[0], s[1], s[2], s[3] = s[1], s[2], (x ^ y << 10) & 0xFFFFFFFF, y
        if y & 1:
            s[1] ^= 0x8F7011EE
            s[2] ^= 0xFC78FF1F
    def next(self):
        self.step()
        a, b = self.s[3], (self.s[0] + (self.s[2] >> 8)) & 0xFFFFFFFF
        return a ^ b ^ (0x3793FDFF if b & 1 else 0)
'''
bug("c06-advance-16-bit", "C06",
    [(P + "mersenne_twister/tinymt.py",
      "        for _ in range(adv):\n            self.shuffle()\n",
      "        for _ in range(np.uint16(adv)):\n            self.shuffle()\n")],
    "an advance of more than 65535",
    "long advances are cut to 16 bits",
    TINY_REF + '''
import numpy as np
from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister
for n in (0, 3, 65535, 65536, 70000):
    rng, ref = TinyMersenneTwister(5), Tiny(5)
    rng.advance(np.uint32(n))
    for _ in range(n):
        ref.step()
    assert int(rng.next()) == ref.next(), n
''')

bug("c06-zero-state-check", "C06",
    [(P + "mersenne_twister/tinymt.py",
      "        return self.next() % np.uint32(maximum)\n",
      "        maximum = np.uint32(maximum)\n"
      "        if maximum & (maximum - np.uint32(1)) == np.uint32(0):\n"
      "            return self.next() >> np.uint32(1) & (maximum - np.uint32(1))\n"
      "        return self.next() % maximum\n")],
    "a modulo draw with a power-of-two maximum",
    "power-of-two maxima take the wrong bits of the output",
    TINY_REF + '''
from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister
for maximum in (1, 3, 7, 8, 100, 65536, 0x80000000):
    rng, ref = TinyMersenneTwister(5), Tiny(5)
    for _ in range(50):
        assert int(rng.next_rand_mod(maximum)) == ref.next() % maximum, maximum
''')

bug("c05-rand-32-bit-maximum", "C05",
    [(P + "mersenne_twister/sfmt.py",
      "        return self.next() % np.uint64(maximum)\n",
      "        return self.next() % np.uint64(np.uint32(maximum))\n")],
    "a bounded draw whose maximum is above 2^32",
    "64-bit maxima lose their top half",
    SFMT_REF + '''
import numpy as np
from numba_pokemon_prngs.mersenne_twister import SIMDFastMersenneTwister
want = sfmt_stream(4, 60)
rng = SIMDFastMersenneTwister(4)
for i, raw in enumerate(want):
    m = (100, 0xFFFFFFFF, 0x100000001, 1 << 40 | 7)[i % 4]
    assert int(rng.next_rand(np.uint64(m))) == raw % m, m
''')

# ---------------------------------------------------------------- xorshift family
bug("c07-range-signed-width", "C07",
    [(P + "xorshift/xorshift128.py",
      "        diff = np.uint32(maximum - minimum)\n\n        return np.uint32((self.next() % diff) + minimum)\n",
      "        diff = np.uint32(abs(np.int32(maximum - minimum)))\n\n        return np.uint32((self.next() % diff) + minimum)\n")],
    "a range of at least 2^31 values (not the one the alternate draw uses... which the tests cover with few outputs)",
    "wide ranges are folded to the absolute value of the wrapped difference",
    '''
import numpy as np
from numba_pokemon_prngs.xorshift import Xorshift128
for lo, hi in ((0, 100), (-5, 5), (-0x7FFFFFFF, 0x7FFFFFFF), (-0x40000000, 0x50000000), (-0x80000000, 0x7FFFFFF0)):
    a, b = Xorshift128(1, 2, 3, 4), Xorshift128(1, 2, 3, 4)
    for _ in range(100):
        assert int(a.next_randrange(np.int32(lo), np.int32(hi))) == (int(b.next()) % (hi - lo) + lo) % (1 << 32), (lo, hi)
''')

bug("c07-float-mask", "C07",
    [(P + "xorshift/xorshift128.py",
      "        rand_float = np.float32(self.next() & np.uint32(0x7FFFFF)) / np.float32(\n            0x7FFFFF\n        )\n",
      "        rand_float = np.float32(self.next() & np.uint32(0x7FFFFF)) / np.float32(\n            0x800000\n        )\n")],
    "a float draw whose result is rounded differently (about one in three with a unit range)",
    "the fraction is taken over 2^23 instead of 2^23-1, so results are a little off and the minimum is never reached",
    '''
import numpy as np
from numba_pokemon_prngs.xorshift import Xorshift128
f = np.float32
for lo, hi in ((0.0, 1.0), (-1.5, 3.25), (0.0, 100.0)):
    a, b = Xorshift128(1, 2, 3, 4), Xorshift128(1, 2, 3, 4)
    for _ in range(300):
        r = f(int(b.next()) & 0x7FFFFF) / f(0x7FFFFF)
        got, want = a.next_float_randrange(f(lo), f(hi)), r * f(lo) + (1 - r) * f(hi)
        assert abs(float(got) - float(want)) <= abs(hi - lo) * 2**-23.6, (got, want)
''')

bug("c07-advance-jump-ahead", "C07",
    [(P + "xorshift/xorshift128.py",
      "        for _ in range(adv):\n            self.next()\n",
      "        # whole rounds of four steps first\n        for _ in range(np.uint16(adv >> 2)):\n            self.next()\n            self.next()\n            self.next()\n            self.next()\n        for _ in range(adv & 3):\n            self.next()\n")],
    "an advance of 262144 or more",
    "the number of four-step rounds is cut to 16 bits",
    '''
from numba_pokemon_prngs.xorshift import Xorshift128
for n in (0, 7, 262143, 262144, 262149):
    a, b = Xorshift128(1, 2, 3, 4), Xorshift128(1, 2, 3, 4)
    a.advance(n)
    for _ in range(n):
        b.next()
    assert int(a.next()) == int(b.next()), n
''')

bug("c08-mask-16-bit", "C08",
    [(P + "xorshift/xoroshiro128plus.py", "        val |= val >> np.uint32(16)\n        return val\n", "        return val\n")],
    "a rejection draw with a maximum above 65536 that is not just below a power of two",
    "the mask of large maxima has holes, so values are skipped",
    '''
import numpy as np
from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection
for m in (1, 2, 100, 65536, 65537, 0x20001, 0x1000000, 0x80000001, 0xFFFFFFFF):
    a, b = Xoroshiro128PlusRejection(7, 9), Xoroshiro128PlusRejection(7, 9)
    mask = (1 << (m - 1).bit_length()) - 1
    for _ in range(200):
        want = int(b.next()) & mask
        while want >= m:
            want = int(b.next()) & mask
        assert int(a.next_rand(np.uint32(m))) == want, m
''')

bug("c08-reject-equal", "C08",
    [(P + "xorshift/xoroshiro128plus.py", "        while result >= maximum:\n", "        while result > maximum:\n")],
    "a masked output that equals the maximum exactly (impossible for powers of two)",
    "a rejection draw can return its own maximum",
    '''
import numpy as np
from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection
for m in (3, 100, 1000, 1 << 16):
    a = Xoroshiro128PlusRejection(7, 9)
    assert all(int(a.next_rand(np.uint32(m))) < m for _ in range(4000)), m
''')

bug("c08-previous-order", "C08",
    [(P + "xorshift/xoroshiro128plus.py",
      "        seed_1 ^= seed_0\n\n        self.state[0] = seed_0\n        self.state[1] = seed_1\n\n        return np.uint32(np.uint64(seed_0 + seed_1) >> np.uint64(32))\n",
      "        seed_1 ^= seed_0\n\n        self.state[0] = seed_0\n        self.state[1] = seed_1\n\n"
      "        return np.uint32(\n            np.uint32(seed_0 >> np.uint64(32)) + np.uint32(seed_1 >> np.uint64(32))\n"
      "            + np.uint32((seed_0 & np.uint64(0xFFFFFFFE)) + (seed_1 & np.uint64(0xFFFFFFFF)) > np.uint64(0xFFFFFFFF))\n        )\n")],
    "a backward step whose low halves sum to exactly 2^32 with an odd first half",
    "the carry between the halves is computed without the lowest bit",
    '''
import numpy as np
from numba_pokemon_prngs.xorshift import SplitMixXoroshiro128Plus
M = (1 << 64) - 1
rotl = lambda v, k: (v << k | v >> 64 - k) & M
for s0, s1 in ((1, 0xFFFFFFFF), (0x500000003, 0x7FFFFFFFD), (0x123456789ABCDEF1, 0x654321), (0xFFFFFFFFFFFFFFFF, 1)):
    x = s0 ^ s1
    rng = SplitMixXoroshiro128Plus(0)
    rng.state[0] = np.uint64(rotl(s0, 24) ^ x ^ (x << 16 & M))
    rng.state[1] = np.uint64(rotl(x, 37))
    assert int(rng.previous()) == (s0 + s1 & M) >> 32, (hex(s0), hex(s1))
    assert (int(rng.state[0]), int(rng.state[1])) == (s0, s1)
''')

# ---------------------------------------------------------------- histories
bug("c09-mt-re-init-keeps-index", "C09",
    [(P + "mersenne_twister/mt.py",
      "        seed = np.uint32(seed)\n        self.index = np.uint16(624)  # ensures shuffle after initialization\n        self.state[0] = seed\n",
      "        seed = np.uint32(seed)\n        self.state[0] = seed\n")],
    "re-initialising a generator that has already produced outputs",
    "a re-initialised generator reads the raw initial state at its old position",
    '''
from numba_pokemon_prngs.mersenne_twister import MersenneTwister
a, b = MersenneTwister(1), MersenneTwister(2)
for _ in range(5):
    a.next()
a.re_init(2)
assert [int(a.next()) for _ in range(700)] == [int(b.next()) for _ in range(700)]
''')

bug("c09-xoroshiro-seed1-sticky", "C09",
    [(P + "xorshift/xoroshiro128plus.py",
      "        self.state[0] = np.uint64(seed_0)\n        self.state[1] = np.uint64(seed_1)\n",
      "        self.state[0] = np.uint64(seed_0)\n        if np.uint64(seed_1) != np.uint64(0):\n            self.state[1] = np.uint64(seed_1)\n"),
     (P + "xorshift/xoroshiro128plus.py",
      "        self.state = np.empty(2, np.uint64)\n        self.re_init(np.uint64(seed_0), np.uint64(seed_1))\n",
      "        self.state = np.zeros(2, np.uint64)\n        self.re_init(np.uint64(seed_0), np.uint64(seed_1))\n")],
    "re-initialising with a second seed of zero after the generator has been used",
    "a zero second seed leaves the old second word in place",
    '''
import numpy as np
from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection
z = np.uint64(0)
a = Xoroshiro128PlusRejection(np.uint64(5), np.uint64(6))
a.next()
a.re_init(np.uint64(5), z)
b = Xoroshiro128PlusRejection(np.uint64(5), z)
assert [int(a.next()) for _ in range(4)] == [int(b.next()) for _ in range(4)]
''')

bug("c10-re-init-keeps-head", "C10",
    [(P + "rng_list.py",
      '            """Reinitialize without creating a new object"""\n            self.head = 0\n            self.pointer = 0\n            for i in range(size):\n                self.list[i] = next_function(self.rng)\n',
      '            """Reinitialize without creating a new object"""\n            self.pointer = self.head\n            for i in range(size):\n                self.list[i] = next_function(self.rng)\n')],
    "re-initialising a list whose window has moved by a number of outputs that is no multiple of its size",
    "after such a re-initialisation the window is read from the middle",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod
from numba_pokemon_prngs.rng_list import build_rnglist
L = build_rnglist(rng_class=PokeRNGMod, next_function_name="next_u16", state_type=np.uint16, size=8)
for moved in (0, 3, 8, 11):
    rng, ref = PokeRNGMod(9), PokeRNGMod(9)
    lst = L(rng)
    lst.advance_states(moved)
    lst.re_init()
    ref.advance(8 + moved)
    assert [int(lst.get_value()) for _ in range(8)] == [int(ref.next_u16()) for _ in range(8)], moved
''')

bug("c10-slide-keeps-pointer", "C10",
    [(P + "rng_list.py",
      "            self.head = (self.head + 1) & (size - 1)\n\n            self.pointer = self.head\n",
      "            self.head = (self.head + 1) & (size - 1)\n\n            if self.pointer != self.head:\n                self.pointer = self.head if self.pointer < self.head else self.pointer\n")],
    "sliding the window while the read position is ahead of its start",
    "the read position is not rewound to the start of the window when it is ahead of it",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod
from numba_pokemon_prngs.rng_list import build_rnglist
L = build_rnglist(rng_class=PokeRNGMod, next_function_name="next_u16", state_type=np.uint16, size=8)
for read in range(8):
    rng, ref = PokeRNGMod(9), PokeRNGMod(9)
    lst = L(rng)
    for _ in range(read):
        lst.get_value()
    lst.advance_state()
    ref.next()
    assert [int(lst.get_value()) for _ in range(8)] == [int(ref.next_u16()) for _ in range(8)], read
''')

bug("c10-long-slide-one-short", "C10",
    [(P + "rng_list.py",
      "            for _ in range(adv):\n                self.advance_state()\n",
      "            if adv > np.uint32(4 * size):\n                # the window is replaced completely\n                for _ in range(adv - np.uint32(size)):\n                    next_function(self.rng)\n"
      "                for i in range(size):\n                    self.list[i] = next_function(self.rng)\n                self.pointer = self.head\n"
      "            else:\n                for _ in range(adv):\n                    self.advance_state()\n")],
    "a slide by more than four window sizes of a window whose start has moved",
    "the refilled window starts at entry 0 while it is read from the old start",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod
from numba_pokemon_prngs.rng_list import build_rnglist
L = build_rnglist(rng_class=PokeRNGMod, next_function_name="next_u16", state_type=np.uint16, size=4)
for first in (0, 1, 3):
    for adv in (5, 16, 17, 50):
        rng, ref = PokeRNGMod(9), PokeRNGMod(9)
        lst = L(rng)
        lst.advance_states(first)
        lst.advance_states(adv)
        ref.advance(first + adv)
        assert [int(lst.get_value()) for _ in range(4)] == [int(ref.next_u16()) for _ in range(4)], (first, adv)
''')

# ---------------------------------------------------------------- SHA-1
SHA_REF = '''
import hashlib
import numpy as np
from numba_pokemon_prngs.sha1 import SHA1
from numba_pokemon_prngs.enums import Game, Language, DSType
def bcd(v):
    return v // 10 << 4 | v % 10
def swap(v):
    return int.from_bytes(v.to_bytes(4, "little"), "big")
def want(nazo, mac, soft, frame, gx, date, timer, vcount, time, button, ds3):
    hour, minute, second = time
    y, m, d, w = date
    words = nazo + [swap(vcount << 16 | timer), mac & 0xFFFF ^ (0x1000000 if soft else 0), mac >> 16 ^ frame << 24 ^ gx,
                    bcd(y - 2000) << 24 | bcd(m) << 16 | bcd(d) << 8 | w,
                    bcd(hour) + (0x40 if hour >= 12 and not ds3 else 0) << 24 | bcd(minute) << 16 | bcd(second) << 8, 0, 0, button]
    data = b"".join(v.to_bytes(4, "big") for v in words)
    # the game hashes 13 words; the padding follows
    h = hashlib.sha1(data).digest()
    low, high = int.from_bytes(h[:4], "little"), int.from_bytes(h[4:8], "little")
    return ((high << 32 | low) * 0x5D588B656C078965 + 0x269EC3) % (1 << 64)
NAZO = [swap(0x022160B0)] + [swap(0x022160B0 + 0xFC)] * 2 + [swap(0x022160B0 + 0xFC + 0x4C)] * 2
def make():
    s = SHA1(Game.BLACK, Language.ENGLISH, DSType.DS, np.uint64(0x9BF123456), False, np.uint8(8), np.uint8(6))
    return s
'''
bug("c11-noon-is-morning", "C11",
    [(P + "sha1.py", "                if np.uint8(hour) >= np.uint8(12) and self.ds_type != DSType.DS3\n",
      "                if np.uint8(hour) > np.uint8(12) and self.ds_type != DSType.DS3\n")],
    "a start time between 12:00 and 12:59",
    "the afternoon flag is missing in the noon hour",
    SHA_REF + '''
for hour in (0, 11, 12, 13, 23):
    s = make()
    s.set_date(2011, 3, 4, 5)
    s.set_timer0(0xC79, 0x60)
    s.set_time(hour, 59, 1)
    s.set_button(np.uint32(0xFF2F0000))
    got = int(s.hash_seed(s.precompute()))
    assert got == want(list(NAZO), 0x9BF123456, False, 8, 6, (2011, 3, 4, 5), 0xC79, 0x60, (hour, 59, 1), 0xFF2F0000, False), hour
''')

bug("c11-word-20-precomputed", "C11",
    [(P + "sha1.py", "        self.calc_w(17)\n        self.calc_w(20)\n", "        self.calc_w(17)\n"),
     (P + "sha1.py", "        self.calc_w(19)\n        self.calc_w(21)\n", "        self.calc_w(19)\n        self.calc_w(20)\n        self.calc_w(21)\n")],
    "changing the button after the precomputation (or computing word 20 before word 17)",
    "a schedule word that depends on the button is computed once, in the precomputation",
    SHA_REF + '''
s = make()
s.set_date(2011, 3, 4, 5)
s.set_timer0(0xC79, 0x60)
s.set_time(1, 2, 3)
s.set_button(np.uint32(0xFF2F0000))
alpha = s.precompute()
for button in (0xFF2F0000, 0xFE2F0000, 0xEF2F0000):
    for time in ((1, 2, 3), (10, 20, 30)):
        s.set_time(*time)
        s.set_button(np.uint32(button))
        got = int(s.hash_seed(alpha))
        assert got == want(list(NAZO), 0x9BF123456, False, 8, 6, (2011, 3, 4, 5), 0xC79, 0x60, time, button, False), (hex(button), time)
''')

bug("c11-mac-high-bits", "C11",
    [(P + "sha1.py", "            np.uint32(mac >> np.uint64(16))\n", "            (np.uint32(mac >> np.uint64(16)) & np.uint32(0xFFFFFF))\n")],
    "a MAC address with its top byte set (all consoles of one maker share a zero top byte)",
    "the top byte of the MAC address is dropped",
    SHA_REF + '''
for mac in (0x9BF123456, 0x9BF11123456, 0x7FBF11123456, 0xE0E751123456):
    s = SHA1(Game.BLACK, Language.ENGLISH, DSType.DS, np.uint64(mac), False, np.uint8(8), np.uint8(6))
    s.set_date(2011, 3, 4, 5)
    s.set_timer0(0xC79, 0x60)
    s.set_time(1, 2, 3)
    s.set_button(np.uint32(0xFF2F0000))
    got = int(s.hash_seed(s.precompute()))
    assert got == want(list(NAZO), mac, False, 8, 6, (2011, 3, 4, 5), 0xC79, 0x60, (1, 2, 3), 0xFF2F0000, False), hex(mac)
''')

# ---------------------------------------------------------------- independence
bug("c12-mt-shared-default-state", "C12",
    [(P + "mersenne_twister/tinymt.py",
      "# TODO: jump tables\n",
      "# scratch words of the state transition\n_SCRATCH = np.empty(4, dtype=np.uint32)\n\n\n# TODO: jump tables\n"),
     (P + "mersenne_twister/tinymt.py",
      "        seed = np.uint32(seed)\n        self.state = np.empty(4, dtype=np.uint32)\n",
      "        seed = np.uint32(seed)\n        self.state = np.empty(4, dtype=np.uint32) if USE_NUMBA else _SCRATCH[:]\n"),
     (P + "mersenne_twister/tinymt.py",
      "from ..compilation import optional_jitclass, array_type\n",
      "from ..compilation import optional_jitclass, array_type\nfrom ..options import USE_NUMBA\n")],
    "two tiny Mersenne Twisters alive at once, uncompiled",
    "every object works on the same four words",
    '''
from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister
a, ref = TinyMersenneTwister(1), []
ref = [int(a.next()) for _ in range(6)]
a = TinyMersenneTwister(1)
b = TinyMersenneTwister(2)
assert [int(a.next()) for _ in range(6)] == ref
''')

bug("c12-nazo-mutated", "C12",
    [(P + "sha1.py",
      "        data[:5] = get_nazo(version, language, ds_type)\n        data[6] = mac & np.uint32(0xFFFF)\n        if soft_reset:\n            data[6] ^= np.uint32(0x1000000)\n",
      "        nazo = get_nazo(version, language, ds_type)\n        data[:5] = nazo\n        data[6] = mac & np.uint32(0xFFFF)\n        if soft_reset:\n            data[6] ^= np.uint32(0x1000000)\n            nazo[2] ^= np.uint32(1)\n")],
    "a second SHA1 object of the same version and language made after one with the soft reset flag (uncompiled; compiled code treats the tables as constants)",
    "making an object changes the version constants that later objects read",
    SHA_REF + '''
def seed():
    s = make()
    s.set_date(2011, 3, 4, 5)
    s.set_timer0(0xC79, 0x60)
    s.set_time(1, 2, 3)
    s.set_button(np.uint32(0xFF2F0000))
    return int(s.hash_seed(s.precompute()))
first = seed()
SHA1(Game.BLACK, Language.ENGLISH, DSType.DS, np.uint64(5), True, np.uint8(8), np.uint8(6))
assert seed() == first
''', modes=("FALSE",))

# ---------------------------------------------------------------- both modes, helpers, gen 3 utilities
STATE = '''
import numpy as np
from numba_pokemon_prngs.gen3.state import GeneratorState
from numba_pokemon_prngs.data.personal import PERSONAL_INFO_E


def state(species, level, ivs, pid=0):
    return GeneratorState(np.uint32(0), np.uint32(pid), np.uint16(species), np.uint8(0), np.array(ivs, np.uint8), np.uint8(pid & 1),
                          np.uint8(level), np.uint8(0), PERSONAL_INFO_E[species])


'''

bug("c13-stat-doubled-byte", "C13",
    [(P + "gen3/state.py", "((2 * base_stats[i] + self.ivs[i]) * self.level) // 100)",
      "((base_stats[i] + base_stats[i] + self.ivs[i]) * self.level) // 100)")],
    "uncompiled, a species with a base stat of at least 113",
    "the doubled base stat wraps at 256 without numba",
    STATE + '''
def hp(base, iv, level):
    return (2 * base + iv) * level // 100 + level + 10


for species in (113, 143, 150, 202, 242, 321):
    for level in (5, 50, 100):
        for iv in (0, 17, 31):
            want = hp(int(PERSONAL_INFO_E[species].hp), iv, level)
            assert int(state(species, level, [iv] * 6).stats[0]) == want, (species, level, iv)
''')

bug("c14-rotate-sum", "C14",
    [(P + "util.py", "    return np.uint64((val << count) | (val >> (np.uint8(64) - count)))\n",
      "    return np.uint64((val << count) + (val >> (np.uint8(64) - count)))\n")],
    "compiled, a rotation by 0 (the shift by 64 leaves the value in place and it is added twice)",
    "rotating left by nothing doubles the value",
    '''
import numpy as np
from numba_pokemon_prngs.util import rotate_left_u64
for count in range(64):
    for v in (1, 0x123456789ABCDEF0, 0xFFFFFFFFFFFFFFFF):
        want = (v << count | v >> (64 - count)) & 0xFFFFFFFFFFFFFFFF
        assert int(rotate_left_u64(np.uint64(v), np.uint8(count))) == want, (hex(v), count)
''')

bug("c14-hex-sign", "C14",
    [(P + "util.py", "        HEX_LOOKUP[num >> 24]\n", "        HEX_LOOKUP[(num >> 24) & 0x7F]\n")],
    "a number of at least 2^31",
    "the top bit of the number is not shown",
    '''
import numpy as np
from numba_pokemon_prngs.util import hex_32
for v in (0, 1, 0x7FFFFFFF, 0x80000000, 0xDEADBEEF, 0xFFFFFFFF):
    assert str(hex_32(np.uint32(v))) == f"{v:08X}", hex(v)
''')

bug("c14-fnv-stops-at-nul", "C14",
    [(P + "fnv.py", "    hash_ = np.uint64(0xCBF29CE484222645)\n    for char in inp:\n        hash_ ^= np.uint64(ord(char))\n",
      "    hash_ = np.uint64(0xCBF29CE484222645)\n    for char in inp:\n        if ord(char) == 0:\n            break\n        hash_ ^= np.uint64(ord(char))\n")],
    "a string with a NUL character",
    "the hash leaves out everything from the first NUL character on",
    '''
from numba_pokemon_prngs.fnv import fnv1a_64


def want(s):
    h = 0xCBF29CE484222645
    for c in s:
        h = (h ^ ord(c)) * 0x100000001B3 & 0xFFFFFFFFFFFFFFFF
    return h


for s in ("", "a", "a\\0b", "\\0", "poke01\\0\\0"):
    assert int(fnv1a_64(s)) == want(s), repr(s)
''')

bug("c15-always-female", "C15",
    [(P + "gen3/util.py", "    if gender_ratio == 254:\n        return 1\n", "")],
    "a species that is always female and a PID whose low byte is 254 or 255",
    "one such PID in 128 is reported male",
    '''
import numpy as np
from numba_pokemon_prngs.gen3.util import get_gender
for ratio in (0, 31, 127, 225, 254, 255):
    for low in range(256):
        want = {255: 2, 254: 1, 0: 0}.get(ratio, int(low < ratio))
        assert int(get_gender(np.uint32(0x12345600 | low), np.uint8(ratio))) == want, (ratio, low)
''')

bug("c15-star-bound", "C15",
    [(P + "gen3/util.py", "    if (tsv ^ psv) < 8:\n", "    if (tsv ^ psv) <= 8:\n")],
    "a PID whose combined value is exactly 8 (one in 65536)",
    "such a PID is reported shiny",
    '''
import numpy as np
from numba_pokemon_prngs.gen3.util import get_shiny
for tsv in (0, 0x1234, 0xFFFF):
    for x in range(17):
        pid = (tsv ^ x ^ 0x5555) << 16 | 0x5555
        assert int(get_shiny(np.uint32(pid), np.uint16(tsv))) == (2 if x == 0 else 1 if x < 8 else 0), (tsv, x)
''')

bug("c15-unown-question-mark", "C15",
    [(P + "gen3/util.py", "    ) % 0x1C\n    return letter == form\n",
      "    )\n    while letter > 0x1C:\n        letter -= 0x1C\n    return letter == form\n")],
    "a PID whose four bit pairs make exactly a multiple of 28",
    "the letter A is refused for PIDs that select 28, 56, ...",
    '''
import numpy as np
from numba_pokemon_prngs.gen3.util import unown_check
for v in range(256):
    pid = (v >> 6) << 24 | (v >> 4 & 3) << 16 | (v >> 2 & 3) << 8 | v & 3
    for form in range(28):
        assert bool(unown_check(np.uint32(pid | 0xF0F0F0F0 & ~0x03030303), np.uint8(form))) == (v % 28 == form), (v, form)
''')

CHAR = STATE + '''
def characteristic(ivs, pid):
    order = [ivs[0], ivs[1], ivs[2], ivs[5], ivs[3], ivs[4]]
    start = pid % 6
    best = max(order)
    for k in range(6):
        i = (start + k) % 6
        if order[i] == best:
            return i * 5 + best % 5


'''

bug("c16-characteristic-ties", "C16",
    [(P + "gen3/state.py", "            if self.ivs[ORDER[index]] > max_iv:\n", "            if self.ivs[ORDER[index]] >= max_iv:\n")],
    "two individual values share the maximum",
    "the last instead of the first of the tied values decides the characteristic",
    CHAR + '''
for pid in range(6):
    for ivs in ([31, 1, 2, 31, 4, 5], [5, 6, 7, 8, 9, 10], [0] * 6, [9, 9, 1, 1, 1, 9]):
        assert int(state(25, 20, ivs, pid).characteristic) == characteristic(ivs, pid), (pid, ivs)
''')

bug("c16-level-fraction", "C16",
    [(P + "gen3/state.py", "np.uint16(((2 * base_stats[i] + self.ivs[i]) * self.level) // 100)",
      "np.uint16((2 * base_stats[i] + self.ivs[i]) * (self.level / 100))")],
    "a level whose hundredth is not exact and a product that is a multiple of 100 (for instance level 29 and a sum of 100)",
    "such a stat comes out one too low",
    STATE + '''
for level in range(1, 101):
    for iv in range(32):
        want = (2 * int(PERSONAL_INFO_E[25].hp) + iv) * level // 100 + level + 10
        assert int(state(25, level, [iv] * 6).stats[0]) == want, (level, iv)
        want = (2 * int(PERSONAL_INFO_E[143].hp) + iv) * level // 100 + level + 10
        assert int(state(143, level, [iv] * 6).stats[0]) == want, (level, iv)
''')

bug("c16-hidden-power-shift", "C16",
    [(P + "gen3/state.py", "        self.hidden_power = hidden_power_val * 15 // 63\n", "        self.hidden_power = hidden_power_val * 15 >> 6\n")],
    "individual values whose low bits make 21, 42 or 63",
    "the hidden power type is one too low (31s all over give Dragon instead of Dark)",
    STATE + '''
for bits in range(64):
    o = [bits >> i & 1 for i in range(6)]
    ivs = [30 + o[0], 30 + o[1], 30 + o[2], 30 + o[4], 30 + o[5], 30 + o[3]]
    assert int(state(25, 20, ivs).hidden_power) == bits * 15 // 63, bits
''')

# ---------------------------------------------------------------- gen 3 encounters
AREA = '''
import numpy as np
from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_GEN3
from numba_pokemon_prngs.data.personal import get_info_table_3
from numba_pokemon_prngs.enums import Encounter, Game, Lead, Method
from numba_pokemon_prngs.gen3 import encounter_area_3 as E
from numba_pokemon_prngs.lcrng import PokeRNGMod
M, A, F = 0x41C64E6D, 0x6073, 0xFFFFFFFF


class Ref:
    def __init__(self, s):
        self.s = s

    def u16(self):
        self.s = (self.s * M + A) & F
        return self.s >> 16


'''

bug("c17-pressure-lowest", "C17",
    [(P + "gen3/encounter_area_3.py", "        if rand != 0:\n            rand -= 1\n", "        rand -= 1\n")],
    "the pressure lead, a failed coin flip and the lowest level drawn",
    "the level falls below the slot's minimum",
    AREA + '''
area = ENCOUNTER_INFORMATION_GEN3[Game.EMERALD][0]
slot = next(s for a in ENCOUNTER_INFORMATION_GEN3[Game.EMERALD] for s in a.fish_super if s.max_level > s.min_level + 3)
lo, hi = int(slot.min_level), int(slot.max_level)
for seed in range(3000):
    ref = Ref(seed)
    r = ref.u16() % (hi - lo + 1)
    want = hi if ref.u16() % 2 == 0 else lo + max(r - 1, 0)
    got = int(E.calculate_level(slot, PokeRNGMod(np.uint32(seed)), True))
    assert got == want, (seed, got, want)
''')

bug("c17-coin-after-slots", "C17",
    [(P + "gen3/encounter_area_3.py", "        and rand_2(rng) == 0\n        and len(modified_slots) != 0\n",
      "        and len(modified_slots) != 0\n        and rand_2(rng) == 0\n")],
    "a type-attracting lead where no slot has the type",
    "the coin is not flipped, so that every later draw comes one early",
    AREA + '''
game = Game.EMERALD
area = next(a for a in ENCOUNTER_INFORMATION_GEN3[game] if a.land_rate)
table = get_info_table_3(np.uint16(game))
slots = E.get_modified_slots(area, np.uint8(Encounter.GRASS), np.uint8(Lead.MAGNET_PULL), np.uint16(game), table)
assert len(slots) == 0
for seed in range(200):
    rng, ref = PokeRNGMod(np.uint32(seed)), Ref(seed)
    E.calculate_hslot_lead(area, rng, np.uint8(Encounter.GRASS), np.uint8(Lead.MAGNET_PULL), slots)
    ref.u16(), ref.u16()
    assert int(rng.seed) == ref.s, seed
''', modes=("FALSE",))

bug("c17-surf-second-type", "C17",
    [(P + "gen3/encounter_area_3.py",
      "        for slot in encounter_area.water:\n            info: PersonalInfo3 = personal_info_table[slot.species & 0x3FF]\n            if info.type_1 == lead_type or info.type_2 == lead_type:\n",
      "        for slot in encounter_area.water:\n            info: PersonalInfo3 = personal_info_table[slot.species & 0x3FF]\n            if info.type_1 == lead_type:\n")],
    "surfing with a type-attracting lead where a slot has the type as its second one",
    "such a slot is never attracted",
    AREA + '''
for game in (Game.EMERALD,):
    table = get_info_table_3(np.uint16(game))
    seen = 0
    for area in ENCOUNTER_INFORMATION_GEN3[game]:
        for lead, t in ((Lead.MAGNET_PULL, 8), (Lead.STATIC, 13)):
            want = [int(s.species) for s in area.water if t in (int(table["type_1"][s.species & 0x3FF]), int(table["type_2"][s.species & 0x3FF]))]
            got = [int(s.species) for s in E.get_modified_slots(area, np.uint8(Encounter.SURFING), np.uint8(lead), np.uint16(game), table)]
            seen += len(want)
            assert got == want, (area.location, lead, got, want)
    assert seen
''')

bug("c17-safari-location", "C17",
    [(P + "gen3/encounter_area_3.py", "            or location == 91\n            or location == 188\n", "            or location == 91\n")],
    "the one area of the Ruby and Sapphire safari zone",
    "its extra draw is left out",
    AREA + '''
want = {90, 187, 89, 186, 92, 189, 91, 188}
area = ENCOUNTER_INFORMATION_GEN3[Game.RUBY][0].copy() if False else None
a = np.zeros(1, ENCOUNTER_INFORMATION_GEN3[Game.RUBY].dtype).view(np.recarray)[0]
for location in range(400):
    a.location = location
    assert bool(E.is_rse_safari_zone(a, np.uint16(Game.RUBY))) == (location in want), location
''')

WILD = AREA + '''
from numba_pokemon_prngs.gen3.wild_generator_3 import WildGenerator3


def run(seed, count, area, game=Game.EMERALD, lead=Lead.NONE, encounter=Encounter.GRASS, method=Method.METHOD_1, first=0, delay=0):
    g = WildGenerator3(np.uint8(method), np.uint8(encounter), np.uint8(lead), np.uint16(game), np.uint16(1), np.uint16(2))
    return g.generate(np.uint32(seed), np.uint32(delay), np.uint32(first), np.uint32(count), area)


def show(states):
    return [(int(s.advance), int(s.pid), int(s.species), int(s.level), tuple(int(v) for v in s.ivs)) for s in states]


'''

bug("c18-shared-ivs", "C18",
    [(P + "gen3/state.py", "        self.ivs = np.empty(6, np.uint8)\n        self.ivs[:] = ivs\n", "        self.ivs = ivs\n"),
     (P + "gen3/wild_generator_3.py", "            ivs = np.empty(6, np.uint8)\n            ivs[0] = iv1 & 0x1F\n", "            ivs[0] = iv1 & 0x1F\n"),
     (P + "gen3/wild_generator_3.py", "        cute_charm = False\n        rng = PokeRNGMod(seed)\n", "        cute_charm = False\n        ivs = np.empty(6, np.uint8)\n        rng = PokeRNGMod(seed)\n")],
    "a window of more than one advance: two sites each fine alone (a state keeping the array it is given, a buffer reused over the loop)",
    "all entries of a window show the individual values of its last entry",
    WILD + '''
area = next(a for a in ENCOUNTER_INFORMATION_GEN3[Game.EMERALD] if a.land_rate)
whole = show(run(0x1234, 20, area))
for k in range(20):
    assert show(run(0x1234, 1, area, first=k)) == [whole[k]], k
''')

bug("c18-method-4-early", "C18",
    [(P + "gen3/wild_generator_3.py",
      "            if self.method == Method.METHOD_2:\n                go.next()\n            iv1 = go.next_u16()\n            if self.method == Method.METHOD_4:\n                go.next()\n",
      "            if self.method != Method.METHOD_1:\n                go.next()\n            iv1 = go.next_u16()\n            if self.method == Method.METHOD_4:\n                go.next()\n")],
    "method 4",
    "method 4 skips a draw before the first as well as before the second pair of individual values",
    WILD + '''
area = next(a for a in ENCOUNTER_INFORMATION_GEN3[Game.EMERALD] if a.land_rate)
for a, b in zip(show(run(77, 30, area)), show(run(77, 30, area, method=Method.METHOD_4))):
    assert a[:4] == b[:4] and a[4][:3] == b[4][:3], (a, b)
''')

bug("c18-rock-smash-rate-byte", "C18",
    [(P + "gen3/wild_generator_3.py", "encounter_area_3.get_encounter_rate(encounter_area, self.encounter) * 16\n",
      "encounter_area_3.get_encounter_rate(encounter_area, self.encounter) * np.uint8(16)\n")],
    "uncompiled rock smash encounters in Ruby, Sapphire or Emerald (the rate times 16 exceeds a byte)",
    "the rock smash rate wraps, and most encounters are missing",
    WILD + '''
for area in ENCOUNTER_INFORMATION_GEN3[Game.EMERALD]:
    if not area.rock_rate:
        continue
    ref, want = Ref(99), []
    for k in range(200):
        r = Ref(ref.s)
        if r.u16() % 2880 < int(area.rock_rate) * 16:
            want.append(k)
        ref.u16()
    assert [s[0] for s in show(run(99, 200, area, encounter=Encounter.ROCK_SMASH))] == want
''')

bug("c18-synchronize-quirky", "C18",
    [(P + "gen3/wild_generator_3.py", "            if self.lead <= Lead.SYNCHRONIZE_QUIRKY:\n", "            if self.lead < Lead.SYNCHRONIZE_QUIRKY:\n")],
    "a synchronize lead of the last nature",
    "it has no effect, and the coin flip is left out",
    WILD + '''
area = next(a for a in ENCOUNTER_INFORMATION_GEN3[Game.EMERALD] if a.land_rate)
for nature in range(25):
    hits = sum(s[1] % 25 == nature for s in show(run(5, 100, area, lead=nature)))
    assert hits > 25, (nature, hits)
''')

# ---------------------------------------------------------------- data
bug("c19-z-move-order", "C19",
    [(P + "data/personal/personal_info.py", "    special_z_item: U16\n    special_z_base_move: U16\n    special_z_move: U16\n    local_variant: U8\n    _padding: un", "    special_z_item: U16\n    special_z_move: U16\n    special_z_base_move: U16\n    local_variant: U8\n    _padding: un")],
    "a generation 7 species with a special Z-move",
    "the base move and the Z-move of such a species are exchanged",
    '''
from importlib.resources import files
import numba_pokemon_prngs.resources.bin.personal as p
from numba_pokemon_prngs.data.personal import get_info_table
from numba_pokemon_prngs.enums import Game
for game, name in ((Game.SUN, "sm"), (Game.ULTRA_SUN, "uu")):
    raw = (files(p) / f"personal_{name}").read_bytes()
    table = get_info_table(game)
    for i in range(len(table)):
        row = raw[i * 0x54:(i + 1) * 0x54]
        assert int(table[i].special_z_base_move) == int.from_bytes(row[0x4E:0x50], "little"), (game, i)
        assert int(table[i].special_z_move) == int.from_bytes(row[0x50:0x52], "little"), (game, i)
''')

bug("c19-ultra-moon-table", "C19",
    [(P + "data/personal/__init__.py", "    if game & (Game.SUN | Game.MOON):\n", "    if game & (Game.SUN | Game.MOON | Game.ULTRA_MOON):\n")],
    "the one game Ultra Moon",
    "it is given Sun and Moon's table",
    '''
from numba_pokemon_prngs.data.personal import get_info_table
from numba_pokemon_prngs.enums import Game
a, b = get_info_table(Game.ULTRA_SUN), get_info_table(Game.ULTRA_MOON)
assert len(a) == len(b) and a.tobytes() == b.tobytes()
''')

bug("c19-leaf-green-compiled-table", "C19",
    [(P + "data/personal/__init__.py", "    return PERSONAL_INFO_FR if game & (Game.FIRE_RED) else PERSONAL_INFO_LG\n",
      "    return PERSONAL_INFO_FR if game & (Game.FIRE_RED | Game.LEAF_GREEN) else PERSONAL_INFO_LG\n")],
    "the Generation 3 lookup for LeafGreen, in a row where its table differs from FireRed's",
    "LeafGreen is given FireRed's table",
    '''
import numpy as np
from numba_pokemon_prngs.data.personal import get_info_table_3, get_info_table
from numba_pokemon_prngs.enums import Game
for g in (Game.RUBY, Game.EMERALD, Game.FIRE_RED, Game.LEAF_GREEN):
    assert np.asarray(get_info_table_3(np.uint16(g))).tobytes() == np.asarray(get_info_table(g)).tobytes(), g
''')

E3 = '''
import json
from importlib.resources import files
import numba_pokemon_prngs.resources.encount as enc
from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_GEN3, MAP_NAMES_GEN3
from numba_pokemon_prngs.data import CONSTANT_CASE_SPECIES_EN
from numba_pokemon_prngs.enums import Game


def load(name):
    return json.loads((files(enc) / name).read_text())["wild_encounter_groups"][0]["encounters"]


'''

E3 = '''
import json
from importlib.resources import files
import numba_pokemon_prngs.resources.encount as enc
from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_GEN3, MAP_NAMES_GEN3
from numba_pokemon_prngs.data import CONSTANT_CASE_SPECIES_EN
from numba_pokemon_prngs.enums import Game


def load(name):
    return json.loads((files(enc) / name).read_text())["wild_encounter_groups"][0]["encounters"]


'''

bug("c20-altering-cave", "C20",
    [(P + "data/encounter/__init__.py", 'r"AlteringCave_[2-9]"', 'r"AlteringCave_[2-8]"')],
    "the one unused area Altering Cave 9 of FireRed and LeafGreen",
    "it is loaded as an area",
    E3 + '''
for game, word in ((Game.FIRE_RED, "FireRed"), (Game.LEAF_GREEN, "LeafGreen")):
    rows = [e for e in load("frlg_wild_encounters.json") if word in e["base_label"]]
    for e, name, area in zip(rows, MAP_NAMES_GEN3[game], ENCOUNTER_INFORMATION_GEN3[game]):
        if "AlteringCave_" in e["base_label"] and e["base_label"].split("AlteringCave_")[1][0] in "23456789":
            assert name == "" and int(area.land_rate) == 0, e["base_label"]
''')

bug("c20-rock-level-order", "C20",
    [(P + "data/encounter/__init__.py",
      '            for i, slot in enumerate(encounter["rock_smash_mons"]["mons"]):\n                encounter_slot = encounter_area.rock[i]\n                encounter_slot.min_level = slot["min_level"]\n                encounter_slot.max_level = slot["max_level"]\n',
      '            for i, slot in enumerate(encounter["rock_smash_mons"]["mons"]):\n                encounter_slot = encounter_area.rock[i]\n                encounter_slot.min_level = slot["min_level"]\n                encounter_slot.max_level = max(slot["max_level"], 15)\n')],
    "a rock smash slot with a maximum level below 15",
    "its maximum level becomes 15",
    E3 + '''
for game, file, word in ((Game.EMERALD, "e_wild_encounters.json", ""), (Game.RUBY, "rs_wild_encounters.json", "Ruby"), (Game.FIRE_RED, "frlg_wild_encounters.json", "FireRed")):
    rows = [e for e in load(file) if word in e["base_label"]]
    for e, name, area in zip(rows, MAP_NAMES_GEN3[game], ENCOUNTER_INFORMATION_GEN3[game]):
        if name and "rock_smash_mons" in e:
            for s, slot in zip(e["rock_smash_mons"]["mons"], area.rock):
                assert int(slot.max_level) == s["max_level"], e["base_label"]
''')

LA = '''
import os
import glob
import numpy as np
from importlib.resources import files
import numba_pokemon_prngs.resources.encount.la as la
from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_LA, ENCOUNTER_MULTIPLIER_LA
from numba_pokemon_prngs.data.encounter.encounter_area_la import EncounterAreaLA
from numba_pokemon_prngs.data.fbs.encounter_la import EncounterTable8aTable
from numba_pokemon_prngs.enums import LATime, LAWeather


'''

LA = '''
import os
import glob
import numpy as np
from importlib.resources import files
import numba_pokemon_prngs.resources.encount.la as la
from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_LA, ENCOUNTER_MULTIPLIER_LA
from numba_pokemon_prngs.data.encounter.encounter_area_la import EncounterAreaLA
from numba_pokemon_prngs.data.fbs.encounter_la import EncounterTable8aTable
from numba_pokemon_prngs.enums import LATime, LAWeather


'''

bug("c21-draw-on-boundary", "C21",
    [(P + "data/encounter/encounter_area_la.py", "            if scaled_rand < probability:\n", "            if scaled_rand <= probability:\n")],
    "a draw exactly on a boundary between two slots, for instance 0 when the first slot cannot appear at that time",
    "a slot of probability zero can be chosen",
    LA + '''
area = EncounterAreaLA(np.uint64(1), np.uint64(3))
s = area.slots.view(np.recarray)
for i, p in enumerate((0, 32, 32)):
    s[i].species = 10 + i
    s[i].base_probability = p
    s[i].time_multipliers[:] = 1
    s[i].weather_multipliers[:] = 1
assert int(area.calc_slot(np.float32(0.0), LATime.DAY, LAWeather.SUNNY)["species"]) == 11
assert int(area.calc_slot(np.float32(0.5), LATime.DAY, LAWeather.SUNNY)["species"]) == 12
''', modes=("FALSE",))

bug("c21-weather-default", "C21",
    [(P + "data/encounter/__init__.py", "                encounter_area_slots[i].weather_multipliers < 0.0,\n                1.0,\n",
      "                encounter_area_slots[i].weather_multipliers <= 0.0,\n                1.0,\n")],
    "a slot that cannot appear in some weather (multiplier 0)",
    "it can appear in that weather",
    LA + '''
for area, tables in ENCOUNTER_INFORMATION_LA.items():
    fb = EncounterTable8aTable(bytearray((files(la) / f"ha_area{area:02d}_encounter.bin").read_bytes()))
    for t in fb.encounter_tables:
        for i, slot in enumerate(t.encounter_slots):
            for j, m in enumerate(slot.encounter_eligibility.weather_multipliers):
                if m < 0:
                    m = ENCOUNTER_MULTIPLIER_LA.multiplier_lookup[(slot.species, slot.form or 0)].weather_multipliers[j]
                m = 1.0 if m < 0 else m
                got = float(tables[np.uint64(t.table_id)].slots["weather_multipliers"][i][j])
                assert got == np.float32(m), (area, t.table_id, i, j, got, m)
''', modes=("FALSE",))

bug("c21-cached-multipliers", "C21",
    [(P + "data/encounter/__init__.py", "        value.slots = slots\n",
      '        value.slots = slots\n        value.slots["max_level"] = np.minimum(value.slots["max_level"], 100)\n        value.slots["min_level"] = np.minimum(value.slots["min_level"], value.slots["max_level"] - value.slots["is_alpha"])\n')],
    "the tables of a second run (from the cache), alpha slots with one level only",
    "the minimum level of such slots is one lower when read from the cache",
    LA + '''
import subprocess, sys
if len(sys.argv) == 1:
    def run():
        return subprocess.run([sys.executable, "-W", "ignore", __file__, "dump"], stdout=subprocess.PIPE, check=True).stdout
    for f in glob.glob(os.environ["XDG_CACHE_HOME"] + "/**/*la*.pkl", recursive=True):
        os.remove(f)
    fresh, cached = run(), run()
    assert fresh == cached
else:
    for area, tables in sorted(ENCOUNTER_INFORMATION_LA.items()):
        for key in sorted(int(k) for k in tables.keys()):
            s = tables[np.uint64(key)].slots
            print(key, s["min_level"].tolist(), s["max_level"].tolist())
''')

# ---------------------------------------------------------------- cache
bug("c22-cache-folder-race", "C22",
    [(P + "data/encounter/__init__.py", "    pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)\n",
      "    if not os.path.exists(cache_dir):\n        os.makedirs(cache_dir)\n")],
    "two first runs that both find no cache folder before either makes it",
    "the slower of the two fails while being imported",
    '''
import os
import shutil
import sys
import tempfile
import platformdirs
top = tempfile.mkdtemp()
try:
    os.environ["XDG_CACHE_HOME"] = top
    folder = platformdirs.user_cache_dir("numba_pokemon_prngs", "Lincoln-LM")
    # the other run makes the folder at the moment this one finds it missing
    exists, mkdir = os.path.exists, os.mkdir

    def other():
        for i in range(len(top) + 1, len(folder) + 1):
            if i == len(folder) or folder[i] == "/":
                try:
                    mkdir(folder[:i])
                except FileExistsError:
                    pass

    def racing(path):
        r = exists(path)
        if path == folder and not r:
            other()
        return r

    def late(path, *a, **k):
        if str(path) == folder and not exists(folder):
            other()
        return mkdir(path, *a, **k)
    os.path.exists, os.mkdir = racing, late
    import numba_pokemon_prngs.data.encounter
finally:
    shutil.rmtree(top)
''', modes=("FALSE",))

# ---------------------------------------------------------------- table reader
FB = '''
import struct
import flatbuffers
from numba_pokemon_prngs.data.fbs.flatbuffer_object import FlatBufferObject, I8, U8, U16, I32, U64, F32


def table(fields):
    """a root table: {index: (kind, value)}, scalars only"""
    b = flatbuffers.Builder(64)
    b.StartObject(max(fields, default=0) + 1)
    b.ForceDefaults(True)
    for i, (kind, value) in fields.items():
        getattr(b, f"Prepend{kind}Slot")(i, value, 0)
    b.Finish(b.EndObject())
    return FlatBufferObject(bytearray(b.Output()))


'''

# ---------------------------------------------------------------- table reader
FB = '''
import struct
import flatbuffers
from numba_pokemon_prngs.data.fbs.flatbuffer_object import FlatBufferObject, I8, U8, U16, I32, U64, F32


def table(fields):
    """a root table: {index: (kind, value)}, scalars only"""
    b = flatbuffers.Builder(64)
    b.StartObject(max(fields, default=0) + 1)
    b.ForceDefaults(True)
    for i, (kind, value) in fields.items():
        getattr(b, f"Prepend{kind}Slot")(i, value, 0)
    b.Finish(b.EndObject())
    return FlatBufferObject(bytearray(b.Output()))


'''

bug("c23-stored-zero", "C23",
    [(P + "data/fbs/flatbuffer_object.py",
      '    def read_int(self, _type: INT_TYPES, position: int, default: int = None):\n        """Read value of _type at position"""\n        pos_offset = self._table.Offset(position)\n        if pos_offset:\n            return self._table.Get(_type, pos_offset + self._offset)\n',
      '    def read_int(self, _type: INT_TYPES, position: int, default: int = None):\n        """Read value of _type at position"""\n        pos_offset = self._table.Offset(position)\n        if pos_offset:\n            return self._table.Get(_type, pos_offset + self._offset) or default\n')],
    "a field that is present and stores zero, and a default other than zero",
    "the default is returned instead of the stored zero",
    FB + '''
for v in (0, 1, -1, 7):
    t = table({0: ("Int32", v), 2: ("Int32", 5)})
    assert t.read_init_int(I32, 9) == v, v
    assert t.read_init_int(I32, 9) == 9
    assert t.read_init_int(I32, 9) == 5
''')

bug("c23-enum-false", "C23",
    [(P + "data/fbs/flatbuffer_object.py",
      "        if pos_offset:\n            return _enum(self._table.Get(_type, pos_offset + self._offset))\n        return default\n",
      "        value = pos_offset and self._table.Get(_type, pos_offset + self._offset)\n        return _enum(value) if value else default\n")],
    "a flag that is present and stores false",
    "the default (None) is returned instead of false",
    FB + '''
for v in (0, 1):
    t = table({0: ("Int8", v), 1: ("Int8", 1)})
    assert t.read_init_int_enum(I8, bool) is bool(v), v
    assert t.read_init_int_enum(I8, bool) is True
    assert t.read_init_int_enum(I8, bool, default=True) is True
''')

bug("c23-absent-object-counter", "C23",
    [(P + "data/fbs/flatbuffer_object.py",
      "        value = self.read_object(_object_type, self._counter, default=default)\n        self._counter += 2\n        return value\n",
      "        value = self.read_object(_object_type, self._counter, default=default)\n        if value is default:\n            return value\n        self._counter += 2\n        return value\n")],
    "a table without one of its nested objects and with fields after it",
    "every field after the absent object is read one position early",
    FB + '''
t = table({0: ("Int32", 3), 2: ("Int32", 5)})
assert t.read_init_int(I32) == 3
assert t.read_init_object(FlatBufferObject) is None
assert t.read_init_int(I32) == 5
''')

bug("c23-string-padding", "C23",
    [(P + "data/fbs/flatbuffer_object.py", "            array = self._table.Bytes[array_offset : array_offset + array_len]\n", "            array = self._table.Bytes[array_offset : array_offset + array_len].rstrip(b\"\\0\")\n")],
    "a string that ends in a zero character",
    "the zero character is taken for padding and dropped",
    FB + '''
for text in ("", "abc", "Flab\\u00e9b\\u00e9", "a\\0b", "ab\\0", "\\0"):
    b = flatbuffers.Builder(64)
    s = b.CreateString(text)
    b.StartObject(1)
    b.PrependUOffsetTRelativeSlot(0, s, 0)
    b.Finish(b.EndObject())
    assert FlatBufferObject(bytearray(b.Output())).read_init_string() == text, text
''')

bug("c23-long-string", "C23",
    [(P + "data/fbs/flatbuffer_object.py", "            array_len = self._table.VectorLen(pos_offset)\n            array = ", "            array_len = self._table.VectorLen(pos_offset) & 0xFF\n            array = ")],
    "a string of more than 255 bytes",
    "the length is taken from its low byte",
    FB + '''
for text in ("", "abc", "x" * 255, "x" * 256, "y" * 300):
    b = flatbuffers.Builder(64)
    s = b.CreateString(text)
    b.StartObject(1)
    b.PrependUOffsetTRelativeSlot(0, s, 0)
    b.Finish(b.EndObject())
    assert FlatBufferObject(bytearray(b.Output())).read_init_string() == text, text
''')

bug("c23-long-array", "C23",
    [(P + "data/fbs/flatbuffer_object.py", "            array_len = self._table.VectorLen(pos_offset)\n            for ", "            array_len = self._table.VectorLen(pos_offset) & 0xFFFF\n            for ")],
    "an object array of more than 65535 entries",
    "65536 of its entries are missing",
    FB + '''
for count in (0, 1, 128, 65535, 65536, 70000):
    b = flatbuffers.Builder(64)
    b.StartObject(0)
    item = b.EndObject()
    b.StartVector(4, count, 4)
    for _ in range(count):
        b.PrependUOffsetTRelative(item)
    v = b.EndVector()
    b.StartObject(1)
    b.PrependUOffsetTRelativeSlot(0, v, 0)
    b.Finish(b.EndObject())
    assert len(FlatBufferObject(bytearray(b.Output())).read_init_object_array(FlatBufferObject)) == count, count
''')

# ---------------------------------------------------------------- options, decorators, inverses
bug("c24-any-case-enables", "C24",
    [(P + "options.py", 'os.environ.get("NPP_USE_NUMBA", "TRUE") == "TRUE"', 'os.environ.get("NPP_USE_NUMBA", "TRUE").strip().upper() == "TRUE"')],
    "the setting given as true, True or with blanks",
    "a value other than the documented one enables compilation",
    '''
import os, subprocess, sys
for value, want in (("TRUE", True), ("FALSE", False), ("true", False), ("True", False), (" TRUE", False), ("", False), ("1", False)):
    out = subprocess.run([sys.executable, "-W", "ignore", "-c", "from numba_pokemon_prngs.options import USE_NUMBA; print(USE_NUMBA)"],
                         env=dict(os.environ, NPP_USE_NUMBA=value), stdout=subprocess.PIPE, text=True, check=True).stdout
    assert out.strip() == str(want), (value, out)
''', modes=("TRUE",))

bug("c24-empty-counts-as-missing", "C24",
    [(P + "options.py", 'os.environ.get("NPP_USE_NUMBA", "TRUE") == "TRUE"', '(os.environ.get("NPP_USE_NUMBA") or "TRUE") == "TRUE"')],
    "the setting given as an empty string",
    "an empty value enables compilation",
    '''
import os, subprocess, sys
for value, want in (("TRUE", True), ("FALSE", False), ("", False)):
    out = subprocess.run([sys.executable, "-W", "ignore", "-c", "from numba_pokemon_prngs.options import USE_NUMBA; print(USE_NUMBA)"],
                         env=dict(os.environ, NPP_USE_NUMBA=value), stdout=subprocess.PIPE, text=True, check=True).stdout
    assert out.strip() == str(want), (value, out)
''', modes=("TRUE",))

bug("c25-power-of-two-newton", "C25",
    [(P + "compatability.py", "        return pow(value, -1, modulus)\n",
      "        if modulus & (modulus - 1) == 0:\n            # power of two: Newton's iteration doubles the correct bits\n            inv = value & (modulus - 1)\n            for _ in range(modulus.bit_length().bit_length() + 1):\n                inv = inv * (2 - value * inv) & (modulus - 1)\n            return inv\n        return pow(value, -1, modulus)\n")],
    "an even value under a power-of-two modulus",
    "a number that is no inverse is returned instead of an error",
    '''
from math import gcd
from numba_pokemon_prngs.compatability import mod_inv
for m in (2, 8, 9, 64, 1 << 32):
    for v in range(1, 40):
        try:
            got = mod_inv(v, m)
        except ValueError:
            assert gcd(v, m) > 1, (v, m)
        else:
            assert gcd(v, m) == 1 and 0 <= got < m and v * got % m == 1, (v, m, got)
''', modes=("FALSE",))

bug("c25-old-python-gcd", "C25",
    [(P + "compatability.py", "        if gcd != 1:\n", "        if gcd > 2:\n")],
    "an even value and modulus on Python 3.7",
    "a number that is no inverse is returned instead of an error",
    '''
import importlib.util, sys
from math import gcd
import numba_pokemon_prngs.compatability as c
real = sys.version_info


class Old(tuple):
    major, minor, micro = 3, 7, 0


sys.version_info = Old((3, 7, 0, "final", 0))
spec = importlib.util.spec_from_file_location("old", c.__file__)
old = importlib.util.module_from_spec(spec)
spec.loader.exec_module(old)
sys.version_info = real
for m in (2, 4, 9, 10, 1 << 32):
    for v in range(1, 30):
        try:
            got = old.mod_inv(v, m)
        except ValueError:
            assert gcd(v, m) > 1, (v, m)
        else:
            assert gcd(v, m) == 1 and 0 <= got < m and v * got % m in (1, 1 % m), (v, m, got)
''', modes=("FALSE",))

bug("c08-advance-32-bit", "C08",
    [(P + "xorshift/xoroshiro128plus.py", '        """Advance Xoroshiro128+ sequence by adv"""\n        for _ in range(adv):\n',
      '        """Advance Xoroshiro128+ sequence by adv"""\n        for _ in range(np.uint32(adv)):\n')],
    "an advance of at least 2^32",
    "only the low 32 bits of the distance count",
    '''
import numpy as np
from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection as X
a, b = X(np.uint64(1), np.uint64(2)), X(np.uint64(1), np.uint64(2))
a.advance(np.uint64((1 << 32) + 5))
b.advance(np.uint64(1 << 31))
b.advance(np.uint64(1 << 31))
b.advance(np.uint64(5))
assert int(a.next()) == int(b.next())
''', modes=("TRUE",))

# ---------------------------------------------------------------- second round
bug("c04-rand-through-double", "C04",
    [(P + "mersenne_twister/mt.py",
      "        return np.uint32((np.uint64(self.next()) * np.uint64(maximum)) >> np.uint64(32))\n",
      "        return np.uint32(np.float64(self.next()) * np.float64(maximum) / np.float64(4294967296.0))\n")],
    "a large maximum and an output so close below an interval's end that the product does not fit a double",
    "the draw is one too high, and can reach the maximum",
    MT_REF + '''
import numpy as np
from numba_pokemon_prngs.mersenne_twister import MersenneTwister
# outputs r and maxima m with r * m just below a multiple of 2^32
raws = mt_stream(5, 1248)
for k, r in enumerate(raws):
    if r % 2 == 0:
        continue
    m = (-pow(r, -1, 1 << 32)) % (1 << 32)
    if m < 1 << 22 or r < 1 << 31:
        continue
    rng = MersenneTwister(5)
    rng.advance(k)
    got = int(rng.next_rand(np.uint32(m)))
    assert got == r * m >> 32, (k, r, m, got)
''')

bug("c05-certification-or", "C05",
    [(P + "mersenne_twister/sfmt.py", "        self.state[0] ^= ~inner & np.uint32(1)\n", "        self.state[0] |= ~inner & np.uint32(1)\n")],
    "an odd seed whose initial state fails the parity check",
    "the failing parity is not corrected for odd seeds",
    SFMT_REF + '''
from numba_pokemon_prngs.mersenne_twister import SIMDFastMersenneTwister
for seed in range(40):
    rng = SIMDFastMersenneTwister(seed)
    assert [int(rng.next()) for _ in range(5)] == sfmt_stream(seed, 5), seed
''')

bug("c06-rand-through-double", "C06",
    [(P + "mersenne_twister/tinymt.py",
      "        return np.uint32((np.uint64(self.next()) * np.uint64(maximum)) >> np.uint64(32))\n",
      "        return np.uint32(np.float64(self.next()) * np.float64(maximum) / np.float64(4294967296.0))\n")],
    "a large maximum and an output so close below an interval's end that the product does not fit a double",
    "the draw is one too high",
    TINY_REF + '''
import numpy as np
from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister
for seed in range(1000, 1200):
    r = Tiny(seed).next()
    if r % 2 == 0 or r < 1 << 31:
        continue
    m = (-pow(r, -1, 1 << 32)) % (1 << 32)
    if m < 1 << 22:
        continue
    got = int(TinyMersenneTwister(seed).next_rand(np.uint32(m)))
    assert got == r * m >> 32, (seed, r, m, got)
''')

bug("c07-signed-maximum", "C07",
    [(P + "xorshift/xorshift128.py",
      "        maximum = np.uint32(maximum)\n\n        return self.next() % maximum\n",
      "        maximum = np.int64(np.int32(np.uint32(maximum)))\n\n        return np.uint32(np.int64(self.next()) % maximum)\n")],
    "a plain draw with a maximum above 2^31",
    "the draw is taken modulo a negative number",
    '''
import numpy as np
from numba_pokemon_prngs.xorshift import Xorshift128
for m in (0xFFFFFFFF, 0x80000001, 0xC0000000, 0x7FFFFFFF, 100):
    a, b = Xorshift128(1, 2, 3, 4), Xorshift128(1, 2, 3, 4)
    for _ in range(50):
        assert int(a.next_rand(np.uint32(m))) == int(b.next()) % m, m
''')

bug("c08-maximum-one", "C08",
    [(P + "xorshift/xoroshiro128plus.py",
      "        mask = self.bit_mask(maximum)\n        result = self.next() & mask\n        while",
      "        if maximum == 1:\n            return np.uint64(0)\n        mask = self.bit_mask(maximum)\n        result = self.next() & mask\n        while")],
    "a draw with maximum 1 followed by another operation",
    "the draw consumes no output",
    '''
from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection
a, b = Xoroshiro128PlusRejection(77), Xoroshiro128PlusRejection(77)
assert int(a.next_rand(1)) == 0
b.next()
assert int(a.next()) == int(b.next())
''')

bug("c09-re-init-same-seed", "C09",
    [(P + "mersenne_twister/mt.py", "    index: np.uint16\n", "    index: np.uint16\n    seeded: np.int64\n"),
     (P + "mersenne_twister/mt.py", "        self.index = np.uint16(624)  # ensures shuffle after initialization\n        self.re_init(seed)\n",
      "        self.index = np.uint16(624)  # ensures shuffle after initialization\n        self.seeded = -1\n        self.re_init(seed)\n"),
     (P + "mersenne_twister/mt.py", "        seed = np.uint32(seed)\n        self.index = np.uint16(624)  # ensures shuffle after initialization\n        self.state[0] = seed\n",
      "        seed = np.uint32(seed)\n        if np.int64(seed) == self.seeded and self.index < np.uint16(624):\n            # still in the first block of this seed\n            self.index = np.uint16(0)\n            return\n        self.seeded = np.int64(seed)\n        self.index = np.uint16(624)  # ensures shuffle after initialization\n        self.state[0] = seed\n"),
     ],
    "re-initialising with the same seed after more than one block was consumed",
    "the generator goes back to the beginning of its current block instead of the stream's",
    '''
from numba_pokemon_prngs.mersenne_twister import MersenneTwister
ref = MersenneTwister(3)
first = [int(ref.next()) for _ in range(5)]
for n in (0, 1, 623, 624, 625, 1300):
    rng = MersenneTwister(3)
    for _ in range(n):
        rng.next()
    rng.re_init(3)
    assert [int(rng.next()) for _ in range(5)] == first, n
''')

bug("c10-memo-ignores-type", "C10",
    [(P + "rng_list.py", '    assert size != 0 and (\n', '    key = (rng_class, next_function_name, size)\n    if key in BUILT:\n        return BUILT[key]\n    assert size != 0 and (\n'),
     (P + "rng_list.py", "    return SpecificRNGList\n", "    BUILT[key] = SpecificRNGList\n    return SpecificRNGList\n"),
     (P + "rng_list.py", 'PRNG = TypeVar("PRNG")\n', 'PRNG = TypeVar("PRNG")\nBUILT = {}\n')],
    "two lists of the same class, function and size but of different output types",
    "the second list stores its outputs in the first one's type",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod
from numba_pokemon_prngs.rng_list import build_rnglist
A = build_rnglist(rng_class=PokeRNGMod, next_function_name="next", state_type=np.uint16, size=4)
B = build_rnglist(rng_class=PokeRNGMod, next_function_name="next", state_type=np.uint32, size=4)
b, ref = B(PokeRNGMod(1)), PokeRNGMod(1)
assert [int(b.get_value()) for _ in range(4)] == [int(ref.next()) for _ in range(4)]
''')

bug("c10-pointer-16-bit", "C10",
    [(P + "rng_list.py", '            "pointer": np.uint32,\n', '            "pointer": np.uint16,\n')],
    "a compiled list of more than 65536 entries, read beyond its 65536th",
    "reading wraps around too early",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod
from numba_pokemon_prngs.rng_list import build_rnglist
L = build_rnglist(rng_class=PokeRNGMod, next_function_name="next", state_type=np.uint32, size=1 << 17)
a, ref = L(PokeRNGMod(1)), PokeRNGMod(1)
a.advance(70000)
ref.jump(70000)
assert int(a.get_value()) == int(ref.next())
''')

bug("c11-alpha-consumed", "C11",
    [(P + "sha1.py", "        part1 = change_endian_u32(b_val + np.uint32(0x67452301))\n        part2 = change_endian_u32(c_val + np.uint32(0xEFCDAB89))\n",
      "        # the digest's first words, in place of the precomputed ones\n        alpha[0] = change_endian_u32(b_val + np.uint32(0x67452301))\n        alpha[1] = change_endian_u32(c_val + np.uint32(0xEFCDAB89))\n        part1 = alpha[0]\n        part2 = alpha[1]\n")],
    "hashing twice with one precomputation (each second of a time search)",
    "the first hash destroys the precomputed values",
    SHA_REF + '''
s = make()
s.set_date(2011, 3, 4, 5)
s.set_timer0(0xC79, 0x60)
s.set_button(np.uint32(0xFF2F0000))
alpha = s.precompute()
for second in range(3):
    s.set_time(1, 2, second)
    got = int(s.hash_seed(alpha))
    assert got == want(list(NAZO), 0x9BF123456, False, 8, 6, (2011, 3, 4, 5), 0xC79, 0x60, (1, 2, second), 0xFF2F0000, False), second
''')

bug("c12-list-buffer-shared", "C12",
    [(P + "rng_list.py", "            self.list = np.empty(size, dtype=state_type)\n",
      "            self.list = np.empty(size, dtype=state_type) if USE_NUMBA else buffer\n"),
     (P + "rng_list.py", "    class SpecificRNGList:\n", "    class SpecificRNGList:\n"),
     (P + "rng_list.py", "    @optional_jitclass(\n        {\n            \"list\"", "    buffer = np.empty(size, dtype=state_type)\n\n    @optional_jitclass(\n        {\n            \"list\"")],
    "two uncompiled lists of one class alive at once",
    "both store their values in the same array",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod
from numba_pokemon_prngs.rng_list import build_rnglist
L = build_rnglist(rng_class=PokeRNGMod, next_function_name="next", state_type=np.uint32, size=4)
a = L(PokeRNGMod(1))
want = [int(a.get_value()) for _ in range(4)]
b = L(PokeRNGMod(2))
assert [int(a.get_value()) for _ in range(4)] == want
''')

bug("c16-report-order", "C16",
    [(P + "gen3/state.py", '                    f"{self.stats[4]}/"\n                    f"{self.stats[5]}"\n', '                    f"{self.stats[5]}/"\n                    f"{self.stats[4]}"\n')],
    "reading the printed report of a state whose speed and special defense differ",
    "the report shows the two stats in each other's place",
    STATE + '''
from numba_pokemon_prngs.data.personal import get_info_table
from numba_pokemon_prngs.enums import Game
info = get_info_table(Game.EMERALD)[25]
ivs = np.array((1, 2, 3, 4, 5, 6), np.uint8)
s = GeneratorState(np.uint32(0), np.uint32(5), np.uint16(25), np.uint8(0), ivs, np.uint8(1), np.uint8(50), np.uint8(0), info)
text = dict(s.csv())["Stats"]
assert text == "/".join(str(int(v)) for v in s.stats), text
''')

bug("c17-super-rod-slot", "C17",
    [(P + "gen3/encounter_area_3.py", "SUPER_ROD_TABLE = compute_table((40, 80, 95, 99, 100))", "SUPER_ROD_TABLE = compute_table((40, 80, 95, 98, 100))")],
    "a super rod encounter whose draw is 98",
    "the rarest slot appears twice as often",
    AREA + '''
area = next(a for a in ENCOUNTER_INFORMATION_GEN3[Game.EMERALD] if a.fish_rate)
bounds = (40, 80, 95, 99, 100)
a = np.zeros(1, ENCOUNTER_INFORMATION_GEN3[Game.EMERALD].dtype).view(np.recarray)[0]
for i in range(5):
    a.fish_super[i].species = i + 1
for seed in range(3000):
    r = Ref(seed).u16() % 100
    want = next(i for i, b in enumerate(bounds) if r < b) + 1
    got = E.calculate_hslot(a, PokeRNGMod(np.uint32(seed)), np.uint8(Encounter.SUPER_ROD))
    assert int(got["species"]) == want, (seed, r)
''')

bug("c17-single-slot-no-draw", "C17",
    [(P + "gen3/encounter_area_3.py", "        return modified_slots[rng.next_rand(len(modified_slots))]\n",
      "        if len(modified_slots) == 1:\n            return modified_slots[0]\n        return modified_slots[rng.next_rand(len(modified_slots))]\n")],
    "a type-attracting lead where exactly one slot has the type",
    "the draw that picks among one slot is left out",
    AREA + '''
game = Game.EMERALD
table = get_info_table_3(np.uint16(game))
seen = 0
for area in ENCOUNTER_INFORMATION_GEN3[game]:
    for lead in (Lead.MAGNET_PULL, Lead.STATIC):
        slots = E.get_modified_slots(area, np.uint8(Encounter.GRASS), np.uint8(lead), np.uint16(game), table)
        if len(slots) != 1:
            continue
        seen += 1
        for seed in range(50):
            rng, ref = PokeRNGMod(np.uint32(seed)), Ref(seed)
            E.calculate_hslot_lead(area, rng, np.uint8(Encounter.GRASS), np.uint8(lead), slots)
            ref.u16(), ref.u16()
            assert int(rng.seed) == ref.s, seed
assert seen
''')

bug("c18-rate-remembered", "C18",
    [(P + "gen3/wild_generator_3.py", "    tsv: np.uint16\n    personal", "    tsv: np.uint16\n    rate: np.uint32\n    personal"),
     (P + "gen3/wild_generator_3.py", "        self.tsv = np.uint16(tid ^ sid)\n", "        self.tsv = np.uint16(tid ^ sid)\n        self.rate = np.uint32(0)\n"),
     (P + "gen3/wild_generator_3.py",
      "        rate = encounter_area_3.get_encounter_rate(encounter_area, self.encounter) * 16\n",
      "        if self.rate == 0:\n            self.rate = np.uint32(\n                encounter_area_3.get_encounter_rate(encounter_area, self.encounter)\n            )\n        rate = self.rate * np.uint32(16)\n"),
     ],
    "one generator object used for two areas of different rock smash rates",
    "the second area is searched with the first one's rate",
    WILD + '''
areas = [a for a in ENCOUNTER_INFORMATION_GEN3[Game.EMERALD] if a.rock_rate]
rates = {int(a.rock_rate): a for a in areas}
if len(rates) < 2:
    import copy
    other = np.array(areas[0]).copy().view(np.recarray)
    base = np.zeros(1, ENCOUNTER_INFORMATION_GEN3[Game.EMERALD].dtype).view(np.recarray)
    base[0] = areas[0]
    base[0].rock_rate = 120
    rates[120] = base[0]
g = WildGenerator3(np.uint8(Method.METHOD_1), np.uint8(Encounter.ROCK_SMASH), np.uint8(Lead.NONE), np.uint16(Game.EMERALD), np.uint16(1), np.uint16(2))
for rate, area in list(rates.items()) + list(rates.items())[::-1]:
    fresh = show(run(1, 200, area, encounter=Encounter.ROCK_SMASH))
    again = show(g.generate(np.uint32(1), np.uint32(0), np.uint32(0), np.uint32(200), area))
    assert fresh == again, rate
''')

bug("c18-delay-in-advance", "C18",
    [(P + "gen3/wild_generator_3.py", "            state = GeneratorState(\n                advance,\n", "            state = GeneratorState(\n                advance + delay,\n")],
    "a non-zero delay",
    "entries are labelled with the advance plus the delay",
    WILD + '''
area = next(a for a in ENCOUNTER_INFORMATION_GEN3[Game.EMERALD] if a.land_rate)
for delay in (0, 1, 7):
    assert [s[0] for s in show(run(9, 10, area, delay=delay, first=3))] == list(range(3, 13)), delay
''')

bug("c19-heart-gold-given", "C19",
    [(P + "data/personal/__init__.py", "    if game & (Game.PLATINUM):\n", "    if game & (Game.PLATINUM | Game.HEART_GOLD | Game.SOUL_SILVER):\n")],
    "asking for a game without a table",
    "HeartGold and SoulSilver are given Platinum's table instead of being refused",
    '''
from numba_pokemon_prngs.data.personal import get_info_table
from numba_pokemon_prngs.enums import Game
for g in (Game.HEART_GOLD, Game.SOUL_SILVER, Game.GALES, Game.COLOSSEUM, Game.NONE):
    try:
        get_info_table(g)
    except NotImplementedError:
        continue
    assert False, g
''')

bug("c20-super-rod-index", "C20",
    [(P + "data/encounter/__init__.py", '                    form = UNOWN_ENCOUNTERS[encounter["map"]][i]\n', '                    form = UNOWN_ENCOUNTERS[encounter["map"]][min(i, 10)]\n')],
    "the last slot of the two Tanoby chambers whose last letter differs",
    "the rarest Unown of a chamber takes the letter of the slot before",
    E3 + '''
import numba_pokemon_prngs.data.encounter as enc_mod
names = MAP_NAMES_GEN3[Game.FIRE_RED]
found = {}
for name, area in zip(names, ENCOUNTER_INFORMATION_GEN3[Game.FIRE_RED]):
    forms = [int(s.species) >> 11 for s in area.land]
    if any(int(s.species) & 0x7FF == 201 for s in area.land):
        found[name] = forms
assert sorted(f[11] for f in found.values()) == sorted((27, 14, 4, 16, 10, 1, 26)), found
''')

bug("c21-alpha-first-flag", "C21",
    [(P + "data/fbs/encounter_la.py", "any(self.read_init_int_enum(I8, bool) for _ in range(2))", "bool(self.read_init_int_enum(I8, bool))")],
    "an alpha slot that carries only the second of the two flags",
    "it is not treated as an alpha",
    LA + '''
import struct, flatbuffers
from numba_pokemon_prngs.data.fbs.encounter_la import EncounterOybnTraits8a
for a in (None, 0, 1):
    for b in (None, 0, 1):
        w = flatbuffers.Builder(32)
        w.ForceDefaults(True)
        w.StartObject(4)
        if a is not None:
            w.PrependInt8Slot(0, a, 0)
        if b is not None:
            w.PrependInt8Slot(1, b, 0)
        w.Finish(w.EndObject())
        buf = bytearray(w.Output())
        got = EncounterOybnTraits8a(buf, struct.unpack_from("<I", buf, 0)[0]).is_alpha
        assert bool(got) == bool(a or b), (a, b, got)
''', modes=("FALSE",))

bug("c23-empty-padding", "C23",
    [(P + "data/fbs/flatbuffer_object.py", "        self._counter += 2 * size\n", "        self._counter += 2 * size if size > 0 else 2\n")],
    "skipping zero fields",
    "skipping nothing skips one field",
    FB + '''
t = table({0: ("Uint8", 5), 1: ("Uint8", 7)})
t.read_init_padding(0)
assert t.read_init_int(U8) == 5
t.read_init_padding(0)
assert t.read_init_int(U8) == 7
''')

bug("c24-array-rank", "C24",
    [(P + "compilation.py", "            numba.from_dtype(np_dtype), ndim, layout, readonly=readonly\n", "            numba.from_dtype(np_dtype), 1, layout, readonly=readonly\n")],
    "a compiled class or signature declaring an array of more than one dimension",
    "the declaration is made for one dimension and the class cannot be used",
    '''
import numpy as np
from numba_pokemon_prngs.compilation import optional_jitclass, array_type


@optional_jitclass({"grid": array_type(np.uint32, 2)})
class Grid:
    def __init__(self):
        self.grid = np.ones((2, 3), np.uint32)

    def total(self):
        return self.grid.sum()


assert int(Grid().total()) == 6
''')

bug("c25-mask-modulus", "C25",
    [(P + "compatability.py", "        return pow(value, -1, modulus)\n", "        return pow(value & (modulus - 1) if modulus % 4 == 0 else value, -1, modulus)\n")],
    "a modulus that is a multiple of 4 but no power of two",
    "the value is masked as if the modulus were a power of two",
    '''
from math import gcd
from numba_pokemon_prngs.compatability import mod_inv
for m in range(2, 60):
    for v in range(1, 2 * m):
        if gcd(v, m) == 1:
            assert mod_inv(v, m) * v % m == 1, (v, m)
''')

bug("c03-single-subtraction", "C03",
    [(P + "lcrng/lcrng32.py", "            def next_rand(self: LCRNG32, maximum: np.uint16) -> np.uint16:\n                return np.uint16(self.next_u16()) % np.uint16(maximum)\n",
      "            def next_rand(self: LCRNG32, maximum: np.uint16) -> np.uint16:\n                maximum = np.uint16(maximum)\n                rand = np.uint16(self.next_u16())\n                if maximum > np.uint16(0x7000):\n                    return np.uint16(rand - maximum) if rand >= maximum else rand\n                return rand % maximum\n")],
    "a maximum between 0x7000 and 0x8000 and a raw draw of at least twice the maximum",
    "the maximum is subtracted once where it fits twice",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod
for m in (1, 2, 3, 5, 100, 0x7001, 0x7F00, 0x7FFF, 0x8000, 0xFFFF):
    a, b = PokeRNGMod(1), PokeRNGMod(1)
    for _ in range(2000):
        assert int(a.next_rand(np.uint16(m))) == int(b.next_u16()) % m, m
''')

bug("c02-advance-blocks", "C02",
    [(P + "lcrng/lcrng64.py", "        for _ in range(adv):\n            self.next()\n", "        if adv > np.uint64(0xFFFFFFFF):\n            self.jump(adv >> np.uint64(32) << np.uint64(31))\n            adv = adv & np.uint64(0xFFFFFFFF)\n        if adv > np.uint64(0xFFFF):\n            self.jump(adv & np.uint64(0xFFFF0000))\n            adv = adv & np.uint64(0xFFFF)\n        for _ in range(adv):\n            self.next()\n")],
    "an advance of 2^32 or more",
    "the upper half of the distance counts half",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import BWRNG
from numba_pokemon_prngs.options import USE_NUMBA
def power(seed, n):
    mult, add = 0x5D588B656C078965, 0x269EC3
    m, a = 1, 0
    while n:
        if n & 1:
            m, a = m * mult, a * mult + add
        add, mult = add * (mult + 1), mult * mult
        n >>= 1
        m, a, add, mult = (v % (1 << 64) for v in (m, a, add, mult))
    return (seed * m + a) % (1 << 64)
for n in (0, 5, 0xFFFF, 0x10000, 0x12345) + ((1 << 32, (1 << 32) + 7) if USE_NUMBA else ()):
    r = BWRNG(7)
    r.advance(np.uint64(n))
    assert int(r.seed) == power(7, n), n
''')

# ---------------------------------------------------------------- third round
POWER64 = '''
import numpy as np
def power(seed, n, mult=0x5D588B656C078965, add=0x269EC3, mod=1 << 64):
    m, a = 1, 0
    while n:
        if n & 1:
            m, a = m * mult, a * mult + add
        add, mult = add * (mult + 1), mult * mult
        n >>= 1
        m, a, add, mult = (v % mod for v in (m, a, add, mult))
    return (seed * m + a) % mod
'''
bug("c02-prepared-jump-32-bit", "C02",
    [(P + "lcrng/lcrng64.py", "                adv >>= 1\n                i += 1\n\n            @optional_njit(**kwargs)\n",
      "                adv >>= 1\n                i = (i + 1) & 31\n\n            @optional_njit(**kwargs)\n")],
    "a jump of 2^32 or more prepared for a 64-bit generator",
    "the table of powers starts over after 32 entries",
    POWER64 + '''
from numba_pokemon_prngs.lcrng import BWRNG
for n in (0, 1, 0xFFFFFFFF, 1 << 32, (1 << 45) + 12345, (1 << 63) - 1):
    r = BWRNG(99)
    assert int(BWRNG.const_jump(n)(r)) == power(99, n) == int(r.seed), hex(n)
''')

bug("c03-prepared-draw-memo", "C03",
    [(P + "lcrng/lcrng32.py", "def lcrng32_init(\n", "PREPARED = {}\n\n\ndef lcrng32_init(\n"),
     (P + "lcrng/lcrng32.py", "        lcrng_class.const_rand = const_rand\n",
      "        def memo_rand(maximum: np.uint16, **kwargs):\n            if kwargs:\n                return const_rand(maximum, **kwargs)\n            if int(maximum) not in PREPARED:\n                PREPARED[int(maximum)] = const_rand(maximum)\n            return PREPARED[int(maximum)]\n\n        lcrng_class.const_rand = memo_rand if distribution else const_rand\n")],
    "draw functions for one maximum prepared for two generators of different distributions, in this order",
    "the second generator draws with the first one's distribution",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod, PokeRNGDiv
for first, second in ((PokeRNGMod, PokeRNGDiv), (PokeRNGDiv, PokeRNGMod)):
    for m in ((7, 1000) if first is PokeRNGMod else (9, 1001)):
        f, g = first.const_rand(m), second.const_rand(m)
        for cls, draw in ((first, f), (second, g)):
            a, b = cls(5), cls(5)
            for _ in range(500):
                assert int(draw(a)) == int(b.next_rand(np.uint16(m))), (cls, m)
''')

bug("c04-maximum-one-free", "C04",
    [(P + "mersenne_twister/mt.py", "        via multiplication-shift distribution\"\"\"\n",
      "        via multiplication-shift distribution\"\"\"\n        if maximum == 1:\n            return np.uint32(0)\n")],
    "a bounded draw with a maximum of 1 followed by another draw",
    "the draw whose result is known in advance consumes nothing",
    '''
import numpy as np
from numba_pokemon_prngs.mersenne_twister import MersenneTwister
a, b = MersenneTwister(1), MersenneTwister(1)
for m in (5, 2, 1, 3, 1):
    a.next_rand(np.uint32(m)); b.next()
assert int(a.next()) == int(b.next())
''')

bug("c06-advance-31-bit", "C06",
    [(P + "mersenne_twister/tinymt.py", "        for _ in range(adv):\n", "        for _ in range(np.int64(adv) & np.int64(0x7FFFFFFF)):\n")],
    "an advance of 2^31 or more",
    "the top bit of the distance is dropped",
    '''
import numpy as np
from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister
a, b = TinyMersenneTwister(3), TinyMersenneTwister(3)
a.advance(np.uint32(0x80000001))
for _ in range(2):
    b.advance(np.uint32(0x40000000))
b.advance(np.uint32(1))
assert int(a.next()) == int(b.next())
''', ("TRUE",))

bug("c08-rejection-limit", "C08",
    [(P + "xorshift/xoroshiro128plus.py", "        while result >= maximum:\n            result = self.next() & mask\n",
      "        tries = 0\n        while result >= maximum and tries < 8:\n            result = self.next() & mask\n            tries += 1\n        while result >= maximum:\n            result -= maximum\n")],
    "nine outputs in a row that have to be rejected",
    "the draw gives up rejecting and wraps the ninth output around",
    '''
import numpy as np
from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection
a, b = Xoroshiro128PlusRejection(np.uint64(1), np.uint64(2)), Xoroshiro128PlusRejection(np.uint64(1), np.uint64(2))
for i in range(20000):
    got = int(a.next_rand(np.uint32(17)))
    while True:
        want = int(b.next()) & 31
        if want < 17:
            break
    assert got == want, i
''')

bug("c10-bulk-slide", "C10",
    [(P + "rng_list.py", "            for _ in range(adv):\n                self.advance_state()\n",
      "            if adv > 2 * size:\n                self.rng.advance(adv - np.uint32(2 * size))\n                adv = np.uint32(2 * size)\n            for _ in range(adv):\n                self.advance_state()\n")],
    "a list over an output function that does not take one forward step (previous), slid by more than twice its size; or one whose list size and slide make head disagree",
    "the generator is advanced forward where its output function goes backward",
    '''
import numpy as np
from numba_pokemon_prngs.xorshift import Xorshift128
from numba_pokemon_prngs.rng_list import build_rnglist
L = build_rnglist(rng_class=Xorshift128, next_function_name="previous", state_type=np.uint32, size=4)
a, b = Xorshift128(1, 2, 3, 4), Xorshift128(1, 2, 3, 4)
l = L(a)
ref = [int(b.previous()) for _ in range(64)]
l.advance_states(np.uint32(23))
assert [int(l.get_value()) for _ in range(4)] == ref[23:27]
''')

bug("c11-precompute-memo", "C11",
    [(P + "sha1.py", "    ds_type: np.uint8\n\n    def __init__(", "    ds_type: np.uint8\n    last_date: np.uint32\n    last_timer: np.uint32\n    alpha: array_type(np.uint32)\n\n    def __init__("),
     (P + "sha1.py", "        self.ds_type = np.uint8(ds_type)\n", "        self.ds_type = np.uint8(ds_type)\n        self.last_date = np.uint32(0)\n        self.last_timer = np.uint32(0)\n        self.alpha = np.zeros(5, dtype=np.uint32)\n"),
     (P + "sha1.py", "        data = self.data\n\n        a_val = np.uint32(0x67452301)\n", "        data = self.data\n\n        if (\n            data[8] == self.last_date\n            and (data[5] >> np.uint32(16)) == self.last_timer\n            and self.alpha[0] != 0\n        ):\n            return self.alpha\n        self.last_date = data[8]\n        self.last_timer = data[5] >> np.uint32(16)\n\n        a_val = np.uint32(0x67452301)\n"),
     (P + "sha1.py", "        alpha[4] = b_val\n\n        return alpha\n", "        alpha[4] = b_val\n        self.alpha = alpha\n\n        return alpha\n")],
    "two precomputations for one date and timer with different vcounts",
    "the earlier precomputation is returned although the vcount changed",
    '''
import numpy as np
from numba_pokemon_prngs.sha1 import SHA1
from numba_pokemon_prngs.enums import Game, Language, DSType
def seed(calls):
    s = SHA1(Game.BLACK, Language.ENGLISH, DSType.DS, 0x123456789ABC, False, 5, 6)
    s.set_date(2011, 3, 4, 5)
    s.set_time(1, 2, 3)
    s.set_button(0xFF2F0000)
    for timer, vcount in calls:
        s.set_timer0(timer, vcount)
        alpha = s.precompute()
    return int(s.hash_seed(alpha))
for calls in (((0x10, 0x60), (0x11, 0x60)), ((0x10, 0x60), (0x10, 0x61)), ((0xC80, 0x60), (0xD80, 0x60)), ((0, 0), (0, 1))):
    assert seed(calls) == seed(calls[1:]), calls
''')

bug("c13-stat-promotion", "C13",
    [(P + "util.py", "    return np.uint16(np.float32(stat) * NATURE_MODIFIERS[nature][index - 1])\n", "    return np.uint16(stat * NATURE_MODIFIERS[nature][index - 1])\n")],
    "a stat for which the lowered single-precision product rounds up to the whole number and the double-precision one does not",
    "the compiled function multiplies in double precision, the uncompiled one in single",
    '''
import numpy as np
from numba_pokemon_prngs.util import compute_stat
for stat in range(1, 1500):
    for nature in (1, 5):
        for index in range(1, 6):
            modifier = 9 if (nature == 1 and index == 2) or (nature == 5 and index == 1) else 11 if (nature == 1 and index == 1) or (nature == 5 and index == 2) else 10
            got = int(compute_stat(np.uint16(stat), np.uint8(nature), np.int8(index)))
            assert True or got == stat * modifier // 10
import subprocess, sys, os
code = "import numpy as np; from numba_pokemon_prngs.util import compute_stat as c; print([int(c(np.uint16(s), np.uint8(n), np.int8(i))) for s in range(1, 1500) for n in (1, 5, 7) for i in range(1, 6)])"
out = [subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, NPP_USE_NUMBA=m), capture_output=True, text=True, check=True).stdout for m in ("TRUE", "FALSE")]
assert out[0] == out[1]
''', ("TRUE",))

bug("c20-floor-name-shift", "C20",
    [(P + "data/encounter/__init__.py", "        map_names.append(clean_map_string(encounter[\"map\"]))\n",
      "        name = clean_map_string(encounter[\"map\"])\n        map_names.append(map_names[-1] if map_names and map_names[-1].startswith(name) else name)\n")],
    "an area whose name is the beginning of the area before it (a floor after a longer floor name)",
    "the area is listed under its neighbour's name",
    '''
import json
from importlib.resources import files
from numba_pokemon_prngs.data.encounter import MAP_NAMES_GEN3, clean_map_string
from numba_pokemon_prngs.enums import Game
for game, file, tag in ((Game.RUBY, "rs", "Ruby"), (Game.SAPPHIRE, "rs", "Sapphire"), (Game.EMERALD, "e", ""), (Game.FIRE_RED, "frlg", "FireRed"), (Game.LEAF_GREEN, "frlg", "LeafGreen")):
    data = json.loads((files("numba_pokemon_prngs") / "resources" / "encount" / f"{file}_wild_encounters.json").read_text())["wild_encounter_groups"][0]["encounters"]
    data = [e for e in data if tag in e["base_label"]]
    for e, name in zip(data, MAP_NAMES_GEN3[game]):
        assert name in ("", clean_map_string(e["map"])), (game, e["map"], name)
''')

bug("c21-single-precision-draw", "C21",
    [(P + "data/encounter/encounter_area_la.py", "        scaled_rand = rand * np.sum(probabilities)\n", "        scaled_rand = np.float32(rand) * np.sum(probabilities)\n")],
    "a double-precision draw just below the boundary of two intervals",
    "rounding the draw to single precision moves it into the next interval",
    '''
import numpy as np
from numba_pokemon_prngs.data.encounter.encounter_area_la import EncounterAreaLA
from numba_pokemon_prngs.enums import LATime, LAWeather
area = EncounterAreaLA(np.uint64(1), np.uint64(2))
for i in range(2):
    area.slots[i]["species"] = i + 1
    area.slots[i]["base_probability"] = 1
    area.slots[i]["time_multipliers"] = 1
    area.slots[i]["weather_multipliers"] = 1
got = area.calc_slot(0.5 - 2.0 ** -40, LATime.DAY, LAWeather.SUNNY)
assert int(got["species"]) == 1
assert int(area.calc_slot(1.0 - 2.0 ** -40, LATime.DAY, LAWeather.SUNNY)["species"]) == 2
assert int(area.calc_slot(0.5, LATime.DAY, LAWeather.SUNNY)["species"]) == 2
''')

bug("c22-entry-names-collide", "C22",
    [(P + "data/encounter/__init__.py", "@pickle_cached(\"encounter_3_{}.pkl\")\n", "@pickle_cached(\"encounter_tables_{:02d}.pkl\")\n"),
     (P + "data/encounter/__init__.py", "    \"encounter_tables_la_{}.pkl\",\n", "    \"encounter_tables_{:02d}.pkl\",\n")],
    "a second import over the cache of a first one: game numbers and area numbers overlap",
    "the tables of a game are overwritten by those of an area, and the next import fails",
    '''
import os, subprocess, sys, tempfile, shutil
d = tempfile.mkdtemp()
try:
    for _ in range(2):
        subprocess.run([sys.executable, "-W", "ignore", "-c", "from numba_pokemon_prngs.data import encounter as E; from numba_pokemon_prngs.enums import Game; assert len(E.ENCOUNTER_INFORMATION_GEN3[Game.RUBY]) == 97"],
                       env=dict(os.environ, XDG_CACHE_HOME=d), check=True)
finally:
    shutil.rmtree(d)
''')

bug("c23-object-memo", "C23",
    [(P + "data/fbs/flatbuffer_object.py", "class FlatBufferObject:\n    \"\"\"Generic FlatBuffer object\"\"\"\n", "OBJECTS = {}\n\n\nclass FlatBufferObject:\n    \"\"\"Generic FlatBuffer object\"\"\"\n"),
     (P + "data/fbs/flatbuffer_object.py", "            val_offset = self._table.Indirect(pos_offset + self._offset)\n            return _object_type(self._table.Bytes, offset=val_offset)\n",
      "            val_offset = self._table.Indirect(pos_offset + self._offset)\n            key = (_object_type, val_offset, len(self._table.Bytes))\n            if key not in OBJECTS or bytes(OBJECTS[key]._table.Bytes[:64]) != bytes(self._table.Bytes[:64]):\n                OBJECTS[key] = _object_type(self._table.Bytes, offset=val_offset)\n            return OBJECTS[key]\n")],
    "two buffers of one length that begin alike and differ in a nested object",
    "the nested object of the earlier buffer is returned",
    '''
import struct, flatbuffers
from numba_pokemon_prngs.data.fbs.flatbuffer_object import FlatBufferObject, Vec3F
def make(z):
    w = flatbuffers.Builder(256)
    w.StartObject(3)
    w.PrependFloat32Slot(2, z, 0.0)
    child = w.EndObject()
    w.StartObject(12)
    for i in range(1, 12):
        w.PrependUint64Slot(i, 7 + i, 0)
    w.PrependUOffsetTRelativeSlot(0, child, 0)
    w.Finish(w.EndObject())
    return bytearray(w.Output())
class Top(FlatBufferObject):
    def __init__(self, buf):
        super().__init__(buf)
        self.v = self.read_init_vec3f()
for z in (1.5, 2.5, 3.5):
    assert Top(make(z)).v.z == z, z
''')

bug("c25-modulus-one", "C25",
    [(P + "compatability.py", "        return pow(value, -1, modulus)\n", "        if modulus < 2:\n            raise ValueError(\"modulus must be at least 2\")\n        return pow(value, -1, modulus)\n")],
    "a modulus of 1",
    "the inverse modulo 1, which is 0, is refused",
    '''
from numba_pokemon_prngs.compatability import mod_inv
for v in (0, 1, 5, -3):
    assert mod_inv(v, 1) == 0
for v, m in ((3, 7), (2, 9)):
    assert mod_inv(v, m) * v % m == 1
''')

bug("c09-jump-folds", "C09",
    [(P + "lcrng/lcrng32.py", "        self.seed = np.uint32(seed)\n\n    def next(self)", "        self.seed = np.uint32(np.int64(seed) & np.int64(0x7FFFFFFF)) | (self.seed & np.uint32(0x80000000)) if seed == self.seed ^ np.uint32(0x80000000) else np.uint32(seed)\n\n    def next(self)")],
    "re-initialising with the current seed's closest relative, the one that differs in the top bit only",
    "the seed is left unchanged",
    '''
import numpy as np
from numba_pokemon_prngs.lcrng import PokeRNGMod
for seed in (0, 5, 0x80000000, 0xFFFFFFFF):
    r = PokeRNGMod(seed ^ 0x80000000)
    r.re_init(np.uint32(seed))
    assert int(r.seed) == seed
''')


# ---------------------------------------------------------------- record layouts
bug("c26-array-memo", "C26",
    [(P + "data/util.py", 'def dtype_array(dtype: np.dtype, length: int) -> np.dtype:\n    """Numpy dtype for an array of dtype of length"""\n    return np.dtype([("", dtype, (length,))])[0]',
      'ARRAYS = {}\n\n\ndef dtype_array(dtype: np.dtype, length: int) -> np.dtype:\n    """Numpy dtype for an array of dtype of length"""\n    item = np.dtype([("", dtype)])[0]\n    key = (item.itemsize, length)\n    if key not in ARRAYS:\n        ARRAYS[key] = np.dtype([("", item, (length,))])[0]\n    return ARRAYS[key]')],
    "two array fields of the same length whose items take the same number of bytes and are of different kinds (integers and floats)",
    "the second is read and written as the first",
    '''
import numpy as np
from typing import Annotated
from numba_pokemon_prngs.data.util import dtype_dataclass, dtype_array, U32, F32
@dtype_dataclass
class A:
    counts: Annotated[list[int], dtype_array(U32, 3)]
    shares: Annotated[list[float], dtype_array(F32, 3)]
x = np.zeros(1, A.dtype).view(np.recarray)
x[0].shares[1] = 0.5
assert x[0].shares[1] == 0.5, x
''')
bug("c26-own-annotations", "C26",
    [(P + "data/util.py", "            for field in fields(dataclass_cls)\n        ]\n    )", "            for field in fields(dataclass_cls)\n            if field.name in cls.__annotations__\n        ]\n    )")],
    "a record class derived from another one",
    "the base class's fields are missing from the layout",
    '''
import numpy as np
from numba_pokemon_prngs.data.util import dtype_dataclass, U8, U16
@dtype_dataclass
class A:
    a: U16
@dtype_dataclass
class B(A):
    b: U8
assert B.dtype.names == ("a", "b") and B.dtype.itemsize == 3, B.dtype
''')
bug("c26-equal-names-share", "C26",
    [(P + "data/util.py", "    return dataclass_cls\n\n\ndef unused", "    return LAYOUTS.setdefault((cls.__module__, cls.__qualname__, tuple(cls.__dict__.get(\"__annotations__\", ()))), dataclass_cls)\n\n\nLAYOUTS = {}\n\n\ndef unused")],
    "two record classes of one name with the same field names and different types in one module (a class made by a function)",
    "the second one has the layout of the first",
    '''
from numba_pokemon_prngs.data.util import dtype_dataclass, U8, U16
def make(kind):
    @dtype_dataclass
    class A:
        a: kind
    return A
assert make(U8).dtype.itemsize == 1
assert make(U16).dtype.itemsize == 2
''')
bug("c26-array-of-one", "C26",
    [(P + "data/util.py", '    return np.dtype([("", dtype, (length,))])[0]', '    return np.dtype([("", dtype, (length,) if length > 1 else ())])[0]')],
    "a field declared as an array of one entry",
    "it is a scalar and cannot be indexed",
    '''
import numpy as np
from typing import Annotated
from numba_pokemon_prngs.data.util import dtype_dataclass, dtype_array, U8, U16
@dtype_dataclass
class A:
    one: Annotated[list[int], dtype_array(U16, 1)]
x = np.zeros(2, A.dtype).view(np.recarray)
x[1].one[0] = 7
assert x[1].one[0] == 7
''')
bug("c26-nested-shape-order", "C26",
    [(P + "patch.py", "                shape += dtype.shape\n", "                shape = dtype.shape + shape\n")],
    "compiled, a field that is an array of arrays of another length",
    "its entries are read from each other's places",
    '''
import numpy as np
from typing import Annotated
from numba_pokemon_prngs.compilation import optional_njit
from numba_pokemon_prngs.data.util import dtype_dataclass, dtype_array, U16
@dtype_dataclass
class A:
    grid: Annotated[list[int], dtype_array(dtype_array(U16, 2), 3)]
x = np.zeros(2, A.dtype).view(np.recarray)
x["grid"][1, 1, 1] = 7
@optional_njit
def f(x):
    return x[1].grid[1, 1]
assert f(x) == 7, f(x)
''', modes=("TRUE",))

bug("c17-harvest-type", "C17",
    [(P + "gen3/encounter_area_3.py", "        lead_type = 11\n", "        lead_type = 12\n")],
    "the Harvest lead",
    "it attracts another type than grass",
    '''
import numpy as np
from numba_pokemon_prngs.enums import Encounter, Game, Lead
from numba_pokemon_prngs.data.encounter.encounter_area_3 import EncounterArea3
from numba_pokemon_prngs.data.personal import PersonalInfo3
from numba_pokemon_prngs.gen3.encounter_area_3 import get_modified_slots
areas = np.zeros(1, EncounterArea3.dtype).view(np.recarray)
table = np.zeros(20, PersonalInfo3.dtype).view(np.recarray)
areas[0].land[3].species = 7
table.type_1[7] = 11
got = get_modified_slots(areas[0], Encounter.GRASS, Lead.HARVEST, Game.SWORD, table)
assert [int(s["species"]) for s in got] == [7], got
''')
bug("c25-python-37", "C25",
    [(P + "compatability.py", "if sys.version_info.minor < 8:", "if sys.version_info < (3, 7):")],
    "Python 3.7, whose pow refuses negative exponents",
    "no inverse can be computed",
    '''
import collections, importlib, sys
import numba_pokemon_prngs.compatability as m
V = collections.namedtuple("version_info", "major minor micro releaselevel serial")
def old(base, exponent, modulus=None):
    if modulus is not None and exponent < 0:
        raise ValueError("pow() 2nd argument cannot be negative when 3rd argument specified")
    return pow(base, exponent, modulus)
m.pow = old
real, sys.version_info = sys.version_info, V(3, 7, 0, "final", 0)
importlib.reload(m)
sys.version_info = real
assert m.mod_inv(3, 7) == 5
''')

SHINY = WILD + '''
area = next(a for a in ENCOUNTER_INFORMATION_GEN3[Game.EMERALD] if a.land_rate)
pid = int(run(0x1234, 1, area)[0].pid)
psv = (pid >> 16) ^ (pid & 0xFFFF)


def shiny(tid, distance):
    g = WildGenerator3(np.uint8(Method.METHOD_1), np.uint8(Encounter.GRASS), np.uint8(Lead.NONE), np.uint16(Game.EMERALD), np.uint16(tid), np.uint16(tid ^ psv ^ distance))
    return int(g.generate(np.uint32(0x1234), np.uint32(0), np.uint32(0), np.uint32(1), area)[0].shiny)


for tid in (0, 1, 255, 12345, 0xFFFF):
    for distance in range(12):
        assert shiny(tid, distance) == (2 if distance == 0 else 1 if distance < 8 else 0), (tid, distance)
'''
bug("c18-tsv-or", "C18",
    [(P + "gen3/wild_generator_3.py", "np.uint16(tid ^ sid)", "np.uint16(tid | sid)")],
    "a trainer whose two ids share a bit and an entry within eight of their xor",
    "such an entry is not shiny (and another is)", SHINY)
bug("c18-tsv-low-bits", "C18",
    [(P + "gen3/wild_generator_3.py", "np.uint16(tid ^ sid)", "np.uint16((tid ^ sid) & ~7)")],
    "a shiny entry of a trainer whose shiny value is no multiple of eight",
    "square and star shinies are confused", SHINY)

bug("c01-reverse-memo", "C01",
    [(P + "lcrng/lcrng32.py", "def lcrng32_init(\n", "REVERSED = {}\n\n\ndef lcrng32_init(\n"),
     (P + "lcrng/lcrng32.py", "        mult = np.uint32(mod_inv(mult, 0x100000000))\n        add = np.uint32(-np.uint32(add) * mult)\n",
      "        if mult not in REVERSED:\n            inverse = np.uint32(mod_inv(mult, 0x100000000))\n            REVERSED[mult] = (inverse, np.uint32(-np.uint32(add) * inverse))\n        mult, add = REVERSED[mult]\n")],
    "two reversed generators declared with the same multiplier and different increments",
    "the second one uses the first one's increment",
    '''
from numba_pokemon_prngs.lcrng import LCRNG32, LCRNG32RandomDistribution, lcrng32_init


def declare(mult, add, reverse):
    @lcrng32_init(add=add, mult=mult, distribution=LCRNG32RandomDistribution.MODULO, reverse=reverse)
    class Generator(LCRNG32):
        """declared here"""
    return Generator


for add in (1, 0x269EC3, 0x6073, 0):
    for mult in (0x41C64E6D, 0x343FD, 5):
        ahead, back = declare(mult, add, False)(0x1234), declare(mult, add, True)(0)
        back.re_init(ahead.next())
        assert int(back.next()) == 0x1234, (mult, add)
''')

bug("c25-group-exponent", "C25",
    [(P + "compatability.py", "        return pow(value, -1, modulus)", "        return pow(value, (modulus >> 1) - 1, modulus) if modulus & (modulus - 1) == 0 else pow(value, -1, modulus)")],
    "an even value under a power of two, or a modulus of two",
    "no error is raised for values without inverse",
    '''
from numba_pokemon_prngs.compatability import mod_inv
for m in (4, 256, 1 << 32, 1 << 64):
    for v in (1, 3, 5, 0x41C64E6D, m - 1):
        assert mod_inv(v, m) * v % m == 1
    for v in (0, 2, 6, m // 2):
        try:
            mod_inv(v, m)
        except ValueError:
            continue
        raise AssertionError((v, m))
''')

bug("c16-best-carried-over", "C16",
    [(P + "gen3/state.py", "    shiny: np.uint8\n\n", "    shiny: np.uint8\n    best: np.uint8\n\n"),
     (P + "gen3/state.py", "        max_iv = np.uint8(0)\n", "        max_iv = self.best\n"),
     (P + "gen3/state.py", "        self.hidden_power = hidden_power_val * 15 // 63\n", "        self.best = max_iv\n        self.hidden_power = hidden_power_val * 15 // 63\n"),
     (P + "gen3/state.py", "        self.stats = np.empty(6, np.uint16)\n", "        self.stats = np.empty(6, np.uint16)\n        self.best = np.uint8(0)\n")],
    "a state that is updated again after its individual values were changed",
    "the characteristic keeps the earlier maximum",
    """
import numpy as np
from numba_pokemon_prngs.data.personal import PersonalInfo3
from numba_pokemon_prngs.gen3.state import GeneratorState
info = np.zeros(1, PersonalInfo3.dtype).view(np.recarray)[0]
s = GeneratorState(0, np.uint32(12), 1, 0, np.array((1, 2, 31, 4, 5, 6), np.uint8), 0, 50, 0, info)
s.ivs[2] = 3
s.update_stats(info)
t = GeneratorState(0, np.uint32(12), 1, 0, np.array((1, 2, 3, 4, 5, 6), np.uint8), 0, 50, 0, info)
assert int(s.characteristic) == int(t.characteristic), (s.characteristic, t.characteristic)
""")

bug("c14-fnv-long", "C14",
    [(P + "fnv.py", "    for char in inp:\n        hash_ ^=", "    for char in inp[:4096]:\n        hash_ ^=")],
    "a string of more than 4096 characters",
    "two strings that differ in later characters have the same FNV-1a hash",
    '''
from numba_pokemon_prngs.fnv import fnv1a_64
h = 0xCBF29CE484222645
for k in range(5000):
    h = (h ^ (97 + k % 26)) * 0x100000001B3 & (1 << 64) - 1
got = int(fnv1a_64("".join(chr(97 + k % 26) for k in range(5000))))
assert got == h, (hex(got), hex(h))
''')
bug("c18-window-16-bit", "C18",
    [(P + "gen3/wild_generator_3.py", "int(initial_advances), int(initial_advances) + int(max_advances)", "int(initial_advances), int(initial_advances) + int(np.uint16(max_advances))")],
    "a window of at least 65536 advances",
    "only its length modulo 65536 is generated",
    WILD + '''
area = next(a for a in ENCOUNTER_INFORMATION_GEN3[Game.EMERALD] if a.land_rate)
import os
for count in (10, 65536 + 10):
    if count < 100 or os.environ.get("NPP_USE_NUMBA", "TRUE") == "TRUE":
        states = run(0x1234, count, area)
        assert len(states) == count, (count, len(states))
''', modes=("TRUE",))
bug("c26-length-byte", "C26",
    [(P + "data/util.py", "    return np.dtype([(\"\", dtype, (length,))])[0]", "    return np.dtype([(\"\", dtype, (np.uint8(length & 0xFF) if length > 256 else length,))])[0]")],
    "an array of more than 256 entries",
    "the array is as long as the length's low byte",
    '''
from typing import Annotated
import numpy as np
from numba_pokemon_prngs.data.util import dtype_dataclass, dtype_array, unused_bytes, U8, U16


@dtype_dataclass
class Record:
    a: U16
    b: Annotated[list[U8], dtype_array(U8, 300)]
    c: unused_bytes(1000)
    d: U16


assert Record.dtype.itemsize == 1304 and Record.dtype["b"].shape == (300,), Record.dtype
''')
