"""Reference machines of the generators, written from their publications.

The functions work on sequences of plain non-negative integers: Python lists (uncompiled harness
tasks) or int64 arrays (compiled harness tasks, through `compiled()`), with the same results.
"""

M32 = 0xFFFFFFFF


def mt_init(seed, st):
    """init_genrand of MT19937 (also the initialisation of SFMT19937 before certification)"""
    st[0] = seed
    for i in range(1, 624):
        p = st[i - 1]
        st[i] = (1812433253 * (p ^ (p >> 30)) + i) & 0xFFFFFFFF


def mt_block(st):
    """the next 624 words of the recurrence, in place"""
    for i in range(624):
        y = (st[i] & 0x80000000) | (st[(i + 1) % 624] & 0x7FFFFFFF)
        v = st[(i + 397) % 624] ^ (y >> 1)
        if y & 1:
            v ^= 0x9908B0DF
        st[i] = v


def mt_temper(y):
    y ^= y >> 11
    y ^= (y << 7) & 0x9D2C5680
    y ^= (y << 15) & 0xEFC60000
    return y ^ (y >> 18)


def sfmt_init(seed, st):
    mt_init(seed, st)
    # period certification vector (1, 0, 0, 0x13c9e684)
    v = (st[0] & 1) ^ (st[3] & 0x13C9E684)
    par = 0
    while v:
        par ^= v & 1
        v >>= 1
    if par == 0:
        st[0] ^= 1


def sfmt_block(st):
    """SFMT19937: N=156, POS1=122, SL1=18, SL2=1, SR1=11, SR2=1"""
    for i in range(156):
        a, b, c, d = 4 * i, 4 * ((i + 122) % 156), 4 * ((i + 154) % 156), 4 * ((i + 155) % 156)
        a0, a1, a2, a3 = st[a], st[a + 1], st[a + 2], st[a + 3]
        c0, c1, c2, c3 = st[c], st[c + 1], st[c + 2], st[c + 3]
        st[a] = (a0 ^ (a0 << 8) ^ ((st[b] >> 11) & 0xDFFFFFEF) ^ (c0 >> 8) ^ (c1 << 24) ^ (st[d] << 18)) & 0xFFFFFFFF
        st[a + 1] = (a1 ^ (a1 << 8) ^ (a0 >> 24) ^ ((st[b + 1] >> 11) & 0xDDFECB7F) ^ (c1 >> 8) ^ (c2 << 24)
                     ^ (st[d + 1] << 18)) & 0xFFFFFFFF
        st[a + 2] = (a2 ^ (a2 << 8) ^ (a1 >> 24) ^ ((st[b + 2] >> 11) & 0xBFFAFFFF) ^ (c2 >> 8) ^ (c3 << 24)
                     ^ (st[d + 2] << 18)) & 0xFFFFFFFF
        st[a + 3] = (a3 ^ (a3 << 8) ^ (a2 >> 24) ^ ((st[b + 3] >> 11) & 0xBFFFFFF6) ^ (c3 >> 8)
                     ^ (st[d + 3] << 18)) & 0xFFFFFFFF


def tiny_next(st):
    """tinymt32_next_state with mat1=8f7011ee, mat2=fc78ff1f"""
    y = st[3]
    x = (st[0] & 0x7FFFFFFF) ^ st[1] ^ st[2]
    x = (x ^ (x << 1)) & 0xFFFFFFFF
    y = y ^ (y >> 1) ^ x
    st[0] = st[1]
    st[1] = st[2]
    st[2] = (x ^ (y << 10)) & 0xFFFFFFFF
    st[3] = y
    if y & 1:
        st[1] ^= 0x8F7011EE
        st[2] ^= 0xFC78FF1F


def tiny_temper(st):
    t0 = st[3]
    t1 = (st[0] + (st[2] >> 8)) & 0xFFFFFFFF
    t0 ^= t1
    if t1 & 1:
        t0 ^= 0x3793FDFF
    return t0


def tiny_init(seed, st):
    st[0], st[1], st[2], st[3] = seed, 0x8F7011EE, 0xFC78FF1F, 0x3793FDFF
    for i in range(1, 8):
        p = st[(i - 1) % 4]
        st[i % 4] ^= (i + 1812433253 * (p ^ (p >> 30))) & 0xFFFFFFFF
    if (st[0] & 0x7FFFFFFF) == 0 and st[1] == 0 and st[2] == 0 and st[3] == 0:
        st[0], st[1], st[2], st[3] = 84, 73, 78, 89
    for _ in range(8):
        tiny_next(st)


def compiled():
    """the same functions compiled (only where numba is in use); returns a namespace"""
    import types
    from numba import njit
    ns, out = {"__name__": "refs_compiled"}, types.SimpleNamespace()
    for name in ("mt_init", "mt_block", "mt_temper", "sfmt_init", "sfmt_block", "tiny_next", "tiny_temper", "tiny_init"):
        f = globals()[name]
        g = njit(nogil=True)(types.FunctionType(f.__code__, ns, name))
        ns[name] = g
        setattr(out, name, g)
    return out


# ---- streams in plain Python (used by the histories of several checks) ----

class Stream:
    """The unbounded output sequence of one seed, generated block by block and remembered."""

    def __init__(self):
        self.out = []

    def at(self, i):
        while i >= len(self.out):
            self.more()
        return self.out[i]

    def window(self, lo, hi):
        self.at(hi)
        return self.out[lo:hi]


class MTStream(Stream):
    def __init__(self, seed, state=None):
        super().__init__()
        self.st = [0] * 624
        if state is None:
            mt_init(seed, self.st)
        else:
            self.st = list(state)

    def more(self):
        mt_block(self.st)
        self.out += [mt_temper(v) for v in self.st]


class SFMTStream(Stream):
    def __init__(self, seed, state=None):
        super().__init__()
        self.st = [0] * 624
        if state is None:
            sfmt_init(seed, self.st)
        else:
            self.st = list(state)

    def more(self):
        sfmt_block(self.st)
        self.out += [self.st[i] | (self.st[i + 1] << 32) for i in range(0, 624, 2)]


class TinyStream(Stream):
    def __init__(self, seed, state=None):
        super().__init__()
        self.st = [0] * 4
        if state is None:
            tiny_init(seed, self.st)
        else:
            self.st = list(state)

    def more(self):
        tiny_next(self.st)
        self.out.append(tiny_temper(self.st))


class LCGStream(Stream):
    """states after 1, 2, ... steps"""

    def __init__(self, seed, pair, bits):
        super().__init__()
        self.s, self.pair, self.mask = seed, pair, (1 << bits) - 1

    def more(self):
        self.s = (self.s * self.pair[0] + self.pair[1]) & self.mask
        self.out.append(self.s)


def rotl(v, n):
    return ((v << n) | (v >> (64 - n))) & 0xFFFFFFFFFFFFFFFF


def xoro_step(s0, s1):
    s1 ^= s0
    return (rotl(s0, 24) ^ s1 ^ (s1 << 16)) & 0xFFFFFFFFFFFFFFFF, rotl(s1, 37)


def splitmix(seed):
    """the first two outputs of splitmix64"""
    out, x = [], seed
    for _ in range(2):
        x = (x + 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF
        z = x
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        out.append(z ^ (z >> 31))
    return tuple(out)


class XoroStream(Stream):
    def __init__(self, s0, s1, shift=0):
        super().__init__()
        self.s, self.shift = (s0, s1), shift

    def more(self):
        self.out.append(((self.s[0] + self.s[1]) & 0xFFFFFFFFFFFFFFFF) >> self.shift)
        self.s = xoro_step(*self.s)


def xs128_step(s):
    t = s[0]
    t ^= (t << 11) & M32
    t ^= t >> 8
    t ^= s[3] ^ (s[3] >> 19)
    return (s[1], s[2], s[3], t)


class XS128Stream(Stream):
    def __init__(self, *s):
        super().__init__()
        self.s = s

    def more(self):
        self.s = xs128_step(self.s)
        self.out.append(self.s[3])


def self_check():
    """published test vectors of the references themselves"""
    import numpy as np
    bg = np.random.MT19937()
    for seed in (0, 1, 5489, 0xFFFFFFFF):
        bg._legacy_seeding(seed)
        assert MTStream(seed).window(0, 1300) == [int(v) for v in bg.random_raw(1300)]
    s = SFMTStream(1234)
    words = []
    for v in s.window(0, 3):
        words += [v & M32, v >> 32]
    assert words[:5] == [3440181298, 1564997079, 1510669302, 2930277156, 1452439940], words
    assert TinyStream(1).window(0, 5) == [2545341989, 981918433, 3715302833, 2387538352, 3591001365]
    x = XoroStream(1, 2)
    assert x.window(0, 3) == [3, 412333834243, 2360170716294286339], x.window(0, 3)
    assert splitmix(0) == (0xE220A8397B1DCDAF, 0x6E789E6AA1B965F4)


def xs128_back(s):
    """the state one step before, by undoing the shifts bit group by bit group"""
    y = s[3] ^ s[2] ^ (s[2] >> 19)
    a = y
    for _ in range(4):
        a = y ^ (a >> 8)
    b = a
    for _ in range(3):
        b = (a ^ (b << 11)) & M32
    return (b, s[0], s[1], s[2])


def rotr(v, n):
    return rotl(v, 64 - n)


def xoro_back(s0, s1):
    d = rotr(s1, 37)
    a = rotr((s0 ^ d ^ (d << 16)) & 0xFFFFFFFFFFFFFFFF, 24)
    return a, a ^ d


class TwoWay:
    """A stream with a past: out(i) for any integer i (i=0 is the next output)."""

    def __init__(self, state, step, back, value):
        self.states, self.first, self.last = {0: state}, 0, 0
        self.step, self.back, self.value = step, back, value

    def state(self, i):
        states = self.states
        if i not in states:
            j = self.last if i > 0 else self.first
            while i > j:
                states[j + 1] = self.step(states[j])
                j += 1
                self.last = j
            while i < j:
                states[j - 1] = self.back(states[j])
                j -= 1
                self.first = j
        return states[i]

    def at(self, i):
        return self.value(self, i)


def xs128_two_way(*s):
    return TwoWay(tuple(s), xs128_step, xs128_back, lambda w, i: w.state(i + 1)[3])


def xoro_two_way(s0, s1, shift):
    return TwoWay((s0, s1), lambda s: xoro_step(*s), lambda s: xoro_back(*s),
                  lambda w, i: (sum(w.state(i)) & 0xFFFFFFFFFFFFFFFF) >> shift)
