"""Every generator class of the package with its operations and its ideal machine.

A machine pairs operations of the real object with their meaning on a model that holds nothing but
the seed and the number of outputs consumed so far. `Op.real(obj)` and `Op.model(m)` return the
values to compare.
"""
import functools
import numpy as np
from vlib import lcgs, refs


class Op:
    def __init__(self, label, real, model, code):
        self.label, self.real, self.model, self.code = label, real, model, code

    def __repr__(self):
        return self.label


class Machine:
    def __init__(self, name, new, model, ops, imports, make):
        self.name, self.new, self.model, self.ops = name, new, model, ops
        self.imports, self.make = imports, make  # text for stand-alone programs

    def probe(self, obj, m, n=2):
        """the next n outputs of both"""
        return [int(obj.next()) for _ in range(n)], [m.out() for _ in range(n)]

    def program(self, ops, seed_index=0):
        lines = [self.imports, "import numpy as np", f"rng = {self.make(seed_index)}", "results = []"]
        for op in ops:
            lines.append(f"results.append({op.code})")
        lines += ["results.append(rng.next())", "results = [None if r is None else int(r) for r in results]"]
        return "\n".join(lines)


@functools.lru_cache(maxsize=None)
def composed(pair, n, bits):
    return lcgs.compose(pair, n, bits)


class LCGModel:
    """position in an LCG's orbit, as the state itself"""

    def __init__(self, seed, pair, bits):
        self.s, self.pair, self.bits = seed, pair, bits

    def key(self):
        return self.s

    def skip(self, n):
        a, c = composed(self.pair, n, self.bits)
        self.s = (self.s * a + c) & ((1 << self.bits) - 1)
        return self.s

    def out(self):
        return self.skip(1)

    def top(self):
        return self.skip(1) >> (self.bits // 2)

    def reset(self, seed):
        self.s = seed


class StreamModel:
    """position in a remembered stream"""
    cache = {}

    def __init__(self, make, seed):
        self.make, self.cache = make, {}
        self.reset(seed)

    def reset(self, seed):
        key = (self.make, seed)
        if key not in StreamModel.cache:
            StreamModel.cache[key] = self.make(*seed) if isinstance(seed, tuple) else self.make(seed)
        self.stream, self.pos, self.seed = StreamModel.cache[key], 0, seed

    def key(self):
        return self.seed, self.pos

    def out(self):
        self.pos += 1
        return self.stream.at(self.pos - 1)

    def skip(self, n):
        self.pos += n

    def back(self):
        self.pos -= 1
        return self.stream.at(self.pos)


def lcg(name, big=False):
    import numba_pokemon_prngs.lcrng as L
    bits, pair, dist, _i = lcgs.CLASSES[name]
    cls = getattr(L, name)
    T = np.uint32 if bits == 32 else np.uint64
    H = np.uint16 if bits == 32 else np.uint32
    t, h = f"np.{T.__name__}", f"np.{H.__name__}"
    seeds = [0x12345678 * (1 if bits == 32 else 0x100000001), (1 << bits) - 2]
    half = "next_u16" if bits == 32 else "next_u32"
    ops = [Op("next()", lambda g: g.next(), lambda m: m.out(), "rng.next()"),
           Op(f"{half}()", lambda g: getattr(g, half)(), lambda m: m.top(), f"rng.{half}()")]

    def add_skip(label, real, n, code):
        ops.append(Op(label, real, lambda m: m.skip(n), code))
    for n in (0, 3):
        add_skip(f"advance({n})", lambda g, n=n: g.advance(T(n)), n, f"rng.advance({t}({n}))")
    for n in (0, 1, 6, (1 << (bits - 1)) + 5):
        add_skip(f"jump({n})", lambda g, n=n: g.jump(T(n)), n, f"rng.jump({t}({n}))")
    for n in (0, 10, (1 << bits) - 3):
        f = cls.const_jump(n)
        add_skip(f"const_jump({n})", lambda g, f=f: f(g), n, f"{name}.const_jump({n})(rng)")
    for k in (1, 100):
        ops.append(Op(f"next_rand({k})", lambda g, k=k: g.next_rand(H(k)), lambda m, k=k: lcgs.rand(dist, m.top(), k), f"rng.next_rand({h}({k}))"))
    f = cls.const_rand(25)
    ops.append(Op("const_rand(25)", lambda g: f(g), lambda m: lcgs.rand(dist, m.top(), 25), f"{name}.const_rand(25)(rng)"))
    for s in (seeds[0], 5):
        ops.append(Op(f"re_init({s})", lambda g, s=s: g.re_init(T(s)), lambda m, s=s: m.reset(s), f"rng.re_init({t}({s}))"))
    return Machine(name, lambda i: cls(T(seeds[i])), lambda i: LCGModel(seeds[i], pair, bits), ops,
                   f"from numba_pokemon_prngs.lcrng import {name}", lambda i: f"{name}({t}({seeds[i]}))")


def block(kind):
    from numba_pokemon_prngs import mersenne_twister as M
    cls, stream, per = {"mt": (M.MersenneTwister, refs.MTStream, 624), "sfmt": (M.SIMDFastMersenneTwister, refs.SFMTStream, 312),
                        "tiny": (M.TinyMersenneTwister, refs.TinyStream, 9)}[kind]
    seeds = [4321, 0xFFFFFFFF]
    T = np.uint64 if kind == "sfmt" else np.uint32
    ops = [Op("next()", lambda g: g.next(), lambda m: m.out(), "rng.next()")]
    for n in (0, 1, per // 2, per - 1, per, per + 1):
        ops.append(Op(f"advance({n})", lambda g, n=n: g.advance(np.uint32(n)), lambda m, n=n: m.skip(n), f"rng.advance(np.uint32({n}))"))
    k = 1000003
    if kind == "sfmt":
        ops.append(Op(f"next_rand({k})", lambda g: g.next_rand(T(k)), lambda m: m.out() % k, f"rng.next_rand(np.uint64({k}))"))
    else:
        ops.append(Op(f"next_rand({k})", lambda g: g.next_rand(T(k)), lambda m: (m.out() * k) >> 32, f"rng.next_rand(np.uint32({k}))"))
        ops.append(Op(f"next_rand_mod({k})", lambda g: g.next_rand_mod(T(k)), lambda m: m.out() % k, f"rng.next_rand_mod(np.uint32({k}))"))
    for s in (seeds[0], 1):
        ops.append(Op(f"re_init({s})", lambda g, s=s: g.re_init(np.uint32(s)), lambda m, s=s: m.reset(s), f"rng.re_init(np.uint32({s}))"))
    name = cls.__name__
    name = {"mt": "MersenneTwister", "sfmt": "SIMDFastMersenneTwister", "tiny": "TinyMersenneTwister"}[kind]
    return Machine(name, lambda i: cls(np.uint32(seeds[i])), lambda i: StreamModel(stream, seeds[i]), ops,
                   f"from numba_pokemon_prngs.mersenne_twister import {name}", lambda i: f"{name}(np.uint32({seeds[i]}))")


def xs128_stream(*s):
    return refs.xs128_two_way(*s)


def rejection_stream(a, b):
    return refs.xoro_two_way(a, b, 0)


def splitmix_stream(seed):
    return refs.xoro_two_way(*refs.splitmix(seed), 32)


def shift(kind):
    from numba_pokemon_prngs import xorshift as X
    U, W = np.uint64, np.uint32
    ops = [Op("next()", lambda g: g.next(), lambda m: m.out(), "rng.next()"),
           Op("previous()", lambda g: g.previous(), lambda m: m.back(), "rng.previous()")]
    for n in (0, 4):
        ops.append(Op(f"advance({n})", lambda g, n=n: g.advance(n), lambda m, n=n: m.skip(n), f"rng.advance({n})"))
    if kind == "xs128":
        name, cls, stream = "Xorshift128", X.Xorshift128, xs128_stream
        seeds = [(1, 2, 3, 4), (0xFFFFFFFF, 0, 0x80000000, 7)]
        make = lambda i: f"Xorshift128{seeds[i]}"
        new = lambda i: cls(*(W(v) for v in seeds[i]))
        ops.append(Op("next_rand(77)", lambda g: g.next_rand(W(77)), lambda m: m.out() % 77, "rng.next_rand(np.uint32(77))"))
        ops.append(Op("next_randrange(-5, 9)", lambda g: g.next_randrange(-5, 9), lambda m: (m.out() % 14 - 5) & 0xFFFFFFFF, "rng.next_randrange(-5, 9)"))
        ops.append(Op("next_alternate_rand(50)", lambda g: g.next_alternate_rand(W(50)),
                      lambda m: ((m.out() % 0xFFFFFFFF + 0x80000000) & 0xFFFFFFFF) % 50, "rng.next_alternate_rand(np.uint32(50))"))
        ops.append(Op("next_float_randrange", lambda g: round(float(g.next_float_randrange(0.0, 1.0)) * 0x7FFFFF),
                      lambda m: 0x7FFFFF - (m.out() & 0x7FFFFF), "round(float(rng.next_float_randrange(0.0, 1.0)) * 0x7FFFFF)"))
        for s in (seeds[0], (0, 0, 0, 1)):
            ops.append(Op(f"re_init{s}", lambda g, s=s: g.re_init(*(W(v) for v in s)), lambda m, s=s: m.reset(s), f"rng.re_init{s}"))
    elif kind == "rejection":
        name, cls, stream = "Xoroshiro128PlusRejection", X.Xoroshiro128PlusRejection, rejection_stream
        seeds = [(123456789, 0x82A2B175229D6A5B), (0xFFFFFFFFFFFFFFFF, 1)]
        make = lambda i: f"Xoroshiro128PlusRejection(np.uint64({seeds[i][0]}), np.uint64({seeds[i][1]}))"
        new = lambda i: cls(U(seeds[i][0]), U(seeds[i][1]))

        def draw(m, k):
            mask = (1 << (k - 1).bit_length()) - 1
            while True:
                v = m.out() & mask
                if v < k:
                    return v
        for k in (1, 33):
            ops.append(Op(f"next_rand({k})", lambda g, k=k: g.next_rand(W(k)), lambda m, k=k: draw(m, k), f"rng.next_rand(np.uint32({k}))"))
        for s in (seeds[0][0], 42):
            ops.append(Op(f"re_init({s})", lambda g, s=s: g.re_init(U(s)), lambda m, s=s: m.reset((s, 0x82A2B175229D6A5B)), f"rng.re_init(np.uint64({s}))"))
        ops.append(Op("re_init(7, 8)", lambda g: g.re_init(U(7), U(8)), lambda m: m.reset((7, 8)), "rng.re_init(np.uint64(7), np.uint64(8))"))
    else:
        name, cls, stream = "SplitMixXoroshiro128Plus", X.SplitMixXoroshiro128Plus, splitmix_stream
        seeds = [99, 0xFFFFFFFFFFFFFFFF]
        make = lambda i: f"SplitMixXoroshiro128Plus(np.uint64({seeds[i]}))"
        new = lambda i: cls(U(seeds[i]))
        for k in (1, 1000):
            ops.append(Op(f"next_rand({k})", lambda g, k=k: g.next_rand(W(k)), lambda m, k=k: m.out() % k, f"rng.next_rand(np.uint32({k}))"))
        for s in (seeds[0], 3):
            ops.append(Op(f"re_init({s})", lambda g, s=s: g.re_init(U(s)), lambda m, s=s: m.reset(s), f"rng.re_init(np.uint64({s}))"))
    return Machine(name, new, lambda i: StreamModel(stream, seeds[i]), ops, f"from numba_pokemon_prngs.xorshift import {name}", make)


BLOCKS = {"MersenneTwister": "mt", "SIMDFastMersenneTwister": "sfmt", "TinyMersenneTwister": "tiny"}
SHIFTS = {"Xorshift128": "xs128", "Xoroshiro128PlusRejection": "rejection", "SplitMixXoroshiro128Plus": "splitmix"}
NAMES = list(lcgs.CLASSES) + list(BLOCKS) + list(SHIFTS)


def get(name):
    if name in BLOCKS:
        return block(BLOCKS[name])
    if name in SHIFTS:
        return shift(SHIFTS[name])
    return lcg(name)


def value(v):
    return None if v is None else int(v)
