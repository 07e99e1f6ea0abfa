"""Far points of the streams of the GF(2)-linear generators, by repeated squaring of their step.

The step of the reference machines in vlib.refs is turned into its matrix (the images of the unit
states); the matrix of 2^k steps is the square of that of 2^(k-1).
"""
import functools
from vlib import refs

F64, F32 = (1 << 64) - 1, (1 << 32) - 1


def words(v, width, n):
    return [(v >> (width * i)) & ((1 << width) - 1) for i in range(n)]


def pack(ws, width):
    return sum(int(w) << (width * i) for i, w in enumerate(ws))


def _tiny(v):
    s = words(v, 32, 4)
    refs.tiny_next(s)
    return pack(s, 32)


STEPS = {
    "xs128": lambda v: pack(refs.xs128_step(tuple(words(v, 32, 4))), 32),
    "xoro": lambda v: pack(refs.xoro_step(*words(v, 64, 2)), 64),
    "tiny": _tiny,
}


def apply(cols, v):
    out, i = 0, 0
    while v:
        if v & 1:
            out ^= cols[i]
        v >>= 1
        i += 1
    return out


@functools.lru_cache(maxsize=None)
def power(kind, k):
    """the matrix of 2^k steps"""
    if k == 0:
        return [STEPS[kind](1 << i) for i in range(128)]
    m = power(kind, k - 1)
    return [apply(m, c) for c in m]


def skip(kind, v, n):
    """the state n steps after v"""
    k = 0
    while n:
        if n & 1:
            v = apply(power(kind, k), v)
        n >>= 1
        k += 1
    return v


def outputs(kind, v, count, shift=0):
    """the next outputs of the state"""
    out = []
    for _ in range(count):
        if kind == "xs128":
            v = STEPS[kind](v)
            out.append(v >> 96)
        elif kind == "xoro":
            out.append((sum(words(v, 64, 2)) & F64) >> shift)
            v = STEPS[kind](v)
        else:
            s = words(v, 32, 4)
            refs.tiny_next(s)
            out.append(refs.tiny_temper(s))
            v = pack(s, 32)
    return out


def distances(tier_numba, wide, top=True):
    """how far to advance: around every power of two the implementation can walk to"""
    if not tier_numba:
        return sorted({(1 << k) + d for k in range(10, 17) for d in (-1, 0, 1, 5)} | {(1 << 18) + 5})
    s = {(1 << k) + d for k in range(10, 25) for d in (-1, 0, 1, 5)} | {(1 << 26) + 3, (1 << 28) + 1}
    if top:
        s |= {(1 << 31) + 1, (1 << 32) - 1}
    if top and wide:
        s |= {1 << 32, (1 << 32) + 5}
    return sorted(s)


def self_check():
    for kind in STEPS:
        v = 0x0123456789ABCDEFFEDCBA9876543210 ^ 0x55555555 << 64
        w = v
        for n in range(3000):
            if n % 37 == 0:
                assert skip(kind, v, n) == w, (kind, n)
            w = STEPS[kind](w)


def explore(R, key, kind, cases, wide, shift=0):
    """cases: (label, make() -> object, packed state before, program text); compares the outputs after every advance"""
    self_check()
    import numpy as np
    T = np.uint64 if wide else np.uint32
    for i, (label, make, state, text) in enumerate(cases):
        for j, d in enumerate(distances(R.numba, wide, top=i == 0)):
            R.progress(f"{label}: advance({d})")
            rng = make()
            rng.advance(d if (i + j) % 2 else T(d))
            got = [int(rng.next()) for _ in range(4)]
            want = outputs(kind, skip(kind, state, d), 4, shift)
            R.count("transitions", d + 4)
            R.count("traces_validated_against_impl")
            if got != want:
                R.fail(key, f"{label}: advance({d}) is not {d} steps: next outputs {got}, reference {want}", {"object": label, "advance": d},
                       f"{text}\nrng.advance(np.uint{64 if wide else 32}({d}))\ngot, want = [int(rng.next()) for _ in range(4)], {want}\n"
                       "assert got == want, (got, want)\n")
                if R.full():
                    return
    R.count("states", len(cases))
