"""Enumerations of structured finite sets (all elements, never a sample)."""
import itertools
import numpy as np


def weight(bits, k):
    """all values of `bits` bits with at most k bits set"""
    for w in range(k + 1):
        for c in itertools.combinations(range(bits), w):
            v = 0
            for b in c:
                v |= 1 << b
            yield v


def weight_array(bits, k, complement=True):
    """the same as a uint64 array, with the complements"""
    parts = [np.zeros(1, np.uint64)]
    ones = (np.uint64(1) << np.arange(bits, dtype=np.uint64)).astype(np.uint64)
    for w in range(1, k + 1):
        idx = np.array(list(itertools.combinations(range(bits), w)), dtype=np.int64)
        parts.append(np.bitwise_or.reduce(ones[idx], axis=1))
    a = np.concatenate(parts)
    if complement:
        mask = np.uint64((1 << bits) - 1)
        a = np.concatenate([a, a ^ mask])
    return np.unique(a)


def near_powers(bits, radius):
    """all values within `radius` of 0, of a power of two or of the top"""
    mask = (1 << bits) - 1
    s = set()
    for k in range(bits + 1):
        for d in range(-radius, radius + 1):
            s.add(((1 << k) + d) & mask)
    return sorted(s)


def nearest(factor, bits, count):
    """the largest x below 2^bits for which factor * x is k units of its own granularity below a multiple of 2^bits, k = 1..count
    (the products closest to a bucket boundary of a multiplication-shift draw), and the ones just above"""
    if not factor:
        return []
    g = factor & -factor
    mod = (1 << bits) // g
    inv = pow(factor // g, -1, mod) if mod > 1 else 0
    out = set()
    for t in range(-count, count + 1):
        x = -t * inv % mod + (g - 1) * mod
        out.add(x)
    return sorted(v for v in out if 1 <= v < 1 << bits)
