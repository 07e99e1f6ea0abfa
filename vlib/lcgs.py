"""The published linear congruential generators (the oracle's own constants)."""

POKE = (0x41C64E6D, 0x6073)
ARNG = (0x6C078965, 0x1)
XDRNG = (0x343FD, 0x269EC3)
BW = (0x5D588B656C078965, 0x269EC3)


def inverse(pair, bits):
    mult, add = pair
    inv = pow(mult, -1, 1 << bits)
    return inv, (-add * inv) % (1 << bits)


# name -> (bits, (mult, add), distribution, name of the inverse)
CLASSES = {
    "PokeRNGMod": (32, POKE, "mod", "PokeRNGRMod"),
    "PokeRNGDiv": (32, POKE, "div", "PokeRNGRDiv"),
    "PokeRNGRMod": (32, inverse(POKE, 32), "mod", "PokeRNGMod"),
    "PokeRNGRDiv": (32, inverse(POKE, 32), "div", "PokeRNGDiv"),
    "ARNG": (32, ARNG, "mod", "ARNGR"),
    "ARNGR": (32, inverse(ARNG, 32), "mod", "ARNG"),
    "XDRNG": (32, XDRNG, "mod", "XDRNGR"),
    "XDRNGR": (32, inverse(XDRNG, 32), "mod", "XDRNG"),
    "BWRNG": (64, BW, "shift", "BWRNGR"),
    "BWRNGR": (64, inverse(BW, 64), "shift", "BWRNG"),
}


def compose(pair, n, bits):
    """the affine map of n steps, by plain integer arithmetic"""
    mask = (1 << bits) - 1
    a, c = 1, 0
    pa, pc = pair
    while n:
        if n & 1:
            a, c = (a * pa) & mask, (c * pa + pc) & mask
        pa, pc = (pa * pa) & mask, (pc * pa + pc) & mask
        n >>= 1
    return a, c


def rand(dist, raw, maximum):
    if dist == "mod":
        return raw % maximum
    if dist == "div":
        return raw // (0xFFFF // maximum + 1)
    return (raw * maximum) >> 32
