"""C25: modular inverses are exact and refuse non-invertible values."""
import collections
import importlib
import math
import sys
from vlib.core import Task

LEVEL = "model_checking"
RULE = ("the inverse is computed for every (value, modulus) pair of the stated spaces with the implementation selected by each supported Python version "
        "(chosen by loading the module under that version number) and checked by the definition: product 1 modulo the modulus and range, or ValueError; a state "
        "is a pair, a transition a call")
ASSUMPTIONS = ["only the version number and the pow of versions before 3.8 are substituted; both implementations run on the installed interpreter",
               "the recursive fallback of Python 3.7 is explored up to 128-bit moduli (the package uses 32 and 64 bits)"]
Version = collections.namedtuple("version_info", "major minor micro releaselevel serial")
VERSIONS = [(3, 7), (3, 8), (3, 9), (3, 10), (3, 11), (3, 12)]


def bounds(tier):
    n = 2500 if tier == "thorough" else 900
    return (f"versions 3.7 to 3.12; all moduli 1..{n} x all values -modulus-2..2*modulus+2 (3.7 and 3.12; the others up to 60); all odd and even values modulo 2^k, k <= "
            f"{20 if tier == 'thorough' else 17}; values of weight <= 2 and their complements modulo 2^32, 2^64, 2^128; neighbouring Fibonacci numbers up to 128 bits; the generators' multipliers")


def tasks(tier):
    return [Task("pairs", "numpy", timeout=3000, version=v) for v in VERSIONS] + [Task("pairs", "numba", timeout=3000, version=(3, 12))]


def earlier_pow(base, exponent, modulus=None):
    """pow as it was before Python 3.8"""
    if modulus is not None and exponent < 0:
        raise ValueError("pow() 2nd argument cannot be negative when 3rd argument specified")
    return pow(base, exponent, modulus)


def load(version):
    import numba_pokemon_prngs.compatability as module
    if tuple(version) < (3, 8):
        module.pow = earlier_pow
    real = sys.version_info
    if tuple(version) != tuple(real[:2]):
        sys.version_info = Version(version[0], version[1], 0, "final", 0)
    try:
        module = importlib.reload(module)
    finally:
        sys.version_info = real
    return module.mod_inv


def pairs(R, version):
    inv = load(version)
    n = rows = 0

    def case(value, modulus):
        nonlocal n
        n += 1
        R.state(value, modulus)
        try:
            got = inv(value, modulus)
        except ValueError:
            got = None
        if math.gcd(value, modulus) == 1:
            ok = got is not None and 0 <= got < modulus and (got * value - 1) % modulus == 0
            want = "the inverse"
        else:
            ok, want = got is None, "a ValueError"
        if not ok:
            R.fail("mod_inv", f"Python {version}: mod_inv({value}, {modulus}) gives {got}, expected {want}", {"value": value, "modulus": modulus, "version": version},
                   f"""
import sys, collections, importlib, math
V = collections.namedtuple("version_info", "major minor micro releaselevel serial")
import numba_pokemon_prngs.compatability as m
real = sys.version_info
sys.version_info = V({version[0]}, {version[1]}, 0, "final", 0)
if sys.version_info < (3, 8):
    def earlier_pow(base, exponent, modulus=None):
        if modulus is not None and exponent < 0:
            raise ValueError("pow() 2nd argument cannot be negative when 3rd argument specified")
        return pow(base, exponent, modulus)
    m.pow = earlier_pow
importlib.reload(m)
sys.version_info = real
try:
    got = m.mod_inv({value}, {modulus})
except ValueError:
    got = None
print(got)
assert (got is None) if math.gcd({value}, {modulus}) != 1 else (got is not None and 0 <= got < {modulus} and (got * {value} - 1) % {modulus} == 0)
""")
        return not R.full()
    main = tuple(version) in ((3, 7), (3, 12))
    top = (2500 if R.thorough else 900) if main else 60
    for m in range(1, top + 1):
        R.progress(f"modulus {m}")
        rows += 1
        for v in range(-m - 2, 2 * m + 3):
            if not case(v, m):
                return
    for k in range(1, (20 if R.thorough else 17) + 1 if main else 9):
        rows += 1
        for v in range(1 << k):
            if not case(v, 1 << k):
                return
    for k in (32, 64, 128):
        m = 1 << k
        R.progress(f"modulus 2^{k}")
        rows += 1
        for i in range(k):
            for j in range(i, k):
                for v in ((1 << i) | (1 << j), m - 1 ^ (1 << i) ^ (1 << j)):
                    if not case(v, m):
                        return
        for v in (0x41C64E6D, 0x6C078965, 0x343FD, 0x5D588B656C078965, 0, 1, m - 1, m + 1, m):
            for d in (0, 1, -1):
                if not case(v + d, m):
                    return
    a, b = 1, 1
    while b < 1 << 128:
        a, b = b, a + b
        for x, y in ((a, b), (b, a), (a * 3, b * 3), (b - 1, b), (b + 1, b)):
            if not case(x, y):
                return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", rows)
    R.sample({"version": version, "pairs": n})
