"""C14: bit, byte-order, hex and hash helpers are exact for every input."""
import itertools
import numpy as np
from vlib.core import Task
from vlib import nb, sets

LEVEL = "model_checking"
RULE = ("every helper is called on every input of the stated input space and compared with its mathematical definition computed on Python integers (or, in "
        "compiled sweeps, by an independent bit-by-bit or byte-table definition); a state is an input, a transition a call")
ASSUMPTIONS = ["rotation counts range over 0..width-1", "a string is hashed as the sequence of its characters' code points", "the offset basis is the games' (...2645), which the keys of the name tables confirm"]


def bounds(tier):
    t = tier == "thorough"
    return ("compiled: change_endian_u32 on all 2^32 words (value and involution); 32-bit rotations: all 2^32 words for "
            f"{'all 32 counts' if t else '5 counts'}, and for all counts all words of weight <= {4 if t else 3} and complements; 64-bit rotations: all counts x words of "
            "weight <= 3 and complements, byte patterns; hex_32: all 2^16 values of each half with 3 values of the other, weight <= 3; FNV: all strings of length <= 2 "
            "over 7-bit characters, every code point below 65536, all strings of length <= 4 over 7 characters of every storage width, all table names. Uncompiled: the same "
            "without the 2^32 sweeps, weight <= 2")


def tasks(tier):
    t = [Task("sweep_endian", "numba", cpus=8, timeout=3000), Task("sweep_rotate", "numba", cpus=8, timeout=3000)]
    for mode in ("numba", "numpy"):
        t += [Task("words", mode, timeout=3000), Task("hexes", mode, timeout=3000), Task("hashes", mode, timeout=3000)]
    return t


def swap(v):
    return int.from_bytes(v.to_bytes(4, "big"), "little")


def rol(v, c, bits):
    return (v << c | v >> (bits - c)) & ((1 << bits) - 1)


def sweep_endian(R):
    import numba
    from numba_pokemon_prngs.util import change_endian_u32
    table = np.arange(256, dtype=np.uint64)

    @numba.njit(nogil=True)
    def kernel(lo, hi, out, table):
        for v in range(lo, hi):
            got = np.uint64(change_endian_u32(np.uint32(v)))
            want = table[v & 255] << np.uint64(24) | table[(v >> 8) & 255] << np.uint64(16) | table[(v >> 16) & 255] << np.uint64(8) | table[(v >> 24) & 255]
            back = np.uint64(change_endian_u32(np.uint32(got)))
            if got != want or back != np.uint64(v):
                if out[0] == 0:
                    out[1], out[2], out[3], out[4] = v, got, want, back
                out[0] += np.uint64(1)
    res = nb.par(kernel, 1 << 32, (table,))
    R.count("states", 1 << 32)
    R.count("transitions", 2 << 32)
    R.count("traces_validated_against_impl", 1)
    R.sample({"change_endian_u32": "all 2^32 words", "failing": res[0]})
    if res[0]:
        R.fail("endian", f"{res[0]} words: change_endian_u32({res[1]:#x}) = {res[2]:#x}, expected {res[3]:#x}; swapped back {res[4]:#x}", {"word": res[1]},
               f"from numba_pokemon_prngs.util import change_endian_u32 as f\nimport numpy as np\nv = np.uint32({res[1]})\nassert f(v) == {res[3]} and f(f(v)) == v, (f(v), f(f(v)))")


def sweep_rotate(R):
    import numba
    from numba_pokemon_prngs.util import rotate_left_u32, rotate_right_u32

    @numba.njit(nogil=True)
    def kernel(lo, hi, out, count):
        c, mult, mask = np.uint8(count), np.uint64(1) << np.uint64(count), np.uint64(0xFFFFFFFF)
        for v in range(lo, hi):
            w = np.uint64(v)
            wide = w * mult  # no shift: the product's two halves hold the rotation
            want = (wide & mask) + (wide >> np.uint64(32))
            got = np.uint64(rotate_left_u32(np.uint32(v), c))
            back = np.uint64(rotate_right_u32(np.uint32(got), c))
            if got != want or back != w:
                if out[0] == 0:
                    out[1], out[2], out[3], out[4] = w, got, want, back
                out[0] += np.uint64(1)
    counts = range(32) if R.thorough else sorted({0, 1, 31, R.seed * 7 % 32, (R.seed * 7 + 16) % 32})
    for c in counts:
        R.progress(f"rotations by {c}")
        res = nb.par(kernel, 1 << 32, (c,))
        R.count("states", 1 << 32)
        R.count("transitions", 2 << 32)
        R.count("traces_validated_against_impl", 1)
        if res[0]:
            R.fail(f"rotate32:{c}", f"{res[0]} words: rotate_left_u32({res[1]:#x}, {c}) = {res[2]:#x}, expected {res[3]:#x}; rotated back {res[4]:#x}", {"word": res[1], "count": c},
                   code("rotate_left_u32", res[1], c, res[3]))
            if R.full():
                return
    R.sample({"32-bit rotations, all words": list(counts)})


def code(fn, v, c, want):
    t = "uint64" if fn.endswith("64") else "uint32"
    return f"from numba_pokemon_prngs.util import {fn} as f\nimport numpy as np\ngot = int(f(np.{t}({v}), np.uint8({c})))\nassert got == {want}, (hex(got), hex({want}))"


def words(R):
    from numba_pokemon_prngs import util
    n = 0
    for bits in (32, 64):
        T = np.uint32 if bits == 32 else np.uint64
        left, right = getattr(util, f"rotate_left_u{bits}"), getattr(util, f"rotate_right_u{bits}")
        top = (1 << bits) - 1
        w = (4 if R.thorough and bits == 32 else 3 if R.thorough or R.numba and bits == 32 else 2) if R.numba else 2
        vals = [v ^ f for v in sets.weight(bits, w) for f in (0, top)]
        vals += [int(f"{p:02x}" * (bits // 8), 16) for p in range(256)] + [0x0123456789ABCDEF & top, 0xFEDCBA9876543210 & top]
        for c in range(bits):
            R.progress(f"rotate_left/right_u{bits} by {c}")
            for j, v in enumerate(vals):
                a, k = T(v), np.uint8(c)
                if j % 3 == 2 and v < 1 << 63:
                    a, k = v, c
                want = rol(v, c, bits)
                got = left(a, k)
                back = right(got, k)
                n += 2
                R.state(bits, c, v)
                if int(got) != want or int(back) != v:
                    fn, x, y, z = (f"rotate_left_u{bits}", v, want, int(got)) if int(got) != want else (f"rotate_right_u{bits}", want, v, int(back))
                    R.fail(f"rotate{bits}:{c}", f"{fn}({x:#x}, {c}) = {z:#x}, expected {y:#x}", {"word": x, "count": c}, code(fn, x, c, y))
                    if R.full():
                        return
    for v in [v ^ f for v in sets.weight(32, 3) for f in (0, 0xFFFFFFFF)] + [b << s | 0x11223344 & ~(255 << s) for b in range(256) for s in (0, 8, 16, 24)]:
        got = int(util.change_endian_u32(np.uint32(v)))
        R.state("swap", v)
        n += 1
        if got != swap(v):
            R.fail("endian", f"change_endian_u32({v:#x}) = {got:#x}, expected {swap(v):#x}", {"word": v},
                   f"from numba_pokemon_prngs.util import change_endian_u32 as f\nimport numpy as np\nassert int(f(np.uint32({v}))) == {swap(v)}")
            if R.full():
                return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", 32 + 64 + 1)


def hexes(R):
    from numba_pokemon_prngs.util import hex_32
    n = 0
    vals = list(range(65536)) + [h << 16 for h in range(65536)]
    vals += [0xABCD0000 | v for v in range(65536)] + [h << 16 | 0xFFFF for h in range(65536)] if R.numba else []
    vals += list(sets.weight(32, 3 if R.numba else 2)) + [v ^ 0xFFFFFFFF for v in sets.weight(32, 3 if R.numba else 2)]
    for j, v in enumerate(vals):
        got = hex_32(np.uint32(v) if j % 4 else v)
        n += 1
        if str(got) != f"{v:08X}" or len(got) != 8:
            R.fail("hex", f"hex_32({v:#x}) = {got!r}, expected {v:08X}", {"value": v},
                   f"from numba_pokemon_prngs.util import hex_32\nimport numpy as np\nassert str(hex_32(np.uint32({v}))) == '{v:08X}', hex_32(np.uint32({v}))")
            if R.full():
                return
    R.count("states", len(set(vals)))
    R.count("transitions", n)
    R.count("traces_validated_against_impl", 1)
    R.sample({"hex_32 values": n})


P, BASIS, M64 = 0x100000001B3, 0xCBF29CE484222645, (1 << 64) - 1


def fnv(s, a):
    h = BASIS
    for ch in s:
        if a:
            h = (h ^ ord(ch)) * P & M64
        else:
            h = h * P & M64 ^ ord(ch)
    return h


def hashes(R):
    import json
    import os
    from numba_pokemon_prngs.fnv import fnv1_64, fnv1a_64
    small = ["a", "\0", "\x7f", "\xff", "\u0100", "\uffff", "\U0001f600"]
    strings = [""] + [chr(i) for i in range(128)] + [chr(i) + chr(j) for i in range(128) for j in range(128)]
    strings += [chr(c) for c in range(128, 65536) if not 0xD800 <= c < 0xE000] + [chr(c) for c in range(0x10000, 0x110000, 0x1001)]
    for k in range(2, 6 if R.thorough else 5):
        strings += ["".join(s) for s in itertools.product(small, repeat=k)]
    strings += ["x" * k for k in range(3, 300)] + ["".join(chr(32 + (i * 7 + k) % 95) for i in range(k)) for k in range(3, 300)] + ["\u3042" * k for k in range(1, 70)]
    strings += ["y" * k for k in (511, 512, 513, 1023, 1025, 4097, 32768, 65535, 65536, 65537, 131073)]
    strings += [json.dumps(i) for i in range(1000)]
    with open(os.path.join(R.farm, "numba_pokemon_prngs/resources/encount/la/encounter_table_names.json"), encoding="utf-8") as f:
        strings += list(json.load(f).values())
    n = 0
    # ground truth: published vectors of the algorithm with this basis are absent, so the definition itself is checked against its two known laws
    assert fnv("", 1) == BASIS and fnv("a", 1) == (BASIS ^ 97) * P & M64 and fnv("a", 0) == BASIS * P & M64 ^ 97
    for i, s in enumerate(strings):
        if i % 4096 == 0:
            R.progress(f"string {s!r}")
        for a, f in ((0, fnv1_64), (1, fnv1a_64)):
            got, want = int(f(s)), fnv(s, a)
            n += 1
            if got != want:
                name = "fnv1a_64" if a else "fnv1_64"
                R.fail(name, f"{name}({s!r}) = {got:#x}, expected {want:#x}", {"string": s},
                       f"from numba_pokemon_prngs.fnv import {name} as f\nassert int(f({s!r})) == {want}, hex(int(f({s!r})))")
                if R.full():
                    return
    R.count("states", len(set(strings)))
    R.count("transitions", n)
    R.count("traces_validated_against_impl", 2)
    R.sample({"strings": len(strings)})
