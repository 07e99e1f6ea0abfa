"""C15: gender, shininess and Unown letter are the game's function of the PID."""
import numpy as np
from vlib.core import Task
from vlib import nb, sets

LEVEL = "model_checking"
RULE = ("the helpers are called on every PID of the stated spaces with every gender ratio, trainer value or letter and compared with the published rules; a "
        "state is a (PID, parameter) pair, a transition a call")


def bounds(tier):
    t = tier == "thorough"
    return (f"compiled: gender: all 2^32 PIDs x {'all 256 ratios' if t else '8 ratios'}, and for all 256 ratios all low 16 bits with 5 upper halves; shininess: all 2^32 PIDs x "
            f"{24 if t else 3} trainer values, and all 2^16 x 2^16 (PID half, trainer value) pairs; Unown: all 2^32 PIDs (letter by 28 calls where accepted) x all letters on all 2^8 "
            "combinations of the four bit pairs in 4 backgrounds. Uncompiled: all ratios x all low bytes x 3 backgrounds, all trainer values x boundary PIDs, all bit pair "
            "combinations x all letters")


def tasks(tier):
    return [Task("gender_sweep", "numba", cpus=8, timeout=3000), Task("shiny_sweep", "numba", cpus=8, timeout=3000), Task("unown_sweep", "numba", cpus=8, timeout=3000)] + \
        [Task(f, m, timeout=3000) for m in ("numba", "numpy") for f in ("gender", "shiny", "unown")]


def gender_of(pid, ratio):
    if ratio == 255:
        return 2
    if ratio == 254:
        return 1
    if ratio == 0:
        return 0
    return 1 if pid % 256 < ratio else 0


def shiny_of(pid, tsv):
    v = (pid // 65536) ^ (pid % 65536) ^ tsv
    return 2 if v == 0 else 1 if v < 8 else 0


def letter_of(pid):
    return int(f"{pid >> 24 & 3:02b}{pid >> 16 & 3:02b}{pid >> 8 & 3:02b}{pid & 3:02b}", 2) % 28


def report(R, fn, args, types, got, want):
    call = ", ".join(f"np.{t}({a})" for t, a in zip(types, args))
    R.fail(f"{fn}", f"{fn}({', '.join(hex(a) for a in args)}) = {got}, expected {want}", {"args": args},
           f"from numba_pokemon_prngs.gen3.util import {fn} as f\nimport numpy as np\ngot = int(f({call}))\nassert got == {int(want)}, got")


def gender_sweep(R):
    import numba
    from numba_pokemon_prngs.gen3.util import get_gender

    @numba.njit(nogil=True)
    def kernel(lo, hi, out, ratio, table):
        for v in range(lo, hi):
            got = np.int64(get_gender(np.uint32(v), np.uint8(ratio)))
            want = table[v & 255]
            if got != want:
                if out[0] == 0:
                    out[1], out[2], out[3] = v, got, want
                out[0] += np.uint64(1)
    ratios = range(256) if R.thorough else (0, 1, 31, 127, 191, 225, 254, 255)
    for ratio in ratios:
        R.progress(f"ratio {ratio}")
        table = np.array([gender_of(b, ratio) for b in range(256)], np.int64)
        res = nb.par(kernel, 1 << 32, (ratio, table))
        R.count("states", 1 << 32)
        R.count("transitions", 1 << 32)
        R.count("traces_validated_against_impl", 1)
        if res[0]:
            report(R, "get_gender", (res[1], ratio), ("uint32", "uint8"), res[2], res[3])
    for ratio in range(256):
        table = np.array([gender_of(b, ratio) for b in range(256)], np.int64)
        for high in (0, 1, 0x8000, 0xFFFF, 0xFF00):
            res = nb.par(kernel, 65536, (ratio, table), lo=high << 16, threads=1)
            R.count("states", 65536)
            R.count("transitions", 65536)
            if res[0]:
                report(R, "get_gender", (res[1], ratio), ("uint32", "uint8"), res[2], res[3])
                if R.full():
                    return


def shiny_sweep(R):
    import numba
    from numba_pokemon_prngs.gen3.util import get_shiny

    @numba.njit(nogil=True)
    def kernel(lo, hi, out, tsv, mode):
        for v in range(lo, hi):
            pid, t = np.uint64(v), np.uint64(tsv)
            if mode == 1:  # the index holds (PID half, trainer value), the other half is fixed
                t = pid & np.uint64(0xFFFF)
                pid = (pid >> np.uint64(16)) | np.uint64(tsv) << np.uint64(16)
            elif mode == 2:
                t = pid & np.uint64(0xFFFF)
                pid = (pid & np.uint64(0xFFFF0000)) | np.uint64(tsv)
            got = np.int64(get_shiny(np.uint32(pid), np.uint16(t)))
            x = (pid // np.uint64(65536)) ^ (pid % np.uint64(65536)) ^ t
            want = 2 if x == 0 else 1 if x <= 7 else 0
            if got != want:
                if out[0] == 0:
                    out[1], out[2], out[3], out[4] = pid, t, got, want
                out[0] += np.uint64(1)
    fixed = [0, 0xFFFF, 0x1234] + ([1 << k for k in range(16)] + [0xFFF8, 7, 8, 0x8007, 0x7FFF] if R.thorough else [])
    for mode, values in ((0, fixed), (1, (0, 0xFFFF)), (2, (0, 0xA5A5))):
        for tsv in values:
            R.progress(f"mode {mode} {tsv:#x}")
            res = nb.par(kernel, 1 << 32, (tsv, mode))
            R.count("states", 1 << 32)
            R.count("transitions", 1 << 32)
            R.count("traces_validated_against_impl", 1)
            if res[0]:
                report(R, "get_shiny", (res[1], res[2]), ("uint32", "uint16"), res[3], res[4])


def unown_sweep(R):
    import numba
    from numba_pokemon_prngs.gen3.util import unown_check

    @numba.njit(nogil=True)
    def kernel(lo, hi, out, pairs, modulo):
        for v in range(lo, hi):
            letter = modulo[pairs[(v >> 24) & 3, 3] + pairs[(v >> 16) & 3, 2] + pairs[(v >> 8) & 3, 1] + pairs[v & 3, 0]]
            other = (letter + 1 + v % 27) % 28
            a, b = unown_check(np.uint32(v), np.uint8(letter)), unown_check(np.uint32(v), np.uint8(other))
            if not a or b:
                if out[0] == 0:
                    out[1], out[2], out[3] = v, letter if not a else other, 0 if not a else 1
                out[0] += np.uint64(1)
    pairs = np.array([[b * 4 ** k for k in range(4)] for b in range(4)], np.int64)
    modulo = np.array([i % 28 for i in range(256)], np.int64)
    res = nb.par(kernel, 1 << 32, (pairs, modulo))
    R.count("states", 1 << 32)
    R.count("transitions", 2 << 32)
    R.count("traces_validated_against_impl", 1)
    if res[0]:
        report(R, "unown_check", (res[1], res[2]), ("uint32", "uint8"), res[3], 1 - res[3])


def gender(R):
    from numba_pokemon_prngs.gen3.util import get_gender
    n = 0
    for ratio in range(256):
        for low in range(256):
            for high in (0, 0xFFFFFF00, 0x12345600, 1 << 31, 1 << 8):
                pid = high | low
                R.state("gender", pid, ratio)
                args = (np.uint32(pid), np.uint8(ratio)) if (low + ratio) % 3 else (pid, ratio)
                got = get_gender(*args)
                n += 1
                if int(got) != gender_of(pid, ratio):
                    report(R, "get_gender", (pid, ratio), ("uint32", "uint8"), got, gender_of(pid, ratio))
                    if R.full():
                        return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", 256)


def shiny(R):
    from numba_pokemon_prngs.gen3.util import get_shiny
    n = 0
    cases = [(h << 16 | lo, tsv) for tsv in range(0, 65536, 1 if R.numba else 5) for h, lo in ((0, 0), (tsv, 0), (0, tsv ^ 7), (tsv ^ 8, 0), (0xFFFF, tsv), (0xFFFF, 0xFFFF ^ tsv ^ 1))]
    cases += [(v, t) for v in sets.weight(32, 2) for t in (0, 1, 8, 0x8000, 0xFFFF)]
    for i, (pid, tsv) in enumerate(cases):
        args = (np.uint32(pid), np.uint16(tsv)) if i % 4 else (pid, tsv)
        got = get_shiny(*args)
        R.state("shiny", pid, tsv)
        n += 1
        if int(got) != shiny_of(pid, tsv):
            report(R, "get_shiny", (pid, tsv), ("uint32", "uint16"), got, shiny_of(pid, tsv))
            if R.full():
                return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", 65536 if R.numba else 13108)


def unown(R):
    from numba_pokemon_prngs.gen3.util import unown_check
    n = 0
    for bits in range(256):
        base = sum((bits >> 2 * k & 3) << 8 * k for k in range(4))
        for noise in (0, 0xFCFCFCFC, 0x54A85CF0, 0x80000004):
            pid = base | noise & 0xFCFCFCFC
            for form in list(range(30)) + [255]:
                args = (np.uint32(pid), np.uint8(form)) if form % 3 else (pid, form)
                got = unown_check(*args)
                R.state("unown", pid, form)
                want = letter_of(pid) == form
                n += 1
                if bool(got) != want:
                    report(R, "unown_check", (pid, form), ("uint32", "uint8"), int(got), want)
                    if R.full():
                        return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", 256)
    R.sample({"bit pair combinations": 256, "letters": 28})
