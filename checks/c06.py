"""C06: TinyMersenneTwister is TinyMT32 for every seed and position."""
import numpy as np
from vlib.core import Task
from vlib import far, refs, sets

LEVEL = "model_checking"
RULE = ("the real generator and an independent TinyMT32 machine (checked against the published outputs) start from the same seed or injected "
        "state; every output, every output after an advance and every bounded draw is compared; one output, advance or draw is one transition")
ASSUMPTIONS = ["states are injected through the public `state` array when it holds the published initial vector, otherwise only seeds are used"]
NAME = "TinyMersenneTwister"


def bounds(tier):
    t = tier == "thorough"
    return (f"compiled: {'all 2^32 seeds' if t else '2^26 consecutive seeds at either end and all seeds of weight <= 4 and their complements'}, 3 outputs; "
            f"weight <= 3 seeds, 2000 outputs; all 128-bit states of weight <= {4 if t else 3} and their complements, 6 outputs; all pairs of low half "
            "words of the two tempering operands (every carry); advances 0..1500 from positions 0..20; critical maxima of 20000 raw outputs. "
            "Uncompiled: weight <= 2 seeds and states, advances 0..40, critical maxima. "
            "Advances around every power of two up to 2^24 and of 2^26+3, 2^28+1, 2^31+1 and 2^32-1 (uncompiled: up to 2^16 and 2^18+5)")


def tasks(tier):
    return [Task("seeds", "numba", cpus=8, timeout=3000), Task("states", "numba", cpus=8, timeout=3000), Task("ops", "numba"),
            Task("plain_seeds", "numpy"), Task("plain_states", "numpy"), Task("ops", "numpy"),
            Task("distant", "numba"), Task("distant", "numpy")]


HEAD = """
from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister
from vlib.refs import TinyStream
import numpy as np
"""


def snip(seed, n, state=None):
    inject = "" if state is None else f"for i, v in enumerate({state}):\n    rng.state[i] = v\n"
    return HEAD + f"""
rng, want = TinyMersenneTwister(np.uint32({seed})), TinyStream({seed}, {state})
{inject}for i in range({n}):
    got = int(rng.next())
    assert got == want.at(i), (i, hex(got), hex(want.at(i)))
"""


def layout(R):
    from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister
    st = [0] * 4
    refs.tiny_init(99, st)
    try:
        ok = [int(v) for v in TinyMersenneTwister(np.uint32(99)).state] == st
    except Exception:
        ok = False
    if not ok:
        R.note("state is not the published vector: states are reached through seeds only")
    return ok


def seeds(R):
    from numba import njit
    from vlib import nb
    from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister as cls
    refs.self_check()
    C = refs.compiled()
    C_init, C_next, C_temper = C.tiny_init, C.tiny_next, C.tiny_temper

    @njit(nogil=True)
    def k(lo, hi, out, arr, start, n, fresh):
        rng = cls(np.uint32(0))
        st = np.zeros(4, np.int64)
        for i in range(lo, hi):
            seed = np.int64(arr[i]) if len(arr) else np.int64(start + i)
            if fresh:
                rng = cls(np.uint32(seed))
            else:
                rng.re_init(np.uint32(seed))
            C_init(seed, st)
            for j in range(n):
                C_next(st)
                w = np.uint64(C_temper(st))
                v = np.uint64(rng.next())
                if v != w:
                    if out[0] == 0:
                        out[1] = seed
                        out[2] = j
                        out[3] = v
                        out[4] = w
                    out[0] += np.uint64(1)
                    break
            out[8] += np.uint64(n)
    none = np.zeros(0, np.uint64)
    plan = [("weight <= 3", sets.weight_array(32, 3), 0, 2000, True), ("weight <= 4", sets.weight_array(32, 4), 0, 3, False)]
    if R.thorough:
        plan += [("all seeds", none, 0, 3, False)]
    else:
        plan += [("first", none, 0, 3, False), ("last", none, (1 << 32) - (1 << 26), 3, False), ("own", none, R.seed * 0x9E3779B1 % (1 << 31), 3, False)]
    for label, arr, start, n, fresh in plan:
        R.progress(f"seeds {label}")
        total = len(arr) or (1 << 32 if R.thorough else 1 << 26)
        res = nb.par(k, total, (arr, start, n, fresh))
        R.count("states", total)
        R.count("transitions", res[8])
        R.count("traces_validated_against_impl", total)
        if res[0]:
            R.fail("stream", f"{NAME}({res[1]}): output {res[2]} is {res[3]:#x}, reference {res[4]:#x} ({res[0]} seeds of {label} differ)",
                   {"seed": res[1], "output": res[2]}, snip(res[1], res[2] + 1))
    R.sample({"plans": [p[0] for p in plan]})


def states(R):
    from numba import njit
    from vlib import nb
    from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister as cls
    if not layout(R):
        return
    C = refs.compiled()
    C_next, C_temper = C.tiny_next, C.tiny_temper

    @njit(nogil=True)
    def one(rng, st, a, b, c, d, n, out):
        st[0], st[1], st[2], st[3] = a, b, c, d
        for w in range(4):
            rng.state[w] = np.uint32(st[w])
        for j in range(n):
            C_next(st)
            w = np.uint64(C_temper(st))
            v = np.uint64(rng.next())
            if v != w:
                if out[0] == 0:
                    out[1] = a
                    out[2] = b
                    out[3] = c
                    out[4] = d
                    out[5] = j
                    out[6] = v
                    out[7] = w
                out[0] += np.uint64(1)
                break
        out[8] += np.uint64(n)

    F = 0xFFFFFFFF

    # halves of a 128-bit state by weight; the sum of both weights is bounded by k
    k = 4 if R.thorough else 3
    rows = [(v >> 32, v & F, bin(v).count("1")) for v in sets.weight(64, k)]
    arr = np.array(rows, np.int64)
    R.progress("states of low weight")
    counts = [int((arr[:, 2] <= w).sum()) for w in range(k + 1)]
    for w in range(k + 1):
        first = np.ascontiguousarray(arr[counts[w - 1] if w else 0:counts[w]])
        second = np.ascontiguousarray(arr[:counts[k - w]])
        res = nb.par(plain_product(cls, one, F), len(first), (first, second))
        R.count("states", 2 * len(first) * len(second))
        R.count("transitions", res[8])
        R.count("traces_validated_against_impl", 2 * len(first) * len(second))
        report(R, res)

    @njit(nogil=True)
    def carries(lo, hi, out, high0, high2):
        # both operands of the tempering sum over all values of their low 9 bits, with each high part
        rng = cls(np.uint32(0))
        st = np.zeros(4, np.int64)
        for i in range(lo, hi):
            a, b = i >> 9, i & 511
            for x in range(len(high0)):
                for y in range(len(high2)):
                    one(rng, st, (a * 2654435761) & F, high0[x] | a, (a * 40503 + y) & F, high2[y] ^ (b << 8), 2, out)

    high = np.array([0, 0x7FFFFE00, 0xFFFFFE00, 0x80000000, 0x55555400], np.int64)
    R.progress("tempering carries")
    res = nb.par(carries, 1 << 18, (high, high))
    R.count("states", (1 << 18) * 25)
    R.count("transitions", res[8])
    R.count("traces_validated_against_impl", (1 << 18) * 25)
    report(R, res)
    R.sample({"weight": k, "halves": len(rows)})


def plain_product(cls, one, F):
    from numba import njit

    @njit(nogil=True)
    def product(lo, hi, out, first, second):
        rng = cls(np.uint32(0))
        st = np.zeros(4, np.int64)
        for i in range(lo, hi):
            for j in range(len(second)):
                a, b, c, d = first[i, 0], first[i, 1], second[j, 0], second[j, 1]
                one(rng, st, a, b, c, d, 6, out)
                one(rng, st, a ^ F, b ^ F, c ^ F, d ^ F, 6, out)
    return product


def report(R, res):
    if res[0]:
        state = res[1:5]
        R.fail("state", f"{NAME} from state {[hex(v) for v in state]}: output {res[5]} is {res[6]:#x}, reference {res[7]:#x} ({res[0]} states differ)",
               {"state": state, "output": res[5]}, snip(0, res[5] + 1, state))


def maxima(raw):
    s = set(range(1, 20)) | {v for v in sets.near_powers(32, 1) if v} | {raw - 1, raw, raw + 1, raw // 2, raw // 2 + 1}
    s |= set(sets.nearest(raw, 32, 4))
    if raw:
        for k in (1, 2, 3, 17, 1 << 16):
            q = -(-(k << 32) // raw)
            s |= {q - 1, q, q + 1}
    return sorted(v for v in s if 1 <= v <= 0xFFFFFFFF)


def distant(R):
    """advances as far as the implementation can walk"""
    from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister as cls

    def state(seed):
        s = [0] * 4
        refs.tiny_init(seed, s)
        return far.pack(s, 32)
    far.explore(R, "advance", "tiny", [(f"{NAME}({s})", lambda s=s: cls(np.uint32(s)), state(s), HEAD + f"rng = {NAME}(np.uint32({s}))")
                                       for s in (R.seed + 5, 0, 0xFFFFFFFF)], wide=False)


def ops(R):
    """advances and bounded draws through the object, in either mode"""
    from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister as cls
    fast = R.numba
    seed = (R.seed * 2654435761 + 5) % (1 << 32)
    want = refs.TinyStream(seed)
    rng = cls(np.uint32(seed))
    n = 0
    for p in range(20):
        for d in list(range(0, 1500 if fast else 41)) + ([65535, 65536, 70001] if fast and p < 3 else []):
            if d > 60 and p > 2 and d % 7:
                continue
            R.progress(f"{p} draws and advance({d})")
            rng.re_init(np.uint32(seed))
            for _ in range(p):
                rng.next()
            rng.advance(np.uint32(d) if d % 2 else d)
            got, ref = [int(rng.next()) for _ in range(2)], want.window(p + d, p + d + 2)
            n += 1
            if got != ref:
                R.fail("advance", f"{NAME}({seed}) after {p} draws: advance({d}) is not {d} draws ({got}, reference {ref})",
                       {"seed": seed, "position": p, "distance": d}, HEAD + f"""
rng, want = TinyMersenneTwister(np.uint32({seed})), TinyStream({seed})
for _ in range({p}):
    rng.next()
rng.advance({d})
assert int(rng.next()) == want.at({p} + {d})
""")
                if R.full():
                    return
    rng.re_init(np.uint32(seed))
    for p in range(400000 if R.thorough else 20000):
        raw = want.at(p)
        ms = maxima(raw)
        m = ms[(p // 4) % len(ms)]
        op = ("next_rand", "next_rand_mod")[p % 2]
        got = int(getattr(rng, op)(np.uint32(m) if p % 4 < 2 else m))
        expected = raw * m >> 32 if op == "next_rand" else raw % m
        n += 1
        if got != expected:
            R.fail(op, f"{NAME}({seed}) draw {p}: {op}({m}) with raw output {raw} gives {got}, expected {expected}",
                   {"seed": seed, "position": p, "operation": op, "maximum": m}, HEAD + f"""
rng, want = TinyMersenneTwister(np.uint32({seed})), TinyStream({seed})
for _ in range({p}):
    rng.next()
got, raw, m = int(rng.{op}(np.uint32({m}))), want.at({p}), {m}
assert got == {'raw * m >> 32' if op == 'next_rand' else 'raw % m'}, (got, raw, m)
""")
            if R.full():
                return
    R.count("states", 20)
    R.count("transitions", n)
    R.count("traces_validated_against_impl", 20)


def plain_seeds(R):
    from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister as cls
    refs.self_check()
    todo = [v ^ f for v in sets.weight(32, 3 if R.thorough else 2) for f in (0, 0xFFFFFFFF)] + list(range(2000))
    rng = cls(0)
    for i, seed in enumerate(todo):
        R.progress(f"seed {seed}")
        if i % 3:
            rng = cls(np.uint32(seed) if i % 2 else seed)
        else:
            rng.re_init(np.uint32(seed))
        n = 100 if i % 50 == 0 else 8
        want = refs.TinyStream(seed).window(0, n)
        got = [int(rng.next()) for _ in range(n)]
        R.count("states")
        R.count("transitions", n)
        R.count("traces_validated_against_impl")
        if got != want:
            R.fail("stream", f"{NAME}({seed}): {got[:4]}..., reference {want[:4]}...", {"seed": seed}, snip(seed, n))
            if R.full():
                return


def plain_states(R):
    from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister as cls
    if not layout(R):
        return
    rng = cls(np.uint32(0))
    for v in sets.weight(128, 2):
        for f in (0, (1 << 128) - 1):
            state = [((v ^ f) >> (32 * i)) & 0xFFFFFFFF for i in range(4)]
            R.progress(f"state {state}")
            rng.state[:] = np.array(state, np.uint32)
            got = [int(rng.next()) for _ in range(3)]
            want = refs.TinyStream(0, state).window(0, 3)
            R.count("states")
            R.count("transitions", 3)
            R.count("traces_validated_against_impl")
            if got != want:
                R.fail("state", f"{NAME} from state {state}: {got}, reference {want}", {"state": state}, snip(0, 3, state))
                if R.full():
                    return
