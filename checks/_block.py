"""Shared exploration of the two block generators (MT19937 and SFMT19937), used by C04 and C05.

A reference machine (vlib.refs) is run next to the real object and every output is compared.
"""
import types
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from vlib import refs, sets


def spec(kind):
    """what differs between the two generators"""
    from numba_pokemon_prngs import mersenne_twister as m
    if kind == "mt":
        return types.SimpleNamespace(cls=m.MersenneTwister, name="MersenneTwister", per=624, words=1, stream=refs.MTStream,
                                     top=0xFFFFFFFF, T=np.uint32, draws=("next_rand", "next_rand_mod"))
    return types.SimpleNamespace(cls=m.SIMDFastMersenneTwister, name="SIMDFastMersenneTwister", per=312, words=2,
                                 stream=refs.SFMTStream, top=(1 << 64) - 1, T=np.uint64, draws=("next_rand",))


def draw_value(op, kind, raw, m):
    if kind == "mt" and op == "next_rand":
        return (raw * m) >> 32
    return raw % m


def head(kind):
    s = spec(kind)
    return f"""
from numba_pokemon_prngs.mersenne_twister import {s.name}
from vlib.refs import {s.stream.__name__}
import numpy as np
"""


def snip_stream(kind, seed, n):
    s = spec(kind)
    return head(kind) + f"""
rng, want = {s.name}(np.uint32({seed})), {s.stream.__name__}({seed})
for i in range({n}):
    got = int(rng.next())
    assert got == want.at(i), (i, hex(got), hex(want.at(i)))
"""


def snip_state(kind, word, value, others, n):
    s = spec(kind)
    return head(kind) + f"""
state = [{others}] * 624
state[{word}] ^= {value}
rng, want = {s.name}(np.uint32(0)), {s.stream.__name__}(0, state)
for i, v in enumerate(state):
    rng.state[i] = v
for i in range({n}):
    got = int(rng.next())
    assert got == want.at(i), (i, hex(got), hex(want.at(i)))
"""


def snip_advance(kind, seed, p, n, extra):
    s = spec(kind)
    return head(kind) + f"""
rng, want = {s.name}(np.uint32({seed})), {s.stream.__name__}({seed})
for _ in range({p}):
    rng.next()
rng.advance(np.uint32({n}))
for i in range({extra}):
    got = int(rng.next())
    assert got == want.at({p} + {n} + i), (i, hex(got), hex(want.at({p} + {n} + i)))
"""


def snip_draw(kind, seed, p, op, m):
    s = spec(kind)
    return head(kind) + f"""
rng, want = {s.name}(np.uint32({seed})), {s.stream.__name__}({seed})
for _ in range({p}):
    rng.next()
got, raw, m = int(rng.{op}({s.T.__name__ and 'np.' + s.T.__name__}({m}))), want.at({p}), {m}
expected = {'(raw * m) >> 32' if (kind, op) == ('mt', 'next_rand') else 'raw % m'}
assert got == expected, (raw, m, got, expected)
assert int(rng.next()) == want.at({p} + 1)
"""


def kernels(kind):
    """compiled reference pieces and one-position access"""
    from numba import njit
    C = refs.compiled()
    if kind == "mt":
        init, block, temper = C.mt_init, C.mt_block, C.mt_temper

        @njit(nogil=True)
        def ref_out(st, i):
            return np.uint64(temper(st[i]))
    else:
        init, block = C.sfmt_init, C.sfmt_block

        @njit(nogil=True)
        def ref_out(st, i):
            return np.uint64(st[2 * i]) | (np.uint64(st[2 * i + 1]) << np.uint64(32))
    return init, block, ref_out


def seeds_compiled(R, kind, plan):
    """plan: list of (label, start, count) seed windows, or arrays"""
    from numba import njit
    from vlib import nb
    refs.self_check()
    S = spec(kind)
    cls, per = S.cls, S.per
    init, block, ref_out = kernels(kind)

    @njit(nogil=True)
    def one(rng, st, seed, n, out):
        init(seed, st)
        done = np.int64(0)
        while done < n:
            block(st)
            for i in range(per):
                if done >= n:
                    break
                v = np.uint64(rng.next())
                w = ref_out(st, i)
                if v != w:
                    if out[0] == 0:
                        out[1] = seed
                        out[2] = done
                        out[3] = v
                        out[4] = w
                    out[0] += np.uint64(1)
                    return
                done += 1
        out[8] += np.uint64(n)

    @njit(nogil=True)
    def k(lo, hi, out, arr, start, n):
        rng = cls(np.uint32(0))
        st = np.zeros(624, np.int64)
        for i in range(lo, hi):
            seed = np.int64(arr[i]) if len(arr) else np.int64(start + i)
            rng.re_init(np.uint32(seed))
            one(rng, st, seed, n, out)

    @njit(nogil=True)
    def fresh(lo, hi, out, arr, n):
        st = np.zeros(624, np.int64)
        for i in range(lo, hi):
            seed = np.int64(arr[i])
            rng = cls(np.uint32(seed))
            one(rng, st, seed, n, out)

    none = np.zeros(0, np.uint64)
    for label, start, count, n in plan:
        R.progress(f"{S.name} seeds {label}")
        if count is None:
            arr = np.asarray(start, np.uint64)
            res = nb.par(fresh, len(arr), (arr, n))
            count = len(arr)
        else:
            res = nb.par(k, count, (none, start, n))
        R.count("states", count)
        R.count("transitions", res[8])
        R.count("traces_validated_against_impl", count)
        if res[0]:
            R.fail(f"stream:{S.name}", f"{S.name}({res[1]}): output {res[2]} is {res[3]:#x}, reference {res[4]:#x} ({res[0]} seeds of {label} differ)",
                   {"seed": res[1], "output": res[2]}, snip_stream(kind, res[1], res[2] + 1))
    R.sample({"class": S.name, "plans": [p[0] for p in plan]})


def state_layout(R, kind):
    """whether a fresh object's `state` is the 624 word vector of the publications"""
    S = spec(kind)
    rng = S.cls(np.uint32(12345))
    st = [0] * 624
    (refs.mt_init if kind == "mt" else refs.sfmt_init)(12345, st)
    try:
        ok = [int(v) for v in rng.state] == st
    except Exception:
        ok = False
    if not ok:
        R.note(f"{S.name}.state is not the plain initial vector: states are reached through seeds only")
    return ok


def states_compiled(R, kind):
    from numba import njit
    from vlib import nb
    if not state_layout(R, kind):
        return
    S = spec(kind)
    cls, per = S.cls, S.per
    init, block, ref_out = kernels(kind)

    @njit(nogil=True)
    def k(lo, hi, out, fill, pairs):
        st = np.zeros(624, np.int64)
        rng = cls(np.uint32(0))
        for i in range(lo, hi):
            rng.re_init(np.uint32(0))
            for j in range(624):
                st[j] = fill
            w = i // 32 % 624
            st[w] ^= np.int64(1) << np.int64(i % 32)
            if pairs:
                # a second word, at one of the distances that meet in one step of the recurrence
                d = (1, 397, 396, 122 * 4, 154 * 4, 155 * 4, 8, 4, 227, 1)[i // (32 * 624)]
                st[(w + d) % 624] ^= np.int64(1) << np.int64((i * 7 + i // 32) % 32)
            for j in range(624):
                rng.state[j] = np.uint32(st[j])
            bad = False
            for b in range(2):
                block(st)
                for j in range(per):
                    v = np.uint64(rng.next())
                    if v != ref_out(st, j) and not bad:
                        bad = True
                        if out[0] == 0:
                            out[1] = i
                            out[2] = b * per + j
                            out[3] = v
                            out[4] = ref_out(st, j)
                        out[0] += np.uint64(1)
            out[8] += np.uint64(2 * per)

    for fill in (0, 0xFFFFFFFF, 0xAAAAAAAA):
        R.progress(f"{S.name} single bit states over {fill:#x}")
        res = nb.par(k, 624 * 32, (fill, False))
        R.count("states", 624 * 32)
        R.count("transitions", res[8])
        R.count("traces_validated_against_impl", 624 * 32)
        if res[0]:
            w, b = res[1] // 32, res[1] % 32
            R.fail(f"state:{S.name}", f"{S.name} from state {fill:#x}... with bit {b} of word {w} flipped: output {res[2]} is {res[3]:#x}, "
                   f"reference {res[4]:#x} ({res[0]} states differ)", {"word": w, "bit": b, "fill": fill, "output": res[2]},
                   snip_state(kind, w, 1 << b, fill, res[2] + 1))
    if R.thorough:
        res = nb.par(k, 10 * 624 * 32, (0, True))
        R.count("states", 10 * 624 * 32)
        R.count("transitions", res[8])
        if res[0]:
            R.fail(f"state2:{S.name}", f"{S.name} from a two bit state (number {res[1]}): output {res[2]} is {res[3]:#x}, reference {res[4]:#x}",
                   {"number": res[1], "output": res[2]})


def advance_compiled(R, kind, positions, distances, after):
    from numba import njit
    from vlib import nb
    S = spec(kind)
    cls, per = S.cls, S.per
    init, block, ref_out = kernels(kind)
    dist = np.array(sorted(set(distances)), np.int64)
    pos = np.array(sorted(set(positions)), np.int64)
    aft = np.array([after], np.int64)
    total = int(pos[-1] + dist[-1] + after + per + 1)

    @njit(nogil=True)
    def fill(seed, ref):
        st = np.zeros(624, np.int64)
        init(seed, st)
        i = 0
        while i < len(ref):
            block(st)
            for j in range(per):
                if i < len(ref):
                    ref[i] = ref_out(st, j)
                    i += 1

    @njit(nogil=True)
    def k(lo, hi, out, ref, pos, dist, aft, seed):
        rng = cls(np.uint32(0))
        for a in range(lo, hi):
            p = pos[a % len(pos)]
            n = dist[a // len(pos)]
            rng.re_init(np.uint32(seed))
            for _ in range(p):
                rng.next()
            rng.advance(np.uint32(n))
            bad = False
            for j in range(aft[0]):
                v = np.uint64(rng.next())
                if v != ref[p + n + j] and not bad:
                    bad = True
                    if out[0] == 0:
                        out[1] = p
                        out[2] = n
                        out[3] = j
                        out[4] = v
                        out[5] = ref[p + n + j]
                    out[0] += np.uint64(1)
            out[8] += np.uint64(1)

    seed = R.seed * 2654435761 % (1 << 32)
    ref = np.zeros(total, np.uint64)
    fill(seed, ref)
    R.progress(f"{S.name}.advance, {len(pos)} positions x {len(dist)} distances")
    res = nb.par(k, len(pos) * len(dist), (ref, pos, dist, aft, seed))
    R.count("states", len(pos))
    R.count("transitions", res[8])
    R.count("traces_validated_against_impl", len(pos) * len(dist))
    if res[0]:
        R.fail(f"advance:{S.name}", f"{S.name}({seed}) after {res[1]} draws: advance({res[2]}) is not {res[2]} draws: output {res[3]} after it is "
               f"{res[4]:#x}, reference {res[5]:#x} ({res[0]} (position, distance) pairs differ)",
               {"seed": seed, "position": res[1], "distance": res[2]}, snip_advance(kind, seed, res[1], res[2], res[3] + 1))
    R.sample({"class": S.name, "positions": len(pos), "distances": len(dist), "longest": int(dist[-1])})


def far_compiled(R, kind, distances):
    """advances up to 2^32-1 against as many reference blocks"""
    from numba import njit
    S = spec(kind)
    cls, per = S.cls, S.per
    init, block, ref_out = kernels(kind)

    @njit(nogil=True)
    def ref_at(seed, blocks, i):
        st = np.zeros(624, np.int64)
        init(seed, st)
        for _ in range(blocks):
            block(st)
        return ref_out(st, i)

    @njit(nogil=True)
    def real_at(p, n):
        rng = cls(np.uint32(7))
        for _ in range(p):
            rng.next()
        rng.advance(np.uint32(n))
        return np.uint64(rng.next())

    real_at(0, 1)
    ref_at(7, 1, 1)
    R.progress(f"{S.name}: long advances {distances}")

    def body(case):
        p, n = case
        return int(real_at(p, n)), int(ref_at(7, (p + n) // per + 1, (p + n) % per))

    with ThreadPoolExecutor(8) as pool:
        results = list(pool.map(body, distances))
    for (p, n), (got, want) in zip(distances, results):
        R.count("transitions")
        R.count("states")
        if got != want:
            R.fail(f"far:{S.name}", f"{S.name}(7) after {p} draws and advance({n}) gives {got:#x}, reference {want:#x}",
                   {"position": p, "distance": n}, None)


def critical_maxima(kind, raw):
    """the maxima around which the draw of this raw output changes"""
    bits = 32 if kind == "mt" else 64
    top = (1 << bits) - 1
    s = set(range(1, 40)) | set(v for v in sets.near_powers(bits, 1) if v)
    s |= {raw - 1, raw, raw + 1, raw // 2, raw // 2 + 1, raw // 3}
    if kind == "mt":
        s |= set(sets.nearest(raw, 32, 4))
    if raw:
        for k in (1, 2, 3, 5, 17, 255, 1 << 16):
            q = -(-(k << bits) // raw)
            s |= {q - 1, q, q + 1}
    return sorted(v for v in s if 1 <= v <= top)


def draws(R, kind, count):
    """bounded draws at consecutive positions, every critical maximum of the raw output there"""
    S = spec(kind)
    seed = (R.seed * 40503 + 77) % (1 << 32)
    want = S.stream(seed)
    rng = S.cls(np.uint32(seed))
    n = 0
    p = 0
    step = [(op, i) for op in S.draws for i in (0, 1)]
    raw = want.at(0)
    todo = {}
    while n < count:
        raw = want.at(p)
        if p not in todo:
            todo = {p: critical_maxima(kind, raw)}
        # one draw moves on, so successive maxima are taken at successive positions: the maxima of
        # each raw output are visited in turn
        ms = critical_maxima(kind, raw)
        op, typed = step[n % len(step)]
        m = ms[(n // len(step)) % len(ms)]
        arg = S.T(m) if typed or m >= (1 << 63) else m
        got = int(getattr(rng, op)(arg))
        expected = draw_value(op, kind, raw, m)
        if got != expected or got >= m:
            R.fail(f"{op}:{S.name}", f"{S.name}({seed}) draw {p}: {op}({m}) with raw output {raw} gives {got}, expected {expected}",
                   {"seed": seed, "position": p, "operation": op, "maximum": m}, snip_draw(kind, seed, p, op, m))
            if R.full():
                return
        p += 1
        n += 1
        if n % 97 == 0:
            # the following raw output is where it should be
            if int(rng.next()) != want.at(p):
                R.fail(f"consume:{S.name}", f"{S.name}({seed}): after {p} bounded draws the next output is not output {p} of the stream",
                       {"seed": seed, "position": p}, None)
                return
            p += 1
    R.count("states", p)
    R.count("transitions", n)
    R.count("traces_validated_against_impl", 1)


def draws_all(R, kind, raws):
    """every critical maximum of each of `raws` consecutive raw outputs (the object is rebuilt to repeat a raw output)"""
    from numba import njit
    from vlib import nb
    S = spec(kind)
    cls, T = S.cls, S.T
    seed = (R.seed * 40503 + 99) % (1 << 32)
    want = S.stream(seed)
    rows = []
    for p in range(raws):
        for m in critical_maxima(kind, want.at(p)):
            rows.append((p, want.at(p), m))
    for opname in S.draws:
        mul = opname == "next_rand" and kind == "mt"
        arr = np.array([(p, m, draw_value(opname, kind, raw, m), want.at(p + 1)) for p, raw, m in rows], np.uint64)
        ns = {}
        exec(f"def call(rng, m):\n    return rng.{opname}(m)", ns)
        call = njit(nogil=True)(ns["call"])

        @njit(nogil=True)
        def k(lo, hi, out, arr):
            rng = cls(np.uint32(seed))
            for i in range(lo, hi):
                rng.re_init(np.uint32(seed))
                for _ in range(arr[i, 0]):
                    rng.next()
                v = np.uint64(call(rng, T(arr[i, 1])))
                w = np.uint64(rng.next())
                if v != arr[i, 2] or w != arr[i, 3]:
                    if out[0] == 0:
                        out[1] = arr[i, 0]
                        out[2] = arr[i, 1]
                        out[3] = v
                        out[4] = arr[i, 2]
                    out[0] += np.uint64(1)
        R.progress(f"{S.name}.{opname} at critical maxima")
        res = nb.par(k, len(arr), (arr,))
        R.count("states", raws)
        R.count("transitions", 2 * len(arr))
        R.count("traces_validated_against_impl", len(arr))
        if res[0]:
            R.fail(f"{opname}:{S.name}", f"{S.name}({seed}) draw {res[1]}: {opname}({res[2]}) gives {res[3]}, expected {res[4]}, or moves on by "
                   f"other than one output ({res[0]} of {len(arr)} differ)", {"seed": seed, "position": res[1], "maximum": res[2]},
                   snip_draw(kind, seed, res[1], opname, res[2]))


def seeds_plain(R, kind, seeds, n):
    S = spec(kind)
    refs.self_check()
    rng = None
    for i, seed in enumerate(seeds):
        R.progress(f"{S.name}({seed}) uncompiled")
        if rng is None or i % 2:
            rng = S.cls(np.uint32(seed) if i % 4 else seed)
        else:
            rng.re_init(np.uint32(seed))
        want = S.stream(seed).window(0, n)
        got = [int(rng.next()) for _ in range(n)]
        R.count("states")
        R.count("transitions", n)
        R.count("traces_validated_against_impl")
        if got != want:
            j = next(a for a in range(n) if got[a] != want[a])
            R.fail(f"stream:{S.name}", f"{S.name}({seed}): output {j} is {got[j]:#x}, reference {want[j]:#x}", {"seed": seed, "output": j},
                   snip_stream(kind, seed, j + 1))
            if R.full():
                return


def states_plain(R, kind, part, parts):
    if not state_layout(R, kind):
        return
    S = spec(kind)
    rng = S.cls(np.uint32(0))
    bits = range(32) if R.thorough else (0, 1, 7, 31)
    cases = [(w, b, f) for w in range(624) for b in bits for f in ((0, 0xFFFFFFFF) if R.thorough else (0 if (w + b) % 2 else 0xFFFFFFFF,))]
    n = S.per + 3
    for w, b, fill in cases[part::parts]:
        R.progress(f"{S.name} state word {w} bit {b} uncompiled")
        st = [fill] * 624
        st[w] ^= 1 << b
        rng.re_init(np.uint32(0))
        rng.state[:] = np.array(st, np.uint32)
        got = [int(rng.next()) for _ in range(n)]
        want = S.stream(0, st).window(0, n)
        R.count("states")
        R.count("transitions", n)
        R.count("traces_validated_against_impl")
        if got != want:
            j = next(a for a in range(n) if got[a] != want[a])
            R.fail(f"state:{S.name}", f"{S.name} from state {fill:#x}... with bit {b} of word {w} flipped: output {j} is {got[j]:#x}, reference "
                   f"{want[j]:#x}", {"word": w, "bit": b, "fill": fill, "output": j}, snip_state(kind, w, 1 << b, fill, j + 1))
            if R.full():
                return


def advance_plain(R, kind, positions, distances):
    S = spec(kind)
    seed = R.seed * 2654435761 % (1 << 32)
    want = S.stream(seed)
    for p in positions:
        for i, n in enumerate(distances):
            R.progress(f"{S.name}: {p} draws and advance({n}) uncompiled")
            rng = S.cls(np.uint32(seed))
            for _ in range(p):
                rng.next()
            rng.advance(np.uint32(n) if (i + p) % 2 else n)
            got = [int(rng.next()) for _ in range(3)]
            ref = want.window(p + n, p + n + 3)
            R.count("states")
            R.count("transitions")
            R.count("traces_validated_against_impl")
            if got != ref:
                R.fail(f"advance:{S.name}", f"{S.name}({seed}) after {p} draws: advance({n}) is not {n} draws (next outputs {got}, reference {ref})",
                       {"seed": seed, "position": p, "distance": n}, snip_advance(kind, seed, p, n, 3))
                if R.full():
                    return
