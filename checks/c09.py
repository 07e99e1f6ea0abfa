"""C09: any history of operations equals the reference stream machine."""
import itertools
import numpy as np
from vlib.core import Task
from vlib import lcgs, machines, sets

LEVEL = "model_checking"
RULE = ("every operation sequence up to the depth is run on a real object and on an ideal machine that holds only the seed and the number of "
        "outputs consumed; every returned value and the two outputs after the last operation are compared; a state is a history, a transition one operation")
ASSUMPTIONS = ["the operation alphabet (listed per class in vlib/machines.py) holds the boundary arguments: 0, 1, just below/at/above a block, top bits"]

# (compiled quick, compiled thorough, uncompiled quick, uncompiled thorough)
DEPTHS = {"MersenneTwister": (5, 6, 3, 4), "SIMDFastMersenneTwister": (5, 6, 3, 4), "TinyMersenneTwister": (5, 6, 4, 5),
          "Xorshift128": (5, 6, 5, 6), "Xoroshiro128PlusRejection": (6, 7, 5, 6), "SplitMixXoroshiro128Plus": (6, 7, 5, 6)}
DEFAULT = (4, 5, 4, 5)


def depth(name, mode, tier):
    return DEPTHS.get(name, DEFAULT)[(0 if mode == "numba" else 2) + (tier == "thorough")]


def bounds(tier):
    return "; ".join(["re_init with every ordered pair of about 12 boundary seeds and a chain over all seeds of weight <= 2 (block generators uncompiled: 1), "
                      "their complements and zero-word combinations, from used objects; with every seed one bit away from the last one; of an LCRNG with every seed up to two bits or four units away from the one it stands at"] + [f"{n}: all histories of length {depth(n, 'numba', tier)} compiled, {depth(n, 'numpy', tier)} uncompiled" for n in machines.NAMES])


def tasks(tier):
    order = list(machines.BLOCKS) + list(machines.SHIFTS) + [n for n in machines.NAMES if n not in machines.BLOCKS and n not in machines.SHIFTS]
    return [Task("histories", mode, timeout=3000, name=n, depth=depth(n, mode, tier)) for n in order for mode in ("numpy", "numba")] + [
        Task("reseed", mode, part=i, timeout=3000) for mode in ("numpy", "numba") for i in range(4)]


def histories(R, name, depth):
    M = machines.get(name)
    ops = M.ops
    n = 0
    for k in range(len(ops)):
        for j, rest in enumerate(itertools.product(ops, repeat=depth - 1)):
            hist = (ops[k],) + rest
            if j % 512 == 0:
                R.progress(f"{name} histories from {hist}")
            g, m = M.new(0), M.model(0)
            bad = None
            for i, op in enumerate(hist):
                got, want = machines.value(op.real(g)), machines.value(op.model(m))
                R.state(name, m.key())
                # operations without a documented result may return anything
                if want is not None and got != want:
                    bad = (i, op, got, want)
                    break
            if bad is None:
                got, want = M.probe(g, m)
                if got != want:
                    bad = (depth, "next() twice", got, want)
            n += depth + 2
            if bad:
                i, op, got, want = bad
                short = hist[:i + 1]
                ref, model = [], M.model(0)
                for o in short:
                    ref.append(machines.value(o.model(model)))
                ref.append(model.out())
                code = M.program(short) + f"\nwant = {ref}\nprint(results, want)\nassert all(w is None or w == r for r, w in zip(results, want))"
                R.fail(f"history:{name}", f"{name}: after {[str(o) for o in hist[:i]]} the operation {op} gives {got}, expected {want}",
                       {"class": name, "history": [str(o) for o in short], "got": got, "want": want}, code)
                if R.full():
                    return
    R.count("transitions", n)
    R.count("traces_validated_against_impl", len(ops) ** depth)
    R.sample({"class": name, "alphabet": [str(o) for o in ops], "depth": depth})


def seed_family(name, wide):
    """(core seeds taken in all ordered pairs, seeds taken in a chain); a seed is the tuple of re_init's arguments"""
    if name == "Xorshift128":
        ws = (0, 1, 0x80000000, 0xFFFFFFFF, 0x12345678)
        chain = [s for s in itertools.product(ws, repeat=4) if any(s)]
        core = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0xFFFFFFFF,) * 4, (0, 5, 0, 6), (7, 0, 8, 0), (0x80000000, 1, 2, 3)]
        return core, chain
    if name == "Xoroshiro128PlusRejection":
        ws = (0, 1, 0xFFFFFFFF, 1 << 32, 1 << 63, (1 << 64) - 1, 0x82A2B175229D6A5B, 0x123456789)
        chain = [s for s in itertools.product(ws, repeat=2) if any(s)] + [(w,) for w in ws]
        chain += [(a, b) for a in (0, 3) for v in range(64) for b in (1 << v, ((1 << 64) - 1) ^ (1 << v))]
        core = [(0,), (1,), ((1 << 64) - 1,), (5, 0), (0, 5), (0, 0x82A2B175229D6A5B), (1 << 63, 0), (1, 1), (0xFFFFFFFF, 0), (0, 1 << 32), (9, 10)]
        return core, chain
    bits = 64 if name == "SplitMixXoroshiro128Plus" or (name in lcgs.CLASSES and lcgs.CLASSES[name][0] == 64) else 32
    top = (1 << bits) - 1
    chain = list(sets.weight(bits, 2 if wide else 1))
    chain += [v ^ top for v in chain] + sets.near_powers(bits, 2)
    core = [0, 1, 2, top, top - 1, top >> 1, (top >> 1) + 1, 0x12345678, 0xFFFF, 0x10000, 5489, 0x80000001]
    return [(v,) for v in core], [(v,) for v in chain]


def reseed(R, part):
    """an object seeded again equals the machine of that seed alone, whatever was done with it before"""
    n = 0
    for name in machines.NAMES[part::4]:
        M = machines.get(name)
        wide = R.numba or name not in ("MersenneTwister", "SIMDFastMersenneTwister")
        core, chain = seed_family(name, wide)
        is64 = name in ("SplitMixXoroshiro128Plus", "Xoroshiro128PlusRejection") or (name in lcgs.CLASSES and lcgs.CLASSES[name][0] == 64)
        T = np.uint64 if is64 else np.uint32
        order = [s for pair in itertools.product(core, repeat=2) for s in pair] + chain
        # back and forth between a seed and every seed one bit away
        for s in core[1:] if wide else core[1:2]:
            if len(s) == 1:
                order += [v for k in range(64 if is64 else 32) for v in ((s[0] ^ 1 << k,), s)]
            else:
                order += [v for i in range(len(s)) for k in range(64 if is64 else 32) for v in (s[:i] + (s[i] ^ 1 << k,) + s[i + 1:], s) if any(v)]
        g, before, j = M.new(0), None, 0
        t = f"np.{T.__name__}"
        for s in order:
            R.progress(f"{name}: re_init{s} after {before}")
            m = M.model(0)
            if name == "Xoroshiro128PlusRejection":
                m.reset(s if len(s) == 2 else (s[0], 0x82A2B175229D6A5B))
            else:
                m.reset(s if name == "Xorshift128" else s[0])
            typed = tuple(v if j % 3 == 0 and v < 1 << 63 else T(v) for v in s)
            use = j % 4
            g.re_init(*typed)
            got, want = [int(g.next()) for _ in range(2 + use)], [m.out() for _ in range(2 + use)]
            if hasattr(g, "previous") and j % 2:
                got += [int(g.previous()) for _ in range(3 + use)]
                want += [m.back() for _ in range(3 + use)]
            n += 1 + len(got)
            j += 1
            R.state(name, s)
            if got != want:
                first = "" if before is None else "rng.re_init(" + ", ".join(f"{t}({v})" for v in before) + ")\nrng.next()\n"
                code = (f"{M.imports}\nimport numpy as np\nrng = {M.make(0)}\n{first}rng.re_init(" + ", ".join(f"{t}({v})" for v in s) +
                        f")\ngot, want = [int(rng.next()) for _ in range({2 + use})], {want[:2 + use]}\nassert got == want, (got, want)\n")
                R.fail(f"reseed:{name}", f"{name}.re_init{s} on an object seeded {before} before gives {got}, expected {want}",
                       {"class": name, "before": before, "seed": s}, code)
                if R.full():
                    return
            before = s
        R.count("traces_validated_against_impl", len(order))
        if name in lcgs.CLASSES:
            n += relatives(R, name, M, T, core)
    R.count("transitions", n)


def relatives(R, name, M, T, core):
    """re_init with the seeds next to the one the object stands at: itself, one or two bits away, a few more or less"""
    bits = lcgs.CLASSES[name][0]
    masks = list(sets.weight(bits, 2))
    n = 0
    for (start,) in core[1:6:2]:
        for steps in (0, 1, 3):
            R.progress(f"{name}: re_init next to the seed {steps} steps after {start:#x}")
            m = M.model(0)
            m.reset(start)
            for _ in range(steps):
                m.out()
            here = m.s
            g = M.new(0)
            for s in [here ^ k for k in masks] + [(here + d) % (1 << bits) for d in range(-4, 5)]:
                g.re_init(T(here))
                g.re_init(T(s))
                m.reset(s)
                got, want = [int(g.next()), int(g.next())], [m.out(), m.out()]
                n += 4
                if got != want:
                    t = f"np.{T.__name__}"
                    code = f"{M.imports}\nimport numpy as np\nrng = {M.make(0)}\nrng.re_init({t}({here}))\nrng.re_init({t}({s}))\ngot, want = [int(rng.next()) for _ in range(2)], {want}\nassert got == want, (got, want)\n"
                    R.fail(f"reseed:{name}", f"{name}.re_init({s:#x}) on an object at {here:#x} gives {got}, expected {want}", {"class": name, "before": here, "seed": s}, code)
                    if R.full():
                        return n
            R.count("traces_validated_against_impl", len(masks) + 9)
    return n
