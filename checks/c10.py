"""C10: a cached rand list is a sliding window over its generator's stream."""
import itertools
import numpy as np
from collections import deque
from vlib.core import Task
from vlib import machines, refs

LEVEL = "model_checking"
RULE = ("the real list is driven through every operation sequence up to the depth, and through every operation from every reachable (head, read "
        "position) control state, next to a model holding the window as a queue and the generator as a stream; every value read and the "
        "whole window afterwards are compared; a state is a history or a control state, a transition one operation")
ASSUMPTIONS = ["advance_states(0) is left out (whether sliding by nothing rewinds the read position is not documented)",
               "for lists above 64 entries the window is observed at the positions around 0, 2^8, 2^15, 2^16, the head and the end"]

CONFIGS = [  # rng class, function, output type, size
    ("PokeRNGMod", "next_u16", "uint16", 1), ("PokeRNGMod", "next_u16", "uint16", 2), ("PokeRNGMod", "next_u16", "uint16", 4),
    ("PokeRNGMod", "next", "uint32", 4), ("XDRNG", "next_u16", "uint64", 4), ("BWRNG", "next_u32", "uint32", 4),
    ("BWRNGR", "next", "uint64", 2), ("MersenneTwister", "next", "uint32", 4), ("SIMDFastMersenneTwister", "next", "uint64", 4),
    ("TinyMersenneTwister", "next", "uint32", 2), ("Xorshift128", "next", "uint32", 4), ("Xorshift128", "previous", "uint32", 2),
    ("Xoroshiro128PlusRejection", "next", "uint64", 4), ("SplitMixXoroshiro128Plus", "next", "uint32", 2),
    ("SplitMixXoroshiro128Plus", "next", "uint64", 8),
]
CONTROL = [("PokeRNGMod", "next_u16", "uint16", 16), ("BWRNG", "next_u32", "uint32", 32), ("Xorshift128", "next", "uint32", 8)]
LARGE = [("PokeRNGRDiv", "next_u16", "uint16", 256), ("BWRNG", "next_u32", "uint32", 1024), ("PokeRNGMod", "next", "uint32", 32768),
         ("XDRNG", "next_u16", "uint16", 65536), ("ARNG", "next", "uint32", 1 << 17)]


def bounds(tier):
    t = tier == "thorough"
    return (f"all sequences of length {6 if t else 4} (uncompiled {5 if t else 4}) over 11 operations (reads, advances 1..2^32-1, single and multiple slides, "
            f"re-init, drawing from and re-seeding the generator outside the list) for {len(CONFIGS)} configurations of sizes 1..8; every operation "
            "from every control state for sizes 8, 16 and 32; slides and reads at the 2^8, 2^15, 2^16 and 2^17 edges for sizes 256..131072; slides "
            "of 1..8*size+1 and up to 65541 from every head position of every configuration; every combination of 2 classes, 2 functions, 3 output "
            "types and 2 sizes (and 3 further ones) built one after the other in one process, objects of all of them alive at once; both modes")


def tasks(tier):
    t = []
    for mode in ("numba", "numpy"):
        t += [Task("histories", mode, timeout=3000, config=i) for i in range(len(CONFIGS))]
        t += [Task("control", mode, timeout=3000, config=i) for i in range(len(CONTROL))]
        t += [Task("large", mode, timeout=3000, config=i) for i in range(len(LARGE))]
    t += [Task("builds", mode, timeout=3000) for mode in ("numba", "numpy")]
    t += [Task("slides", mode, timeout=3000, part=i) for mode in ("numba", "numpy") for i in range(3)]
    return t


class Window:
    """the specification"""

    def __init__(self, gen, take, size):
        self.gen, self.take, self.size = gen, take, size
        self.fill()

    def fill(self):
        self.q = deque(self.take(self.gen) for _ in range(self.size))
        self.p = 0

    def get(self):
        v = self.q[self.p]
        self.p = (self.p + 1) % self.size
        return v

    def advance(self, n):
        self.p = (self.p + n) % self.size

    def key(self):
        return self.gen.key(), tuple(self.q), self.p

    def slide(self, n):
        for _ in range(n):
            self.q.popleft()
            self.q.append(self.take(self.gen))
        self.p = 0


def build(config):
    import numba_pokemon_prngs.lcrng as L
    import numba_pokemon_prngs.mersenne_twister as MT
    import numba_pokemon_prngs.xorshift as X
    from numba_pokemon_prngs.rng_list import build_rnglist
    name, fn, dtype, size = config
    cls = getattr(L, name, None) or getattr(MT, name, None) or getattr(X, name)
    made = build_rnglist(rng_class=cls, next_function_name=fn, state_type=getattr(np, dtype), size=size)
    M = machines.get(name)
    take = {"next": lambda m: m.out(), "next_u16": lambda m: m.top(), "next_u32": lambda m: m.top(), "previous": lambda m: m.back()}[fn]
    module = "lcrng" if hasattr(L, name) else "mersenne_twister" if hasattr(MT, name) else "xorshift"
    return made, M, take, module


def ops_for(M, size, model_seed):
    """(label, real(list, gen), model(window), code)"""
    reinit = next(o for o in M.ops if o.label.startswith("re_init"))
    nxt = M.ops[0]
    ops = [("get", lambda l, g: l.get_value(), lambda w: w.get(), "l.get_value()")]
    for n in (1, size - 1 or 3, size + 1, 0xFFFFFFFF):
        ops.append((f"advance({n})", lambda l, g, n=n: l.advance(np.uint32(n)) and None, lambda w, n=n: w.advance(n), f"l.advance(np.uint32({n}))"))
    ops.append(("advance_state()", lambda l, g: l.advance_state() and None, lambda w: w.slide(1), "l.advance_state()"))
    for n in (1, size, size + 1):
        ops.append((f"advance_states({n})", lambda l, g, n=n: l.advance_states(np.uint32(n)) and None, lambda w, n=n: w.slide(n),
                    f"l.advance_states(np.uint32({n}))"))
    ops.append(("re_init()", lambda l, g: l.re_init() and None, lambda w: w.fill(), "l.re_init()"))
    ops.append(("generator next()", lambda l, g: nxt.real(g) and None, lambda w: nxt.model(w.gen) and None, nxt.code))
    ops.append((f"generator {reinit.label}", lambda l, g: reinit.real(g) and None, lambda w: reinit.model(w.gen) and None, reinit.code))
    return ops


def program(config, module, M, hist, want):
    name, fn, dtype, size = config
    lines = [f"from numba_pokemon_prngs.{module} import {name}", "from numba_pokemon_prngs.rng_list import build_rnglist", "import numpy as np",
             f"rng = {M.make(0)}",
             f"l = build_rnglist(rng_class={name}, next_function_name={fn!r}, state_type=np.{dtype}, size={size})(rng)", "got = []"]
    for code in hist:
        lines.append(f"got.append({code})" if code == "l.get_value()" else code)
    lines.append(f"got = [int(v) for v in got]\nwant = {want}\nassert got == want, (got, want)")
    return "\n".join(lines)


def compare(R, config, module, M, take, ops, hist, lst, gen, win):
    """runs a history (list of indices into ops), reads the whole window, reports a difference"""
    size = config[3]
    got, want = [], []
    for k in hist:
        op = ops[k]
        a, b = op[1](lst, gen), op[2](win)
        R.state(config, win.key())
        if k == 0:
            got.append(int(a))
            want.append(b)
    for _ in range(size):
        got.append(int(lst.get_value()))
        want.append(win.get())
    if got != want:
        labels = [ops[k][0] for k in hist]
        codes = [ops[k][3] for k in hist] + ["l.get_value()"] * size
        R.fail(f"window:{config[0]}.{config[1]}:{size}", f"list of {size} x {config[2]} over {config[0]}.{config[1]}: after {labels} the values read are {got}, "
               f"expected {want}", {"config": config, "history": labels}, program(config, module, M, codes, want))
        return False
    return True


def histories(R, config):
    config = CONFIGS[config]
    made, M, take, module = build(config)
    size = config[3]
    ops = ops_for(M, size, None)
    depth = (6 if R.numba else 5) if R.thorough else 4
    heavy = not R.numba and config[0] in ("MersenneTwister", "SIMDFastMersenneTwister")
    if heavy:
        depth = 2
    gen = M.new(0)
    first = True
    n = 0
    for length in range(0, depth + 1) if heavy else (0, 1, depth):
        for hist in itertools.product(range(len(ops)), repeat=length):
            if n % 1024 == 0:
                R.progress(f"{config}: {[ops[k][0] for k in hist]}")
            gen = M.new(0)
            lst = made(gen)
            if not compare(R, config, module, M, take, ops, hist, lst, gen, Window(M.model(0), take, size)) and R.full():
                return
            n += 1
            R.count("transitions", length + size)
    R.count("traces_validated_against_impl", n)
    R.sample({"config": config, "depth": depth, "operations": [o[0] for o in ops]})


def control(R, config):
    config = CONTROL[config]
    made, M, take, module = build(config)
    size = config[3]
    ops = ops_for(M, size, None)
    slide = next(i for i, o in enumerate(ops) if o[0] == "advance_state()")
    step = next(i for i, o in enumerate(ops) if o[0] == "advance(1)")
    n = 0
    for h in range(size + 1):
        for p in range(size):
            R.progress(f"{config}: {h} slides, read position {p}")
            for k in range(len(ops)):
                hist = [slide] * h + [step] * p + [k]
                gen = M.new(0)
                if not compare(R, config, module, M, take, ops, hist, made(gen), gen, Window(M.model(0), take, size)) and R.full():
                    return
                n += 1
                R.count("transitions", len(hist) + size)
    R.count("traces_validated_against_impl", n)


def slides(R, part):
    """sliding by many states at once, from every head position"""
    n = 0
    for config in CONFIGS[part::3]:
        made, M, take, module = build(config)
        size = config[3]
        fast = R.numba or config[0] not in ("MersenneTwister", "SIMDFastMersenneTwister")
        lengths = list(range(1, 8 * size + 2)) + [99, 100, 255, 256, 257, 1000] + ([4096, 65535, 65536, 65541] if fast and R.numba else [4099] if fast else [])
        for h in range(size):
            for p in {0, size - 1}:
                for k in lengths:
                    if k > 1000 and (h, p) not in ((0, 0), (size - 1, size - 1)):
                        continue
                    R.progress(f"{config}: {h} slides, {p} advances, slide of {k}")
                    gen = M.new(0)
                    lst, win = made(gen), Window(M.model(0), take, size)
                    codes = ["l.advance_state()"] * h + [f"l.advance(np.uint32({p}))", f"l.advance_states(np.uint32({k}))"]
                    for _ in range(h):
                        lst.advance_state()
                    win.slide(h)
                    lst.advance(np.uint32(p))
                    win.advance(p)
                    lst.advance_states(k if n % 2 else np.uint32(k))
                    win.slide(k)
                    got, want = [int(lst.get_value()) for _ in range(size + 1)], [win.get() for _ in range(size + 1)]
                    lst.advance_state()
                    win.slide(1)
                    codes += ["l.get_value()"] * (size + 1) + ["l.advance_state()"] + ["l.get_value()"] * size
                    got += [int(lst.get_value()) for _ in range(size)]
                    want += [win.get() for _ in range(size)]
                    n += 1
                    R.state(config, h, p, k)
                    R.count("transitions", h + 3 + 2 * size)
                    if got != want:
                        R.fail(f"slide:{config[0]}.{config[1]}:{size}", f"list of {size} x {config[2]} over {config[0]}.{config[1]}: after {h} single slides, "
                               f"advance({p}) and advance_states({k}) the values read are {got}, expected {want}",
                               {"config": config, "slides": h, "position": p, "length": k}, program(config, module, M, codes, want))
                        if R.full():
                            return
    R.count("traces_validated_against_impl", n)


def builds(R):
    """list classes that differ in a single parameter, built in one process, and objects of all of them at once"""
    pool = [c for c in itertools.product(("PokeRNGMod", "XDRNG"), ("next", "next_u16"), ("uint16", "uint32", "uint64"), (2, 4))]
    pool += [("BWRNG", "next", "uint64", 4), ("BWRNG", "next_u32", "uint64", 4), ("Xorshift128", "previous", "uint32", 4)]
    alive = []
    for i, config in enumerate(pool + pool[::-1]):
        R.progress(f"build {i}: {config}")
        made, M, take, module = build(config)
        gen, win = M.new(0), Window(M.model(0), take, config[3])
        alive.append((config, made(gen), win))
        R.state(i, config)
    for step in range(3):
        for i, (config, lst, win) in enumerate(alive):
            size, dtype = config[3], np.dtype(config[2])
            got, want = [int(lst.get_value()) for _ in range(size)], [win.get() % (1 << 8 * dtype.itemsize) for _ in range(size)]
            if step:
                lst.advance_states(np.uint32(step))
                win.slide(step)
            R.count("transitions", size + 1)
            if got != want:
                R.fail(f"build:{config[0]}.{config[1]}", f"list of {size} x {config[2]} over {config[0]}.{config[1]}, built after other list classes "
                       f"({[c[0] for c in alive[:i]][-6:]}): reads {got}, expected {want}", {"config": config, "built before": [c[0] for c in alive[:i]]}, None)
                if R.full():
                    return
    R.count("traces_validated_against_impl", len(alive))


def large(R, config):
    config = LARGE[config]
    made, M, take, module = build(config)
    size = config[3]
    name = config[0]
    marks = sorted({p for e in (0, 255, 256, 32767, 32768, 65535, 65536, size - 1, size // 2) for p in (e - 1, e, e + 1) if 0 <= p < size})
    n = 0
    for label, slides in (("fresh", []), ("slid by 1", [1]), ("slid by 300", [300]), ("slid by size - 1", [size - 1]), ("slid by size", [size]),
                          ("slid by size + 3", [size + 3]), ("slid in two parts", [255, 2])):
        R.progress(f"{config} {label}")
        gen, win = M.new(0), Window(M.model(0), take, size)
        lst = made(gen)
        for s in slides:
            lst.advance_states(np.uint32(s))
            win.slide(s)
        for single in range(2):
            for p in marks:
                # from the read position to p, read twice
                k = (p - win.p) % size
                for d in (k, k + size) if p % 2 else (k,):
                    lst.advance(np.uint32(d))
                    win.advance(d)
                    got, want = [int(lst.get_value()) for _ in range(2)], [win.get() for _ in range(2)]
                    lst.advance(np.uint32(size - 2))
                    win.advance(size - 2)
                    if d != k:
                        pass
                    n += 4
                    if got != want:
                        R.fail(f"large:{size}", f"list of {size} x {config[2]} over {name}.{config[1]} {label}: positions {p}, {p + 1} read {got}, expected {want}",
                               {"config": config, "slides": slides, "position": p},
                               program(config, module, M, [f"l.advance_states({s})" for s in slides] + [f"l.advance(np.uint32({p}))", "l.get_value()", "l.get_value()"], want)
                               if not single else None)
                        if R.full():
                            return
                    k = (p - win.p) % size
            lst.advance_state()
            win.slide(1)
        # the whole window, read one after the other past its end
        got, want = [int(lst.get_value()) for _ in range(size + 2)], [win.get() for _ in range(size + 2)]
        n += size + 2
        if got != want:
            j = next(i for i in range(size + 2) if got[i] != want[i])
            R.fail(f"large:{size}", f"list of {size} over {name}.{config[1]} {label} and by 2 more: read {j} of the window gives {got[j]}, expected {want[j]}",
                   {"config": config, "slides": slides, "read": j}, None)
            if R.full():
                return
        R.state(config, label)
    R.count("transitions", n)
    R.count("traces_validated_against_impl", 7)
