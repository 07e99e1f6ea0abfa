"""C24: optional compilation decorators behave the same in every form and configuration."""
import itertools
import json
import os
import subprocess
import sys
import types
from concurrent.futures import ThreadPoolExecutor

from vlib.core import Task

LEVEL = "model_checking"
RULE = ("forms: every form of applying a decorator x every program it can carry x both modes is a configuration; the decorated function is run on the whole input set and the decorated "
        "class through every operation sequence up to the depth, against plain integer arithmetic; states are configurations and class states, transitions are calls; "
        "configurations of the environment: every setting x compiler present, hidden or blocked, each in its own process")
ASSUMPTIONS = ["a compiler that is installed but broken is not explored", "forms the compiler itself refuses (a tuple of types, a list of pairs as field declaration) are not explored"]
SETTINGS = [None, "TRUE", "FALSE", "", "true", "True", "1", "0", "yes", "on", "no", "TRUE ", " TRUE", "TRUEE", "TRU", "FALSE ", "false", "TRUE,FALSE", "2", "\"TRUE\"", "None"]


def bounds(tier):
    t = tier == "thorough"
    return (f"{len(FUNCTION_FORMS)} function forms x {len(FUNCTIONS)} programs, {len(CLASS_FORMS)} class forms x with and without postponed annotations, class operation sequences up to "
            f"depth {5 if t else 4}; all scalar, string, truth, array, tuple and class types in signatures; {len(SETTINGS)} environment values x compiler present, hidden, blocked; "
            "every module imported first in its own process x 3 configurations")


def tasks(tier):
    out = []
    for mode in ("numba", "numpy"):
        shards = 6 if mode == "numba" else 1
        out += [Task("functions", mode, timeout=3000, shard=i, shards=shards) for i in range(shards)]
        shards = 3 if mode == "numba" else 1
        out += [Task("classes", mode, timeout=3000, shard=i, shards=shards) for i in range(shards)]
        out.append(Task("signatures", mode, timeout=3000))
        out.append(Task("containers", mode, timeout=3000))
    out.append(Task("settings", "numpy", cpus=4, timeout=3000))
    out.append(Task("imports", "numpy", cpus=4, timeout=3000))
    return out


# ---------------------------------------------------------------------------------------------- functions
M32, M64 = (1 << 32) - 1, (1 << 64) - 1


def inputs(bits, thorough):
    top = (1 << bits) - 1
    out = set(range(256)) | {1 << i for i in range(bits)} | {top ^ (1 << i) for i in range(bits)} | {top - i for i in range(64)}
    out |= {(1 << i) | (1 << j) for i in range(bits) for j in range(i)}
    if thorough:
        out |= {top ^ (1 << i) ^ (1 << j) for i in range(bits) for j in range(i)} | {((i * 0x01010101) ^ (i << 7)) & top for i in range(1 << 14)}
    return sorted(v & top for v in out)


# name: (body, signature, locals, argument type and width, integer meaning, what has to be declared)
FUNCTIONS = {
    "explicit": ("def f(x):\n    y = np.uint32(np.uint64(x) * np.uint64(0x41C64E6D) + np.uint64(0x6073))\n    return np.uint32(y ^ (y >> np.uint32(11)))\n",
                 "return_type(np.uint32, (np.uint32,))", "{'y': np.uint32}", ("np.uint32", 32),
                 lambda x: (lambda y: y ^ (y >> 11))((x * 0x41C64E6D + 0x6073) & M32), ""),
    "declared local": ("def f(x):\n    y = x + np.uint32(0x9E3779B9)\n    return y >> np.uint32(7)\n",
                       "return_type(np.uint32, (np.uint32,))", "{'y': np.uint32}", ("np.uint32", 32), lambda x: ((x + 0x9E3779B9) & M32) >> 7, "L"),
    "declared result": ("def f(x):\n    return x * np.uint32(5) + np.uint32(3)\n",
                        "return_type(np.uint32, (np.uint32,))", "{}", ("np.uint32", 32), lambda x: (x * 5 + 3) & M32, "S"),
    "wide": ("def f(x):\n    y = (x << np.uint64(13)) | (x >> np.uint64(51))\n    return y * np.uint64(0x5D588B656C078965)\n",
             "return_type(np.uint64, (np.uint64,))", "{'y': np.uint64}", ("np.uint64", 64), lambda x: (((x << 13) | (x >> 51)) & M64) * 0x5D588B656C078965 & M64, ""),
    "truth": ("def f(x):\n    return (x & np.uint16(0x8421)) != np.uint16(0)\n", "return_type(np.bool_, (np.uint16,))", "{}", ("np.uint16", 16), lambda x: int(x & 0x8421 != 0), ""),
    "loop": ("def f(x):\n    y = np.uint32(0)\n    for i in range(32):\n        if (x >> np.uint32(i)) & np.uint32(1):\n            y = np.uint32(y + np.uint32(i))\n    return y\n",
             "return_type(np.uint32, (np.uint32,))", "{'y': np.uint32}", ("np.uint32", 32), lambda x: sum(i for i in range(32) if x >> i & 1), ""),
}
# name: (expression applying the decorator to `f`, what it declares)
FUNCTION_FORMS = {
    "bare": ("optional_njit(f)", ""), "empty": ("optional_njit()(f)", ""), "none": ("optional_njit(None)(f)", ""), "named none": ("optional_njit(signature_or_function=None)(f)", ""),
    "signature": ("optional_njit(SIG)(f)", "S"), "signatures": ("optional_njit([SIG])(f)", "S"), "named signature": ("optional_njit(signature_or_function=SIG)(f)", "S"),
    "text signature": ("optional_njit(TEXT)(f)", "S"), "named function": ("optional_njit(signature_or_function=f)", ""),
    "locals": ("optional_njit(locals=LOC)(f)", "L"), "none and locals": ("optional_njit(None, LOC)(f)", "L"), "function and locals": ("optional_njit(f, locals=LOC)", "L"),
    "signature and locals": ("optional_njit(SIG, locals=LOC)(f)", "SL"), "signature, positional locals": ("optional_njit(SIG, LOC)(f)", "SL"),
    "signature and empty locals": ("optional_njit(SIG, locals={})(f)", "S"), "signature and no locals": ("optional_njit(SIG, locals=None)(f)", "S"),
    "shared locals": ("(lambda shared: [optional_njit(SIG, locals=shared)(f) for _ in range(2)][1])(LOC)", "SL"),
    "nogil": ("optional_njit(nogil=True)(f)", ""), "function and nogil": ("optional_njit(f, nogil=True)", ""), "signature and nogil": ("optional_njit(SIG, nogil=True)(f)", "S"),
    "signature, locals, nogil": ("optional_njit(SIG, locals=LOC, nogil=True)(f)", "SL"), "fastmath": ("optional_njit(fastmath=True)(f)", ""),
    "no cache": ("optional_njit(cache=False)(f)", ""), "inline": ("optional_njit(inline='always')(f)", ""), "error model": ("optional_njit(error_model='numpy')(f)", ""),
    "bounds": ("optional_njit(boundscheck=True)(f)", ""), "several options": ("optional_njit(SIG, locals=LOC, nogil=True, fastmath=True, error_model='numpy')(f)", "SL"),
    "options from a dict": ("optional_njit(**{'locals': LOC, 'nogil': True})(f)", "L"),
}
HEAD = "import numpy as np\nfrom numba_pokemon_prngs.compilation import *\nfrom numba_pokemon_prngs.compilation import optional_njit, optional_jitclass, return_type, array_type, unituple_type\n"


def compiled(thing):
    """whether the decorated object is the compiler's, told by the compiler itself"""
    numba = sys.modules.get("numba")
    if numba is None:
        return False
    from numba.experimental.jitclass.base import JitClassType
    return numba.extending.is_jitted(thing) or isinstance(thing, JitClassType)


def build(name, source):
    module = types.ModuleType(name)
    sys.modules[name] = module
    exec(compile(source, name, "exec"), module.__dict__)
    return module


def functions(R, shard, shards):
    mode = "compiled" if R.numba else "uncompiled"
    n = calls = 0
    cases = [(p, f) for p in FUNCTIONS for f in FUNCTION_FORMS if set(FUNCTIONS[p][5]) <= set(FUNCTION_FORMS[f][1])]
    for k, (program, form) in enumerate(cases):
        if k % shards != shard or R.full():
            continue
        body, sig, loc, (kind, bits), meaning, _ = FUNCTIONS[program]
        text = "'" + {"np.bool_": "boolean"}.get(sig.split("(")[1].split(",")[0], sig.split("(")[1].split(",")[0].replace("np.", "")) + "(" + kind.replace("np.", "") + ")'"
        expression = FUNCTION_FORMS[form][0].replace("SIG", sig).replace("LOC", loc).replace("TEXT", text)
        source = HEAD + body + f"g = {expression}\n@optional_njit\ndef h(x):\n    return g(x)\n"
        R.progress(f"{mode} function {program} / {form}")
        xs = inputs(bits, R.thorough)
        import numpy as np
        cast = getattr(np, kind[3:])

        def report(what, x, got, want):
            R.fail(f"function:{form}", f"{mode}: {expression} on {program!r}: {what}", {"form": form, "program": program, "input": x, "got": got, "want": want},
                   source + (f"print(g({kind}({x})), h({kind}({x})))\nassert int(g({kind}({x}))) == int(h({kind}({x}))) == {want}\n" if x is not None else
                             f"import sys\nprint(g)\nassert hasattr(g, 'py_func') == {R.numba}\n"))
        n += 1
        try:
            module = build(f"form{k}", source)
            g, h = module.g, module.h
        except Exception as error:
            report(f"refused with {error!r}"[:400], xs[-1], None, meaning(xs[-1]))
            continue
        if compiled(g) != R.numba:
            report(f"the decorated function is {g!r}", None, None, None)
            continue
        for x in xs:
            want = meaning(x)
            try:
                got = int(g(cast(x))), int(h(cast(x)))
            except Exception as error:
                got = repr(error)
            calls += 2
            if got != (want, want):
                report(f"f({x:#x}) gives {got} (directly, through another decorated function), should be {want}", x, got, want)
                break
    R.count("states", n)
    R.count("transitions", calls)
    R.count("traces_validated_against_impl", n)
    R.sample({"mode": mode, "function_forms": n, "calls": calls})


# ---------------------------------------------------------------------------------------------- classes
BODY = '''
    def __init__(self, seed):
        self.seed = seed
        self.count = np.uint8(250)
        self.wide = np.uint64(0xFFFFFFFFFFFFFFF0)
        self.flag = False
        self.words = np.zeros(3, np.uint32)

    def next(self):
        self.seed = self.seed * np.uint32(0x41C64E6D) + np.uint32(0x6073)
        return self.seed >> np.uint32(16)

    def bump(self):
        self.count = self.count + np.uint8(3)
        self.flag = not self.flag
        return self.count

    def add(self, value):
        self.wide = self.wide + value
        return self.wide

    def store(self):
        self.words[np.int64(self.count % np.uint8(3))] = self.seed + self.words[0]
        return self.words[0]

    def reset(self, seed):
        self.seed = seed
        return self.flag
'''
HINTS = "    seed: np.uint32\n    count: np.uint8\n    wide: np.uint64\n    flag: np.bool_\n    words: array_type(np.uint32)\n"
SPEC = "{'seed': np.uint32, 'count': np.uint8, 'wide': np.uint64, 'flag': np.bool_, 'words': array_type(np.uint32)}"
HALF = "    seed: np.uint32\n    wide: np.uint64\n"
REST = "{'count': np.uint8, 'flag': np.bool_, 'words': array_type(np.uint32)}"
# name: (application to the class `C`, hints in the body)
CLASS_FORMS = {
    "bare": ("optional_jitclass(C)", HINTS), "empty": ("optional_jitclass()(C)", HINTS), "none": ("optional_jitclass(None)(C)", HINTS), "none none": ("optional_jitclass(None, None)(C)", HINTS),
    "fields": (f"optional_jitclass({SPEC})(C)", ""), "fields and hints": (f"optional_jitclass({SPEC})(C)", HINTS), "some fields and hints": (f"optional_jitclass({REST})(C)", HINTS),
    "class, fields": (f"optional_jitclass(C, {SPEC})", ""), "class, fields and hints": (f"optional_jitclass(C, {SPEC})", HINTS), "class, some fields, other hints": (f"optional_jitclass(C, {REST})", HALF),
    "class, some fields, all hints": (f"optional_jitclass(C, {REST})", HINTS), "class, no fields": ("optional_jitclass(C, {})", HINTS), "class, none": ("optional_jitclass(C, None)", HINTS),
    "named fields": (f"optional_jitclass(spec={SPEC})(C)", ""), "named fields and hints": (f"optional_jitclass(spec={SPEC})(C)", HINTS),
    "named some fields, other hints": (f"optional_jitclass(spec={REST})(C)", HALF), "named no fields": ("optional_jitclass(spec={})(C)", HINTS),
    "class, named fields": (f"optional_jitclass(C, spec={SPEC})", ""), "named class": ("optional_jitclass(cls_or_spec=C)", HINTS), "named class and fields": (f"optional_jitclass(cls_or_spec=C, spec={SPEC})", ""),
    "named first fields": (f"optional_jitclass(cls_or_spec={SPEC})(C)", ""), "named none and fields": (f"optional_jitclass(cls_or_spec=None, spec={SPEC})(C)", ""),
    "shared fields": (f"(lambda shared: [optional_jitclass(shared)(C), optional_jitclass(shared)(C)][1])({SPEC})", ""),
    "shared named fields": (f"(lambda shared: [optional_jitclass(spec=shared)(C), optional_jitclass(C, shared)][1])({SPEC})", ""),
    "wrapper used twice": (f"(lambda wrap: [wrap(C), wrap(C)][1])(optional_jitclass(spec={SPEC}))", ""),
    "hint wrapper used twice": ("(lambda wrap: [wrap(C), wrap(C)][1])(optional_jitclass())", HINTS),
}
OPS = ["next", "bump", "add", "store", "reset"]


class Model:
    def __init__(self, seed):
        self.seed, self.count, self.wide, self.flag, self.words = seed, 250, 0xFFFFFFFFFFFFFFF0, 0, [0, 0, 0]

    def step(self, op):
        if op == "next":
            self.seed = (self.seed * 0x41C64E6D + 0x6073) & M32
            return self.seed >> 16
        if op == "bump":
            self.count, self.flag = (self.count + 3) & 255, self.flag ^ 1
            return self.count
        if op == "add":
            self.wide = (self.wide + 7) & M64
            return self.wide
        if op == "store":
            self.words[self.count % 3] = (self.seed + self.words[0]) & M32
            return self.words[0]
        self.seed = 0xFFFFFFFF
        return self.flag

    def view(self):
        return self.seed, self.count, self.wide, self.flag, tuple(self.words)


def view(obj):
    return int(obj.seed), int(obj.count), int(obj.wide), int(obj.flag), tuple(int(v) for v in obj.words)


def classes(R, shard, shards):
    import numpy as np
    mode = "compiled" if R.numba else "uncompiled"
    n = calls = traces = 0
    depth = 5 if R.thorough else 4
    states = set()

    def step(obj, op):
        if op == "add":
            return int(obj.add(np.uint64(7)))
        if op == "reset":
            return int(obj.reset(np.uint32(0xFFFFFFFF)))
        return int(getattr(obj, op)())
    cases = []
    for form, (expression, hints) in CLASS_FORMS.items():
        cases.append((form, expression, f"class C:\n{hints}{BODY}", ""))
        if hints:
            cases.append((form + ", postponed annotations", expression, f"class C:\n{hints}{BODY}", "from __future__ import annotations\n"))
            if hints is HINTS:
                cases.append((form + ", inherited hints", expression, f"class B:\n{hints}    def both(self):\n        return self.seed\n\nclass C(B):\n{BODY}", ""))
                cases.append((form + ", hints in two classes", expression, f"class B:\n{HALF}    def both(self):\n        return self.seed\n\nclass C(B):\n"
                              + "".join(line + "\n" for line in HINTS.splitlines() if line + "\n" not in HALF) + BODY, ""))
    for k, (form, expression, body, future) in enumerate(cases):
        if k % shards != shard or R.full():
            continue
        source = future + HEAD + body + f"\nD = {expression}\n@optional_njit\ndef use(obj, k):\n    for _ in range(k):\n        obj.next()\n        obj.bump()\n    return obj\n"
        R.progress(f"{mode} class {form}")
        n += 1

        def report(what, program):
            R.fail(f"class:{form}", f"{mode}: {expression}: {what}", {"form": form}, source + program)
        try:
            D = build(f"cls{k}", source)
        except Exception as error:
            report(f"refused with {error!r}"[:400], "")
            continue
        use, D = D.use, D.D
        if compiled(D) != R.numba:
            report(f"the decorated class is {D!r}", f"assert hasattr(D, 'class_type') == {R.numba}\n")
            continue
        # every operation sequence up to the depth for the first form, a shorter depth for its variants
        deep = depth if "," not in form or form in CLASS_FORMS else depth - 1
        for length in range(deep + 1):
            for ops in itertools.product(OPS, repeat=length):
                try:
                    obj, model = D(np.uint32(0x80000001)), Model(0x80000001)
                    got, want = [], []
                    for op in ops:
                        got.append(step(obj, op))
                        want.append(model.step(op))
                        calls += 1
                    got.append(view(obj))
                except Exception as error:
                    got.append(repr(error))
                want.append(model.view())
                states.add(model.view())
                traces += 1
                if got != want:
                    report(f"after {list(ops)} the results and fields are {got}, should be {want}", f"""
o = D(np.uint32(0x80000001))
out = [int(o.add(np.uint64(7)) if op == 'add' else o.reset(np.uint32(0xFFFFFFFF)) if op == 'reset' else getattr(o, op)()) for op in {list(ops)}]
out.append((int(o.seed), int(o.count), int(o.wide), int(o.flag), tuple(int(v) for v in o.words)))
print(out)
assert out == {want}
""")
                    break
            else:
                continue
            break
        obj, model = D(np.uint32(5)), Model(5)
        for _ in range(40):
            model.step("next"), model.step("bump")
        if view(use(obj, 40)) != model.view() or view(obj) != model.view():
            report(f"used from a decorated function the fields are {view(obj)}, should be {model.view()}", f"""
o = use(D(np.uint32(5)), 40)
print(int(o.seed))
assert (int(o.seed), int(o.count)) == ({model.seed}, {model.count})
""")
        calls += 80
    R.count("states", n + len(states))
    R.count("transitions", calls)
    R.count("traces_validated_against_impl", traces)
    R.sample({"mode": mode, "class_forms": n, "sequences": traces})


# ---------------------------------------------------------------------------------------------- signatures
def signatures(R):
    import numpy as np
    mode = "compiled" if R.numba else "uncompiled"
    cases = []  # (name, source defining f, [(call, wanted expression value)])
    ints = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
    for t in ints:
        info = np.iinfo(t)
        values = sorted({0, 1, info.max, info.min, info.max - 1, info.max // 3})
        cases.append((f"{t} -> {t}", f"@optional_njit(return_type(np.{t}, (np.{t},)))\ndef f(x):\n    return x\n", [(f"int(f(np.{t}({v})))", v) for v in values]))
        cases.append((f"{t}, {t} -> truth", f"@optional_njit(return_type(np.bool_, (np.{t}, np.{t})))\ndef f(x, y):\n    return x < y\n",
                      [(f"bool(f(np.{t}({a}), np.{t}({b})))", a < b) for a in values for b in values]))
        cases.append((f"{t} -> pair", f"@optional_njit(return_type(unituple_type(np.{t}, 2), (np.{t}, np.{t})))\ndef f(x, y):\n    return y, x\n",
                      [(f"tuple(int(v) for v in f(np.{t}({a}), np.{t}({b})))", (b, a)) for a in values for b in values]))
        cases.append((f"{t} array", f"@optional_njit(return_type(np.{t}, (array_type(np.{t}), np.int64)))\ndef f(x, i):\n    return x[i]\n",
                      [(f"int(f(np.array({values}, np.{t}), np.int64({i})))", v) for i, v in enumerate(values)]))
        cases.append((f"{t} array result", f"@optional_njit(return_type(array_type(np.{t}), (np.{t}, np.int64)))\ndef f(x, i):\n    a = np.zeros(i, np.{t})\n    a[:] = x\n    return a\n",
                      [(f"[int(v) for v in f(np.{t}({v}), np.int64(3))]", [v] * 3) for v in values]))
        cases.append((f"{t} read-only array", f"@optional_njit(return_type(array_type(np.{t}, readonly=True), (np.{t},)))\ndef f(x):\n    return T\n".replace("def f", "def f", 1).replace(
            "@optional", f"T = np.array({values}, np.{t})\nT.flags.writeable = False\n@optional", 1), [(f"[int(v) for v in f(np.{t}(0))]", values)]))
        cases.append((f"{t} plane", f"@optional_njit(return_type(np.{t}, (array_type(np.{t}, 2), np.int64, np.int64)))\ndef f(x, i, j):\n    return x[i, j]\n",
                      [(f"int(f(np.array([{values}, {values[::-1]}], np.{t}), np.int64({i}), np.int64({j})))", [values, values[::-1]][i][j]) for i in range(2) for j in range(len(values))]))
        cases.append((f"{t} strided", f"@optional_njit(return_type(np.{t}, (array_type(np.{t}, 1, 'A'), np.int64)))\ndef f(x, i):\n    return x[i]\n",
                      [(f"int(f(np.array({values}, np.{t})[::2], np.int64({i})))", v) for i, v in enumerate(values[::2])]))
    for t in ("float32", "float64"):
        cases.append((f"{t} -> {t}", f"@optional_njit(return_type(np.{t}, (np.{t},)))\ndef f(x):\n    return x\n", [(f"float(f(np.{t}({v})))", v) for v in (0.0, 0.5, -2.25, 1e10 if t == "float64" else 1024.0)]))
    cases.append(("truth -> truth", "@optional_njit(return_type(np.bool_, (np.bool_,)))\ndef f(x):\n    return not x\n", [("bool(f(True))", False), ("bool(f(False))", True)]))
    cases.append(("text -> number", "@optional_njit(return_type(np.uint64, (np.str_,)))\ndef f(x):\n    t = np.uint64(0)\n    for c in x:\n        t = t * np.uint64(31) + np.uint64(ord(c))\n    return t\n",
                  [(f"int(f({s!r}))", __import__("functools").reduce(lambda a, c: (a * 31 + ord(c)) & M64, s, 0)) for s in ("", "a", "Rock Smash", "\u00e9t\u00e9", "\U0001F600x")]))
    cases.append(("text -> text", "@optional_njit(return_type(np.str_, (np.str_, np.str_)))\ndef f(x, y):\n    return x + '-' + y\n", [(f"f({a!r}, {b!r})", a + "-" + b) for a in ("", "a", "\u00e9") for b in ("", "bc")]))
    cases.append(("number -> text", "@optional_njit(return_type(np.str_, (np.uint8,)))\ndef f(x):\n    return 'yes' if x > 3 else 'no'\n", [("f(np.uint8(4))", "yes"), ("f(np.uint8(3))", "no")]))
    cases.append(("nothing", "@optional_njit(return_type(np.void, (array_type(np.uint32),)))\ndef f(x):\n    x[0] = np.uint32(9)\n", [("(lambda a: (f(a), int(a[0])))(np.zeros(2, np.uint32))", (None, 9))]))
    cases.append(("no arguments", "@optional_njit(return_type(np.uint8, ()))\ndef f():\n    return np.uint8(7)\n", [("int(f())", 7)]))
    cases.append(("list of arguments", "@optional_njit(return_type(np.uint32, [np.uint32, np.uint32]))\ndef f(x, y):\n    return x + y\n", [("int(f(np.uint32(0xFFFFFFFF), np.uint32(2)))", 1)]))
    cases.append(("generator of arguments", "@optional_njit(return_type(np.uint32, (t for t in (np.uint32, np.uint32))))\ndef f(x, y):\n    return x + y\n", [("int(f(np.uint32(0xFFFFFFFF), np.uint32(2)))", 1)]))
    gen = "from numba_pokemon_prngs.lcrng import PokeRNGMod\n"
    lc = [s for s in (0, 1, 0x12345678, M32)]
    cases.append(("class argument", gen + "@optional_njit(return_type(np.uint32, (PokeRNGMod,)))\ndef f(r):\n    return r.next()\n",
                  [(f"int(f(PokeRNGMod(np.uint32({s}))))", (s * 0x41C64E6D + 0x6073) & M32) for s in lc]))
    cases.append(("class result", gen + "@optional_njit(return_type(PokeRNGMod, (np.uint32,)))\ndef f(s):\n    return PokeRNGMod(s)\n",
                  [(f"int(f(np.uint32({s})).next())", (s * 0x41C64E6D + 0x6073) & M32) for s in lc]))
    cases.append(("class local", gen + "@optional_njit(return_type(np.uint32, (np.uint32,)), locals={'r': PokeRNGMod, 'y': np.uint32})\ndef f(s):\n    r = PokeRNGMod(s)\n    y = r.next()\n    return y\n",
                  [(f"int(f(np.uint32({s})))", (s * 0x41C64E6D + 0x6073) & M32) for s in lc]))
    for form in ("@optional_jitclass\nclass C:\n    r: PokeRNGMod\n", "@optional_jitclass()\nclass C:\n    r: PokeRNGMod\n", "@optional_jitclass({'r': PokeRNGMod})\nclass C:\n", "@optional_jitclass(spec={'r': PokeRNGMod})\nclass C:\n"):
        cases.append(("class field: " + form.split("\n")[0], gen + form + "    def __init__(self, s):\n        self.r = PokeRNGMod(s)\n    def go(self):\n        return self.r.next()\n",
                      [(f"int(C(np.uint32({s})).go())", (s * 0x41C64E6D + 0x6073) & M32) for s in lc]))
    cases.append(("class result, field", gen + "@optional_jitclass\nclass C:\n    r: PokeRNGMod\n    def __init__(self, s):\n        self.r = PokeRNGMod(s)\n    def go(self):\n        return self.r.next()\n"
                  "@optional_njit(return_type(np.uint32, (C,)))\ndef f(c):\n    return c.go()\n", [(f"int(f(C(np.uint32({s}))))", (s * 0x41C64E6D + 0x6073) & M32) for s in lc]))
    n = calls = 0
    for k, (name, source, checks) in enumerate(cases):
        if R.full():
            break
        R.progress(f"{mode} signature {name}")
        n += 1
        try:
            module = build(f"sig{k}", HEAD + source)
        except Exception as error:
            R.fail(f"signature:{name}", f"{mode}: signature {name} refused: {error!r}"[:600], {"signature": name}, HEAD + source)
            continue
        for call, want in checks:
            try:
                got = eval(call, module.__dict__)
            except Exception as error:
                got = repr(error)
            calls += 1
            if got != want:
                R.fail(f"signature:{name}", f"{mode}: signature {name}: {call} gives {got}, should be {want}", {"signature": name, "call": call},
                       HEAD + source + f"got = {call}\nprint(got)\nassert got == {want!r}\n")
                break
    # a hand-written lowering is only for the compiled mode
    from numba_pokemon_prngs import compilation
    if not R.numba:
        try:
            compilation.optional_ir_function(lambda x: x, None)
            R.fail("ir", "uncompiled: optional_ir_function accepts a function instead of raising NotImplementedError", {},
                   "from numba_pokemon_prngs.compilation import optional_ir_function\ntry:\n    optional_ir_function(lambda x: x, None)\nexcept NotImplementedError:\n    pass\nelse:\n    assert False\n")
        except NotImplementedError:
            pass
    else:
        source = HEAD + '''
import numba
def twice(x):
    raise NotImplementedError
@optional_ir_function(twice, numba.uint32(numba.uint32))
def lower(context, builder, sig, args):
    return builder.add(args[0], args[0])
@optional_njit(return_type(np.uint32, (np.uint32,)))
def f(x):
    return twice(x)
'''
        module = build("irf", source)
        for x in inputs(32, R.thorough):
            calls += 1
            if int(module.f(np.uint32(x))) != x * 2 & M32:
                R.fail("ir", f"a function lowered by hand returns {module.f(np.uint32(x))} for {x}", {"x": x}, source + f"assert f(np.uint32({x})) == {x * 2 & M32}\n")
                break
    R.count("states", n + 1)
    R.count("transitions", calls)
    R.count("traces_validated_against_impl", calls)
    R.sample({"mode": mode, "signatures": n, "calls": calls})


# ---------------------------------------------------------------------------------------------- containers
def containers(R):
    """every operation sequence on the optional list and dictionary types against the built-in ones"""
    import numpy as np
    from numba_pokemon_prngs import compilation as C
    depth = (5 if R.thorough else 4) if not R.numba else (4 if R.thorough else 3)
    calls = traces = 0
    states = set()
    ops = [("put", 0, 5), ("put", 1, 6), ("put", 0, 7), ("del", 0), ("get", 1), ("in", 0), ("clear",)]
    for key, value in ((np.uint8, np.uint32), (np.int64, np.uint16), (np.str_, np.uint8)):
        keys = ["zero", "one"] if key is np.str_ else [key(0), key(1)]
        for word in (w for n in range(depth + 1) for w in itertools.product(ops, repeat=n)):
            real, model = C.TypedDict(key, value), {}
            for op in word:
                def run(d):
                    k = keys[op[1]] if len(op) > 1 else None
                    try:
                        if op[0] == "put":
                            d[k] = value(op[2])
                        elif op[0] == "del":
                            del d[k]
                        elif op[0] == "get":
                            return int(d[k])
                        elif op[0] == "in":
                            return k in d
                        else:
                            d.clear()
                    except KeyError:
                        return "missing"
                    return None
                got, want = run(real), run(model)
                calls += 1
                shown = lambda d: sorted((str(k), int(v)) for k, v in d.items())
                if got != want or shown(real) != shown(model) or len(real) != len(model):
                    R.fail("TypedDict", f"TypedDict({key.__name__}, {value.__name__}) after {word}: {got}, {shown(real)}; a dictionary gives {want}, {shown(model)}", {"word": word})
                    return
            states.add((key.__name__, tuple(sorted((str(k), int(v)) for k, v in model.items()))))
            traces += 1
    ops = ["a", "b", "pop", "set", "get"]
    for word in (w for n in range(depth + 2) for w in itertools.product(ops, repeat=n)):
        real, model = C.TypedList(), []
        for op in word:
            if op in ("pop", "set", "get") and not model:
                continue
            def go(d):
                if op in "ab":
                    d.append(np.uint32(3 if op == "a" else M32))
                elif op == "pop":
                    return int(d.pop())
                elif op == "set":
                    d[0] = np.uint32(len(d))
                else:
                    return int(d[len(d) - 1])
                return None
            got, want = go(real), go(model)
            calls += 1
            if got != want or [int(v) for v in real] != [int(v) for v in model] or len(real) != len(model):
                R.fail("TypedList", f"TypedList after {word}: {got}, {list(real)}; a list gives {want}, {model}", {"word": word})
                return
        states.add(("list", tuple(int(v) for v in model)))
        traces += 1
    source = HEAD + """
@optional_njit
def fill(d, l, n):
    for i in range(n):
        d[np.uint8(i * 7)] = np.uint32(i * i)
        l.append(np.uint32(i + 1))
    t = np.uint32(0)
    for v in l:
        if np.uint8(v) in d:
            t = np.uint32(t + d[np.uint8(v)])
    return t
"""
    module = build("cont", source)
    for n in range(1, 64):
        d, lst = C.TypedDict(np.uint8, np.uint32), C.TypedList()
        lst.append(np.uint32(200))
        got = int(module.fill(d, lst, n))
        model, want = {i * 7 & 255: i * i for i in range(n)}, 0
        # later writes win
        for i in range(n):
            model[i * 7 & 255] = i * i
        want = sum(model.get(v & 255, 0) for v in [200] + [i + 1 for i in range(n)]) & M32
        calls += n
        if got != want or {int(k): int(v) for k, v in d.items()} != model or [int(v) for v in lst] != [200] + [i + 1 for i in range(n)]:
            R.fail("containers in functions", f"a decorated function filling both containers with {n} entries gives {got}, should be {want}", {"n": n})
            break
        traces += 1
    R.count("states", len(states))
    R.count("transitions", calls)
    R.count("traces_validated_against_impl", traces)


# ---------------------------------------------------------------------------------------------- settings
SCENARIO = r'''
import json, logging, sys
BLOCK = __BLOCK__
if BLOCK:
    sys.modules["numba"] = None
seen = []
class H(logging.Handler):
    def emit(self, record):
        if record.levelno >= logging.WARNING:
            seen.append(record.getMessage())
logging.getLogger().addHandler(H())
import numpy as np
import numba_pokemon_prngs
from numba_pokemon_prngs.options import USE_NUMBA
warned = len(seen)
out = []
from numba_pokemon_prngs.lcrng import PokeRNGMod
r = PokeRNGMod(np.uint32(0x12345678))
out += [int(r.next()) for _ in range(4)] + [int(r.next_u16()) for _ in range(4)]
from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection
x = Xoroshiro128PlusRejection(np.uint64(1))
out += [int(x.next()) for _ in range(3)]
from numba_pokemon_prngs.mersenne_twister import MersenneTwister
m = MersenneTwister(np.uint32(5489))
out += [int(m.next()) for _ in range(3)]
from numba_pokemon_prngs.fnv import fnv1a_64
out.append(int(fnv1a_64("abc")))
from numba_pokemon_prngs.util import hex_32, rotate_left_u32
out += [hex_32(np.uint32(0xBEEF)), int(rotate_left_u32(np.uint32(0x80000001), np.uint8(4)))]
from numba_pokemon_prngs.compilation import optional_njit, optional_jitclass
@optional_njit
def f(x):
    return x + 1
@optional_jitclass
class C:
    v: np.uint32
    def __init__(self):
        self.v = np.uint32(3)
out += [int(f(1)), int(C().v)]
print("RESULT" + json.dumps({"use": bool(USE_NUMBA), "compiled": [hasattr(f, "py_func"), hasattr(C, "class_type"), hasattr(PokeRNGMod, "class_type"), hasattr(fnv1a_64, "py_func")],
    "warned": warned, "later": len(seen) - warned, "out": out}))
'''


def scenario_expected():
    from vlib import refs
    out, s = [], 0x12345678
    for k in range(8):
        s = (s * 0x41C64E6D + 0x6073) & M32
        out.append(s if k < 4 else s >> 16)
    a, b = 1, 0x82A2B175229D6A5B
    rotl = lambda v, k: ((v << k) | (v >> (64 - k))) & M64
    for _ in range(3):
        out.append((a + b) & M64)
        b ^= a
        a, b = rotl(a, 24) ^ b ^ (b << 16 & M64), rotl(b, 37)
    st = [5489]
    for i in range(1, 624):
        st.append((1812433253 * (st[-1] ^ (st[-1] >> 30)) + i) & M32)
    for k in range(3):
        y = (st[k] & 0x80000000) | (st[k + 1] & 0x7FFFFFFF)
        v = st[k + 397] ^ (y >> 1) ^ (0x9908B0DF if y & 1 else 0)
        v ^= v >> 11
        v ^= v << 7 & 0x9D2C5680
        v ^= v << 15 & 0xEFC60000
        out.append(v ^ v >> 18)
    h = 0xCBF29CE484222645
    for c in b"abc":
        h = ((h ^ c) * 0x100000001B3) & M64
    out.append(h)
    return out + ["0000BEEF", 0x18, 2, 3]


def without_compiler(R):
    """a copy of the installed packages, by symbolic links, that lacks the compiler"""
    top = os.path.join(R.scratch, "packages")
    os.makedirs(top, exist_ok=True)
    import numpy
    source = os.path.dirname(os.path.dirname(numpy.__file__))
    for name in os.listdir(source):
        if not name.startswith(("numba", "llvmlite", "__pycache__", "_distutils", "distutils")) and not name.endswith(".pth"):
            try:
                os.symlink(os.path.join(source, name), os.path.join(top, name))
            except FileExistsError:
                pass
    return top


def run(R, program, setting, compiler, packages, cache):
    env = {k: v for k, v in os.environ.items() if k != "NPP_USE_NUMBA"}
    if setting is not None:
        env["NPP_USE_NUMBA"] = setting
    env["XDG_CACHE_HOME"] = cache
    argv = [sys.executable]
    if compiler == "hidden":
        argv.append("-S")
        env["PYTHONPATH"] = R.farm + ":" + packages
    else:
        env["PYTHONPATH"] = R.farm
    program = program.replace("__BLOCK__", str(compiler == "blocked"))
    try:
        done = subprocess.run(argv + ["-c", program], env=env, cwd=R.scratch, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=500)
    except subprocess.TimeoutExpired:
        return None, "did not finish"
    for line in done.stdout.splitlines():
        if line.startswith("RESULT"):
            return json.loads(line[6:]), done.stderr
    return None, done.stderr[-900:]


def settings(R):
    packages, want = without_compiler(R), scenario_expected()
    cases = [(s, c) for c in ("present", "hidden", "blocked") for s in SETTINGS]
    R.progress("environment settings")
    probe = subprocess.run([sys.executable, "-S", "-c", "import numpy, importlib.util as u\nassert u.find_spec('numba') is None"],
                           env={**os.environ, "PYTHONPATH": R.farm + ":" + packages}, capture_output=True, text=True)
    assert probe.returncode == 0, probe.stderr

    def one(case):
        return case, run(R, SCENARIO, case[0], case[1], packages, os.path.join(R.scratch, "cache"))
    with ThreadPoolExecutor(4) as pool:
        results = list(pool.map(one, cases))
    for (setting, compiler), (got, text) in results:
        on = setting in (None, "TRUE")
        use, warns = on and compiler == "present", on and compiler != "present"
        name = f"NPP_USE_NUMBA {'unset' if setting is None else repr(setting)}, compiler {compiler}"
        if got is None:
            problem = f"the package does not work: {text}"
        elif got["use"] != use:
            problem = f"USE_NUMBA is {got['use']}, should be {use}"
        elif got["compiled"] != [use] * 4:
            problem = f"compiled objects: {got['compiled']}, should all be {use}"
        elif bool(got["warned"]) != warns:
            problem = f"{got['warned']} warnings are logged when imported, should be {'one' if warns else 'none'}"
        elif got["out"] != want:
            problem = f"results {got['out']}, should be {want}"
        else:
            continue
        prefix = "" if compiler == "present" else "import sys\nsys.modules['numba'] = None\n"
        R.fail(f"setting:{setting}:{compiler}", f"{name}: {problem}", {"setting": setting, "compiler": compiler}, prefix + "import os\n" +
               ("os.environ.pop('NPP_USE_NUMBA', None)\n" if setting is None else f"os.environ['NPP_USE_NUMBA'] = {setting!r}\n") + SCENARIO.replace("__BLOCK__", "False")
               + f"assert bool(USE_NUMBA) == {use} and bool(warned) == {warns} and out == {want}\n")
    R.count("states", len(cases))
    R.count("transitions", len(cases) * len(want))
    R.count("traces_validated_against_impl", len(cases))
    R.sample({"settings": len(cases)})


def imports(R):
    """every module as the first import of its own process"""
    packages = without_compiler(R)
    names = []
    top = os.path.join(R.farm, "numba_pokemon_prngs")
    for directory, dirs, files in os.walk(top):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(directory, f), R.farm)[:-3].replace(os.sep, ".")
                names.append(rel[:-len(".__init__")] if rel.endswith(".__init__") else rel)
    cases = [(m, s, c) for s, c in (("FALSE", "present"), ("TRUE", "present"), (None, "hidden")) for m in sorted(names)]

    def one(case):
        module, setting, compiler = case
        program = ("import json, logging\nlogging.disable(logging.CRITICAL)\n"
                   f"import importlib\nm = importlib.import_module({module!r})\nfrom numba_pokemon_prngs.options import USE_NUMBA\n"
                   "print('RESULT' + json.dumps(bool(USE_NUMBA)))\n")
        return case, run(R, program, setting, compiler, packages, os.path.join(R.scratch, "cache-" + str(compiler) + str(setting)))
    R.progress("imports")
    with ThreadPoolExecutor(4) as pool:
        results = list(pool.map(one, cases))
    for (module, setting, compiler), (got, text) in results:
        if got is not ((setting == "TRUE") and compiler == "present"):
            R.fail(f"import:{module}", f"importing {module} first (NPP_USE_NUMBA {setting}, compiler {compiler}): {text if got is None else got}", {"module": module, "setting": setting, "compiler": compiler},
                   ("import sys\nsys.modules['numba'] = None\n" if compiler != "present" else "") + f"import os\nos.environ['NPP_USE_NUMBA'] = {setting or 'TRUE'!r}\nimport importlib\nimportlib.import_module({module!r})\n")
            if R.full():
                break
    R.count("states", len(cases))
    R.count("transitions", len(cases))
    R.count("traces_validated_against_impl", len(cases))
    R.sample({"modules": len(names)})
