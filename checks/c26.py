"""C26: typed record layouts pack their declared fields and read the same in compiled code."""
import dataclasses
import importlib
import inspect
import itertools
import pkgutil
import struct
import sys
import types

from vlib.core import Task

LEVEL = "model_checking"
RULE = ("a configuration is a sequence of field types (scalars, nested records, arrays of scalars, of records and of arrays, unused bytes) declared through the layout decorator; a state is the "
        "content of the bytes of an array of three such records; a transition reads or writes one scalar of one record through attributes, items, columns or iteration, in code compiled or not, "
        "and the whole content of the bytes is compared with an independent packing by declared order and size after each")
ASSUMPTIONS = ["annotations are evaluated (no postponed annotations in record classes)", "the arrays are contiguous", "truth fields hold 0 or 1"]
TECHNIQUE = "explicit-state exploration of the real record types against an independent byte-level model, over all declarations up to a length"

# name: (how it is declared, size of its scalars and its structure)
SCALARS = {"BOOL8": "?", "U8": "B", "U16": "H", "U32": "I", "U64": "Q", "F32": "f"}
RECORDS = {"Inner": [("a", "U8"), ("b", "U16")],
           "Outer": [("p", "U32"), ("q", "Inner*2"), ("f", "F32"), ("z", "BOOL8")]}
KINDS = list(SCALARS) + ["Inner", "Outer", "U8*3", "U16*2", "U64*2", "F32*3", "Inner*2", "Outer*2", "U16*2*3", "U16*1", "Inner*1", "unused*5"]
FEW = ["BOOL8", "U8", "U16", "U64", "F32", "Inner", "F32*3", "Inner*2", "U16*2*3", "unused*5"]


def bounds(tier):
    t = tier == "thorough"
    return (f"{len(KINDS)} field types; uncompiled: all declarations of up to 3 fields" + (" and of 4 out of 10 types" if t else "") + "; compiled: all declarations of up to 2 fields"
            + (" and of 3 out of 10 types" if t else "") + "; declarations split over a base class at every point; every published record class; one class statement with all pairs of declarations; arrays and unused bytes of up to 65537 entries between two scalars, records of up to 300 fields; every scalar of every element read under 4 contents, "
            "written with 3 values; read-only arrays")


def tasks(tier):
    t = tier == "thorough"
    out = [Task("declared", "numba", timeout=3000, depth=2, shard=i, shards=7) for i in range(7)]
    out += [Task("declared", "numpy", timeout=3000, depth=3, shard=i, shards=4) for i in range(4)]
    out += [Task("factory", "numpy", timeout=3000)]
    out += [Task("published_task", "numba", timeout=3000, shard=i, shards=2) for i in range(2)] + [Task("published_task", "numpy", timeout=3000, shard=0, shards=1)]
    out += [Task("long", m, timeout=3000) for m in ("numba", "numpy")]
    if t:
        out += [Task("declared", "numba", timeout=3000, depth=3, few=True, shard=i, shards=14) for i in range(14)]
        out += [Task("declared", "numpy", timeout=3000, depth=4, few=True, shard=i, shards=8) for i in range(8)]
    return out


# ---- the model: leaves of a declaration
def declaration(kind):
    if kind.startswith("unused*"):
        return f"unused_bytes({kind[7:]})"
    base, *lengths = kind.split("*")
    text = base
    for length in lengths:
        text = f"dtype_array({text}, {length})"
    return f"Annotated[list[{base}], {text}]" if lengths else base


def leaves(kind):
    """([(path text, offset, struct code)], size); an array's last declared length is its first index"""
    if kind.startswith("unused*"):
        size = int(kind[7:])
        return [(f"[{i}]", i, "B") for i in range(size)], size
    base, *lengths = kind.split("*")
    found, size = [("", 0, SCALARS[base])] if base in SCALARS else None, struct.calcsize("<" + SCALARS[base]) if base in SCALARS else 0
    if found is None:
        found, size = layout(RECORDS[base])
    if lengths:
        dims = [int(x) for x in reversed(lengths)]
        out, step = [], size
        for index in itertools.product(*map(range, dims)):
            place = 0
            for i, d in zip(index, dims):
                place = place * d + i
            # one subscript for all dimensions: compiled code indexes arrays of arrays this way
            out += [("[" + ", ".join(map(str, index)) + "]" + path, place * step + offset, code) for path, offset, code in found]
        found, total = out, step
        for d in dims:
            total *= d
        size = total
    return found, size


def layout(fields):
    out, offset = [], 0
    for name, kind in fields:
        found, size = leaves(kind)
        out += [("." + name + path, offset + o, code) for path, o, code in found]
        offset += size
    return out, offset


def items(path):
    """attribute path as item path"""
    out = ""
    for part in path.replace("[", ".[").split("."):
        if part:
            out += part if part[0] == "[" else f"[{part!r}]"
    return out


LIMITS = {"?": [0, 1], "B": [0, 255, 0x5A], "H": [0, 0xFFFF, 0x8001], "I": [0, (1 << 32) - 1, 0x80C00001], "Q": [0, (1 << 64) - 1, (1 << 63) + 0x123456789], "f": [0.0, -1.5, 0.75]}


def contents(found, size, count):
    """byte contents of an array of `count` records: four patterns"""
    for pattern in range(4):
        data = bytearray(size * count)
        for i in range(count):
            for k, (_, offset, code) in enumerate(found):
                width = struct.calcsize("<" + code)
                if code == "?":
                    value = (k * 3 + i * 5 + pattern) % 2
                elif code == "f":
                    value = (k + 1) * 0.25 + i * 64 - pattern * 1000
                elif pattern < 2:
                    value = int.from_bytes(bytes((17 * k + 29 * i + 7 * j + 1 + pattern * 100) % 256 for j in range(width)), "little")
                else:
                    value = LIMITS[code][1] if pattern == 2 else (1 << 8 * width - 1) - i
                data[i * size + offset:i * size + offset + width] = struct.pack("<" + code, value)
        yield bytes(data)


HEAD = """import numpy as np
from typing import Annotated
from dataclasses import fields
from numba_pokemon_prngs.data.util import dtype_dataclass, dtype_array, unused_bytes, BOOL8, U8, U16, U32, U64, F32
from numba_pokemon_prngs.compilation import optional_njit
"""


def classes(name, fields, base=0):
    text = ""
    for record, its in RECORDS.items():
        text += f"@dtype_dataclass\nclass {record}:\n" + "".join(f"    {n}: {declaration(k)}\n" for n, k in its)
    if base:
        text += "@dtype_dataclass\nclass Base:\n" + "".join(f"    {n}: {declaration(k)}\n" for n, k in fields[:base])
        text += f"@dtype_dataclass\nclass {name}(Base):\n" + "".join(f"    {n}: {declaration(k)}\n" for n, k in fields[base:])
    else:
        text += f"@dtype_dataclass\nclass {name}:\n" + "".join(f"    {n}: {declaration(k)}\n" for n, k in fields)
    return text


def functions(found):
    """read every scalar of record i; write scalar number `which`; both through attributes and items; columns; iteration"""
    out = ""
    for style, form in (("attributes", lambda p: p), ("items", items)):
        out += f"@optional_njit\ndef read_{style}(array, i, whole, real):\n    t = array[i]\n"
        for k, (path, _, code) in enumerate(found):
            out += f"    {'real' if code == 'f' else 'whole'}[{k}] = t{form(path)}\n"
    style = "attributes"
    out += "@optional_njit\ndef write(array, i, which, whole, real):\n    t = array[i]\n"
    for k, (path, _, code) in enumerate(found):
        value = {"f": "np.float32(real)", "?": "whole != 0", "B": "np.uint8(whole)", "H": "np.uint16(whole)", "I": "np.uint32(whole)", "Q": "np.uint64(whole)"}[code]
        out += f"    {'el' if k else ''}if which == {k}:\n        t{path} = {value}\n"
    return out


def columns(fields):
    """(text of a function reading every scalar of every record by column and by iteration, expected order)"""
    text, order = "@optional_njit\ndef total(part):\n    n = 0.0\n    for x in part:\n        n += np.float64(x)\n    return n\n", []
    body, offset = "", 0
    for name, kind in fields:
        found, size = leaves(kind)
        base, *lengths = kind.split("*")
        dims = [int(x) for x in reversed(lengths)]
        if base in SCALARS or base == "unused":
            code = SCALARS.get(base, "B")
            width = struct.calcsize("<" + code)
            for n, index in enumerate(itertools.product(*map(range, dims))):
                body += f"    out[{len(order)}] = total(array[{name!r}]" + ("[:, " + ", ".join(map(str, index)) + "]" if dims else "") + ")\n"
                order.append([(None, offset + n * width, code)])
            if len(dims) == 1:
                body += f"    out[{len(order)}] = 0.0\n    for i in range(len(array)):\n        out[{len(order)}] += total(array[i].{name})\n"
                order.append([(None, offset + n * width, code) for n in range(dims[0])])
        elif base == "Inner" and len(dims) == 1:
            body += f"    out[{len(order)}] = 0.0\n    for i in range(len(array)):\n        for x in array[i].{name}:\n            out[{len(order)}] += np.float64(x.b) * 3.0 + np.float64(x.a)\n"
            order.append([(None, offset + 3 * n + (0 if c == "B" else 1), c) for n in range(dims[0]) for c in "BH"])
        offset += size
    return text + "@optional_njit\ndef by_column(array, out):\n" + (body or "    pass\n"), order


def build(name, source):
    module = types.ModuleType(name)
    sys.modules[name] = module
    exec(compile(source, name, "exec"), module.__dict__)
    return module


def same(code, got, want):
    return float(got) == want if code == "f" else int(got) == int(want)


def value_at(data, offset, code):
    return struct.unpack_from("<" + code, data, offset)[0]


def script(source, found, size, text):
    return f"""
{source}
import struct
size, found = {size}, {found!r}
assert record.itemsize == size, (record.itemsize, size)
for k, (path, offset, code) in enumerate(found):
    for i in range(3):
        data = bytearray(3 * size)
        width = struct.calcsize("<" + code)
        data[i * size + offset:i * size + offset + width] = struct.pack("<" + code, 1)
        array = np.frombuffer(data, record).view(np.recarray)
        for read in (read_attributes, read_items):
            whole, real = np.zeros(len(found), np.uint64), np.zeros(len(found), np.float32)
            read(array, i, whole, real)
            got = [float(a) + float(b) for a, b in zip(whole, real)]
            assert got == [1.0 if j == k else 0.0 for j in range(len(found))], (path, i, got)
        array = np.zeros(3, record).view(np.recarray)
        write(array, i, k, np.uint64(1), np.float32(1.0))
        assert array.tobytes() == bytes(data), (path, i, array)
# {text}
"""


def mistyped(record, found):
    """what is wrong with the types of the scalars, or None"""
    import numpy as np
    for path, _, code in found:
        part = record
        for name in path.split("."):
            name, _, index = name.partition("[")
            part = part[name] if name else part
            while index and part.subdtype:
                part = part.subdtype[0]
        if part != np.dtype("<" + code if code != "?" else "?"):
            return f"{path} is declared {np.dtype(code).name} and is {part}"
    return None


def examine(R, label, module, source, record, found, size, column=None, readonly=False):
    """all reads and writes of one layout; False when something is wrong"""
    import numpy as np
    mode = "compiled" if R.numba else "uncompiled"

    def report(what):
        R.fail("layout", f"{mode}: record of {label}: {what}", {"fields": label, "what": what}, script(source, found, size, "after: " + what.replace("\n", " ")))
        return False

    R.state(label)
    if record.itemsize != size:
        return report(f"its size is {record.itemsize}, its fields take {size}")
    wrong = mistyped(record, found)
    if wrong:
        return report(wrong)
    count, calls = 3, 0
    names = len(found)
    for content in contents(found, size, count):
        buffer = content if readonly else bytearray(content)
        array = np.frombuffer(buffer, record).view(np.recarray)
        for i in range(count):
            for style in ("attributes", "items"):
                whole, real = np.zeros(names, np.uint64), np.zeros(names, np.float32)
                getattr(module, "read_" + style)(array, i, whole, real)
                calls += names
                for k, (path, offset, code) in enumerate(found):
                    want = value_at(content, i * size + offset, code)
                    got = real[k] if code == "f" else whole[k]
                    if not same(code, got, want):
                        return report(f"read through {style}: [{i}]{path} gives {got}, its bytes hold {want}")
        if column and not readonly:
            out = np.zeros(len(column), np.float64)
            module.by_column(array, out)
            calls += len(column)
            for k, places in enumerate(column):
                want = sum(value_at(content, i * size + o, c) * (3 if c == "H" and len(places) > 1 and any(x[2] == "B" for x in places) else 1) for i in range(count) for _, o, c in places)
                if abs(float(out[k]) - want) > abs(want) * 1e-12:
                    return report(f"column or iteration {k} (bytes at {[o for _, o, _ in places]}) adds up to {out[k]}, its bytes to {want}")
        if bytes(buffer) != content:
            return report("reading changes the bytes")
    if readonly:
        R.count("transitions", calls)
        return True
    # writes: one scalar at a time, over a content that differs everywhere
    for start in list(contents(found, size, count))[::3]:
        for i in range(count):
            for k, (path, offset, code) in enumerate(found):
                for value in LIMITS[code]:
                    buffer = bytearray(start)
                    array = np.frombuffer(buffer, record).view(np.recarray)
                    module.write(array, i, k, np.uint64(0 if code == "f" else value), np.float32(value if code == "f" else 0))
                    calls += 1
                    want = bytearray(start)
                    width = struct.calcsize("<" + code)
                    want[i * size + offset:i * size + offset + width] = struct.pack("<" + code, value)
                    if buffer != want:
                        where = [j for j in range(len(want)) if want[j] != buffer[j]]
                        return report(f"writing {value} to [{i}]{path} leaves the bytes at {where} wrong")
    R.count("transitions", calls)
    R.count("traces_validated_against_impl")
    return True


def declared(R, depth, shard, shards, few=False):
    kinds = FEW if few else KINDS
    cases = [c for d in ([depth] if few else range(1, depth + 1)) for c in itertools.product(kinds, repeat=d)]
    if few:
        # those of the other tasks are not repeated
        cases = [c for c in cases if len(c) == depth]
    done = 0
    for number, kinds_ in enumerate(cases):
        if number % shards != shard or R.full():
            continue
        fields = [(f"x{i}", k) for i, k in enumerate(kinds_)]
        found, size = layout(fields)
        R.progress(" ".join(kinds_))
        text, column = columns(fields)
        source = HEAD + classes("Record", fields) + "record = Record.dtype\n" + functions(found) + text
        module = build(f"c26_{number}", source)
        if not examine(R, " ".join(kinds_), module, source, module.record, found, size, column):
            continue
        if len(kinds_) == 1:
            examine(R, " ".join(kinds_) + " (read-only)", module, source, module.record, found, size, column, readonly=True)
        # declared partly by a base class
        if not R.numba or len(kinds_) == 1:
            import numpy as np
            for base in range(1, len(fields)):
                split = build(f"c26_{number}_{base}", HEAD + classes("Record", fields, base))
                if split.Record.dtype != module.record or split.Base.dtype.itemsize != layout(fields[:base])[1]:
                    R.fail("base", f"record of {' '.join(kinds_)} whose first {base} fields come from a base class: {split.Record.dtype}, expected {module.record}", {"fields": kinds_, "base": base},
                           HEAD + classes("Record", fields) + "whole = Record.dtype\n" + classes("Record", fields, base) + "assert Record.dtype == whole, Record.dtype\n")
            # an instance holds what it is given
            given = list(range(len(fields)))
            instance = module.Record(*given)
            if [getattr(instance, n) for n, _ in fields] != given or instance.dtype != module.record:
                R.fail("instance", f"an instance of a record of {' '.join(kinds_)} does not hold what it is given", {"fields": kinds_}, None)
        done += 1
    R.sample({"declarations": done})


def factory(R):
    """one class statement run again with other field types: every pair of declarations, one after the other"""
    import numpy as np
    n = 0
    for size in (1, 2):
        names = [f"x{i}" for i in range(size)]
        source = (HEAD + classes("Nothing", [("x", "U8")])
                  + "def make(kinds):\n    @dtype_dataclass\n    class Record:\n" + "".join(f"        {x}: kinds[{i}]\n" for i, x in enumerate(names)) + "    return Record\n")
        module = build(f"c26_factory_{size}", source)
        made = {k: eval(declaration(k), module.__dict__) for k in KINDS}
        every = list(itertools.product(KINDS, repeat=size))
        # in pairs: all for one field; for two, each changes one or both
        pairs = [(a, b) for a in every for b in every if size == 1 or a[0] == b[0] or a[1] == b[1] or a == b[::-1]]
        for pair in pairs:
            results = [module.make([made[k] for k in kinds]) for kinds in pair]
            for kinds, cls in zip(pair, results):
                n += 1
                found, length = layout(list(zip(names, kinds)))
                if cls.dtype.itemsize != length or tuple(cls.dtype.names) != tuple(names) or mistyped(cls.dtype, found):
                    R.fail("factory", f"records made by one class statement with {pair}: the one of {kinds} has the layout {cls.dtype}", {"pair": pair},
                           source + f"a, b = make([{', '.join(declaration(k) for k in pair[0])}]), make([{', '.join(declaration(k) for k in pair[1])}])\n"
                           f"assert (a.dtype.itemsize, b.dtype.itemsize) == {tuple(layout(list(zip(names, k)))[1] for k in pair)}, (a.dtype, b.dtype)\n"
                           + "for cls, kinds in ((a, " + repr(pair[0]) + "), (b, " + repr(pair[1]) + ")):\n    for x, k in zip(cls.dtype.names, kinds):\n        print(x, k, cls.dtype[x])\n")
                    if R.full():
                        return
            R.state("factory", pair)
    R.count("transitions", n)
    R.count("traces_validated_against_impl", n)


def long(R):
    """long arrays and unused bytes between two scalars; records of many fields"""
    lengths = (6, 31, 32, 33, 127, 128, 129, 255, 256, 257, 1000, 32768, 65535, 65536, 65537)
    for number, (kind, length) in enumerate(itertools.product(("U8", "U16", "F32", "Inner", "U64", "unused"), lengths)):
        if R.numba and not R.thorough and (length not in (33, 129, 257, 65537) or kind in ("U16", "U64")):
            continue
        if R.full():
            return
        fields = [("x0", "U16"), ("x1", f"{kind}*{length}"), ("x2", "U32")]
        label = " ".join(k for _, k in fields)
        R.progress(label)
        found, size = layout(fields)
        middle = found[1:-1]
        per = len(middle) // length
        found = [found[0]] + middle[:per] + [x for i in sorted({length // 2, length - 2, length - 1}) for x in middle[i * per:(i + 1) * per]] + [found[-1]]
        source = HEAD + classes("Record", fields) + "record = Record.dtype\n" + functions(found)
        module = build(f"c26_long_{number}", source)
        examine(R, label, module, source, module.record, found, size)
    for count in ((10, 40, 70) if R.numba else (10, 40, 130, 260, 300)):
        if R.full():
            return
        kinds = [list(SCALARS)[(i * 5 + i // 6) % 6] if i % 9 else "Inner" for i in range(count)]
        fields = [(f"x{i}", k) for i, k in enumerate(kinds)]
        R.progress(f"{count} fields")
        found, size = layout(fields)
        # the scalars at the ends and every seventh are read and written
        some = [x for i, x in enumerate(found) if i < 4 or i >= len(found) - 4 or i % 7 == 0]
        source = HEAD + classes("Record", fields) + "record = Record.dtype\n" + functions(some)
        module = build(f"c26_fields_{count}", source)
        names = [n for n, _ in fields]
        if list(module.record.names) != names or mistyped(module.record, found):
            R.fail("layout", f"record of {count} fields has the layout {module.record}", {"fields": kinds}, HEAD + classes("Record", fields) + f"assert list(Record.dtype.names) == {names} and Record.dtype.itemsize == {size}\n")
            continue
        examine(R, f"{count} fields", module, source, module.record, some, size)


# ---- the package's own record classes
def published_leaves(dtype_or_class):
    """leaves of a declared field type, from the declaration alone"""
    import numpy as np
    kind = dtype_or_class
    if hasattr(kind, "__metadata__"):
        kind = kind.__metadata__[0]
    if dataclasses.is_dataclass(kind):
        return published(kind)
    if kind.subdtype:
        base, shape = kind.subdtype
        found, step = published_leaves(base)
        out = []
        for n, index in enumerate(itertools.product(*map(range, shape))):
            out += [("[" + ", ".join(map(str, index)) + "]" + p, n * step + o, c) for p, o, c in found]
        return out, step * int(np.prod(shape))
    if kind.names:
        out, offset = [], 0
        for name in kind.names:
            found, size = published_leaves(kind[name])
            out += [("." + name + p, offset + o, c) for p, o, c in found]
            offset += size
        return out, offset
    code = {"?": "?", "B": "B", "H": "H", "I": "I", "L": "Q", "Q": "Q", "f": "f"}[kind.char]
    return [("", 0, code)], struct.calcsize("<" + code)


def record_classes():
    import numpy as np
    import numba_pokemon_prngs.data as data
    found = {}
    for info in pkgutil.walk_packages(data.__path__, data.__name__ + "."):
        module = importlib.import_module(info.name)
        for name, cls in inspect.getmembers(module, inspect.isclass):
            if dataclasses.is_dataclass(cls) and isinstance(getattr(cls, "dtype", None), np.dtype):
                found[cls.__module__, cls.__name__] = cls
    return [found[k] for k in sorted(found)]


def published(cls):
    out, offset = [], 0
    for field in dataclasses.fields(cls):
        found, size = published_leaves(field.type)
        out += [("." + field.name + p, offset + o, c) for p, o, c in found]
        offset += size
    return out, offset


def published_task(R, shard, shards):
    every = record_classes()
    if len(every) < 3:
        R.note("no published record classes found")
    for number, cls in enumerate(every):
        if number % shards != shard:
            continue
        found, size = published(cls)
        label = cls.__name__
        R.progress(label)
        source = (f"import numpy as np\nfrom numba_pokemon_prngs.compilation import optional_njit\nfrom {cls.__module__} import {cls.__name__}\nrecord = {cls.__name__}.dtype\n" + functions(found))
        module = build(f"c26_published_{number}", source)
        examine(R, label, module, source, cls.dtype, found, size)
        R.sample({"class": label, "scalars": len(found), "bytes": size})
