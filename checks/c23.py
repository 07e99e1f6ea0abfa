"""C23: the binary table reader returns exactly the fields that are present."""
import io
import itertools
import math
import struct
import numpy as np
from vlib import fb
from vlib.core import Task

LEVEL = "model_checking"
RULE = ("buffers are laid out by an independent encoder for every enumerated combination of present fields, storage order, values and layout, and read by the package; a state is one buffer, a "
        "transition one field read from it; every value read is compared with the value stored or the default of the absent field")
ASSUMPTIONS = ["the format is the public FlatBuffer format", "objects which the records take for granted (placement parameters, spawner field 20, the alpha traits) are present",
               "an absent field without a declared default reads as None"]
HEAD = "from numba_pokemon_prngs.data.fbs import encounter_la as L, flatbuffer_object as F\n"
WIDTHS = {"U8": "<B", "U16": "<H", "U32": "<I", "U64": "<Q", "I8": "<b", "I16": "<h", "I32": "<i", "I64": "<q", "F32": "<f", "F64": "<d"}


def bounds(tier):
    t = tier == "thorough"
    return ("generic record of 15 kinds of field: all 32768 presence subsets" + (" x 3 layouts" if t else "") + ", all storage orders of up to 5 fields, all boundary values of every width, strings and arrays of every length up to "
            + ("300" if t else "70") + "; all sequences of up to " + ("6" if t else "5") + " reads and skips over a table with every presence subset of its fields; "
            "every record type of the encounter files: all presence subsets of its optional fields x filler fields absent, present and alternating x 4 layouts")


def tasks(tier):
    return ([Task("generic", "numpy", timeout=3000, part=i, parts=3) for i in range(3)] + [Task("sequences", "numpy", timeout=3000, part=i, parts=3) for i in range(3)] +
            [Task("records", m, timeout=3000) for m in ("numpy", "numba")] + [Task("values", m, timeout=3000) for m in ("numpy", "numba")])


def limits(code):
    bits = 8 * struct.calcsize(code)
    if code == "<f":
        return [0.0, -0.0, 1.0, -1.0, 0.5, float(np.float32(0.1)), math.inf, -math.inf, float(np.finfo(np.float32).max), 1e-45 if False else float(np.float32(1e-45)), math.nan]
    if code == "<d":
        return [0.0, -0.0, 1.0, -1.0, 0.1, math.inf, -math.inf, 1.7976931348623157e308, 5e-324, math.nan]
    if code in ("<B", "<H", "<I", "<Q"):
        return sorted({0, 1, 127 % 2 ** bits, 128, 2 ** (bits - 1) - 1, 2 ** (bits - 1), 2 ** bits - 1, 0x0123456789ABCDEF % 2 ** bits, 0xFEDCBA9876543210 % 2 ** bits})
    return sorted({0, 1, -1, 2 ** (bits - 1) - 1, -2 ** (bits - 1), 100, -100, 0x0123456789ABCDEF % 2 ** (bits - 1), -(0x0123456789ABCDEF % 2 ** (bits - 1))})


def same(a, b):
    if isinstance(b, float) and isinstance(a, (float, np.floating)):
        return struct.pack("<d", a) == struct.pack("<d", b) or (math.isnan(a) and math.isnan(b))
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if b is None or isinstance(b, (bool, str)):
        return a is b if b is None else type(a) is type(b) and a == b
    return a is not None and a == b


def code_for(buf, lines):
    return HEAD + f"import math\nnan, inf = math.nan, math.inf\nbuf = bytearray.fromhex('{bytes(buf).hex()}')\n" + lines


LAYOUTS = ({}, {"vtable_after": True}, {"pad": 24}, {"share_vtables": True, "pad": 8})

# ---- a record with every kind of field
KINDS = ("U8", "F64", "I16", "string", "U64", "I8", "object", "F32", "enum", "array", "I32", "U16", "vec3f", "I64", "U32")
DEFAULTS = {"U8": 7, "F64": None, "I16": -3, "string": "none", "U64": None, "I8": None, "object": None, "F32": 2.5, "enum": None, "array": [], "I32": 0, "U16": None, "vec3f": None, "I64": -1, "U32": 99}
STORED = {"U8": 200, "F64": 0.1, "I16": -30000, "string": "K\u00e9tch\u2640m", "U64": 2 ** 64 - 3, "I8": -100, "object": (5, 6), "F32": -0.75, "enum": True, "array": [(1, 2), (3, None), (None, 4)], "I32": -2 ** 31,
          "U16": 65535, "vec3f": (1.5, -2.0, 0.25), "I64": -2 ** 63, "U32": 2 ** 32 - 1}


def inner(pair):
    return (2, {i: (fb.I32, v) for i, v in enumerate(pair) if v is not None})


def encoded(kind, value):
    if kind == "string":
        return ("string", value.encode())
    if kind == "object":
        return ("object", inner(value))
    if kind == "array":
        return ("array", [inner(p) for p in value])
    if kind == "vec3f":
        return ("object", (3, {i: (fb.F32, v) for i, v in enumerate(value) if v is not None}))
    if kind == "enum":
        return ("<b", int(value))
    return (WIDTHS[kind], value)


GENERIC = """
class Pair(F.FlatBufferObject):
    def __init__(self, buf, offset):
        super().__init__(buf, offset)
        self.values = (self.read_init_int(F.I32), self.read_init_int(F.I32))

class Record(F.FlatBufferObject):
    def __init__(self, buf, offset=None):
        super().__init__(buf, offset)
        self.values = {}
        for kind in KINDS:
            default = DEFAULTS[kind]
            if kind == "string":
                value = self.read_init_string() if default is None else self.read_init_string(default)
            elif kind == "object":
                value = self.read_init_object(Pair)
                value = value and value.values
            elif kind == "array":
                value = [p.values for p in self.read_init_object_array(Pair)]
            elif kind == "vec3f":
                value = self.read_init_vec3f()
                value = value and value.as_tuple()
            elif kind == "enum":
                value = self.read_init_int_enum(F.I8, bool)
            elif kind[0] == "F":
                value = self.read_init_float(getattr(F, kind)) if default is None else self.read_init_float(getattr(F, kind), default)
            else:
                value = self.read_init_int(getattr(F, kind)) if default is None else self.read_init_int(getattr(F, kind), default)
            self.values[kind] = value

def absolute(record, kind, position):
    default = DEFAULTS[kind]
    if kind == "string":
        return record.read_string(position, default)
    if kind == "object":
        value = record.read_object(Pair, position)
        return value and value.values
    if kind == "array":
        return [p.values for p in record.read_object_array(Pair, position)]
    if kind == "vec3f":
        value = record.read_vec3f(position)
        return value and value.as_tuple()
    if kind == "enum":
        return record.read_int_enum(F.I8, position, bool)
    if kind[0] == "F":
        return record.read_float(getattr(F, kind), position, default)
    return record.read_int(getattr(F, kind), position, default)
"""


def scope_of(kinds=KINDS):
    scope = {"KINDS": kinds, "DEFAULTS": DEFAULTS}
    exec(HEAD + GENERIC, scope)
    return scope


def prelude(kinds):
    return f"KINDS, DEFAULTS = {kinds!r}, {DEFAULTS!r}\n" + GENERIC


def check_generic(R, scope, kinds, values, order=None, layout=None, count=None, back=False):
    """one record: `values` of the present kinds; every field by counter and by position"""
    present = {i: encoded(k, values[k]) for i, k in enumerate(kinds) if k in values}
    size = (max(present) + 1 if present else 0) if count is None else count
    buf = fb.Builder(**(layout or {})).finish(size, present, order)
    record = scope["Record"](buf)
    n = 0
    positions = list(enumerate(kinds))
    for i, kind in reversed(positions) if back else positions:
        want = values.get(kind, DEFAULTS[kind])
        for how, got in (("in turn", record.values[kind]), ("by position", scope["absolute"](record, kind, 4 + 2 * i))):
            n += 1
            if not same(got, tuple(want) if kind in ("object", "vec3f") and want is not None else want):
                R.fail(f"{kind}:{how}", f"record with the fields {sorted(values)}{'' if order is None else f' stored in the order {order}'}: {kind} read {how} is {got!r}, expected {want!r}",
                       {"present": sorted(values), "order": order, "layout": layout},
                       code_for(buf, prelude(kinds) + f"r = Record(buf)\ngot = {'r.values[%r]' % kind if how == 'in turn' else 'absolute(r, %r, %d)' % (kind, 4 + 2 * i)}\nassert repr(got) == repr({want!r}), got\n"))
    return n


def generic(R, part, parts):
    scope = scope_of()
    n = buffers = 0
    for mask in range(2 ** len(KINDS)):
        if mask % parts != part:
            continue
        values = {k: STORED[k] for i, k in enumerate(KINDS) if mask >> i & 1}
        layouts = LAYOUTS[1:] if R.thorough else (LAYOUTS[mask // parts % 4],)
        for layout in layouts:
            present = [i for i in range(len(KINDS)) if mask >> i & 1]
            turn = mask // parts % max(1, len(present))
            order = present[turn:] + present[:turn]
            if mask // parts % 2:
                order.reverse()
            n += check_generic(R, scope, KINDS, values, order, layout, len(KINDS) if mask // parts % 3 == 0 else None, mask % 5 == 0)
            buffers += 1
        if mask % 1024 < parts:
            R.progress(f"presence {mask:#x}")
        if R.full():
            return
    # every storage order of every choice of up to five of these kinds
    for number, chosen in enumerate(itertools.combinations(KINDS, 5 if R.thorough else 4)):
        if number % parts != part:
            continue
        present = [KINDS.index(k) for k in chosen]
        for order in itertools.permutations(present):
            n += check_generic(R, scope, KINDS, {k: STORED[k] for k in chosen}, list(order), LAYOUTS[number % 4])
            buffers += 1
        if R.full():
            return
    R.sample({"fields": [KINDS[i] for i in present], "order": list(order)})
    R.count("states", buffers)
    R.count("transitions", n)
    R.count("traces_validated_against_impl", buffers)


def values(R):
    """every boundary value of every width; strings and arrays of every length"""
    n = buffers = 0
    top = 300 if R.thorough else 70
    for kind in KINDS:
        if kind in WIDTHS:
            choices = limits(WIDTHS[kind])
        elif kind == "string":
            choices = ["x" * k for k in (*range(top), 127, 128, 129, 255, 256, 257, 511, 513, 32767, 32768, 65535, 65536, 65537, 70001)] + ["\u00e9" * k for k in range(1, 40)] + ["\0", "a\0b", "\U0001F600", "\u2640\u2642", "\n"]
        elif kind == "array":
            choices = [[(i, -i) if i % 3 else (None, i) for i in range(k)] for k in (*range(top), 127, 128, 129, 255, 256, 257, 1000)] + [[(5, 6)] * 65537]
        elif kind == "enum":
            choices = [False, True]
        elif kind == "vec3f":
            choices = [tuple(v) for v in itertools.product((None, 0.0, -1.5, 1e30 if False else 2.0 ** 100), repeat=3)]
        else:
            choices = [(a, b) for a in (None, 0, -1, 2 ** 31 - 1) for b in (None, 0, 5, -2 ** 31)]
        for around in ((), ("U64", "I8", "string"), KINDS):
            kinds = tuple(dict.fromkeys((*around[:len(around) // 2], kind, *around[len(around) // 2:]))) if around else (kind,)
            scope = scope_of(kinds)
            for number, value in enumerate(choices):
                R.progress(f"{kind} {str(value)[:60]}")
                n += check_generic(R, scope, kinds, {**{k: STORED[k] for k in kinds}, kind: value}, None, LAYOUTS[number % 4])
                buffers += 1
                if R.full():
                    return
    # flags and dump
    F = scope_of()["F"]
    for raw in range(-128, 128):
        buf = fb.Builder().finish(1, {0: ("<b", raw)})
        record = F.FlatBufferObject(buf)
        got = [record.read_int_enum(F.I8, 4, bool), record.read_int_enum(F.I8, 4, int), record.read_int_enum(F.U8, 4, int)]
        n += 3
        if got != [bool(raw), raw, raw & 255]:
            R.fail("enum", f"the byte {raw} reads as {got}", {"raw": raw}, code_for(buf, f"r = F.FlatBufferObject(buf)\ngot = [r.read_int_enum(F.I8, 4, bool), r.read_int_enum(F.I8, 4, int), r.read_int_enum(F.U8, 4, int)]\nassert got == {[bool(raw), raw, raw & 255]}, got\n"))
        for default in (None, True, 3):
            n += 1
            if record.read_int_enum(F.I8, 6, bool, default) is not default:
                R.fail("enum default", f"an absent enumeration with the default {default} reads as {record.read_int_enum(F.I8, 6, bool, default)}", None, code_for(buf, f"assert F.FlatBufferObject(buf).read_int_enum(F.I8, 6, bool, {default}) is {default}\n"))
        stream = io.BytesIO()
        record.dump_binary(stream)
        n += 1
        if stream.getvalue() != bytes(buf):
            R.fail("dump", "the buffer written out differs", None, code_for(buf, "import io\ns = io.BytesIO()\nF.FlatBufferObject(buf).dump_binary(s)\nassert s.getvalue() == bytes(buf)\n"))
    R.count("states", buffers + 256)
    R.count("transitions", n)
    R.count("traces_validated_against_impl", buffers + 256)


# ---- sequences of reads
def sequences(R, part, parts):
    """the counter: all sequences of reads in turn, skips and reads by position"""
    F = scope_of()["F"]
    width = 8
    raws = [bytes((17 * i + 3 * j + 0x81) & 255 for j in range(8)) for i in range(width)]
    steps = [("init", k) for k in ("U8", "I16", "U32", "I64", "F32", "F64", "enum")] + [("pad", 0), ("pad", 1), ("pad", 3)] + [("at", "U16", 2), ("at", "F64", 5), ("at", "I8", 7)]
    depth = 6 if R.thorough else 5
    n = runs = number = 0
    tables = {}
    for mask in range(2 ** width):
        buf = fb.Builder(**LAYOUTS[mask % 4]).finish(width, {i: ("<Q", int.from_bytes(raws[i], "little")) for i in range(width) if mask >> i & 1})
        tables[mask] = buf

    def read(record, kind, position, init):
        name = "I8" if kind == "enum" else kind
        if kind == "enum":
            return record.read_init_int_enum(F.I8, int, -7) if init else record.read_int_enum(F.I8, position, int, -7)
        if kind[0] == "F":
            return record.read_init_float(getattr(F, name), -7.0) if init else record.read_float(getattr(F, name), position, -7.0)
        return record.read_init_int(getattr(F, name), -7) if init else record.read_int(getattr(F, name), position, -7)

    def stored(kind, index, mask):
        if index >= width or not mask >> index & 1:
            return -7.0 if kind[0] == "F" else -7
        return struct.unpack_from(WIDTHS["I8" if kind == "enum" else kind], raws[index])[0]

    for size in range(1, depth + 1):
        for sequence in itertools.product(steps, repeat=size):
            number += 1
            if number % parts != part:
                continue
            for mask in ((number * 37) & 255, 255, 0x55, 0xAA) if size < depth else ((number // parts * 37) & 255,):
                record = F.FlatBufferObject(tables[mask])
                at, runs = 0, runs + 1
                for step in sequence:
                    if step[0] == "pad":
                        record.read_init_padding(step[1])
                        at += step[1]
                        continue
                    index = at if step[0] == "init" else step[2]
                    got, want = read(record, step[1], 4 + 2 * index, step[0] == "init"), stored(step[1], index, mask)
                    at += step[0] == "init"
                    n += 1
                    if not same(got, want):
                        R.fail(f"sequence:{step[0]}:{step[1]}", f"fields present {mask:#04x}, reads {sequence}: {step} is {got!r}, expected {want!r}", {"mask": mask, "sequence": sequence}, None)
                        if R.full():
                            return
    R.count("states", len(tables))
    R.count("transitions", n)
    R.count("traces_validated_against_impl", runs)


# ---- the records of the encounter files: attribute -> (field index, encoded kind, default), and fields they take for granted
def record_specs():
    vec = ("object", (3, {0: (fb.F32, 1.5), 1: (fb.F32, -2.0), 2: (fb.F32, 8.25)}))
    times = {f"time_of_day_multipliers[{i}]": (2 + i, "<f", 0.0) for i in range(4)}
    weathers = {f"weather_multipliers[{i}]": (5 + i, "<f", 0.0) for i in range(1, 9)}
    return {
        "EncounterMultiplier8a": (14, {"species": (0, "<i", None), "form": (1, "<i", 0), **times, **weathers}, {}),
        "PokeMisc8a": (23, {"species": (0, "<i", None), "form": (1, "<i", 0), "alpha_level_index": (6, "<i", 0)}, {}),
        "PlacementSpawner8aF20": (9, {"encounter_table_id": (0, "<Q", None)}, {}),
        "PlacementParameters8a": (10, {"coordinates.as_tuple()": (7, vec, (1.5, -2.0, 8.25))}, {7: vec}),
        "PlacementSpawner8a": (23, {"spawner_id": (0, "<Q", None), "group_id": (1, "<Q", None), "min_spawn_count": (7, "<i", None), "max_spawn_count": (8, "<i", None), "is_mass_outbreak": (10, "bool", None),
                                    "is_water": (11, "bool", None), "is_sky": (12, "bool", None)},
                               {2: ("array", [(10, {7: vec}), (10, {})]), 20: ("array", [(9, {0: (fb.U64, 0xABCDEF0123456789)}), (9, {0: (fb.U64, 5)})])}),
        "EncounterTable8a": (6, {"table_id": (0, "<Q", None), "min_level": (1, "<i", None), "max_level": (2, "<i", None)}, {}),
        "EncounterSlot8a": (47, {"species": (0, "<i", None), "gender": (2, "<i", 0), "form": (3, "<i", None), "guaranteed_ivs": (25, "<i", None), "base_probability": (29, "<i", None),
                                 "override_min_level": (30, "<i", 0), "override_max_level": (31, "<i", 0)},
                            {45: ("object", (19, {7: (fb.F32, 0.5), 18: (fb.F32, 4.0)})), 46: ("object", (4, {1: (fb.I8, 1)}))}),
        "EncounterEligibilityTraits8a": (19, {**{f"time_of_day_multipliers[{i}]": (7 + i, "<f", 0.0) for i in range(4)}, **{f"weather_multipliers[{i}]": (10 + i, "<f", 0.0) for i in range(1, 9)}}, {}),
        "NewHugeOutbreakSecondWave8a": (9, {"encounter_table_id": (7, "<Q", None)}, {}),
        "NewHugeOutbreakGroup8a": (3, {"hash": (0, "<Q", None), "first_wave_encounter_table_id": (2, "<Q", None)}, {}),
        "NewHugeOutbreakGroupLotteryDetail8a": (2, {"hash": (0, "<Q", None)}, {}),
        "NewHugeOutbreakGroupLottery8a": (4, {"hash": (0, "<Q", None)}, {}),
        "Vec3F": (3, {"x": (0, "<f", None), "y": (1, "<f", None), "z": (2, "<f", None)}, {}),
    }


ALWAYS = {
    "PlacementSpawner8a": {"coordinates.as_tuple()": (1.5, -2.0, 8.25), "encounter_table_id": 0xABCDEF0123456789},
    "EncounterSlot8a": {"encounter_eligibility.time_of_day_multipliers": (0.5, 0.0, 0.0, 0.0), "encounter_eligibility.weather_multipliers": (1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 4.0), "is_alpha": True},
    "EncounterMultiplier8a": {"weather_multipliers[0]": 1.0, "len(weather_multipliers)": 9, "len(time_of_day_multipliers)": 4},
    "EncounterEligibilityTraits8a": {"weather_multipliers[0]": 1.0, "len(weather_multipliers)": 9, "len(time_of_day_multipliers)": 4},
    "EncounterTable8a": {"len(encounter_slots)": 0}, "NewHugeOutbreakGroup8a": {"len(wave_details)": 0}, "NewHugeOutbreakGroupLottery8a": {"len(full_table)": 0},
}


def attribute(record, text):
    if text.startswith("len("):
        return len(getattr(record, text[4:-1]))
    return eval("r." + text, {"r": record})


def records(R):
    scope = scope_of()
    L, F = scope["L"], scope["F"]
    n = buffers = 0
    for name, (size, fields, granted) in record_specs().items():
        cls = getattr(L, name, None) or getattr(F, name)
        optional = [a for a, (i, k, _d) in fields.items() if i not in granted]
        known = {i for i, _k, _d in fields.values()} | set(granted)
        known |= {1, 2, 3} if name == "NewHugeOutbreakGroupLottery8a" else {1} if name == "NewHugeOutbreakGroup8a" else {3} if name == "EncounterTable8a" else set()
        fillers = [i for i in range(size) if i not in known]
        R.progress(name)
        for mask in range(2 ** len(optional)):
            if R.numba and mask % 7 and mask != 2 ** len(optional) - 1:
                continue
            for fill in range(3) if len(optional) < 10 or mask % 3 == 0 else (mask % 3,):
                values, content = {}, dict(granted)
                for i in fillers:
                    if fill == 1 or fill == 2 and i % 2:
                        content[i] = (("<B", 0xA5), ("<I", 0xDEADBEEF), ("<Q", 0xFEEDFACECAFEBEEF))[i % 3]
                for j, a in enumerate(optional):
                    index, kind, default = fields[a]
                    if mask >> j & 1:
                        turn = mask // 3 + j
                        if kind == "bool":
                            values[a], content[index] = bool(turn % 2), ("<b", turn % 2)
                        else:
                            choices = limits(kind)
                            values[a] = choices[turn % len(choices)]
                            content[index] = (kind, values[a])
                    else:
                        values[a] = default
                for a, (index, kind, default) in fields.items():
                    if index in granted:
                        values[a] = default
                values.update(ALWAYS.get(name, {}))
                order = sorted(content, reverse=bool(mask & 1))
                count = size if fill else (max(content) + 1 if content else 0)
                b = fb.Builder(**LAYOUTS[(mask + fill) % 4])
                root = b.table(count, content, order)
                buf = bytearray(b.buf)
                record = cls(buf, root)
                buffers += 1
                for a, want in values.items():
                    n += 1
                    got = attribute(record, a)
                    if not same(got, want):
                        R.fail(f"{name}.{a}", f"{name} with the fields {sorted(content)}: {a} is {got!r}, expected {want!r}", {"record": name, "fields": sorted(content)},
                               code_for(buf, f"r = getattr(L, {name!r}, None) or F.{name}\nr = r(buf, {root})\ngot = {'len(r.' + a[4:] if a.startswith('len(') else 'r.' + a}\nassert repr(got) == repr({want!r}), got\n"))
                if R.full():
                    return
    # the alpha flags, the arrays and the lookups of the root records
    for flags in itertools.product((None, 0, 1), repeat=4):
        b = fb.Builder()
        root = b.table(4, {i: ("<b", f) for i, f in enumerate(flags) if f is not None})
        got, want = L.EncounterOybnTraits8a(bytearray(b.buf), root).is_alpha, any(flags[:2])
        n, buffers = n + 1, buffers + 1
        if got is not want:
            R.fail("is_alpha", f"alpha flags {flags}: {got}", {"flags": flags}, code_for(b.buf, f"assert L.EncounterOybnTraits8a(buf, {root}).is_alpha is {want}\n"))
    roots = {
        "EncounterMultiplier8aTable": ("encounter_multipliers", "multiplier_lookup", lambda i: (14, {0: (fb.I32, i + 1), **({1: (fb.I32, i % 3)} if i % 3 else {})}), lambda i: (i + 1, i % 3), "species", lambda i: i + 1),
        "PokeMisc8aTable": ("misc_list", "misc_lookup", lambda i: (7, {0: (fb.I32, i + 1), **({1: (fb.I32, i % 3)} if i % 3 else {}), 6: (fb.I32, i % 5)}), lambda i: (i + 1, i % 3), "alpha_level_index", lambda i: i % 5),
        "EncounterTable8aTable": ("encounter_tables", "encounter_table_lookup", lambda i: (4, {0: (fb.U64, 2 ** 63 + i), 1: (fb.I32, i), 2: (fb.I32, 2 * i)}), lambda i: 2 ** 63 + i, "max_level", lambda i: 2 * i),
        "NewHugeOutbreakGroupTable8a": ("groups", "group_lookup", lambda i: (3, {0: (fb.U64, 7 * i), 1: ("array", [(9, {7: (fb.U64, i + j)}) for j in range(i % 4)]), 2: (fb.U64, i)}), lambda i: 7 * i, "first_wave_encounter_table_id", lambda i: i),
        "NewHugeOutbreakGroupLotteryTable8a": ("lottery_groups", "lottery_group_lookup", lambda i: (4, {0: (fb.U64, 9 * i), **{k: ("array", [(2, {0: (fb.U64, 100 * k + j)}) for j in range((i + k) % 3)]) for k in (1, 2, 3)}}),
                                               lambda i: 9 * i, "hash", lambda i: 9 * i),
    }
    for name, (items, lookup, make, key, attr, value) in roots.items():
        for length in range(301 if R.thorough else 40):
            for layout in LAYOUTS:
                buf = fb.Builder(**layout).finish(1, {0: ("array", [make(i) for i in range(length)])})
                table = getattr(L, name)(buf)
                rows, found = getattr(table, items), getattr(table, lookup)
                buffers += 1
                n += 2 * length + 1
                ok = len(rows) == length == len(found) and all(getattr(rows[i], attr) == value(i) and found[key(i)] is rows[i] for i in range(length))
                if ok and name == "NewHugeOutbreakGroupTable8a":
                    ok = all([w.encounter_table_id for w in rows[i].wave_details] == [i + j for j in range(i % 4)] for i in range(length))
                if ok and name == "NewHugeOutbreakGroupLotteryTable8a":
                    for i in range(length):
                        parts = [[100 * k + j for j in range((i + k) % 3)] for k in (1, 2, 3)]
                        ok = ok and [[d.hash for d in t] for t in (rows[i].table_common, rows[i].table_rare_1, rows[i].table_rare_2)] == parts
                        ok = ok and [d.hash for d in rows[i].full_table] == sum(parts, []) and sorted(rows[i].full_table_lookup) == sorted(sum(parts, []))
                if not ok:
                    R.fail(name, f"{name} with {length} entries: the entries or their lookup differ from what is stored", {"length": length, "layout": layout},
                           code_for(buf, f"t = L.{name}(buf)\nassert len(t.{items}) == {length} == len(t.{lookup}) and [r.{attr} for r in t.{items}] == {[value(i) for i in range(length)]}\n"))
                    if R.full():
                        return
    for length in range(300 if R.thorough else 40):
        spawner = lambda i: (23, {0: (fb.U64, 3 * i), 1: (fb.U64, 5 * i + 1), 2: ("array", [(10, {7: ("object", (3, {0: (fb.F32, float(i))}))})]), 20: ("array", [(9, {0: (fb.U64, i)})])})
        buf = fb.Builder(share_vtables=bool(length & 1)).finish(1, {0: ("array", [spawner(i) for i in range(length)])})
        table = L.PlacementSpawner8aTable(buf)
        buffers += 1
        n += 4 * length
        if len(table.spawners) != length or any(s.spawner_id != 3 * i or s.encounter_table_id != i or s.coordinates.as_tuple() != (float(i), None, None) or table.spawner_table_lookup[3 * i] is not s or
                                               table.spawner_by_group[5 * i + 1] is not s for i, s in enumerate(table.spawners)):
            R.fail("PlacementSpawner8aTable", f"a table of {length} spawners differs from what is stored", {"length": length},
                   code_for(buf, f"t = L.PlacementSpawner8aTable(buf)\nassert [(s.spawner_id, s.encounter_table_id) for s in t.spawners] == {[(3 * i, i) for i in range(length)]} and all(t.spawner_table_lookup[3 * i] is s and t.spawner_by_group[5 * i + 1] is s for i, s in enumerate(t.spawners))\n"))
            if R.full():
                return
    R.count("states", buffers)
    R.count("transitions", n)
    R.count("traces_validated_against_impl", buffers)
