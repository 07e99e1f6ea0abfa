"""C11: Gen 5 initial seeds are the SHA-1 derived seeds."""
import hashlib
import itertools
import struct
import numpy as np
from vlib.core import Task
from vlib import sets

LEVEL = "model_checking"
RULE = ("the real SHA1 object is brought to each explored parameter combination through its setters (one seed computation is one transition) and the "
        "seed is compared with Python's hashlib SHA-1 of the independently packed 52-byte message followed by one step of the BW generator; "
        "histories of setters, precomputations and computations are enumerated to a depth against a model that knows only the current parameters")
ASSUMPTIONS = ["the game addresses (nazos) are data and are pinned as a table",
               "a computation with a precomputation older than the last date or timer change has no documented result and is not judged"]

NAZOS = {  # language, game -> (DS, DSi/3DS): one base address, or the three of Black 2 and White 2
    ("ENGLISH", "BLACK"): ((0x22160b0,), (0x2760190,)),
    ("ENGLISH", "WHITE"): ((0x22160d0,), (0x27601b0,)),
    ("ENGLISH", "BLACK2"): ((0x2200010, 0x209aee8, 0x2039de9), (0x27a5f70, 0x209aee8, 0x2039de9)),
    ("ENGLISH", "WHITE2"): ((0x2200050, 0x209af28, 0x2039e15), (0x27a5e90, 0x209af28, 0x2039e15)),
    ("FRENCH", "BLACK"): ((0x2216030,), (0x2760230,)),
    ("FRENCH", "WHITE"): ((0x2216050,), (0x2760250,)),
    ("FRENCH", "BLACK2"): ((0x2200030, 0x209af08, 0x2039df9), (0x27a5f90, 0x209af08, 0x2039df9)),
    ("FRENCH", "WHITE2"): ((0x2200050, 0x209af28, 0x2039e25), (0x27a5ef0, 0x209af28, 0x2039e25)),
    ("GERMAN", "BLACK"): ((0x2215ff0,), (0x27602f0,)),
    ("GERMAN", "WHITE"): ((0x2216010,), (0x27602f0,)),
    ("GERMAN", "BLACK2"): ((0x21fff50, 0x209ae28, 0x2039d69), (0x27a6110, 0x209ae28, 0x2039d69)),
    ("GERMAN", "WHITE2"): ((0x21fff70, 0x209ae48, 0x2039d95), (0x27a6010, 0x209ae48, 0x2039d95)),
    ("ITALIAN", "BLACK"): ((0x2215fb0,), (0x27601d0,)),
    ("ITALIAN", "WHITE"): ((0x2215fd0,), (0x27601d0,)),
    ("ITALIAN", "BLACK2"): ((0x21fff10, 0x209ade8, 0x2039d69), (0x27a5f70, 0x209ade8, 0x2039d69)),
    ("ITALIAN", "WHITE2"): ((0x21fff50, 0x209ae28, 0x2039d95), (0x27a5ed0, 0x209ae28, 0x2039d95)),
    ("JAPANESE", "BLACK"): ((0x2215f10,), (0x2761150,)),
    ("JAPANESE", "WHITE"): ((0x2215f30,), (0x2761150,)),
    ("JAPANESE", "BLACK2"): ((0x21ff9b0, 0x209a8dc, 0x2039ac9), (0x27aa730, 0x209a8dc, 0x2039ac9)),
    ("JAPANESE", "WHITE2"): ((0x21ff9d0, 0x209a8fc, 0x2039af5), (0x27aa5f0, 0x209a8fc, 0x2039af5)),
    ("KOREAN", "BLACK"): ((0x22167b0,), (0x2761150,)),
    ("KOREAN", "WHITE"): ((0x22167b0,), (0x2761150,)),
    ("KOREAN", "BLACK2"): ((0x2200750, 0x209b60c, 0x203a4d5), (0x2200770, 0x209b60c, 0x203a4d5)),
    ("KOREAN", "WHITE2"): ((0x2200770, 0x209b62c, 0x203a501), (0x27a57b0, 0x209b62c, 0x203a501)),
    ("SPANISH", "BLACK"): ((0x2216070,), (0x27601f0,)),
    ("SPANISH", "WHITE"): ((0x2216070,), (0x27601f0,)),
    ("SPANISH", "BLACK2"): ((0x21fffd0, 0x209aea8, 0x2039db9), (0x27a6070, 0x209aea8, 0x2039db9)),
    ("SPANISH", "WHITE2"): ((0x21ffff0, 0x209aec8, 0x2039de5), (0x27a5fb0, 0x209aec8, 0x2039de5)),
}


def bounds(tier):
    return ("compiled: all 84 version/language/console combinations x 24 parameter sets; all dates 2000-2099 x all days of week, all times x 3 consoles, "
            "all 65536 timers, all vcounts x boundary timers, weight <= 2 buttons and MACs, all frames and GX values; all combinations of boundary values of all "
            f"fields; all update histories of length <= {6 if tier == 'thorough' else 5}. Uncompiled: one field at a time at all its values (times and dates thinned), histories "
            f"of length <= {4 if tier == 'thorough' else 3}")


def tasks(tier):
    t = []
    for mode in ("numba", "numpy"):
        t += [Task("versions", mode), Task("dates", mode), Task("times", mode), Task("fields", mode), Task("product", mode), Task("histories", mode, timeout=3000)]
    return t


def swap(v):
    return int.from_bytes(v.to_bytes(4, "big"), "little")


def bcd(v):
    return int(str(v), 16)


class Params:
    """the current values of all parameters, and the seed they stand for"""

    def __init__(self, version, language, ds_type, mac, soft_reset, v_frame, gx_state):
        self.version, self.language, self.ds_type = version, language, ds_type
        self.mac, self.soft_reset, self.v_frame, self.gx = mac, soft_reset, v_frame, gx_state
        self.button, self.timer, self.date, self.time = None, None, None, None

    def message(self):
        n = NAZOS[self.language, self.version][self.ds_type != "DS"]
        if len(n) == 1:
            a = [n[0], n[0] + 0xFC, n[0] + 0xFC, n[0] + 0x148, n[0] + 0x148]
        else:
            a = [n[1], n[2], n[0], n[0] + 0x54, n[0] + 0x54]
        words = [swap(v) for v in a]
        timer0, vcount = self.timer
        words.append(swap(vcount << 16 | timer0))
        words.append(self.mac & 0xFFFF ^ (0x1000000 if self.soft_reset else 0))
        words.append((self.mac >> 16 & 0xFFFFFFFF) ^ self.v_frame << 24 ^ self.gx)
        y, mo, d, dow = self.date
        words.append(bcd(y - 2000) << 24 | bcd(mo) << 16 | bcd(d) << 8 | dow)
        h, mi, s = self.time
        pm = 0x40 if h >= 12 and self.ds_type != "DS3" else 0
        words.append(bcd(h) + pm << 24 | bcd(mi) << 16 | bcd(s) << 8)
        words += [0, 0, self.button]
        return struct.pack(">13I", *words)

    def seed(self):
        h = hashlib.sha1(self.message()).digest()
        s = struct.unpack("<Q", h[:8])[0]
        return (s * 0x5D588B656C078965 + 0x269EC3) & 0xFFFFFFFFFFFFFFFF

    def code(self):
        y, t, (t0, v) = self.date, self.time, self.timer
        return f"""
from numba_pokemon_prngs.sha1 import SHA1
from numba_pokemon_prngs.enums import Game, Language, DSType
import numpy as np
s = SHA1(Game.{self.version}, Language.{self.language}, DSType.{self.ds_type}, {self.mac}, {self.soft_reset}, {self.v_frame}, {self.gx})
s.set_button(np.uint32({self.button})); s.set_timer0(np.uint32({t0}), np.uint8({v})); s.set_date(*{y}); s.set_time(*{t})
got = int(s.hash_seed(s.precompute()))
assert got == {self.seed()}, (hex(got), hex({self.seed()}))
"""


def real(p):
    from numba_pokemon_prngs.sha1 import SHA1
    from numba_pokemon_prngs.enums import Game, Language, DSType
    return SHA1(Game[p.version], Language[p.language], DSType[p.ds_type], p.mac, p.soft_reset, p.v_frame, p.gx)


DEFAULTS = dict(button=0xFF2F0000, timer=(0x666, 0x3F), date=(2067, 10, 31, 1), time=(16, 12, 20))


def new(version="WHITE", language="ENGLISH", ds_type="DSI", mac=0x9BF123456, soft_reset=False, v_frame=6, gx_state=6, **kw):
    p = Params(version, language, ds_type, mac, soft_reset, v_frame, gx_state)
    for k, v in {**DEFAULTS, **kw}.items():
        setattr(p, k, v)
    return p


def set_all(s, p):
    s.set_button(np.uint32(p.button))
    s.set_timer0(np.uint32(p.timer[0]), np.uint8(p.timer[1]))
    s.set_date(*p.date)
    s.set_time(*p.time)


def judge(R, s, alpha, p, what):
    got = int(s.hash_seed(alpha))
    R.state(*vars(p).values())
    R.count("transitions")
    R.count("traces_validated_against_impl")
    if got != p.seed():
        R.fail(f"seed:{what}", f"{what}: seed {got:#x}, expected {p.seed():#x} for {vars(p)}", vars(p), p.code())
        return False
    return True


def versions(R):
    sets_ = [dict(mac=m, soft_reset=r, v_frame=f, gx_state=g, time=t) for (m, f, g) in
             [(0x9BF123456, 6, 6), (0, 0, 0), (0xFFFFFFFFFFFF, 255, 255), (0x00010000FFFF, 1, 2)] for r in (False, True) for t in [(0, 0, 0), (12, 34, 56), (23, 59, 59)]]
    n = 0
    for (lang, game), ds in itertools.product(NAZOS, ("DS", "DSI", "DS3")):
        for kw in sets_ if R.numba else sets_[::7]:
            p = new(game, lang, ds, **kw)
            R.progress(f"{game} {lang} {ds} {kw}")
            s = real(p)
            set_all(s, p)
            n += 1
            judge(R, s, s.precompute(), p, f"{game} {lang} {ds}")
            if R.full():
                return
    R.sample({"versions": 84, "sets": len(sets_)})


def dates(R):
    p = new("BLACK2", "JAPANESE", "DS")
    s = real(p)
    set_all(s, p)
    n = 0
    if R.numba:
        days = [(y, m, d, w) for y in range(2000, 2100) for m in range(1, 13) for d in range(1, 32) for w in range(7)]
    else:
        days = [(y, m, d, (y + d) % 7) for y in range(2000, 2100) for m in range(1, 13) for d in range(1, 32)
                if (y in (2000, 2009, 2010, 2099) and d in (1, 9, 10, 31)) or (m in (1, 12) and d == y % 31 + 1) or (y == 2024 and m in (2, 9, 10))]
        days += [(2011, 3, 6, w) for w in range(7)]
    for i, date in enumerate(days):
        if i % 1000 == 0:
            R.progress(f"date {date}")
        p.date = date
        if i % 2:
            s.set_date(np.uint16(date[0]), np.uint8(date[1]), np.uint8(date[2]), np.uint8(date[3]))
        else:
            s.set_date(*date)
        n += 1
        if not judge(R, s, s.precompute(), p, "date") and R.full():
            return


def times(R):
    n = 0
    for k, ds in enumerate(("DS", "DSI", "DS3")):
        p = new("BLACK", "FRENCH", ds)
        s = real(p)
        set_all(s, p)
        alpha = s.precompute()
        if R.numba:
            todo = [(h, m, x) for h in range(24) for m in range(60) for x in range(60)]
        else:
            todo = [(h, m, (h * 7 + m) % 60) for h in range(24) for m in range(k, 60, 9)] + [(h, 5, x) for x in range(60) for h in (11, 12)] + \
                   [(9, m, 9) for m in range(60)]
        for i, t in enumerate(todo):
            if i % 1000 == 0:
                R.progress(f"{ds} time {t}")
            p.time = t
            if i % 2:
                s.set_time(np.uint8(t[0]), np.uint8(t[1]), np.uint8(t[2]))
            else:
                s.set_time(*t)
            n += 1
            if not judge(R, s, alpha, p, "time") and R.full():
                return


def fields(R):
    n = 0
    p = new("WHITE2", "KOREAN", "DS")
    s = real(p)
    set_all(s, p)
    # timers
    edge = sorted({v & 0xFFFF for v in sets.near_powers(16, 1)})
    timers = [(t, 0x5F) for t in (range(65536) if R.numba else edge + list(range(0xC00, 0xC80)))] + [(t, v) for v in range(256) for t in ((0, 0xC7A, 0xFFFF) if R.numba else (0xC7A,))]
    for i, timer in enumerate(timers):
        if i % 1000 == 0:
            R.progress(f"timer {timer}")
        p.timer = timer
        s.set_timer0(*((np.uint32(timer[0]), np.uint8(timer[1])) if i % 2 else timer))
        n += 1
        if not judge(R, s, s.precompute(), p, "timer") and R.full():
            return
    # buttons, with one precomputation
    alpha = s.precompute()
    buttons = [v ^ f for v in sets.weight(32, 2 if R.numba else 1) for f in (0, 0xFFFFFFFF)] + \
        [((0x2FFF ^ (k << 0)) & 0xFFFF) << 16 for k in range(0, 0x3000, 1 if R.numba else 257)]
    for i, button in enumerate(buttons):
        if i % 1000 == 0:
            R.progress(f"button {button:#x}")
        p.button = button
        s.set_button(np.uint32(button) if i % 2 else button)
        n += 1
        if not judge(R, s, alpha, p, "button") and R.full():
            return
    # construction parameters
    todo = [dict(mac=v ^ f) for v in sets.weight(48, 2 if R.numba else 1) for f in (0, (1 << 48) - 1)]
    todo += [dict(v_frame=v) for v in range(256)] + [dict(gx_state=v) for v in range(256)] + [dict(soft_reset=True, mac=v) for v in (0, 0xFFFFFFFFFFFF, 0xFFFF, 0x10000)]
    for i, kw in enumerate(todo):
        R.progress(f"{kw}")
        p = new("BLACK", "ITALIAN", ("DS", "DSI", "DS3")[i % 3], **kw)
        s = real(p)
        set_all(s, p)
        n += 1
        if not judge(R, s, s.precompute(), p, str(next(iter(kw)))) and R.full():
            return
    R.sample({"timers": len(timers), "buttons": len(buttons), "construction": len(todo)})


def product(R):
    """all combinations of two or three boundary values of every field"""
    axes = dict(version=("BLACK", "WHITE2"), ds_type=("DS", "DS3") if not R.numba else ("DS", "DSI", "DS3"), mac=(0, 0xFFFFFFFFFFFF), soft_reset=(False, True), v_frame=(0, 255),
                gx_state=(0, 255), button=(0xFF2F0000, 0), timer=((0, 0), (0xFFFF, 0xFF)), date=((2000, 1, 1, 6), (2099, 12, 31, 4)), time=((11, 59, 59), (12, 0, 0)))
    n = 0
    combos = list(itertools.product(*axes.values()))
    for values in combos if R.numba else combos[R.seed % 3::3]:
        kw = dict(zip(axes, values))
        p = new(language="SPANISH", **kw)
        if n % 100 == 0:
            R.progress(kw)
        s = real(p)
        set_all(s, p)
        n += 1
        if not judge(R, s, s.precompute(), p, "combination") and R.full():
            return


def histories(R):
    values = [("date", (2000, 1, 1, 6)), ("date", (2011, 11, 11, 5)), ("timer", (0xC7A, 0x60)), ("timer", (0x1, 0xFF)), ("time", (0, 0, 0)), ("time", (23, 59, 58)),
              ("button", 0xFF2F0000), ("button", 0xFE2F0000), ("precompute", None), ("hash", None)]
    setter = {"date": lambda s, v: s.set_date(*v), "timer": lambda s, v: s.set_timer0(np.uint32(v[0]), np.uint8(v[1])), "time": lambda s, v: s.set_time(*v),
              "button": lambda s, v: s.set_button(np.uint32(v))}
    depth = (6 if R.thorough else 5) if R.numba else (4 if R.thorough else 3)
    n = judged = 0
    expected = {}
    for hist in itertools.product(values, repeat=depth):
        if n % 2000 == 0:
            R.progress([h[0] for h in hist])
        p = new("BLACK2", "GERMAN", "DSI")
        s = real(p)
        set_all(s, p)
        alpha, covered = s.precompute(), (p.date, p.timer)
        for what, v in hist + (("precompute", None), ("hash", None)):
            if what == "precompute":
                alpha, covered = s.precompute(), (p.date, p.timer)
            elif what == "hash":
                got = int(s.hash_seed(alpha))
                if covered == (p.date, p.timer) and covered is not None:
                    key = (p.date, p.timer, p.time, p.button)
                    if key not in expected:
                        expected[key] = p.seed()
                    judged += 1
                    if got != expected[key]:
                        R.fail("history", f"history {hist}: seed {got:#x}, expected {expected[key]:#x}", {"history": hist}, p.code())
                        break
            else:
                setter[what](s, v)
                setattr(p, what, v)
                R.state(covered, p.date, p.timer, p.time, p.button)
                if what in ("date", "timer"):
                    # even setting the same value again asks for a new precomputation
                    covered = None if covered != (p.date, p.timer) else covered
        n += 1
        if R.full():
            return
    R.count("transitions", n * (depth + 2))
    R.count("traces_validated_against_impl", n)
    R.count("judged_seeds", judged)
    R.sample({"depth": depth, "operations": [v[0] for v in values]})
