"""C04: MersenneTwister is MT19937 for every seed and position."""
from vlib.core import Task
from vlib import sets
from checks import _block

KIND = "mt"
PER = 624
LEVEL = "model_checking"
RULE = ("the real generator and an independent MT19937 machine (itself checked against numpy's) start from the same seed or injected 624-word "
        "state and every output, every output after an advance and every bounded draw is compared; one output, advance or draw is one transition")
ASSUMPTIONS = ["states are injected through the public `state` array when it holds the published initial vector, otherwise only seeds are used",
               "the twist is linear over GF(2), so single-bit states over three backgrounds exercise every tap of every word"]


def bounds(tier):
    t = tier == "thorough"
    return (f"compiled: {'2^24' if t else '2^19'} consecutive seeds and their complements plus all seeds of weight <= {4 if t else 3}, more than two "
            f"blocks each; all single-bit states over three backgrounds{' and two-bit states at the tap distances' if t else ''}, two blocks; "
            f"advances from every position 0..{3 * PER} {'by every distance 0..' + str(3 * PER) if t else 'by about 120 distances around block multiples'}, "
            "advances around every power of two up to 2^26 and up to 2^32-1 (uncompiled: up to 2^18+5); bounded draws at every critical maximum of 4096 raw outputs. Uncompiled: weight <= 2 seeds, "
            "single-bit states of every word, boundary positions x distances, critical draws")


def near(multiples, radius, extra=()):
    return sorted({k * PER + d for k in range(multiples) for d in range(-radius, radius + 1) if k * PER + d >= 0} | set(extra))


def tasks(tier):
    t = [Task("seeds", "numba", cpus=8), Task("others", "numba", cpus=8), Task("plain", "numpy"), Task("plain_advance", "numpy")]
    parts = 6
    t += [Task("plain_states", "numpy", part=i, parts=parts, timeout=3000) for i in range(parts)]
    return t


def seeds(R):
    n = 1 << (24 if R.thorough else 19)
    long = 2 * PER + 10
    plan = [("weight", sets.weight_array(32, 4 if R.thorough else 3), None, long),
            ("low", 0, n, long), ("high", (1 << 32) - n, n, long), ("own", R.seed * 0x9E3779B1 % (1 << 31), n, PER + 2)]
    _block.seeds_compiled(R, KIND, plan)


def others(R):
    _block.states_compiled(R, KIND)
    pos = range(3 * PER + 1)
    dist = range(3 * PER + 1) if R.thorough else near(5, 6, [1, 2, 3, 10, 100, PER // 2, 1000, 65535, 65536, 65537, 100000])
    _block.advance_compiled(R, KIND, pos, dist, 3)
    _block.advance_compiled(R, KIND, near(3, 2), near(200, 1, [1 << k for k in range(21)]), 2 * PER + 5)
    top = (1 << 32) - 1
    far = [(0, top), (1, top), (PER, top), (5, 1 << 31), (3, (1 << 31) - 1), (PER - 1, top - PER)]
    far += [(2, (1 << k) + d) for k in range(12, 27) for d in (-1, 0, 1, 5)]
    if R.thorough:
        far += [(p, top - d) for p in (0, 1, PER - 1, PER, PER + 1) for d in range(0, 700, 50)] + [(2, 1 << k) for k in range(22, 32)]
    _block.far_compiled(R, KIND, far)
    _block.draws_all(R, KIND, 16384 if R.thorough else 2048)
    _block.draws(R, KIND, 20000)


def plain(R):
    _block.seeds_plain(R, KIND, list(sets.weight(32, 2)) + [0xFFFFFFFF ^ v for v in sets.weight(32, 1)] + list(range(64)), 2 * PER + 5)
    _block.draws(R, KIND, 20000)


def plain_states(R, part, parts):
    _block.states_plain(R, KIND, part, parts)


def plain_advance(R):
    d = near(4, 1, [2, 3, 17, PER // 2, 5000, 65537])
    _block.advance_plain(R, KIND, near(3, 1, [2, PER // 2]), d)
    _block.advance_plain(R, KIND, [2], [(1 << k) + 5 for k in range(12, 19)] + [1 << 18, (1 << 18) - 1])
