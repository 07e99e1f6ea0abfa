#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = "numba_pokemon_prngs/"
rows = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    rows.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[P + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "LCRNG steps are the published recurrences and reverse generators undo them",
  "For every 32-bit seed (and every 64-bit seed) each linear congruential generator advances to seed*mult+add modulo its word size with the published constants of the game it models, and returns that new state. Its reversed counterpart is the exact inverse: stepping one and then the other restores the seed. The 16-bit (32-bit) output of a 32-bit (64-bit) generator is exactly the top half of the state it advanced to, in compiled and uncompiled mode alike.",
  ["inputs", "configurations"], "every generator variant, every seed, both execution modes, and generators a user declares with other odd multipliers",
  "The tests step a few dozen fixed seeds; the guarantee is about the complete transition relation of 2^32 and 2^64 states.",
  ["lcrng/lcrng32.py", "lcrng/lcrng64.py", "lcrng/__init__.py", "compatability.py"],
  [("lcrng32_init.next_ / lcrng64_init.next_", P+"lcrng/lcrng32.py"), ("mod_inv for the reversed constants", P+"compatability.py")],
  [("seed", "the whole generator state", "LCRNG32.seed / LCRNG64.seed")],
  ["next()", "next_u16()", "next_u32()", "seed"])

p("C02", "LCRNG jumps of any length equal stepping that many times",
  "Jumping a linear congruential generator forward by n, advancing it by n, and applying a jump function prepared for the constant n all leave it in, and return, exactly the state that n single steps reach. This holds for every n of the declared advance type, for forward and reversed generators, for plain integers and for the declared integer type, and a jump of 0 changes nothing.",
  ["inputs", "configurations"], "all jump distances 0..2^32-1 (0..2^64-1 for 64-bit generators), all seeds, both modes, forward and reverse",
  "Tests use a handful of small distances, so most of the 32 (64) jump table entries, their combinations, and the constant-jump builder are never compared with stepping.",
  ["lcrng/lcrng32.py", "lcrng/lcrng64.py"],
  [("jump table of squared affine maps", P+"lcrng/lcrng32.py"), ("const_jump", P+"lcrng/lcrng64.py")],
  [("jump_table", "affine map of 2^i steps", "lcrng32_init / lcrng64_init")],
  ["jump()", "advance()", "const_jump()()", "seed"])

p("C03", "LCRNG bounded draws follow their distribution and stay below the maximum",
  "For every 16-bit (32-bit) raw draw and every non-zero maximum, a bounded draw of a linear congruential generator consumes exactly one step and returns raw mod maximum, raw divided by (65535 div maximum)+1, or (raw*maximum)>>32 according to the generator's documented distribution. The result is always below the maximum. A draw function prepared for a constant maximum returns the same value and leaves the same state as the general draw.",
  ["inputs", "configurations"], "all 65536 raw values x all 65535 maxima for 32-bit generators; all bucket boundaries of the 64-bit generators; both modes",
  "Tests draw a few values for a few maxima; overflow at the extreme maxima (1, 65535, powers of two) and the constant draw path are never exercised.",
  ["lcrng/lcrng32.py", "lcrng/lcrng64.py"],
  [("next_rand / const_rand", P+"lcrng/lcrng32.py"), ("next_rand / const_rand", P+"lcrng/lcrng64.py")],
  observe=["next_rand()", "const_rand()()", "seed"])

p("C04", "The Mersenne Twister is MT19937 for every seed and every position",
  "For every 32-bit seed the generator's outputs are the MT19937 reference stream of that seed, at every position across state refills. Advancing by n skips exactly n outputs wherever the generator currently stands, including on and across refill boundaries. Bounded draws consume one output and map it by multiplication-shift or by modulo, always below the maximum.",
  ["inputs", "histories"], "all seeds, all positions, all sequences of advance and draw operations, both modes",
  "Tests check a few seeds for a few outputs; refill boundaries, large advances and the full state map are not reached.",
  ["mersenne_twister/mt.py"],
  [("shuffle", P+"mersenne_twister/mt.py"), ("lazy refill through index", P+"mersenne_twister/mt.py")],
  [("state", "624 words", "MersenneTwister.state"), ("index", "position in the block", "MersenneTwister.index")],
  ["next()", "advance()", "next_rand()", "next_rand_mod()"])

p("C05", "The SIMD-oriented Mersenne Twister is SFMT19937 for every seed and position",
  "For every 32-bit seed the generator's 64-bit outputs are the SFMT19937 reference stream (including period certification of the initial state), at every position across state refills, and the compiled vector implementation and the scalar implementation produce the same stream. Advancing by n skips exactly n outputs wherever the generator stands. Bounded draws consume one output and return it modulo the maximum.",
  ["inputs", "histories", "configurations"], "all seeds, all positions, all sequences of advance and draw operations, both modes",
  "Tests check a few seeds for a few outputs; the hand written vector code, certification branch and refill boundaries are sampled at most once.",
  ["mersenne_twister/sfmt.py"],
  [("sfmt_shuffle and its vector IR version", P+"mersenne_twister/sfmt.py"), ("period certification", P+"mersenne_twister/sfmt.py")],
  [("state", "624 words", "SIMDFastMersenneTwister.state"), ("index", "position in the block", "SIMDFastMersenneTwister.index")],
  ["next()", "advance()", "next_rand()"])

p("C06", "The tiny Mersenne Twister is TinyMT32 for every seed and position",
  "For every 32-bit seed the generator's outputs are the TinyMT32 reference stream with the documented parameters, and every output is a 32-bit value. Advancing by n skips exactly n outputs. Bounded draws consume one output and map it by multiplication-shift or modulo, always below the maximum.",
  ["inputs", "histories", "configurations"], "all seeds, all 127-bit states, all operation sequences, both modes",
  "Tests check a few outputs of a few seeds, which miss the carries of the tempering sum that only some states produce.",
  ["mersenne_twister/tinymt.py"],
  [("shuffle / temper", P+"mersenne_twister/tinymt.py")],
  [("state", "127-bit state", "TinyMersenneTwister.state")],
  ["next()", "advance()", "next_rand()", "next_rand_mod()"])

p("C07", "Xorshift128 steps forward and backward consistently for every state",
  "For every 128-bit state a forward step is the documented xorshift128 step, and a backward step returns the most recently produced output and restores the exact state before it. Range, plain, alternate and float draws consume exactly one step and return the documented function of its output, staying within their documented range. Advancing by n equals n forward steps.",
  ["inputs", "histories", "configurations"], "all states, all ranges of signed 32-bit bounds, all forward/backward histories, both modes",
  "Tests run a few states forward; the backward step must invert the forward one for all 2^128 states and the signed range arithmetic has many wrap-around cases.",
  ["xorshift/xorshift128.py"],
  [("next / previous", P+"xorshift/xorshift128.py"), ("next_randrange / next_alternate_rand / next_float_randrange", P+"xorshift/xorshift128.py")],
  [("state", "four words", "Xorshift128.state")],
  ["next()", "previous()", "next_rand()", "next_randrange()", "next_alternate_rand()", "next_float_randrange()"])

p("C08", "Xoroshiro128+ generators step, reverse, seed and draw as documented",
  "For every 128-bit state both xoroshiro128+ generators take the documented step and a backward step restores the previous state and returns its output. Seeding from one value applies splitmix64 exactly (or pairs the seed with the documented constant), and a rejection draw masks each output to the maximum's bit width and returns the first one below the maximum, consuming exactly the outputs it looked at. The plain draw of the split-mix variant returns one 32-bit output modulo the maximum.",
  ["inputs", "histories", "configurations"], "all states, all seeds, all maxima, all forward/backward histories, both modes",
  "Tests run a few states; rejection runs of every length, maxima around powers of two and the inverse for all states are not covered.",
  ["xorshift/xoroshiro128plus.py", "util.py"],
  [("next / previous", P+"xorshift/xoroshiro128plus.py"), ("bit_mask rejection loop", P+"xorshift/xoroshiro128plus.py"), ("splitmix", P+"xorshift/xoroshiro128plus.py")],
  [("state", "two words", "Xoroshiro128Plus.state")],
  ["next()", "previous()", "next_rand()", "re_init()"])

p("C09", "Any history of operations on a generator equals the reference stream machine",
  "For every generator, after any sequence of draws, bounded draws, advances, jumps, backward steps and re-initialisations, every returned value and every later output is determined by the generator's seed and the number of outputs consumed so far, exactly as in an ideal machine holding a position in the seed's stream. In particular an advance of n is indistinguishable from n discarded draws, and re-initialising makes the object indistinguishable from a new one.",
  ["histories", "configurations"], "all operation sequences up to a bounded depth over a boundary-heavy operation alphabet, for every generator class, both modes",
  "Tests call one operation kind at a time on fresh objects; interactions (advance landing on a refill boundary and then a draw, re-initialisation in the middle of a block) need exhaustive histories.",
  ["lcrng/lcrng32.py", "lcrng/lcrng64.py", "mersenne_twister/mt.py", "mersenne_twister/sfmt.py", "mersenne_twister/tinymt.py", "xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py"],
  [("advance, re_init and next of each class", P+"mersenne_twister/mt.py")],
  observe=["all public generator methods"])

p("C10", "A cached rand list is a sliding window over its generator's stream",
  "A cached rand list of any power-of-two size always holds the next consecutive outputs of the generator it was built from, for any output function (inherited ones included) and any output type. Reading returns the window's entries in stream order and wraps around within the window, advancing within the list moves the read position, and advancing the list slides the window by exactly that many outputs and rewinds the read position to its start. Re-initialising refills the window from the generator's current state.",
  ["histories", "configurations"], "all sequences of the list operations up to a bounded depth, all sizes, output types and output functions, both modes",
  "There are no tests of the list at all; its ring-buffer state machine is about histories.",
  ["rng_list.py"],
  [("head/pointer ring buffer", P+"rng_list.py")],
  [("head", "oldest entry", "RNGList.head"), ("pointer", "next entry to read", "RNGList.pointer")],
  ["get_value()", "advance()", "advance_state()", "advance_states()", "re_init()"])

p("C11", "Gen 5 initial seeds are the SHA-1 derived seeds for all parameters and histories",
  "For every game version, language, console type, MAC address, frame, reset flag, date, time, timer and button value, the computed initial seed equals the one obtained from a standard SHA-1 of the message the game hashes, followed by one step of the Gen 5 generator. After any sequence of parameter updates the result depends only on the current values, as long as the precomputation is redone after a parameter it covers (date, timer); time and button updates need no new precomputation.",
  ["inputs", "histories", "configurations"], "all parameter fields over all their values (one and two at a time), all update histories up to a bounded depth, both modes",
  "The test runs one fixed date and a few timers for each version; field packing, the decimal encoding of all dates and times and update histories are not covered.",
  ["sha1.py", "util.py"],
  [("precompute / hash_seed split message schedule", P+"sha1.py"), ("set_date / set_time / set_timer0 / set_button packing", P+"sha1.py")],
  [("data", "80-word message schedule", "SHA1.data")],
  ["hash_seed(precompute())"])

p("C12", "Generator objects are independent of one another",
  "Any interleaving of operations on two generator objects (of the same or of different classes, or a cached list and an unrelated generator) gives each of them exactly the results it would give alone. No operation on one object changes what another object, or an object created later, returns.",
  ["histories", "configurations"], "all interleavings of bounded operation sequences on two objects, for every pair of generator classes, both modes",
  "Tests use one object at a time, so shared mutable state between instances is invisible to them.",
  ["mersenne_twister/mt.py", "mersenne_twister/sfmt.py", "mersenne_twister/tinymt.py", "xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py", "lcrng/lcrng32.py", "lcrng/lcrng64.py", "sha1.py"],
  [("per-instance state arrays", P+"mersenne_twister/mt.py")],
  observe=["all public generator methods"])

p("C13", "Compiled and uncompiled modes return the same results for all argument types",
  "Every public operation returns the same value and leaves the same observable state whether the package runs compiled or uncompiled, and whether arguments are plain integers (below 2^63, as far as the compiler passes them) or the declared unsigned types or any narrower unsigned type wide enough to hold them (LCRNG jump distances: any unsigned type up to 64 bits). No operation that works in one mode raises in the other for arguments in its documented domain.",
  ["inputs", "configurations"], "the product of operations, boundary arguments and argument types, over both modes",
  "The suite runs in both modes but with plain small integers; the modes differ in integer promotion and overflow rules, which only unusual widths and extreme values expose.",
  ["compilation.py", "lcrng/lcrng32.py", "lcrng/lcrng64.py", "mersenne_twister/tinymt.py", "xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py", "util.py", "gen3/util.py", "rng_list.py"],
  [("optional_jitclass / optional_njit", P+"compilation.py"), ("explicit np.uintN casts", P+"util.py")],
  observe=["all public operations, in two processes"])

p("C14", "Bit, byte-order, hex and hash helpers are exact for every input",
  "Byte swapping, left and right rotation of 32- and 64-bit words, eight-digit hexadecimal formatting, and the 64-bit FNV-1 and FNV-1a string hashes return the mathematically defined result for every input. Byte swapping is its own inverse and left and right rotation by the same count undo each other.",
  ["inputs", "configurations"], "all 32-bit words, all rotation counts in range, all short strings over an alphabet including non-ASCII characters, both modes",
  "The helpers have no tests of their own and are only reached through a few fixed seeds.",
  ["util.py", "fnv.py"],
  [("change_endian_u32, rotate_*", P+"util.py"), ("hex_32", P+"util.py"), ("fnv1_64 / fnv1a_64", P+"fnv.py")],
  observe=["return values"])

p("C15", "Gender, shininess and Unown letter are the game's function of the PID",
  "For every PID and gender ratio the gender is genderless, always female or always male for the three special ratios and otherwise female exactly when the PID's low byte is below the ratio. For every PID and trainer value the shininess is square exactly when both halves and the trainer value cancel, star exactly when the combined value is below 8, and none otherwise. The Unown letter check accepts exactly the letter selected by the PID's four bit pairs modulo 28.",
  ["inputs", "configurations"], "all PID bytes x all ratios, all 2^16 x 2^16 PID/trainer values, all 2^32 PIDs for the letter, both modes",
  "None of it is tested; it is a statement about the whole input space.",
  ["gen3/util.py"],
  [("get_gender / get_shiny / unown_check", P+"gen3/util.py")],
  observe=["return values"])

p("C16", "A generated state's derived fields follow from its PID, level, IVs and species",
  "For every nature, level, set of individual values and species, the six stats equal the Generation 3+ stat formula with the nature raising and lowering exactly the stats it is documented to, rounded down. Nature, gender, ability, hidden power type and strength, and characteristic (highest individual value, ties broken in the cyclic order starting at PID mod 6) equal their documented formulas, and the printed report shows these values. Updating a state after its PID, level or individual values were changed derives all of them afresh.",
  ["inputs", "configurations"], "all natures x levels x base stats x individual values per stat, all parity patterns, all tie patterns, all species, both modes",
  "Nothing tests it; nature columns, rounding and tie-breaking are about the full product of values.",
  ["util.py", "gen3/state.py"],
  [("NATURE_MODIFIERS / compute_stat", P+"util.py"), ("State.update_stats", P+"gen3/state.py")],
  observe=["GeneratorState fields", "csv()"])

p("C17", "Encounter slot, level and rate selection follow the games' tables",
  "For every encounter kind and every raw draw the selected slot is the one the games' cumulative percentage table assigns to draw mod 100, and the encounter rate consulted is the one of that kind. The level is uniform within the slot's bounds with the pressure lead raising it as in the games, and type-attracting leads pick from exactly the slots with a matching type when the extra coin flip succeeds and such slots exist. Every selection consumes exactly the documented number of draws.",
  ["inputs", "configurations"], "all 65536 raw draws x all encounter kinds, all level ranges x draw pairs, all areas x leads x games, both modes",
  "Nothing tests it; cumulative table boundaries and the draw accounting need every draw value.",
  ["gen3/encounter_area_3.py"],
  [("compute_table lookup tables", P+"gen3/encounter_area_3.py"), ("calculate_hslot_lead, calculate_level, get_modified_slots, get_encounter_rate", P+"gen3/encounter_area_3.py")],
  observe=["return values", "rng seed afterwards"])

p("C18", "Gen 3 wild generation equals the games' procedure at every advance",
  "For every seed, delay, window, method, lead, encounter kind, game and area, the generated list holds exactly one entry per advance of the window (skipping advances whose rock smash check fails) and each entry equals what the games' documented procedure yields from the stream at that advance. Splitting a window in two and concatenating gives the same entries, and entries do not depend on where the window started or on earlier calls.",
  ["inputs", "histories", "configurations"], "all games x encounter kinds x leads x methods x representative areas over exhaustive advance windows, and all splits of a window",
  "Nothing tests the generator; errors in draw order or skipped advances only show for particular leads, species and draws.",
  ["gen3/wild_generator_3.py", "gen3/encounter_area_3.py", "gen3/state.py", "gen3/util.py"],
  [("WildGenerator3.generate", P+"gen3/wild_generator_3.py")],
  observe=["generate() result list"])

p("C19", "Personal data lookups return the game's own table with every field at its offset",
  "For every game with a data table, and for every species row, each published field (base stats, types, catch rate, gender ratio, abilities, and so on) equals the value stored at that field's offset in that game's data file. Each game selects the table of that game and no other game's, distinct games are distinct flags, and games without a table are refused. The published record layouts decode the data files of generations no game object uses (Gen 1, Gen 2, Let's Go, Scarlet/Violet) the same way.",
  ["inputs", "configurations"], "all games x all rows x all fields, both modes",
  "Nothing tests the tables; a shifted field or a wrong game mapping affects only particular fields or games.",
  ["data/personal/__init__.py", "data/personal/personal_info.py", "data/util.py", "enums/game.py"],
  [("dtype_dataclass record layouts", P+"data/personal/personal_info.py"), ("get_info_table / get_info_table_3", P+"data/personal/__init__.py")],
  observe=["table rows"])

p("C20", "Gen 3 encounter tables hold exactly what the encounter data files say",
  "For every Generation 3 game, every area, encounter kind and slot, the loaded encounter rate, level bounds, species number (and Unown form) equal the entry of that game's data file, in file order, with unused areas left blank and nothing taken from another version's entries. Area names line up with areas, and loading from the cache gives the same tables as loading from the files.",
  ["inputs", "histories"], "all games x areas x kinds x slots, fresh and cached loading, both modes",
  "Nothing tests the tables; a slip affects one version, kind or slot.",
  ["data/encounter/__init__.py", "data/encounter/encounter_area_3.py", "data/__init__.py"],
  [("load_encounter_3", P+"data/encounter/__init__.py")],
  observe=["ENCOUNTER_INFORMATION_GEN3", "MAP_NAMES_GEN3"])

p("C21", "Legends Arceus tables match their data files and slot choice follows the weights",
  "For every Legends Arceus area and encounter table, every slot's species, form, gender, level bounds (with alpha boosts and overrides), guaranteed values and time and weather multipliers equal those derived from the game's data files, in both freshly computed and cached form. For every time, weather and draw in [0,1) the chosen slot is the one whose interval of cumulative weight (base probability times both multipliers) contains the draw scaled by the total.",
  ["inputs", "configurations"], "all areas x tables x slots, all times x weathers x interval boundaries, fresh and cached, both modes",
  "Nothing tests them; multiplier fallbacks and overrides concern particular slots only.",
  ["data/encounter/__init__.py", "data/encounter/encounter_area_la.py", "data/fbs/encounter_la.py"],
  [("load_encounter_tables_la", P+"data/encounter/__init__.py"), ("EncounterAreaLA.calc_slot", P+"data/encounter/encounter_area_la.py")],
  observe=["ENCOUNTER_INFORMATION_LA", "SPAWNER_INFORMATION_LA", "calc_slot()"])

p("C22", "The encounter cache survives crashes and concurrent imports",
  "Whatever point a previous run was interrupted at while it was filling the on-disk cache, and however two runs interleave while filling it, a later use of the package neither fails nor returns anything but the tables computed from the data files. A cache entry left by either execution mode is usable by the other.",
  ["crash_points", "schedules", "fault_sequences"], "all crash points and torn prefixes of the cache writing history, all interleavings of two cache users at file operation granularity, write errors at every file operation",
  "Tests never interrupt a run or share a cache directory between runs.",
  ["data/encounter/__init__.py"],
  [("pickle_cached write-then-replace and unreadable entry fallback", P+"data/encounter/__init__.py")],
  [("cache files", "pickled tables in the user's cache directory", "pickle_cached")],
  ["ENCOUNTER_INFORMATION_GEN3", "ENCOUNTER_INFORMATION_LA", "import of the encounter data"])

p("C23", "The binary table reader returns exactly the fields that are present",
  "For any combination of present and absent fields, in any storage order and with any field values, the reader returns the stored value of every present field and the documented default of every absent one, for all integer widths, floats, flags, strings, nested objects and object arrays. Reading one field never disturbs the position or value of another.",
  ["inputs"], "all presence subsets of each record type's fields up to the record's size bound, boundary values of each width, all array lengths up to a bound",
  "Nothing tests the reader; the shipped files only contain particular combinations of absent fields.",
  ["data/fbs/flatbuffer_object.py", "data/fbs/encounter_la.py"],
  [("read_init_* with a running field counter", P+"data/fbs/flatbuffer_object.py")],
  observe=["record attributes"])

p("C24", "Optional compilation decorators behave the same in every form and configuration",
  "Every supported way of applying the optional compilation helpers (bare, with a signature, with options, with declared field types or type hints) yields a working function or class whose results are the same with and without compilation. Whether compilation is used is decided only by the documented environment setting and the availability of the compiler: anything but the documented enabling value, or a missing compiler, selects the uncompiled mode and the package still works.",
  ["configurations"], "all decorator forms x both modes, all environment settings x compiler present or absent",
  "The suite runs two configurations and never uses the bare form uncompiled, nor a missing compiler.",
  ["compilation.py", "options.py", "patch.py"],
  [("optional_njit / optional_jitclass / return_type", P+"compilation.py"), ("USE_NUMBA", P+"options.py")],
  observe=["decorated results", "USE_NUMBA"])

p("C25", "Modular inverses are exact and refuse non-invertible values",
  "For every value and modulus that share no common factor the computed modular inverse lies in [0, modulus) and multiplies with the value to 1 modulo the modulus, on every supported Python version. For every pair that shares a factor the computation raises a value error instead of returning.",
  ["inputs", "configurations"], "all pairs of small values and moduli, all low-weight odd values modulo 2^32 and 2^64, both the modern and the fallback implementation",
  "Only the generators' three multipliers are inverted by the tests, and only on one Python version.",
  ["compatability.py"],
  [("mod_inv", P+"compatability.py")],
  observe=["return value or error"])

p("C26", "Typed record layouts pack their fields and read the same in compiled code",
  "For every record class declared with the layout decorator, whatever the sequence of its field types (truth values, unsigned integers, floats, other records, fixed-length arrays of any of these, unused bytes) and whether fields come from a base class, the fields lie one after another in declaration order without gaps, so that the record can be laid over a game's data. Every scalar of every element of an array of such records reads exactly its own bytes and writing it changes no other byte, through attributes, items, columns and iteration, in compiled and uncompiled code alike. A declaration never depends on the classes declared before it.",
  ["inputs", "configurations"], "all sequences of field types up to three fields (two compiled), every published record class, both modes",
  "The tests only load tables; no test declares a record, writes one, or reads nested records and arrays from compiled code.",
  ["data/util.py", "patch.py", "data/personal/personal_info.py", "data/encounter/encounter_area_3.py", "data/encounter/encounter_area_la.py"],
  [("dtype_dataclass / dtype_array / unused_bytes", P+"data/util.py"), ("nested record arrays in compiled code", P+"patch.py")],
  [("array bytes", "content of an array of records", "numpy buffer")],
  ["field reads", "bytes after a write", "dtype"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in rows:
        assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(rows))
