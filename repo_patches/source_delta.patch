From 31718d91db35e949af72728218fa1882a241ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 01/30] fix: keep the TinyMT tempering sum within 32 bits when
 compiled with numba

---
 numba_pokemon_prngs/mersenne_twister/tinymt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/tinymt.py b/numba_pokemon_prngs/mersenne_twister/tinymt.py
index cec642b..13f31c3 100644
--- a/numba_pokemon_prngs/mersenne_twister/tinymt.py
+++ b/numba_pokemon_prngs/mersenne_twister/tinymt.py
@@ -75,7 +75,7 @@ class TinyMersenneTwister:
     def temper(self) -> np.uint32:
         """Access and return the next 32-bit tempered rand"""
         temper_0 = self.state[3]
-        temper_1 = self.state[0] + (self.state[2] >> np.uint32(8))
+        temper_1 = np.uint32(self.state[0] + (self.state[2] >> np.uint32(8)))
 
         temper_0 ^= temper_1
 
-- 
2.43.0


From 133709b7d75a82da8a03e53cbe52e4a179ed4079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 02/30] fix: do not overflow the reciprocal division divisor
 for a maximum of 1

---
 numba_pokemon_prngs/lcrng/lcrng32.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng32.py b/numba_pokemon_prngs/lcrng/lcrng32.py
index 1fe0bab..1f1e252 100644
--- a/numba_pokemon_prngs/lcrng/lcrng32.py
+++ b/numba_pokemon_prngs/lcrng/lcrng32.py
@@ -163,8 +163,9 @@ def lcrng32_init(
         elif distribution == LCRNG32RandomDistribution.RECIPROCAL_DIVISION:
 
             def next_rand(self: LCRNG32, maximum: np.uint16) -> np.uint16:
-                return np.uint16(self.next_u16()) // np.uint16(
-                    (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                return np.uint16(
+                    np.uint32(self.next_u16())
+                    // ((np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1))
                 )
 
             def const_rand(
@@ -172,8 +173,9 @@ def lcrng32_init(
             ) -> Callable[[LCRNG32], np.uint16]:
                 @optional_njit(**kwargs)
                 def rand_func(self: LCRNG32) -> np.uint16:
-                    return np.uint16(self.next_u16()) // np.uint16(
-                        (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                    return np.uint16(
+                        np.uint32(self.next_u16())
+                        // ((np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1))
                     )
 
                 return rand_func
-- 
2.43.0


From 4b6c0b1458ba834446e49995db9bc8bef045e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 03/30] fix: accept the declared np.uint64 advances in LCRNG64
 jump and const_jump

---
 numba_pokemon_prngs/lcrng/lcrng64.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng64.py b/numba_pokemon_prngs/lcrng/lcrng64.py
index 198f65c..8c5dd69 100644
--- a/numba_pokemon_prngs/lcrng/lcrng64.py
+++ b/numba_pokemon_prngs/lcrng/lcrng64.py
@@ -110,18 +110,20 @@ def lcrng64_init(
             return np.uint64(self.seed)
 
         def jump(self: LCRNG64, adv: np.uint64):
+            adv = np.uint64(adv)
             i = 0
             while adv:
-                if adv & 1:
+                if adv & np.uint64(1):
                     add, mult = jump_table[i]
                     self.seed = np.uint64(
                         np.uint64(self.seed) * np.uint64(mult) + np.uint64(add)
                     )
-                adv >>= 1
+                adv >>= np.uint64(1)
                 i += 1
             return np.uint64(self.seed)
 
         def const_jump(adv: np.uint32, **kwargs) -> Callable[[LCRNG64]]:
+            adv = int(adv)
             i = 0
             mult = np.uint64(1)
             add = np.uint64(0)
-- 
2.43.0


From 8aa50f95387b8c9c1e06127aea9269ea9148574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 04/30] fix: allow RNGList to use inherited rand functions
 without numba

---
 numba_pokemon_prngs/rng_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index 828ebbf..0b92a6d 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -46,9 +46,9 @@ def build_rnglist(
             next_function_name
         ]
     else:
-        next_function: Callable[[PRNG], state_type] = rng_class.__dict__[
-            next_function_name
-        ]
+        next_function: Callable[[PRNG], state_type] = getattr(
+            rng_class, next_function_name
+        )
 
     @optional_jitclass(
         {
-- 
2.43.0


From 5bc8391f06e2452d143357b9969099b34acb301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 05/30] fix: build the RNGList cache from the requested
 state_type when compiled with numba

---
 numba_pokemon_prngs/rng_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index 0b92a6d..b516621 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -52,7 +52,7 @@ def build_rnglist(
 
     @optional_jitclass(
         {
-            "list": array_type(np.uint32),  # contiguous array
+            "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
             "head": np.uint16,
             "pointer": np.uint16,
-- 
2.43.0


From eb2f9b6075fb26b0abfe3b9105a2cc21273b932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 06/30] fix: do not truncate RNGList positions of lists larger
 than 65536 entries

---
 numba_pokemon_prngs/rng_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index b516621..b985dbc 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -54,8 +54,8 @@ def build_rnglist(
         {
             "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
-            "head": np.uint16,
-            "pointer": np.uint16,
+            "head": np.uint32,
+            "pointer": np.uint32,
         }
     )
     class SpecificRNGList:
-- 
2.43.0


From c654f817e9a996d18edcaf6bdaba4538fd2f9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 07/30] fix: return the function when optional_njit is used
 without arguments and without numba

---
 numba_pokemon_prngs/compilation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 80ffd70..d67fd3a 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -118,7 +118,7 @@ else:
 
     def return_type(output_type, input_types):
         """Function that takes inputs and returns the return type based on the output type"""
-        return lambda *args: output_type
+        return None
 
     # pylint enable=unused-argument
 
@@ -167,7 +167,9 @@ def optional_njit(signature_or_function=None, locals=None, **options):
             **options,
         )
 
-    # TODO: support @optional_njit w/o arguments provided
+    # @optional_njit w/o arguments provided
+    if callable(signature_or_function):
+        return signature_or_function
 
     def wrap(func):
         return func
-- 
2.43.0


From c83555533f6a3836f74c15bdc0b855197031a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 08/30] fix: apply speed, special attack and special defense
 natures to the right stats

---
 numba_pokemon_prngs/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/util.py b/numba_pokemon_prngs/util.py
index f1b3ffd..abfbbd9 100644
--- a/numba_pokemon_prngs/util.py
+++ b/numba_pokemon_prngs/util.py
@@ -46,9 +46,12 @@ def rotate_right_u64(val: np.uint64, count: np.uint8) -> np.uint64:
 
 
 NATURE_MODIFIERS = np.ones((25, 5), np.float32)
+# natures are ordered by attack, defense, speed, special attack, special defense
+# while stats are ordered by attack, defense, special attack, special defense, speed
+NATURE_STAT_ORDER = (0, 1, 4, 2, 3)
 for i in range(25):
-    NATURE_MODIFIERS[i][i % 5] -= 0.1
-    NATURE_MODIFIERS[i][i // 5] += 0.1
+    NATURE_MODIFIERS[i][NATURE_STAT_ORDER[i % 5]] -= 0.1
+    NATURE_MODIFIERS[i][NATURE_STAT_ORDER[i // 5]] += 0.1
 
 
 @optional_njit(return_type(np.uint16, (np.uint16, np.uint8, np.uint8)))
-- 
2.43.0


From 7e2797f888bc9bea68511d3b7df5f57d6711f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 09/30] fix: return the land rate for grass and the fishing
 rate for rods

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index da621d9..bd826ff 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -194,9 +194,9 @@ def get_encounter_rate(
 ) -> np.uint8:
     """Get encounter rate"""
     if encounter_type == Encounter.GRASS:
-        return encounter_area.fish_rate
+        return encounter_area.land_rate
     if encounter_type == Encounter.ROCK_SMASH:
         return encounter_area.rock_rate
     if encounter_type == Encounter.SURFING:
         return encounter_area.water_rate
-    return encounter_area.land_rate
+    return encounter_area.fish_rate
-- 
2.43.0


From 4b3e8b20b44f050d17d575daa182b40ca79319b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 10/30] fix: only check for cute charm when the species has a
 variable gender

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 85a8aa6..e0f9af2 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -94,9 +94,9 @@ class WildGenerator3:
             info = self.personal_info_table[species]
             if self.lead == Lead.CUTE_CHARM_M or self.lead == Lead.CUTE_CHARM_F:
                 if 0 < info.gender_ratio < 254:
-                    cute_charm = False
-                else:
                     cute_charm = rand_3(go) != 0
+                else:
+                    cute_charm = False
 
             # pokeblocks
             if rse_safari:
-- 
2.43.0


From 6c0965bdfcab5fe66d0f21155ed1816ff196e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 11/30] fix: keep advancing the rng past failed rock smash
 checks

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index e0f9af2..b63deab 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -81,6 +81,7 @@ class WildGenerator3:
 
             # RSE uses main rng to check for rock smash encounters
             if rse and self.encounter == Encounter.ROCK_SMASH and rand_2880(go) >= rate:
+                rng.next()
                 continue
 
             encounter_slot = encounter_area_3.calculate_hslot_lead(
-- 
2.43.0


From e00bf09925ff520c30122178fe77751b0063db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 12/30] fix: floor hidden power strength without numba

---
 numba_pokemon_prngs/gen3/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/state.py b/numba_pokemon_prngs/gen3/state.py
index e00c228..f4ff347 100644
--- a/numba_pokemon_prngs/gen3/state.py
+++ b/numba_pokemon_prngs/gen3/state.py
@@ -66,7 +66,7 @@ class State:
                 max_iv = self.ivs[ORDER[index]]
 
         self.hidden_power = hidden_power_val * 15 // 63
-        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 / 63)
+        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 // 63)
         self.characteristic = (char_index * 5) + (max_iv % 5)
 
 
-- 
2.43.0


From 87eb8e154b09b26c4ea1d562de959708c2f9602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 13/30] fix: do not alias Diamond to Platinum and use the
 Platinum personal table

---
 numba_pokemon_prngs/data/personal/__init__.py | 2 ++
 numba_pokemon_prngs/enums/game.py             | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/__init__.py b/numba_pokemon_prngs/data/personal/__init__.py
index ea9fb4a..b0bce37 100644
--- a/numba_pokemon_prngs/data/personal/__init__.py
+++ b/numba_pokemon_prngs/data/personal/__init__.py
@@ -89,6 +89,8 @@ def get_info_table(game: Game):
         return PERSONAL_INFO_LG
     if game & (Game.DIAMOND | Game.PEARL):
         return PERSONAL_INFO_DP
+    if game & (Game.PLATINUM):
+        return PERSONAL_INFO_PT
     if game & (Game.BLACK | Game.WHITE):
         return PERSONAL_INFO_BW
     if game & (Game.BLACK2 | Game.WHITE2):
diff --git a/numba_pokemon_prngs/enums/game.py b/numba_pokemon_prngs/enums/game.py
index a6a7025..d2eb9c7 100644
--- a/numba_pokemon_prngs/enums/game.py
+++ b/numba_pokemon_prngs/enums/game.py
@@ -14,7 +14,7 @@ class Game(IntEnum):
     LEAF_GREEN = 1 << 4
     GALES = 1 << 5
     COLOSSEUM = 1 << 6
-    DIAMOND = 1 << 9
+    DIAMOND = 1 << 7
     PEARL = 1 << 8
     PLATINUM = 1 << 9
     HEART_GOLD = 1 << 10
-- 
2.43.0


From 992a57a08ad1a543fcf3aeb426c8d6571871d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 14/30] fix: allow Legends Arceus slots to be calculated
 without numba

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 8301b7b..bfc353b 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -43,9 +43,9 @@ class EncounterAreaLA:
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
-            self.slots.base_probability
-            * self.slots.time_multipliers[:, time]
-            * self.slots.weather_multipliers[:, weather]
+            self.slots["base_probability"]
+            * self.slots["time_multipliers"][:, time]
+            * self.slots["weather_multipliers"][:, weather]
         )
         scaled_rand = rand * np.sum(probabilities)
         for i, probability in enumerate(probabilities):
-- 
2.43.0


From b77bc6497923128f69ef8791594314f77fc53800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 15/30] fix: return the default of absent FlatBuffer strings

---
 numba_pokemon_prngs/data/fbs/flatbuffer_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
index 2137ceb..78cb635 100644
--- a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
+++ b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
@@ -136,13 +136,13 @@ class FlatBufferObject:
 
     def read_string(self, position: int, default=None):
         """Read a string at position"""
-        array = default
         pos_offset = self._table.Offset(position)
         if pos_offset:
             array_offset = self._table.Vector(pos_offset)
             array_len = self._table.VectorLen(pos_offset)
             array = self._table.Bytes[array_offset : array_offset + array_len]
-        return array.decode("utf-8")
+            return array.decode("utf-8")
+        return default
 
     def read_init_string(self, default=None):
         """Read a string at the position of self._counter and increment the counter"""
-- 
2.43.0


From e2de97f0e1dc9fabea7f2e7f8c891c2fc7e3cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 16/30] fix: recover from and avoid leaving behind incomplete
 encounter caches

---
 .../data/encounter/__init__.py                | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index e3771bb..6009b26 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -33,19 +33,22 @@ def pickle_cached(filename: str, encode = None, decode = None):
         def wrapped(*args, **kwargs):
             pkl_filename = filename.format(*args, **kwargs)
             if os.path.exists(pkl_filename):
-                with open(pkl_filename, "rb") as pickled_file:
-                    data = pickled_file.read()
-                    if data:
-                        data = pickle.loads(data)
-                        if decode is not None:
-                            return decode(data)
-                        return data
+                try:
+                    with open(pkl_filename, "rb") as pickled_file:
+                        data = pickle.load(pickled_file)
+                    if decode is not None:
+                        return decode(data)
+                    return data
+                except Exception:  # pylint: disable=broad-except
+                    # incomplete or otherwise unreadable cache, compute the result again
+                    pass
             result = function(*args, **kwargs)
-            with open(pkl_filename, "wb+") as pickled_file:
-                if encode is not None:
-                    pickled_file.write(pickle.dumps(encode(result)))
-                else:
-                    pickle.dump(result, pickled_file)
+            # replace the file only once it is complete so that an interrupted or concurrent run
+            # never leaves a partial cache behind
+            tmp_filename = f"{pkl_filename}.{os.getpid()}.tmp"
+            with open(tmp_filename, "wb") as pickled_file:
+                pickle.dump(result if encode is None else encode(result), pickled_file)
+            os.replace(tmp_filename, pkl_filename)
             return result
         return wrapped
     return wrapper
-- 
2.43.0


From 24c5a4f84a6547942497b4e6afce36060be15f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 17/30] fix: give ARNG and ARNGR their documented modulo random
 distribution

---
 numba_pokemon_prngs/lcrng/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numba_pokemon_prngs/lcrng/__init__.py b/numba_pokemon_prngs/lcrng/__init__.py
index cf71802..ada5dfc 100644
--- a/numba_pokemon_prngs/lcrng/__init__.py
+++ b/numba_pokemon_prngs/lcrng/__init__.py
@@ -52,6 +52,7 @@ class PokeRNGRDiv(LCRNG32):
 @lcrng32_init(
     add=0x1,
     mult=0x6C078965,
+    distribution=LCRNG32RandomDistribution.MODULO,
 )
 class ARNG(LCRNG32):
     """Alternative Pokemon LCRNG with modulo random distribution"""
@@ -60,6 +61,7 @@ class ARNG(LCRNG32):
 @lcrng32_init(
     add=0x1,
     mult=0x6C078965,
+    distribution=LCRNG32RandomDistribution.MODULO,
     reverse=True,
 )
 class ARNGR(LCRNG32):
-- 
2.43.0


From 66980d8d65f64a7ebbc0e2acf7146847474af7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 18/30] fix: do not wrap MersenneTwister advances near 2^32

---
 numba_pokemon_prngs/mersenne_twister/mt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/mt.py b/numba_pokemon_prngs/mersenne_twister/mt.py
index 8f2ed95..a2a08f1 100644
--- a/numba_pokemon_prngs/mersenne_twister/mt.py
+++ b/numba_pokemon_prngs/mersenne_twister/mt.py
@@ -38,11 +38,12 @@ class MersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv += np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # 64-bit so that adding the index cannot wrap around
+        adv = np.uint64(adv)
+        adv += np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint32:
-- 
2.43.0


From 64fdbea98909f231bfbc48f09e71fb6a70ce7a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 19/30] fix: do not wrap SIMDFastMersenneTwister advances from
 2^31

---
 numba_pokemon_prngs/mersenne_twister/sfmt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/sfmt.py b/numba_pokemon_prngs/mersenne_twister/sfmt.py
index 6e8280a..2710650 100644
--- a/numba_pokemon_prngs/mersenne_twister/sfmt.py
+++ b/numba_pokemon_prngs/mersenne_twister/sfmt.py
@@ -297,11 +297,12 @@ class SIMDFastMersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance SIMD-oriented Fast Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv = (adv * np.uint32(2)) + np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # 64-bit so that doubling adv and adding the index cannot wrap around
+        adv = np.uint64(adv)
+        adv = (adv * np.uint64(2)) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint64:
-- 
2.43.0


From a1d3edfb3d12fe607771bec844843a68cd4392d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 20/30] fix: invert negative values with the Python 3.7 modular
 inverse

---
 numba_pokemon_prngs/compatability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/compatability.py b/numba_pokemon_prngs/compatability.py
index 00a5df5..e454d05 100644
--- a/numba_pokemon_prngs/compatability.py
+++ b/numba_pokemon_prngs/compatability.py
@@ -14,7 +14,7 @@ if sys.version_info.minor < 8:
             g_val, y_val, x_val = extended_gcd(b_val % a_val, a_val)
             return (g_val, x_val - (b_val // a_val) * y_val, y_val)
 
-        gcd, inv, _ = extended_gcd(value, modulus)
+        gcd, inv, _ = extended_gcd(value % modulus, modulus)
         if gcd != 1:
             raise ValueError("base is not invertible for the given modulus")
         return inv % modulus
-- 
2.43.0


From 7552090b3fb421054cab38dbf9bd8991d8ff7c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 21/30] fix: use the field types given to optional_jitclass by
 keyword

---
 numba_pokemon_prngs/compilation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index d67fd3a..b4434c2 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -138,8 +138,9 @@ def optional_jitclass(cls_or_spec=None, spec=None):
         if cls_or_spec is None:
 
             def wrap(cls):
-                spec = convert_spec_cls(None, cls)
-                return numba.experimental.jitclass(cls_or_spec=cls, spec=spec)
+                return numba.experimental.jitclass(
+                    cls_or_spec=cls, spec=convert_spec_cls(spec, cls)
+                )
 
             return wrap
 
-- 
2.43.0


From 7fc354ceffd65660106224dd43e7529722818f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 22/30] fix: accept every unsigned advance type in LCRNG32 jump
 and const_jump

---
 numba_pokemon_prngs/lcrng/lcrng32.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng32.py b/numba_pokemon_prngs/lcrng/lcrng32.py
index 1f1e252..04cde76 100644
--- a/numba_pokemon_prngs/lcrng/lcrng32.py
+++ b/numba_pokemon_prngs/lcrng/lcrng32.py
@@ -114,18 +114,20 @@ def lcrng32_init(
             return np.uint32(self.seed)
 
         def jump(self: LCRNG32, adv: np.uint32):
+            adv = np.uint32(adv)
             i = 0
             while adv:
-                if adv & 1:
+                if adv & np.uint32(1):
                     add, mult = jump_table[i]
                     self.seed = np.uint32(
                         np.uint32(self.seed) * np.uint32(mult) + np.uint32(add)
                     )
-                adv >>= 1
+                adv >>= np.uint32(1)
                 i += 1
             return np.uint32(self.seed)
 
         def const_jump(adv: np.uint32, **kwargs) -> Callable[[LCRNG32]]:
+            adv = int(adv)
             i = 0
             mult = np.uint32(1)
             add = np.uint32(0)
-- 
2.43.0


From 9b149e9f26040d5074606f957017484bec3fb73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 23/30] fix: do not wrap the searched advances of narrow
 argument types without numba

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index b63deab..5c10eb5 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -75,8 +75,11 @@ class WildGenerator3:
         cute_charm = False
         rng = PokeRNGMod(seed)
         go = PokeRNGMod(0)
-        rng.jump(initial_advances + delay)
-        for advance in range(initial_advances, initial_advances + max_advances):
+        rng.jump(initial_advances)
+        rng.jump(delay)
+        for advance in range(
+            int(initial_advances), int(initial_advances) + int(max_advances)
+        ):
             go.re_init(rng.seed)
 
             # RSE uses main rng to check for rock smash encounters
-- 
2.43.0


From 0e9c1d3a15aabc11e44244cf1c8ac215fe9d6200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 24/30] fix: accept LATime and LAWeather members in the
 compiled calc_slot

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index bfc353b..71f42f7 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -44,8 +44,8 @@ class EncounterAreaLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
             self.slots["base_probability"]
-            * self.slots["time_multipliers"][:, time]
-            * self.slots["weather_multipliers"][:, weather]
+            * self.slots["time_multipliers"][:, np.uint8(time)]
+            * self.slots["weather_multipliers"][:, np.uint8(weather)]
         )
         scaled_rand = rand * np.sum(probabilities)
         for i, probability in enumerate(probabilities):
-- 
2.43.0


From 7046a4170c5589f3d5728ac8d5aa5d1d60990603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 25/30] fix: do not shift the encounter slot boundaries down by
 one draw

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index bd826ff..d8c8303 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -17,8 +17,9 @@ def compute_table(ranges: tuple[int], greater: bool = False) -> np.array:
 
     r_val = 99 if greater else 0
     for i, range_val in enumerate(ranges):
-        for r_val in range(r_val, range_val, -1 if greater else 1):
-            table[r_val] = i
+        for rand in range(r_val, range_val, -1 if greater else 1):
+            table[rand] = i
+        r_val = range_val
 
     return table
 
-- 
2.43.0


From 2be702bbc2fe7efb322bdca9a34d99196ca8f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 26/30] fix: read Generation 1 moves and growth rates at their
 offsets

---
 numba_pokemon_prngs/data/personal/personal_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/personal_info.py b/numba_pokemon_prngs/data/personal/personal_info.py
index e879a2c..98a177c 100644
--- a/numba_pokemon_prngs/data/personal/personal_info.py
+++ b/numba_pokemon_prngs/data/personal/personal_info.py
@@ -34,13 +34,14 @@ class PersonalInfo1:
     type_2: U8
     catch_rate: U8
     base_exp: U8
-    _padding: unused_bytes(6)
+    _padding_0: unused_bytes(5)
     move_1: U8
     move_2: U8
     move_3: U8
     move_4: U8
     exp_growth: U8
     tm_hm: unused_bytes(7)
+    _padding_1: unused_bytes(1)
 
 
 PersonalInfo1.dtype: np.dtype
-- 
2.43.0


From fddedff96708b8bb184530d78e7e4fc96f03a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 27/30] fix: read Generation 2 hatch cycles at their offset

---
 numba_pokemon_prngs/data/personal/personal_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/personal_info.py b/numba_pokemon_prngs/data/personal/personal_info.py
index 98a177c..4eb4bd9 100644
--- a/numba_pokemon_prngs/data/personal/personal_info.py
+++ b/numba_pokemon_prngs/data/personal/personal_info.py
@@ -66,8 +66,9 @@ class PersonalInfo2:
     item_1: U8
     item_2: U8
     gender_ratio: U8
+    _padding_0: unused_bytes(1)
     hatch_cycles: U8
-    _padding: unused_bytes(7)
+    _padding_1: unused_bytes(6)
     exp_growth: U8
     egg_group: U8
     tm_hm: unused_bytes(8)
-- 
2.43.0


From e606a031b3efd7b80486c038efee1835658f82ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:01 +0000
Subject: [PATCH 28/30] fix: choose Legends Arceus slots with the same
 precision compiled and uncompiled

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 71f42f7..58d2fcd 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -42,8 +42,9 @@ class EncounterAreaLA:
 
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
+        # numba would otherwise compute the probabilities as float32, numpy as float64
         probabilities = (
-            self.slots["base_probability"]
+            self.slots["base_probability"].astype(np.float64)
             * self.slots["time_multipliers"][:, np.uint8(time)]
             * self.slots["weather_multipliers"][:, np.uint8(weather)]
         )
-- 
2.43.0


From 6b288bd2f3aae03aa2502c0203b20ab1d2098e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 29/30] fix: let threads of one process fill the encounter
 cache at the same time

---
 numba_pokemon_prngs/data/encounter/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index 6009b26..6731221 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -5,6 +5,7 @@ import json
 import pickle
 import os
 import pathlib
+import threading
 import importlib.resources as pkg_resources
 import numpy as np
 from platformdirs import user_cache_dir
@@ -45,7 +46,7 @@ def pickle_cached(filename: str, encode = None, decode = None):
             result = function(*args, **kwargs)
             # replace the file only once it is complete so that an interrupted or concurrent run
             # never leaves a partial cache behind
-            tmp_filename = f"{pkl_filename}.{os.getpid()}.tmp"
+            tmp_filename = f"{pkl_filename}.{os.getpid()}.{threading.get_ident()}.tmp"
             with open(tmp_filename, "wb") as pickled_file:
                 pickle.dump(result if encode is None else encode(result), pickled_file)
             os.replace(tmp_filename, pkl_filename)
-- 
2.43.0


From 0612b03badc4b8b9c389d0d4eec995852e7bd0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 30/30] fix: convert the hints of classes that declare only
 some fields in a positional spec

---
 numba_pokemon_prngs/compilation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index b4434c2..392b4da 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -131,8 +131,8 @@ def optional_jitclass(cls_or_spec=None, spec=None):
             and spec is None
             and not isinstance(cls_or_spec, type)
         ):
-            cls_or_spec = convert_spec(cls_or_spec)
-        elif spec is not None:
+            cls_or_spec, spec = None, cls_or_spec
+        if spec is not None:
             spec = convert_spec(spec)
 
         if cls_or_spec is None:
-- 
2.43.0

