From 816a752d297907612c979ab1baf15538a9072042 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 01/30] fix: keep the TinyMT temper sum within 32 bits when
 compiled

---
 numba_pokemon_prngs/mersenne_twister/tinymt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/tinymt.py b/numba_pokemon_prngs/mersenne_twister/tinymt.py
index cec642b..13f31c3 100644
--- a/numba_pokemon_prngs/mersenne_twister/tinymt.py
+++ b/numba_pokemon_prngs/mersenne_twister/tinymt.py
@@ -75,7 +75,7 @@ class TinyMersenneTwister:
     def temper(self) -> np.uint32:
         """Access and return the next 32-bit tempered rand"""
         temper_0 = self.state[3]
-        temper_1 = self.state[0] + (self.state[2] >> np.uint32(8))
+        temper_1 = np.uint32(self.state[0] + (self.state[2] >> np.uint32(8)))
 
         temper_0 ^= temper_1
 
-- 
2.43.0


From 4d17c94f008ca79f0df08e8653e512bc906dc3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 02/30] fix: reciprocal division draws with a maximum of 1

---
 numba_pokemon_prngs/lcrng/lcrng32.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng32.py b/numba_pokemon_prngs/lcrng/lcrng32.py
index 1fe0bab..33ec1d6 100644
--- a/numba_pokemon_prngs/lcrng/lcrng32.py
+++ b/numba_pokemon_prngs/lcrng/lcrng32.py
@@ -163,8 +163,13 @@ def lcrng32_init(
         elif distribution == LCRNG32RandomDistribution.RECIPROCAL_DIVISION:
 
             def next_rand(self: LCRNG32, maximum: np.uint16) -> np.uint16:
-                return np.uint16(self.next_u16()) // np.uint16(
-                    (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                # the divisor is 0x10000 when maximum is 1
+                return np.uint16(
+                    np.uint32(self.next_u16())
+                    // np.uint32(
+                        np.uint32(np.uint16(0xFFFF) // np.uint16(maximum))
+                        + np.uint32(1)
+                    )
                 )
 
             def const_rand(
@@ -172,8 +177,13 @@ def lcrng32_init(
             ) -> Callable[[LCRNG32], np.uint16]:
                 @optional_njit(**kwargs)
                 def rand_func(self: LCRNG32) -> np.uint16:
-                    return np.uint16(self.next_u16()) // np.uint16(
-                        (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                    # the divisor is 0x10000 when maximum is 1
+                    return np.uint16(
+                        np.uint32(self.next_u16())
+                        // np.uint32(
+                            np.uint32(np.uint16(0xFFFF) // np.uint16(maximum))
+                            + np.uint32(1)
+                        )
                     )
 
                 return rand_func
-- 
2.43.0


From 6392be9256c2d0d0cec6b2264f1a79e735932924 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 03/30] fix: accept np.uint64 distances in LCRNG64 jump and
 const_jump

---
 numba_pokemon_prngs/lcrng/lcrng64.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng64.py b/numba_pokemon_prngs/lcrng/lcrng64.py
index 198f65c..8c5dd69 100644
--- a/numba_pokemon_prngs/lcrng/lcrng64.py
+++ b/numba_pokemon_prngs/lcrng/lcrng64.py
@@ -110,18 +110,20 @@ def lcrng64_init(
             return np.uint64(self.seed)
 
         def jump(self: LCRNG64, adv: np.uint64):
+            adv = np.uint64(adv)
             i = 0
             while adv:
-                if adv & 1:
+                if adv & np.uint64(1):
                     add, mult = jump_table[i]
                     self.seed = np.uint64(
                         np.uint64(self.seed) * np.uint64(mult) + np.uint64(add)
                     )
-                adv >>= 1
+                adv >>= np.uint64(1)
                 i += 1
             return np.uint64(self.seed)
 
         def const_jump(adv: np.uint32, **kwargs) -> Callable[[LCRNG64]]:
+            adv = int(adv)
             i = 0
             mult = np.uint64(1)
             add = np.uint64(0)
-- 
2.43.0


From b1a24e9637c859fdfa134b9d2d271f9e065d4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 04/30] fix: RNGList stores values of its state_type

---
 numba_pokemon_prngs/rng_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index 828ebbf..ff36720 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -52,7 +52,7 @@ def build_rnglist(
 
     @optional_jitclass(
         {
-            "list": array_type(np.uint32),  # contiguous array
+            "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
             "head": np.uint16,
             "pointer": np.uint16,
-- 
2.43.0


From abefe242bbc38fecf325ed311b0cecfe30005d8c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 05/30] fix: RNGList accepts inherited draw methods without
 numba

---
 numba_pokemon_prngs/rng_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index ff36720..b516621 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -46,9 +46,9 @@ def build_rnglist(
             next_function_name
         ]
     else:
-        next_function: Callable[[PRNG], state_type] = rng_class.__dict__[
-            next_function_name
-        ]
+        next_function: Callable[[PRNG], state_type] = getattr(
+            rng_class, next_function_name
+        )
 
     @optional_jitclass(
         {
-- 
2.43.0


From 4356113db3986171f6d3259c31b1f00ac50eef73 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 06/30] fix: RNGList sizes above 65536

---
 numba_pokemon_prngs/rng_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index b516621..b985dbc 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -54,8 +54,8 @@ def build_rnglist(
         {
             "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
-            "head": np.uint16,
-            "pointer": np.uint16,
+            "head": np.uint32,
+            "pointer": np.uint32,
         }
     )
     class SpecificRNGList:
-- 
2.43.0


From 35943eaca647cf21366151e083311b10e8244914 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 07/30] fix: encounter slot table boundaries are off by one

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index da621d9..1927627 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -19,6 +19,8 @@ def compute_table(ranges: tuple[int], greater: bool = False) -> np.array:
     for i, range_val in enumerate(ranges):
         for r_val in range(r_val, range_val, -1 if greater else 1):
             table[r_val] = i
+        # the next range starts where this one ends
+        r_val = range_val
 
     return table
 
-- 
2.43.0


From 8ac6a77017b6eaca39e7be70ebcb6de426eb63bc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 08/30] fix: grass and fishing encounter rates are swapped

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index 1927627..c76922f 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -195,7 +195,11 @@ def get_encounter_rate(
     encounter_area: EncounterArea3, encounter_type: Encounter
 ) -> np.uint8:
     """Get encounter rate"""
-    if encounter_type == Encounter.GRASS:
+    if encounter_type in (
+        Encounter.OLD_ROD,
+        Encounter.GOOD_ROD,
+        Encounter.SUPER_ROD,
+    ):
         return encounter_area.fish_rate
     if encounter_type == Encounter.ROCK_SMASH:
         return encounter_area.rock_rate
-- 
2.43.0


From 70a2d208a682348d9d91125c4999e51a293e84fb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 09/30] fix: bare @optional_njit without numba

---
 numba_pokemon_prngs/compilation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 80ffd70..e649a0d 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -118,7 +118,7 @@ else:
 
     def return_type(output_type, input_types):
         """Function that takes inputs and returns the return type based on the output type"""
-        return lambda *args: output_type
+        return None
 
     # pylint enable=unused-argument
 
@@ -167,9 +167,11 @@ def optional_njit(signature_or_function=None, locals=None, **options):
             **options,
         )
 
-    # TODO: support @optional_njit w/o arguments provided
-
     def wrap(func):
         return func
 
+    # @optional_njit w/o arguments provided
+    if callable(signature_or_function):
+        return wrap(signature_or_function)
+
     return wrap
-- 
2.43.0


From 029e30e601370cb643f5f07e8cc0500e20b893c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 10/30] fix: a failed rock smash check does not stop the main
 rng

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 85a8aa6..a7b2b6b 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -81,6 +81,7 @@ class WildGenerator3:
 
             # RSE uses main rng to check for rock smash encounters
             if rse and self.encounter == Encounter.ROCK_SMASH and rand_2880(go) >= rate:
+                rng.next()
                 continue
 
             encounter_slot = encounter_area_3.calculate_hslot_lead(
-- 
2.43.0


From 7e838871d39bf9d5fad0f0ca77023f6b92cb253f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 11/30] fix: cute charm applies to species with both genders
 only

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index a7b2b6b..b63deab 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -95,9 +95,9 @@ class WildGenerator3:
             info = self.personal_info_table[species]
             if self.lead == Lead.CUTE_CHARM_M or self.lead == Lead.CUTE_CHARM_F:
                 if 0 < info.gender_ratio < 254:
-                    cute_charm = False
-                else:
                     cute_charm = rand_3(go) != 0
+                else:
+                    cute_charm = False
 
             # pokeblocks
             if rse_safari:
-- 
2.43.0


From 67b29d3d5d55671479877275b87b9fab99f122b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 12/30] fix: nature modifiers are applied to the wrong stats

---
 numba_pokemon_prngs/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/util.py b/numba_pokemon_prngs/util.py
index f1b3ffd..f9a9bc8 100644
--- a/numba_pokemon_prngs/util.py
+++ b/numba_pokemon_prngs/util.py
@@ -49,12 +49,16 @@ NATURE_MODIFIERS = np.ones((25, 5), np.float32)
 for i in range(25):
     NATURE_MODIFIERS[i][i % 5] -= 0.1
     NATURE_MODIFIERS[i][i // 5] += 0.1
+# nature modifiers are ordered atk/def/spe/spa/spd while stats are atk/def/spa/spd/spe
+NATURE_STAT_ORDER = np.array((0, 1, 3, 4, 2), np.uint8)
 
 
 @optional_njit(return_type(np.uint16, (np.uint16, np.uint8, np.uint8)))
 def compute_stat(stat: np.uint16, nature: np.uint8, index: np.int8):
     """Compute stat after nature modifier"""
-    return np.uint16(np.float32(stat) * NATURE_MODIFIERS[nature][index - 1])
+    return np.uint16(
+        np.float32(stat) * NATURE_MODIFIERS[nature][NATURE_STAT_ORDER[index - 1]]
+    )
 
 
 HEX_LOOKUP = np.array([f"{i:02X}" for i in range(256)], dtype=np.str_)
-- 
2.43.0


From da948c28c18461afea9f1c5e98ea1899eed9aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 13/30] fix: hidden power strength is a whole number without
 numba

---
 numba_pokemon_prngs/gen3/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/state.py b/numba_pokemon_prngs/gen3/state.py
index e00c228..f4ff347 100644
--- a/numba_pokemon_prngs/gen3/state.py
+++ b/numba_pokemon_prngs/gen3/state.py
@@ -66,7 +66,7 @@ class State:
                 max_iv = self.ivs[ORDER[index]]
 
         self.hidden_power = hidden_power_val * 15 // 63
-        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 / 63)
+        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 // 63)
         self.characteristic = (char_index * 5) + (max_iv % 5)
 
 
-- 
2.43.0


From 70359d68c0cd9585542bdc4ad8a819da8a746f17 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 14/30] fix: Game.DIAMOND shares its value with Game.PLATINUM

---
 numba_pokemon_prngs/enums/game.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/enums/game.py b/numba_pokemon_prngs/enums/game.py
index a6a7025..d2eb9c7 100644
--- a/numba_pokemon_prngs/enums/game.py
+++ b/numba_pokemon_prngs/enums/game.py
@@ -14,7 +14,7 @@ class Game(IntEnum):
     LEAF_GREEN = 1 << 4
     GALES = 1 << 5
     COLOSSEUM = 1 << 6
-    DIAMOND = 1 << 9
+    DIAMOND = 1 << 7
     PEARL = 1 << 8
     PLATINUM = 1 << 9
     HEART_GOLD = 1 << 10
-- 
2.43.0


From a125fe40648cf91bb1b7af0f100f30e386d8e98b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 15/30] fix: get_info_table returns the Platinum table for
 Platinum

---
 numba_pokemon_prngs/data/personal/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numba_pokemon_prngs/data/personal/__init__.py b/numba_pokemon_prngs/data/personal/__init__.py
index ea9fb4a..b0bce37 100644
--- a/numba_pokemon_prngs/data/personal/__init__.py
+++ b/numba_pokemon_prngs/data/personal/__init__.py
@@ -89,6 +89,8 @@ def get_info_table(game: Game):
         return PERSONAL_INFO_LG
     if game & (Game.DIAMOND | Game.PEARL):
         return PERSONAL_INFO_DP
+    if game & (Game.PLATINUM):
+        return PERSONAL_INFO_PT
     if game & (Game.BLACK | Game.WHITE):
         return PERSONAL_INFO_BW
     if game & (Game.BLACK2 | Game.WHITE2):
-- 
2.43.0


From 312f0bcd810bf929ce7dabcc8060e320d41606fb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 16/30] fix: EncounterAreaLA.calc_slot without numba

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 8301b7b..bfc353b 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -43,9 +43,9 @@ class EncounterAreaLA:
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
-            self.slots.base_probability
-            * self.slots.time_multipliers[:, time]
-            * self.slots.weather_multipliers[:, weather]
+            self.slots["base_probability"]
+            * self.slots["time_multipliers"][:, time]
+            * self.slots["weather_multipliers"][:, weather]
         )
         scaled_rand = rand * np.sum(probabilities)
         for i, probability in enumerate(probabilities):
-- 
2.43.0


From b14c5e92bfcd0668f9c6b91aa4213d6bbef102a9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 17/30] fix: static attracts electric types

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index c76922f..3200474 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -129,23 +129,7 @@ def get_modified_slots(
     if lead == Lead.MAGNET_PULL:
         lead_type = 8
     elif lead == Lead.STATIC:
-        lead_type = (
-            13
-            if game
-            & (
-                Game.RUBY
-                | Game.SAPPHIRE
-                | Game.EMERALD
-                | Game.FIRE_RED
-                | Game.LEAF_GREEN
-                | Game.DIAMOND
-                | Game.PEARL
-                | Game.PLATINUM
-                | Game.HEART_GOLD
-                | Game.SOUL_SILVER
-            )
-            else 12
-        )
+        lead_type = 12
     elif lead == Lead.HARVEST:
         lead_type = 11
     elif lead == Lead.FLASH_FIRE:
-- 
2.43.0


From 0e06abecfc7f68b9c1d60796627a9a58297b99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 18/30] fix: compiled generation with initial advances plus
 delay above 32 bits

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index b63deab..d620bb6 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -75,7 +75,7 @@ class WildGenerator3:
         cute_charm = False
         rng = PokeRNGMod(seed)
         go = PokeRNGMod(0)
-        rng.jump(initial_advances + delay)
+        rng.jump(np.uint32(np.uint32(initial_advances) + np.uint32(delay)))
         for advance in range(initial_advances, initial_advances + max_advances):
             go.re_init(rng.seed)
 
-- 
2.43.0


From 5ce1db9b1043c7f29d28e6775d9d0495c7911dab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 19/30] fix: large MT/SFMT advances wrap around without numba

---
 numba_pokemon_prngs/mersenne_twister/mt.py   | 10 +++++-----
 numba_pokemon_prngs/mersenne_twister/sfmt.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/mt.py b/numba_pokemon_prngs/mersenne_twister/mt.py
index 8f2ed95..36eb6e5 100644
--- a/numba_pokemon_prngs/mersenne_twister/mt.py
+++ b/numba_pokemon_prngs/mersenne_twister/mt.py
@@ -38,12 +38,12 @@ class MersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv += np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # the new index does not always fit in 32 bits
+        new_index = np.uint64(np.uint32(adv)) + np.uint64(self.index)
+        while new_index >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
-        self.index = np.uint16(adv)
+            new_index -= np.uint64(624)
+        self.index = np.uint16(new_index)
 
     def next(self) -> np.uint32:
         """Access and return the next 32-bit tempered rand"""
diff --git a/numba_pokemon_prngs/mersenne_twister/sfmt.py b/numba_pokemon_prngs/mersenne_twister/sfmt.py
index 6e8280a..02099e3 100644
--- a/numba_pokemon_prngs/mersenne_twister/sfmt.py
+++ b/numba_pokemon_prngs/mersenne_twister/sfmt.py
@@ -297,12 +297,12 @@ class SIMDFastMersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance SIMD-oriented Fast Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv = (adv * np.uint32(2)) + np.uint32(self.index)
-        while adv >= np.uint32(624):
+        # the new index does not always fit in 32 bits
+        new_index = np.uint64(np.uint32(adv)) * np.uint64(2) + np.uint64(self.index)
+        while new_index >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
-        self.index = np.uint16(adv)
+            new_index -= np.uint64(624)
+        self.index = np.uint16(new_index)
 
     def next(self) -> np.uint64:
         """Access and return the next 64-bit rand"""
-- 
2.43.0


From 839657f8727e5eddb4e29ae1f18ae2e6d0123cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 20/30] fix: reading an absent FlatBuffer string returns the
 default

---
 numba_pokemon_prngs/data/fbs/flatbuffer_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
index 2137ceb..78cb635 100644
--- a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
+++ b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
@@ -136,13 +136,13 @@ class FlatBufferObject:
 
     def read_string(self, position: int, default=None):
         """Read a string at position"""
-        array = default
         pos_offset = self._table.Offset(position)
         if pos_offset:
             array_offset = self._table.Vector(pos_offset)
             array_len = self._table.VectorLen(pos_offset)
             array = self._table.Bytes[array_offset : array_offset + array_len]
-        return array.decode("utf-8")
+            return array.decode("utf-8")
+        return default
 
     def read_init_string(self, default=None):
         """Read a string at the position of self._counter and increment the counter"""
-- 
2.43.0


From 10b2393d3af371fc7fe2427372decbca441f6007 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 21/30] fix: incomplete or unwritable cache files break loading

---
 .../data/encounter/__init__.py                | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index e3771bb..648e8a1 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -4,6 +4,7 @@ import re
 import json
 import pickle
 import os
+import time
 import pathlib
 import importlib.resources as pkg_resources
 import numpy as np
@@ -32,20 +33,28 @@ def pickle_cached(filename: str, encode = None, decode = None):
     def wrapper(function):
         def wrapped(*args, **kwargs):
             pkl_filename = filename.format(*args, **kwargs)
-            if os.path.exists(pkl_filename):
+            try:
                 with open(pkl_filename, "rb") as pickled_file:
-                    data = pickled_file.read()
-                    if data:
-                        data = pickle.loads(data)
-                        if decode is not None:
-                            return decode(data)
-                        return data
+                    data = pickle.load(pickled_file)
+            except Exception:  # pylint: disable=broad-exception-caught
+                # missing, incomplete or unreadable cache
+                pass
+            else:
+                if decode is not None:
+                    return decode(data)
+                return data
             result = function(*args, **kwargs)
-            with open(pkl_filename, "wb+") as pickled_file:
-                if encode is not None:
-                    pickled_file.write(pickle.dumps(encode(result)))
-                else:
-                    pickle.dump(result, pickled_file)
+            data = pickle.dumps(result if encode is None else encode(result))
+            # only ever move a completely written file into place
+            temp_filename = f"{pkl_filename}.{os.getpid()}.{time.time_ns()}.tmp"
+            try:
+                with open(temp_filename, "wb") as pickled_file:
+                    pickled_file.write(data)
+                os.replace(temp_filename, pkl_filename)
+            except OSError:
+                # the cache is optional
+                if os.path.exists(temp_filename):
+                    os.remove(temp_filename)
             return result
         return wrapped
     return wrapper
-- 
2.43.0


From d8e9393159c0f38c0465b28af2b7d98cac4d160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 22/30] fix: calculate_level returns a float when compiled

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index 3200474..4f947ed 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -83,7 +83,7 @@ def calculate_level(slot: Slot3, rng: PokeRNGMod, pressure: bool) -> np.uint8:
             return maximum
         if rand != 0:
             rand -= 1
-    return minimum + rand
+    return np.uint8(minimum + rand)
 
 
 @optional_njit
-- 
2.43.0


From 26e68bff48eb3eb40d75301a1ce94c02311823c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 23/30] fix: calc_slot accepts LATime and LAWeather members
 when compiled

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index bfc353b..3e63bac 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -44,8 +44,8 @@ class EncounterAreaLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
             self.slots["base_probability"]
-            * self.slots["time_multipliers"][:, time]
-            * self.slots["weather_multipliers"][:, weather]
+            * self.slots["time_multipliers"][:, np.int64(time)]
+            * self.slots["weather_multipliers"][:, np.int64(weather)]
         )
         scaled_rand = rand * np.sum(probabilities)
         for i, probability in enumerate(probabilities):
-- 
2.43.0


From c5c0b28a9d6a66dd64febe8d16598aeac288b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 24/30] fix: a cache directory that cannot be created breaks
 loading

---
 numba_pokemon_prngs/data/encounter/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index 648e8a1..00a76ec 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -29,7 +29,11 @@ def pickle_cached(filename: str, encode = None, decode = None):
     """Cache results of a function next to the executable"""
     cache_dir = user_cache_dir("numba_pokemon_prngs", "Lincoln-LM")
     filename = cache_dir + "/" + filename
-    pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)
+    try:
+        pathlib.Path(cache_dir).mkdir(parents=True, exist_ok=True)
+    except OSError:
+        # the cache is optional
+        pass
     def wrapper(function):
         def wrapped(*args, **kwargs):
             pkl_filename = filename.format(*args, **kwargs)
-- 
2.43.0


From 87e598566dfb102a9d2ceb6edf79b71bf2f3ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 25/30] fix: documented result types without numba

---
 numba_pokemon_prngs/mersenne_twister/tinymt.py   | 2 +-
 numba_pokemon_prngs/xorshift/xoroshiro128plus.py | 4 ++--
 numba_pokemon_prngs/xorshift/xorshift128.py      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/tinymt.py b/numba_pokemon_prngs/mersenne_twister/tinymt.py
index 13f31c3..2ab449c 100644
--- a/numba_pokemon_prngs/mersenne_twister/tinymt.py
+++ b/numba_pokemon_prngs/mersenne_twister/tinymt.py
@@ -79,7 +79,7 @@ class TinyMersenneTwister:
 
         temper_0 ^= temper_1
 
-        return temper_0 ^ ((temper_1 & 1) * np.uint32(0x3793FDFF))
+        return temper_0 ^ ((temper_1 & np.uint32(1)) * np.uint32(0x3793FDFF))
 
     def next_rand(self, maximum: np.uint32) -> np.uint32:
         """Generate and return the next [0, maximum) random uint
diff --git a/numba_pokemon_prngs/xorshift/xoroshiro128plus.py b/numba_pokemon_prngs/xorshift/xoroshiro128plus.py
index 34018e3..3825db7 100644
--- a/numba_pokemon_prngs/xorshift/xoroshiro128plus.py
+++ b/numba_pokemon_prngs/xorshift/xoroshiro128plus.py
@@ -85,7 +85,7 @@ class Xoroshiro128PlusRejection(Xoroshiro128Plus):
         result = self.next() & mask
         while result >= maximum:
             result = self.next() & mask
-        return result
+        return np.uint32(result)
 
     @staticmethod
     def bit_mask(val: np.uint32) -> np.uint32:
@@ -153,4 +153,4 @@ class SplitMixXoroshiro128Plus(Xoroshiro128Plus):
         return np.uint32(np.uint64(seed_0 + seed_1) >> np.uint64(32))
 
     def next_rand(self, maximum: np.uint32) -> np.uint32:
-        return self.next() % maximum
+        return self.next() % np.uint32(maximum)
diff --git a/numba_pokemon_prngs/xorshift/xorshift128.py b/numba_pokemon_prngs/xorshift/xorshift128.py
index 3bbf332..0687200 100644
--- a/numba_pokemon_prngs/xorshift/xorshift128.py
+++ b/numba_pokemon_prngs/xorshift/xorshift128.py
@@ -95,7 +95,7 @@ class Xorshift128:
             self.next_randrange(
                 np.int32(-0x7FFFFFFF) - np.uint32(1), np.int32(0x7FFFFFFF)
             )
-            % maximum
+            % np.uint32(maximum)
         )
 
     def next_float_randrange(
-- 
2.43.0


From 3545317e270033d8a82ec793aadd7b5ee6db13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 26/30] fix: advance by 2^63 or more when compiled

---
 numba_pokemon_prngs/lcrng/lcrng64.py             | 4 +++-
 numba_pokemon_prngs/xorshift/xoroshiro128plus.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng64.py b/numba_pokemon_prngs/lcrng/lcrng64.py
index 8c5dd69..92532f2 100644
--- a/numba_pokemon_prngs/lcrng/lcrng64.py
+++ b/numba_pokemon_prngs/lcrng/lcrng64.py
@@ -47,8 +47,10 @@ class LCRNG64:
     def advance(self, adv: np.uint64) -> np.uint64:
         """Advance the LCRNG sequence by adv"""
         adv = np.uint64(adv)
-        for _ in range(adv):
+        # range does not cover distances of 2^63 and more when compiled
+        while adv != np.uint64(0):
             self.next()
+            adv -= np.uint64(1)
         return np.uint64(self.seed)
 
     def next_u32(self) -> np.uint32:
diff --git a/numba_pokemon_prngs/xorshift/xoroshiro128plus.py b/numba_pokemon_prngs/xorshift/xoroshiro128plus.py
index 3825db7..319235a 100644
--- a/numba_pokemon_prngs/xorshift/xoroshiro128plus.py
+++ b/numba_pokemon_prngs/xorshift/xoroshiro128plus.py
@@ -22,8 +22,11 @@ class Xoroshiro128Plus:
 
     def advance(self, adv: np.uint64) -> None:
         """Advance Xoroshiro128+ sequence by adv"""
-        for _ in range(adv):
+        adv = np.uint64(adv)
+        # range does not cover distances of 2^63 and more when compiled
+        while adv != np.uint64(0):
             self.next()
+            adv -= np.uint64(1)
 
     def next(self) -> np.uint64 | np.uint32:
         """Advance and return the next random uint"""
-- 
2.43.0


From 3563c268d0390b679be903a7fb136b36272cea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:41 +0000
Subject: [PATCH 27/30] fix: optional_jitclass ignores spec given without a
 class

---
 numba_pokemon_prngs/compilation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index e649a0d..5e547a9 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -138,8 +138,9 @@ def optional_jitclass(cls_or_spec=None, spec=None):
         if cls_or_spec is None:
 
             def wrap(cls):
-                spec = convert_spec_cls(None, cls)
-                return numba.experimental.jitclass(cls_or_spec=cls, spec=spec)
+                return numba.experimental.jitclass(
+                    cls_or_spec=cls, spec=convert_spec_cls(spec, cls)
+                )
 
             return wrap
 
-- 
2.43.0


From 6f06b082651cc106704dc11e2694fd03648d2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:52 +0000
Subject: [PATCH 28/30] fix: calc_slot rounded weights to float32 when compiled

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 3e63bac..dee54f0 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -42,8 +42,9 @@ class EncounterAreaLA:
 
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
+        # uint32 * float32 is a float32 in numba and a float64 in numpy
         probabilities = (
-            self.slots["base_probability"]
+            self.slots["base_probability"].astype(np.float64)
             * self.slots["time_multipliers"][:, np.int64(time)]
             * self.slots["weather_multipliers"][:, np.int64(weather)]
         )
-- 
2.43.0


From 8260812dee41d6dc73bc953839e47db40aca1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 29/30] fix: Gen 3 windows ending at 2**32 were empty outside
 of numba

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index d620bb6..db1b943 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -76,7 +76,9 @@ class WildGenerator3:
         rng = PokeRNGMod(seed)
         go = PokeRNGMod(0)
         rng.jump(np.uint32(np.uint32(initial_advances) + np.uint32(delay)))
-        for advance in range(initial_advances, initial_advances + max_advances):
+        # the end can be 2**32, more than a np.uint32 holds outside of numba
+        end_advance = int(initial_advances) + int(max_advances)
+        for advance in range(initial_advances, end_advance):
             go.re_init(rng.seed)
 
             # RSE uses main rng to check for rock smash encounters
-- 
2.43.0


From feddf345f30b9868a0b026fa0c70d0061b3f9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:21 +0000
Subject: [PATCH 30/30] fix: a double right below 1 could choose a Legends
 Arceus slot of weight 0

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index dee54f0..aa3a51e 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -49,8 +49,12 @@ class EncounterAreaLA:
             * self.slots["weather_multipliers"][:, np.int64(weather)]
         )
         scaled_rand = rand * np.sum(probabilities)
+        chosen = len(probabilities) - 1
         for i, probability in enumerate(probabilities):
+            # rounding can leave a remainder after the last possible slot
+            if probability > 0:
+                chosen = i
             if scaled_rand < probability:
                 break
             scaled_rand -= probability
-        return self.slots[i]
+        return self.slots[chosen]
-- 
2.43.0

