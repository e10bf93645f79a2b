From 0f3957f4ffdb362fbd9c4418f3a0777b2939a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 01/22] fix: accept the whole int32 range when writing an int32

---
 src/acetimetools/generator/byteutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/byteutils.py b/src/acetimetools/generator/byteutils.py
index 5c549f5..8d19915 100644
--- a/src/acetimetools/generator/byteutils.py
+++ b/src/acetimetools/generator/byteutils.py
@@ -71,8 +71,8 @@ def write_u32(data: bytearray, x: int) -> None:
 
 
 def write_i32(data: bytearray, x: int) -> None:
-    if x > (1 << 31 - 1):
-        raise ValueError(f"x={x} > {1<<31-1}, cannot write into int32")
+    if x > (1 << 31) - 1:
+        raise ValueError(f"x={x} > {(1<<31)-1}, cannot write into int32")
     if x < -(1 << 31):
         raise ValueError(f"x={x} < {-(1<<31)}, cannot write into int32")
     if x < 0:
-- 
2.43.0


From da775883b21e449795991eb19e6b7d96a537e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 02/22] fix: remove a policy with an invalid or negative AT
 instead of crashing

---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 09cc099..643ff26 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1141,13 +1141,13 @@ class Transformer:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"invalid AT '{at_time}'" % at_time)
+                        f"invalid AT '{at_time}'")
                     break
                 if at_seconds < 0:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"negative AT '{at_time}'" % at_time)
+                        f"negative AT '{at_time}'")
                     break
 
                 # Check if AT is not on 15-minute boundary
-- 
2.43.0


From 4d97db7a0b26c2b3f3c2991db9461646dfbfe017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 03/22] fix: reset the whole UNTIL of an era that is extended
 to infinity

---
 src/acetimetools/transformer/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 643ff26..fa1e4ae 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -432,6 +432,11 @@ class Transformer:
             last_era = info['eras'][-1]
             if last_era['until_year'] != MAX_UNTIL_YEAR:
                 last_era['until_year'] = MAX_UNTIL_YEAR
+                last_era['until_year_only'] = True
+                last_era['until_month'] = 1
+                last_era['until_day_string'] = '1'
+                last_era['until_time'] = '00:00'
+                last_era['until_time_suffix'] = 'w'
                 last_era['raw_line'] = 'Extended: ' + last_era['raw_line']
                 # Don't bother adding an entry in notable_zones, because there
                 # would already be a note about removing eras "too new".
-- 
2.43.0


From af8f59fb11396ff08a94bb2b25fdd2be7f55b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 04/22] fix: reject exactly the Jan ON expressions that can
 reach the previous year

---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index fa1e4ae..964fa28 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1336,8 +1336,8 @@ class Transformer:
                 # "dayOfWeek<=6" or "dayOfWeek>=26" if the shift causes the year
                 # to change.
                 if on_day_of_week != 0 and on_day_of_month != 0:
-                    if (-7 <= on_day_of_month
-                            and on_day_of_month < -1
+                    if (-7 < on_day_of_month
+                            and on_day_of_month <= -1
                             and rule['in_month'] == 1):
                         valid = False
                         add_comment(
-- 
2.43.0


From ecf011dabdbaa9a4f78110500b278f10535ad938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 05/22] fix: refuse a rule SAVE that does not fit the int8
 minutes field

---
 src/acetimetools/transformer/artransformer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 75e1976..0584292 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -225,7 +225,12 @@ class ArduinoTransformer:
                         raise Exception(
                             f'delta_seconds={delta_seconds} is '
                             'not a multiple of 0:01 minutes')
-                    rule['delta_minutes'] = delta_seconds // 60
+                    delta_minutes = delta_seconds // 60
+                    if delta_minutes < -128 or delta_minutes > 127:
+                        raise Exception(
+                            f'delta_minutes={delta_minutes} '
+                            'does not fit in 1 byte')
+                    rule['delta_minutes'] = delta_minutes
 
     def _process_eras_stdoff_delta(self, zones_map: ZonesMap) -> None:
         """Convert the STDOFF and RULES/DSTOFF fields of ZoneEraRaw into values
-- 
2.43.0


From 09c7e5bc188e7881548f383652417993c8ffda5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 06/22] fix: make the --granularity flag take effect

---
 src/acetimetools/tzcompiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index 2fedb3c..a80341d 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -473,6 +473,10 @@ def main() -> None:
         offset_granularity = args.offset_granularity
     if args.delta_granularity:
         delta_granularity = args.delta_granularity
+    if args.granularity:
+        until_at_granularity = args.granularity
+        offset_granularity = args.granularity
+        delta_granularity = args.granularity
 
     logging.info('======== TZ Compiler settings')
     logging.info(f'Scope: {args.scope}')
-- 
2.43.0


From ceaf9163dfa3fb0a33eba73d6b768dc1ab2d5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 07/22] fix: reject signed or empty components inside a time
 string

---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 964fa28..b91434c 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1719,13 +1719,13 @@ def time_string_to_seconds(time_string: str) -> int:
     Returns INVALID_SECONDS if there is a parsing error.
     """
     sign = 1
-    if time_string[0] == '-':
+    if time_string[:1] == '-':
         sign = -1
         time_string = time_string[1:]
 
     try:
         elems = time_string.split(':')
-        if len(elems) == 0:
+        if not all(elem.isdigit() for elem in elems):
             return INVALID_SECONDS
         hour = int(elems[0])
         minute = int(elems[1]) if len(elems) > 1 else 0
-- 
2.43.0


From ed2ff08895a18cca584c0c9190ed101e6dcd74bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 08/22] fix: refuse policies whose names normalize to the same
 symbol

---
 src/acetimetools/transformer/transformer.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index b91434c..84e7e70 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -130,6 +130,7 @@ class Transformer:
         _detect_links_to_links(links_map)
         _detect_hash_collisions(zones_map=zones_map, links_map=links_map)
         _detect_zones_and_links_with_similar_names(zones_map, links_map)
+        _detect_policies_with_similar_names(policies_map)
         original_min_year, original_max_year = \
             _detect_tzdb_years(zones_map, policies_map)
 
@@ -2163,6 +2164,21 @@ def _detect_zones_and_links_with_similar_names(
         result_links[link_name] = zone_name
 
 
+def _detect_policies_with_similar_names(policies_map: PoliciesMap) -> None:
+    """If there were 2 policy names like "E-Eur" and "E_Eur", both would
+    produce the same symbol (e.g. "kZonePolicyE_Eur"), so the zones of one
+    would silently use the rules of the other. Make this a fatal error.
+    """
+    normalized_names: Dict[str, str] = {}  # normalized_name, name
+    for policy_name in policies_map.keys():
+        nname = normalize_name(policy_name)
+        if nname in normalized_names:
+            raise Exception(
+                f"Duplicate normalized policy name: {policy_name} -> {nname}"
+            )
+        normalized_names[nname] = policy_name
+
+
 def _detect_tzdb_years(
     zones_map: ZonesMap, policies_map: PoliciesMap,
 ) -> Tuple[int, int]:
-- 
2.43.0


From e7a103e561c6b1f45d8dc1d180303119407a7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 09/22] fix: keep a standard time rule when a window would
 leave a policy without one

---
 src/acetimetools/transformer/transformer.py | 31 ++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 84e7e70..29bbd8b 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1038,6 +1038,13 @@ class Transformer:
             for rule in priors:
                 rule['truncated'] = 0
 
+            # Make sure that at least one standard time Rule survives, because
+            # it determines the anchor rule.
+            if not any(rule['truncated'] == 0 and is_standard_rule(rule)
+                       for rule in rules):
+                for rule in find_nearest_standard_rules(rules, start_year):
+                    rule['truncated'] = 0
+
             # Collect used rules.
             used_rules: List[ZoneRuleRaw] = []
             lower_truncated = False
@@ -1374,7 +1381,7 @@ class Transformer:
         """
         for name, policy in policies_map.items():
             rules = policy['rules']
-            if len(rules) == 1:
+            if len(rules) == 1 and rules[0]['delta_seconds'] == 0:
                 _convert_to_anchor(rules[0])
             else:
                 anchor_rule = _get_anchor_rule(rules)
@@ -1816,6 +1823,28 @@ def find_latest_prior_rules(
     return candidates
 
 
+def is_standard_rule(rule: ZoneRuleRaw) -> bool:
+    return time_string_to_seconds(rule['delta_offset']) == 0
+
+
+def find_nearest_standard_rules(
+    rules: List[ZoneRuleRaw],
+    year: int,
+) -> List[ZoneRuleRaw]:
+    """Find the standard time Rules (SAVE == 0) which are closest to the given
+    year: the latest prior ones if they exist, otherwise the earliest ones
+    afterwards. Used when the interval leaves no standard time Rule.
+    """
+    standards = [rule for rule in rules if is_standard_rule(rule)]
+    priors = find_latest_prior_rules(standards, year)
+    if priors:
+        return priors
+    dates = [(rule['from_year'], rule['in_month']) for rule in standards]
+    return [
+        rule for rule, date in zip(standards, dates) if date == min(dates)
+    ]
+
+
 def find_earliest_subsequent_rules(
     rules: List[ZoneRuleRaw],
     year: int,
-- 
2.43.0


From e4b31d34553a9d809ca8ccb2666b979dbe44d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 10/22] fix: count the merged notable zones that are listed

---
 src/acetimetools/generator/cgenerator.py  | 2 +-
 src/acetimetools/generator/gogenerator.py | 2 +-
 src/acetimetools/generator/pygenerator.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index d8034e5..16e9965 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -430,7 +430,7 @@ extern const AtcZoneInfo k{self.db_namespace}Zone{link_normalized_name}; \
         notable_link_items = render_comments_map(self.notable_links)
 
         num_removed_infos = len(self.removed_zones)
-        num_notable_infos = len(self.notable_zones)
+        num_notable_infos = len(self.merged_notable_zones)
         num_removed_links = len(self.removed_links)
         num_notable_links = len(self.notable_links)
 
diff --git a/src/acetimetools/generator/gogenerator.py b/src/acetimetools/generator/gogenerator.py
index 4f54d3c..2235090 100644
--- a/src/acetimetools/generator/gogenerator.py
+++ b/src/acetimetools/generator/gogenerator.py
@@ -549,7 +549,7 @@ const ZoneInfosData = {zone_infos_data_string}
 {removed_info_items}
 
 // ---------------------------------------------------------------------------
-// Notable zones: {len(self.notable_zones)}
+// Notable zones: {len(self.merged_notable_zones)}
 // ---------------------------------------------------------------------------
 
 {notable_info_items}
diff --git a/src/acetimetools/generator/pygenerator.py b/src/acetimetools/generator/pygenerator.py
index 9d0c708..ec623f6 100644
--- a/src/acetimetools/generator/pygenerator.py
+++ b/src/acetimetools/generator/pygenerator.py
@@ -286,7 +286,7 @@ UNTIL_YEAR_ACCURATE = {self.until_year_accurate}
 {removed_info_items}
 
 # ---------------------------------------------------------------------------
-# Notable zones: {len(self.notable_zones)}
+# Notable zones: {len(self.merged_notable_zones)}
 # ---------------------------------------------------------------------------
 
 {notable_info_items}
-- 
2.43.0


From 9c5679f5f76bf4c39b6d9d22335d55a96d1c5255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 11/22] fix: count the null policy in the memory map of the Go
 database

---
 src/acetimetools/transformer/gotransformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/gotransformer.py b/src/acetimetools/transformer/gotransformer.py
index 471128a..eb64084 100644
--- a/src/acetimetools/transformer/gotransformer.py
+++ b/src/acetimetools/transformer/gotransformer.py
@@ -304,7 +304,8 @@ def _generate_memory_map(
     rule_size = num_rules * rule_chunk_size
 
     policy_chunk_size = 4
-    policy_size = num_policies * policy_chunk_size
+    # +1 for the leading null policy in ZonePolicyData[]
+    policy_size = (num_policies + 1) * policy_chunk_size
 
     era_chunk_size = 14
     era_size = num_eras * era_chunk_size
-- 
2.43.0


From 1b5aecf9303e97ec2bb3e601eda4fcc3b2369bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 12/22] fix: count the null fragment in the memory map of the
 Arduino and C databases

---
 src/acetimetools/transformer/artransformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 0584292..ca1edc0 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -381,7 +381,8 @@ class ArduinoTransformer:
         # Fragment and Letter strings are stored in separate arrays as
         # kFragments and kLetters. So we include the pointers to these.
         fragment_size = sum([len(s) + 1 for s in self.fragments_map.keys()])
-        fragment_size += len(self.fragments_map) * sizes['pointer']
+        # +1 for the leading null pointer of kFragments.
+        fragment_size += (len(self.fragments_map) + 1) * sizes['pointer']
         letter_size = sum([len(s) + 1 for s in self.letters_map.keys()])
         letter_size += len(self.letters_map) * sizes['pointer']
 
-- 
2.43.0


From c193928aad88eddc9235a8b380c25664490820aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 13/22] fix: refuse more rules, eras or letters than their
 uint8 count can hold

---
 src/acetimetools/transformer/artransformer.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index ca1edc0..d732af5 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -99,6 +99,7 @@ class ArduinoTransformer:
 
         self.letters_map = _collect_letter_strings(self.policies_map)
         self.formats_map = _collect_format_strings(self.zones_map)
+        _check_counts(self.zones_map, self.policies_map, self.letters_map)
 
         self._process_rules_from_to_at(self.policies_map)
         self._process_rules_letter(self.policies_map, self.letters_map)
@@ -446,6 +447,24 @@ def _collect_letter_strings(policies_map: PoliciesMap) -> IndexMap:
     return letters_map
 
 
+def _check_counts(
+    zones_map: ZonesMap,
+    policies_map: PoliciesMap,
+    letters_map: IndexMap,
+) -> None:
+    """Check that the counts (numLetters, numRules, numEras) and the index of a
+    letter fit into the uint8_t that holds them.
+    """
+    if len(letters_map) > 255:
+        raise Exception(f"Too many letters: {len(letters_map)} > 255")
+    for name, policy in policies_map.items():
+        if len(policy['rules']) > 255:
+            raise Exception(f"Too many rules in policy '{name}'")
+    for name, info in zones_map.items():
+        if len(info['eras']) > 255:
+            raise Exception(f"Too many eras in zone '{name}'")
+
+
 def _collect_format_strings(zones_map: ZonesMap) -> IndexMap:
     """Collect the 'formats' field and return a map of indexes."""
     short_formats: Set[str] = set()
-- 
2.43.0


From 4b45799a5b29b9523c637e8f5471a7279002e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 14/22] fix: refuse a year range that does not fit the int16
 context fields

---
 src/acetimetools/tzcompiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index a80341d..fe8d9a8 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -439,6 +439,12 @@ def main() -> None:
     # Read the zone list filter file.
     include_list = read_include_list(args.include_list)
 
+    # The year range is written into int16 fields of the zone contexts.
+    if args.start_year < MIN_YEAR or args.until_year > MAX_UNTIL_YEAR:
+        raise Exception(
+            f"Year range [{args.start_year}, {args.until_year}) does not fit"
+            f" within [{MIN_YEAR}, {MAX_UNTIL_YEAR})")
+
     # Define default parameters from the '--scope' flag.
     if args.scope == 'basic':
         if args.start_year < 1980:
-- 
2.43.0


From 2341e213a3efce02b53768fef537bda4a72290fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 15/22] fix: refuse an empty year range

---
 src/acetimetools/tzcompiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index fe8d9a8..29f4207 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -439,6 +439,11 @@ def main() -> None:
     # Read the zone list filter file.
     include_list = read_include_list(args.include_list)
 
+    if args.start_year >= args.until_year:
+        raise Exception(
+            f"StartYear {args.start_year} must be before"
+            f" UntilYear {args.until_year}")
+
     # The year range is written into int16 fields of the zone contexts.
     if args.start_year < MIN_YEAR or args.until_year > MAX_UNTIL_YEAR:
         raise Exception(
-- 
2.43.0


From 49c19ad6f829e69c1ebb6410a433d7f4a44a1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:13 +0000
Subject: [PATCH 16/22] fix: accept a version label without a number, such as
 the HEAD of tzcompiler.sh

---
 src/acetimetools/datatypes/attyping.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/datatypes/attyping.py b/src/acetimetools/datatypes/attyping.py
index 8f38210..d5f8c25 100644
--- a/src/acetimetools/datatypes/attyping.py
+++ b/src/acetimetools/datatypes/attyping.py
@@ -2,6 +2,7 @@
 #
 # MIT License
 
+import re
 from collections import OrderedDict
 from dataclasses import dataclass
 from typing import Collection
@@ -561,8 +562,12 @@ def _sort_merged_comments(
 def _to_version_number(version: str) -> int:
     """Convert version string (e.g. '2020a') to an integer of the form YYNN
     (e.g. '2001'), where YY is (year - 2000) and NN is the patch number,
-    where 'a' is 01.
+    where 'a' is 01. A version which does not start like that (e.g. 'HEAD', the
+    label used by tzcompiler.sh when no tag is given) has no number, so becomes
+    0.
     """
-    year = version[0:4]
-    patch = version[4]
+    match = re.match(r'([0-9]{4})([a-z])', version)
+    if not match:
+        return 0
+    year, patch = match.groups()
     return (int(year) - 2000) * 100 + (ord(patch) - ord('a') + 1)
-- 
2.43.0


From e78838c504eafce0630bd1f0866765711316c0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:13 +0000
Subject: [PATCH 17/22] fix: do not delete a tzfiles directory that
 tzcompiler.sh did not create

---
 tzcompiler.sh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tzcompiler.sh b/tzcompiler.sh
index 6381a47..a6e4a24 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -50,6 +50,12 @@ function copy_tzfiles() {
         exit 1
     fi
 
+    # From here on $dst is ours. Install a trap to delete the tzfiles/ temp
+    # directory, unless --nocleanup was given for debugging.
+    if [[ $cleanup == 1 ]]; then
+        trap clean_tzfiles EXIT
+    fi
+
     # Copy or clone the repo, depending on the $tag.
     if [[ "$tag" == '' ]]; then
         echo "+ cp -a $src/ $dst/"
@@ -118,12 +124,6 @@ else
     tz_version=$tag
 fi
 
-# Install a trap to delete the tzfile/ temp directory, but disable it if
-# --nocleanup given for debugging.
-if [[ $cleanup == 1 ]]; then
-    trap clean_tzfiles EXIT
-fi
-
 # Do the actual work.
 copy_tzfiles $tzrepo $TZFILES
 run_tzcompiler "$@"
-- 
2.43.0


From 8870ccb5052b738abab1cf3f0e6c67a74219bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:13 +0000
Subject: [PATCH 18/22] fix: quote the paths in tzcompiler.sh and copytz.sh

---
 copytz.sh     |  6 +++---
 tzcompiler.sh | 20 ++++++++++----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/copytz.sh b/copytz.sh
index 75c5898..eadb1ca 100755
--- a/copytz.sh
+++ b/copytz.sh
@@ -49,11 +49,11 @@ if [[ -e "$dst" ]]; then
 fi
 if [[ "$tag" == '' ]]; then
     echo "+ cp -a $src/ $dst/"
-    cp -a $src/ $dst/
+    cp -a "$src"/ "$dst"/
 else
     # Check out TZDB repo at the $tag, unless --skip_checkout flag is given.
     echo "+ git clone --quiet --branch $tag $src $dst"
-    git -c advice.detachedHead=false clone --quiet --branch $tag $src $dst
+    git -c advice.detachedHead=false clone --quiet --branch "$tag" "$src" "$dst"
 fi
 
 # Remove all files other than the zone info files with Rule and Zone entries.
@@ -63,7 +63,7 @@ fi
 # files.
 echo "+ rm -rf $dst/{clutter}"
 shopt -s extglob # in case it isn't enabled by default
-cd $dst
+cd "$dst"
 rm -rf !(\
 africa|\
 antarctica|\
diff --git a/tzcompiler.sh b/tzcompiler.sh
index a6e4a24..91a22ca 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -19,7 +19,7 @@ set -eu
 shopt -s extglob # needed by copy_tzfiles()
 
 # Can't use $(realpath $(dirname $0)) because realpath doesn't exist on MacOS
-DIRNAME=$(dirname $0)
+DIRNAME=$(dirname "$0")
 
 # Location of the TZDB files after copying them from the source git repo.
 TZFILES=$PWD/tzfiles
@@ -34,7 +34,7 @@ function usage() {
 
 function clean_tzfiles() {
     echo "+ rm -rf $TZFILES"
-    rm -fr $TZFILES
+    rm -fr "$TZFILES"
 }
 
 # Copy the tz git repo at the specified tag. If no tag given, copy the current
@@ -59,11 +59,11 @@ function copy_tzfiles() {
     # Copy or clone the repo, depending on the $tag.
     if [[ "$tag" == '' ]]; then
         echo "+ cp -a $src/ $dst/"
-        cp -a $src/ $dst/
+        cp -a "$src"/ "$dst"/
     else
         # Check out TZDB repo at the $tag, unless --skip_checkout flag is given.
         echo "+ git clone --quiet --branch $tag $src $dst"
-        git -c advice.detachedHead=false clone --quiet --branch $tag $src $dst
+        git -c advice.detachedHead=false clone --quiet --branch "$tag" "$src" "$dst"
     fi
 
     # Remove all files other than the zone info files with Rule and Zone
@@ -72,7 +72,7 @@ function copy_tzfiles() {
     # directories. See src/acetimetools/extractor/extractor.py for the master
     # list of zone info files. This requires the 'shopt -s extglob' to be set.
     echo "+ rm -rf $dst/{clutter}"
-    (cd $dst; rm -rf !(\
+    (cd "$dst"; rm -rf !(\
 africa|\
 antarctica|\
 asia|\
@@ -92,10 +92,10 @@ function run_tzcompiler() {
         --output_dir $OUTPUT_DIR \
         --tz_version $tz_version \
         $@
-    $DIRNAME/src/acetimetools/tzcompiler.py \
-        --input_dir $TZFILES \
-        --output_dir $OUTPUT_DIR \
-        --tz_version $tz_version \
+    "$DIRNAME"/src/acetimetools/tzcompiler.py \
+        --input_dir "$TZFILES" \
+        --output_dir "$OUTPUT_DIR" \
+        --tz_version "$tz_version" \
         "$@"
 }
 
@@ -125,5 +125,5 @@ else
 fi
 
 # Do the actual work.
-copy_tzfiles $tzrepo $TZFILES
+copy_tzfiles "$tzrepo" "$TZFILES"
 run_tzcompiler "$@"
-- 
2.43.0


From 0190d9ae29b081ca53d10ba880b8e8b037a020ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:28 +0000
Subject: [PATCH 19/22] fix: do not let CDPATH lead copytz.sh into another
 directory

---
 copytz.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copytz.sh b/copytz.sh
index eadb1ca..827cd68 100755
--- a/copytz.sh
+++ b/copytz.sh
@@ -63,6 +63,7 @@ fi
 # files.
 echo "+ rm -rf $dst/{clutter}"
 shopt -s extglob # in case it isn't enabled by default
+unset CDPATH # it could lead the 'cd' into another directory
 cd "$dst"
 rm -rf !(\
 africa|\
-- 
2.43.0


From f5126ea599c945b1c487f5752268a3f0d0fd444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 20/22] fix: count lines, not names, in the extractor's summary
 of lines

---
 src/acetimetools/extractor/extractor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index b3ff2c7..135d7ed 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -237,9 +237,9 @@ class Extractor:
 
         logging.info(
             'Summary: Line count: %d Rules, %d Zones, %d Links',
-            len(self.rule_lines),
-            len(self.zone_lines),
-            len(self.link_lines),
+            _count_items(self.rule_lines),
+            _count_items(self.zone_lines),
+            _count_items(self.link_lines),
         )
         logging.info(
             'Summary: Name count: %d Rules, %d Zones, %d Links',
@@ -263,6 +263,11 @@ class Extractor:
         )
 
 
+def _count_items(d: Dict[str, List[str]]) -> int:
+    """Return the total number of items added through _add_item()."""
+    return sum([len(items) for items in d.values()])
+
+
 def _read_line(input: TextIO) -> Optional[str]:
     """Return the next line. Return None if EOF reached.
 
-- 
2.43.0


From 9c58b5876a1e0620ec8e3c0859dce21313f368ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 21/22] fix: copytz.sh deleted another directory when its
 target was '', '-' or '--'

---
 copytz.sh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/copytz.sh b/copytz.sh
index 827cd68..c2f6d7b 100755
--- a/copytz.sh
+++ b/copytz.sh
@@ -41,6 +41,14 @@ if [[ $# -ne 2 ]]; then
 fi
 src=$1
 dst=$2
+if [[ "$src" == '' || "$dst" == '' ]]; then
+    echo "Empty source or target"
+    usage
+fi
+# Otherwise, 'git' and 'cd' would take '-' or '--' for another directory.
+if [[ "$dst" == -* ]]; then
+    dst=./$dst
+fi
 
 # Either the current repo, or perform a shallow clone at the given '$tag'.
 if [[ -e "$dst" ]]; then
-- 
2.43.0


From 0ce5fff1dd20599573d3816755f59b4bff5fbb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 22/22] fix: tzcompiler.sh deleted a dangling link named
 tzfiles that was there before

---
 tzcompiler.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tzcompiler.sh b/tzcompiler.sh
index 91a22ca..fd383e2 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -44,8 +44,8 @@ function copy_tzfiles() {
     local src=$1
     local dst=$2
 
-    # Check for existence of $dst.
-    if [[ -e "$dst" ]]; then
+    # Check for existence of $dst, even as a dangling link.
+    if [[ -e "$dst" || -L "$dst" ]]; then
         echo "ERROR: Cannot overwrite existing '$dst'"
         exit 1
     fi
-- 
2.43.0

