From 1cc89bfa72fcccca52af5edbcc1623becb6d9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 01/55] fix: import is_slinkuhi in jvozba so building a lujvo
 no longer raises NameError

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 69b4add..42c358e 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -6,7 +6,7 @@ Modified by latkerlo (https://github.com/latkerlo), Copyright (c) 2023-2024
 """
 
 from latkerlo_jvotci.tarmi import *
-from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, normalise
+from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, is_slinkuhi, normalise
 from latkerlo_jvotci.rafsi import RAFSI_LIST
 from latkerlo_jvotci.data import BANNED_TRIPLES
 from latkerlo_jvotci.exceptions import NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError, NotBrivlaError
-- 
2.43.0


From 3bf303b730c46516dc817bde133369f7c1d6a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 02/55] fix: normalise the empty string instead of raising
 IndexError

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 42b498c..75c205a 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -19,7 +19,7 @@ def normalise(word: str) -> str:
     :param word: A lojban word.
     :return: The normalised form.
     """
-    if word[0] == ".":
+    if word[:1] == ".":
         word = word[1:]
     word = word.lower()
     word = word.replace("h", "'")
-- 
2.43.0


From 8257bd48a8e892721e30d923e0be0920983a7824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 03/55] fix: reject a word with y after a y hyphen instead of
 raising IndexError

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 75c205a..36ef27a 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -348,7 +348,7 @@ def analyse_brivla(
         did_add_a = False
         part_a = part + "a"
         if part[-1] == "'":
-            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][0] != "'":
+            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][:1] != "'":
                 require_cluster = True
             part = part[:-1]
             part_copy = part
-- 
2.43.0


From 2c3339702fd7b2929d7ffe532fcbdd24fa1024ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 04/55] fix: raise NotBrivlaError for a bad vowel sequence
 after a ' hyphen

---
 py/latkerlo_jvotci/tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 36ef27a..5f63d25 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -324,7 +324,11 @@ def analyse_brivla(
                 raise NotBrivlaError("that was only a '")
             first_cons = next((i for i, c in enumerate(part) if not is_vowel(c)), -1)
             vchunk = part if first_cons == -1 else part[:first_cons]
-            if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
+            try:
+                starts_with_glide = bool(vchunk) and split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS
+            except DecompositionError:
+                raise NotBrivlaError(f"bad vowel sequence after ': {{{part}}}")
+            if not is_vowel(part[0]) or starts_with_glide:
                 raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
         elif i > 0 and is_vowel(part[0]) and not is_glide(part):
             raise NotBrivlaError(f"non-glide vowel after y: {{{part}}}")
-- 
2.43.0


From 5b91015d610b6966615607c5a534c833b76d922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 05/55] fix: decompose a word ending in CVVr without raising
 IndexError

---
 py/latkerlo_jvotci/katna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 619e954..26f7bef 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -179,7 +179,7 @@ def jvokaha_2(
                 continue
             elif y_hyphens != FORCE_Y and (
                 lujvo[:2] == "nr"  # n-hyphen is only allowed before r
-                or lujvo[0] == "r" and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
+                or lujvo[0] == "r" and len(lujvo) > 1 and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
             ) and rafsi_tarmi(res[-1]) in [CVV, CVhV]:
                 res.append(lujvo[0])
                 lujvo = lujvo[1:]
-- 
2.43.0


From 58779345a90f405a58f95bb59310461e002710df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 06/55] fix: never build a lujvo out of cmavo-shaped rafsi that
 the analyser rejects

---
 py/latkerlo_jvotci/jvozba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 42c358e..669b919 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -326,8 +326,8 @@ def combine(
     raftai_1 = tarmi_ignoring_hyphen(rafsi)
     if lujvo[-1] not in "y'" and raftai_1 == OTHER_RAFSI:
         return
-    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][0]];
-    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", prulamrafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
+    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][1]];
+    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", rafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
         return
     hyphen = ""
     if lujvo[-1] == "'":
-- 
2.43.0


From 953925d5b80a1c6d695473670f7bc4505915e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 07/55] fix: reject a leading short zi'evla rafsi that fails
 the slinku'i test

---
 py/latkerlo_jvotci/jvozba.py | 2 ++
 py/latkerlo_jvotci/tools.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 669b919..f451ff4 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -197,6 +197,8 @@ def get_rafsi_list_list(
                         does_decompose = False
                     if does_decompose:
                         raise NoLujvoFoundError(f"short zi'evla rafsi falls apart: {{{valsi}}}")
+                    if is_first and b_type == ZIhEVLA and is_slinkuhi(valsi, y_hyphens=y_hyphens, allow_mz=allow_mz):
+                        raise NoLujvoFoundError(f"short zi'evla rafsi is a slinku'i: {{{valsi}}}")
 
                 rafsi_list += get_rafsi_for_rafsi(valsi, "SHORT BRIVLA", is_first, is_last, consonants, glides)
 
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 5f63d25..8a75ba6 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -448,6 +448,8 @@ def analyse_brivla(
                         raise NotBrivlaError(f"zi'evla is a lujvo: {{{part_copy},a}}")
                     except (DecompositionError, InvalidClusterError):
                         pass
+                    if i == 0 and is_slinkuhi(part_copy, y_hyphens=y_hyphens, allow_mz=allow_mz):
+                        raise NotBrivlaError(f"slinku'i: {{to,{part_copy}}}")
                 has_cluster = True
 
             if is_consonant(part[0]) or (glides and is_glide(part)):
-- 
2.43.0


From 87662bd6af12183f911919feb8d5bd046e8a588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 08/55] fix: raise the documented errors, not IndexError, for
 an empty word or a tanru of fewer than two words

---
 py/latkerlo_jvotci/jvozba.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index f451ff4..d8b88fe 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -167,7 +167,7 @@ def get_rafsi_list_list(
         rafsi_list: list[tuple[str, int]] = []
         is_first = i == 0
         is_last = i == len(valsi_list) - 1
-        if valsi[-1] == "-":
+        if valsi[-1:] == "-":
             is_short_brivla = valsi[0] != "-"
             valsi = valsi.strip('-')
             if not is_only_lojban_characters(valsi):
@@ -444,6 +444,8 @@ def get_lujvo_from_list(
     :return: The best lujvo, its score, and list of rafsi start/end indices.
     """
     rafsi_list_list = get_rafsi_list_list(valsi_list, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
+    if len(rafsi_list_list) < 2:
+        raise NoLujvoFoundError(f"Not enough words to make a lujvo: {{{' '.join(valsi_list)}}}")
     current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
     for rafsi0, num_consonants_0 in rafsi_list_list[0]:
         for rafsi1, num_consonants_1 in rafsi_list_list[1]:
-- 
2.43.0


From d3c1b05652a4cf76c824f4803a5b3c7c4e657138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 09/55] fix: score a y hyphen in score_lujvo as
 get_lujvo_with_analytics does

---
 py/latkerlo_jvotci/katna.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 26f7bef..afd1549 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -258,9 +258,7 @@ def score_lujvo(
     get_veljvo(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     decomp = analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[1]
     return sum(
-        1000 * len(r)
-        if r in ["y", "n", "r", ""]
-        else score(r)
+        score(r)
         for r in decomp
     ) - tiebreak(lujvo)
 
-- 
2.43.0


From 766bac424c54913053beed0c6f901cb62114b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 10/55] fix: do not apply the tosmabru test to a decomposable
 cmevla, from which nothing can fall off

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 8a75ba6..319c607 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -402,7 +402,7 @@ def analyse_brivla(
                         not (i == len(y_parts) - 2 and rafsi_tarmi(y_parts[1]) in [CVV, CCV])):
                     raise NotBrivlaError("falls off because y")
 
-            if i == 0:
+            if i == 0 and not is_cmevlatai:
                 to_part = ""
                 smabru_part = ""
                 if rafsi_tarmi(part[:4]) == CVhV:
-- 
2.43.0


From d2a3ae78845647aa9737d00ad02cb14119200339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 11/55] fix: apply the score tiebreak to the whole lujvo only,
 as score_lujvo does

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index d8b88fe..e1bd337 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -397,7 +397,7 @@ def combine(
     return (
         tosmabru_type,
         total_consonants,
-        lujvo_score + score(hyphen) + score(rafsi) - tiebreak(res),
+        lujvo_score + score(hyphen) + score(rafsi) - (tiebreak(res) if tanru_len == 2 else 0),
         res,
         index_list
     )
-- 
2.43.0


From 07fba2e50fcddaf7f1ba558457fc87da10b440de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 12/55] fix: score_lujvo applies the tiebreak to the normalised
 word, whatever its spelling

---
 py/latkerlo_jvotci/katna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index afd1549..bf5486b 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -260,7 +260,7 @@ def score_lujvo(
     return sum(
         score(r)
         for r in decomp
-    ) - tiebreak(lujvo)
+    ) - tiebreak("".join(decomp))
 
 
 def get_veljvo(
-- 
2.43.0


From a412f780a0dd0cdcd570d8aeb7477fe90005ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 13/55] fix: is_gismu_or_lujvo returns False instead of raising
 for a word that starts with CCV'y

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 319c607..c035cc6 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -48,7 +48,7 @@ def is_gismu_or_lujvo(a_string: str, y_hyphens: str = STANDARD, allow_mz: bool =
 
     try:
         jvokaha(a_string, y_hyphens=y_hyphens, allow_mz=allow_mz)  # TODO more settings?
-    except (DecompositionError, InvalidClusterError):
+    except (DecompositionError, InvalidClusterError, NotBrivlaError):
         return False
 
     return True
-- 
2.43.0


From 0a802a2cd3871119b9bb59625fbc8f59299cb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 14/55] fix: never return an invalid word from a tanru with
 experimental rafsi shapes

---
 py/latkerlo_jvotci/jvozba.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index e1bd337..19607d4 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -506,6 +506,14 @@ def get_lujvo_from_list(
         raise NoLujvoFoundError(
             f"{{{' '.join(valsi_list)}}} can't be turned into a lujvo because it would produce a slinku'i, {{{best_lujvo}}}"
         )
+    if exp_rafsi_shapes:
+        # the joining rules do not know every way a vowel-initial rafsi can fail to hold on
+        try:
+            analyse_brivla(best_lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
+        except NotBrivlaError:
+            raise NoLujvoFoundError(
+                f"{{{' '.join(valsi_list)}}} can't be turned into a lujvo because {{{best_lujvo}}} is not a valid word"
+            )
     return best_lujvo, best_score, best_index_list
 
 
-- 
2.43.0


From 8a7e9c51a3e4316d1f4d39b03e00d3d96ff54f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 15/55] fix: refuse a CVV rafsi whose vowels are not a
 diphthong instead of building an invalid word from it

---
 py/latkerlo_jvotci/tarmi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/latkerlo_jvotci/tarmi.py b/py/latkerlo_jvotci/tarmi.py
index 7558bb5..069c35b 100644
--- a/py/latkerlo_jvotci/tarmi.py
+++ b/py/latkerlo_jvotci/tarmi.py
@@ -263,6 +263,8 @@ def is_valid_rafsi(rafsi: str, allow_mz: bool = False) -> bool:
         return rafsi[2:4] in (MZ_VALID if allow_mz else VALID)
     if raftai in [CCVCV, CCVC, CCV]:
         return rafsi[:2] in INITIAL
+    if raftai == CVV:
+        return rafsi[1:] in ["ai", "ei", "oi", "au"]
     return 1 <= raftai <= 8
 
 
-- 
2.43.0


From 262fd0a2fb5def9a73c142a5275123bec8dd8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 16/55] fix: with mz allowed, a word with mz falls apart as any
 other

---
 py/latkerlo_jvotci/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index c035cc6..33a37a8 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -185,12 +185,12 @@ def check_zihevla_or_rafsi(
 
     elif num_syllables > 2:
         if cluster_pos and cluster_pos > 0:
-            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens):
+            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                 raise NotZihevlaError(f"falls apart at cluster: {{{valsi_copy[0:cluster_pos]}_{valsi_copy[cluster_pos:]}}}")
 
             for i in range(1, cluster_pos):
                 if is_consonant(valsi_copy[cluster_pos - i]) or is_glide(valsi_copy[cluster_pos - i:]):
-                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens):
+                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                         raise NotZihevlaError(f"falls apart before cluster: {{{valsi_copy[0:cluster_pos-i]}_{valsi_copy[cluster_pos-i:]}}}")
 
     if cluster_pos is None:
@@ -421,7 +421,7 @@ def analyse_brivla(
                     else:
                         smabru_part = strip_hyphens(smabru_part)
 
-                    if is_valid_rafsi(smabru_part) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
+                    if is_valid_rafsi(smabru_part, allow_mz=allow_mz) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
                         raise NotBrivlaError("tosmabru")
 
                     try:
-- 
2.43.0


From 5eb1fe09fa9ae067c74908055f3ffaa8bc5b8727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 17/55] fix: reject an extended lujvo whose leading
 cmavo-shaped rafsi falls off and leaves a brivla

---
 py/latkerlo_jvotci/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 33a37a8..67b12fc 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -429,6 +429,9 @@ def analyse_brivla(
                         raise NotBrivlaError("tosmabru")
                     except (DecompositionError, InvalidClusterError, TypeError):
                         pass
+
+                    if is_brivla(valsi[len(to_part):], y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz):
+                        raise NotBrivlaError("tosmabru")
         else:
             require_zihevla = require_cluster or not exp_rafsi_shapes
             try:
-- 
2.43.0


From b1328601c76ce930475f6dc18577ec541f076a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 18/55] fix: apply the slinku'i test to every leading short
 zi'evla rafsi, also one that ends in a vowel

---
 py/latkerlo_jvotci/jvozba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 19607d4..8037b9f 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -197,8 +197,8 @@ def get_rafsi_list_list(
                         does_decompose = False
                     if does_decompose:
                         raise NoLujvoFoundError(f"short zi'evla rafsi falls apart: {{{valsi}}}")
-                    if is_first and b_type == ZIhEVLA and is_slinkuhi(valsi, y_hyphens=y_hyphens, allow_mz=allow_mz):
-                        raise NoLujvoFoundError(f"short zi'evla rafsi is a slinku'i: {{{valsi}}}")
+                if is_first and b_type == ZIhEVLA and is_slinkuhi(valsi, y_hyphens=y_hyphens, allow_mz=allow_mz):
+                    raise NoLujvoFoundError(f"short zi'evla rafsi is a slinku'i: {{{valsi}}}")
 
                 rafsi_list += get_rafsi_for_rafsi(valsi, "SHORT BRIVLA", is_first, is_last, consonants, glides)
 
-- 
2.43.0


From caef884f55473ac6d73cede079aff398df7eb3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 19/55] fix: with experimental rafsi shapes, keep a prefix that
 a vowel rafsi can follow beside one that it cannot

---
 py/latkerlo_jvotci/jvozba.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 8037b9f..c8e449b 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -403,22 +403,26 @@ def combine(
     )
 
 
-def update_current_best(candidate, current_best):
+def update_current_best(candidate, current_best, exp_rafsi_shapes=False):
     """
     Add the candidate to current_best if it is the best.
 
     :param candidate: The new candidate lujvo.
     :param current_best: The list of existing best candidates for each
     combination of tosmabru type and number of consonants.
+    :param exp_rafsi_shapes: True if experimental rafsi shapes are allowed.
     """
     if candidate is None:
         return
     tosmabru_type, num_consonants, res_score, res_lujvo, res_index_list = candidate
+    # a rafsi made of vowels cannot follow every rafsi, see prulamrafsi in combine
+    start, end = res_index_list[-1]
+    key = res_lujvo[-1], exp_rafsi_shapes and rafsi_tarmi(res_lujvo[start:end]) in [CVV, CVC]
     if (
-        res_lujvo[-1] not in current_best[tosmabru_type][num_consonants]
-        or current_best[tosmabru_type][num_consonants][res_lujvo[-1]][1] > res_score
+        key not in current_best[tosmabru_type][num_consonants]
+        or current_best[tosmabru_type][num_consonants][key][1] > res_score
     ):
-        current_best[tosmabru_type][num_consonants][res_lujvo[-1]] = res_lujvo, res_score, res_index_list
+        current_best[tosmabru_type][num_consonants][key] = res_lujvo, res_score, res_index_list
 
 
 def get_lujvo_from_list(
@@ -468,7 +472,7 @@ def get_lujvo_from_list(
                 glides=glides,
                 allow_mz=allow_mz
             )
-            update_current_best(result, current_best)
+            update_current_best(result, current_best, exp_rafsi_shapes)
     previous_best = current_best
     for rafsi_list in rafsi_list_list[2:]:
         current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
@@ -490,12 +494,12 @@ def get_lujvo_from_list(
                             glides=glides,
                             allow_mz=allow_mz
                         )
-                        update_current_best(result, current_best)
+                        update_current_best(result, current_best, exp_rafsi_shapes)
         previous_best = current_best
     best_lujvo = None
     best_score = 10**100
     best_index_list = None
-    for lerfu, lujvo_and_score in previous_best[0][2].items():
+    for (lerfu, _), lujvo_and_score in previous_best[0][2].items():
         if (is_vowel(lerfu) and not generate_cmevla) or \
                 (is_consonant(lerfu) and generate_cmevla):
             if lujvo_and_score[1] < best_score:
-- 
2.43.0


From f425645ae1f8dd5848d75c14adb613f6b20e4579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 20/55] fix: JS: compile the rafsi zbu and cfo into
 docs/rafsi.js

---
 js/docs/rafsi.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/rafsi.js b/js/docs/rafsi.js
index 43d1c9d..b115d2d 100644
--- a/js/docs/rafsi.js
+++ b/js/docs/rafsi.js
@@ -503,7 +503,7 @@ const RAFSI_LIST = new Map([
     ["finti", ['fin', "fi'i"]],
     ["firca", []],
     ["fisli", []],
-    ["fizbu", []],
+    ["fizbu", ['zbu']],
     ["fizde", ['fiz']],
     ["flaci", []],
     ["flalu", ['fla']],
@@ -679,7 +679,7 @@ const RAFSI_LIST = new Map([
     ["jguvi", []],
     ["jibni", ['jbi']],
     ["jibri", ['jib']],
-    ["jicfo", []],
+    ["jicfo", ['cfo']],
     ["jicla", []],
     ["jicmu", ['cmu']],
     ["jidge", ['jid']],
-- 
2.43.0


From dfe03ed3ed885b8c08d25a740c3c9ff3c520f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 21/55] fix: JS: throw NotBrivlaError for a bad vowel sequence
 after a ' hyphen

---
 js/docs/tools.js | 11 ++++++++++-
 js/src/tools.ts  | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 4ee6fe0..24ba29e 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -305,7 +305,16 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 throw new NotBrivlaError("that was only a '");
             let firstCons = [...part].findIndex(c => !isVowel(c));
             let vchunk = firstCons == -1 ? part : part.slice(0, firstCons);
-            if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
+            let startsWithGlide;
+            try {
+                startsWithGlide = vchunk.length > 0 && FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]);
+            }
+            catch (e) {
+                if (e instanceof DecompositionError)
+                    throw new NotBrivlaError(`bad vowel sequence after ': {${part}}`);
+                throw e;
+            }
+            if (!isVowel(part[0]) || startsWithGlide)
                 throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
         }
         else if (i > 0 && isVowel(part[0]) && !isGlide(part)) {
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 48a32f5..5cb284b 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -375,7 +375,15 @@ function analyseBrivla(
         throw new NotBrivlaError("that was only a '");
       let firstCons = [...part].findIndex(c => !isVowel(c));
       let vchunk = firstCons == -1 ? part : part.slice(0, firstCons);
-      if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
+      let startsWithGlide: boolean;
+      try {
+        startsWithGlide = vchunk.length > 0 && FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]);
+      } catch (e) {
+        if (e instanceof DecompositionError)
+          throw new NotBrivlaError(`bad vowel sequence after ': {${part}}`);
+        throw e;
+      }
+      if (!isVowel(part[0]) || startsWithGlide)
         throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
     } else if (i > 0 && isVowel(part[0]) && !isGlide(part)) {
       throw new NotBrivlaError(`non-glide vowel after y: {${part}}`);
-- 
2.43.0


From 3ae5f24520f22387c09521ecd76bc618ed2ee02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 22/55] fix: JS: reject a leading short zi'evla rafsi that
 fails the slinku'i test

---
 js/docs/jvozba.js | 2 ++
 js/docs/tools.js  | 2 ++
 js/src/jvozba.ts  | 2 ++
 js/src/tools.ts   | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 0cb9709..3b21418 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -161,6 +161,8 @@ function getRafsiListList(valsiList, { yHyphens = YHyphenSetting.STANDARD, expRa
                     if (doesDecompose)
                         throw new NoLujvoFoundError(`short zi'evla rafsi falls apart: {${valsi}}`);
                 }
+                if (isFirst && bType === BrivlaType.ZIhEVLA && isSlinkuhi(valsi, { yHyphens: yHyphens, allowMZ: allowMZ }))
+                    throw new NoLujvoFoundError(`short zi'evla rafsi is a slinku'i: {${valsi}}`);
                 rafsiList = rafsiList.concat(getRafsiForRafsi(valsi, "SHORT BRIVLA", isFirst, isLast, consonants, glides));
             }
             else {
diff --git a/js/docs/tools.js b/js/docs/tools.js
index 24ba29e..dc4e933 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -459,6 +459,8 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         if (!(e instanceof DecompositionError || e instanceof InvalidClusterError))
                             throw e;
                     }
+                    if (i === 0 && isSlinkuhi(partCopy, { yHyphens: yHyphens, allowMZ: allowMZ }))
+                        throw new NotBrivlaError(`slinku'i: {to,${partCopy}}`);
                 }
                 hasCluster = true;
             }
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 10f67b8..87a7951 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -192,6 +192,8 @@ function getRafsiListList(
           if (doesDecompose)
             throw new NoLujvoFoundError(`short zi'evla rafsi falls apart: {${valsi}}`);
         }
+        if (isFirst && bType === BrivlaType.ZIhEVLA && isSlinkuhi(valsi, { yHyphens: yHyphens, allowMZ: allowMZ }))
+          throw new NoLujvoFoundError(`short zi'evla rafsi is a slinku'i: {${valsi}}`);
 
         rafsiList = rafsiList.concat(getRafsiForRafsi(valsi, "SHORT BRIVLA", isFirst, isLast, consonants, glides));
       } else {
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 5cb284b..8c2b67a 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -536,6 +536,8 @@ function analyseBrivla(
             if (!(e instanceof DecompositionError || e instanceof InvalidClusterError))
               throw e;
           }
+          if (i === 0 && isSlinkuhi(partCopy, { yHyphens: yHyphens, allowMZ: allowMZ }))
+            throw new NotBrivlaError(`slinku'i: {to,${partCopy}}`);
         }
         hasCluster = true;
       }
-- 
2.43.0


From 6d9a9415f245137b3b96b7d93220b913510634e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 23/55] fix: JS: throw NoLujvoFoundError, not TypeError, for a
 tanru of fewer than two words

---
 js/docs/jvozba.js | 2 ++
 js/src/jvozba.ts  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 3b21418..8d90e3e 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -394,6 +394,8 @@ function updateCurrentBest(candidate, currentBest) {
  */
 function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphenSetting.STANDARD, expRafsiShapes = false, consonants = ConsonantSetting.CLUSTER, glides = false, allowMZ = false } = {}) {
     const rafsiListList = getRafsiListList(valsiList, { yHyphens, expRafsiShapes, consonants, glides, allowMZ });
+    if (rafsiListList.length < 2)
+        throw new NoLujvoFoundError(`Not enough words to make a lujvo: {${valsiList.join(" ")}}`);
     let currentBest = [[new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()]];
     rafsiListList[0].forEach((rafsi0) => {
         rafsiListList[1].forEach((rafsi1) => {
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 87a7951..3d94e11 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -483,6 +483,8 @@ function getLujvoFromList(
   } = {}
 ): [string, number, [number, number][]] {
   const rafsiListList = getRafsiListList(valsiList, { yHyphens, expRafsiShapes, consonants, glides, allowMZ });
+  if (rafsiListList.length < 2)
+    throw new NoLujvoFoundError(`Not enough words to make a lujvo: {${valsiList.join(" ")}}`);
   let currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][] = [[new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()]];
   rafsiListList[0].forEach((rafsi0) => {
     rafsiListList[1].forEach((rafsi1) => {
-- 
2.43.0


From 4f6d67644c05d900e0946aa61c15f9e09e0fb5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 24/55] fix: JS: score r and n hyphens in scoreLujvo as
 getLujvoWithAnalytics does

---
 js/docs/katna.js | 2 +-
 js/src/katna.ts  | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index 54883e5..4b43880 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -248,7 +248,7 @@ function scoreLujvo(lujvo, { generateCmevla = false, yHyphens = YHyphenSetting.S
     catch (e) {
         throw e;
     }
-    return decomp.map(r => ["y", "n", "r", ""].includes(r) ? 1100 * r.length : score(r)).reduce((a, b) => a + b) - tiebreak(lujvo);
+    return decomp.map(r => score(r)).reduce((a, b) => a + b) - tiebreak(lujvo);
 }
 /**
  * Decompose a lujvo into a list of selrafsi and formatted rafsi.
diff --git a/js/src/katna.ts b/js/src/katna.ts
index 7f0abbe..4699edb 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -300,9 +300,7 @@ function scoreLujvo(lujvo: string, {
   } catch (e) {
     throw e;
   }
-  return decomp.map(r =>
-    ["y", "n", "r", ""].includes(r) ? 1100 * r.length : score(r)
-  ).reduce((a, b) => a + b) - tiebreak(lujvo);
+  return decomp.map(r => score(r)).reduce((a, b) => a + b) - tiebreak(lujvo);
 }
 
 /**
-- 
2.43.0


From 93b2244128f131d3170d68d0d4be586c91bfb33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 25/55] fix: JS: scoreLujvo applies the tiebreak to the
 normalised word, whatever its spelling

---
 js/docs/katna.js | 2 +-
 js/src/katna.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index 4b43880..9191a77 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -248,7 +248,7 @@ function scoreLujvo(lujvo, { generateCmevla = false, yHyphens = YHyphenSetting.S
     catch (e) {
         throw e;
     }
-    return decomp.map(r => score(r)).reduce((a, b) => a + b) - tiebreak(lujvo);
+    return decomp.map(r => score(r)).reduce((a, b) => a + b) - tiebreak(decomp.join(""));
 }
 /**
  * Decompose a lujvo into a list of selrafsi and formatted rafsi.
diff --git a/js/src/katna.ts b/js/src/katna.ts
index 4699edb..832caef 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -300,7 +300,7 @@ function scoreLujvo(lujvo: string, {
   } catch (e) {
     throw e;
   }
-  return decomp.map(r => score(r)).reduce((a, b) => a + b) - tiebreak(lujvo);
+  return decomp.map(r => score(r)).reduce((a, b) => a + b) - tiebreak(decomp.join(""));
 }
 
 /**
-- 
2.43.0


From 39db5d695176b057e43632b4e1f42dabb826234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 26/55] fix: JS: do not apply the tosmabru test to a
 decomposable cmevla, from which nothing can fall off

---
 js/docs/tools.js | 2 +-
 js/src/tools.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index dc4e933..fd90837 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -399,7 +399,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                     throw new NotBrivlaError("falls off because y");
                 }
             }
-            if (i === 0) {
+            if (i === 0 && !isCmevlatai) {
                 let toPart = "";
                 let smabruPart = "";
                 if (rafsiTarmi(part.slice(0, 4)) === Tarmi.CVhV) {
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 8c2b67a..7ed2522 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -472,7 +472,7 @@ function analyseBrivla(
         }
       }
 
-      if (i === 0) {
+      if (i === 0 && !isCmevlatai) {
         let toPart = "";
         let smabruPart = "";
         if (rafsiTarmi(part.slice(0, 4)) === Tarmi.CVhV) {
-- 
2.43.0


From 29363f9cd6368b7423bb2b3108c799d932256ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 27/55] fix: JS: apply the score tiebreak to the whole lujvo
 only, as scoreLujvo does

---
 js/docs/jvozba.js | 2 +-
 js/src/jvozba.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 8d90e3e..c7a596b 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -357,7 +357,7 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
     return [
         tosmabruType,
         totalConsonants,
-        lujvoScore + score(hyphen) + score(rafsi) - tiebreak(lujvo + hyphen + rafsi),
+        lujvoScore + score(hyphen) + score(rafsi) - (tanruLen === 2 ? tiebreak(lujvo + hyphen + rafsi) : 0),
         lujvo + hyphen + rafsi,
         indexList
     ];
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 3d94e11..c2a0339 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -431,7 +431,7 @@ function combine(
   return [
     tosmabruType,
     totalConsonants,
-    lujvoScore + score(hyphen) + score(rafsi) - tiebreak(lujvo + hyphen + rafsi),
+    lujvoScore + score(hyphen) + score(rafsi) - (tanruLen === 2 ? tiebreak(lujvo + hyphen + rafsi) : 0),
     lujvo + hyphen + rafsi,
     indexList
   ];
-- 
2.43.0


From afff7e020c74c0ce1c44150465cde7afba9b5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 28/55] fix: JS: isGismuOrLujvo returns false instead of
 throwing for a word that starts with CCV'y

---
 js/docs/tools.js | 2 +-
 js/src/tools.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index fd90837..5a6c25d 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -43,7 +43,7 @@ function isGismuOrLujvo(aString, { yHyphens = YHyphenSetting.STANDARD, allowMZ =
         });
     }
     catch (e) {
-        if (e instanceof DecompositionError || e instanceof InvalidClusterError)
+        if (e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof NotBrivlaError)
             return false;
         else
             throw e;
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 7ed2522..039327e 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -54,7 +54,7 @@ function isGismuOrLujvo(
         allowMZ: allowMZ
       });
   } catch (e) {
-    if (e instanceof DecompositionError || e instanceof InvalidClusterError)
+    if (e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof NotBrivlaError)
       return false;
     else
       throw e;
-- 
2.43.0


From 16d39059500ad55e29f0ccaab47f31a4b6493013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 29/55] fix: JS: isGismuOrLujvo returns false instead of
 throwing for a word that is one rafsi

---
 js/docs/katna.js | 2 +-
 js/src/katna.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index 9191a77..488a894 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -100,7 +100,7 @@ function jvokaha(lujvo, { yHyphens = YHyphenSetting.STANDARD, consonants = Conso
     const arr = jvokaha2(lujvo, { yHyphens: yHyphens, allowMZ: allowMZ });
     const rafsiTanru = arr.filter(x => x.length > 2).map(x => `-${x}-`);
     if (rafsiTanru.length == 1) {
-        throw new TypeError("not enough rafsi");
+        throw new DecompositionError("not enough rafsi");
     }
     let correctLujvo;
     try {
diff --git a/js/src/katna.ts b/js/src/katna.ts
index 832caef..8049fec 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -125,7 +125,7 @@ function jvokaha(
 
   const rafsiTanru = arr.filter(x => x.length > 2).map(x => `-${x}-`);
   if (rafsiTanru.length == 1) {
-    throw new TypeError("not enough rafsi");
+    throw new DecompositionError("not enough rafsi");
   }
   let correctLujvo: string;
   try {
-- 
2.43.0


From 559afb39d142d9ddcdbd9ea9344b39ffa160527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 30/55] fix: JS: never return an invalid word from a tanru with
 experimental rafsi shapes

---
 js/docs/jvozba.js | 11 +++++++++++
 js/src/jvozba.ts  | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index c7a596b..1a23250 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -437,6 +437,17 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
         throw new NoLujvoFoundError("No lujvo found for {" + valsiList.join(" ") + "}");
     if (!generateCmevla && isSlinkuhi(bestLujvo, { yHyphens, allowMZ }))
         throw new NoLujvoFoundError(`{${valsiList.join(" ")}} can't be turned into a lujvo because it would produce a slinku'i, {${bestLujvo}}`);
+    if (expRafsiShapes) {
+        // the joining rules do not know every way a vowel-initial rafsi can fail to hold on
+        try {
+            analyseBrivla(bestLujvo, { yHyphens, expRafsiShapes, consonants, glides, allowMZ });
+        }
+        catch (e) {
+            if (e instanceof NotBrivlaError)
+                throw new NoLujvoFoundError(`{${valsiList.join(" ")}} can't be turned into a lujvo because {${bestLujvo}} is not a valid word`);
+            throw e;
+        }
+    }
     return [bestLujvo, bestScore, bestIndexList];
 }
 /**
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index c2a0339..680cfc6 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -553,6 +553,16 @@ function getLujvoFromList(
     throw new NoLujvoFoundError("No lujvo found for {" + valsiList.join(" ") + "}");
   if (!generateCmevla && isSlinkuhi(bestLujvo, { yHyphens, allowMZ }))
     throw new NoLujvoFoundError(`{${valsiList.join(" ")}} can't be turned into a lujvo because it would produce a slinku'i, {${bestLujvo}}`);
+  if (expRafsiShapes) {
+    // the joining rules do not know every way a vowel-initial rafsi can fail to hold on
+    try {
+      analyseBrivla(bestLujvo, { yHyphens, expRafsiShapes, consonants, glides, allowMZ });
+    } catch (e) {
+      if (e instanceof NotBrivlaError)
+        throw new NoLujvoFoundError(`{${valsiList.join(" ")}} can't be turned into a lujvo because {${bestLujvo}} is not a valid word`);
+      throw e;
+    }
+  }
   return [bestLujvo, bestScore, bestIndexList];
 }
 
-- 
2.43.0


From 2ae0bacd0de3de41295af95dcf237689fb911a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 31/55] fix: JS: refuse a CVV rafsi whose vowels are not a
 diphthong instead of building an invalid word from it

---
 js/docs/tarmi.js | 2 ++
 js/src/tarmi.ts  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/js/docs/tarmi.js b/js/docs/tarmi.js
index d30af4e..94ec62d 100644
--- a/js/docs/tarmi.js
+++ b/js/docs/tarmi.js
@@ -266,6 +266,8 @@ function isValidRafsi(rafsi, allowMZ = false) {
         return (allowMZ ? MZ_VALID : VALID).includes(rafsi.slice(2, 4));
     if ([Tarmi.CCVCV, Tarmi.CCVC, Tarmi.CCV].includes(raftai))
         return INITIAL.includes(rafsi.slice(0, 2));
+    if (raftai === Tarmi.CVV)
+        return ["ai", "ei", "oi", "au"].includes(rafsi.slice(1));
     return 1 <= raftai && raftai <= 8;
 }
 /**
diff --git a/js/src/tarmi.ts b/js/src/tarmi.ts
index 3f2814d..dc2d56c 100644
--- a/js/src/tarmi.ts
+++ b/js/src/tarmi.ts
@@ -279,6 +279,8 @@ function isValidRafsi(rafsi: string, allowMZ = false): boolean {
     return (allowMZ ? MZ_VALID : VALID).includes(rafsi.slice(2, 4));
   if ([Tarmi.CCVCV, Tarmi.CCVC, Tarmi.CCV].includes(raftai))
     return INITIAL.includes(rafsi.slice(0, 2));
+  if (raftai === Tarmi.CVV)
+    return ["ai", "ei", "oi", "au"].includes(rafsi.slice(1));
   return 1 <= raftai && raftai <= 8;
 }
 
-- 
2.43.0


From 3767279faebac67e5a24fcf2e2eb30744c0b8fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 32/55] fix: JS: with mz allowed, a word with mz falls apart as
 any other

---
 js/docs/tools.js | 6 +++---
 js/src/tools.ts  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 5a6c25d..db12b2b 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -177,11 +177,11 @@ function checkZihevlaOrRafsi(valsi, { requireZihevla = false, yHyphens = YHyphen
     }
     else if (numSyllables > 2) {
         if (clusterPos !== null && clusterPos > 0) {
-            if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens }))
+            if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens, allowMZ: allowMZ }))
                 throw new NotZihevlaError(`falls apart at cluster: {${valsiCopy.slice(0, clusterPos)}_${valsiCopy.slice(clusterPos)}}`);
             for (let i = 1; i < clusterPos; i++) {
                 if (isConsonant(valsiCopy[clusterPos - i]) || isGlide(valsiCopy.slice(clusterPos - i))) {
-                    if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens }))
+                    if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens, allowMZ: allowMZ }))
                         throw new NotZihevlaError(`falls apart before cluster: {${valsiCopy.slice(0, clusterPos - i)}_${valsiCopy.slice(clusterPos - i)}}`);
                 }
             }
@@ -419,7 +419,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         smabruPart = smabruPart.slice(0, -1);
                     else
                         smabruPart = stripHyphens(smabruPart);
-                    if (isValidRafsi(smabruPart) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+                    if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
                         throw new NotBrivlaError("tosmabru");
                     try {
                         jvokaha(smabruPart, { yHyphens: yHyphens, allowMZ: allowMZ });
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 039327e..94298c2 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -216,12 +216,12 @@ function checkZihevlaOrRafsi(
 
   } else if (numSyllables > 2) {
     if (clusterPos !== null && clusterPos > 0) {
-      if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens }))
+      if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens, allowMZ: allowMZ }))
         throw new NotZihevlaError(`falls apart at cluster: {${valsiCopy.slice(0, clusterPos)}_${valsiCopy.slice(clusterPos)}}`);
 
       for (let i = 1; i < clusterPos; i++) {
         if (isConsonant(valsiCopy[clusterPos - i]) || isGlide(valsiCopy.slice(clusterPos - i))) {
-          if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens }))
+          if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens, allowMZ: allowMZ }))
             throw new NotZihevlaError(`falls apart before cluster: {${valsiCopy.slice(0, clusterPos - i)}_${valsiCopy.slice(clusterPos - i)}}`);
         }
       }
@@ -494,7 +494,7 @@ function analyseBrivla(
           else
             smabruPart = stripHyphens(smabruPart);
 
-          if (isValidRafsi(smabruPart) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+          if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
             throw new NotBrivlaError("tosmabru");
 
           try {
-- 
2.43.0


From 290c52bf45783b4559c842cd5c4a1edf9e5b2a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 33/55] fix: JS: reject an extended lujvo whose leading
 cmavo-shaped rafsi falls off and leaves a brivla

---
 js/docs/tools.js | 2 ++
 js/src/tools.ts  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index db12b2b..e98005b 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -429,6 +429,8 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
                             throw e;
                     }
+                    if (isBrivla(valsi.slice(toPart.length), { yHyphens, expRafsiShapes, consonants, glides, allowMZ }))
+                        throw new NotBrivlaError("tosmabru");
                 }
             }
         }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 94298c2..e8288d0 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -504,6 +504,9 @@ function analyseBrivla(
             if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
               throw e;
           }
+
+          if (isBrivla(valsi.slice(toPart.length), { yHyphens, expRafsiShapes, consonants, glides, allowMZ }))
+            throw new NotBrivlaError("tosmabru");
         }
       }
 
-- 
2.43.0


From e1970b41cde7fb59d6acc362ecded608750b48d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 34/55] fix: JS: with experimental rafsi shapes, keep a prefix
 that a vowel rafsi can follow beside one that it cannot

---
 js/docs/jvozba.js | 21 +++++++++++++--------
 js/src/jvozba.ts  | 22 ++++++++++++++--------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 1a23250..f4e6501 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -368,15 +368,19 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
  * @param candidate The new candidate lujvo.
  * @param currentBest The list of existing best candidates for each
     combination of tosmabru type and number of consonants.
+ * @param expRafsiShapes True if experimental rafsi shapes are allowed.
  */
-function updateCurrentBest(candidate, currentBest) {
+function updateCurrentBest(candidate, currentBest, expRafsiShapes = false) {
     if (candidate == null)
         return;
     const [tosmabruType, numConsonants, resScore, resLujvo, resIndexList] = candidate;
-    const lujvoFinal = resLujvo.slice(-1);
-    if (!currentBest[tosmabruType][numConsonants].has(lujvoFinal) ||
-        currentBest[tosmabruType][numConsonants].get(lujvoFinal)[1] > resScore) {
-        currentBest[tosmabruType][numConsonants].set(lujvoFinal, [resLujvo, resScore, resIndexList]);
+    // a rafsi made of vowels cannot follow every rafsi, see prulamrafsi in combine
+    const [start, end] = resIndexList[resIndexList.length - 1];
+    const short = expRafsiShapes && [Tarmi.CVV, Tarmi.CVC].includes(rafsiTarmi(resLujvo.slice(start, end)));
+    const key = resLujvo.slice(-1) + (short ? "'" : "");
+    if (!currentBest[tosmabruType][numConsonants].has(key) ||
+        currentBest[tosmabruType][numConsonants].get(key)[1] > resScore) {
+        currentBest[tosmabruType][numConsonants].set(key, [resLujvo, resScore, resIndexList]);
     }
 }
 /**
@@ -404,7 +408,7 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
                 tosmabruType = rafsi0[0].slice(-1) === "y" ? TosyType.Tosyhuhu : TosyType.Tosmabru;
             const result = combine(rafsi0[0], rafsi1[0], rafsi0[1], // TODO: Bring back numConsonants. This is confusing.
             rafsi1[1], score(rafsi0[0]), [[0, stripHyphens(rafsi0[0]).length]], tosmabruType, generateCmevla, rafsiListList.length, yHyphens = yHyphens, consonants = consonants, glides = glides, allowMZ = allowMZ);
-            updateCurrentBest(result, currentBest);
+            updateCurrentBest(result, currentBest, expRafsiShapes);
         });
     });
     let previousBest = currentBest;
@@ -416,7 +420,7 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
                 for (let numConsonants = 0; numConsonants < 3; numConsonants++) {
                     previousBest[tosmabruType][numConsonants].forEach((lujvoAndScore, _) => {
                         const result = combine(lujvoAndScore[0], rafsi[0], numConsonants, rafsi[1], lujvoAndScore[1], lujvoAndScore[2], tosmabruType, generateCmevla, rafsiListList.length, yHyphens = yHyphens, consonants = consonants, glides = glides, allowMZ = allowMZ);
-                        updateCurrentBest(result, currentBest);
+                        updateCurrentBest(result, currentBest, expRafsiShapes);
                     });
                 }
             }
@@ -426,7 +430,8 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
     let bestLujvo = "";
     let bestScore = 10 ** 100;
     let bestIndexList = [];
-    previousBest[0][2].forEach((lujvoAndScore, lerfu) => {
+    previousBest[0][2].forEach((lujvoAndScore, key) => {
+        const lerfu = key[0];
         if ((isVowel(lerfu) && !generateCmevla)
             || (isConsonant(lerfu) && generateCmevla)) {
             if (lujvoAndScore[1] < bestScore)
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 680cfc6..689fe14 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -443,18 +443,23 @@ function combine(
  * @param candidate The new candidate lujvo.
  * @param currentBest The list of existing best candidates for each
     combination of tosmabru type and number of consonants.
+ * @param expRafsiShapes True if experimental rafsi shapes are allowed.
  */
 function updateCurrentBest(
   candidate: [TosyType, number, number, string, [number, number][]] | null,
-  currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][]
+  currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][],
+  expRafsiShapes = false
 ) {
   if (candidate == null)
     return;
   const [tosmabruType, numConsonants, resScore, resLujvo, resIndexList] = candidate!;
-  const lujvoFinal = resLujvo.slice(-1);
-  if (!currentBest[tosmabruType][numConsonants].has(lujvoFinal) ||
-    currentBest[tosmabruType][numConsonants].get(lujvoFinal)![1] > resScore) {
-    currentBest[tosmabruType][numConsonants].set(lujvoFinal, [resLujvo, resScore, resIndexList]);
+  // a rafsi made of vowels cannot follow every rafsi, see prulamrafsi in combine
+  const [start, end] = resIndexList[resIndexList.length - 1];
+  const short = expRafsiShapes && [Tarmi.CVV, Tarmi.CVC].includes(rafsiTarmi(resLujvo.slice(start, end)));
+  const key = resLujvo.slice(-1) + (short ? "'" : "");
+  if (!currentBest[tosmabruType][numConsonants].has(key) ||
+    currentBest[tosmabruType][numConsonants].get(key)![1] > resScore) {
+    currentBest[tosmabruType][numConsonants].set(key, [resLujvo, resScore, resIndexList]);
   }
 }
 
@@ -507,7 +512,7 @@ function getLujvoFromList(
         glides = glides,
         allowMZ = allowMZ
       );
-      updateCurrentBest(result, currentBest);
+      updateCurrentBest(result, currentBest, expRafsiShapes);
     });
   });
   let previousBest = currentBest;
@@ -532,7 +537,7 @@ function getLujvoFromList(
               glides = glides,
               allowMZ = allowMZ
             );
-            updateCurrentBest(result, currentBest);
+            updateCurrentBest(result, currentBest, expRafsiShapes);
           });
         }
       }
@@ -542,7 +547,8 @@ function getLujvoFromList(
   let bestLujvo = "";
   let bestScore = 10 ** 100;
   let bestIndexList: [number, number][] = [];
-  previousBest[0][2].forEach((lujvoAndScore, lerfu) => {
+  previousBest[0][2].forEach((lujvoAndScore, key) => {
+    const lerfu = key[0];
     if ((isVowel(lerfu) && !generateCmevla)
       || (isConsonant(lerfu) && generateCmevla)) {
       if (lujvoAndScore[1] < bestScore)
-- 
2.43.0


From 8da0cc826e066f5b98d90d908240ba9d2fa5127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 35/55] fix: Rust: return NotBrivlaError for a bad vowel
 sequence after a ' hyphen instead of panicking

---
 rs/src/tools.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 34aac62..0e6be73 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -447,15 +447,17 @@ pub fn analyze_brivla(
                     "{{{valsi}}} has a part consisting of just an apostrophe"
                 )));
             }
-            if !is_vowel(strin!(part, 0))
-                || FOLLOW_VOWEL_CLUSTERS.contains(
-                    &split_vowel_cluster(
-                        &part.chars().take_while(|c| is_vowel(*c)).collect::<String>(),
-                    )
-                    .unwrap()[0]
-                        .as_str(),
-                )
-            {
+            let vowels = part.chars().take_while(|c| is_vowel(*c)).collect::<String>();
+            let starts_with_glide = if vowels.is_empty() {
+                false
+            } else if let Ok(syllables) = split_vowel_cluster(&vowels) {
+                FOLLOW_VOWEL_CLUSTERS.contains(&syllables[0].as_str())
+            } else {
+                return Err(NotBrivlaError(format!(
+                    "{{{valsi}}} contains a bad vowel sequence after an apostrophe"
+                )));
+            };
+            if !is_vowel(strin!(part, 0)) || starts_with_glide {
                 return Err(NotBrivlaError(format!(
                     "{{{valsi}}} contains an apostrophe not followed by a non-glide vowel"
                 )));
-- 
2.43.0


From d4bf8fcc9ae4c64821777fee4d17d0e26dd4be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 36/55] fix: Rust: reject a leading short zi'evla rafsi that
 fails the slinku'i test

---
 rs/src/jvozba.rs | 8 ++++++++
 rs/src/tools.rs  | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 56a2b3f..63738af 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -207,6 +207,14 @@ pub fn get_rafsi_list_list(
                         "{{{valsi}a}} is not a gismu or zi'evla"
                     )));
                 }
+                if first
+                    && b_type == Zihevla
+                    && is_slinkuhi(valsi, &extract!(settings; y_hyphens, allow_mz))?
+                {
+                    return Err(NoLujvoFoundError(format!(
+                        "{{{valsi}}} is a slinku'i, so it can't start a lujvo"
+                    )));
+                }
                 if valsi.len() > 5 && is_consonant(strin!(valsi, -1)) {
                     let mut decomposes = true;
                     if let Err(e) = jvokaha2(valsi, &extract!(settings; y_hyphens, allow_mz)) {
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 0e6be73..efabb16 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -635,6 +635,11 @@ pub fn analyze_brivla(
             }
             let shape_type = shape_type.unwrap();
             if shape_type == Zihevla {
+                if i == 0 && is_slinkuhi(part_, &extract!(settings; y_hyphens, allow_mz))? {
+                    return Err(NotBrivlaError(format!(
+                        "{{{valsi}}} starts with a slinku'i: {{to {part_}}}"
+                    )));
+                }
                 has_cluster = true;
             }
             if is_consonant(strin!(part, 0)) || settings.glides && is_glide(part) {
-- 
2.43.0


From 68b539d841c28506093c664d2a133023da3c1742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 37/55] fix: Rust: score r and n hyphens in score_lujvo as
 get_lujvo_with_analytics does

---
 rs/src/katna.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rs/src/katna.rs b/rs/src/katna.rs
index 518efcf..3656be8 100644
--- a/rs/src/katna.rs
+++ b/rs/src/katna.rs
@@ -256,13 +256,7 @@ pub fn jvokaha2(lujvo: &str, settings: &Settings) -> Result<Vec<String>, Jvonunf
 pub fn score_lujvo(lujvo: &str, settings: &Settings) -> Result<i32, Jvonunfli> {
     get_veljvo(lujvo, settings)?;
     let decomp = analyze_brivla(lujvo, settings)?.1;
-    Ok(decomp
-        .iter()
-        .map(|r| {
-            if ["y", "n", "r", ""].contains(&r.as_str()) { 1100 * r.len() as i32 } else { score(r) }
-        })
-        .sum::<i32>()
-        - tiebreak(lujvo))
+    Ok(decomp.iter().map(|r| score(r)).sum::<i32>() - tiebreak(lujvo))
 }
 
 /// Gets the selrafsi (source tanru) and formatted unassigned rafsi for this
-- 
2.43.0


From 24c09578cb4efce98e0382230c3e86004c19fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 38/55] fix: Rust: score_lujvo applies the tiebreak to the
 normalised word, whatever its spelling

---
 rs/src/katna.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/katna.rs b/rs/src/katna.rs
index 3656be8..6fe4fa0 100644
--- a/rs/src/katna.rs
+++ b/rs/src/katna.rs
@@ -256,7 +256,7 @@ pub fn jvokaha2(lujvo: &str, settings: &Settings) -> Result<Vec<String>, Jvonunf
 pub fn score_lujvo(lujvo: &str, settings: &Settings) -> Result<i32, Jvonunfli> {
     get_veljvo(lujvo, settings)?;
     let decomp = analyze_brivla(lujvo, settings)?.1;
-    Ok(decomp.iter().map(|r| score(r)).sum::<i32>() - tiebreak(lujvo))
+    Ok(decomp.iter().map(|r| score(r)).sum::<i32>() - tiebreak(&decomp.concat()))
 }
 
 /// Gets the selrafsi (source tanru) and formatted unassigned rafsi for this
-- 
2.43.0


From e8ebbac1f557462eeac21cb6395a50839db7560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 39/55] fix: Rust: do not apply the tosmabru test to a
 decomposable cmevla, from which nothing can fall off

---
 rs/src/tools.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index efabb16..75bc5ac 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -559,7 +559,7 @@ pub fn analyze_brivla(
             }
         }
         if katnad {
-            if i == 0 {
+            if i == 0 && !is_cmetai {
                 let mut to_part = "";
                 let mut smabru_part = "";
                 if rafsi_tarmi(strsl!(part, 0..4)) == Cvhv {
@@ -600,7 +600,6 @@ pub fn analyze_brivla(
                         )));
                     }
                 } else if settings.y_hyphens == Standard
-                    && !is_cmetai
                     && !to_part.is_empty()
                     && !y_parts[i + 1].starts_with('\'')
                 {
-- 
2.43.0


From 5b4a1ad709a5fe431d90191de9399f230dc66074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 40/55] fix: Rust: apply the score tiebreak to the whole lujvo
 only, as score_lujvo does

---
 rs/src/jvozba.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 63738af..77fcbea 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -477,7 +477,8 @@ pub fn combine(
         total_c = 2;
     }
     let res = format!("{lujvo}{hyphen}{rafsi}");
-    let score = lujvo_score + score(hyphen) + score(rafsi) - tiebreak(&res);
+    let tiebreak = if tanru_len == 2 { tiebreak(&res) } else { 0 };
+    let score = lujvo_score + score(hyphen) + score(rafsi) - tiebreak;
     Some((tosmabru_type, total_c, score, res, indices))
 }
 
-- 
2.43.0


From 4b3b6ebbe6d297a444c9c31eea34a68729cc5ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 41/55] fix: Rust: is_gismu_or_lujvo returns false instead of
 an error for a word that starts with CCV'y

---
 rs/src/tools.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 75bc5ac..2dbb68c 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -92,8 +92,8 @@ pub fn normalize(word: &str) -> String {
 
 /// Returns `true` if given a gismu or lujvo.
 /// # Errors
-/// Errors besides [`DecompositionError`] and [`InvalidClusterError`] are
-/// forwarded from [`jvokaha`].
+/// Errors besides [`DecompositionError`], [`InvalidClusterError`], and
+/// [`NotBrivlaError`] are forwarded from [`jvokaha`].
 pub fn is_gismu_or_lujvo(s: &str, settings: &Settings) -> Result<bool, Jvonunfli> {
     if s.len() < 5 || !is_vowel(strin!(s, -1)) {
         Ok(false)
@@ -101,7 +101,7 @@ pub fn is_gismu_or_lujvo(s: &str, settings: &Settings) -> Result<bool, Jvonunfli
         Ok(true)
     } else if let Err(e) = jvokaha(s, &extract!(settings; y_hyphens, allow_mz)) {
         match e {
-            DecompositionError(_) | InvalidClusterError(_) => Ok(false),
+            DecompositionError(_) | InvalidClusterError(_) | NotBrivlaError(_) => Ok(false),
             _ => Err(e),
         }
     } else {
-- 
2.43.0


From 95a41e34febd9b5f2831076404f435a0007db141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 42/55] fix: Rust: never return an invalid word from a tanru
 with experimental rafsi shapes

---
 rs/src/jvozba.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 77fcbea..ea0bcdc 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -622,6 +622,24 @@ pub fn get_lujvo_from_list(
             valsi_list.join(" ")
         )))
     } else {
+        if settings.exp_rafsi {
+            // the joining rules do not know every way a vowel-initial rafsi can fail to
+            // hold on
+            match analyze_brivla(
+                &best_lujvo,
+                &extract!(settings; y_hyphens, exp_rafsi, consonants, glides, allow_mz),
+            ) {
+                Ok(_) => (),
+                Err(NotBrivlaError(m)) => {
+                    return Err(NoLujvoFoundError(format!(
+                        "{{{}}} can't be turned into a lujvo because it would produce \
+                         {{{best_lujvo}}}, which is not a valid word: {m}",
+                        valsi_list.join(" ")
+                    )));
+                }
+                Err(e) => return Err(e),
+            }
+        }
         Ok((best_lujvo, best_score, best_indices))
     }
 }
-- 
2.43.0


From 99fc54344b3d438621c1a77576e115e9000412a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 43/55] fix: Rust: refuse a CVV rafsi whose vowels are not a
 diphthong instead of building an invalid word from it

---
 rs/src/tarmi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index b574f09..ad687cb 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -361,6 +361,8 @@ pub fn is_valid_rafsi(r: &str, settings: &Settings) -> bool {
         if settings.allow_mz { &MZ_VALID } else { &VALID }.contains(&strsl!(r, 2..4))
     } else if [Ccvcv, Ccvc, Ccv].contains(&t) {
         INITIAL.contains(&strsl!(r, 0..2))
+    } else if t == Cvv {
+        ["ai", "ei", "oi", "au"].contains(&strsl!(r, 1..3))
     } else {
         1 <= t as i8 && t as i8 <= 8
     }
-- 
2.43.0


From 4b5a7a862228c012c6bb1554584eb863f1f9bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 44/55] fix: Rust: with mz allowed, a word with mz falls apart
 as any other

---
 rs/src/tools.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 2dbb68c..b2cceac 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -289,7 +289,10 @@ pub fn check_zihevla_or_rafsi(
         return Err(NotZihevlaError(format!("{{{valsi_}}} doesn't have enough syllables")));
     }
     if num_syllables > 2 && cluster_pos > Some(0) {
-        if is_brivla(strsl!(valsi_, cluster_pos.unwrap()..), &extract!(settings; y_hyphens)) {
+        if is_brivla(
+            strsl!(valsi_, cluster_pos.unwrap()..),
+            &extract!(settings; y_hyphens, allow_mz),
+        ) {
             return Err(NotZihevlaError(format!(
                 "{{{valsi_}}} is a tosmabru: {{{} {}}}",
                 strsl!(valsi_, 0..cluster_pos.unwrap()),
@@ -301,7 +304,7 @@ pub fn check_zihevla_or_rafsi(
                 || is_glide(strsl!(valsi_, cluster_pos.unwrap() - i..)))
                 && is_brivla(
                     strsl!(valsi_, cluster_pos.unwrap() - i..),
-                    &extract!(settings; y_hyphens),
+                    &extract!(settings; y_hyphens, allow_mz),
                 )
             {
                 return Err(NotZihevlaError(format!(
@@ -579,7 +582,7 @@ pub fn analyze_brivla(
                     } else {
                         smabru_part = &hyphenless;
                     }
-                    if is_valid_rafsi(smabru_part, &Settings::default())
+                    if is_valid_rafsi(smabru_part, &extract!(settings; allow_mz))
                         && !(rafsi_tarmi(smabru_part) == Ccv
                             && strin!(strsl!(y_parts[i], to_part.len() as isize..), 3) == '\'')
                     {
-- 
2.43.0


From 61c46f79ada9d4127702b526fa959a2a37f4e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 45/55] fix: Rust: reject an extended lujvo whose leading
 cmavo-shaped rafsi falls off and leaves a brivla

---
 rs/src/tools.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index b2cceac..e882cb1 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -602,6 +602,15 @@ pub fn analyze_brivla(
                             if added_a { "a" } else { "" }
                         )));
                     }
+                    let rest = strsl!(&valsi, to_part.len() as isize..);
+                    if is_brivla(
+                        rest,
+                        &extract!(settings; y_hyphens, exp_rafsi, consonants, glides, allow_mz),
+                    ) {
+                        return Err(NotBrivlaError(format!(
+                            "{{{valsi}}} is a tosmabru: {{{to_part} {rest}}}"
+                        )));
+                    }
                 } else if settings.y_hyphens == Standard
                     && !to_part.is_empty()
                     && !y_parts[i + 1].starts_with('\'')
-- 
2.43.0


From 7a5dfe882e3f7f05bfe2c272654dfc9a061e1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 46/55] fix: Rust: reject a part that is a lujvo without its
 final vowel, also one that ends in a gismu shape

---
 rs/src/tools.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index e882cb1..4f30b3c 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -646,6 +646,9 @@ pub fn analyze_brivla(
             }
             let shape_type = shape_type.unwrap();
             if shape_type == Zihevla {
+                if added_a && jvokaha2(part, &extract!(settings; y_hyphens, allow_mz)).is_ok() {
+                    return Err(NotBrivlaError(format!("{{{part}}} is a lujvo")));
+                }
                 if i == 0 && is_slinkuhi(part_, &extract!(settings; y_hyphens, allow_mz))? {
                     return Err(NotBrivlaError(format!(
                         "{{{valsi}}} starts with a slinku'i: {{to {part_}}}"
-- 
2.43.0


From 3d198555352f885a7fb3e9b242eef0a12e346c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 47/55] fix: Rust: with experimental rafsi, keep a prefix that
 a vowel rafsi can follow beside one that it cannot

---
 rs/src/jvozba.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index ea0bcdc..fc881cf 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -482,26 +482,32 @@ pub fn combine(
     Some((tosmabru_type, total_c, score, res, indices))
 }
 
-type BestLujvoMap = IndexMap<char, (String, i32, Vec<[usize; 2]>)>;
+type BestLujvoMap = IndexMap<(char, bool), (String, i32, Vec<[usize; 2]>)>;
 
-/// Adds a candidate to `current_best`.
+/// Adds a candidate to `current_best`. `exp_rafsi` is whether experimental rafsi
+/// are allowed.
 #[allow(clippy::missing_panics_doc)] // .unwrap()
 #[must_use]
 pub fn update_current_best(
     candidate: Candidate,
     mut current_best: [[BestLujvoMap; 3]; 3],
+    exp_rafsi: bool,
 ) -> [[BestLujvoMap; 3]; 3] {
     if candidate.is_none() {
         return current_best;
     }
     let (tosmabru_type, num_consonants, res_score, res_lujvo, res_indices) = candidate.unwrap();
-    let lujvo_f = strin!(&res_lujvo, -1);
-    if !current_best[tosmabru_type as usize][num_consonants as usize].contains_key(&lujvo_f)
-        || current_best[tosmabru_type as usize][num_consonants as usize].get(&lujvo_f).unwrap().1
+    // a rafsi made of vowels cannot follow every rafsi, see `prulamrafsi` in
+    // `combine`
+    let [start, end] = *res_indices.last().unwrap();
+    let short = exp_rafsi && [Cvv, Cvc].contains(&rafsi_tarmi(&res_lujvo[start..end]));
+    let key = (strin!(&res_lujvo, -1), short);
+    if !current_best[tosmabru_type as usize][num_consonants as usize].contains_key(&key)
+        || current_best[tosmabru_type as usize][num_consonants as usize].get(&key).unwrap().1
             > res_score
     {
         current_best[tosmabru_type as usize][num_consonants as usize]
-            .insert(lujvo_f, (res_lujvo, res_score, res_indices));
+            .insert(key, (res_lujvo, res_score, res_indices));
     }
     current_best
 }
@@ -561,7 +567,7 @@ pub fn get_lujvo_from_list(
                     allow_mz
                 ),
             );
-            current_best = update_current_best(res, current_best);
+            current_best = update_current_best(res, current_best, settings.exp_rafsi);
         }
     }
     let mut previous_best = current_best;
@@ -595,7 +601,7 @@ pub fn get_lujvo_from_list(
                                 allow_mz
                             ),
                         );
-                        current_best = update_current_best(res, current_best);
+                        current_best = update_current_best(res, current_best, settings.exp_rafsi);
                     }
                 }
             }
@@ -603,7 +609,7 @@ pub fn get_lujvo_from_list(
         previous_best = current_best;
     }
     let (mut best_lujvo, mut best_score, mut best_indices) = (String::new(), i32::MAX, vec![]);
-    for (c, lujvo_and_score) in &previous_best[0][2] {
+    for ((c, _), lujvo_and_score) in &previous_best[0][2] {
         if (is_vowel(*c) && !settings.generate_cmevla
             || is_consonant(*c) && settings.generate_cmevla)
             && lujvo_and_score.1 < best_score
-- 
2.43.0


From ecb4f15de5cdfa723531c656f5c08769bb0d25bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 48/55] fix: Rust: rafsi_tarmi gives y and ' no place among the
 consonants of a rafsi

---
 rs/src/tarmi.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index ad687cb..55c00c1 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -374,19 +374,23 @@ pub fn is_valid_rafsi(r: &str, settings: &Settings) -> bool {
 pub fn rafsi_tarmi(r: &str) -> Tarmi {
     match r.len() {
         1 if !is_vowel(strin!(r, 0)) => Hyphen,
-        _ if !is_consonant(strin!(r, 0)) => OtherRafsi,
         2 if r == "'y" => Hyphen,
+        _ if !is_consonant(strin!(r, 0)) => OtherRafsi,
         3 => match (is_vowel(strin!(r, 1)), is_vowel(strin!(r, 2))) {
             (true, false) if is_consonant(strin!(r, 2)) => Cvc,
             (true, true) => Cvv,
-            (false, true) => Ccv,
+            (false, true) if is_consonant(strin!(r, 1)) => Ccv,
             _ => OtherRafsi,
         },
         4 if strin!(r, 3) != '\'' => {
             match (is_vowel(strin!(r, 1)), strin!(r, 2), is_vowel(strin!(r, 3))) {
                 (true, '\'', true) => Cvhv,
-                (true, _, false) if is_consonant(strin!(r, 3)) => Cvcc,
-                (false, v, false) if is_vowel(v) => Ccvc,
+                (true, c, false) if is_consonant(c) && is_consonant(strin!(r, 3)) => Cvcc,
+                (false, v, false)
+                    if is_vowel(v) && is_consonant(strin!(r, 1)) && is_consonant(strin!(r, 3)) =>
+                {
+                    Ccvc
+                }
                 _ => OtherRafsi,
             }
         }
-- 
2.43.0


From 25425765eddd95e4e477520be2db0a0afd958256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 49/55] fix: Rust: a cluster of three consonants starting with
 mz cannot be inside a zi'evla, as in the other versions

---
 rs/src/tarmi.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index 55c00c1..7959ed0 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -335,13 +335,13 @@ static ZIHEVLA_MIDDLE_2: LazyLock<Regex> = LazyLock::new(|| {
 /// Returns `true` if `c` can be inside a zi'evla.
 #[allow(clippy::missing_panics_doc)] // .unwrap()
 pub fn is_zihevla_middle_cluster(c: &str) -> bool {
-    if c.len() < 3
-        || c.len() == 3
-            && (SONORANTS.contains(strin!(c, 1))
-                || VALID.contains(&strsl!(c, 0..2)) && INITIAL.contains(&strsl!(c, 1..)))
-    {
+    if c.len() < 3 {
         return true;
     }
+    if c.len() == 3 {
+        return SONORANTS.contains(strin!(c, 1))
+            || VALID.contains(&strsl!(c, 0..2)) && INITIAL.contains(&strsl!(c, 1..));
+    }
     let matches = if strin!(c, -2) == 'm' && INITIAL.contains(&strsl!(c, -2..)) {
         ZIHEVLA_MIDDLE_1
             .captures(strsl!(c, 0..-2 - is_zihevla_initial_cluster(strsl!(c, -3..)) as isize))
-- 
2.43.0


From 1471a4ea992be456f3c0f6298e0cf48437cd7d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 50/55] fix: Rust: return NotBrivlaError for a word with a
 character outside ASCII instead of panicking

---
 rs/src/tools.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 4f30b3c..077c662 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -95,7 +95,7 @@ pub fn normalize(word: &str) -> String {
 /// Errors besides [`DecompositionError`], [`InvalidClusterError`], and
 /// [`NotBrivlaError`] are forwarded from [`jvokaha`].
 pub fn is_gismu_or_lujvo(s: &str, settings: &Settings) -> Result<bool, Jvonunfli> {
-    if s.len() < 5 || !is_vowel(strin!(s, -1)) {
+    if s.len() < 5 || !s.is_ascii() || !is_vowel(strin!(s, -1)) {
         Ok(false)
     } else if is_gismu(s, &extract!(settings; allow_mz)) {
         Ok(true)
@@ -352,6 +352,7 @@ pub fn is_brivla(valsi: &str, settings: &Settings) -> bool {
 /// A [`NotBrivlaError`] is returned if the input:
 /// - is empty
 /// - starts or ends with *y* or apostrophe
+/// - contains non-ASCII characters
 /// - is a non-decomposable cmevla
 /// - begins with CCV'y (explained in the docs for [`jvokaha2`])
 /// - fails [`check_zihevla_or_rafsi`] with a [`NotZihevlaError`], in which case
@@ -382,6 +383,10 @@ pub fn analyze_brivla(
     if valsi.is_empty() {
         return Err(NotBrivlaError("empty string".to_string()));
     }
+    // words are sliced by bytes
+    if !valsi.is_ascii() {
+        return Err(NotBrivlaError(format!("{{{valsi}}} contains a non-lojban character")));
+    }
     if is_consonant(strin!(&valsi, -1)) {
         is_cmetai = true;
     } else if !is_vowel(strin!(&valsi, -1)) {
-- 
2.43.0


From 552f0799d8f89043ae4593f6156de7d71ef26ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 51/55] fix: Rust: the command line ends at the end of its
 input instead of looping forever

---
 rs/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 712fb31..6d2f341 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -72,7 +72,10 @@ fn main() {
                 if used_cli { input.clone() + "\n" } else { String::new() }
             );
             stdout().flush().unwrap();
-            stdin().read_line(&mut input).expect("failed to read stdin");
+            if stdin().read_line(&mut input).expect("failed to read stdin") == 0 {
+                println!("{RESET}");
+                return;
+            }
         }
         print!("{RESET}");
         stdout().flush().unwrap();
-- 
2.43.0


From 7f35da9fbb763bc1414caccc5f36fd36c3daefc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 52/55] fix: Rust: entering a cmevla whose best brivla scores
 higher no longer ends the session

---
 rs/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 6d2f341..da31125 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -12,6 +12,7 @@ use latkerlo_jvotci::{
     get_lujvo, get_lujvo_with_analytics, get_veljvo,
     katna::{search_selrafsi_from_rafsi, selrafsi_list_from_rafsi_list},
     normalize, score_lujvo,
+    tarmi::BrivlaType::Cmevla,
 };
 
 #[allow(clippy::too_many_lines)]
@@ -180,7 +181,10 @@ fn main() {
                     b += 1;
                 }
                 println!("{RESET} {CYAN}({best_score}){RESET}");
-                if score_lujvo(&input, &settings).unwrap() < best_score {
+                // a brivla may well score higher than a cmevla, or the other way round
+                if settings.generate_cmevla == (analysis == Cmevla)
+                    && score_lujvo(&input, &settings).unwrap() < best_score
+                {
                     println!(
                         "{RED}hm, the 'best' lujvo actually has a higher score? that can't be \
                          good...{RESET}"
-- 
2.43.0


From 9c0732519dde111b9579fb3daf3373d8e0190dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 53/55] fix: Rust: a word given as an argument shows its rafsi
 once

---
 rs/src/main.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index da31125..d0c06b1 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -47,16 +47,6 @@ fn main() {
                 );
                 exit(1);
             }
-            if (i == 0 || i == 1 && args[0].starts_with('-')) && args[i..].len() == 1 {
-                let arg = normalize(arg);
-                if let Some(selrafsi) = search_selrafsi_from_rafsi(&arg) {
-                    println!("{PINK}{{{arg}}} is a rafsi of {{{selrafsi}}}{RESET}");
-                }
-                if let Some(rafsi) = RAFSI.iter().find(|(s, _)| *s == &arg).map(|(_, r)| r) {
-                    let rafsi = rafsi.iter().join(" ");
-                    println!("{PINK}{{{arg}}} has rafsi {{{rafsi}}}{RESET}");
-                }
-            }
             arginput.push(arg);
         }
     }
-- 
2.43.0


From 1bbfa0e8cf8aa701c934c631860797ad9b17522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 54/55] fix: the tanru command line ended with a traceback on a
 rafsi with an invalid cluster

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index c8e449b..52deb25 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -635,5 +635,5 @@ if __name__ == "__main__":
             print(get_lujvo_with_analytics(string,
                             generate_cmevla=cmevla_setting, y_hyphens=y_setting,
                             exp_rafsi_shapes=raf_setting, consonants=con_setting, glides=glide_setting, allow_mz=mz_setting))
-        except (NoLujvoFoundError, NonLojbanCharacterError, NotZihevlaError) as e:
+        except (NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError) as e:
             print(e)
-- 
2.43.0


From f9b892b7a442390320714d395d0b6e49e419e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:40 +0000
Subject: [PATCH 55/55] fix: rafsi of equal shape are in the same order in
 every run of make_rafsi_list.py

---
 make_rafsi_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make_rafsi_list.py b/make_rafsi_list.py
index d628d49..25e6a49 100644
--- a/make_rafsi_list.py
+++ b/make_rafsi_list.py
@@ -94,7 +94,7 @@ for selrafsi, proposed_rafsi_list in exp_rafsi_list.items():
                 rafsi_list[selrafsi] = {rafsi}
 
 # .u'u abhorrently long dictionary comprehension
-rafsi_list = {selrafsi: sorted(list(rafsi), key=lambda x: rafsi_tarmi(x) % 9) for selrafsi, rafsi in rafsi_list.items()}
+rafsi_list = {selrafsi: sorted(rafsi, key=lambda x: (rafsi_tarmi(x) % 9, x)) for selrafsi, rafsi in rafsi_list.items()}
 
 # py
 with open("py/latkerlo_jvotci/rafsi.py", "w") as opf:
-- 
2.43.0

