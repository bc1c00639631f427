From 1d2f9bf8e923f4a871a088c23b7b7e3c2d129dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:51 +0000
Subject: [PATCH 1/5] fix: Curve.__eq__ compares curves instead of returning a
 (truthy) tuple

---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 15af449..4a41feb 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -529,7 +529,7 @@ class Curve(FuzzyCurve):
     """
 
     def __eq__(self, other):
-        return self.patterns, self.pnum == other.patterns, other.pnum
+        return (self.patterns, self.pnum) == (other.patterns, other.pnum)
 
     def __hash__(self):
         return hash((self.patterns, self.pnum))
-- 
2.43.0


From 02533960673d92822becbae4cdac0b87d4fdceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:51 +0000
Subject: [PATCH 2/5] fix: BaseMap ** 0 is the identity map (was infinite
 recursion)

---
 peano/base_maps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peano/base_maps.py b/peano/base_maps.py
index 2351e96..0e5326a 100644
--- a/peano/base_maps.py
+++ b/peano/base_maps.py
@@ -154,6 +154,8 @@ class BaseMap:
     def __pow__(self, power: int) -> BaseMap:
         if power < 0:
             return self.get_inverse()**(-power)
+        elif power == 0:
+            return BaseMap.id_map(self.dim)
         elif power == 1:
             return self
         elif power % 2 == 0:
-- 
2.43.0


From e6355d078d74edc26417485ac0966cb5e48bffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:51 +0000
Subject: [PATCH 3/5] fix: derive junctions in FIFO order, so that junction
 depths are minimal

---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 4a41feb..554d407 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -420,7 +420,7 @@ class FuzzyCurve:
 
         while to_derive:
             # to_derive is a queue (fifo), this guarantees that depths are correct
-            junc = to_derive.pop()
+            junc = to_derive.pop(0)
             dj = self._get_derived_junction(junc)
             if dj not in seen:
                 yield dj
-- 
2.43.0


From 8f2625957338189f4a9b7143df8899e069c22325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:51 +0000
Subject: [PATCH 4/5] fix: search reports NOT FOUND instead of failing when no
 curve is within the upper bound

---
 search.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/search.py b/search.py
index b002e46..250ee66 100755
--- a/search.py
+++ b/search.py
@@ -76,15 +76,14 @@ def run_search(
             upper_bound=upper_bound,
             **estimate_kwargs
         )
-        result.update(estimator.get_info())
-        result['gates_count'] = len(gate_list)
-        curves = result.pop('curves')
-
         print('======')
         print('GENERATOR:', gen_id)
         if not result:
             print('NOT FOUND!')
         else:
+            result.update(estimator.get_info())
+            result['gates_count'] = len(gate_list)
+            curves = result.pop('curves')
             pprint.pprint(result)
             print('lower bound (float):', float(result['lo']))
             print('upper bound (float):', float(result['up']))
-- 
2.43.0


From ebcdaad45b7832cd85e45ad839e5813038c76f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:51 +0000
Subject: [PATCH 5/5] fix: PathFuzzyCurve.init_from_paths accepts any iterable
 of base maps

---
 peano/curves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 554d407..196046c 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -712,7 +712,8 @@ class PathFuzzyCurve(FuzzyCurve):
         div = paths[0].div
 
         if base_maps_group is None:
-            base_maps_group = list(BaseMap.gen_base_maps(dim))
+            base_maps_group = BaseMap.gen_base_maps(dim)
+        base_maps_group = list(base_maps_group)  # it is scanned many times
         if disable_time_rev:
             base_maps_group = [bm for bm in base_maps_group if not bm.time_rev]
 
-- 
2.43.0

