From c210362809beec990b7e759ca5b9180f955cf486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:56 +0000
Subject: [PATCH 01/49] fix: compute logarithms and lengths of integers exactly

Floating-point logarithms gave wrong results for large arguments,
e.g. binary_length(2**49 - 1) was 50 and is_power_of_two(2**29) was False.
---
 discretehelpers/a/_log/log_ceil/__init__.py               | 3 +--
 discretehelpers/a/_log/log_floor/__init__.py              | 3 +--
 discretehelpers/a/_log/log_int/__init__.py                | 7 +++----
 discretehelpers/a/decimal_length/__init__.py              | 4 +---
 discretehelpers/a/is_power_of_two/__init__.py             | 8 ++------
 discretehelpers/a/walsh_function_to_index/__init__.py     | 5 ++---
 discretehelpers/binv/a/binary_length/__init__.py          | 4 +---
 .../a/classes/collection_of_segments/__init__.py          | 6 +++---
 discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py   | 8 +++-----
 9 files changed, 17 insertions(+), 31 deletions(-)

diff --git a/discretehelpers/a/_log/log_ceil/__init__.py b/discretehelpers/a/_log/log_ceil/__init__.py
index 7a4153c..87e59d1 100644
--- a/discretehelpers/a/_log/log_ceil/__init__.py
+++ b/discretehelpers/a/_log/log_ceil/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, ceil
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_ceil(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return ceil(log2(x))
+    return (int(x) - 1).bit_length()
diff --git a/discretehelpers/a/_log/log_floor/__init__.py b/discretehelpers/a/_log/log_floor/__init__.py
index 576b3fb..26b7321 100644
--- a/discretehelpers/a/_log/log_floor/__init__.py
+++ b/discretehelpers/a/_log/log_floor/__init__.py
@@ -1,4 +1,3 @@
-from math import log2, floor
 from discretehelpers.a import true_except, is_natural
 from discretehelpers.ex import ArgValueError
 
@@ -7,4 +6,4 @@ def log_floor(x):
 
     true_except(is_natural(x - 1), ArgValueError)  # positive integers are allowed
 
-    return floor(log2(x))
+    return int(x).bit_length() - 1
diff --git a/discretehelpers/a/_log/log_int/__init__.py b/discretehelpers/a/_log/log_int/__init__.py
index 191e08d..f154892 100644
--- a/discretehelpers/a/_log/log_int/__init__.py
+++ b/discretehelpers/a/_log/log_int/__init__.py
@@ -1,4 +1,3 @@
-from math import log2
 from discretehelpers.a import is_natural, true_except
 from discretehelpers.ex import ArgValueError
 
@@ -10,8 +9,8 @@ def log_int(x):
         ArgValueError('not a natural number')
     )
 
-    result = log2(x)
-    if is_natural(result):
-        return int(result)
+    result = int(x).bit_length() - 1
+    if 1 << result == x:
+        return result
     else:
         raise ArgValueError('not a power of two')
diff --git a/discretehelpers/a/decimal_length/__init__.py b/discretehelpers/a/decimal_length/__init__.py
index c0eebd4..fe0d31b 100644
--- a/discretehelpers/a/decimal_length/__init__.py
+++ b/discretehelpers/a/decimal_length/__init__.py
@@ -1,5 +1,3 @@
-from math import floor, log
-
 from discretehelpers.a import true_except, is_natural
 
 
@@ -10,7 +8,7 @@ def decimal_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 10)) + 1
+    return len(str(int(n)))
 
 
 class NotNaturalError(ValueError):
diff --git a/discretehelpers/a/is_power_of_two/__init__.py b/discretehelpers/a/is_power_of_two/__init__.py
index e36bdf8..310b88d 100644
--- a/discretehelpers/a/is_power_of_two/__init__.py
+++ b/discretehelpers/a/is_power_of_two/__init__.py
@@ -1,5 +1,3 @@
-from math import log
-
 from discretehelpers.a import is_natural
 
 
@@ -8,7 +6,5 @@ def is_power_of_two(n):
         return False
     if not is_natural(n):
         return False
-    log_n = log(n, 2)
-    if not is_natural(log_n):
-        return False
-    return True
+    n = int(n)
+    return n & (n - 1) == 0
diff --git a/discretehelpers/a/walsh_function_to_index/__init__.py b/discretehelpers/a/walsh_function_to_index/__init__.py
index 2c78086..4fe8192 100644
--- a/discretehelpers/a/walsh_function_to_index/__init__.py
+++ b/discretehelpers/a/walsh_function_to_index/__init__.py
@@ -1,5 +1,3 @@
-from math import log
-
 from discretehelpers.a import true_except, is_power_of_two
 
 from .ex import NotWalshRowError
@@ -7,6 +5,7 @@ from .ex import NotWalshRowError
 
 def walsh_function_to_index(vector, trust=False):
 
+    from discretehelpers.a import log_int
     from discretehelpers.binv import Binv
 
     binv = Binv(vector)
@@ -20,7 +19,7 @@ def walsh_function_to_index(vector, trust=False):
 
     length = binv.length
     true_except(is_power_of_two(length), ValueError)
-    degree = int(log(length, 2))
+    degree = log_int(length)
 
     if trust:
         powers_of_two = [2 ** _ for _ in range(degree)]
diff --git a/discretehelpers/binv/a/binary_length/__init__.py b/discretehelpers/binv/a/binary_length/__init__.py
index 48840a3..88fdc8c 100644
--- a/discretehelpers/binv/a/binary_length/__init__.py
+++ b/discretehelpers/binv/a/binary_length/__init__.py
@@ -1,5 +1,3 @@
-from math import floor, log
-
 from discretehelpers.a import true_except, is_natural
 
 
@@ -10,7 +8,7 @@ def binary_length(n):
     if n == 0:
         return 0
 
-    return floor(log(n, 2)) + 1
+    return int(n).bit_length()
 
 
 class NotNaturalError(ValueError):
diff --git a/discretehelpers/boolf/methods/find_segments/a/classes/collection_of_segments/__init__.py b/discretehelpers/boolf/methods/find_segments/a/classes/collection_of_segments/__init__.py
index 21b108a..97c5c52 100644
--- a/discretehelpers/boolf/methods/find_segments/a/classes/collection_of_segments/__init__.py
+++ b/discretehelpers/boolf/methods/find_segments/a/classes/collection_of_segments/__init__.py
@@ -55,13 +55,13 @@ class CollectionOfSegments(object):
         return dict(pairs_of_spots)
 
     def get_neighboring_links(self):
-        from math import log
+        from discretehelpers.a import log_int
         pairs_of_links = defaultdict(set)
         for crossing_vector, crossing_segment in self.segments[2].items():
             for changing_atomkey, two_link_vectors in crossing_segment.inferior_vectors.items():
                 ((a, b), (c, d)) = tuple([tuple(segment_to_adjacent_spots(_)) for _ in two_link_vectors])
-                belonging_atomkey = int(log(a ^ b, 2))
-                assert belonging_atomkey == int(log(c ^ d, 2))
+                belonging_atomkey = log_int(a ^ b)
+                assert belonging_atomkey == log_int(c ^ d)
                 pairs_of_links[belonging_atomkey].add(((a, b), (c, d)))
         return dict(pairs_of_links)
 
diff --git a/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py b/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
index 36cb7bb..5a8c96a 100644
--- a/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
+++ b/discretehelpers/walsh_perm/a/perm_to_matrix/__init__.py
@@ -1,9 +1,8 @@
 import numpy as np
-from math import log
 
 from discretehelpers.binv import Binv
 from discretehelpers.perm import Perm
-from discretehelpers.a import true_except, is_natural
+from discretehelpers.a import true_except, is_power_of_two, log_int
 
 from discretehelpers.perm.ex import IsNeutralFail
 from ...ex import NotEvenPermutationError, InvalidPermError
@@ -21,9 +20,8 @@ def perm_to_matrix(perm, trust=False):
 
     perilen = len(perm)
 
-    log_perilen = log(perilen, 2)  # `perilen` should be a power of two. `degree` is the corresponding exponent.
-    true_except(is_natural(log_perilen), PermLengthError)
-    degree = int(log_perilen)
+    true_except(is_power_of_two(perilen), PermLengthError)
+    degree = log_int(perilen)  # `perilen` should be a power of two. `degree` is the corresponding exponent.
 
     if perm in [[0], [0, 1]]:
         raise IsNeutralFail
-- 
2.43.0


From 97fa7caf65e892cf9160a59b2ac2babacf062738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:06 +0000
Subject: [PATCH 02/49] fix: use exact least common multiples for orders and
 periods

The numpy version overflows 64 bits, so Perm.order could become negative
and products of periodic permutations could lose moved places.
---
 discretehelpers/perm/a/broaden_moved/__init__.py | 4 ++--
 discretehelpers/perm/metributes/order.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discretehelpers/perm/a/broaden_moved/__init__.py b/discretehelpers/perm/a/broaden_moved/__init__.py
index 20a3826..34ceb02 100644
--- a/discretehelpers/perm/a/broaden_moved/__init__.py
+++ b/discretehelpers/perm/a/broaden_moved/__init__.py
@@ -1,9 +1,9 @@
-import numpy as np
+from math import lcm
 
 
 def broaden_moved(a_len, b_len, a_moved, b_moved):
 
-    big_len = np.lcm(a_len, b_len)
+    big_len = lcm(a_len, b_len)
 
     a_repetitions = big_len // a_len
     b_repetitions = big_len // b_len
diff --git a/discretehelpers/perm/metributes/order.py b/discretehelpers/perm/metributes/order.py
index c14032c..134f8d4 100644
--- a/discretehelpers/perm/metributes/order.py
+++ b/discretehelpers/perm/metributes/order.py
@@ -1,6 +1,6 @@
 from functools import cached_property
 
-import numpy as np
+from math import lcm
 
 
 @cached_property
@@ -12,6 +12,6 @@ def order(self):
         return 1
 
     cycle_lengths = [len(cycle) for cycle in self.cycles]
-    result = np.lcm.reduce(cycle_lengths)
+    result = lcm(*cycle_lengths)
 
     return result
-- 
2.43.0


From ebd734aae11e68390feb965e10e3e828172e39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:17 +0000
Subject: [PATCH 03/49] fix: keep Sierpinski rows ascending for large integers

The row was built in set order, e.g. int_to_sierpinski_row(258) was [0, 256, 2, 258].
---
 discretehelpers/a/int_to_sierpinski_row/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/a/int_to_sierpinski_row/__init__.py b/discretehelpers/a/int_to_sierpinski_row/__init__.py
index a608134..6a6ea54 100644
--- a/discretehelpers/a/int_to_sierpinski_row/__init__.py
+++ b/discretehelpers/a/int_to_sierpinski_row/__init__.py
@@ -15,7 +15,7 @@ def int_to_sierpinski_row(intval=None, exposet=None):
         true_except(is_natural(intval), NotNaturalError)
         if not intval:  # zero
             return [0]
-        exposet = Binv(intval=intval).exposet
+        exposet = sorted(Binv(intval=intval).exposet)
 
     if case_exposet:
         if not exposet:  # empty list
-- 
2.43.0


From 58dcafee8802f60398a681ebaccb7e3d43d518c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:27 +0000
Subject: [PATCH 04/49] fix: drop cached properties of SetPart when it is
 changed in place

After merging or refining blocks, pairs, intval, singletons and
canonical_blocks_with_singletons still described the old partition.
---
 discretehelpers/set_part/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 351eaa5..80d7300 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -73,10 +73,8 @@ class SetPart(object):
         self.set_dummies()
 
     def set_dummies(self):
-        self._pairs = None
-        self._intval = None
-        self._canonical_blocks_with_singletons = None
-        self._singletons = None
+        for name in ['pairs', 'intval', 'canonical_blocks_with_singletons', 'singletons']:
+            self.__dict__.pop(name, None)  # cached values are outdated after reinitialization
         self.glove_compartment = None  # just a handy stowaway (without functionality within this class)
 
     def __eq__(self, other):
-- 
2.43.0


From 439ebd3b5a7e984fc16fec6995a4db3f5ccdaf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:36 +0000
Subject: [PATCH 05/49] fix: let the join of set partitions keep and check the
 domain

The result was always over the natural numbers, which also made <= raise for other domains.
---
 .../set_part/methods/meet_and_join/join/_0_prototypes.py | 4 ++--
 .../set_part/methods/meet_and_join/join/_1_fast.py       | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py b/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
index bcd52d8..ee69bbc 100644
--- a/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
+++ b/discretehelpers/set_part/methods/meet_and_join/join/_0_prototypes.py
@@ -33,8 +33,8 @@ def _join_prototype_improved(self, other):
     clean_s_blocks = [sorted(set(block) - trash) for block in self.blocks]
     clean_o_blocks = [sorted(set(block) - trash) for block in other.blocks]
 
-    clean_s_part = SetPart(clean_s_blocks)
-    clean_o_part = SetPart(clean_o_blocks)
+    clean_s_part = SetPart(clean_s_blocks, self.domain)
+    clean_o_part = SetPart(clean_o_blocks, self.domain)
 
     clean_join_part = clean_s_part._join_prototype(clean_o_part)
 
diff --git a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
index 03be9be..48da9e8 100644
--- a/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
+++ b/discretehelpers/set_part/methods/meet_and_join/join/_1_fast.py
@@ -1,7 +1,14 @@
+from discretehelpers.a import true_except
+
+from ....ex import DomainsNotEqualError
+
+
 def join(self, other):
 
     from discretehelpers.set_part import SetPart
 
+    true_except(self.domain == other.domain, DomainsNotEqualError)
+
     domain = self.non_singletons | other.non_singletons
 
     result_blocks = []
@@ -59,4 +66,4 @@ def join(self, other):
             pass
         close_block()
 
-    return SetPart(result_blocks)
+    return SetPart(result_blocks, self.domain)
-- 
2.43.0


From ede62d160f4cc9905360c3cc3cb6e783308f3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:45 +0000
Subject: [PATCH 06/49] fix: make bitwise_gt of Boolean functions strict

It returned True for equal operands.
---
 discretehelpers/boolf/methods/bitwise/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/methods/bitwise/__init__.py b/discretehelpers/boolf/methods/bitwise/__init__.py
index 772ad2a..02d4635 100644
--- a/discretehelpers/boolf/methods/bitwise/__init__.py
+++ b/discretehelpers/boolf/methods/bitwise/__init__.py
@@ -38,7 +38,7 @@ def bitwise_lt(self, other):
 
 
 def bitwise_gt(self, other):
-    return other.bitwise_le(self)
+    return other.bitwise_lt(self)
 
 
 def bitwise_le(self, other):
-- 
2.43.0


From 2d995fc1635d3be17f592aa517adf3f82e61f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:54 +0000
Subject: [PATCH 07/49] fix: accept list and Binv signets in mod_tt_neg

Both used an attribute that Binv does not have.
---
 discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
index c7611e2..a9347f4 100644
--- a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
+++ b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
@@ -7,9 +7,9 @@ def mod_tt_neg(tt, signet):
         signet_index = signet
     elif type(signet) == list:
         signet_binv = Binv(signet)
-        signet_index = signet_binv.index
+        signet_index = signet_binv.intval
     elif type(signet) == Binv:
-        signet_index = signet.index
+        signet_index = signet.intval
 
     perm = [_ ^ signet_index for _ in range(len(tt))]
 
-- 
2.43.0


From 8a494c540cb940e0d032bb9952b549277653ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:02 +0000
Subject: [PATCH 08/49] fix: let subdict work without fresh entries

---
 discretehelpers/a/subdict/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/a/subdict/__init__.py b/discretehelpers/a/subdict/__init__.py
index 6e9f684..95f427b 100644
--- a/discretehelpers/a/subdict/__init__.py
+++ b/discretehelpers/a/subdict/__init__.py
@@ -14,7 +14,8 @@ def subdict(original, drop=None, fresh=None):
     for key in kept_keys:
         result[key] = original[key]
 
-    for key, val in fresh.items():
-        result[key] = val
+    if have(fresh):
+        for key, val in fresh.items():
+            result[key] = val
 
     return result
-- 
2.43.0


From 2169b27f26447cd020c9982f9103b3a897c87212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:49 +0000
Subject: [PATCH 09/49] fix: give non-neutral Walsh permutations a length

Slicing and other inherited methods failed, because only the neutral one had it.
---
 discretehelpers/walsh_perm/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index 4adeb03..ee33a6d 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -44,6 +44,7 @@ class WalshPerm(Perm):
         self.vector_object = Vector(matrix_to_vector(matrix))
         self.transpose_vector_object = Vector(matrix_to_vector(matrix, by_row=True))
         self.perilen = 2 ** self.degree
+        self.length = self.perilen
 
         if not trust:
             self.mapping  # just call metribute, because verification happens there
-- 
2.43.0


From 296a9a4b241641479ecb3a6e5c469582803e58f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:58 +0000
Subject: [PATCH 10/49] fix: make Walsh permutations hashable

Defining __eq__ without __hash__ had removed the inherited hash.
---
 discretehelpers/walsh_perm/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index ee33a6d..6a8c8ac 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -75,6 +75,9 @@ class WalshPerm(Perm):
         else:
             return super(WalshPerm, self).__eq__(other)
 
+    def __hash__(self):
+        return hash(super(WalshPerm, self).__str__())  # equal to the hash of the equal Perm
+
     def __mul__(self, other):
         if not isinstance(other, WalshPerm):
             return super(WalshPerm, self).__mul__(other)
-- 
2.43.0


From bd966bd0c231d75494b5e487a74044cdfe06627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:07 +0000
Subject: [PATCH 11/49] fix: let equal signed and unsigned permutations have
 equal hashes

---
 discretehelpers/sig_perm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 1aedcfa..c0a1539 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -132,7 +132,7 @@ class SigPerm(Perm):
         return self.__str__()
 
     def __hash__(self):
-        return hash(self.__str__())
+        return hash(self.perm) if self.unsigned else hash(self.__str__())  # unsigned ones are equal to a Perm
 
     def __mul__(self, other):  # a * b means a after b (function composition)
         size = max(self.length, other.length)
-- 
2.43.0


From 443268fa31f4a3c37535c44009dfe72368dcc518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:17 +0000
Subject: [PATCH 12/49] fix: ignore redundant zeros in the negator of a signed
 permutation

SigPerm objects with the same sequence were different when one negator was longer than needed.
---
 discretehelpers/sig_perm/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index c0a1539..7dfca23 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -104,8 +104,7 @@ class SigPerm(Perm):
             raw_binv = Binv(exposet=negator_exposet)
 
         self.length = max(raw_binv.required_length, self.perm.length)
-        missing_length = self.length - raw_binv.length
-        self.binv = Binv(raw_binv.vector + [False] * missing_length)
+        self.binv = Binv([raw_binv.has_index(i) for i in range(self.length)])
 
         self.unsigned = self.binv.intval == 0
         self.unmoved = self.perm.neutral
-- 
2.43.0


From a54aedcb4e46d1153afd7dc0893bd6029e5a3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:26 +0000
Subject: [PATCH 13/49] fix: let powers of signed permutations return a result

---
 discretehelpers/sig_perm/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index 7dfca23..d63ac46 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -139,7 +139,10 @@ class SigPerm(Perm):
         return SigPerm(matrix=matrix)
 
     def __pow__(self, exponent):
-        pass
+        if exponent == 0:
+            return SigPerm(sequence=[])
+        else:
+            return super(SigPerm, self).__pow__(exponent)
 
     from .metributes import inverse, sequence_minimal, \
         keyneg_index, valneg_index, perm_index, pair
-- 
2.43.0


From 8877c1e0dc539558a4131c83748648ec7c4b8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 14/49] fix: treat each element as equal to itself

A singleton could be made its own complement, and set_equal(a, a) could raise KeyError.
---
 discretehelpers/set_part/__init__.py      | 2 ++
 discretehelpers/set_part_comp/__init__.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 80d7300..544b390 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -101,6 +101,8 @@ class SetPart(object):
             return None
 
     def pair_in_same_block(self, a, b):
+        if a == b:
+            return True
         if not {a, b}.issubset(self.non_singletons):
             return False
         return self.non_singleton_to_block_index[a] == self.non_singleton_to_block_index[b]
diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 83e158b..9871df5 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -40,6 +40,8 @@ class SetPartComp():
     from .methods import set_equal, set_comp, boolf, int_matches, all_complement_pairs
 
     def are_equal(self, a, b):
+        if a == b:
+            return True
         a_index, b_index = _exposet(self, a, b)
         if not (have(a_index) and have(b_index)):
             return False
-- 
2.43.0


From a79d04d4afb8cffcf2d7e2c5818e4fb4f9a62b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:43 +0000
Subject: [PATCH 15/49] fix: let SetPartComp copy the given partition and
 reject other types

It changed the SetPart of the caller, and silently ignored e.g. tuples.
---
 discretehelpers/set_part_comp/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 9871df5..14cb75c 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -1,5 +1,5 @@
 from discretehelpers.a import have
-
+from discretehelpers.ex import ArgTypeError
 
 from discretehelpers.set_part import SetPart
 
@@ -17,7 +17,9 @@ class SetPartComp():
             if type(equal_part) == list:
                 self.equal_part = SetPart(equal_part, 'Z')
             elif type(equal_part) == SetPart:
-                self.equal_part = equal_part
+                self.equal_part = SetPart(equal_part.blocks, equal_part.domain, equal_part.block_labels)
+            else:
+                raise ArgTypeError
         else:
             self.equal_part = SetPart([], 'Z')
 
-- 
2.43.0


From 5df385dd0b7cf33ea326905be6cb7e9b509597b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:52 +0000
Subject: [PATCH 16/49] fix: print the pairs of SetPartComp in ascending order

Equal objects could have different strings.
---
 discretehelpers/set_part_comp/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 14cb75c..99786a1 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -77,7 +77,8 @@ class SetPartComp():
         blocks = self.equal_part.blocks
         pairs = self.comp_pairs
         if len(pairs):
-            return f'SetPartComp({blocks}, {pairs})'
+            sorted_pairs_string = ', '.join([str(_) for _ in sorted(pairs)])
+            return f'SetPartComp({blocks}, {{{sorted_pairs_string}}})'
         else:
             return f'SetPartComp({blocks})'
 
-- 
2.43.0


From ea1e8701cf376bc96bbe1d011158e94ada70bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:24 +0000
Subject: [PATCH 17/49] fix: allow sequences of the neutral Walsh permutation
 with a given length

Its period length is None, which can not be compared with the requested length.
---
 discretehelpers/walsh_perm/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/walsh_perm/__init__.py b/discretehelpers/walsh_perm/__init__.py
index 6a8c8ac..eea039b 100644
--- a/discretehelpers/walsh_perm/__init__.py
+++ b/discretehelpers/walsh_perm/__init__.py
@@ -97,7 +97,7 @@ class WalshPerm(Perm):
         true_except(not have(length) or not have(degree), RedundantParametersError)
         if have(length):
             true_except(is_power_of_two(length), NotPowerOfTwoError)
-            true_except(length >= self.perilen, RequestedDegreeSmallerActualDegreeError)
+            true_except(length >= self.length, RequestedDegreeSmallerActualDegreeError)
         if have(degree):
             true_except(degree >= self.degree, RequestedDegreeSmallerActualDegreeError)
             length = 2**degree
@@ -107,7 +107,7 @@ class WalshPerm(Perm):
         true_except(not have(length) or not have(degree), RedundantParametersError)
         if have(length):
             true_except(is_power_of_two(length), NotPowerOfTwoError)
-            true_except(length >= self.perilen, RequestedDegreeSmallerActualDegreeError)
+            true_except(length >= self.length, RequestedDegreeSmallerActualDegreeError)
         if have(degree):
             true_except(degree >= self.degree, RequestedDegreeSmallerActualDegreeError)
             length = 2**degree
-- 
2.43.0


From f9ae198eb0c6ad25448e268822033fb93563a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:33 +0000
Subject: [PATCH 18/49] fix: accept the same argument types on all routes of
 SigPerm

String key negators and dict permutations failed, and other negator types led to an unbound variable.
---
 discretehelpers/sig_perm/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index d63ac46..bc2de7a 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -6,7 +6,7 @@ from discretehelpers.sig_perm.a import schoute_to_finite_inverse
 from discretehelpers.binv import Binv
 from discretehelpers.perm import Perm
 
-from discretehelpers.ex import ArgComboError, ArgValueError
+from discretehelpers.ex import ArgComboError, ArgTypeError
 
 from .a import matrix_to_sequence, sequence_to_matrix
 
@@ -29,7 +29,7 @@ class SigPerm(Perm):
         ]
 
         if have(keyneg):
-            if type(keyneg) in [list, tuple]:
+            if type(keyneg) in [list, tuple, str]:
                 keyneg = Binv(keyneg)
             elif type(keyneg) is set:
                 keyneg = Binv(exposet=keyneg)
@@ -41,7 +41,7 @@ class SigPerm(Perm):
                 valneg = Binv(exposet=valneg)
 
         if have(perm):
-            if type(perm) in [list, tuple]:
+            if type(perm) in [list, tuple, dict]:
                 perm = Perm(perm)
 
         if have_only([pair], all_args):
@@ -93,6 +93,8 @@ class SigPerm(Perm):
                 raw_binv = Binv(exposet=valneg)
             elif type(valneg) in [str, list, tuple]:
                 raw_binv = Binv(vector=valneg)
+            else:
+                raise ArgTypeError
 
             self.perm = perm if type(perm) is Perm else Perm(perm)
 
-- 
2.43.0


From 35421e529decd58d46bc7bc2e6e81d1bbf210383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:42 +0000
Subject: [PATCH 19/49] fix: raise ArgComboError for unusable arguments of
 Boolf

Argument combinations that no initialization method feels responsible for caused an endless loop.
---
 discretehelpers/boolf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/boolf/__init__.py b/discretehelpers/boolf/__init__.py
index fd98c7f..c9e39b0 100644
--- a/discretehelpers/boolf/__init__.py
+++ b/discretehelpers/boolf/__init__.py
@@ -1,4 +1,5 @@
 from discretehelpers.binv import Binv
+from discretehelpers.ex import ArgComboError
 
 from .ex import *
 
@@ -40,6 +41,7 @@ class Boolf(object):
                 break
             if self._subinit_multi():
                 break
+            raise ArgComboError
 
         self.set_dummies()
 
-- 
2.43.0


From 28358d044c82ee7f9817cdfc63732eaaa8fc9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:51 +0000
Subject: [PATCH 20/49] fix: reject repeated elements in cycles and lists of
 other types

Perm([[0, 1], [1, 2]]) was not a permutation, and e.g. a list of tuples was taken for the identity.
---
 discretehelpers/perm/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 65ef3c9..0fb7498 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -40,6 +40,10 @@ class Perm(object):
                         map_to = cycle[(key + 1) % length]
                         if map_from != map_to:
                             mapping[map_from] = map_to
+                elements = [e for cycle in arg for e in cycle]
+                true_except(len(set(elements)) == len(elements), CyclesError)
+            else:
+                raise ArgTypeError
         elif type(arg) == dict:
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
             for key, val in arg.items():
-- 
2.43.0


From 96718636b067fe022e3cc41f1edc91b495978d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:59 +0000
Subject: [PATCH 21/49] fix: reject dicts with negative keys in Perm

---
 discretehelpers/perm/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 0fb7498..057d803 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -45,6 +45,7 @@ class Perm(object):
             else:
                 raise ArgTypeError
         elif type(arg) == dict:
+            true_except(all(is_natural(e) for e in arg.keys()), DictError)
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
             for key, val in arg.items():
                 if key != val:
-- 
2.43.0


From 3f40c11dabdf8de9a4c38fa00babc1c5be452e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:08 +0000
Subject: [PATCH 22/49] fix: reject negative exponents in Binv and allow none
 with minimal length

---
 discretehelpers/binv/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index da1a39a..f752416 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -62,7 +62,7 @@ class Binv(object):
 
             true_except(type(exposet) in [set, list, tuple], IndicesTypeError)
             for e in exposet:
-                true_except(type(e) == int, IndicesEntryError)
+                true_except(type(e) == int and e >= 0, IndicesEntryError)
             if case_exposet_only:
                 if len(exposet) == 0:
                     self.set_empty()
@@ -74,7 +74,7 @@ class Binv(object):
                     if len(exposet) > 0:
                         true_except(length > max(exposet), LengthError)
                 else:
-                    length = max(minimal_length, max(exposet) + 1)
+                    length = max(minimal_length, max(exposet) + 1 if exposet else 0)
             vector = [False] * length
             for i in exposet:
                 vector[i] = True
-- 
2.43.0


From 98e9f8d114691e7e1fd7c6f572b5d11fd8cc71d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:09 +0000
Subject: [PATCH 23/49] fix: reject negative atomvals also for constant truth
 tables

---
 discretehelpers/boolf/subinit_methods/tt/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/subinit_methods/tt/__init__.py b/discretehelpers/boolf/subinit_methods/tt/__init__.py
index 516b354..67e6b7d 100644
--- a/discretehelpers/boolf/subinit_methods/tt/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/tt/__init__.py
@@ -39,6 +39,7 @@ def _subinit_truth_table(self):
     if have(atomvals):
         valency = len(atomvals)
         true_except(len(set(atomvals)) == valency, AtomvalsNotUniqueError)
+        true_except(all(_ >= 0 for _ in atomvals), AtomvalNegativeError)
         true_except(length == 2 ** valency, SarityVectorMismatchError)
 
     true_except(length > 0, ArgValueError)  # a truth table should at least have one digit
@@ -48,7 +49,6 @@ def _subinit_truth_table(self):
         return True
 
     if have(atomvals):
-        true_except(min(atomvals) >= 0, AtomvalNegativeError)
         binv, atomvals = reorder_if_atomvals_not_asc(binv, atomvals)
     else:
         from discretehelpers.a import log_int
-- 
2.43.0


From a947ec0663c64fdead94fa2b5fc1d5345193657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:17 +0000
Subject: [PATCH 24/49] fix: check the atomvals given with fullspots before
 deflation

Duplicates were overlooked when they were deflated, and tuples raised AttributeError.
The deflation happens in the truth table initialization anyway.
---
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index 13a145b..c73a988 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -11,7 +11,6 @@ def _subinit_fullspots(self):
     fullspots = self._doa['fs']
     atomvals = self._doa['av']
     arity = self._doa['arity']
-    skip_deflation = self._doda['sd']
 
     true_except(int(have(atomvals)) + int(have(arity)) == 1, ArgComboError)
 
@@ -33,10 +32,6 @@ def _subinit_fullspots(self):
     length = 1 << len(atomvals)  # 2 ** len(atomvals)
     binv = Binv(exposet=fullspots, length=length)
 
-    if not skip_deflation:
-        from discretehelpers.boolf.a import deflate
-        binv, atomvals = deflate(binv, atomvals)
-
     self._doa['tt'] = binv
     self._doa['av'] = atomvals
     self._doa['arity'] = self._doa['fs'] = None
-- 
2.43.0


From ab7a81fb114f91e536a2c936094c7e0da206651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:24 +0000
Subject: [PATCH 25/49] fix: keep the atoms of the contradiction when deflation
 is skipped

For a constant False the unabbreviated clan called itself without end,
and constants without atoms could not be initialized without deflation.
---
 discretehelpers/boolf/methods/_ec/ec_clan/__init__.py |  2 +-
 discretehelpers/boolf/subinit_methods/fs/__init__.py  | 10 +++-------
 discretehelpers/boolf/subinit_methods/tt/__init__.py  |  2 +-
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py b/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
index 1600461..fdb0334 100644
--- a/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
+++ b/discretehelpers/boolf/methods/_ec/ec_clan/__init__.py
@@ -13,7 +13,7 @@ from discretehelpers.ex import ArgTooSmallError, ArgNotFeasibleError
 def ec_clan(self, arity=None, suppress_abbreviation=False):
 
     if self.is_constant:
-        if not suppress_abbreviation:
+        if not suppress_abbreviation or not arity:
             pair_or_triple = (0, 0) if not arity else (0, 0, 0)
             part = SetPart(blocks=[], domain={pair_or_triple})
             part.add_label_to_element(pair_or_triple, self)
diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index c73a988..2a26634 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -14,16 +14,12 @@ def _subinit_fullspots(self):
 
     true_except(int(have(atomvals)) + int(have(arity)) == 1, ArgComboError)
 
-    if len(fullspots) == 0:  # constant False
-        self.set_constant(False)
-        return True
-
     if not have(atomvals):
         atomvals = list(range(arity))
 
-    if set(atomvals) == set():  # constant True
-        true_except(set(fullspots) == {0}, ArgMismatchError)
-        self.set_constant(True)
+    if set(atomvals) == set():  # constant
+        true_except(set(fullspots).issubset({0}), ArgMismatchError)
+        self.set_constant(len(fullspots) > 0)
         return True
 
     from discretehelpers.binv import Binv
diff --git a/discretehelpers/boolf/subinit_methods/tt/__init__.py b/discretehelpers/boolf/subinit_methods/tt/__init__.py
index 67e6b7d..317a7fe 100644
--- a/discretehelpers/boolf/subinit_methods/tt/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/tt/__init__.py
@@ -44,7 +44,7 @@ def _subinit_truth_table(self):
 
     true_except(length > 0, ArgValueError)  # a truth table should at least have one digit
 
-    if weight in [0, length] and not skip_deflation:  # if only 0s or only 1s
+    if weight in [0, length] and not (skip_deflation and length > 1):  # if only 0s or only 1s
         self.set_constant(bool(weight))  # tautology if weight not 0
         return True
 
-- 
2.43.0


From cda591fae5a336e35c56f4d6fefb49bd20909679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:01 +0000
Subject: [PATCH 26/49] fix: leave a SetPart unchanged when refine_block
 rejects the labels

The blocks were already exchanged when the labels were verified.
Labels of new blocks that are not sorted get the key of the sorted block.
---
 .../set_part/methods/refine_block/__init__.py       | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/discretehelpers/set_part/methods/refine_block/__init__.py b/discretehelpers/set_part/methods/refine_block/__init__.py
index 4050fbb..c903539 100644
--- a/discretehelpers/set_part/methods/refine_block/__init__.py
+++ b/discretehelpers/set_part/methods/refine_block/__init__.py
@@ -15,19 +15,16 @@ def refine_block(self, new_blocks, new_labels=None):
 
     true_except(old_block in self.blocks, ArgValueError)
 
-    self.blocks.remove(old_block)
-    self.blocks += new_blocks
+    remaining_blocks = [block for block in self.blocks if block != old_block]
 
-    try:  # The old block may have a label. If so, delete it. If not, do nothing.
-        del self.block_labels[tuple(old_block)]
-    except KeyError:
-        pass
+    block_labels = self.block_labels.copy()
+    block_labels.pop(tuple(old_block), None)  # The old block may have a label. If so, delete it. If not, do nothing.
 
     if have(new_labels):
         true_except(type(new_labels) in [list, tuple], ArgTypeError)
         true_except(len(new_labels) == len(new_blocks), ArgValueError)
         for i, block in enumerate(new_blocks):
             label = new_labels[i]
-            self.block_labels[tuple(block)] = label
+            block_labels[tuple(sorted(block))] = label
 
-    self.__init__(self.blocks, self.domain, self.block_labels)  # reinitialize
+    self.__init__(remaining_blocks + list(new_blocks), self.domain, block_labels)  # reinitialize
-- 
2.43.0


From a113399def745cd4381c2dd4078dc7029cacc592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:09 +0000
Subject: [PATCH 27/49] fix: leave a SetPart unchanged when merge_many fails

The pairs before the offending one remained merged.
---
 discretehelpers/set_part/methods/merge_many/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/set_part/methods/merge_many/__init__.py b/discretehelpers/set_part/methods/merge_many/__init__.py
index d3cff86..3168fb1 100644
--- a/discretehelpers/set_part/methods/merge_many/__init__.py
+++ b/discretehelpers/set_part/methods/merge_many/__init__.py
@@ -2,7 +2,10 @@ from itertools import combinations
 
 
 def merge_many(self, many):
+    from discretehelpers.set_part import SetPart
+
+    part = SetPart(self.blocks, self.domain, self.block_labels)  # copy, so that `self` remains unchanged in case of an error
     for a, b in combinations(many, 2):
-        self.merge_pair(a, b)
+        part.merge_pair(a, b)
 
-    self.__init__(self.blocks, self.domain, self.block_labels)  # reinitialize
+    self.__init__(part.blocks, part.domain, part.block_labels)  # reinitialize
-- 
2.43.0


From dc61cca497396f3fd0dfea82ef3ede7649c510ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:19 +0000
Subject: [PATCH 28/49] fix: leave a SetPartComp unchanged when set_equal or
 set_comp fails

Complement pairs were already removed when the merging raised an error.
---
 discretehelpers/set_part_comp/helpers.py              |  8 ++++++++
 .../set_part_comp/methods/set_comp/__init__.py        | 11 +++++------
 .../set_part_comp/methods/set_equal/__init__.py       | 11 +++++------
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/discretehelpers/set_part_comp/helpers.py b/discretehelpers/set_part_comp/helpers.py
index cab61ef..4e4b575 100644
--- a/discretehelpers/set_part_comp/helpers.py
+++ b/discretehelpers/set_part_comp/helpers.py
@@ -1,4 +1,5 @@
 from discretehelpers.a import true_except, have
+from discretehelpers.set_part import SetPart
 
 
 def _index(self, a):  # index of the block or None if singleton
@@ -23,5 +24,12 @@ def _other_element_in_pair(pair, element):
     return bucket[0]
 
 
+def _merged_part(self, *pairs):  # equality partition with these pairs merged (`self` is not changed)
+    part = SetPart(self.equal_part.blocks, self.equal_part.domain, self.equal_part.block_labels)
+    for a, b in pairs:
+        part.merge_pair(a, b)
+    return part
+
+
 def _pair(a, b):
     return tuple(sorted([a, b]))
diff --git a/discretehelpers/set_part_comp/methods/set_comp/__init__.py b/discretehelpers/set_part_comp/methods/set_comp/__init__.py
index ed59262..487c932 100644
--- a/discretehelpers/set_part_comp/methods/set_comp/__init__.py
+++ b/discretehelpers/set_part_comp/methods/set_comp/__init__.py
@@ -1,6 +1,6 @@
 from discretehelpers.a import true_except, have
 
-from ...helpers import _representative, _representatives, _pair
+from ...helpers import _representative, _representatives, _merged_part, _pair
 from ...ex import *
 
 
@@ -28,8 +28,8 @@ def _set_comp_no_comp(self, a, b):
 
 def _set_comp_first_comp(self, a, b, a_comp):
     old_a_repr = _representative(self, a)
+    self.equal_part = _merged_part(self, (a_comp, b))  # both are complements of `a`, thus equal
     self.comp_pairs.remove(_pair(old_a_repr, a_comp))  # remove old complement pair
-    self.equal_part.merge_pair(a_comp, b)  # both are complements of `a`, thus equal
     new_a_repr, new_b_repr = _representatives(self, a, b)
     self.comp_pairs.add(_pair(new_a_repr, new_b_repr))  # add new complement pair
 
@@ -37,13 +37,12 @@ def _set_comp_first_comp(self, a, b, a_comp):
 def _set_comp_both_comp(self, a, b, a_comp, b_comp):
     old_a_repr, old_b_repr = _representatives(self, a, b)
 
+    # merge blocks
+    self.equal_part = _merged_part(self, (a, b_comp), (b, a_comp))
+
     # remove old complement pairs
     self.comp_pairs.remove(_pair(old_a_repr, a_comp))
     self.comp_pairs.remove(_pair(old_b_repr, b_comp))
 
-    # merge blocks
-    self.equal_part.merge_pair(a, b_comp)
-    self.equal_part.merge_pair(b, a_comp)
-
     new_repr, new_comp_repr = _representatives(self, a, a_comp)
     self.comp_pairs.add(_pair(new_repr, new_comp_repr))  # add new complement pair
diff --git a/discretehelpers/set_part_comp/methods/set_equal/__init__.py b/discretehelpers/set_part_comp/methods/set_equal/__init__.py
index 44d6fe6..b7dc306 100644
--- a/discretehelpers/set_part_comp/methods/set_equal/__init__.py
+++ b/discretehelpers/set_part_comp/methods/set_equal/__init__.py
@@ -1,6 +1,6 @@
 from discretehelpers.a import true_except, have
 
-from ...helpers import _representative, _representatives, _pair
+from ...helpers import _representative, _representatives, _merged_part, _pair
 from ...ex import *
 
 
@@ -27,8 +27,8 @@ def _set_equal_no_comp(self, a, b):
 
 def _set_equal_first_comp(self, a, b, a_comp):
     old_a_repr = _representative(self, a)
+    self.equal_part = _merged_part(self, (a, b))  # merge blocks
     self.comp_pairs.remove(_pair(old_a_repr, a_comp))  # remove old complement pair
-    self.equal_part.merge_pair(a, b)  # merge blocks
     new_a_repr = _representative(self, a)
     new_a_comp_repr = _representative(self, a_comp)
     self.comp_pairs.add(_pair(new_a_repr, new_a_comp_repr))  # add new complement pair
@@ -37,13 +37,12 @@ def _set_equal_first_comp(self, a, b, a_comp):
 def _set_equal_both_comp(self, a, b, a_comp, b_comp):
     old_a_repr, old_b_repr = _representatives(self, a, b)
 
+    # merge blocks
+    self.equal_part = _merged_part(self, (a, b), (a_comp, b_comp))
+
     # remove old complement pairs
     self.comp_pairs.remove(_pair(old_a_repr, a_comp))
     self.comp_pairs.remove(_pair(old_b_repr, b_comp))
 
-    # merge blocks
-    self.equal_part.merge_pair(a, b)
-    self.equal_part.merge_pair(a_comp, b_comp)
-
     new_repr, new_comp_repr = _representatives(self, a, a_comp)
     self.comp_pairs.add(_pair(new_repr, new_comp_repr))  # add new complement pair
-- 
2.43.0


From 20f2bcafb981313b71a5a074d6eec13aa7848033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:28 +0000
Subject: [PATCH 29/49] fix: reject blocks of a SetPart with elements outside
 the domain

---
 discretehelpers/set_part/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index 544b390..c0f30ae 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -2,7 +2,7 @@ from bidict import bidict
 
 from discretehelpers.a import true_except, is_natural, have
 
-from .ex import DomainsNotEqualError, DomainNotSetLikeError, DuplicateElementsError
+from .ex import DomainsNotEqualError, DomainNotSetLikeError, DuplicateElementsError, NotInDomainError
 
 
 class SetPart(object):
@@ -38,6 +38,8 @@ class SetPart(object):
             DuplicateElementsError
         )
 
+        true_except(all(self.element_in_domain(_) for _ in self.non_singletons), NotInDomainError)
+
         if self.domain == 'N':
             self.length = max(self.non_singletons) + 1
 
-- 
2.43.0


From 635bbeb1d0232fa08b6710784ff4c51f38fc090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:07 +0000
Subject: [PATCH 30/49] fix: Boolf with a set of atoms depended on the set's
 iteration order

reorder_if_atomvals_not_asc zipped the set with the argument positions, so
which argument got which atom followed the hash order of the set, e.g. in
Boolf('0010', atomvals={8, 1}). A set is now read in ascending order.
---
 discretehelpers/boolf/a/reorder_if_atomvals_not_asc/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/boolf/a/reorder_if_atomvals_not_asc/__init__.py b/discretehelpers/boolf/a/reorder_if_atomvals_not_asc/__init__.py
index 2ef22a2..312b524 100644
--- a/discretehelpers/boolf/a/reorder_if_atomvals_not_asc/__init__.py
+++ b/discretehelpers/boolf/a/reorder_if_atomvals_not_asc/__init__.py
@@ -11,6 +11,8 @@ def reorder_if_atomvals_not_asc(binv, atomvals):
     vector = binv.vector
     if type(atomvals) == list:
         atomvals = atomvals.copy()
+    elif type(atomvals) == set:
+        atomvals = sorted(atomvals)  # a set has no order, so the entries belong to the arguments in ascending order
 
     if atomvals == sorted(atomvals):
         return Binv(vector), atomvals
-- 
2.43.0


From 5755ef65ae5f6ab3daeab8fbf20bc28372e895f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:30 +0000
Subject: [PATCH 31/49] fix: other_entry_in_pair returned an arbitrary entry
 for a foreign one

When the given entry is not in the pair, both entries are left over, and the
result was the first one in set iteration order. Raise EntryNotInPairError.
---
 discretehelpers/a/other_entry_in_pair/__init__.py | 7 ++++---
 discretehelpers/a/other_entry_in_pair/ex.py       | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/a/other_entry_in_pair/__init__.py b/discretehelpers/a/other_entry_in_pair/__init__.py
index fd1d36c..8a336d8 100644
--- a/discretehelpers/a/other_entry_in_pair/__init__.py
+++ b/discretehelpers/a/other_entry_in_pair/__init__.py
@@ -8,6 +8,7 @@ def other_entry_in_pair(pair, entry):
     true_except(type(pair) in [list, tuple, set], WrongTypeError)
     true_except(len(pair) == 2, WrongLengthError)
 
-    return list(
-        set(pair).difference({entry})
-    )[0]
+    others = set(pair).difference({entry})
+    true_except(len(others) == 1, EntryNotInPairError)
+
+    return list(others)[0]
diff --git a/discretehelpers/a/other_entry_in_pair/ex.py b/discretehelpers/a/other_entry_in_pair/ex.py
index 7d7d9f0..5a55251 100644
--- a/discretehelpers/a/other_entry_in_pair/ex.py
+++ b/discretehelpers/a/other_entry_in_pair/ex.py
@@ -4,3 +4,7 @@ class WrongTypeError(TypeError):
 
 class WrongLengthError(TypeError):
     pass
+
+
+class EntryNotInPairError(ValueError):
+    pass
-- 
2.43.0


From d3d70719cd5a84b77b5383c314265a53e4fd280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:53 +0000
Subject: [PATCH 32/49] fix: WalshPerm.inverse lost precision for large
 matrices

The inverse was computed with floating point numbers and then reduced modulo
2. Its real entries grow exponentially with the degree, so beyond 2 ** 53 the
parity is wrong. Invert the matrix over GF(2) instead.
---
 .../walsh_perm/metributes/inverse/__init__.py | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/discretehelpers/walsh_perm/metributes/inverse/__init__.py b/discretehelpers/walsh_perm/metributes/inverse/__init__.py
index 946204a..88154e0 100644
--- a/discretehelpers/walsh_perm/metributes/inverse/__init__.py
+++ b/discretehelpers/walsh_perm/metributes/inverse/__init__.py
@@ -2,7 +2,8 @@ from functools import cached_property
 
 import numpy as np
 
-from discretehelpers.a import is_integer_matrix
+from discretehelpers.a import true_except
+from discretehelpers.walsh_perm.ex import InvalidMatrixError
 
 
 @cached_property
@@ -10,19 +11,15 @@ def inverse(self):
 
     from discretehelpers.walsh_perm import WalshPerm
 
-    inv_mat_real = np.linalg.inv(self.matrix_minimal)
+    # Gauss-Jordan elimination over GF(2)
+    rows = np.concatenate([self.matrix_minimal % 2, np.identity(self.degree, dtype=int)], axis=1)
 
-    if is_integer_matrix(inv_mat_real):
+    for i in range(self.degree):
+        candidates = [j for j in range(i, self.degree) if rows[j, i]]
+        true_except(len(candidates) > 0, InvalidMatrixError)
+        rows[[i, candidates[0]]] = rows[[candidates[0], i]]
+        for j in range(self.degree):
+            if j != i and rows[j, i]:
+                rows[j] ^= rows[i]
 
-        inv_mat_binary = np.array([_ % 2 for _ in inv_mat_real])
-        result = WalshPerm(matrix=inv_mat_binary, trust=True)
-
-    else:
-
-        from discretehelpers.perm import Perm
-
-        perm = Perm(self.cycles, perilen=self.perilen)
-        inv_perm = perm.inverse
-        result = WalshPerm(perm=inv_perm, trust=True)
-
-    return result
+    return WalshPerm(matrix=rows[:, self.degree:], trust=True)
-- 
2.43.0


From bd8f53453c82999d81b13d8208dc7dfaf5207dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:09 +0000
Subject: [PATCH 33/49] fix: Perm.cycles_dynamic overflowed for long periods

The shifted cycles were computed with 64 bit numpy integers, and the result
contained them instead of plain integers.
---
 discretehelpers/perm/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 057d803..17c4190 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -1,5 +1,3 @@
-import numpy as np
-
 from discretehelpers.a import true_except, is_natural, have, slice_to_range
 from .a import broaden_moved, reduce_period
 
@@ -191,6 +189,5 @@ class Perm(object):
         result = []
         for i in range(times):
             for cycle in self.cycles:
-                increased_cycle = np.array(cycle) + i * self.perilen
-                result.append(list(increased_cycle))
+                result.append([entry + i * self.perilen for entry in cycle])
         return result
-- 
2.43.0


From d5ecf31275f88d33d11a98df0212a34deb7c42b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:18 +0000
Subject: [PATCH 34/49] fix: wiki_table_row lost digits of the weight numerator

The denominator divides the length, but the quotient was a floating point
number, so the expanded numerator was rounded for high valencies.
---
 discretehelpers/boolf/methods/wiki_table_row/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/boolf/methods/wiki_table_row/__init__.py b/discretehelpers/boolf/methods/wiki_table_row/__init__.py
index f52d663..1418ed6 100644
--- a/discretehelpers/boolf/methods/wiki_table_row/__init__.py
+++ b/discretehelpers/boolf/methods/wiki_table_row/__init__.py
@@ -48,9 +48,9 @@ def wiki_table_row(self, names_cell):
     wden = wfract.denominator
 
     length = 2 ** self.valency
-    reducing_factor = length / wden
+    reducing_factor = length // wden
 
-    wnum_big = int(wnum * reducing_factor)
+    wnum_big = wnum * reducing_factor
 
     vdec = format(vnum / vden, '.20f')[1::]  # with trailing zeros
     wdec = format(wnum / wden, '.20g')[1::]  # without trailing zeros
-- 
2.43.0


From 10c112c7a1b5c8fc9bdd7b4f21cb50563f4ba2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:23 +0000
Subject: [PATCH 35/49] fix: add_label_to_element printed to standard output

The explanation of a label contradiction went to standard output instead of
into the exception.
---
 discretehelpers/set_part/methods/block_labels/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discretehelpers/set_part/methods/block_labels/__init__.py b/discretehelpers/set_part/methods/block_labels/__init__.py
index 5dd3301..401880c 100644
--- a/discretehelpers/set_part/methods/block_labels/__init__.py
+++ b/discretehelpers/set_part/methods/block_labels/__init__.py
@@ -33,8 +33,8 @@ def add_label_to_element(self, element, label):
     old_label = self.get_label_from_block(block_from_element)  # could be None
     if have(old_label):
         if label != old_label:
-            print(f'###### The block {block_from_element} already has label {old_label}, and can not be assigned label {label}.')
-            raise LabelContradictionError
+            raise LabelContradictionError(
+                f'The block {block_from_element} already has label {old_label}, and can not be assigned label {label}.')
 
     if have(block_from_label):
         self.merge_pair(block_from_element[0], block_from_label[0])  # merge blocks from element and label
-- 
2.43.0


From 4d3a52897d30d0f8a56f29d9708bee331075fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:45 +0000
Subject: [PATCH 36/49] fix: Boolf kept a reference to a list-like argument

Only plain lists of atoms were copied, so later changes of a list subclass
showed in the Boolf. Copy anything that is not a set.
---
 .../boolf/a/reorder_if_atomvals_not_asc/__init__.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/boolf/a/reorder_if_atomvals_not_asc/__init__.py b/discretehelpers/boolf/a/reorder_if_atomvals_not_asc/__init__.py
index 312b524..6a5412b 100644
--- a/discretehelpers/boolf/a/reorder_if_atomvals_not_asc/__init__.py
+++ b/discretehelpers/boolf/a/reorder_if_atomvals_not_asc/__init__.py
@@ -9,10 +9,10 @@ def reorder_if_atomvals_not_asc(binv, atomvals):
 
     true_except(type(binv) == Binv, ValueError)
     vector = binv.vector
-    if type(atomvals) == list:
-        atomvals = atomvals.copy()
-    elif type(atomvals) == set:
+    if type(atomvals) == set:
         atomvals = sorted(atomvals)  # a set has no order, so the entries belong to the arguments in ascending order
+    else:
+        atomvals = list(atomvals)
 
     if atomvals == sorted(atomvals):
         return Binv(vector), atomvals
-- 
2.43.0


From 86b27943d6c91435536e40fba4fa5a4299a8f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:00 +0000
Subject: [PATCH 37/49] fix: mod_tt_neg rejects a signet of an unknown type
 instead of using an unbound name

---
 discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
index a9347f4..fc7f9fc 100644
--- a/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
+++ b/discretehelpers/boolf/a/_mod_tt/mod_tt_neg/__init__.py
@@ -1,4 +1,5 @@
 from discretehelpers.binv import Binv
+from discretehelpers.ex import ArgTypeError
 
 
 def mod_tt_neg(tt, signet):
@@ -10,6 +11,8 @@ def mod_tt_neg(tt, signet):
         signet_index = signet_binv.intval
     elif type(signet) == Binv:
         signet_index = signet.intval
+    else:
+        raise ArgTypeError
 
     perm = [_ ^ signet_index for _ in range(len(tt))]
 
-- 
2.43.0


From 5af299a4926d3fbf23bf0169779dc665c040c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:05:32 +0000
Subject: [PATCH 38/49] fix: check that elements are in the domain of a set
 partition before sorting them

---
 discretehelpers/set_part/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/set_part/__init__.py b/discretehelpers/set_part/__init__.py
index c0f30ae..28b5fed 100644
--- a/discretehelpers/set_part/__init__.py
+++ b/discretehelpers/set_part/__init__.py
@@ -19,7 +19,9 @@ class SetPart(object):
             self.set_trivial()
             return
 
-        blocks = sorted(sorted(block) for block in blocks if len(block) > 1)
+        blocks = [list(block) for block in blocks if len(block) > 1]
+        true_except(all(self.element_in_domain(_) for block in blocks for _ in block), NotInDomainError)
+        blocks = sorted(sorted(block) for block in blocks)
         if not blocks:
             self.set_trivial()
             return
@@ -38,8 +40,6 @@ class SetPart(object):
             DuplicateElementsError
         )
 
-        true_except(all(self.element_in_domain(_) for _ in self.non_singletons), NotInDomainError)
-
         if self.domain == 'N':
             self.length = max(self.non_singletons) + 1
 
-- 
2.43.0


From 0d5dbf7fdfc2c361dfe46672c49e2667692158b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:08:26 +0000
Subject: [PATCH 39/49] fix: reject negative places in make_transposition

---
 discretehelpers/a/make_transposition/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discretehelpers/a/make_transposition/__init__.py b/discretehelpers/a/make_transposition/__init__.py
index 840c74b..eb68198 100644
--- a/discretehelpers/a/make_transposition/__init__.py
+++ b/discretehelpers/a/make_transposition/__init__.py
@@ -5,7 +5,7 @@ from discretehelpers.ex import ArgValueError
 def make_transposition(a, b, length):
 
     true_except(a != b, ArgValueError)
-    true_except(a < length and b < length, ArgValueError)
+    true_except(0 <= a < length and 0 <= b < length, ArgValueError)
 
     sequence = list(range(length))
 
-- 
2.43.0


From 591b591562fb08a393f32a642644619ff3b36b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:08:41 +0000
Subject: [PATCH 40/49] fix: reject negative atom keys in the methods that
 relate two atoms

---
 .../boolf/methods/atom_border_in_atom_side/__init__.py          | 2 +-
 discretehelpers/boolf/methods/atom_pair_crossing/__init__.py    | 2 +-
 discretehelpers/boolf/methods/atom_pair_intersect/__init__.py   | 2 +-
 discretehelpers/boolf/methods/atom_pair_subset/__init__.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discretehelpers/boolf/methods/atom_border_in_atom_side/__init__.py b/discretehelpers/boolf/methods/atom_border_in_atom_side/__init__.py
index f736416..e5f76cc 100644
--- a/discretehelpers/boolf/methods/atom_border_in_atom_side/__init__.py
+++ b/discretehelpers/boolf/methods/atom_border_in_atom_side/__init__.py
@@ -6,7 +6,7 @@ from .ex import BordersCrossingError
 
 def atom_border_in_atom_side(self, a, b):
 
-    true_except(a != b and a < self.valency and b < self.valency, NotPairOfAtomKeysError)
+    true_except(a != b and 0 <= a < self.valency and 0 <= b < self.valency, NotPairOfAtomKeysError)
     true_except(not self.atom_pair_crossing(a, b), BordersCrossingError)
 
     return self.atom_pair_subset(a, b) or self.atom_pair_intersect(a, b)
diff --git a/discretehelpers/boolf/methods/atom_pair_crossing/__init__.py b/discretehelpers/boolf/methods/atom_pair_crossing/__init__.py
index 85fa7ee..779822c 100644
--- a/discretehelpers/boolf/methods/atom_pair_crossing/__init__.py
+++ b/discretehelpers/boolf/methods/atom_pair_crossing/__init__.py
@@ -5,6 +5,6 @@ from discretehelpers.boolf.ex import NotPairOfAtomKeysError
 
 def atom_pair_crossing(self, a, b):
 
-    true_except(a != b and a < self.valency and b < self.valency, NotPairOfAtomKeysError)
+    true_except(a != b and 0 <= a < self.valency and 0 <= b < self.valency, NotPairOfAtomKeysError)
 
     return self.filtrated_pair(a, b) == '1111'
diff --git a/discretehelpers/boolf/methods/atom_pair_intersect/__init__.py b/discretehelpers/boolf/methods/atom_pair_intersect/__init__.py
index 4913b3a..9722ca0 100644
--- a/discretehelpers/boolf/methods/atom_pair_intersect/__init__.py
+++ b/discretehelpers/boolf/methods/atom_pair_intersect/__init__.py
@@ -5,6 +5,6 @@ from discretehelpers.boolf.ex import NotPairOfAtomKeysError
 
 def atom_pair_intersect(self, a, b):
 
-    true_except(a != b and a < self.valency and b < self.valency, NotPairOfAtomKeysError)
+    true_except(a != b and 0 <= a < self.valency and 0 <= b < self.valency, NotPairOfAtomKeysError)
 
     return self.filtrated_pair(a, b) == '0111'
diff --git a/discretehelpers/boolf/methods/atom_pair_subset/__init__.py b/discretehelpers/boolf/methods/atom_pair_subset/__init__.py
index 8d0cf8d..41a9f8b 100644
--- a/discretehelpers/boolf/methods/atom_pair_subset/__init__.py
+++ b/discretehelpers/boolf/methods/atom_pair_subset/__init__.py
@@ -5,6 +5,6 @@ from discretehelpers.boolf.ex import NotPairOfAtomKeysError
 
 def atom_pair_subset(self, a, b):
 
-    true_except(a != b and a < self.valency and b < self.valency, NotPairOfAtomKeysError)
+    true_except(a != b and 0 <= a < self.valency and 0 <= b < self.valency, NotPairOfAtomKeysError)
 
     return self.filtrated_pair(a, b) == '1011'
-- 
2.43.0


From 488a1f6dbfd9792238eedf778dd4e7dda46b7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:53 +0000
Subject: [PATCH 41/49] fix: reject constant truth tables whose length is no
 power of two

---
 discretehelpers/boolf/subinit_methods/tt/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/subinit_methods/tt/__init__.py b/discretehelpers/boolf/subinit_methods/tt/__init__.py
index 317a7fe..442a92a 100644
--- a/discretehelpers/boolf/subinit_methods/tt/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/tt/__init__.py
@@ -1,4 +1,4 @@
-from discretehelpers.a import have, true_except, subinit_bouncer, type_clean_int
+from discretehelpers.a import have, true_except, subinit_bouncer, type_clean_int, is_power_of_two
 
 from discretehelpers.boolf.a import reorder_if_atomvals_not_asc
 from discretehelpers.boolf.ex import AtomvalsNotUniqueError, SarityVectorMismatchError, AtomvalNegativeError
@@ -43,6 +43,7 @@ def _subinit_truth_table(self):
         true_except(length == 2 ** valency, SarityVectorMismatchError)
 
     true_except(length > 0, ArgValueError)  # a truth table should at least have one digit
+    true_except(is_power_of_two(length), ArgValueError)  # also for a constant
 
     if weight in [0, length] and not (skip_deflation and length > 1):  # if only 0s or only 1s
         self.set_constant(bool(weight))  # tautology if weight not 0
-- 
2.43.0


From a1398c27d40aa574ccd68bef65a0cbafc32c28dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:53 +0000
Subject: [PATCH 42/49] fix: reject arities of Boolf that are no natural
 numbers

---
 discretehelpers/boolf/subinit_methods/fs/__init__.py | 5 +++--
 discretehelpers/boolf/subinit_methods/tt/__init__.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/discretehelpers/boolf/subinit_methods/fs/__init__.py b/discretehelpers/boolf/subinit_methods/fs/__init__.py
index 2a26634..f8d50fe 100644
--- a/discretehelpers/boolf/subinit_methods/fs/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/fs/__init__.py
@@ -1,6 +1,6 @@
-from discretehelpers.a import have, true_except, subinit_bouncer
+from discretehelpers.a import have, true_except, subinit_bouncer, is_natural
 
-from discretehelpers.ex import ArgMismatchError, ArgComboError
+from discretehelpers.ex import ArgMismatchError, ArgComboError, ArgValueError
 
 
 def _subinit_fullspots(self):
@@ -15,6 +15,7 @@ def _subinit_fullspots(self):
     true_except(int(have(atomvals)) + int(have(arity)) == 1, ArgComboError)
 
     if not have(atomvals):
+        true_except(is_natural(arity), ArgValueError)
         atomvals = list(range(arity))
 
     if set(atomvals) == set():  # constant
diff --git a/discretehelpers/boolf/subinit_methods/tt/__init__.py b/discretehelpers/boolf/subinit_methods/tt/__init__.py
index 442a92a..98c7c66 100644
--- a/discretehelpers/boolf/subinit_methods/tt/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/tt/__init__.py
@@ -1,4 +1,4 @@
-from discretehelpers.a import have, true_except, subinit_bouncer, type_clean_int, is_power_of_two
+from discretehelpers.a import have, true_except, subinit_bouncer, type_clean_int, is_natural, is_power_of_two
 
 from discretehelpers.boolf.a import reorder_if_atomvals_not_asc
 from discretehelpers.boolf.ex import AtomvalsNotUniqueError, SarityVectorMismatchError, AtomvalNegativeError
@@ -30,6 +30,7 @@ def _subinit_truth_table(self):
         binv = Binv(tt)
     else:
         intval = type_clean_int(tt)
+        true_except(is_natural(arity), ArgValueError)
         length = 1 << arity  # 2 ** arity
         binv = Binv(intval=intval, length=length)
 
-- 
2.43.0


From aa28b8e606a5c29dcf36998086f3b0394dc84c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:53 +0000
Subject: [PATCH 43/49] fix: reject atomvals of Boolf that are no integers

---
 discretehelpers/boolf/subinit_methods/tt/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/boolf/subinit_methods/tt/__init__.py b/discretehelpers/boolf/subinit_methods/tt/__init__.py
index 98c7c66..ef98301 100644
--- a/discretehelpers/boolf/subinit_methods/tt/__init__.py
+++ b/discretehelpers/boolf/subinit_methods/tt/__init__.py
@@ -1,4 +1,4 @@
-from discretehelpers.a import have, true_except, subinit_bouncer, type_clean_int, is_natural, is_power_of_two
+from discretehelpers.a import have, true_except, subinit_bouncer, type_clean_int, is_natural, is_power_of_two, type_like_int
 
 from discretehelpers.boolf.a import reorder_if_atomvals_not_asc
 from discretehelpers.boolf.ex import AtomvalsNotUniqueError, SarityVectorMismatchError, AtomvalNegativeError
@@ -39,6 +39,7 @@ def _subinit_truth_table(self):
 
     if have(atomvals):
         valency = len(atomvals)
+        true_except(all(type_like_int(_) for _ in atomvals), ArgTypeError)
         true_except(len(set(atomvals)) == valency, AtomvalsNotUniqueError)
         true_except(all(_ >= 0 for _ in atomvals), AtomvalNegativeError)
         true_except(length == 2 ** valency, SarityVectorMismatchError)
-- 
2.43.0


From 61b47452f2d6d69d044e44b8b01ccb7ef8a3f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:53 +0000
Subject: [PATCH 44/49] fix: reject fractions and objects that are no numbers
 as entries of Binv

---
 discretehelpers/binv/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/binv/__init__.py b/discretehelpers/binv/__init__.py
index f752416..921828d 100644
--- a/discretehelpers/binv/__init__.py
+++ b/discretehelpers/binv/__init__.py
@@ -40,8 +40,9 @@ class Binv(object):
 
             if not trust:
                 for e in vector:
-                    try_except(lambda: int(e), do_raise=VectorEntryError, if_raised=ValueError)
+                    try_except(lambda: int(e), do_raise=VectorEntryError, if_raised=(ValueError, TypeError))
                     true_except(int(e) in [0, 1], VectorEntryError)
+                    true_except(type(e) == str or e == int(e), VectorEntryError)  # no fractions
 
         elif case_intval:
 
-- 
2.43.0


From 9215294214568eade4fb8c96420ffb1147536e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:53 +0000
Subject: [PATCH 45/49] fix: reject entries of Perm that are no numbers with
 its own exceptions

---
 discretehelpers/perm/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discretehelpers/perm/__init__.py b/discretehelpers/perm/__init__.py
index 17c4190..f8b89dc 100644
--- a/discretehelpers/perm/__init__.py
+++ b/discretehelpers/perm/__init__.py
@@ -25,6 +25,7 @@ class Perm(object):
         if arg and type(arg) in [list, tuple]:  # if non-empty list or tuple
             element_type = type(arg[0])
             if element_type == int:  # `arg` is sequence, i.e. lower line of two-line notation
+                true_except(all(is_natural(e) for e in arg), SequenceError)
                 true_except(sorted(arg) == list(range(len(arg))), SequenceError)
                 for key, val in enumerate(arg):
                     if key != val:
@@ -44,6 +45,7 @@ class Perm(object):
                 raise ArgTypeError
         elif type(arg) == dict:
             true_except(all(is_natural(e) for e in arg.keys()), DictError)
+            true_except(all(is_natural(e) for e in arg.values()), DictError)
             true_except(sorted(arg.keys()) == sorted(arg.values()), DictError)
             for key, val in arg.items():
                 if key != val:
-- 
2.43.0


From 2cb73801fe0d831d65c6e7864e874babc71703fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:53 +0000
Subject: [PATCH 46/49] fix: reject contradictory arguments of SigPerm

---
 discretehelpers/sig_perm/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/discretehelpers/sig_perm/__init__.py b/discretehelpers/sig_perm/__init__.py
index bc2de7a..c41eb0a 100644
--- a/discretehelpers/sig_perm/__init__.py
+++ b/discretehelpers/sig_perm/__init__.py
@@ -28,6 +28,11 @@ class SigPerm(Perm):
             sequence, matrix, schoute_perm
         ]
 
+        if have(sequence) or have(matrix) or have(schoute_perm):
+            true_except(sum(have(_) for _ in all_args) == 1, ArgComboError)
+        true_except(sum(have(_) for _ in [valneg, valneg_index, keyneg, keyneg_index]) <= 1, ArgComboError)
+        true_except(sum(have(_) for _ in [perm, perm_index]) <= 1, ArgComboError)
+
         if have(keyneg):
             if type(keyneg) in [list, tuple, str]:
                 keyneg = Binv(keyneg)
-- 
2.43.0


From c6d968f48358bafa9a312ad2bfdd27514e9ea490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:53 +0000
Subject: [PATCH 47/49] fix: reject matrices of SigPerm that are no signed
 permutation matrices

---
 discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py b/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
index 9dbecf3..e6d0ea8 100644
--- a/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
+++ b/discretehelpers/sig_perm/a/matrix_to_sequence/__init__.py
@@ -19,5 +19,8 @@ def matrix_to_sequence(matrix, inverse=False):
                 sequence.append(m)
             elif mat[m, n] == -1:
                 sequence.append(~m)
+            else:
+                true_except(mat[m, n] == 0, ValueError)
+        true_except(len(sequence) == n + 1, ValueError)  # one entry in each column
 
     return sequence
-- 
2.43.0


From 795b6e6ea38df28824ec1928031677780ba28512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:53 +0000
Subject: [PATCH 48/49] fix: reject matrices of WalshPerm that shrink to a
 single wrong entry

---
 discretehelpers/walsh_perm/a/shrink_matrix/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py b/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
index c784e96..b8e8689 100644
--- a/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
+++ b/discretehelpers/walsh_perm/a/shrink_matrix/__init__.py
@@ -3,6 +3,7 @@ import numpy as np
 from discretehelpers.a import true_except
 from discretehelpers.perm.ex import IsNeutralFail
 
+from ...ex import InvalidMatrixError
 from .ex import *
 
 
@@ -10,6 +11,7 @@ def shrink_matrix(matrix):
 
     matrix = np.array(matrix, dtype=int)  # should be redundant
 
+    true_except(matrix.size != 1 or matrix.max() == 1, InvalidMatrixError)
     true_except(matrix.size > 1, IsNeutralFail)
     true_except(matrix.shape[0] == matrix.shape[1], NotSquareError)
 
@@ -17,6 +19,7 @@ def shrink_matrix(matrix):
 
     while True:
         if degree < 2:
+            true_except(matrix[0, 0] == 1, InvalidMatrixError)
             raise IsNeutralFail
 
         last = degree - 1
-- 
2.43.0


From fb14d4abff8145fc6a2231208abf6daa9f054b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:46:53 +0000
Subject: [PATCH 49/49] fix: reject elements outside the domain in SetPartComp

---
 discretehelpers/set_part_comp/__init__.py                   | 4 +++-
 discretehelpers/set_part_comp/methods/set_comp/__init__.py  | 2 ++
 discretehelpers/set_part_comp/methods/set_equal/__init__.py | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/discretehelpers/set_part_comp/__init__.py b/discretehelpers/set_part_comp/__init__.py
index 99786a1..a5b2825 100644
--- a/discretehelpers/set_part_comp/__init__.py
+++ b/discretehelpers/set_part_comp/__init__.py
@@ -1,7 +1,8 @@
-from discretehelpers.a import have
+from discretehelpers.a import have, true_except
 from discretehelpers.ex import ArgTypeError
 
 from discretehelpers.set_part import SetPart
+from discretehelpers.set_part.ex import NotInDomainError
 
 from .helpers import _exposet, _representatives, _other_element_in_pair, _pair
 from .ex import *
@@ -26,6 +27,7 @@ class SetPartComp():
         if have(comp_pairs):
             canonical_comp_pairs = set()
             for a, b in comp_pairs:
+                true_except(self.equal_part.element_in_domain(a) and self.equal_part.element_in_domain(b), NotInDomainError)
                 canonical_a = min(self.equal_part.element_to_block(a))
                 canonical_b = min(self.equal_part.element_to_block(b))
                 canonical_pair = tuple(sorted([canonical_a, canonical_b]))
diff --git a/discretehelpers/set_part_comp/methods/set_comp/__init__.py b/discretehelpers/set_part_comp/methods/set_comp/__init__.py
index 487c932..63ca476 100644
--- a/discretehelpers/set_part_comp/methods/set_comp/__init__.py
+++ b/discretehelpers/set_part_comp/methods/set_comp/__init__.py
@@ -1,10 +1,12 @@
 from discretehelpers.a import true_except, have
+from discretehelpers.set_part.ex import NotInDomainError
 
 from ...helpers import _representative, _representatives, _merged_part, _pair
 from ...ex import *
 
 
 def set_comp(self, a, b):
+    true_except(self.equal_part.element_in_domain(a) and self.equal_part.element_in_domain(b), NotInDomainError)
     true_except(not self.are_equal(a, b), SetCompEqualsError)
     if self.are_comp(a, b):
         return  # nothing to do
diff --git a/discretehelpers/set_part_comp/methods/set_equal/__init__.py b/discretehelpers/set_part_comp/methods/set_equal/__init__.py
index b7dc306..8a2d2c7 100644
--- a/discretehelpers/set_part_comp/methods/set_equal/__init__.py
+++ b/discretehelpers/set_part_comp/methods/set_equal/__init__.py
@@ -1,10 +1,12 @@
 from discretehelpers.a import true_except, have
+from discretehelpers.set_part.ex import NotInDomainError
 
 from ...helpers import _representative, _representatives, _merged_part, _pair
 from ...ex import *
 
 
 def set_equal(self, a, b):
+    true_except(self.equal_part.element_in_domain(a) and self.equal_part.element_in_domain(b), NotInDomainError)
     true_except(not self.are_comp(a, b), SetEqualComplementsError)
     if self.are_equal(a, b):
         return  # nothing to do
-- 
2.43.0

