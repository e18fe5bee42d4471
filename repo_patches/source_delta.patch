From f385a0472e8a665fcf9e133ede3ad6a86a59c8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 01/28] fix: compare segmentations that contain no boundaries
 instead of failing on an empty type set

---
 segeval/similarity/distance/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segeval/similarity/distance/__init__.py b/segeval/similarity/distance/__init__.py
index e85f478..d2c6d28 100644
--- a/segeval/similarity/distance/__init__.py
+++ b/segeval/similarity/distance/__init__.py
@@ -15,4 +15,6 @@ def identify_types(string_a, string_b):
         for position in string:
             for boundary_type in position:
                 boundary_types.add(boundary_type)
-    return frozenset(boundary_types)
+    # Segmentations without any boundaries still have potential boundaries of
+    # the default type
+    return frozenset(boundary_types) if boundary_types else frozenset([1])
-- 
2.43.0


From 0139120d63a2f0f656e43d64446e5d44e00d440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 02/28] fix: count each potential boundary once per type in
 segmentation similarity

---
 segeval/similarity/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index b68a23a..f0da283 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -23,7 +23,7 @@ def __segmentation_similarity__(*args, **kwargs):
     # Compute
     statistics = __boundary_statistics__(*args, **metric_kwargs)
     # Process
-    pbs = statistics['pbs'] * len(statistics['boundary_types'])
+    pbs = statistics['pbs']
     # Fraction
     denominator = pbs
     numerator = pbs - statistics['count_edits']
-- 
2.43.0


From b82db43dd548a4d9c5d83bc016588860d5f59d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 03/28] fix: compute B and S as Decimal so that one_minus works
 with unscaled weights

---
 segeval/similarity/boundary.py     | 2 +-
 segeval/similarity/segmentation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/similarity/boundary.py b/segeval/similarity/boundary.py
index 9d7b4ef..207eee7 100644
--- a/segeval/similarity/boundary.py
+++ b/segeval/similarity/boundary.py
@@ -29,7 +29,7 @@ def __boundary_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator, additions, substitutions, transpositions
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index f0da283..8dbe6ee 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -30,7 +30,7 @@ def __segmentation_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
-- 
2.43.0


From 2513b6f48d6998d6d0847866e3352425878a7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 04/28] fix: compare position labels by equality, not identity,
 in the window metrics

---
 segeval/window/pk.py         | 4 ++--
 segeval/window/windowdiff.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/segeval/window/pk.py b/segeval/window/pk.py
index d5d0ca5..d19539d 100644
--- a/segeval/window/pk.py
+++ b/segeval/window/pk.py
@@ -46,8 +46,8 @@ def __pk__(hypothesis, reference, window_size, one_minus, boundary_format,
         window_ref = reference[i:i + window_size + 1]
         window_hyp = hypothesis[i:i + window_size + 1]
         # Probe agreement
-        agree_ref = window_ref[0] is window_ref[-1]
-        agree_hyp = window_hyp[0] is window_hyp[-1]
+        agree_ref = window_ref[0] == window_ref[-1]
+        agree_hyp = window_hyp[0] == window_hyp[-1]
         # If the windows agreements agree
         if agree_ref is not agree_hyp:
             sum_differences += 1
diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 35f8195..8077515 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -112,10 +112,10 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
         for j in range(0, len(window) - 1):
             ref_part, hyp_part = zip(*window[j:j + 2])
             # Boundary exists in the reference segmentation
-            if ref_part[0] is not ref_part[1]:
+            if ref_part[0] != ref_part[1]:
                 ref_boundaries += 1
             # Boundary exists in the hypothesis segmentation
-            if hyp_part[0] is not hyp_part[1]:
+            if hyp_part[0] != hyp_part[1]:
                 hyp_boundaries += 1
         # If the number of boundaries per segmentation in the window differs
         if ref_boundaries is not hyp_boundaries:
-- 
2.43.0


From 95ffd9e84b31ec3f46fdac48eda313c92fce9d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 05/28] fix: allow any sequence and any position labels with
 the Lamprier et al. fix

---
 segeval/window/windowdiff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 8077515..678bf41 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -32,9 +32,9 @@ def __create_paired_window__(hypothesis, reference, window_size,
     else:
         phantom_size = window_size
         phantom_size = 1 if phantom_size <= 0 else phantom_size
-        phantom = tuple([0] * phantom_size)
-        units_ref_hyp = zip(phantom + reference + phantom,
-                            phantom + hypothesis + phantom)
+        phantom = tuple([None] * phantom_size)
+        units_ref_hyp = zip(phantom + tuple(reference) + phantom,
+                            phantom + tuple(hypothesis) + phantom)
     return list(units_ref_hyp), phantom_size
 
 
-- 
2.43.0


From 373254d7722b08e6405b1a4ba1831beec91c689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 06/28] fix: WindowDiff of a text no longer than the window is
 0, as for Pk, instead of 0 / 0

---
 segeval/window/windowdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 678bf41..827424b 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -125,7 +125,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
     denominator = n - window_size
     if lamprier_et_al_2007_fix:
         denominator = measurements + 1
-    win_diff = Decimal(sum_differences) / denominator
+    win_diff = Decimal(sum_differences) / denominator if measurements > 0 else 0
     # Check normalization
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
-- 
2.43.0


From 53aa83997e3c1db9ccf0fecd44a0c436e926dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 07/28] fix: WindowDiff returns its parts when asked to, also
 with one_minus

---
 segeval/window/windowdiff.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 827424b..a42375d 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -130,13 +130,13 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
     assert win_diff <= 1
-    if not one_minus:
-        if return_parts:
-            return sum_differences, denominator
+    if return_parts:
+        return sum_differences, denominator
+    else:
+        if one_minus:
+            return Decimal('1.0') - win_diff
         else:
             return win_diff
-    else:
-        return Decimal('1.0') - win_diff
 
 
 def window_diff(*args, **kwargs):
-- 
2.43.0


From 1c93678639decca4297e0cf8b0e861e63053aa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 08/28] fix: register the coders of datasets that are loaded
 from JSON and TSV files

---
 segeval/data/jsonutils.py | 1 +
 segeval/data/tsv.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 3d79b0c..d5b5787 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -84,6 +84,7 @@ def input_linear_mass_json(filepath):
             dataset[item] = dict()
             for coder, masses in coder_masses.items():
                 dataset[item][coder] = tuple(masses)
+                dataset.coders.add(coder)
         # Remove from properties
         del dataset.properties[Field.items]
     else:
diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 5ebdcaf..944687d 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -44,6 +44,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     # Skip the first col
                     if j is 0:
                         coder = str(col)
+                        dataset.coders.add(coder)
                         dataset[item][coder] = list()
                     else:
                         dataset[item][coder].append(int(col))
-- 
2.43.0


From 2256a11fbeb4b271facfb6e0c04488909772c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 09/28] fix: agreement covers the coders a dataset holds, also
 those assigned directly

---
 segeval/data/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 65b8ec1..2be96ba 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -100,13 +100,10 @@ class Dataset(defaultdict):
 
 
 def get_coders(container):
-    if isinstance(container, Dataset):
-        return container.coders
-    else:
-        coders = set()
-        for value in container.values():
-            coders = coders.union(value.keys())
-        return coders
+    coders = set()
+    for value in container.values():
+        coders = coders.union(value.keys())
+    return coders
 
 
 def name_from_filepath(filepath):
-- 
2.43.0


From 7364ac1b71b0f4d45af40deaa49b75be5ccd7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 10/28] fix: load every data file of a folder, also those that
 differ only in extension

---
 segeval/data/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 2be96ba..09c79c7 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -155,7 +155,7 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
     fnc_load = FILETYPES[filetype][FNC]
     datafile_found = False
     # List of entries
-    files = dict()
+    files = list()
     dirs = dict()
     # For each filesystem item
     for name in os.listdir(containing_dir):
@@ -167,12 +167,12 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
         else:
             name, ext = os.path.splitext(name)
             if len(ext) > 0 and ext.lower() in allowable_extensions:
-                files[name] = path
+                files.append(path)
                 datafile_found = True
     # If a data file was found
     if datafile_found:
         # If TSV files were found, load
-        for name, filepath in files.items():
+        for filepath in files:
             other = fnc_load(filepath)
             dataset.__iadd__(other, prepend_item=prepend_item)
     # If only dirs were found, recurse
-- 
2.43.0


From 04837f1a6f048f2906ce8c6381bf17b86194de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 11/28] fix: ignore blank lines in TSV files

---
 segeval/data/tsv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 944687d..378cd17 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -37,8 +37,8 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
             if i is 0:
                 for col_name in row[1:]:
                     header.append(col_name)
-            # Read data
-            else:
+            # Read data (blank lines contain none)
+            elif len(row) > 0:
                 coder = None
                 for j, col in enumerate(row):
                     # Skip the first col
-- 
2.43.0


From 6f0d213fbf92079415c36f6320508caa8b9820be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 12/28] fix: precision and recall of a class whose correct
 count is a zero Decimal or float

---
 segeval/ml/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index a1cb2f7..878578a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -70,7 +70,7 @@ def __precision__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
@@ -86,7 +86,7 @@ def __recall__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
-- 
2.43.0


From f4de83489c7afa0bca56c9d8be6ccedc12c6b9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 13/28] fix: computing precision, recall and F-measure leaves
 the confusion matrix unchanged

---
 segeval/ml/__init__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 878578a..1c07489 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -60,13 +60,22 @@ def __value_micro_macro__(fnc, arguments, classification=None,
         return values
 
 
+def __count__(matrix, predicted, actual):
+    '''
+    Read a cell of a confusion matrix without storing a default value in it.
+    '''
+    if predicted in matrix and actual in matrix[predicted]:
+        return matrix[predicted][actual]
+    return 0
+
+
 def __precision__(matrix, classification, return_parts=False):
 
     predicted = classification
     denominator = 0
     for actual in matrix.classes():
-        denominator += matrix[predicted][actual]
-    numerator = matrix[classification][classification]
+        denominator += __count__(matrix, predicted, actual)
+    numerator = __count__(matrix, classification, classification)
     if return_parts:
         return numerator, denominator
     else:
@@ -81,8 +90,8 @@ def __recall__(matrix, classification, return_parts=False):
     actual = classification
     denominator = 0
     for predicted in matrix.classes():
-        denominator += matrix[predicted][actual]
-    numerator = matrix[classification][classification]
+        denominator += __count__(matrix, predicted, actual)
+    numerator = __count__(matrix, classification, classification)
     if return_parts:
         return numerator, denominator
     else:
-- 
2.43.0


From bbbf1ed54a813376d545911dbaad64e22e1d862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 14/28] fix: compute the window size of each segmentation in a
 dataset of positions

---
 segeval/window/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/window/__init__.py b/segeval/window/__init__.py
index be26b63..85009bb 100644
--- a/segeval/window/__init__.py
+++ b/segeval/window/__init__.py
@@ -41,12 +41,12 @@ def __compute_window_size__(reference, fnc_round, boundary_format):
             for cur_inner_coder_masses in inner_coder_masses.values():
                 __list_coder_masses__(cur_inner_coder_masses)
         elif hasattr(inner_coder_masses, '__iter__') and not isinstance(inner_coder_masses, str):
+            if boundary_format == BoundaryFormat.position:
+                inner_coder_masses = convert_positions_to_masses(inner_coder_masses)
             all_masses.extend(inner_coder_masses)
         else:
             raise SegmentationMetricError('Expected either a dict-like \
 collection of segmentations or a segmentation as a list-like object')
-    if boundary_format == BoundaryFormat.position:
-        reference = convert_positions_to_masses(reference)
     # Recurse and list all masses
     __list_coder_masses__(reference)
     # Convert to floats
-- 
2.43.0


From 7997f70c290445c87ef6f4a57ecc948483d34453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 15/28] fix: actual agreement honours one_minus and is a
 Decimal for any weights

---
 segeval/agreement/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/segeval/agreement/__init__.py b/segeval/agreement/__init__.py
index e120173..a023433 100644
--- a/segeval/agreement/__init__.py
+++ b/segeval/agreement/__init__.py
@@ -4,6 +4,7 @@ Inter-coder agreement statistics.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import, division
+from decimal import Decimal
 from segeval.data import get_coders
 from segeval.similarity import SIMILARITY_METRIC_DEFAULTS
 from segeval.similarity.boundary import boundary_similarity
@@ -139,6 +140,7 @@ def __actual_agreement_linear__(dataset, **kwargs):
     # Arguments
     fnc_compare = kwargs['fnc_compare']
     return_parts = kwargs['return_parts']
+    one_minus = kwargs['one_minus']
     # Initialize
     all_numerators = list()
     all_denominators = list()
@@ -172,7 +174,11 @@ def __actual_agreement_linear__(dataset, **kwargs):
     if return_parts:
         return all_numerators, all_denominators, all_pbs, coders_boundaries
     else:
-        return sum(all_numerators) / sum(all_denominators)
+        value = Decimal(sum(all_numerators)) / sum(all_denominators)
+        if one_minus:
+            return Decimal('1') - value
+        else:
+            return value
 
 
 def actual_agreement_linear(dataset, **kwargs):
-- 
2.43.0


From ffa31f9430f1d89e47313124ba3b6f2b7af3963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:34 +0000
Subject: [PATCH 16/28] fix: the classes of a confusion matrix follow every
 change made to it

---
 segeval/ml/__init__.py | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 1c07489..a62d4e1 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -196,31 +196,12 @@ def fmeasure(matrix, classification=None, beta=Decimal('1.0'),
     return __value_micro_macro__(__fmeasure__, arguments, classification, version)
 
 
-class _InnerConfusionMatrix(defaultdict):
-
-    '''
-    Inner dict of the confusion matrix; used to determine when the classes list
-    is dirty.
-    '''
-
-    def __init__(self, parent):
-        self.__parent__ = parent
-        defaultdict.__init__(self, int)
-
-    def __setitem__(self, key, value):
-        self.__parent__.__dirty_classes__ = True
-        defaultdict.__setitem__(self, key, value)
-
-
 class ConfusionMatrix(dict):
 
     '''
     A :func:`dict`-like representation of a confusion matrix offering some automation.
     To access/store values, use: ``matrix[predicted][actual]``.
     '''
-    __classes__ = set()
-    __dirty_classes__ = False
-
     def __setitem__(self, key, value):
         raise AttributeError('no such method')
 
@@ -241,7 +222,7 @@ class ConfusionMatrix(dict):
         '''
         value = None
         if key not in self:
-            value = _InnerConfusionMatrix(self)
+            value = defaultdict(int)
             dict.__setitem__(self, key, value)
         else:
             value = dict.__getitem__(self, key)
@@ -251,11 +232,9 @@ class ConfusionMatrix(dict):
         '''
         Retrieve the set of all classes.
         '''
-        if self.__dirty_classes__:
-            self.__classes__ = set()
-            for predicted, values in self.items():
-                self.__classes__.add(predicted)
-                for actual in values.keys():
-                    self.__classes__.add(actual)
-            self.__dirty_classes__ = False
-        return self.__classes__
+        classes = set()
+        for predicted, values in self.items():
+            classes.add(predicted)
+            for actual in values.keys():
+                classes.add(actual)
+        return classes
-- 
2.43.0


From 102399d0ee14a598a007abfd112568014978c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:48 +0000
Subject: [PATCH 17/28] fix: agreement coefficients and bias honour the
 documented one_minus option

---
 segeval/agreement/bias.py  | 3 +++
 segeval/agreement/kappa.py | 2 ++
 segeval/agreement/pi.py    | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/segeval/agreement/bias.py b/segeval/agreement/bias.py
index 6f77901..4c574d6 100644
--- a/segeval/agreement/bias.py
+++ b/segeval/agreement/bias.py
@@ -4,6 +4,7 @@ Arstein Poesio's annotator bias [ArtsteinPoesio2008]_.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import
+from decimal import Decimal
 from segeval.agreement import __fnc_metric__
 from segeval.agreement.kappa import __fleiss_kappa_linear__
 from segeval.agreement.pi import __fleiss_pi_linear__
@@ -24,6 +25,8 @@ def __artstein_poesio_bias_linear__(dataset, **kwargs):
     # Return
     if return_parts:
         return A_pi_e, A_fleiss_e
+    elif kwargs['one_minus']:
+        return Decimal('1') - bias
     else:
         return bias
 
diff --git a/segeval/agreement/kappa.py b/segeval/agreement/kappa.py
index fd1f858..1e642da 100644
--- a/segeval/agreement/kappa.py
+++ b/segeval/agreement/kappa.py
@@ -52,6 +52,8 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
     # Return
     if return_parts:
         return A_a, A_e
+    elif kwargs['one_minus']:
+        return Decimal('1') - kappa
     else:
         return kappa
 
diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index 791b31b..f1d718c 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -42,6 +42,8 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     # Return
     if return_parts:
         return A_a, A_e
+    elif kwargs['one_minus']:
+        return Decimal('1') - pi
     else:
         return pi
 
-- 
2.43.0


From f9e7dfa341c56a0128b332a75697fd224fb3b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:08 +0000
Subject: [PATCH 18/28] fix: coders who all place no boundaries agree, as two
 such segmentations do for B

---
 segeval/agreement/__init__.py | 3 ++-
 segeval/agreement/kappa.py    | 3 ++-
 segeval/agreement/pi.py       | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/segeval/agreement/__init__.py b/segeval/agreement/__init__.py
index a023433..ff0d3ee 100644
--- a/segeval/agreement/__init__.py
+++ b/segeval/agreement/__init__.py
@@ -174,7 +174,8 @@ def __actual_agreement_linear__(dataset, **kwargs):
     if return_parts:
         return all_numerators, all_denominators, all_pbs, coders_boundaries
     else:
-        value = Decimal(sum(all_numerators)) / sum(all_denominators)
+        value = Decimal(sum(all_numerators)) / sum(all_denominators) \
+            if sum(all_denominators) > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
diff --git a/segeval/agreement/kappa.py b/segeval/agreement/kappa.py
index 1e642da..48a2033 100644
--- a/segeval/agreement/kappa.py
+++ b/segeval/agreement/kappa.py
@@ -29,7 +29,8 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
     all_numerators, all_denominators, _, coders_boundaries = \
         __actual_agreement_linear__(dataset, **metric_kwargs)
     # Calculate Aa
-    A_a = Decimal(sum(all_numerators)) / sum(all_denominators)
+    A_a = Decimal(sum(all_numerators)) / sum(all_denominators) \
+        if sum(all_denominators) > 0 else Decimal('1')
     # Calculate Ae
     coders = list(coders_boundaries.keys())
     P_segs = list()
diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index f1d718c..efc7554 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -26,7 +26,8 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     all_numerators, all_denominators, _, coders_boundaries = \
         __actual_agreement_linear__(dataset, **metric_kwargs)
     # Calculate Aa
-    A_a = Decimal(sum(all_numerators)) / sum(all_denominators)
+    A_a = Decimal(sum(all_numerators)) / sum(all_denominators) \
+        if sum(all_denominators) > 0 else Decimal('1')
     # Calculate Ae
     p_e_segs = list()
     for boundaries_info in coders_boundaries.values():
-- 
2.43.0


From b01130e4efa8ec5f1d177ffa02697422d16f12ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:19 +0000
Subject: [PATCH 19/28] fix: reject a lone segmentation and a mix of dataset
 and segmentation with the metric error

---
 segeval/util/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 12efe7d..72a267a 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -59,6 +59,11 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
         hypothesis = (hypothesis, )
     if isinstance(reference, int):
         reference = (reference, )
+    # Check for arguments that cannot be compared
+    if dataset and not hasattr(dataset, 'boundary_format'):
+        raise SegmentationMetricError('Expected a dataset or two segmentations; obtained {0}'.format(type(dataset)))
+    if isinstance(hypothesis, Dataset) != isinstance(reference, Dataset):
+        raise SegmentationMetricError('Expected either two datasets or two segmentations; obtained {0} and {1}'.format(type(hypothesis), type(reference)))
     # Compute
     if dataset:
         # Compute pairwise values over all coders in a dataset
-- 
2.43.0


From 6f443803e29aa84575dbd4efc499b347a95105ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:19 +0000
Subject: [PATCH 20/28] fix: reject JSON files that do not hold an object with
 the data error

---
 segeval/data/jsonutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index d5b5787..ebbf1ac 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -67,7 +67,7 @@ def input_linear_mass_json(filepath):
         raise DataIOError(
             'Error occurred processing file: ' + filepath, exception)
     # Check type
-    if Field.segmentation_type in data:
+    if isinstance(data, dict) and Field.segmentation_type in data:
         if data[Field.segmentation_type] != SegmentationType.linear:
             raise DataIOError('Segmentation type \'{0}\' expected, but encountered \'{1}\' for file: {2}'
                               .format(SegmentationType.linear, data[Field.segmentation_type], filepath))
-- 
2.43.0


From 0165e732955b3a54fba81077edc3976aaf186d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:30 +0000
Subject: [PATCH 21/28] fix: keep padding of the Lamprier et al. fix apart from
 a segment labelled None

---
 segeval/window/windowdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index a42375d..9cb078d 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -32,7 +32,7 @@ def __create_paired_window__(hypothesis, reference, window_size,
     else:
         phantom_size = window_size
         phantom_size = 1 if phantom_size <= 0 else phantom_size
-        phantom = tuple([None] * phantom_size)
+        phantom = tuple([object()] * phantom_size)
         units_ref_hyp = zip(phantom + tuple(reference) + phantom,
                             phantom + tuple(hypothesis) + phantom)
     return list(units_ref_hyp), phantom_size
-- 
2.43.0


From 427d16dc33f50d0c54aeb12da947b25b966fe250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:30 +0000
Subject: [PATCH 22/28] fix: compare boundary formats of two datasets by value

---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 72a267a..e7a2dc5 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -75,7 +75,7 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
         if isinstance(hypothesis, Dataset) and isinstance(reference, Dataset):
             # Compare pairwise values between coders paired from two datasets
             metric_kwargs['boundary_format'] = hypothesis.boundary_format
-            if hypothesis.boundary_format is not reference.boundary_format:
+            if hypothesis.boundary_format != reference.boundary_format:
                 raise SegmentationMetricError(
                     'Datasets contain differing boundary formats; {0} != {1}'
                     .format(hypothesis.boundary_format, reference.boundary_format))
-- 
2.43.0


From f5e9a0e83055cdcc5971fe7f296d13a892d63057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:33 +0000
Subject: [PATCH 23/28] fix: compare window counts and boundary types by value

---
 segeval/similarity/distance/multipleboundary.py | 4 ++--
 segeval/window/windowdiff.py                    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/segeval/similarity/distance/multipleboundary.py b/segeval/similarity/distance/multipleboundary.py
index 2ed4ba7..a165f96 100644
--- a/segeval/similarity/distance/multipleboundary.py
+++ b/segeval/similarity/distance/multipleboundary.py
@@ -69,7 +69,7 @@ def __additions_substitutions_sets__(d, a, b):
     # Add from b
     for addition in b - set(substituted):
         added.append(Addition(addition, 'b'))
-    assert len(added) is len(additions)
+    assert len(added) == len(additions)
     return added, set([Substitution(a_i, b_i) for a_i, b_i in set(substitutions)])
 
 
@@ -103,7 +103,7 @@ def __overlaps_existing__(i, j, d, options_transp):
         if position in options_transp:
             for t in options_transp[position]:
                 # If the transposition 't' is of the boundary type 'd'
-                if t[2] is d:
+                if t[2] == d:
                     return True
     return check_position(i) or check_position(j)
 
diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 9cb078d..54a8d33 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -107,7 +107,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
         ref_boundaries = 0
         hyp_boundaries = 0
         # Check that the number of loops is correct
-        assert len(window) is window_size + 1
+        assert len(window) == window_size + 1
         # For pair in window
         for j in range(0, len(window) - 1):
             ref_part, hyp_part = zip(*window[j:j + 2])
@@ -118,7 +118,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
             if hyp_part[0] != hyp_part[1]:
                 hyp_boundaries += 1
         # If the number of boundaries per segmentation in the window differs
-        if ref_boundaries is not hyp_boundaries:
+        if ref_boundaries != hyp_boundaries:
             sum_differences += 1
     # Perform final division
     n = sum(convert_positions_to_masses(reference))
-- 
2.43.0


From 739d4dd8169610edc39392e6ffa530e4894d9c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:08 +0000
Subject: [PATCH 24/28] fix: summarize can be the first name of the package
 that is used

---
 segeval/util/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index e7a2dc5..b9dd170 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -4,7 +4,6 @@ Utility functions and classes for the package.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import
-from segeval.compute import compute_pairwise_values
 
 
 class SegmentationMetricError(Exception):
@@ -30,6 +29,8 @@ class SegmentationMetricError(Exception):
 
 def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
 
+    # Imported here because these modules import this one
+    from segeval.compute import compute_pairwise_values
     from segeval.data import Dataset
     # Create default keyword arguments
     metric_kwargs = dict(kw_defaults)
-- 
2.43.0


From 307d9c004cec2716f41d30e25cf40dcd40b5d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 25/28] fix: bias and the parts of pi and kappa do not need a
 defined coefficient

---
 segeval/agreement/kappa.py | 7 ++++---
 segeval/agreement/pi.py    | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/segeval/agreement/kappa.py b/segeval/agreement/kappa.py
index 48a2033..87384c6 100644
--- a/segeval/agreement/kappa.py
+++ b/segeval/agreement/kappa.py
@@ -48,12 +48,13 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
                           (Decimal(boundaries_n) / total_boundaries_n))
     P_seg = Decimal(sum(P_segs)) / len(P_segs)
     A_e = P_seg
+    # Return parts, which are defined even when the coefficient is not
+    if return_parts:
+        return A_a, A_e
     # Calculate pi
     kappa = (A_a - A_e) / (Decimal('1') - A_e)
     # Return
-    if return_parts:
-        return A_a, A_e
-    elif kwargs['one_minus']:
+    if kwargs['one_minus']:
         return Decimal('1') - kappa
     else:
         return kappa
diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index efc7554..7eb52ea 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -38,12 +38,13 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     # Calculate P_e_seg
     P_e_seg = Decimal(sum(p_e_segs)) / len(p_e_segs)
     A_e = (P_e_seg ** 2)
+    # Return parts, which are defined even when the coefficient is not
+    if return_parts:
+        return A_a, A_e
     # Calculate pi
     pi = (A_a - A_e) / (Decimal('1') - A_e)
     # Return
-    if return_parts:
-        return A_a, A_e
-    elif kwargs['one_minus']:
+    if kwargs['one_minus']:
         return Decimal('1') - pi
     else:
         return pi
-- 
2.43.0


From 1168995d278b38bcaf601151f0d5b16700f21bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 26/28] fix: close JSON files after loading them

---
 segeval/data/jsonutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index ebbf1ac..28438b4 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -66,6 +66,8 @@ def input_linear_mass_json(filepath):
     except Exception as exception:
         raise DataIOError(
             'Error occurred processing file: ' + filepath, exception)
+    finally:
+        json_file.close()
     # Check type
     if isinstance(data, dict) and Field.segmentation_type in data:
         if data[Field.segmentation_type] != SegmentationType.linear:
-- 
2.43.0


From 2ba03a72ff3838b0966e41379fef3bda59a810f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:46 +0000
Subject: [PATCH 27/28] fix: properties do not replace the codings when a
 dataset is written

---
 segeval/data/jsonutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 28438b4..30052fb 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -42,9 +42,9 @@ def output_linear_mass_json(filepath, dataset):
     :param filepath: Path to the mass file containing segment position codings.
     :type filepath: :func:`str`
     '''
-    data = {Field.segmentation_type: SegmentationType.linear}
+    data = dict(dataset.properties)
+    data[Field.segmentation_type] = SegmentationType.linear
     data[Field.items] = dataset
-    data.update(dataset.properties)
     __write_json__(filepath, data)
 
 
-- 
2.43.0


From f1c3d3fd54efb38af4f3a191d4c5b022f30a0433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:32 +0000
Subject: [PATCH 28/28] fix: micro averages of confusion matrices that count in
 floats

---
 segeval/ml/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index a62d4e1..d9e5ba8 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -32,7 +32,7 @@ def __value_micro_macro__(fnc, arguments, classification=None,
                 if numerator == 0:
                     return 0
                 else:
-                    return Decimal(numerator) / denominator
+                    return Decimal(numerator) / Decimal(denominator)
             elif version is Average.macro:
                 # Macro-average
                 values = list()
-- 
2.43.0

