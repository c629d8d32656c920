From e3e570745d49e3bb0b1f0d7315d5124559c64ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:14 +0000
Subject: [PATCH 01/44] fix: store triplets in a type wide enough for item
 indices

The type was fitted to the number of triplets, not to the indices that are
stored: item 200 of a task with a single triplet came out as -56.
---
 ABXpy/task.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 2760f7a..b311201 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -734,6 +734,9 @@ class Task(object):
 
         # fill output file with list of needed ABX triplets, it is done
         # independently for each 'by' value
+        # a triplet is made of three item indices, relative to its by block
+        max_index = max(np.max(db.index.values)
+                        for db in itervalues(self.by_dbs))
         with np2h5.NP2H5(h5file=output) as fh:
             # FIXME test if not fixed size impacts performance a lot
             out = fh.add_dataset(
@@ -741,7 +744,7 @@ class Task(object):
                 dataset='data',
                 n_rows=self.n_triplets,
                 n_columns=3,
-                item_type=fit_integer_type(self.total_n_triplets),
+                item_type=fit_integer_type(max_index),
                 fixed_size=False)
 
             out_block_index = fh.add_dataset(
@@ -749,7 +752,7 @@ class Task(object):
                 dataset='on_across_block_index',
                 n_rows=self.stats['nb_blocks'],
                 n_columns=1,
-                item_type=fit_integer_type(self.stats['nb_blocks']),
+                item_type=fit_integer_type(self.total_n_triplets),
                 fixed_size=False)
 
             empty_by_blocks = []
-- 
2.43.0


From a71784a0f400aab68cc768a9bed2f400a1916a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:14 +0000
Subject: [PATCH 02/44] fix: do not truncate the positions sampled in a
 thresholded block

Positions were drawn in the type fitted to the regressor combinations, so
that a block of more than 256 triplets gave duplicates or never ended.
---
 ABXpy/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index b311201..6f3d9ca 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1198,8 +1198,8 @@ def sort_and_threshold(permut, new_index, ind_type,
     i = 0
     for c in counts:
         if threshold and c > threshold:
-            sampled_idx = sampler.sample_without_replacement(
-                threshold, c, dtype=ind_type)
+            # ind_type fits the regressors, not the positions in the block
+            sampled_idx = sampler.sample_without_replacement(threshold, c)
             sampled_idx += i
             new_permut.append(permut[sampled_idx])
         else:
-- 
2.43.0


From 7f050cc174df5d2af9757d31c6e9dcbc9bc9f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:14 +0000
Subject: [PATCH 03/44] fix: sort the regressors on A like the triplets they
 describe

The permutation was applied to them only in presence of an ABX filter.
---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 6f3d9ca..fd6828e 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1142,7 +1142,7 @@ class Task(object):
                 regressors[name] = reg[iA]
                 if self.filters.ABX:
                     regressors[name] = regressors[name][ABX_filter_ind]
-                    regressors[name] = regressors[name][thr_sort_permut]
+                regressors[name] = regressors[name][thr_sort_permut]
 
         for names, regs in zip(self.regressors.B_names,
                                self.regressors.B_regressors):
-- 
2.43.0


From d04dc834d6821d402f61aa6108afc384efb9147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:14 +0000
Subject: [PATCH 04/44] fix: look up on/across/by values by label

Blocks contain labels of the by database, which are not positions any
more once a generic filter has removed items.
---
 ABXpy/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index fd6828e..9483cf9 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -412,7 +412,7 @@ class Task(object):
                     display.display()
 
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.iloc[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
 
                 # retrieve the on and across keys (as they are stored
                 # in the panda object)
@@ -821,7 +821,7 @@ class Task(object):
 
             # allow to get on, across, by values as well as values of
             # other variables that are determined by these
-            on_across_by_values = dict(db.iloc[block[0]])
+            on_across_by_values = dict(db.loc[block[0]])
             if self.filters.on_across_by_filter(on_across_by_values):
                 # instantiate on_across_by regressors here
                 self.regressors.set_on_across_by_regressors(
-- 
2.43.0


From ec14e6a79fe460fa045456019c8068c5219af15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:14 +0000
Subject: [PATCH 05/44] fix: ignore by blocks left empty by a generic filter

---
 ABXpy/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 9483cf9..c4d5948 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -315,6 +315,8 @@ class Task(object):
 
                 # apply generic filters
                 by_frame = self.filters.generic_filter(by_values, by_frame)
+                if not len(by_frame):
+                    continue
 
                 self.by_dbs[by_key] = by_frame
                 self.feat_dbs[by_key] = by_feat_db
-- 
2.43.0


From 125f319639a2bc7f9de4c74ea644e312dfc0d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:14 +0000
Subject: [PATCH 06/44] fix: make the number of levels computable again

DataFrame.ix does not exist any more, and B and X are labels, not
positions.
---
 ABXpy/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index c4d5948..66eb339 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1022,7 +1022,7 @@ class Task(object):
             for block_key, n_block in (
                     iteritems(self.by_stats[by]['on_across_levels'])):
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.ix[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
                 on, across = on_across_from_key(block_key)
 
                 if self.filters.on_across_by_filter(on_across_by_values):
@@ -1060,8 +1060,8 @@ class Task(object):
                         else:
                             grouping = self.on + self.across
 
-                        n_level_B = len(db.iloc[B].groupby(grouping).groups)
-                        n_level_X = len(db.iloc[X].groupby(grouping).groups)
+                        n_level_B = len(db.loc[B].groupby(grouping).groups)
+                        n_level_X = len(db.loc[X].groupby(grouping).groups)
                         n = n + n_level_B * n_level_X
 
             self.by_stats[by]['nb_levels'] = n
-- 
2.43.0


From 9fe0a8c664095776141d9cceb2c91c51c616096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:14 +0000
Subject: [PATCH 07/44] fix: keep items and their location aligned when items
 are dropped

---
 ABXpy/database/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index d18e232..63da0b5 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -63,6 +63,9 @@ def load(filename, features_info=False):
         dropped.to_csv(basename + '-removed' + ext)
         db = db[~ nanrows]
     feat_db = feat_db[~ nanrows]
+    # both are accessed by position from now on
+    db = db.reset_index(drop=True)
+    feat_db = feat_db.reset_index(drop=True)
     # not so verbose print('** Warning ** ' + len(nanrows) + ' items were
     # removed because of missing information. The removed items are listed in'
     # + basename + '-removed.item'
-- 
2.43.0


From 1cf7251716478609bb3a1d3544d8c4d0fc7b44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:14 +0000
Subject: [PATCH 08/44] fix: load auxiliary databases again

The recursive call missed an argument.
---
 ABXpy/database/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 63da0b5..37808a1 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -90,7 +90,7 @@ def load_aux_dbs(basename, db, cols, mainfile):
                         auxfile, auxdb.columns[0], col))
                 # call get_aux_dbs on child columns
                 auxdb, auxforest = load_aux_dbs(
-                    basename, auxdb, auxdb.columns[1:])
+                    basename, auxdb, auxdb.columns[1:], mainfile)
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
                 # merging the databases
-- 
2.43.0


From b969d5fc7e8c60567ea106c1c6c6e8cbae960020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 09/44] fix: accept the _AX extension for on columns and _AB
 for across columns

A and X share the on attributes, A and B the across attributes: the check
had it the other way round, and did not recognise _AB at all.
---
 ABXpy/sideop/side_operations_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ABXpy/sideop/side_operations_manager.py b/ABXpy/sideop/side_operations_manager.py
index 7527926..07eb44a 100644
--- a/ABXpy/sideop/side_operations_manager.py
+++ b/ABXpy/sideop/side_operations_manager.py
@@ -164,8 +164,10 @@ class SideOperationsManager(object):
         for r, s in elements:
             C1 = (s in ['_1', '_2'] and
                   not(r in self.on_cols or r in self.across_cols))
-            C2 = s == '_AX' and not(r in self.across_cols)
-            C3 = s == 'AB' and not(r in self.on_cols)
+            C2 = (s == '_AX' and
+                  not(r in self.on_cols or r in self.by_cols))
+            C3 = (s == '_AB' and
+                  not(r in self.across_cols or r in self.by_cols))
             if C1:
                 raise valueError(errC1, onAndAcross)
             if C2:
-- 
2.43.0


From c81ca0aee565ead229822841b26966a8b46f611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 10/44] fix: provide the by columns to the generic filters that
 use them

---
 ABXpy/sideop/filter_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ABXpy/sideop/filter_manager.py b/ABXpy/sideop/filter_manager.py
index 8151402..6e29863 100644
--- a/ABXpy/sideop/filter_manager.py
+++ b/ABXpy/sideop/filter_manager.py
@@ -46,6 +46,7 @@ class FilterManager(side_operations_manager.SideOperationsManager):
             db_variables['generic'] = set(elements)
             self.generic.append(db_fun)
             self.generic_context['generic'].update(db_variables['generic'])
+            self.by_context['generic'].update(db_variables['by'])
             elements = {}
         return elements, db_variables
 
-- 
2.43.0


From c2f463aaf81a60dc6c60d8a898ec83e6c14f4d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 11/44] fix: make columns usable as filters

Filters expect one value per item: the list containing the values was
taken for a single true value.
---
 ABXpy/dbfun/dbfun_column.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/dbfun/dbfun_column.py b/ABXpy/dbfun/dbfun_column.py
index 078b6e3..f581b0c 100644
--- a/ABXpy/dbfun/dbfun_column.py
+++ b/ABXpy/dbfun/dbfun_column.py
@@ -36,4 +36,5 @@ class DBfun_Column(dbfun.DBfun):
             return [np.array([self.index.index(e)
                     for e in context[self.input_names[0]]])]
         else:
-            return [context[self.input_names[0]]]
+            # one value per item, as for computed filters
+            return context[self.input_names[0]]
-- 
2.43.0


From daa9a92b6d21cd57fe3878c2b37dcf7b0ca721ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 12/44] fix: keep the limits of the distance jobs integer

With more pairs than the maximal block size, jobs got float limits.
---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index ea3ae86..2e464fe 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -82,7 +82,7 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
     max_block_size = min(
         np.int64(np.ceil(total_n_pairs / np.float(n_cpu))),
         # buffer_max_size * 1000000 / np.dtype(by_n_pairs).itemsize)
-        buffer_max_size * 1000000 / 8)
+        buffer_max_size * 1000000 // 8)
     by = []
     start = []
     stop = []
-- 
2.43.0


From 6bd1744c83cf1aa520f104336651d7f5fffe93bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 13/44] fix: mark the distances as done whatever the number of
 cpus

---
 ABXpy/distances/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 2e464fe..06f6907 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -324,8 +324,8 @@ def compute_distances(feature_file, feature_group, pair_file, distance_file,
         run_distance_job(
             jobs[0], distance_file, distance,
             feature_files, feature_groups, splitted_features, 1, normalized)
-        with h5py.File(distance_file, 'a') as fh:
-            fh.attrs.modify('done', True)
+    with h5py.File(distance_file, 'a') as fh:
+        fh.attrs.modify('done', True)
 
 
 # hack, external function for visibility reasons
-- 
2.43.0


From f98c39cfed8fba0ecb6c979f2fee93aad3620d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 14/44] fix: encode and decode label combinations with exact
 integers

The number of combinations overflowed before it was checked, and keys were
decoded in floating point, which confuses those beyond 2**53.
---
 ABXpy/analyze.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 569325c..7c3fe1d 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -40,12 +40,12 @@ def npdecode(keys, max_ind):
     """Vectorized implementation of the decoding of the labels:
     i = (a1*n2 + a2)*n3 + a3 ...
     """
-    res = np.empty((len(keys), len(max_ind)))
+    res = np.empty((len(keys), len(max_ind)), dtype=np.uint64)
     aux = keys
     k = len(max_ind)
     for i in range(k - 1):
         res[:, k - 1 - i] = np.mod(aux, max_ind[k - 1 - i])
-        aux = np.divide(aux - res[:, k - 1 - i], max_ind[k - 1 - i])
+        aux = np.floor_divide(aux, max_ind[k - 1 - i])
     res[:, 0] = aux
     return res
 
@@ -82,9 +82,10 @@ def collapse(scorefile, taskfile, fid):
         tmp = np.ascontiguousarray(indices).view(
             np.dtype((np.void, indices.dtype.itemsize * indices.shape[1])))
         n_indices = np.max(indices, 0) + 1
-        assert np.prod(n_indices) < 18446744073709551615, "type not big enough"
-        ind_type = fit_integer_type(np.prod(n_indices),
-                                    is_signed=False)
+        # python integers, the product could overflow
+        n_keys = np.prod(n_indices.astype(object))
+        assert n_keys < 18446744073709551615, "type not big enough"
+        ind_type = fit_integer_type(n_keys, is_signed=False)
         # encoding the indices of a triplet to a unique index
         new_index = indices[:, 0].astype(ind_type)
         for i in range(1, len(n_indices)):
-- 
2.43.0


From 90f75380ab35f09071ecd7a8ca8935f02fe82ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 15/44] fix: detect regressor combinations that do not fit in
 64 bits

The number of combinations overflowed before it was checked.
---
 ABXpy/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 66eb339..3456e6b 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -596,11 +596,12 @@ class Task(object):
                     # FIXME how do we know that all regressors are in
                     # integer format here ? This is only guaranteed
                     # for indexed regressors...
-                    assert np.prod(n_regs) < 18446744073709551615, \
+                    # python integers, the product could overflow
+                    n_keys = np.prod(n_regs.astype(object))
+                    assert n_keys < 18446744073709551615, \
                         "type not big enough"
 
-                    reg_ind_type = fit_integer_type(
-                        np.prod(n_regs), is_signed=False)
+                    reg_ind_type = fit_integer_type(n_keys, is_signed=False)
 
                     new_index = regs[:, 0].astype(reg_ind_type)
                     for i in range(1, len(n_regs)):
-- 
2.43.0


From 2e9098174c3e6b9c902f35e69f79df28deffa824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 16/44] fix: make IncrementalSampler iterable in python 3

---
 ABXpy/sampling/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 69df970..0cc7e00 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -56,6 +56,8 @@ class IncrementalSampler(object):
             raise StopIteration
         return self.sample(self.step)
 
+    __next__ = next  # python 3
+
     def sample(self, n, dtype=np.int64):
         """Fast implementation of the sampling function
 
-- 
2.43.0


From d55ceadb67b680b4914e121568271927be4e3a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 17/44] fix: do not modify the features when computing a
 distance

Features are shared by all the pairs an item appears in.
---
 ABXpy/distances/metrics/cosine.py           |  4 ++--
 ABXpy/distances/metrics/kullback_leibler.py | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ABXpy/distances/metrics/cosine.py b/ABXpy/distances/metrics/cosine.py
index e6191bd..91329f9 100644
--- a/ABXpy/distances/metrics/cosine.py
+++ b/ABXpy/distances/metrics/cosine.py
@@ -36,6 +36,6 @@ def cosine_distance(x, y):
 
 
 def normalize_cosine_distance(x, y):
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     return cosine_distance(x, y)
diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index cea21c1..d9a41b0 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -38,14 +38,14 @@ def kl_divergence(x, y, thresholded=True, symmetrized=True, normalize=True):
     if thresholded:
         normalize = True
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     if thresholded:
         eps = np.finfo(x.dtype).eps
         x = x + eps
         y = y + eps
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     res = __kl_divergence(x, y)
 
     if symmetrized:
@@ -67,8 +67,8 @@ def js_divergence(x, y, normalize=True):
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
 
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     xx = np.tile(x, (y.shape[0], 1, 1)).transpose((1, 0, 2))
     yy = np.tile(y, (x.shape[0], 1, 1))
     m = (xx + yy) / 2
@@ -99,8 +99,8 @@ def hellinger_distance(x, y):
     assert (x.dtype == np.float64 and y.dtype == np.float64) or (
         x.dtype == np.float32 and y.dtype == np.float32)
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     x = np.sqrt(x)
     y = np.sqrt(y)
     # x (120, 40), y (100, 40), H(x,y) (120, 100)
-- 
2.43.0


From dfb2d45d36cc09d2e707557b7013413df87167b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 18/44] fix: make the order of the default regressors
 reproducible

It followed the iteration order of a set of strings, and the triplets
sampled for a given seed with it.
---
 ABXpy/sideop/regressor_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/sideop/regressor_manager.py b/ABXpy/sideop/regressor_manager.py
index 98aa6a5..7a524e5 100644
--- a/ABXpy/sideop/regressor_manager.py
+++ b/ABXpy/sideop/regressor_manager.py
@@ -21,7 +21,7 @@ class RegressorManager(side_operations_manager.SideOperationsManager):
         default_regressors = [on[0] + '_1', on[0] + '_2']
         # check if no across were specified
         if not(self.across_cols == set(["#across"])):
-            for col in self.across_cols:
+            for col in sorted(self.across_cols):
                 default_regressors.append(col + '_1')
                 default_regressors.append(col + '_2')
         # FIXME add default regressors only if they are not already specified ?
-- 
2.43.0


From 2e75a7380d4b9b1c7b0c0d0df2a31da3a7e12d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 19/44] fix: accept tabs and blank lines when verifying an item
 file

---
 ABXpy/verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index fbaf428..bf0d44e 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -45,7 +45,9 @@ def check(item_file, features_file, verbose=0):
         h5f = h5py.File(features_file)
         files = h5f['features']['files'][:]
         for line in f:
-            source = str.split(line, ' ')[0]
+            if not line.strip():
+                continue
+            source = str.split(line)[0]
             assert source in files, ("The file {} cannot "
                                      "be found in the feature file"
                                      .format(source))
-- 
2.43.0


From 84cf506d8b3ba58741fc23f54ec0444c1540d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 20/44] fix: allow the score file to be omitted on the command
 line

---
 ABXpy/score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index a228e4f..ea307ea 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -137,7 +137,7 @@ def main():
         file, where the results of the computation will be put')
     args = parser.parse_args()
 
-    if os.path.exists(args.score):
+    if args.score and os.path.exists(args.score):
         print("Warning: overwriting score file {}".format(args.score))
         os.remove(args.score)
     score(args.task, args.distance, args.score)
-- 
2.43.0


From 773a6bc0643de1c496c8f9c0f81b06df561860a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 21/44] fix: default name of the score file for a distance file
 in a folder

---
 ABXpy/score.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index ea307ea..cf6d783 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -63,7 +63,8 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
     """
     if score_file is None:
         (basename_task, _) = os.path.splitext(task_file)
-        (basename_dist, _) = os.path.splitext(distance_file)
+        (basename_dist, _) = os.path.splitext(
+            os.path.basename(distance_file))
         score_file = basename_task + '_' + basename_dist + '.score'
     # file verification:
     assert os.path.exists(task_file), 'Cannot find task file ' + task_file
-- 
2.43.0


From 3db7cc9eaac4292c73b9e85a8e5727612e48186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:43 +0000
Subject: [PATCH 22/44] fix: store the names of raw and fused datasets

h5py has no conversion for arrays of unicode strings.
---
 ABXpy/h5tools/h5io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 8f54dc3..1fe94a3 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -81,7 +81,7 @@ class H5IO(object):
                 raw_datasets = list(set(datasets).difference(indexed_datasets))
                 if raw_datasets:
                     g.create_dataset(
-                        'raw_datasets', data=raw_datasets, dtype=str_dtype)
+                        'raw_datasets', data=get_array(raw_datasets), dtype=str_dtype)
                 # indexed datasets
                 if indexed_datasets:
                     g.create_dataset(
@@ -100,12 +100,12 @@ class H5IO(object):
                 # fused datasets
                 if fused:
                     g.create_dataset(
-                        'fused_datasets', data=list(fused), dtype=str_dtype)
+                        'fused_datasets', data=get_array(list(fused)), dtype=str_dtype)
                     h = g.create_group('fused')
                     for name, fused_dsets in iteritems(fused):
                         i = h.create_group(name)
                         i.create_dataset(
-                            'datasets', data=fused_dsets, dtype=str_dtype)
+                            'datasets', data=get_array(fused_dsets), dtype=str_dtype)
                         nb_levels = [len(indexes[indexed_datasets_indexes[
                                          indexed_datasets.index(dset)]]) for dset in fused_dsets]
                         i.create_dataset(
-- 
2.43.0


From 40fac38c4875d56bc2cc18dc710582b37e9720b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:31 +0000
Subject: [PATCH 23/44] fix: write raw datasets in the group of the H5IO object

Those of several objects in the same file collided in the root group.
---
 ABXpy/h5tools/h5io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 1fe94a3..31ed723 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -251,7 +251,7 @@ class H5IO(object):
         for dset in self.raw_datasets:
             (group, dataset) = os.path.split(dset)
             if not(group):
-                group = '/'
+                group = self.group
             self.out[dset] = self.np2h5.add_dataset(group, dataset, n_columns=dims[dset], item_type=dtypes[
                                                     dset], fixed_size=False)  # FIXME at some point should become super.add_dataset(...)
         # init not fused indexed datasets, in this implementation they are all
-- 
2.43.0


From 784f4e552f0a2edf2b06f62d9aa097b0c3ea50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:31 +0000
Subject: [PATCH 24/44] fix: write to H5IO from an iterator in python 3

---
 ABXpy/h5tools/h5io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 31ed723..453ab8f 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -190,7 +190,7 @@ class H5IO(object):
         # if necessary, instantiate datasets
         if self.is_empty:
             if iterate:
-                sample_data = data.next()
+                sample_data = next(data)
             else:
                 sample_data = data
             self.__initialize_datasets__(sample_data)
-- 
2.43.0


From 570ae0581b74192ef9a15cbac6d7e8ce5f2285bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:31 +0000
Subject: [PATCH 25/44] fix: name of the key weights dataset when loading an
 H5IO file

---
 ABXpy/h5tools/h5io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 453ab8f..bee08b4 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -154,7 +154,7 @@ class H5IO(object):
                         g['fused'][fused_dataset]['datasets'][...])
                     if fused_dataset + '/key_weights' in g['fused']:
                         self.key_weights[fused_dataset] = g['fused'][
-                            fused_dataset]['key_weigths'][...]
+                            fused_dataset]['key_weights'][...]
                     else:
                         self.nb_levels[fused_dataset] = g['fused'][
                             fused_dataset]['nb_levels'][...]
-- 
2.43.0


From a352c1248689c74d81fd9e985c3ea2b0e7a2999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:31 +0000
Subject: [PATCH 26/44] fix: detect fused datasets whose keys do not fit in 64
 bits

The number of keys overflowed before it was checked.
---
 ABXpy/h5tools/h5io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index bee08b4..9325890 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -278,8 +278,9 @@ class H5IO(object):
         for fused_dset in self.fused_datasets:
             fused_dims = np.array(
                 [dims[dset] for dset in self.fused_members[fused_dset]], dtype=np.uint64)
-            max_key = np.prod(
-                self.nb_levels[fused_dset] ** fused_dims) - np.uint64(1)
+            # python integers, the product could overflow
+            max_key = np.prod(self.nb_levels[fused_dset].astype(object) **
+                              fused_dims.astype(object)) - 1
             if max_key >= 2 ** 64:
                 raise ValueError('fused dataset %s in file %s cannot be created because 64 bits keys are not sufficient to cover all possible combinations of the fused datasets' % (
                     fused_dset, self.filename))
-- 
2.43.0


From e0187c9325c3682274537e727fd13c45b8ecfba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:31 +0000
Subject: [PATCH 27/44] fix: find exactly the ties of the uniform time warping

The comparison in floating point missed some of them.
---
 ABXpy/distances/metrics/utw.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distances/metrics/utw.py b/ABXpy/distances/metrics/utw.py
index 4cdbe1f..a49c8df 100644
--- a/ABXpy/distances/metrics/utw.py
+++ b/ABXpy/distances/metrics/utw.py
@@ -38,10 +38,11 @@ def utw(x, y, div):
 def distance_coordinates(n1, n2):
     assert(n1 <= n2)
     l1 = np.arange(n2)
-    l2 = n1/np.float(n2)*(np.arange(n2)+0.5)
-    l3 = np.floor(l2).astype(np.int)
-    integers = np.where(l2 == l3)[0]
-    non_integers = np.where(l2 != l3)[0]
+    # n1/n2*(j+0.5), in units of 1/(2*n2) so as to stay exact
+    l2 = n1*(2*np.arange(n2)+1)
+    l3 = l2 // (2*n2)
+    integers = np.where(l2 == l3*2*n2)[0]
+    non_integers = np.where(l2 != l3*2*n2)[0]
     l3i = l3[integers]
     l1i = l1[integers]
     i_half = np.concatenate([l3i-1, l3i])
-- 
2.43.0


From 2114debbf8bda8a058b663d5c2bf038d1d364301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:52 +0000
Subject: [PATCH 28/44] fix: find the index of datasets that share one

The index was looked up under the name of the dataset.
---
 ABXpy/h5tools/h5io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 9325890..877625e 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -258,7 +258,8 @@ class H5IO(object):
         # encoded in the same matrix
         if self.non_fused_datasets:
             indexed_dims = [dims[dset] for dset in self.non_fused_datasets]
-            indexed_levels = [len(self.indexes[dset])
+            indexed_levels = [len(self.indexes[self.indexed_datasets_indexes[
+                                  self.indexed_datasets.index(dset)]])
                               for dset in self.non_fused_datasets]
             dim = sum(indexed_dims)
             # smallest unsigned integer dtype compatible with all
-- 
2.43.0


From 7c807ac96d4fca14261bbabbdb8208b60e2a8f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:52 +0000
Subject: [PATCH 29/44] fix: number of levels of a task with several across
 columns

X must differ from A on every across column, as in the triplets.
---
 ABXpy/task.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 3456e6b..9813375 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1051,8 +1051,12 @@ class Task(object):
                             list(set(B).difference(A)), dtype=self.types[by])
 
                     # remove X with the same 'across' than A
-                    X = np.array(
-                        list(set(X).difference(A)), dtype=self.types[by])
+                    if type(across) is tuple:
+                        X = set(X).intersection(
+                            self.antiacross_blocks[by][across])
+                    else:
+                        X = set(X).difference(A)
+                    X = np.array(list(X), dtype=self.types[by])
 
                     if B.size > 0 and X.size > 0:
                         # case were there was no across specified is different
-- 
2.43.0


From 969f07b8c3200a07e4d7a7daca0fd9d4754d9d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:27 +0000
Subject: [PATCH 30/44] fix: keep the keys of regressor combinations exact

Keys beyond 2**53 were computed in floating point, so that the threshold was
applied to several groups of triplets at once.
---
 ABXpy/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 9813375..fe51d79 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -605,7 +605,8 @@ class Task(object):
 
                     new_index = regs[:, 0].astype(reg_ind_type)
                     for i in range(1, len(n_regs)):
-                        new_index = regs[:, i] + n_regs[i] * new_index
+                        new_index = (regs[:, i].astype(reg_ind_type)
+                                     + n_regs[i] * new_index)
 
                     permut = np.argsort(new_index)
 
-- 
2.43.0


From 16afaf75345037a3ee99bfb02aca54224d30c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:32 +0000
Subject: [PATCH 31/44] fix: keep the shape of the JS and Hellinger distances
 of single frames

---
 ABXpy/distances/metrics/kullback_leibler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index d9a41b0..8a88dac 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -80,7 +80,7 @@ def js_divergence(x, y, normalize=True):
         y * np.log(y), axis=1).reshape(y.shape[0], 1),
                   (1, x.shape[0])).transpose()
     res = 0.5 * (x_x - x_m) + 0.5 * (y_y - y_m)
-    return np.float64(res)
+    return np.float64(res).reshape(res.shape)
     # division by zero
 
 
@@ -108,7 +108,8 @@ def hellinger_distance(x, y):
     yy = np.tile(y, (x.shape[0], 1, 1))
     xx_yy = xx - yy
     res = np.sqrt(np.sum(xx_yy ** 2, axis=-1))
-    return np.float64((1. / np.sqrt(2)) * res)
+    res = (1. / np.sqrt(2)) * res
+    return np.float64(res).reshape(res.shape)
 
 
 def is_distance(x, y):
-- 
2.43.0


From 4e6a0094c2bd9b2d760cc27526fd30358fa53c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 32/44] fix: accept labels that are not ASCII

---
 ABXpy/h5tools/h5io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 877625e..8003dbd 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -362,7 +362,7 @@ def get_dtype(data):
 
 def get_array(data):
     if isinstance(data[0], str):
-        return np.array(data, dtype='S')
+        return np.array(data, dtype=object)
     return data
 
 
-- 
2.43.0


From 617a22bb877e9df2369c8008a8f186cb09471310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:02 +0000
Subject: [PATCH 33/44] fix: do not create missing features files when
 verifying

---
 ABXpy/verify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index bf0d44e..8cbf955 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -42,8 +42,8 @@ def check(item_file, features_file, verbose=0):
         assert cols[3][0] == '#', 'The fourth column must start with #'
         if verbose:
             print("Opening features file")
-        h5f = h5py.File(features_file)
-        files = h5f['features']['files'][:]
+        with h5py.File(features_file, 'r') as h5f:
+            files = h5f['features']['files'][:]
         for line in f:
             if not line.strip():
                 continue
-- 
2.43.0


From 9bca3084cc248be011da9aa3be733f827472c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:02 +0000
Subject: [PATCH 34/44] fix: verify features files in the current format

---
 ABXpy/verify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index 8cbf955..c8ef2ae 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -43,7 +43,9 @@ def check(item_file, features_file, verbose=0):
         if verbose:
             print("Opening features file")
         with h5py.File(features_file, 'r') as h5f:
-            files = h5f['features']['files'][:]
+            group = h5f['features']
+            # it was named 'files' before version 1.1 of h5features
+            files = group['items' if 'items' in group else 'files'][:]
         for line in f:
             if not line.strip():
                 continue
-- 
2.43.0


From 3ab1c9fc93804225c75971c3ca97df1299e255a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:29 +0000
Subject: [PATCH 35/44] fix: write the computed regressors of a task that
 starts with an empty block

---
 ABXpy/h5tools/h5io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 8003dbd..9992462 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -351,7 +351,7 @@ class H5IO(object):
 def get_dtype(data):
     str_dtype = h5py.special_dtype(vlen=str)
     # allow for the use of strings
-    if isinstance(data[0], str):
+    if len(data) and isinstance(data[0], str):
         dtype = str_dtype
     # could add some checks that the dtype is one of those supported by h5 ?
     elif hasattr(data, 'dtype'):
-- 
2.43.0


From b6b8c19037625dc337e72b3f276ab32ee66c2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:37 +0000
Subject: [PATCH 36/44] fix: release the lock when a distance job fails

---
 ABXpy/distances/distances.py | 38 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 06f6907..162c61d 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -201,17 +201,23 @@ def run_distance_job(job_description, distance_file, distance,
         # load pandas dataframe containing info for loading the features
         if synchronize:
             distance_file_lock.acquire()
-        store = pandas.HDFStore(pair_file)
-        by_db = store['feat_dbs/' + by]
-        store.close()
-        # load pairs to be computed
-        # indexed relatively to the above dataframe
-        with h5py.File(pair_file, 'r') as fh:
-            attrs = fh['unique_pairs'].attrs[by]
-            pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]
-            base = attrs[0]
-        if synchronize:
-            distance_file_lock.release()
+        # the lock is released whatever happens, or the other jobs would
+        # wait for it forever
+        try:
+            store = pandas.HDFStore(pair_file)
+            try:
+                by_db = store['feat_dbs/' + by]
+            finally:
+                store.close()
+            # load pairs to be computed
+            # indexed relatively to the above dataframe
+            with h5py.File(pair_file, 'r') as fh:
+                attrs = fh['unique_pairs'].attrs[by]
+                pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]
+                base = attrs[0]
+        finally:
+            if synchronize:
+                distance_file_lock.release()
 
         A = np.mod(pair_list, base)
         B = pair_list // base
@@ -269,10 +275,12 @@ def run_distance_job(job_description, distance_file, distance,
                 raise
         if synchronize:
             distance_file_lock.acquire()
-        with h5py.File(distance_file, 'a') as fh:
-            fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
-        if synchronize:
-            distance_file_lock.release()
+        try:
+            with h5py.File(distance_file, 'a') as fh:
+                fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
+        finally:
+            if synchronize:
+                distance_file_lock.release()
 
 
 # mem in megabytes
-- 
2.43.0


From 99d55524cc8863a9768125406faf196e2b119047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:02 +0000
Subject: [PATCH 37/44] fix: leave an existing distances file as it is

---
 ABXpy/distances/distances.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 162c61d..312f102 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -61,8 +61,10 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
             total_n_pairs = fh['unique_pairs/data'].shape[0]
     # initializing output datasets
     with h5py.File(distance_file, 'a') as fh:
-        fh.attrs.create('done', False)
+        # the group first: this fails, and must leave the file as it was, if
+        # it already contains distances
         g = fh.create_group('distances')
+        fh.attrs.create('done', False)
         g.create_dataset('data', shape=(total_n_pairs, 1), dtype=np.float)
     """
     #### Load balancing ####
-- 
2.43.0


From 7eb9d39c43ada2b987ff29db2fb1ced06ef8bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:25 +0000
Subject: [PATCH 38/44] fix: remove the temporary folder when its file cannot
 be created

---
 ABXpy/h5tools/h5_handler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5_handler.py b/ABXpy/h5tools/h5_handler.py
index cd51fc0..d457589 100644
--- a/ABXpy/h5tools/h5_handler.py
+++ b/ABXpy/h5tools/h5_handler.py
@@ -246,7 +246,14 @@ class H5TMP(object):
         self.tmpfile = os.path.join(self.tmpdir, 'tmp.h5')
 
     def __enter__(self):
-        self.tmp = h5py.File(self.tmpfile, 'a')
+        try:
+            self.tmp = h5py.File(self.tmpfile, 'a')
+        except BaseException:
+            # __exit__ is not called in this case
+            if os.path.exists(self.tmpfile):
+                os.remove(self.tmpfile)
+            os.rmdir(self.tmpdir)
+            raise
         return self.tmp
 
     def __exit__(self, eType, eValue, eTrace):
-- 
2.43.0


From 0042d7ea6e29f7110441cf8e27b4286ff0eec153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:21 +0000
Subject: [PATCH 39/44] fix: close the temporary file of the pairs

---
 ABXpy/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index fe51d79..bd53756 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -864,7 +864,8 @@ class Task(object):
         n_pairs_dict = {}
         max_ind_dict = {}
         try:
-            _, output_tmp = tempfile.mkstemp(dir=tmpdir)
+            fd, output_tmp = tempfile.mkstemp(dir=tmpdir)
+            os.close(fd)
             for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
                 if self.verbose > 0:
                     print("Writing AX/BX pairs to task file...")
-- 
2.43.0


From 110b3b1078f866cbebb05b92a137f52cc3cb6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:21 +0000
Subject: [PATCH 40/44] fix: let nested functions of a script see its variables

---
 ABXpy/dbfun/dbfun_compute.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ABXpy/dbfun/dbfun_compute.py b/ABXpy/dbfun/dbfun_compute.py
index cebe546..a521ec8 100644
--- a/ABXpy/dbfun/dbfun_compute.py
+++ b/ABXpy/dbfun/dbfun_compute.py
@@ -174,25 +174,26 @@ class DBfun_Compute(dbfun.DBfun):
     # context is a dictionary with just the right name/content associations
     def evaluate(self, context):
         # set up context
-        ns_local = context
-        ns_global = {}
+        # (a single namespace, or what is nested in the script, such as
+        # lambdas and generators, would only see the builtins)
+        ns = dict(context)
         # exec imports in that context
-        exec(self.import_bytecode, ns_global, ns_local)
+        exec(self.import_bytecode, ns)
         # evaluate the calls to aux functions
         for node in self.code_nodes:
             # evaluate the arguments to the call
             aux_context = {}
             args = node['function'].in_names
             for code, arg in zip(node['child_bytecodes'], args):
-                aux_context[arg] = eval(code, ns_global, ns_local)
+                aux_context[arg] = eval(code, ns)
             # call the aux function and assign it in the main namespace
-            ns_local[node['varname']] = node['function'].evaluate(aux_context)
+            ns[node['varname']] = node['function'].evaluate(aux_context)
             # FIXME if aux files, could use the output_cols here ? and maybe
             # need to do it also in direct case for consistency ?
             # also is output format for vlen output going to work ?
         # exec main_bytecode
-        exec(self.main_bytecode, ns_global, ns_local)
-        return eval(self.final_bytecode, ns_global, ns_local)
+        exec(self.main_bytecode, ns)
+        return eval(self.final_bytecode, ns)
 
 
 # visitor class for getting the list of the names of the variables in expr
-- 
2.43.0


From 50e75928bd5538eff6a52c93245ebbbf9c65d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:16 +0000
Subject: [PATCH 41/44] fix: by labels that contain a '/' do not name nested
 HDF5 groups

The labels of the by values name groups and datasets of the task file, where
'/' separates groups and '.' is the group itself.
---
 ABXpy/analyze.py             |  3 ++-
 ABXpy/distances/distances.py |  4 +++-
 ABXpy/h5tools/h5io.py        |  7 +++++++
 ABXpy/task.py                | 18 ++++++++++--------
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 7c3fe1d..3d75a1a 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -33,6 +33,7 @@ import os.path as path
 import os
 import warnings
 
+from ABXpy.h5tools.h5io import group_name
 from ABXpy.misc.type_fitting import fit_integer_type
 
 
@@ -71,7 +72,7 @@ def collapse(scorefile, taskfile, fid):
         # print 'collapsing {0}/{1}'.format(by_idx + 1, len(bys))
         trip_attrs = taskfid['triplets']['by_index'][by_idx]
 
-        tfrk = taskfid['regressors'][by]
+        tfrk = taskfid['regressors'][group_name(by)]
 
         tmp = tfrk[u'indexed_data']
         indices = np.array(tmp)
diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 312f102..c871ef4 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -7,6 +7,8 @@ import sys
 import warnings
 import h5features
 
+import ABXpy.h5tools.h5io as h5io
+
 # FIXME Enforce single process usage when using python compiled with OMP
 # enabled
 
@@ -208,7 +210,7 @@ def run_distance_job(job_description, distance_file, distance,
         try:
             store = pandas.HDFStore(pair_file)
             try:
-                by_db = store['feat_dbs/' + by]
+                by_db = store['feat_dbs/' + h5io.group_name(by)]
             finally:
                 store.close()
             # load pairs to be computed
diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 9992462..2897398 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -10,6 +10,13 @@ import ABXpy.misc.type_fitting as type_fitting
 from . import np2h5
 
 
+def group_name(label):
+    """Name of the HDF5 group or dataset of a label, which may contain a '/'
+    """
+    name = str(label).replace('%', '%25').replace('/', '%2F')
+    return '%2E' if name == '.' else name
+
+
 # API functions:
 #   __init__, write, sort, find, read
 
diff --git a/ABXpy/task.py b/ABXpy/task.py
index bd53756..6b95582 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -776,7 +776,8 @@ class Task(object):
                         filename=output,
                         datasets=datasets,
                         indexes=indexes,
-                        group='/regressors/{}/'.format(str(by))) as out_regs:
+                        group='/regressors/{}/'.format(
+                            h5io.group_name(by))) as out_regs:
                     self._compute_triplets(
                         by, out, out_block_index, out_regs, db, fh,
                         by_values, display=display)
@@ -880,7 +881,7 @@ class Task(object):
                         inp = f_in.add_subdataset('triplets', 'data',
                                                   indexes=triplets_attrs)
                         out = f_out.add_dataset(
-                            'pairs', str(by), n_columns=1,
+                            'pairs', h5io.group_name(by), n_columns=1,
                             item_type=pair_key_type, fixed_size=False)
                         for data in inp:
                             triplets = pair_key_type(data)
@@ -911,12 +912,12 @@ class Task(object):
                             # complete pair 2 and shuffle ?)
                             out.write(pairs)
 
-                    sort_pairs(output_tmp, by, tmpdir=tmpdir)
+                    sort_pairs(output_tmp, h5io.group_name(by), tmpdir=tmpdir)
 
                     # counting unique
                     with np2h5.NP2H5(output_tmp) as f_out:
                         with h52np.H52NP(output_tmp) as f_in:
-                            inp = f_in.add_dataset('pairs', str(by))
+                            inp = f_in.add_dataset('pairs', h5io.group_name(by))
                             n_pairs = 0
                             last = -1
                             for pairs in inp:
@@ -933,9 +934,9 @@ class Task(object):
                     # sorting + unique ?
                     with np2h5.NP2H5(output_tmp) as f_out:
                         with h52np.H52NP(output_tmp) as f_in:
-                            inp = f_in.add_dataset('pairs', str(by))
+                            inp = f_in.add_dataset('pairs', h5io.group_name(by))
                             out = f_out.add_dataset(
-                                'unique_pairs', str(by),
+                                'unique_pairs', h5io.group_name(by),
                                 n_rows=n_pairs,
                                 n_columns=1,
                                 item_type=pair_key_type,
@@ -959,7 +960,7 @@ class Task(object):
                         # use append to make use of table format,
                         # which is better at handling strings without
                         # much space (fixed-size format)
-                        store.append('/feat_dbs/' + str(by), self.feat_dbs[by],
+                        store.append('/feat_dbs/' + h5io.group_name(by), self.feat_dbs[by],
                                      expectedrows=len(self.feat_dbs[by]))
                         store.close()
                         # FIXME generate inverse mapping to triplets
@@ -979,7 +980,8 @@ class Task(object):
                         continue
 
                     with h52np.H52NP(output_tmp) as f_in:
-                        inp = f_in.add_dataset('unique_pairs', str(by))
+                        inp = f_in.add_dataset(
+                            'unique_pairs', h5io.group_name(by))
                         for pairs in inp:
                             out_unique_pairs.write(pairs)
 
-- 
2.43.0


From 3803a5be273fcf49f64473c9ee03a38297230446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:10 +0000
Subject: [PATCH 42/44] fix: abx-task --stats-only does not remove the task
 file it is given

---
 ABXpy/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 6b95582..ebd13bf 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1358,7 +1358,8 @@ def main():
     # checks on the output file
     # if args.stats_only:
     #     assert args.output, "The output file was not provided"
-    if args.output and os.path.exists(args.output):
+    if (args.output and os.path.exists(args.output) and
+            not args.stats_only):
         warnings.warn("Overwriting task file " + args.output, UserWarning)
         os.remove(args.output)
 
-- 
2.43.0


From 17ffe79ef23a10394ef419bfd25f90e3ffafdc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:10 +0000
Subject: [PATCH 43/44] fix: abx-distance refuses a missing normalization
 before it removes the old output

---
 ABXpy/distance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index cdb5a0e..357e824 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -134,14 +134,14 @@ def main():
 
     args = parser.parse_args()
 
-    if os.path.exists(args.output):
-        warnings.warn("Overwriting distance file " + args.output, UserWarning)
-        os.remove(args.output)
-
     # if dtw distance selected, fore use of normalization parameter :
     if (args.distance is None and args.normalization is None):
         sys.exit("ERROR : DTW normalization parameter not specified !")
 
+    if os.path.exists(args.output):
+        warnings.warn("Overwriting distance file " + args.output, UserWarning)
+        os.remove(args.output)
+
     run(args.features, args.task, args.output, normalized=args.normalization,
         distance=args.distance, njobs=args.njobs, group=args.group)
 
-- 
2.43.0


From 92b8e703b64914356e4ee60707ab742a5e63a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:10 +0000
Subject: [PATCH 44/44] fix: abx-distance accepts a distance module in a folder
 with dots in its path

---
 ABXpy/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index 357e824..fc8208d 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -79,7 +79,7 @@ def run(features, task, output, normalized,
         elif distance=="dtw_kl":
             distancefun = dtw_kl_distance
         else:
-            distancepair = distance.split('.')
+            distancepair = distance.rsplit('.', 1)
             distancemodule = distancepair[0]
             distancefunction = distancepair[1]
             path, mod = os.path.split(distancemodule)
-- 
2.43.0

