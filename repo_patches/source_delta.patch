From dc9996a19a2fbaee44b4bd9a781681fb9e60e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 01/32] fix: roll back edits whose housekeeping fails or that
 are interrupted

A failure while updating the cluster summaries skipped the release of the
outermost savepoint, leaving a transaction open so later edits were never
committed, and an interrupted edit was committed half done.
---
 hyperreal/index.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c84be27..6ef6672 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -95,39 +95,54 @@ def atomic(writes=False):
         @wraps(func)
         def wrapper(*args, **kwargs):
             self = args[0]
+            # If there's no transaction in progress the savepoint will start one,
+            # and ending it on the way out is our responsibility.
+            outermost = not self.db.in_transaction
+            entered = False
+
             try:
                 self._transaction_level += 1
                 self.db.execute(f'savepoint "{func.__name__}"')
+                entered = True
 
                 results = func(*args, **kwargs)
 
                 if writes:
                     self._changed = True
 
+                # We're at the final transaction level and are about to commit. The
+                # housekeeping is part of the change, so if it fails everything
+                # needs to be rewound.
+                if self._transaction_level == 1 and self._changed:
+                    self.logger.info(f"Changes detected - updating clusters.")
+                    # Note that this will check for changed queries, and will
+                    # therefore be a noop if there aren't any.
+                    self._update_changed_clusters()
+
+                self.db.execute(f'release "{func.__name__}"')
+
                 return results
 
-            except Exception:
+            except BaseException:
                 self.logger.exception("Error executing index method.")
                 # Rewind to the previous savepoint, then release it
                 # This is necessary to behave nicely whether we are operating
                 # inside a larger transaction or just in autocommit mode.
-                self.db.execute(f'rollback to "{func.__name__}"')
+                # SQLite may have already rolled back the transaction by itself.
+                if self.db.in_transaction:
+                    if outermost:
+                        self.db.execute("rollback")
+                    elif entered:
+                        self.db.execute(f'rollback to "{func.__name__}"')
+                        self.db.execute(f'release "{func.__name__}"')
                 raise
 
             finally:
                 self._transaction_level -= 1
 
-                # We've decremented to the final transaction level and are about
-                # to commit.
-                if self._transaction_level == 0 and self._changed:
-                    self.logger.info(f"Changes detected - updating clusters.")
-                    # Note that this will check for changed queries, and will
-                    # therefore be a noop if there aren't any.
-                    self._update_changed_clusters()
+                if self._transaction_level == 0:
                     self._changed = False
 
-                self.db.execute(f'release "{func.__name__}"')
-
         return wrapper
 
     return atomic_wrapper
-- 
2.43.0


From 55841a8bf0c4cdf2e852d5589d7eed080be9007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 02/32] fix: commit reindexed content and refreshed cluster
 statistics together

The new index content was committed before the cluster statistics, so other
sessions could see them disagree, and a crash in between left the statistics
stale and made every later reindex fail on a duplicate changed_cluster row.
---
 hyperreal/index.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 6ef6672..212eadd 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -543,17 +543,17 @@ class Index:
                 """
             )
 
-            # Update all cluster stats based on new index stats
+            # Update all cluster stats based on new index stats. This needs to be
+            # part of the same transaction, so that the index and the clusters
+            # never disagree. As the new content isn't committed yet the work
+            # can't be sent to the background.
             self.db.execute(
-                "insert into changed_cluster select cluster_id from cluster"
+                "insert or ignore into changed_cluster select cluster_id from cluster"
             )
+            self._update_changed_clusters(background=False)
 
             self.db.execute("commit")
 
-            self.db.execute("begin")
-            self._update_changed_clusters()
-            self.db.execute("commit")
-
         except Exception:
             self.logger.exception("Indexing failure.")
             self.db.execute("rollback")
@@ -1782,12 +1782,16 @@ class Index:
             ),
         )
 
-    def _update_changed_clusters(self):
+    def _update_changed_clusters(self, background=True):
         """
         Refresh cluster union queries for changed clusters.
 
         This is usually called from the `atomic` decorator, or when reindexing.
 
+        The union queries are computed in the background, based on the committed
+        index content. Set background=False if the index content itself has
+        been changed in this transaction.
+
         It is assumed that this is called inside a transaction.
 
         """
@@ -1828,7 +1832,12 @@ class Index:
 
         # Note that the data here may not have been committed yet, so we have
         # to read and pass the feature_ids to the background ourselves.
-        for cluster_id, query, weight in self.pool.map(_union_query, bg_args):
+        if background:
+            results = self.pool.map(_union_query, bg_args)
+        else:
+            results = [_union_features(*args) for args in bg_args]
+
+        for cluster_id, query, weight in results:
             self.db.execute(
                 """
                 update cluster set (docs_count, weight, doc_ids) = (?, ?, ?)
@@ -2404,13 +2413,17 @@ def _union_query(args):
     idx, query_key, feature_ids = args
 
     with idx:
-        query = BitMap()
-        weight = 0
+        return _union_features(idx, query_key, feature_ids)
+
+
+def _union_features(idx, query_key, feature_ids):
+    query = BitMap()
+    weight = 0
 
-        for feature_id in feature_ids:
-            docs = idx[feature_id]
-            query |= docs
-            weight += len(docs)
+    for feature_id in feature_ids:
+        docs = idx[feature_id]
+        query |= docs
+        weight += len(docs)
 
     return query_key, query, weight
 
-- 
2.43.0


From 0ed363ae72d4ae26590776af3baafa5349ce4a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 03/32] fix: don't expand position windows into the following
 document

---
 hyperreal/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/utilities.py b/hyperreal/utilities.py
index 03ecd01..b1833db 100644
--- a/hyperreal/utilities.py
+++ b/hyperreal/utilities.py
@@ -153,7 +153,7 @@ def expand_positions_window(positions, doc_boundaries, window_size):
             next_start = doc_boundaries[rank]
 
         # Actually apply the window
-        end_range = min(next_start, position + window_size) + 1
+        end_range = min(next_start, position + window_size + 1)
         windowed.add_range(max(doc_start, position - window_size), end_range)
 
     return windowed
-- 
2.43.0


From 74eaff6e6f8b665ba25fa2c1a4d4ade229bfa13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 04/32] fix: keep the last passage of a batch when it is a
 single position

---
 hyperreal/index.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 212eadd..2067cd6 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2542,16 +2542,15 @@ def _score_passages_dnf(idx, field, first_doc_id, feature_clauses, window_size):
             else:
                 last_position = position
         else:
-            # Don't forget the last window, if it wasn't closed off.
-            if last_position != passage_start:
-                passage_scores[doc_id].append(
-                    (
-                        field,
-                        passage_start - doc_start,
-                        last_position - doc_start,
-                        positions.range_cardinality(passage_start, last_position + 1),
-                    )
+            # Don't forget the last passage, which is never closed off.
+            passage_scores[doc_id].append(
+                (
+                    field,
+                    passage_start - doc_start,
+                    last_position - doc_start,
+                    positions.range_cardinality(passage_start, last_position + 1),
                 )
+            )
 
     return (
         field,
-- 
2.43.0


From 951a6b743fb9a91c16b9901026fc433500bf769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 05/32] fix: only count collocations with features of the same
 field

Positions of different fields in a batch are unrelated, so counting features
from other sequence fields gave meaningless collocations.
---
 hyperreal/index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 2067cd6..2cef804 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2576,8 +2576,13 @@ def _count_collocations(idx, field, first_doc_id, features, window_size):
         )
 
         for (feature_id,) in idx.db.execute(
-            "select feature_id from position_index where first_doc_id = ?",
-            [first_doc_id],
+            """
+            select feature_id
+            from position_index
+            inner join inverted_index using(feature_id)
+            where (field, first_doc_id) = (?, ?)
+            """,
+            [field, first_doc_id],
         ):
             if feature_id not in features:
                 other_positions = idx._get_partition_positions(first_doc_id, feature_id)
-- 
2.43.0


From 0ba491b182b1bb037c8ee2319e59c9eb9d690c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 06/32] fix: don't lose new clusters when refining a selection
 of clusters

When the temporary ids of new clusters overlapped with the ids they were
mapped to, a new cluster was removed again before it was saved, and its
features silently stayed in their old cluster.
---
 hyperreal/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 2cef804..ba84e8c 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1753,8 +1753,12 @@ class Index:
 
         next_cluster_id = self.next_cluster_id()
 
+        # Remove all of the temporary IDs first, so they can't collide with the
+        # global IDs assigned in the next step.
         for cluster_id in new_cluster_ids:
             del cluster_feature[cluster_id]
+
+        for cluster_id in new_cluster_ids:
             cluster_feature[next_cluster_id] = new_cluster_feature[cluster_id]
             next_cluster_id += 1
 
-- 
2.43.0


From 5421275840ff602cf6e13cd370e02da7e85777e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 07/32] fix: measure every cluster when group testing

Dissolving clusters with group testing enabled raised KeyError when a cluster
was not in the best groups of any feature, as it had no objective.
---
 hyperreal/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index ba84e8c..f34252f 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1411,7 +1411,9 @@ class Index:
                 top_k=group_test_top_k,
             )
 
-            cluster_feature_checks = collections.defaultdict(set)
+            # Every cluster needs to be measured, even if it turns out to not be in
+            # the best groups for any feature.
+            cluster_feature_checks = {cluster_key: set() for cluster_key in cluster_ids}
 
             # Convert best group results into individual cluster checks
             for feature, groups in best_groups.items():
-- 
2.43.0


From 32d9207cd1a0b8f135aee1765a8cdb48b868d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 08/32] fix: allow refining when all features are pinned

The refinement divided by the number of movable features, failing with
ZeroDivisionError if there weren't any.
---
 hyperreal/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index f34252f..39fa642 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1529,6 +1529,10 @@ class Index:
             if f not in pinned_features
         }
 
+        # Or if every feature is pinned, so there is nothing to move or divide.
+        if not movable_features:
+            return cluster_feature, set()
+
         movable_feature_list = list(movable_features)
         moved_features = len(movable_features)
 
-- 
2.43.0


From 6d8ef6f6cfeb95d5bb5a567b63582e0ef15d8102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 09/32] fix: don't move features out of clusters already below
 the minimum size

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 39fa642..9e2c19c 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1635,7 +1635,7 @@ class Index:
                     continue
 
                 # Don't move things out of a small cluster.
-                elif len(cluster_feature[current_cluster]) == minimum_cluster_features:
+                elif len(cluster_feature[current_cluster]) <= minimum_cluster_features:
                     continue
 
                 # We can make this move, so let's try it
-- 
2.43.0


From f31bd3e329af499152426145ce40d622dc3bca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 10/32] fix: support the working_dir argument when indexing

Passing a path failed, as the path itself was used like a TemporaryDirectory.
---
 hyperreal/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 9e2c19c..7e07117 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -360,7 +360,8 @@ class Index:
 
             detach = False
 
-            tempdir = working_dir or tempfile.TemporaryDirectory()
+            # This is created inside the working_dir, if provided.
+            tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
             # We're still inside a transaction here, so processes reading from
-- 
2.43.0


From ac1e15651b3bdc938efc49c409675fcb579be6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 11/32] fix: allow indexing a corpus without any documents

---
 hyperreal/index.py | 60 +++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 7e07117..d79eb1a 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -455,6 +455,10 @@ class Index:
             self.db.execute("attach ? as tempindex", [temp_index])
             detach = True
 
+            # If there were no documents these won't have been created yet.
+            for schema in SEGMENT_SCHEMA:
+                self.db.execute(schema.format(prefix="tempindex."))
+
             self.db.execute(
                 """
                 create index tempindex.field_value on inverted_index_segment(
@@ -2088,6 +2092,33 @@ class Index:
             )
 
 
+# The tables holding the incremental results of indexing each batch.
+SEGMENT_SCHEMA = [
+    """
+    CREATE table if not exists {prefix}inverted_index_segment(
+        field text,
+        value,
+        docs_count,
+        doc_ids roaring_bitmap,
+        position_count,
+        positions roaring_bitmap,
+        first_doc_id
+    )
+    """,
+    """
+    CREATE table if not exists {prefix}batch_position(
+        field,
+        first_doc_id,
+        last_doc_id,
+        docs_count,
+        doc_ids roaring_bitmap,
+        doc_position_starts roaring_bitmap,
+        primary key (field, first_doc_id)
+    )
+    """,
+]
+
+
 def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_lock):
     """
     Index all of the given docs into temp_db_path.
@@ -2151,33 +2182,8 @@ def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_
         with write_lock:
             local_db.execute("pragma synchronous=0")
             local_db.execute("begin")
-            local_db.execute(
-                """
-                CREATE table if not exists inverted_index_segment(
-                    field text,
-                    value,
-                    docs_count,
-                    doc_ids roaring_bitmap,
-                    position_count,
-                    positions roaring_bitmap,
-                    first_doc_id
-                )
-                """
-            )
-
-            local_db.execute(
-                """
-                CREATE table if not exists batch_position(
-                    field,
-                    first_doc_id,
-                    last_doc_id,
-                    docs_count,
-                    doc_ids roaring_bitmap,
-                    doc_position_starts roaring_bitmap,
-                    primary key (field, first_doc_id)
-                )
-                """
-            )
+            for schema in SEGMENT_SCHEMA:
+                local_db.execute(schema.format(prefix=""))
 
             for field, (
                 batch_doc_ids,
-- 
2.43.0


From 4dd9845d1531e6e36aa63faf0e5047a774165aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 12/32] fix: roll back interrupted indexing and wait for its
 batches

An interrupted run left its transaction open, so later edits by the session
were silently added to a half deleted index that was never committed. Batches
still running could also recreate temporary files during the cleanup.
---
 hyperreal/index.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index d79eb1a..eeb9370 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -345,6 +345,7 @@ class Index:
         """
 
         workers = workers or self.pool._max_workers
+        futures = set()
 
         try:
             self.db.execute("pragma foreign_keys=0")
@@ -377,8 +378,6 @@ class Index:
             batch_doc_keys = []
             batch_size = 0
 
-            futures = set()
-
             self.logger.info("Beginning indexing.")
 
             for doc_key in doc_keys:
@@ -559,9 +558,17 @@ class Index:
 
             self.db.execute("commit")
 
-        except Exception:
+        except BaseException:
             self.logger.exception("Indexing failure.")
-            self.db.execute("rollback")
+
+            if self.db.in_transaction:
+                self.db.execute("rollback")
+
+            # Make sure that nothing is still writing to the temporary files.
+            for f in futures:
+                f.cancel()
+            cf.wait(futures)
+
             raise
 
         finally:
-- 
2.43.0


From e07b6953776aa2b9b4af061512fc93e70e694b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 13/32] fix: include the end of the passage and the full
 overhang when rendering

The end of a scored passage is inclusive, so the rendered text was cut one
value short.
---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index eeb9370..bf2c0b8 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2634,7 +2634,7 @@ def _construct_passages(idx, scored_passages, passage_overhang, combiner_fn=" ".
                 field, start, end = passage[:3]
                 passage_text = combiner_fn(
                     indexed[field][
-                        max(0, start - passage_overhang) : end + passage_overhang
+                        max(0, start - passage_overhang) : end + passage_overhang + 1
                     ]
                 )
 
-- 
2.43.0


From 5181636a4fc11665cd60c11021b8b8b07bf72e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 14/32] fix: tolerate repeated include_fields when initialising
 clusters

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index bf2c0b8..f859035 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -967,7 +967,7 @@ class Index:
 
         if include_fields:
             self.db.executemany(
-                "insert into include_field values(?)", [[f] for f in include_fields]
+                "insert into include_field values(?)", [[f] for f in set(include_fields)]
             )
         else:
             self.db.execute("insert into include_field select field from field_summary")
-- 
2.43.0


From cb7398f32fbd418fb61a0fd9c45252e05655f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 15/32] fix: sample passages independently of the order workers
 finish

The scored passages are in completion order of the background tasks, so the
sample differed between runs with the same seed.
---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index f859035..371a8f4 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -787,7 +787,7 @@ class Index:
         if random_sample_size is not None:
             keep_keys = heapq.nlargest(
                 random_sample_size,
-                ((self.random.random(), doc_id) for doc_id in scored_passages.keys()),
+                ((self.random.random(), doc_id) for doc_id in sorted(scored_passages)),
             )
             scored_passages = {
                 doc_id: scored_passages[doc_id] for _, doc_id in keep_keys
-- 
2.43.0


From 66384b9e4a220c9db1005482fb23fa3ca58b7cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 16/32] fix: order equally similar clusters deterministically
 when pivoting

---
 hyperreal/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 371a8f4..8790e18 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1209,7 +1209,8 @@ class Index:
         for f in cf.as_completed(futures):
             weights.extend(f.result()[1])
 
-        process_order = sorted(weights, key=lambda x: x[1], reverse=True)
+        # Note: break ties by cluster_id, as weights are in completion order.
+        process_order = sorted(weights, key=lambda x: (x[1], x[0]), reverse=True)
 
         if scoring == "jaccard":
             futures = [
-- 
2.43.0


From afb88bc34e8cff81266a6e94727e55b91c44ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 17/32] fix: allow pivoting with top_k=0

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 8790e18..2b696b1 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2272,7 +2272,7 @@ def _pivot_cluster_features_by_query_jaccard(
         # end up being checked when the similarity is low.
         for max_threshold, f_id, field, value, docs_count in search_order:
             # Early break if the length threshold can't be reached.
-            if max_threshold < results[0][0]:
+            if not results or max_threshold < results[0][0]:
                 break
 
             heapq.heappushpop(
-- 
2.43.0


From bcbdbcd8d1280b43168188cf7f395689ab589048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 18/32] fix: report failures when replacing corpus documents,
 roll back interrupts

Errors while replacing plain text documents were silently swallowed, and an
interrupted replacement or import was left half done.
---
 hyperreal/corpus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index dcc8fe0..4f1b19b 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -183,8 +183,9 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
-        except Exception:
+        except BaseException:
             self.db.execute("rollback to add_texts")
+            raise
 
         finally:
             self.db.execute("release add_texts")
@@ -461,7 +462,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
 
             self.db.execute("commit")
 
-        except Exception as e:
+        except BaseException as e:
             self.db.execute("rollback")
             raise
 
-- 
2.43.0


From 63c3baa82ca105f46e684504ca747b72081f5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 19/32] fix: raise MigrationError rather than NameError for
 unrelated databases

---
 hyperreal/_index_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 56288c3..ecb00cb 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -245,7 +245,7 @@ def migrate(db):
 
         if table_count > 0:
             raise MigrationError(
-                f"Database at '{db_path}' is not empty, and cannot be used as an index."
+                "The database is not empty, and cannot be used as an index."
             )
         else:
             db.execute("begin")
-- 
2.43.0


From 3605834ddcd83526ae52b62c14425c5cc8864d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 20/32] fix: don't migrate unrelated databases using the same
 version numbers

---
 hyperreal/_index_schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index ecb00cb..a201e35 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -238,6 +238,13 @@ def migrate(db):
 
     db_version = list(db.execute("pragma user_version"))[0][0]
 
+    # The version number alone doesn't mean much, as unrelated databases can be
+    # using the same numbers.
+    if db_version != 0 and not list(
+        db.execute("select 1 from sqlite_master where name = 'inverted_index'")
+    ):
+        raise MigrationError("The database is not an index.")
+
     if db_version == 0:
         # Check that this is a database with no tables, and error if not - don't
         # want to create these tables on top of an unrelated database.
-- 
2.43.0


From 45782ab1bc9e15d3e03a7da7c3a7c8a51e152cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 21/32] fix: complete migrations with clusters, leave refused
 databases untouched

Refreshing the clusters after a migration needed attributes of the index that
were not set yet, so opening an old index with clusters failed and left the
statistics stale. Unrelated databases were also switched to WAL mode before
being refused.
---
 hyperreal/index.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 2b696b1..d2dfa25 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -176,7 +176,6 @@ class Index:
         for statement in """
             pragma synchronous=NORMAL;
             pragma foreign_keys=ON;
-            pragma journal_mode=WAL;
             """.split(
             ";"
         ):
@@ -184,10 +183,8 @@ class Index:
 
         migrated = _index_schema.migrate(self.db)
 
-        if migrated:
-            self.db.execute("begin")
-            self._update_changed_clusters()
-            self.db.execute("commit")
+        # This modifies the file, so only do this once we know it is an index.
+        self.db.execute("pragma journal_mode=WAL")
 
         self.corpus = corpus
 
@@ -208,6 +205,13 @@ class Index:
         # Set up a context specific adapter for this index.
         self.logger = logging.LoggerAdapter(logger, {"index_db_path": self.db_path})
 
+        # Clusters are only pending here straight after a migration, or if a
+        # migration was stopped before finishing this step.
+        if migrated or list(self.db.execute("select 1 from changed_cluster limit 1")):
+            self.db.execute("begin")
+            self._update_changed_clusters(background=False)
+            self.db.execute("commit")
+
     @property
     def pool(self):
         """
-- 
2.43.0


From dcfd51e4e919f00fdbc8e606abdbd69000dd9941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 22/32] fix: is_index_db for files that aren't databases and
 special characters

---
 hyperreal/index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index d2dfa25..e956ae2 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -21,6 +21,7 @@ import random
 import sqlite3
 import tempfile
 from typing import Any, Union, Hashable, Optional
+import urllib.parse
 
 import networkx as nx
 from pyroaring import BitMap, FrozenBitMap, AbstractBitMap
@@ -237,12 +238,13 @@ class Index:
     def is_index_db(cls, db_path):
         """Returns True if a db exists at db_path and is an index db."""
         try:
-            db = sqlite3.connect(f"file:{db_path}?mode=ro", uri=True)
+            path = urllib.parse.quote(os.fspath(db_path))
+            db = sqlite3.connect(f"file:{path}?mode=ro", uri=True)
             return (
                 list(db.execute("pragma application_id"))[0][0]
                 == _index_schema.MAGIC_APPLICATION_ID
             )
-        except sqlite3.OperationalError:
+        except sqlite3.DatabaseError:
             return False
 
     def __enter__(self):
-- 
2.43.0


From 9b9addd0eebaecc1fa31b762593876e655b874ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 23/32] fix: show concordances in the web interface

The concordances were always replaced by the rendered documents.
---
 hyperreal/server.py             | 4 ++--
 hyperreal/templates/macros.html | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index c556705..2e1c9e9 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -134,7 +134,7 @@ class Cluster:
                         random_sample_size=int(exemplar_docs),
                     )
                 )
-            if result_type == "passage":
+            elif result_type == "passage":
                 passages = cherrypy.request.index.score_passages_dnf(passage_query, 25)
                 search_results = list(
                     cherrypy.request.index.render_passages_table(
@@ -384,7 +384,7 @@ class Index:
                             random_sample_size=int(exemplar_docs),
                         )
                     )
-                if result_type == "passage":
+                elif result_type == "passage":
                     passages = cherrypy.request.index.score_passages_dnf(
                         passage_query, 25
                     )
diff --git a/hyperreal/templates/macros.html b/hyperreal/templates/macros.html
index 00def5d..72178c4 100644
--- a/hyperreal/templates/macros.html
+++ b/hyperreal/templates/macros.html
@@ -121,7 +121,7 @@
 
 
 {% macro render_search_results(results, result_type) -%}
-    {% if result_type == 'concordances' %}
+    {% if result_type in ('concordance', 'concordances') %}
         {{ render_all_field_matches(results) }}
 
     {% elif result_type == 'passage' %}
-- 
2.43.0


From d1f4f576b996432c6f1e4520b355f26225b25fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 24/32] fix: read plain text documents as one document per line

The file was parsed as CSV, so documents were cut at the first comma, lines
were joined by unbalanced quotes, and JSON strings were not decoded.
---
 hyperreal/cli.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hyperreal/cli.py b/hyperreal/cli.py
index c7038ce..895d2b2 100644
--- a/hyperreal/cli.py
+++ b/hyperreal/cli.py
@@ -129,12 +129,23 @@ def plaintext_corpus_create(text_file, corpus_db):
     doc_corpus = hyperreal.corpus.PlainTextSqliteCorpus(corpus_db)
 
     with open(text_file, "r", encoding="utf-8") as infile:
-        f = csv.reader(infile)
+        f = (_decode_line(line.rstrip("\n")) for line in infile)
         # The only documents we drop are lines that are only whitespace.
-        docs = (line[0] for line in f if line and line[0].strip())
+        docs = (line for line in f if line.strip())
         doc_corpus.replace_docs(docs)
 
 
+def _decode_line(line):
+    """Decode lines that are JSON strings, everything else is used as is."""
+    if len(line) > 1 and line.startswith('"') and line.endswith('"'):
+        try:
+            return json.loads(line)
+        except json.JSONDecodeError:
+            pass
+
+    return line
+
+
 @plaintext_corpus.command(name="serve")
 @click.argument("corpus_db", type=click.Path(exists=True, dir_okay=False))
 @click.argument("index_db", type=click.Path(exists=True, dir_okay=False))
-- 
2.43.0


From f367cbe0c11d027348a6607007f063ac50d65358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 25/32] fix: interrupted indexing always detaches, cleans up
 and restores the session

---
 hyperreal/index.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index e956ae2..ca9511e 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -353,14 +353,21 @@ class Index:
         workers = workers or self.pool._max_workers
         futures = set()
 
-        try:
-            self.db.execute("pragma foreign_keys=0")
-            self.db.execute("begin")
-        except sqlite3.OperationalError:
+        if self.db.in_transaction:
             raise IndexingError(
                 "The `index` method can't be called in a nested transaction."
             )
 
+        try:
+            self.db.execute("pragma foreign_keys=0")
+            self.db.execute("begin")
+        except BaseException:
+            if self.db.in_transaction:
+                self.db.execute("rollback")
+
+            self.db.execute("pragma foreign_keys=1")
+            raise
+
         try:
             manager = mp.Manager()
             write_lock = manager.Lock()
@@ -581,10 +588,11 @@ class Index:
             self.db.execute("pragma foreign_keys=1")
             manager.shutdown()
 
-            if detach:
-                self.db.execute("detach tempindex")
-
-            tempdir.cleanup()
+            try:
+                if detach:
+                    self.db.execute("detach tempindex")
+            finally:
+                tempdir.cleanup()
 
         self.logger.info("Indexing completed.")
 
@@ -1837,7 +1845,9 @@ class Index:
             """
         )
 
-        changed = self.db.execute("select cluster_id from changed_cluster")
+        # Note that no cursor can be left part way through on an error: that would
+        # stop an attached database from being detached again.
+        changed = self.db.execute("select cluster_id from changed_cluster").fetchall()
 
         # Then update the union statistics for all of the clusters
         bg_args = (
-- 
2.43.0


From bc8f3683ddc9cc0202cf12a76de2bc7a39bbd97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 26/32] fix: label cluster graph nodes when values are not text

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index ca9511e..bebd747 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1910,7 +1910,7 @@ class Index:
                     f"{field}:{value}" for _, field, value, _ in top_features
                 )
             else:
-                label = ", ".join(value for _, field, value, _ in top_features)
+                label = ", ".join(f"{value}" for _, field, value, _ in top_features)
 
             graph.add_node(cluster_id, document_count=doc_count, label=label)
 
-- 
2.43.0


From f1ab1f20f1199c8bd6a1f730dfdf947af9b6ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 27/32] fix: roll back a replacement of documents which can't
 be stored

When the final release failed, or an interruption arrived right at the
begin, the transaction stayed open and later replacements were only ever
stored in it.
---
 hyperreal/corpus.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 4f1b19b..b7445fa 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -165,9 +165,16 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
     def replace_docs(self, texts):
         """Replace the existing documents with texts."""
         self.db.execute("pragma journal_mode=WAL")
-        self.db.execute("savepoint add_texts")
+
+        # If there's no transaction in progress the savepoint will start one, and
+        # ending it on the way out is our responsibility.
+        outermost = not self.db.in_transaction
+        entered = False
 
         try:
+            self.db.execute("savepoint add_texts")
+            entered = True
+
             self.db.execute("drop table if exists doc")
             self.db.execute(
                 """
@@ -183,13 +190,18 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
+            # Storing the new documents can fail as well.
+            self.db.execute("release add_texts")
+
         except BaseException:
-            self.db.execute("rollback to add_texts")
+            if self.db.in_transaction:
+                if outermost:
+                    self.db.execute("rollback")
+                elif entered:
+                    self.db.execute("rollback to add_texts")
+                    self.db.execute("release add_texts")
             raise
 
-        finally:
-            self.db.execute("release add_texts")
-
     def docs(self, doc_keys=None):
         self.db.execute("savepoint docs")
         try:
-- 
2.43.0


From e9d973dc2f54152d3c263d02b051bbd0f8a8eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 28/32] fix: close the database when opening an index fails

---
 hyperreal/index.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index bebd747..151fd90 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -182,7 +182,12 @@ class Index:
         ):
             self.db.execute(statement)
 
-        migrated = _index_schema.migrate(self.db)
+        try:
+            migrated = _index_schema.migrate(self.db)
+        except BaseException:
+            # Closing releases any locks and rewinds an incomplete migration.
+            self.db.close()
+            raise
 
         # This modifies the file, so only do this once we know it is an index.
         self.db.execute("pragma journal_mode=WAL")
@@ -209,9 +214,13 @@ class Index:
         # Clusters are only pending here straight after a migration, or if a
         # migration was stopped before finishing this step.
         if migrated or list(self.db.execute("select 1 from changed_cluster limit 1")):
-            self.db.execute("begin")
-            self._update_changed_clusters(background=False)
-            self.db.execute("commit")
+            try:
+                self.db.execute("begin")
+                self._update_changed_clusters(background=False)
+                self.db.execute("commit")
+            except BaseException:
+                self.db.close()
+                raise
 
     @property
     def pool(self):
-- 
2.43.0


From 042b723e314f3794597895c86898f2ee2a429c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 29/32] fix: answer pages about unknown clusters with not found

---
 hyperreal/server.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index 2e1c9e9..8969268 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -102,6 +102,10 @@ class Cluster:
 
         if filter_cluster_id is not None:
             filter_cluster_id = int(filter_cluster_id)
+
+            if filter_cluster_id not in other_clusters:
+                raise cherrypy.HTTPError(404)
+
             query &= cherrypy.request.index.cluster_docs(filter_cluster_id)
 
             filter_features = cherrypy.request.index.cluster_features(filter_cluster_id)
@@ -355,6 +359,9 @@ class Index:
             passage_query.append([highlight_feature_id])
 
         elif cluster_id is not None:
+            if int(cluster_id) not in cherrypy.request.index.cluster_ids:
+                raise cherrypy.HTTPError(404)
+
             cluster_docs = cherrypy.request.index.cluster_docs(int(cluster_id))
 
             if query is None:
-- 
2.43.0


From 884bf4b1bc641ddea5120c67b85e50c90fa58e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 30/32] fix: redirect after editing without any clusters
 selected

---
 hyperreal/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index 8969268..90a0e22 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -247,7 +247,9 @@ class ClusterOverview:
             minimum_cluster_features=int(minimum_cluster_features),
             iterations=int(iterations),
         )
-        if return_to == "cluster":
+        if not cluster_id:
+            raise cherrypy.HTTPRedirect(f"/index/{index_id}")
+        elif return_to == "cluster":
             raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{cluster_id[0]}")
         else:
             raise cherrypy.HTTPRedirect(
@@ -267,7 +269,9 @@ class ClusterOverview:
         cherrypy.request.index.pin_clusters(
             cluster_ids=cherrypy.request.params["cluster_id"], pinned=int(pinned)
         )
-        if return_to == "cluster":
+        if not cluster_id:
+            raise cherrypy.HTTPRedirect(f"/index/{index_id}")
+        elif return_to == "cluster":
             raise cherrypy.HTTPRedirect(f"/index/{index_id}/cluster/{cluster_id[0]}")
         else:
             raise cherrypy.HTTPRedirect(
-- 
2.43.0


From 3331abb2fcd88108348adc3c79b00c3fc6423492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 31/32] fix: index tweets which aren't replies or quotes with
 positions

---
 hyperreal/corpus.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index b7445fa..8f21c5e 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -1035,19 +1035,20 @@ class TwittersphereCorpus(SqliteBackedCorpus):
                 "by": [doc["user"]["username"]],
                 "url": doc["external_urls"],
                 "domain": doc["external_domains"],
-                "quoted_tweet_id": [doc["quoted_tweet_id"]],
-                "quoted_user": [doc.get("quoted_user", {}).get("username", None)],
-                "replied_to_tweet_id": [doc["replied_to_tweet_id"]],
-                "replied_to_user": [
+                # Sets, as these can be missing: only sets may contain None.
+                "quoted_tweet_id": {doc["quoted_tweet_id"]},
+                "quoted_user": {doc.get("quoted_user", {}).get("username", None)},
+                "replied_to_tweet_id": {doc["replied_to_tweet_id"]},
+                "replied_to_user": {
                     doc.get("replied_to_user", {}).get("username", None)
-                ],
+                },
                 "collection_label": doc["collection_labels"],
             }
         else:
             indexed = {
                 "by": [doc["user"]["username"]],
                 "retweeted_tweet_id": [doc["retweeted_tweet_id"]],
-                "retweeted_user": [doc.get("retweeted_user", {}).get("username", None)],
+                "retweeted_user": {doc.get("retweeted_user", {}).get("username", None)},
             }
 
         for granularity, dt in rounded_times.items():
-- 
2.43.0


From 872f6db0b867d1dc69a02de227dcd46705062b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 32/32] fix: latest username of the users tweets refer to

---
 hyperreal/corpus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 8f21c5e..73327d3 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -945,9 +945,9 @@ class TwittersphereCorpus(SqliteBackedCorpus):
                             self.db.execute(
                                 """
                                 select user_id, username
-                                from user_at_time
-                                where (user_id, retrieved_at) = (
-                                    select user_id, retrieved_at
+                                from user_latest
+                                where user_id = (
+                                    select user_id
                                     from tweet_latest
                                     where tweet_id = ?
                                 )
-- 
2.43.0

