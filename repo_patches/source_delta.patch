From 8e368b8318a9cb4d67d700b0999ec92adef1f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 01/35] fix: initialising clusters with a repeated field no
 longer fails

Joining against the list of included fields duplicated every feature of a
field named more than once, violating the primary key of feature_cluster.
---
 hyperreal/index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c84be27..1f3fac2 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -952,8 +952,8 @@ class Index:
                     feature_id,
                     docs_count
                 from inverted_index
-                inner join include_field using(field)
-                where docs_count >= ?
+                where field in (select field from include_field)
+                    and docs_count >= ?
                 -- Note: specify the ordering to ensure reproducibility, as these
                 -- results will be shuffled.
                 order by feature_id
-- 
2.43.0


From 2dc9be417683a57ea44282e121ed0a69366a1a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 02/35] fix: interrupted or failing edits no longer leave
 partial changes or open transactions

An interrupt (KeyboardInterrupt) committed the part of the edit already made,
and a failure while updating the changed clusters left the savepoint open, so
that nothing done later was committed.
---
 hyperreal/index.py | 49 ++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 1f3fac2..41b211e 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -95,39 +95,46 @@ def atomic(writes=False):
         @wraps(func)
         def wrapper(*args, **kwargs):
             self = args[0]
+            self._transaction_level += 1
+
             try:
-                self._transaction_level += 1
                 self.db.execute(f'savepoint "{func.__name__}"')
 
-                results = func(*args, **kwargs)
+                try:
+                    results = func(*args, **kwargs)
+
+                    if writes:
+                        self._changed = True
 
-                if writes:
-                    self._changed = True
+                    # We're at the outermost transaction level, and are about
+                    # to commit.
+                    if self._transaction_level == 1 and self._changed:
+                        self.logger.info(f"Changes detected - updating clusters.")
+                        # Note that this will check for changed queries, and will
+                        # therefore be a noop if there aren't any.
+                        self._update_changed_clusters()
 
-                return results
+                    self.db.execute(f'release "{func.__name__}"')
 
-            except Exception:
-                self.logger.exception("Error executing index method.")
-                # Rewind to the previous savepoint, then release it
-                # This is necessary to behave nicely whether we are operating
-                # inside a larger transaction or just in autocommit mode.
-                self.db.execute(f'rollback to "{func.__name__}"')
-                raise
+                    return results
+
+                # Note: this includes interrupts, so that a partial change is
+                # never committed.
+                except BaseException:
+                    self.logger.exception("Error executing index method.")
+                    # Rewind to the previous savepoint, then release it
+                    # This is necessary to behave nicely whether we are operating
+                    # inside a larger transaction or just in autocommit mode.
+                    self.db.execute(f'rollback to "{func.__name__}"')
+                    self.db.execute(f'release "{func.__name__}"')
+                    raise
 
             finally:
                 self._transaction_level -= 1
 
-                # We've decremented to the final transaction level and are about
-                # to commit.
-                if self._transaction_level == 0 and self._changed:
-                    self.logger.info(f"Changes detected - updating clusters.")
-                    # Note that this will check for changed queries, and will
-                    # therefore be a noop if there aren't any.
-                    self._update_changed_clusters()
+                if self._transaction_level == 0:
                     self._changed = False
 
-                self.db.execute(f'release "{func.__name__}"')
-
         return wrapper
 
     return atomic_wrapper
-- 
2.43.0


From 30f20ea754409dcec2f3bca063dbebf83a027da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 03/35] fix: position windows no longer extend into the next
 document

---
 hyperreal/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/utilities.py b/hyperreal/utilities.py
index 03ecd01..b1833db 100644
--- a/hyperreal/utilities.py
+++ b/hyperreal/utilities.py
@@ -153,7 +153,7 @@ def expand_positions_window(positions, doc_boundaries, window_size):
             next_start = doc_boundaries[rank]
 
         # Actually apply the window
-        end_range = min(next_start, position + window_size) + 1
+        end_range = min(next_start, position + window_size + 1)
         windowed.add_range(max(doc_start, position - window_size), end_range)
 
     return windowed
-- 
2.43.0


From 54ead8b798a8a3e7cbcc2a256507d5f271d34df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 04/35] fix: passage search keeps a final passage of a single
 position

---
 hyperreal/index.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 41b211e..afbf4f0 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2521,16 +2521,15 @@ def _score_passages_dnf(idx, field, first_doc_id, feature_clauses, window_size):
             else:
                 last_position = position
         else:
-            # Don't forget the last window, if it wasn't closed off.
-            if last_position != passage_start:
-                passage_scores[doc_id].append(
-                    (
-                        field,
-                        passage_start - doc_start,
-                        last_position - doc_start,
-                        positions.range_cardinality(passage_start, last_position + 1),
-                    )
+            # Don't forget the last window, which is never closed off in the loop.
+            passage_scores[doc_id].append(
+                (
+                    field,
+                    passage_start - doc_start,
+                    last_position - doc_start,
+                    positions.range_cardinality(passage_start, last_position + 1),
                 )
+            )
 
     return (
         field,
-- 
2.43.0


From b1f2e3ccd38b3c326fa2922cc4f2a6bdd7ea1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 05/35] fix: collocations only count features of the requested
 field

---
 hyperreal/index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index afbf4f0..daa6e4d 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2555,8 +2555,13 @@ def _count_collocations(idx, field, first_doc_id, features, window_size):
         )
 
         for (feature_id,) in idx.db.execute(
-            "select feature_id from position_index where first_doc_id = ?",
-            [first_doc_id],
+            """
+            select feature_id
+            from position_index
+            inner join inverted_index using(feature_id)
+            where (field, first_doc_id) = (?, ?)
+            """,
+            [field, first_doc_id],
         ):
             if feature_id not in features:
                 other_positions = idx._get_partition_positions(first_doc_id, feature_id)
-- 
2.43.0


From f0636b2bb066c3702cf06ac89f27bb6eaf862842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 06/35] fix: rendered passages include the last token of the
 overhang

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index daa6e4d..06129a4 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -2589,7 +2589,7 @@ def _construct_passages(idx, scored_passages, passage_overhang, combiner_fn=" ".
                 field, start, end = passage[:3]
                 passage_text = combiner_fn(
                     indexed[field][
-                        max(0, start - passage_overhang) : end + passage_overhang
+                        max(0, start - passage_overhang) : end + passage_overhang + 1
                     ]
                 )
 
-- 
2.43.0


From 8e88a03e1e61fe01ab104db18bbfc2c2ac7e651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 07/35] fix: refinement completes when every feature is pinned

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 06129a4..f63d5fd 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1647,7 +1647,7 @@ class Index:
             )
 
             if not dissolve_cluster_ids:
-                if (possible_moves / len(movable_features)) < tolerance:
+                if (possible_moves / max(1, len(movable_features))) < tolerance:
                     self.logger.info(
                         "Terminating refinement due to small number of feature moves."
                     )
-- 
2.43.0


From 4daf7b850d3de6ee47299977ebe498b434d034d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 08/35] fix: group testing scores every cluster, so that
 clusters can be dissolved

---
 hyperreal/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index f63d5fd..053a838 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1403,7 +1403,8 @@ class Index:
                 top_k=group_test_top_k,
             )
 
-            cluster_feature_checks = collections.defaultdict(set)
+            # Every cluster is scored, even when it is in no feature's best groups.
+            cluster_feature_checks = {c: set() for c in cluster_ids}
 
             # Convert best group results into individual cluster checks
             for feature, groups in best_groups.items():
-- 
2.43.0


From bbf5111ec17adb5cbdadb0b4b51ed936a7fb4b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 09/35] fix: splitting a cluster several ways no longer drops
 new clusters

---
 hyperreal/index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 053a838..6f50b60 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1748,6 +1748,8 @@ class Index:
 
         for cluster_id in new_cluster_ids:
             del cluster_feature[cluster_id]
+
+        for cluster_id in new_cluster_ids:
             cluster_feature[next_cluster_id] = new_cluster_feature[cluster_id]
             next_cluster_id += 1
 
-- 
2.43.0


From eec2b252d15eb1dec7ac27440f7dcd4f3baf44a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 10/35] fix: refinement completes when the target is at most
 the number of pinned clusters

---
 hyperreal/index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 6f50b60..a9fe6c7 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1721,6 +1721,10 @@ class Index:
                 del cluster_feature[cluster_id]
                 target_clusters -= 1
 
+        # The features of the remaining clusters have to go somewhere, even if
+        # there are at least as many pinned clusters as target clusters.
+        target_clusters = max(1, target_clusters)
+
         if group_test_batches is None:
             group_test_batches = math.ceil(len(cluster_feature) * 0.1)
 
-- 
2.43.0


From 176f09506d8fea6f6ae78bbaa6f873db71b2003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 11/35] fix: an empty corpus can be indexed

---
 hyperreal/index.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index a9fe6c7..4ba2262 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -405,7 +405,8 @@ class Index:
                             f.result()
 
             # Dispatch the final batch.
-            if batch_doc_keys:
+            # Note that an empty corpus is still a single (empty) batch.
+            if batch_doc_keys or not futures:
                 self.logger.debug("Dispatching final batch for indexing.")
                 futures.add(
                     self.pool.submit(
@@ -2095,8 +2096,8 @@ def _index_docs(corpus, doc_ids, doc_keys, temp_db_path, index_positions, write_
 
         docs = corpus.docs(doc_keys=doc_keys)
 
-        first_doc_id = doc_ids[0]
-        last_doc_id = doc_ids[-1]
+        first_doc_id = doc_ids[0] if doc_ids else None
+        last_doc_id = doc_ids[-1] if doc_ids else None
 
         for doc_id, (_, doc) in zip(doc_ids, docs):
             features = corpus.index(doc)
-- 
2.43.0


From a0627e7d1553b41b7f30fd3bca9e36c80b2fa87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 12/35] fix: indexing with a given working directory no longer
 fails

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 4ba2262..dee0b05 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -352,7 +352,7 @@ class Index:
 
             detach = False
 
-            tempdir = working_dir or tempfile.TemporaryDirectory()
+            tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
             # We're still inside a transaction here, so processes reading from
-- 
2.43.0


From d1066802e7d24e0d9948409dd2bd0af46c5c45ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 13/35] fix: the field summary no longer counts features that a
 re-index removed

---
 hyperreal/index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index dee0b05..a02370a 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -532,6 +532,8 @@ class Index:
                         0
                     )
                 from inverted_index ii
+                -- Features no longer present are kept, but match no documents.
+                where docs_count > 0
                 group by field
                 """
             )
-- 
2.43.0


From 710acaca550a11dd0e3c5fd870cca4df69d11422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 14/35] fix: interrupted or failing indexing leaves no open
 transaction and reports the failure

---
 hyperreal/index.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index a02370a..1167cb2 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -338,20 +338,22 @@ class Index:
 
         workers = workers or self.pool._max_workers
 
-        try:
-            self.db.execute("pragma foreign_keys=0")
-            self.db.execute("begin")
-        except sqlite3.OperationalError:
+        if self.db.in_transaction:
             raise IndexingError(
                 "The `index` method can't be called in a nested transaction."
             )
 
+        manager = None
+        tempdir = None
+        detach = False
+
         try:
+            self.db.execute("pragma foreign_keys=0")
+            self.db.execute("begin")
+
             manager = mp.Manager()
             write_lock = manager.Lock()
 
-            detach = False
-
             tempdir = tempfile.TemporaryDirectory(dir=working_dir)
             temp_index = os.path.join(tempdir.name, "temp_index.db")
 
@@ -549,19 +551,24 @@ class Index:
             self._update_changed_clusters()
             self.db.execute("commit")
 
-        except Exception:
+        # Note: this includes interrupts, so that no transaction is left open.
+        except BaseException:
             self.logger.exception("Indexing failure.")
-            self.db.execute("rollback")
+            if self.db.in_transaction:
+                self.db.execute("rollback")
             raise
 
         finally:
             self.db.execute("pragma foreign_keys=1")
-            manager.shutdown()
+
+            if manager is not None:
+                manager.shutdown()
 
             if detach:
                 self.db.execute("detach tempindex")
 
-            tempdir.cleanup()
+            if tempdir is not None:
+                tempdir.cleanup()
 
         self.logger.info("Indexing completed.")
 
-- 
2.43.0


From 351d7bad677d61a982339ace24a42e6a006a5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 15/35] fix: re-indexing replaces content and cluster summaries
 in a single transaction

---
 hyperreal/index.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 1167cb2..6b8a7bd 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -545,10 +545,10 @@ class Index:
                 "insert into changed_cluster select cluster_id from cluster"
             )
 
-            self.db.execute("commit")
-
-            self.db.execute("begin")
-            self._update_changed_clusters()
+            # The new content can't be seen by background processes before it is
+            # committed, so this runs here in order to be part of the same
+            # transaction.
+            self._update_changed_clusters(background=False)
             self.db.execute("commit")
 
         # Note: this includes interrupts, so that no transaction is left open.
@@ -1791,10 +1791,12 @@ class Index:
             ),
         )
 
-    def _update_changed_clusters(self):
+    def _update_changed_clusters(self, background=True):
         """
         Refresh cluster union queries for changed clusters.
 
+        The unions are calculated on the pool unless `background` is False.
+
         This is usually called from the `atomic` decorator, or when reindexing.
 
         It is assumed that this is called inside a transaction.
@@ -1813,7 +1815,7 @@ class Index:
             """
         )
 
-        changed = self.db.execute("select cluster_id from changed_cluster")
+        changed = list(self.db.execute("select cluster_id from changed_cluster"))
 
         # Then update the union statistics for all of the clusters
         bg_args = (
@@ -1837,7 +1839,12 @@ class Index:
 
         # Note that the data here may not have been committed yet, so we have
         # to read and pass the feature_ids to the background ourselves.
-        for cluster_id, query, weight in self.pool.map(_union_query, bg_args):
+        if background:
+            results = self.pool.map(_union_query, bg_args)
+        else:
+            results = [_union_features(*args) for args in bg_args]
+
+        for cluster_id, query, weight in results:
             self.db.execute(
                 """
                 update cluster set (docs_count, weight, doc_ids) = (?, ?, ?)
@@ -2410,16 +2417,18 @@ def measure_feature_contribution_to_cluster(
 
 
 def _union_query(args):
-    idx, query_key, feature_ids = args
+    with args[0]:
+        return _union_features(*args)
 
-    with idx:
-        query = BitMap()
-        weight = 0
 
-        for feature_id in feature_ids:
-            docs = idx[feature_id]
-            query |= docs
-            weight += len(docs)
+def _union_features(idx, query_key, feature_ids):
+    query = BitMap()
+    weight = 0
+
+    for feature_id in feature_ids:
+        docs = idx[feature_id]
+        query |= docs
+        weight += len(docs)
 
     return query_key, query, weight
 
-- 
2.43.0


From ed0cd17139cf2ded0ba09b3754e5e12016f3db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 16/35] fix: failing to replace plain text documents is
 reported to the caller

---
 hyperreal/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index dcc8fe0..7e2fb76 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -183,8 +183,9 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
-        except Exception:
+        except BaseException:
             self.db.execute("rollback to add_texts")
+            raise
 
         finally:
             self.db.execute("release add_texts")
-- 
2.43.0


From d2e25fc4fed3fbdfc923fbbabec58642aecf83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 17/35] fix: creating a plain text corpus keeps each line as
 one complete document

---
 hyperreal/cli.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hyperreal/cli.py b/hyperreal/cli.py
index c7038ce..e9568fd 100644
--- a/hyperreal/cli.py
+++ b/hyperreal/cli.py
@@ -129,12 +129,25 @@ def plaintext_corpus_create(text_file, corpus_db):
     doc_corpus = hyperreal.corpus.PlainTextSqliteCorpus(corpus_db)
 
     with open(text_file, "r", encoding="utf-8") as infile:
-        f = csv.reader(infile)
         # The only documents we drop are lines that are only whitespace.
-        docs = (line[0] for line in f if line and line[0].strip())
+        docs = (_parse_document_line(line) for line in infile if line.strip())
         doc_corpus.replace_docs(docs)
 
 
+def _parse_document_line(line):
+    """Return the single document on this line of a plain text file."""
+    doc = line.rstrip("\r\n")
+
+    if len(doc) > 1 and doc.startswith('"') and doc.endswith('"'):
+        try:
+            return json.loads(doc)
+        except ValueError:
+            # Just a line of text starting and ending with a quotation.
+            pass
+
+    return doc
+
+
 @plaintext_corpus.command(name="serve")
 @click.argument("corpus_db", type=click.Path(exists=True, dir_okay=False))
 @click.argument("index_db", type=click.Path(exists=True, dir_okay=False))
-- 
2.43.0


From c4aa4d0214d110cb3267138fd2e3ff590f764e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 18/35] fix: failing to commit new plain text documents leaves
 no open transaction

---
 hyperreal/corpus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 7e2fb76..d9358d9 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -183,12 +183,12 @@ class PlainTextSqliteCorpus(SqliteBackedCorpus):
                 "insert or ignore into doc(text) values(?)", ([t] for t in texts)
             )
 
+            self.db.execute("release add_texts")
+
         except BaseException:
             self.db.execute("rollback to add_texts")
-            raise
-
-        finally:
             self.db.execute("release add_texts")
+            raise
 
     def docs(self, doc_keys=None):
         self.db.execute("savepoint docs")
-- 
2.43.0


From 615e07c91f8b247e6ea7f53ae2ed3c8e44ed3ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 19/35] fix: an interrupted Stack Exchange import is rolled
 back and reported

---
 hyperreal/corpus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index d9358d9..b8651d7 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -340,9 +340,9 @@ class StackExchangeCorpus(SqliteBackedCorpus):
             """
         )
 
-        try:
-            self.db.execute("begin")
+        self.db.execute("begin")
 
+        try:
             # Process Posts, which includes both questions and answers.
             tag_splitter = re.compile("<|>|<>")
 
@@ -462,7 +462,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
 
             self.db.execute("commit")
 
-        except Exception as e:
+        except BaseException:
             self.db.execute("rollback")
             raise
 
-- 
2.43.0


From b0e1e71f6f09a047d7a30a7d0276a0b166e8a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 20/35] fix: opening a database that is not an index reports
 the migration error

---
 hyperreal/_index_schema.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 56288c3..b79f806 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -244,6 +244,7 @@ def migrate(db):
         table_count = list(db.execute("select count(*) from sqlite_master"))[0][0]
 
         if table_count > 0:
+            db_path = list(db.execute("pragma database_list"))[0][2]
             raise MigrationError(
                 f"Database at '{db_path}' is not empty, and cannot be used as an index."
             )
-- 
2.43.0


From 07087bba0f9796b2005eec1c4b7a27324c24643f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 21/35] fix: databases of other applications are refused
 whatever their version

---
 hyperreal/_index_schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index b79f806..8782beb 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -260,6 +260,10 @@ def migrate(db):
         # as in this case there won't be any further action to take.
         return False
 
+    elif list(db.execute("pragma application_id"))[0][0] != MAGIC_APPLICATION_ID:
+        # Another application also uses the schema version.
+        raise MigrationError("The database belongs to another application.")
+
     elif db_version == CURRENT_SCHEMA_VERSION:
         return False
 
-- 
2.43.0


From ae4a2bb7374f40e2592a9344074a0a8640748c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 22/35] fix: upgrading an old index completes or leaves it at
 its version

---
 hyperreal/_index_schema.py | 10 ++--------
 hyperreal/index.py         | 40 +++++++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/hyperreal/_index_schema.py b/hyperreal/_index_schema.py
index 8782beb..25a13c9 100644
--- a/hyperreal/_index_schema.py
+++ b/hyperreal/_index_schema.py
@@ -232,6 +232,8 @@ def migrate(db):
     """
     Migrate the database to the current version of the index schema.
 
+    This needs to be called inside a transaction.
+
     Returns True if a migration operation ran, False otherwise.
 
     """
@@ -249,13 +251,9 @@ def migrate(db):
                 f"Database at '{db_path}' is not empty, and cannot be used as an index."
             )
         else:
-            db.execute("begin")
-
             for statement in CURRENT_SCHEMA.split("--------"):
                 db.execute(statement)
 
-            db.execute("commit")
-
         # Note that an initialisation is treated as if the index already existed
         # as in this case there won't be any further action to take.
         return False
@@ -268,8 +266,6 @@ def migrate(db):
         return False
 
     elif db_version in migrations:
-        db.execute("begin")
-
         m = sorted(migrations.items())
 
         # Run premigration steps
@@ -288,8 +284,6 @@ def migrate(db):
                 for statement in migration[1]:
                     db.execute(statement)
 
-        db.execute("commit")
-
         return True
 
     else:
diff --git a/hyperreal/index.py b/hyperreal/index.py
index 6b8a7bd..4f08be8 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -164,24 +164,42 @@ class Index:
         self.random = random.Random(random_seed)
 
         self._pool = pool
+        self.corpus = corpus
+
+        # Set up a context specific adapter for this index.
+        self.logger = logging.LoggerAdapter(logger, {"index_db_path": self.db_path})
+
+        # For tracking the state of nested transactions. This is incremented
+        # everytime a savepoint is entered with the @atomic() decorator, and
+        # decremented on leaving. Housekeeping functions will run when leaving
+        # the last savepoint by committing a transaction.
+        self._transaction_level = 0
+        self._changed = False
 
         for statement in """
             pragma synchronous=NORMAL;
             pragma foreign_keys=ON;
-            pragma journal_mode=WAL;
             """.split(
             ";"
         ):
             self.db.execute(statement)
 
-        migrated = _index_schema.migrate(self.db)
+        # The migration includes refreshing the summaries of the clusters, so
+        # that an upgrade either completes or leaves the earlier version.
+        self.db.execute("begin")
+
+        try:
+            if _index_schema.migrate(self.db):
+                self._update_changed_clusters(background=False)
 
-        if migrated:
-            self.db.execute("begin")
-            self._update_changed_clusters()
             self.db.execute("commit")
 
-        self.corpus = corpus
+        except BaseException:
+            self.db.execute("rollback")
+            raise
+
+        # Only once this is known to be an index.
+        self.db.execute("pragma journal_mode=WAL")
 
         self.settings = {
             row[0]: row[1] for row in self.db.execute("select key, value from settings")
@@ -190,16 +208,6 @@ class Index:
         # TODO: reach into the corpus for this instead.
         self.settings["display_query_results"] = "document"
 
-        # For tracking the state of nested transactions. This is incremented
-        # everytime a savepoint is entered with the @atomic() decorator, and
-        # decremented on leaving. Housekeeping functions will run when leaving
-        # the last savepoint by committing a transaction.
-        self._transaction_level = 0
-        self._changed = False
-
-        # Set up a context specific adapter for this index.
-        self.logger = logging.LoggerAdapter(logger, {"index_db_path": self.db_path})
-
     @property
     def pool(self):
         """
-- 
2.43.0


From eb7aa0fa77e42156169931ceb9ec0ef5b71082ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 23/35] fix: checking a file that is not a database for an
 index returns false

---
 hyperreal/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 4f08be8..29dff7f 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -238,7 +238,8 @@ class Index:
                 list(db.execute("pragma application_id"))[0][0]
                 == _index_schema.MAGIC_APPLICATION_ID
             )
-        except sqlite3.OperationalError:
+        # Note that this includes files that aren't databases at all.
+        except sqlite3.DatabaseError:
             return False
 
     def __enter__(self):
-- 
2.43.0


From 526eb0a2f4dab6326b5f0d104739fa5d3582f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 24/35] fix: checking for an index handles paths with special
 characters

---
 hyperreal/index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 29dff7f..c3e199e 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -17,6 +17,7 @@ import logging
 import math
 import multiprocessing as mp
 import os
+import pathlib
 import random
 import sqlite3
 import tempfile
@@ -233,7 +234,9 @@ class Index:
     def is_index_db(cls, db_path):
         """Returns True if a db exists at db_path and is an index db."""
         try:
-            db = sqlite3.connect(f"file:{db_path}?mode=ro", uri=True)
+            # Special characters in the path need to be quoted.
+            uri = pathlib.Path(db_path).absolute().as_uri()
+            db = sqlite3.connect(f"{uri}?mode=ro", uri=True)
             return (
                 list(db.execute("pragma application_id"))[0][0]
                 == _index_schema.MAGIC_APPLICATION_ID
-- 
2.43.0


From 52c3ae2367f1466eb5a6f114996bfba52365a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 25/35] fix: requests for indexes and clusters that do not
 exist are answered with not found

---
 hyperreal/server.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index c556705..71ff12e 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -19,10 +19,18 @@ templates = Environment(
 )
 
 
+def numeric_id(value):
+    """Convert an ID from a request, anything else than a number is not found."""
+    try:
+        return int(value)
+    except ValueError:
+        raise cherrypy.HTTPError(404)
+
+
 @cherrypy.tools.register("before_handler")
 def lookup_index():
     """This tool looks up the provided index using the configured webserver."""
-    index_id = int(cherrypy.request.params["index_id"])
+    index_id = numeric_id(cherrypy.request.params["index_id"])
     cherrypy.request.index = cherrypy.request.config["index_server"].index(index_id)
 
 
@@ -66,7 +74,7 @@ class Cluster:
 
         template = templates.get_template("cluster.html")
 
-        cluster_id = int(cluster_id)
+        cluster_id = numeric_id(cluster_id)
 
         # Work out
         other_clusters = cherrypy.request.index.cluster_ids
@@ -101,7 +109,11 @@ class Cluster:
             passage_query.append([feature_id])
 
         if filter_cluster_id is not None:
-            filter_cluster_id = int(filter_cluster_id)
+            filter_cluster_id = numeric_id(filter_cluster_id)
+
+            if filter_cluster_id not in other_clusters:
+                raise cherrypy.HTTPError(404)
+
             query &= cherrypy.request.index.cluster_docs(filter_cluster_id)
 
             filter_features = cherrypy.request.index.cluster_features(filter_cluster_id)
@@ -355,6 +367,9 @@ class Index:
             passage_query.append([highlight_feature_id])
 
         elif cluster_id is not None:
+            if numeric_id(cluster_id) not in cherrypy.request.index.cluster_ids:
+                raise cherrypy.HTTPError(404)
+
             cluster_docs = cherrypy.request.index.cluster_docs(int(cluster_id))
 
             if query is None:
-- 
2.43.0


From 681f710db03fd6ad63e26a5c6dde22e2bdb7ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 26/35] fix: original tweets can be indexed with positions

---
 hyperreal/corpus.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index b8651d7..56ba07d 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -1023,19 +1023,21 @@ class TwittersphereCorpus(SqliteBackedCorpus):
                 "by": [doc["user"]["username"]],
                 "url": doc["external_urls"],
                 "domain": doc["external_domains"],
-                "quoted_tweet_id": [doc["quoted_tweet_id"]],
-                "quoted_user": [doc.get("quoted_user", {}).get("username", None)],
-                "replied_to_tweet_id": [doc["replied_to_tweet_id"]],
-                "replied_to_user": [
+                # These are sets rather than sequences because they are missing
+                # (None) for most tweets.
+                "quoted_tweet_id": {doc["quoted_tweet_id"]},
+                "quoted_user": {doc.get("quoted_user", {}).get("username", None)},
+                "replied_to_tweet_id": {doc["replied_to_tweet_id"]},
+                "replied_to_user": {
                     doc.get("replied_to_user", {}).get("username", None)
-                ],
+                },
                 "collection_label": doc["collection_labels"],
             }
         else:
             indexed = {
                 "by": [doc["user"]["username"]],
                 "retweeted_tweet_id": [doc["retweeted_tweet_id"]],
-                "retweeted_user": [doc.get("retweeted_user", {}).get("username", None)],
+                "retweeted_user": {doc.get("retweeted_user", {}).get("username", None)},
             }
 
         for granularity, dt in rounded_times.items():
-- 
2.43.0


From aa588f3a3f9dd94654cf87dbe1914022faa31121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 27/35] fix: passages are in the same order whatever order
 background jobs complete in

---
 hyperreal/index.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index c3e199e..8ec5470 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1967,11 +1967,13 @@ class Index:
                 if field in positional_fields:
                     field_clauses[field].append(clause)
 
-        futures = set()
+        # Collect results in the order of submission, so that they don't depend
+        # on the order that background jobs complete in.
+        futures = []
 
         for field, query in field_clauses.items():
             for first_doc_id in self._field_partitions(field):
-                futures.add(
+                futures.append(
                     self.pool.submit(
                         _score_passages_dnf,
                         self,
@@ -1984,7 +1986,7 @@ class Index:
 
         passages = collections.defaultdict(list)
 
-        for future in cf.as_completed(futures):
+        for future in futures:
             field, _, scores = future.result()
             for doc_id, doc_passages in scores.items():
                 passages[doc_id].extend(doc_passages)
-- 
2.43.0


From d0b38352a7f195ee08969d19e8dfc11ad5098a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 28/35] fix: pages show concordances when asked for
 concordances

---
 hyperreal/server.py             | 4 ++--
 hyperreal/templates/macros.html | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index 71ff12e..f76bc3f 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -146,7 +146,7 @@ class Cluster:
                         random_sample_size=int(exemplar_docs),
                     )
                 )
-            if result_type == "passage":
+            elif result_type == "passage":
                 passages = cherrypy.request.index.score_passages_dnf(passage_query, 25)
                 search_results = list(
                     cherrypy.request.index.render_passages_table(
@@ -399,7 +399,7 @@ class Index:
                             random_sample_size=int(exemplar_docs),
                         )
                     )
-                if result_type == "passage":
+                elif result_type == "passage":
                     passages = cherrypy.request.index.score_passages_dnf(
                         passage_query, 25
                     )
diff --git a/hyperreal/templates/macros.html b/hyperreal/templates/macros.html
index 00def5d..fda1943 100644
--- a/hyperreal/templates/macros.html
+++ b/hyperreal/templates/macros.html
@@ -121,7 +121,7 @@
 
 
 {% macro render_search_results(results, result_type) -%}
-    {% if result_type == 'concordances' %}
+    {% if result_type == 'concordance' %}
         {{ render_all_field_matches(results) }}
 
     {% elif result_type == 'passage' %}
-- 
2.43.0


From e662b015f60f0caf9ca4ac8d7b5873a1f96ba0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 29/35] fix: searching from the page of cluster 0 stays with
 that cluster

---
 hyperreal/templates/macros.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/templates/macros.html b/hyperreal/templates/macros.html
index fda1943..c0a5471 100644
--- a/hyperreal/templates/macros.html
+++ b/hyperreal/templates/macros.html
@@ -100,7 +100,7 @@
         <label for="site-search">for</label>
         <input type="search" id="target_value" name="value" />
         <button type="submit">Search</button>
-        {% if cluster_id %}
+        {% if cluster_id is not none %}
         <input type="hidden" name="cluster_id" value="{{ cluster_id }}"/>
         {% endif %}
     </form>
-- 
2.43.0


From d328f3af98bcdfb7ec3c3624a6742ed3d9ce51e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 30/35] fix: the other of two clusters links back to cluster 0

---
 hyperreal/templates/cluster.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/templates/cluster.html b/hyperreal/templates/cluster.html
index 5285055..4aea7d5 100644
--- a/hyperreal/templates/cluster.html
+++ b/hyperreal/templates/cluster.html
@@ -14,7 +14,7 @@
 
 <ul class="nav-links">
     <li><a href="/index/{{ index_id }}/cluster/{{ cluster_id }}">Cluster Overview</a></li>
-    {% if prev_cluster_id or next_cluster_id %}
+    {% if prev_cluster_id is not none or next_cluster_id is not none %}
     <li><a href="/index/{{ index_id }}/cluster/{{ prev_cluster_id }}">Previous Cluster</li>
     <li><a href="/index/{{ index_id }}/cluster/{{ next_cluster_id }}">Next Cluster</li>
     {% endif %}
-- 
2.43.0


From 9b3a517ceefecccb4a71dfc58b1b7689028324c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 31/35] fix: names, tags and licences of Stack Exchange posts
 are shown as text, not markup

---
 hyperreal/corpus.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 56ba07d..cb2a01b 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -549,15 +549,15 @@ class StackExchangeCorpus(SqliteBackedCorpus):
     TEMPLATE = Template(
         """
         <details>
-            <summary><em>{{ base_fields["QuestionTitle"] | e }}</em> - {{ base_fields["PostType"] }} from {{ base_fields["site_url"] }}</summary>
+            <summary><em>{{ base_fields["QuestionTitle"] | e }}</em> - {{ base_fields["PostType"] }} from {{ base_fields["site_url"] | e }}</summary>
             
             <p>
                 <small>
-                    <a href="{{ base_fields["LiveLink"] }}">Live Link</a>
-                    Copyright {{ base_fields["ContentLicense"]}} by
+                    <a href="{{ base_fields["LiveLink"] | e }}">Live Link</a>
+                    Copyright {{ base_fields["ContentLicense"] | e }} by
                     {% if base_fields["OwnerUserId"] %}
-                    <a href="{{ '{}/users/{}'.format(base_fields["site_url"], base_fields["OwnerUserId"]) }}">
-                        {{ base_fields["DisplayName"] }}
+                    <a href="{{ '{}/users/{}'.format(base_fields["site_url"], base_fields["OwnerUserId"]) | e }}">
+                        {{ base_fields["DisplayName"] | e }}
                     </a>
                     {% else %}
                     <Deleted User>
@@ -571,7 +571,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                 <summary>Tags:</summary>
                 <ul>
                     {% for tag in tags %}
-                    <li>{{ tag }}
+                    <li>{{ tag | e }}
                     {% endfor %}
                 </ul>
             </details>
@@ -582,10 +582,10 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                     {% for comment in user_comments %}
                         <li>{{ comment["Text"] | e}}
                             <small>
-                                Copyright {{ comment["ContentLicense"]}} by
+                                Copyright {{ comment["ContentLicense"] | e }} by
                                 {% if comment["UserId"] %}
-                                <a href="{{ '{}/users/{}'.format(comment["site_url"], comment["UserId"]) }}">
-                                    {{ comment["DisplayName"] }}
+                                <a href="{{ '{}/users/{}'.format(comment["site_url"], comment["UserId"]) | e }}">
+                                    {{ comment["DisplayName"] | e }}
                                 </a>
                                 {% else %}
                                 <Deleted User>
-- 
2.43.0


From cb3d4757ed997cba53a6e8535201c5f08fea43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 32/35] fix: rendered Stack Exchange posts name deleted users
 visibly

---
 hyperreal/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index cb2a01b..468f703 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -560,7 +560,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                         {{ base_fields["DisplayName"] | e }}
                     </a>
                     {% else %}
-                    <Deleted User>
+                    &lt;Deleted User&gt;
                     {% endif %}
                 </small>
             </p>
@@ -588,7 +588,7 @@ class StackExchangeCorpus(SqliteBackedCorpus):
                                     {{ comment["DisplayName"] | e }}
                                 </a>
                                 {% else %}
-                                <Deleted User>
+                                &lt;Deleted User&gt;
                                 {% endif %}
                             </small>
                         </li>
-- 
2.43.0


From 9153edc87ee9223bc87a44ac7067de3a6e16a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 33/35] fix: names of Twitter users are shown as text, not
 markup

---
 hyperreal/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperreal/corpus.py b/hyperreal/corpus.py
index 468f703..33f5a44 100644
--- a/hyperreal/corpus.py
+++ b/hyperreal/corpus.py
@@ -961,9 +961,9 @@ class TwittersphereCorpus(SqliteBackedCorpus):
         """
         <div>
             <span>
-            <img src={{ doc["user"]["profile_image_url"] }}>
+            <img src="{{ doc["user"]["profile_image_url"] | e }}">
             <a href="https://twitter.com/{{ doc["user"]["username"] }}">@{{ doc["user"]["username"] }}</a>
-            {{ doc["user"]["name"] }} on <a href="https://twitter.com/{{ doc["user"]["username"] }}/status/{{ doc["tweet_id"] }}">
+            {{ doc["user"]["name"] | e }} on <a href="https://twitter.com/{{ doc["user"]["username"] }}/status/{{ doc["tweet_id"] }}">
                 <time datetime="{{ doc['created_at'] }}">{{ doc['created_at'] }}</time>
             </a>
             </span>
-- 
2.43.0


From f54ee6ae2ae1cd147be4c5196d50641dd66be017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:24 +0000
Subject: [PATCH 34/35] fix: cluster graphs can be labelled without fields
 whatever the type of their values

---
 hyperreal/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperreal/index.py b/hyperreal/index.py
index 8ec5470..2cb3f7c 100644
--- a/hyperreal/index.py
+++ b/hyperreal/index.py
@@ -1890,7 +1890,7 @@ class Index:
                     f"{field}:{value}" for _, field, value, _ in top_features
                 )
             else:
-                label = ", ".join(value for _, field, value, _ in top_features)
+                label = ", ".join(f"{value}" for _, field, value, _ in top_features)
 
             graph.add_node(cluster_id, document_count=doc_count, label=label)
 
-- 
2.43.0


From 1161e17a7b5299e1b4a8d16ee6d4e6f0a25ec865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:26 +0000
Subject: [PATCH 35/35] fix: refining an empty selection of clusters refined
 the whole model

---
 hyperreal/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperreal/server.py b/hyperreal/server.py
index f76bc3f..af0f839 100644
--- a/hyperreal/server.py
+++ b/hyperreal/server.py
@@ -244,6 +244,10 @@ class ClusterOverview:
         return_to="cluster",
         minimum_cluster_features="1",
     ):
+        # Refining an empty selection would refine all of the clusters.
+        if not cherrypy.request.params["cluster_id"]:
+            raise cherrypy.HTTPRedirect(f"/index/{index_id}/")
+
         if target_clusters:
             target_clusters = int(target_clusters)
         else:
-- 
2.43.0

