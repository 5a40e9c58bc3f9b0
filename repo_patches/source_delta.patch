From 3f254da0d3204349d915f548267f7d37f91b5ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 01/97] fix: choose the default temporary directory without a
 KeyError

The condition was inverted: a handler without 'tmp-path' and 'output-path' failed with KeyError, and one with an
'output-path' ignored it.
---
 nephosem/core/handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 616e9a0..c34092d 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -255,8 +255,8 @@ class BaseHandler(Paralleler):
         if 'tmp-path' not in self.settings:
             # if 'tmp-path' is not set in the settings
             logger.warning("Not provide the temporary path!")
-            if 'output-path' not in self.settings:
-                # if 'output-path' is not set in the settings, use /output-path/tmp
+            if 'output-path' in self.settings:
+                # if 'output-path' is set in the settings, use /output-path/tmp
                 _tmpdir = os.path.join(self.settings['output-path'], 'tmp')
                 logger.warning("Use a sub tmp directory of the output-path: '/output-path/tmp'!")
             else:
-- 
2.43.0


From fcffe770fe4e49fe6ab2c7e14ff983b1497334ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 02/97] fix: read .fnames files with the right directory and
 encoding

The encoding was passed as the corpus directory.
---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index c34092d..6efc292 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -291,7 +291,7 @@ class BaseHandler(Paralleler):
                 pass  # do nothing, already a list of (string) file names
             elif isinstance(fnames, str):
                 # read file names recorded in the `fnames` ('xx.fnames') file
-                fnames = read_fnames(fnames, self.encoding)
+                fnames = read_fnames(fnames, dirname=self.corpus_path, encoding=self.encoding)
             else:
                 raise ValueError("Not support other types of 'fnames' (only str or a list of strings)!")
         if len(fnames) <= 0:
-- 
2.43.0


From 6b72eb3eca8b4ffc1b941e35ef42f2326777b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 03/97] fix: use at least one worker process

On a single-core machine no worker was started and the results were waited for forever.
---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 6efc292..a99cf09 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -85,7 +85,7 @@ class Paralleler(object):
 
     def __init__(self, workers=0, **kwargs):
         # the number of CPU cores used by the program
-        self.workers = workers if 0 < workers < mp.cpu_count() else mp.cpu_count()-1
+        self.workers = workers if 0 < workers < mp.cpu_count() else max(1, mp.cpu_count()-1)
         # add other possible arguments to the `__dict__` of the class
         self.__dict__.update(kwargs)
         # set default tmpdir
-- 
2.43.0


From c7c10b78d0480d934314cfc2d4ba55631e1b2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 04/97] fix: raise when a worker process failed

A worker that died left the caller waiting forever for its results, or made it
return a result without the files of that worker.
---
 nephosem/core/handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index a99cf09..2739893 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -147,6 +147,11 @@ class Paralleler(object):
         
         for worker in workers:
             worker.join()
+        failed = [worker.exitcode for worker in workers if worker.exitcode != 0]
+        if failed:
+            # results of at least one file are missing
+            raise RuntimeError("{} of {} worker processes failed (exit codes: {})!"
+                               .format(len(failed), len(workers), failed))
 
         # merge results of different sub-processes
         result = self._process_results(res_queue, n=len(fnames))
-- 
2.43.0


From 1b39fec7003eeaf3c5f150ae02cc99e592ea8c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 05/97] fix: do not empty ~/tmp when a handler is created

Every construction deleted all user files in ~/tmp and the temporary results of
any other handler running there.
---
 nephosem/core/handler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 2739893..b2bf37a 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -42,7 +42,7 @@ import multiprocessing as mp
 import nephosem
 from nephosem import progbar, trange
 from nephosem.core.terms import CorpusFormatter, Window
-from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir, clean_dir
+from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir
 
 logger = logging.getLogger(__name__)
 homedir = os.path.expanduser('~')
@@ -91,7 +91,6 @@ class Paralleler(object):
         # set default tmpdir
         self.tmpdir = nephosem.tmpdir
         make_dir(self.tmpdir)
-        clean_dir(self.tmpdir)
 
     @property
     def pid(self):
-- 
2.43.0


From 7495d176ea7a57be1bcd258b1eea7c3bb6a2f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 06/97] fix: count the collocates of the last token of a short
 segment

In segments not longer than the right span the last token was never a node.
---
 nephosem/models/typetoken.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index b16b9de..9f89413 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -433,10 +433,9 @@ class ColFreqHandler(BaseHandler):
             while win.node is None and i < win.right_span:
                 win.update(None)
                 i += 1
-            while win.node and i < win.right_span:
+            while win.node:
                 self.update_one_match(matrix, win)
                 win.update(None)
-                i += 1
             return
 
         # normal cases:
-- 
2.43.0


From 62796917bf58f1ea9e4233b4ba69be4a41a91085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 07/97] fix: retrieve tokens with a right span of zero

An empty right window raised IndexError in the worker.
---
 nephosem/models/typetoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 9f89413..72fd26e 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -623,7 +623,7 @@ class TokenHandler(BaseHandler):
         # handle special cases:
         # [None, ..., None] None [None, .., match, match, .., match]
         # TODO: check                                           ^ must be not None???
-        if win.node is None and win.right[-1] is not None:
+        if win.node is None and win.right and win.right[-1] is not None:
             # update at most right_span times
             while win.node is None:
                 win.update(None)
-- 
2.43.0


From 71fee5e7cb9f85bfaf63a8dea02dbec74f27bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 08/97] fix: collect the tokens of all workers

Idle workers also put a result, so reading one result per file dropped the
tokens of some workers whenever a worker got no file.
---
 nephosem/models/typetoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 72fd26e..ffc8277 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -643,7 +643,8 @@ class TokenHandler(BaseHandler):
         type2toks = defaultdict(list)
         logger.info("Merging results")
 
-        for _ in trange(n):
+        # workers that got no file also put their (empty) dict into the queue
+        for _ in trange(res_queue.qsize()):
             res = res_queue.get()
             # when data in res_queue is a `type2toks` dict
             if isinstance(res, dict):
-- 
2.43.0


From c7cb08493f1c42c37d4953e67c74a603945edd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 09/97] fix: accept settings with one of the two separator line
 patterns

The lookup of the present key was crossed, so setting only one of
'separator-line-machine' and 'single-boundary-machine' raised KeyError.
---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index ce1679a..9de4c26 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -586,9 +586,9 @@ class CorpusFormatter(object):
 
         self.bound_mech = settings['boundary-detection-mechanism']
         if self.bound_mech == 'single':
-            if 'single-boundary-machine' in settings:
+            if 'separator-line-machine' in settings:
                 self._single_bound_machine = re.compile(settings['separator-line-machine'])
-            elif 'separator-line-machine' in settings:
+            elif 'single-boundary-machine' in settings:
                 self._single_bound_machine = re.compile(settings['single-boundary-machine'])
             else:
                 raise KeyError("You have set single boundary mechanism, "
-- 
2.43.0


From b04e855c2f24499a0f4a102137739fa3999f0877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 10/97] fix: an empty target filter does not restrict
 dependency matches

---
 nephosem/specutils/deputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index e00daba..06cc817 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -246,8 +246,8 @@ def add_match(sentence, lmatches, macro):
             nodemapping.update(m)
         # remap feature node to sentence node label (type)
         matched_nodes = {fn: sentence.nodes[sn] for fn, sn in nodemapping.items()}
-        # if the target filter is given, check whether the matched target node appear in the target filter
-        if macro.target_filter is not None:
+        # if the target filter is given (not empty), check whether the matched target node appear in the target filter
+        if macro.target_filter:
             target_node_dict = matched_nodes[macro.target_idx]
             # example of target_node_dict: {'FORM': 'Het', 'LEMMA': 'het', 'POS': 'det'}
             vals = [target_node_dict[attr] for attr, _idx in macro.target_node_attrs.items() if attr not in ['FID', 'LID', 'fid', 'lid']]
-- 
2.43.0


From f5292d1d63e90ebdb16de7d5b110e39455477dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 11/97] fix: render full features from the root of the pattern

---
 nephosem/core/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index e09e67a..4244514 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -31,7 +31,7 @@ import networkx as nx
 import xml
 from xml.dom import minidom
 
-from nephosem.specutils.deputils import match_graph, tree_match, get_depth, draw_tree, draw_match, parse_pattern
+from nephosem.specutils.deputils import match_graph, tree_match, get_root, get_depth, draw_tree, draw_match, parse_pattern
 
 logger = logging.getLogger(__name__)
 
@@ -704,7 +704,7 @@ class MacroGraph(PatternGraph):
         node_dict = self.matched_nodes[index]
         edge_dict = self.matched_edges[index]
         # preorder traversal, start from the root
-        start = 1
+        start = get_root(self.graph)
         reprs = []
         # add the string repr of the start node
         if start == self.target_idx:
-- 
2.43.0


From 02f7bc3fa00136b3c1a10066c198e6c550a8bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 12/97] fix: keep relation names with a colon in full features

---
 nephosem/core/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 4244514..f1fd4ab 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -730,13 +730,13 @@ class MacroGraph(PatternGraph):
                 edge_repr = self.get_edge_repr((curr, succ), edge_attrs)
                 node_attrs = node_dict[succ]
                 node_repr = self.get_node_repr(succ, node_attrs)
-                succs.append((succ, ':'.join([edge_repr, node_repr])))
+                succs.append((succ, ':'.join([edge_repr, node_repr]), edge_repr))
             # sort the representations
             succs = sorted(succs, key=operator.itemgetter(1))
-            for succ, srepr in succs:
+            for succ, srepr, edge_repr in succs:
                 if succ == self.target_idx:
                     # replace the target node repr by '#T#'
-                    reprs.append(':'.join([srepr.split(':')[0], '#T#']))
+                    reprs.append(':'.join([edge_repr, '#T#']))
                 else:
                     reprs.append(srepr)
                 self.preorder_recur(node_dict, edge_dict, curr=succ, reprs=reprs)
-- 
2.43.0


From 914be112a0582093d49553fbcaf66f6aac8c770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 13/97] fix: read dependency templates from CSV/TSV files

---
 nephosem/core/graph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index f1fd4ab..1b6ae22 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -893,7 +893,14 @@ class MacroGraph(PatternGraph):
         templates = PatternGraph.read_csv(fname, target_colname=target_colname, feature_colname=feature_colname,
                                           sep=sep, header=header, **kwargs)
         # target node index is always 1
-        features = [cls(tplt, target=1) for tplt in templates]
+        features = [cls(tplt, target_idx=1) for tplt in templates]
+        # represent nodes and edges by the first group of each of their attributes
+        for feature in features:
+            node_attrs = {attr: 1 for attr in feature.graph.nodes[1]}
+            feature.target_node_attrs = node_attrs
+            feature.feature_node_attrs = dict(node_attrs)
+            feature.feature_edge_attrs = {attr: 1 for _, _, attrs in feature.graph.edges(data=True)
+                                          for attr in attrs if attr != 'id'}
         return features
 
     @classmethod
-- 
2.43.0


From 0c0d0a402c2757c594e74089b49d09c1934ebc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 14/97] fix: skip empty sentences in dependency corpora

---
 nephosem/models/deprel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 0fa64e8..ea87360 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -301,7 +301,8 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
                 sentence.append((lid, line))  # add line index
             # if line.startswith(end_bound):  # end of a sentence
             if formatter.separator_line_machine(line):
-                yield sentence
+                if len(sentence) > 0:  # successive separator lines do not delimit a sentence
+                    yield sentence
                 sentence = []
         if len(sentence) > 0:  # if file does not end with a '</s' line
             yield sentence
-- 
2.43.0


From 8f8967e7171f25b404edef424674d7e0f3a8b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 15/97] fix: do not count the matches of a previous build again

---
 nephosem/models/deprel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index ea87360..7c88251 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -137,6 +137,10 @@ class DepRelHandler(BaseHandler):
 
         """
         fnames = self.prepare_fnames(fnames)
+        # forget the matches of a previous build
+        for macro in self.macros:
+            macro.matched_nodes = []
+            macro.matched_edges = []
         logger.info("Building dependency features...")
         _res = self.process(fnames)
 
-- 
2.43.0


From ceecde4967b93741a96fc4c3ddd226efb60e25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 16/97] fix: accept symmetric values under different row and
 column labels

---
 nephosem/core/matrix.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 9ee1bf9..85be91b 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -690,9 +690,7 @@ class TypeTokenMatrix(BaseMatrix):
         if isinstance(self.matrix, sp.spmatrix):
             self._mxbehavior = SparseMatrix(self.matrix)
         elif isinstance(self.matrix, np.ndarray):
-            if check_symmetric(self.matrix):
-                if self.row_items != self.col_items:
-                    raise ValueError("The row items and column items are not equal!")
+            if self.row_items == self.col_items and check_symmetric(self.matrix):
                 self._mxbehavior = SquareMatrix(self.matrix)
             else:
                 self._mxbehavior = NormalMatrix(self.matrix)
-- 
2.43.0


From f65fb4bccf830a7ca00bbe630d84c037d44a63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 17/97] fix: select only rows or only columns of a symmetric
 matrix

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 85be91b..b7a484e 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -593,8 +593,8 @@ class SquareMatrix(BaseMatrix):
         -------
 
         """
-        submx = self.matrix[row]
-        submx = submx[:, col]
+        submx = self.matrix if row is None else self.matrix[row]
+        submx = submx if col is None else submx[:, col]
         return submx
 
     def merge(self, *args):
-- 
2.43.0


From fc362798cdc74385e6b8ea8b2a3b439954c5ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 18/97] fix: concatenated sparse matrices support indexing and
 saving

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index b7a484e..0a247bb 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -424,9 +424,9 @@ class SparseMatrix(BaseMatrix):
         axis : int
         """
         if axis == 0:
-            return sp.vstack([self.matrix, othermx])
+            return sp.vstack([self.matrix, othermx], format='csr')
         elif axis == 1:
-            return sp.hstack([self.matrix, othermx])
+            return sp.hstack([self.matrix, othermx], format='csr')
         else:
             raise ValueError("axis should be 0 or 1!")
 
-- 
2.43.0


From 9d3e9f91f6a08f765c0cbb83310f6cb3b74082ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 19/97] fix: sums and counts of a matrix with a single row or
 column

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 0a247bb..4ea9bf7 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -863,7 +863,7 @@ class TypeTokenMatrix(BaseMatrix):
             return self.matrix.sum()
         items = self.row_items if axis == 1 else self.col_items
         # sum of each rows / columns of matrix (normally collocate frequency matrix)
-        sums = np.squeeze(np.asarray(self.matrix.sum(axis=axis))).tolist()
+        sums = np.asarray(self.matrix.sum(axis=axis)).ravel().tolist()
         freq_dict = {k: v for k, v in zip(items, sums)}
         return freq_dict
 
@@ -1124,7 +1124,7 @@ class TypeTokenMatrix(BaseMatrix):
     def count_nonzero(self, axis=0):
         """Count the number of nonzero values for each row or each column."""
         nonzeros = (self.matrix != 0).sum(axis=(1-axis))
-        nonzeros = np.squeeze(np.asarray(nonzeros))
+        nonzeros = np.asarray(nonzeros).ravel()
         return nonzeros
 
     def drop(self, axis=0, n_nonzero=0, **kwargs):
-- 
2.43.0


From 9a7611b9d27b0340d89ec0ac8e95e6a2c25b43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 20/97] fix: selecting or dropping nothing returns an
 independent matrix

---
 nephosem/core/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 4ea9bf7..a314f62 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -289,7 +289,7 @@ class SparseMatrix(BaseMatrix):
             # submx = submx[:, col].tocsr()  # select columns
         else:
             # no submatrix to select
-            submx = self.matrix
+            submx = self.matrix.copy()
         return submx
 
     def reorder(self, idx, axis=0):
@@ -593,7 +593,7 @@ class SquareMatrix(BaseMatrix):
         -------
 
         """
-        submx = self.matrix if row is None else self.matrix[row]
+        submx = self.matrix.copy() if row is None else self.matrix[row]
         submx = submx if col is None else submx[:, col]
         return submx
 
@@ -1172,7 +1172,7 @@ class TypeTokenMatrix(BaseMatrix):
         empty_items = self.empty_rows(explicit=explicit)
         if len(empty_items) == 0:
             logger.info("No empty rows!")
-            return self
+            return self.copy()
         empty_items = set(empty_items)
         rest_items = [e for e in self.row_items if e not in empty_items]
         return self.submatrix(row=rest_items)
-- 
2.43.0


From 87ac87209d0ead05cbc79481082166a4ccc59c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 21/97] fix: multiply by the values of the other matrix when
 zeros are stored

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index a314f62..ef5371b 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -191,13 +191,13 @@ class SparseMatrix(BaseMatrix):
             coomx = self.matrix.tocoo(copy=True)
             row, col, data = coomx.row, coomx.col, coomx.data
             othercoo = other.tocoo(copy=True)
-            mask_pairs = {(r, c) for r, c in zip(othercoo.row, othercoo.col)}
+            mask_pairs = {(r, c): d for r, c, d in zip(othercoo.row, othercoo.col, othercoo.data)}
             masked_row, masked_col, masked_data = [], [], []
             for r, c, d in zip(row, col, data):
                 if (r, c) in mask_pairs:
                     masked_row.append(r)
                     masked_col.append(c)
-                    masked_data.append(d)
+                    masked_data.append(d * mask_pairs[(r, c)])
             masked_row, masked_col, masked_data = np.array(masked_row), np.array(masked_col), np.array(masked_data)
             masked_mtx = sp.csr_matrix(
                             (masked_data, (masked_row, masked_col)),
-- 
2.43.0


From 18f934331b3703dcad12a48754184dcb75603707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:19 +0000
Subject: [PATCH 22/97] fix: save sparse matrices of any format as csr

---
 nephosem/core/matrix.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index ef5371b..0620dad 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1339,11 +1339,12 @@ class TypeTokenMatrix(BaseMatrix):
 
         if isinstance(self.matrix, sp.spmatrix):
             mx_fname = "{}.npz".format(basename)
+            spmx = self.matrix.tocsr()  # transposed matrices are in csc format
             np.savez(mx_fname,
-                     data=self.matrix.data,
-                     indices=self.matrix.indices,
-                     indptr=self.matrix.indptr,
-                     shape=self.matrix.shape)
+                     data=spmx.data,
+                     indices=spmx.indices,
+                     indptr=spmx.indptr,
+                     shape=spmx.shape)
         elif isinstance(self.matrix, np.ndarray):
             mx_fname = "{}.npy".format(basename)
             np.save(mx_fname, self.matrix)
-- 
2.43.0


From 1e0484eb2af1b126155344c445162d99a3b4f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:19 +0000
Subject: [PATCH 23/97] fix: packed matrices leave unpacked files of the same
 name alone

---
 nephosem/core/matrix.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 0620dad..3586912 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -38,6 +38,7 @@ import codecs
 import json
 import logging
 import os
+import tempfile
 import zipfile
 
 import random
@@ -1329,6 +1330,10 @@ class TypeTokenMatrix(BaseMatrix):
             # filename: '/xxx/BrownNouns.wcmx.freq'
             basename = filename
 
+        if pack:
+            # write the two files aside, they must not replace unpacked files of the same name
+            tmp_dir = tempfile.TemporaryDirectory(dir=os.path.dirname(filename) or '.')
+            basename = os.path.join(tmp_dir.name, os.path.basename(basename))
         meta_fname = "{}.meta".format(basename)
         if verbose:
             logger.info("\nSaving matrix...")
@@ -1356,8 +1361,7 @@ class TypeTokenMatrix(BaseMatrix):
             with zipfile.ZipFile(filename, 'w', allowZip64=True) as inf:
                 inf.write(meta_fname, os.path.basename(meta_fname))
                 inf.write(mx_fname, os.path.basename(mx_fname))
-            os.remove(meta_fname)
-            os.remove(mx_fname)
+            tmp_dir.cleanup()
             if verbose:
                 print("Stored in file:\n  {}".format(filename))
         else:
@@ -1381,13 +1385,16 @@ class TypeTokenMatrix(BaseMatrix):
 
         """
         basename, ext = os.path.splitext(filename)
-        if ext != '.pac':
+        if ext != '.pac' or not pack:
             basename = filename
         if pack:
             zip_fname = "{}.pac".format(basename)
-            dest_dir = os.path.dirname(zip_fname)
+            # extract the two files aside, they must not replace unpacked files of the same name
+            tmp_dir = tempfile.TemporaryDirectory()
             with zipfile.ZipFile(zip_fname) as zf:
-                zf.extractall(dest_dir)
+                zf.extractall(tmp_dir.name)
+                # the archive may have been renamed since
+                basename = os.path.join(tmp_dir.name, os.path.splitext(zf.namelist()[0])[0])
 
         meta_fname = "{}.meta".format(basename)
         sp_fname = "{}.npz".format(basename)
@@ -1415,8 +1422,7 @@ class TypeTokenMatrix(BaseMatrix):
 
         # clean files
         if pack:
-            os.remove(meta_fname)
-            os.remove(mx_fname)
+            tmp_dir.cleanup()
 
         return TypeTokenMatrix(matrix, meta_data['row_items'], meta_data['col_items'], deep=False)
 
-- 
2.43.0


From ae10fe2efdffb53263aa11f2d5a6ff0eeb2c04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:19 +0000
Subject: [PATCH 24/97] fix: load the matrix saved last when its kind changed

---
 nephosem/core/matrix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 3586912..b0b9fd4 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1356,6 +1356,11 @@ class TypeTokenMatrix(BaseMatrix):
         else:
             raise ValueError
 
+        # a matrix of the other kind saved earlier under this name is replaced too
+        stale_fname = "{}{}".format(basename, '.npy' if mx_fname.endswith('.npz') else '.npz')
+        if os.path.exists(stale_fname):
+            os.remove(stale_fname)
+
         # package these two files into one named as filename
         if pack:
             with zipfile.ZipFile(filename, 'w', allowZip64=True) as inf:
-- 
2.43.0


From 03726c4033b7914818b8a94db7bcb94877323de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:14 +0000
Subject: [PATCH 25/97] fix: CSV import and export with the supported pandas

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index b0b9fd4..2e9deed 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -153,7 +153,7 @@ class SparseMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.SparseDataFrame(self.matrix).to_dense()
+        return pd.DataFrame(self.matrix.toarray())
 
     def __getitem__(self, arg):
         return self._get_value(arg)
@@ -1307,7 +1307,7 @@ class TypeTokenMatrix(BaseMatrix):
     def from_dataframe(cls, df, issparse=True):
         row_items = df.index.tolist()
         col_items = df.columns.tolist()
-        mx = df.as_matrix()
+        mx = df.values
         if issparse:
             mx = sp.csr_matrix(mx)
         return cls(mx, row_items, col_items)
-- 
2.43.0


From d6783755b8d8caf0f77adf4d6bb6d4e77a3786e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:38 +0000
Subject: [PATCH 26/97] fix: keep row labels read from CSV as strings

---
 nephosem/core/matrix.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 2e9deed..14bce29 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1300,7 +1300,12 @@ class TypeTokenMatrix(BaseMatrix):
         encoding : str, default 'utf-8'
             Encoding to use for UTF when reading/writing (ex. ‘utf-8’).
         """
-        df = pd.read_csv(filename, sep=sep, index_col=index_col, header=header, encoding=encoding)
+        if type(index_col) is int:
+            # row labels are strings, also when they look like a number or a missing value
+            df = pd.read_csv(filename, sep=sep, header=header, encoding=encoding, converters={index_col: str})
+            df = df.set_index(df.columns[index_col])
+        else:
+            df = pd.read_csv(filename, sep=sep, index_col=index_col, header=header, encoding=encoding)
         return cls.from_dataframe(df, issparse=issparse)
 
     @classmethod
-- 
2.43.0


From b0932980f0dac2dd8bdef54d6c673fbc15963308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:07 +0000
Subject: [PATCH 27/97] fix: convert a matrix to a dict

---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 14bce29..18d009d 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1515,4 +1515,4 @@ class TypeTokenMatrix(BaseMatrix):
 
     def spmatrix_to_dict(self):
         """Only for sparse matrix"""
-        return transform_spmatrix_to_dict(self.matrix, self.row_items, self.col_items)
+        return mxutils.transform_spmatrix_to_dict(self.matrix, self.row_items, self.col_items)
-- 
2.43.0


From 03924f97c98ebb33520d5664c60ccce0b73f1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:07 +0000
Subject: [PATCH 28/97] fix: do not truncate values to the type of the first
 one

---
 nephosem/specutils/mxutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 78a7240..34d7a24 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -71,7 +71,6 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
             data.append(value)
     if len(data) == 0:
         raise ValueError("Error: the input matrix is empty!!!")
-    dt = type(data[0])
     ''' TODO: check data types
     dtypes = {
         int: np.int32,
@@ -87,9 +86,9 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
     col = np.array(col, dtype=dtypes[dt])
     data = np.array(data, dtype=dtypes[dt])
     '''
-    row = np.array(row, dtype=dt)
-    col = np.array(col, dtype=dt)
-    data = np.array(data, dtype=dt)
+    row = np.array(row, dtype=np.int64)
+    col = np.array(col, dtype=np.int64)
+    data = np.array(data)  # the smallest type that holds all values, not the type of the first one
 
     nEles = len(data)
     if verbose:
-- 
2.43.0


From 8d2088266b79ee2eb030ba9dc74d62f27f71180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:07 +0000
Subject: [PATCH 29/97] fix: merge transposed matrices and matrices without
 values

---
 nephosem/specutils/mxutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 34d7a24..879411d 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -210,11 +210,11 @@ def merge_two_matrices(mtx1, mtx2):
 
 def transform_indices(mtx, new_col_items):
     """"""
-    spmx = mtx.matrix
+    spmx = mtx.matrix.tocsr()
     glbitem2glbidx = {v: k for k, v in enumerate(new_col_items)}
     subidx2glbidx = [glbitem2glbidx[it] for i, it in enumerate(mtx.col_items)]
     # time cost bottleneck (the size of matrix.indices is large)
-    newindices = np.array([subidx2glbidx[i] for i in spmx.indices])
+    newindices = np.array([subidx2glbidx[i] for i in spmx.indices], dtype=spmx.indices.dtype)
     newspmx = sp.csr_matrix((spmx.data, newindices, spmx.indptr), shape=(spmx.shape[0], len(new_col_items)))
     return newspmx
 
-- 
2.43.0


From e0b96e00368f980a078e36f87e243dbd7b0a9461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 30/97] fix: looking up an absent item does not add it to the
 vocabulary

---
 nephosem/core/vocab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index a76d0c3..4143dab 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -145,6 +145,8 @@ class Vocab(object):
 
         """
         if utils.is_string(arg):  # 'arg' is a str: e.g. vocab['argument/NN0']
+            if isinstance(self.freq_dict, defaultdict):
+                return self.freq_dict.get(arg, 0)  # a lookup does not add the item
             return self.freq_dict[arg]
         elif isinstance(arg, list):  # vocab[]
             d = dict()
-- 
2.43.0


From 274ad0b00a6e1956ba40539d130e0e94c29819dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 31/97] fix: vocabularies can be pickled and deep-copied

---
 nephosem/core/vocab.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index 4143dab..48309de 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -184,6 +184,7 @@ class Vocab(object):
         # so vocab.freq returns itself
         if item == 'freq':
             return self
+        raise AttributeError(item)
 
     def __lt__(self, arg):
         if isinstance(arg, int) or isinstance(arg, float):
-- 
2.43.0


From b3b385cd2e32497a4e38e3d14765f1fea363cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:54 +0000
Subject: [PATCH 32/97] fix: load plain vocabularies with any item and number
 notation

---
 nephosem/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ad8cd8c..ffe321b 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -25,6 +25,7 @@ try:
 except ImportError:
     import pickle as _pickle
 
+import io
 import os
 import sys
 import time
@@ -262,12 +263,16 @@ def load_dict_plain(filename, encoding='utf-8'):
     One word per line ( word[TAB]freq )
     """
     res_dict = dict()
-    with codecs.open(filename, 'r', encoding) as fin:
+    # only '\n' ends a line: the items may contain other (unicode) line separators
+    with io.open(filename, 'r', encoding=encoding, newline='\n') as fin:
         for line in fin:
-            pair = line.strip().split('\t')
+            pair = line.rstrip('\n').split('\t')
             if len(pair) < 2:
                 continue
-            res_dict[pair[0]] = float(pair[1]) if '.' in pair[1] else int(pair[1])
+            try:
+                res_dict[pair[0]] = int(pair[1])
+            except ValueError:
+                res_dict[pair[0]] = float(pair[1])
     return res_dict
 
 
-- 
2.43.0


From 4749854a7de06c6118e2c77c1765345c5c5961ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 33/97] fix: compute association marginals from the matrix when
 they are not given

---
 nephosem/specutils/mxcalc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 5f52e36..266a3ca 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -42,18 +42,18 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
     """This method is faster than `compute_association()`.
     Set positive to False to get pmi values.
     """
-    tot_sum = float(nfreq.sum())
     freqmx = freqMTX.matrix
+    tot_sum = float(freqmx.sum() if nfreq is None else nfreq.sum())
     # select frequencies of row items / column items of freqMTX
     # from nfreq and cfreq
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
         row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items])
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
         col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items])
 
@@ -155,17 +155,17 @@ def calc_association(freqmx, nfreq=None, cfreq=None, N=None, meas='ppmi'):
     # we are calculating on a subset of the complete matrix
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
         row_sum_vec = np.array(nfreq) if isinstance(nfreq, list) else nfreq
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
         col_sum_vec = np.array(cfreq) if isinstance(cfreq, list) else cfreq
 
     # tot_sum = float(row_sum_vec.sum())
-    tot_sum = N  # total frequency, row_sum_vec.sum() should be equal to col_sum_vec.sum()
+    tot_sum = max(row_sum_vec.sum(), col_sum_vec.sum()) if N is None else N  # total frequency, row_sum_vec.sum() should be equal to col_sum_vec.sum()
     freqmx = freqmx.tocoo()  # transform to COOrdinate format, for easier usage
     row = freqmx.row  # -> stores row indices of values in csr_matrix
     col = freqmx.col  # -> stores column indices of values in csr_matrix
-- 
2.43.0


From 531cf76399400521bff5a4ea4f255fec683f243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 34/97] fix: log-likelihood of a collocate that occurs with
 every node

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 266a3ca..256778c 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -250,7 +250,7 @@ def calc_lik(c_a_b, c_na_b, c_a_nb, c_na_nb):
     o11, o21, o12, o22 = float(c_a_b), float(c_na_b), float(c_a_nb), float(c_na_nb)
     p1 = o11 / (o11 + o21)
     p1 = adjust_val(p1)
-    p2 = o12 / (o12 + o22)
+    p2 = o12 / (o12 + o22) if o12 + o22 > 0 else 0.0  # the collocate occurs everywhere
     p2 = adjust_val(p2)
     p = (o11 + o12) / (o11 + o12 + o21 + o22)
     p = adjust_val(p)
-- 
2.43.0


From fd2ebc4ebbffabc20af635af3b8a292d2f93f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 35/97] fix: accept the metric 'cos'

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 256778c..a4b3406 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -387,7 +387,7 @@ def compute_distance(measMTX, axis=0, metric='cosine'):
 
 def calc_distance(measmx, metric='cosine'):
     """Call sklearn.metrics.pairwise_distances function to calculate distance matrix."""
-    distmx = pairwise_distances(measmx, metric=metric)
+    distmx = pairwise_distances(measmx, metric='cosine' if metric == 'cos' else metric)
     return distmx
 
 
-- 
2.43.0


From 545922416903008a0b1460e89547b30fdf0bc28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 36/97] fix: compute token weights with the supported numpy

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index a4b3406..d360bbc 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -506,7 +506,7 @@ def compute_token_weights(tcPositionMTX, twMTX, booleanize = True, tokenFormat='
     missing_types = []
     tokens = tcPositionMTX.row_items
     types = set(twMTX.row_items)  # set of target types
-    tcmx_type = np.bool if booleanize else tcPositionMTX.matrix.dtype
+    tcmx_type = bool if booleanize else tcPositionMTX.matrix.dtype
     bool_tcmx = tcPositionMTX.matrix.astype(tcmx_type, copy=True).toarray()
     twmx = twMTX.matrix.toarray()  # transform to dense matrix (numpy.ndarray)
     resmx = np.zeros(bool_tcmx.shape)
-- 
2.43.0


From be946f48b8ccdb57d106edf6df60e6003a43bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 37/97] fix: multiply the values of the contexts that have one

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index d360bbc..a40b053 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -615,7 +615,7 @@ def dot_multiplication(mtx_l, mtx_r):
     for i in range(m):
         for k in range(n):
             for j in range(mtx_l.shape[1]):
-                if mtx_l[i, j] == 0.0 or mtx_r[j, k]:
+                if mtx_l[i, j] == 0.0 or mtx_r[j, k] == 0.0:
                     continue
                 product_mtx[i, k] *= mtx_l[i, j] * mtx_r[j, k]
     return product_mtx
-- 
2.43.0


From c15e402eb62ac64b049c1ffb1afb14685c24600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:14 +0000
Subject: [PATCH 38/97] fix: return the k most similar items in order

---
 nephosem/core/matrix.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 18d009d..96a8bc8 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -638,11 +638,9 @@ class SquareMatrix(BaseMatrix):
 
         """
         row = self.matrix[rid]
-        if descending:  # for similarity matrix
-            idx = mxutils.get_largest_k(row, k+1)
-        else:
-            idx = mxutils.get_smallest_k(row, k+1)
-        return idx
+        # descending for similarity matrix
+        order = np.argsort(-row if descending else row, kind='stable')
+        return [i for i in order if i != rid][:k]
 
 
 class TypeTokenMatrix(BaseMatrix):
-- 
2.43.0


From f9c966d828ceb6ef172ad635a8b8043851a9e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:11 +0000
Subject: [PATCH 39/97] fix: creating the temporary directory tolerates a
 concurrent handler

---
 nephosem/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ffe321b..3ec61a0 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -86,9 +86,7 @@ def is_string(text):
 
 def make_dir(dirname):
     """Create directory if not exist."""
-    if not os.path.exists(dirname):
-        os.makedirs(dirname)
-    # os.makedirs(dirname, exist_ok=True)  # only for Python3
+    os.makedirs(dirname, exist_ok=True)
 
 
 def clean_dir(dirname):
-- 
2.43.0


From 8214a5fa0d77bec3a06c68b3f4d2d2c7eb53edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:55 +0000
Subject: [PATCH 40/97] fix: the data frame of a matrix does not share its
 values

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 96a8bc8..6e63236 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -456,7 +456,7 @@ class NormalMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.DataFrame(self.matrix)
+        return pd.DataFrame(self.matrix.copy())
 
     def __getitem__(self, arg):
         return self._get_value(arg)
@@ -556,7 +556,7 @@ class SquareMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.DataFrame(self.matrix)
+        return pd.DataFrame(self.matrix.copy())
 
     def __getitem__(self, arg):
         return self._get_value(arg)
-- 
2.43.0


From 57c7da856b3d7ebaa543543f79510a245308dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:55 +0000
Subject: [PATCH 41/97] fix: merged matrices do not share data with their
 inputs

---
 nephosem/specutils/mxutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 879411d..7c6e242 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -215,7 +215,7 @@ def transform_indices(mtx, new_col_items):
     subidx2glbidx = [glbitem2glbidx[it] for i, it in enumerate(mtx.col_items)]
     # time cost bottleneck (the size of matrix.indices is large)
     newindices = np.array([subidx2glbidx[i] for i in spmx.indices], dtype=spmx.indices.dtype)
-    newspmx = sp.csr_matrix((spmx.data, newindices, spmx.indptr), shape=(spmx.shape[0], len(new_col_items)))
+    newspmx = sp.csr_matrix((spmx.data, newindices, spmx.indptr), shape=(spmx.shape[0], len(new_col_items)), copy=True)
     return newspmx
 
 
@@ -235,7 +235,7 @@ def merge_matrices(matrices):
     if not matrices or len(matrices) == 0:
         return matrices
     if len(matrices) == 1:
-        return matrices[0].matrix, matrices[0].row_items, matrices[0].col_items
+        return matrices[0].matrix.copy(), list(matrices[0].row_items), list(matrices[0].col_items)
 
     consistent = True
     # check row items and column items consistency
@@ -252,7 +252,7 @@ def merge_matrices(matrices):
         spmx = matrices[0].matrix.copy()
         for i in range(1, len(matrices)):
             spmx += matrices[i].matrix
-        return spmx, row_items, col_items
+        return spmx, list(row_items), list(col_items)
     else:  # transform sub-matrices to Python dict of dict and merge
         mxdict_list = []
         row_items, col_items = set(), set()
-- 
2.43.0


From db0ab84f77a7b1e0dbedf12852a65ff11f4abc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:55 +0000
Subject: [PATCH 42/97] fix: a corpus formatter does not change the settings
 passed to it

---
 nephosem/core/terms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 9de4c26..5c1c8d6 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -625,10 +625,9 @@ class CorpusFormatter(object):
         self.token_format = settings['token']  # e.g. 'word/pos/fid/lid'
         token_eles = settings['token'].split('/')[:-2]  # the last two parts are always 'fid' and 'lid'
         self._token = [col2id[e] for e in token_eles]  # -> [1, 3]
-        if 'colloc' not in settings:  # if not set, use type format as colloc format
-            settings['colloc'] = settings['type']
-        self.colloc_format = settings['colloc']  # e.g. 'lemma' (means only lemma is used as collocate)
-        colloc_eles = settings['colloc'].split('/')
+        # if not set, use type format as colloc format
+        self.colloc_format = settings.get('colloc', settings['type'])  # e.g. 'lemma' (means only lemma is used as collocate)
+        colloc_eles = self.colloc_format.split('/')
         self._colloc = [col2id[e] for e in colloc_eles]  # -> [2]
 
         # specify which columns are node attributes or edge attributes
@@ -636,6 +635,7 @@ class CorpusFormatter(object):
         self.edge_attr = settings.get('edge-attr', None)
 
         self.settings = deepcopy(settings)  # store settings for possible uses
+        self.settings['colloc'] = self.colloc_format
 
     def match_line(self, line, form=None):
         if not form:
-- 
2.43.0


From 4cc8d4c577a93aeffdbad2377a2bfb1d76990e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 43/97] fix: CBC computes the matrices that are not given

---
 nephosem/models/cbc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index beeff6c..59be725 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -49,7 +49,7 @@ from sklearn.metrics.pairwise import cosine_similarity
 
 from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
-from nephosem.specutils.mxcalc import calc_association, calc_distance
+from nephosem.specutils.mxcalc import calc_association, compute_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
 from nephosem.utils import make_dir, clean_dir
 
@@ -123,11 +123,11 @@ class CBC(object):
         # prepare matrices if not provided
         if measmx is None:
             print("calculating ppmi matrix...")
-            measmx = calc_association(freqmx, meas='ppmi')
+            measmx = TypeTokenMatrix(calc_association(freqmx.matrix, meas='ppmi'), freqmx.row_items, freqmx.col_items)
             print("done.")
         if distmx is None:
             print("calculating distance matrix...")
-            distmx = calc_distance(measmx)
+            distmx = compute_distance(measmx)
             print("done.")
 
         self.elements = elements
-- 
2.43.0


From 592739e72d1fbfc60d466572bf9e3266cd217e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 44/97] fix: CBC passes on the option highest_score

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 59be725..3cb83b5 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -251,7 +251,7 @@ def major_steps(cbc, eles=None, multicore=True):
     kwargs = {
         'distmx': distmx, 'k': cbc.k,
         'prune_method': cbc.prune_method, 't': cbc.t,
-        'score_metric': cbc.score_metric,
+        'score_metric': cbc.score_metric, 'highest_score': cbc.highest_score,
     }
     if multicore and len(eles) > num_workers:
         # use multicore version when the number of elements is large ( > number of cpu cores)
-- 
2.43.0


From e774320867012f45f956bda5a4ab403d73071687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 45/97] fix: CBC matches elements with matrix rows by name

---
 nephosem/models/cbc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 3cb83b5..88b549b 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -240,9 +240,9 @@ def major_steps(cbc, eles=None, multicore=True):
         eles = cbc.elements
     # in later recursions use submatrix of residues to speed up
     # and we have to, because the similar elements of a residue are fetched from all residues
-    freqmx = cbc.freqmx.submatrix(row=eles) if cbc.elements != eles else cbc.freqmx
-    measmx = cbc.measmx.submatrix(row=eles) if cbc.elements != eles else cbc.measmx
-    distmx = cbc.distmx.submatrix(row=eles, col=eles) if cbc.elements != eles else cbc.distmx
+    freqmx = cbc.freqmx.submatrix(row=eles) if cbc.freqmx.row_items != eles else cbc.freqmx
+    measmx = cbc.measmx.submatrix(row=eles) if cbc.measmx.row_items != eles else cbc.measmx
+    distmx = cbc.distmx.submatrix(row=eles, col=eles) if cbc.distmx.row_items != eles else cbc.distmx
 
     # step 1
     logger.info("\nstep 1 ...")
-- 
2.43.0


From f8907703f853d80ea11b214f63920592e782baec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 46/97] fix: CBC keeps the elements as residues when no
 committee is found

---
 nephosem/models/cbc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 88b549b..4813c8f 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -187,7 +187,7 @@ class CBC(object):
                 curC, curR = major_steps(self, eles=residues, multicore=multicore)
             except Exception as err:
                 logger.exception(err)
-                curC, curR = [], []
+                curC, curR = [], residues
 
             Cs.append(curC)
             Rs.append(curR)
@@ -481,10 +481,12 @@ def cbc_step2(L, elements=None, freqmx=None, ppmimx=None, theta=0.35):
         A tuple of merged (with singletons) committees (element strings) and committee matrix.
     """
     if not L or len(L) <= 0:
-        return L
+        return [], None
 
     # clean clusters
     committees, singletons = clean_clusters(L)
+    if len(committees) == 0:  # only singletons
+        return [], None
 
     # transform cluster elements from str to int
     e2id = {e: i for i, e in enumerate(elements)}
-- 
2.43.0


From 0c8a47d26034e5b138067c9e9564bc3d3e00a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 47/97] fix: CBC removes duplicate clusters that are not
 neighbours

---
 nephosem/models/cbc.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 4813c8f..a7a21de 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -644,19 +644,14 @@ def clean_clusters(L):
 
 def remove_duplicate(clusters):
     """Remove duplicate clusters"""
-    if len(clusters) <= 0:
-        return clusters
-    prevs, prevc = clusters[0]  # -> previous score and cluster
-    diffL = [(prevs, set(prevc))]
-    for i in range(1, len(clusters)):
-        s, clust = clusters[i]
-        if abs(s - prevs) > 0.000000001 or sorted(clust) != sorted(prevc):
-            # if scores of two clusters are not close => they are not the same cluster
-            # if scores are very close => compare cluster elements
+    diffL = []
+    found = set()  # -> clusters found so far
+    for s, clust in clusters:
+        # the same cluster is not always next to its duplicate: other clusters may have the same score
+        key = frozenset(clust)
+        if key not in found:
+            found.add(key)
             diffL.append((s, set(clust)))
-            prevs, prevc = s, clust
-        else:  # same cluster
-            continue
     return diffL
 
 
-- 
2.43.0


From 4ef5be4b38fae4b953ca1ee7eae0e2b6c054669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 48/97] fix: CBC considers every later committee for a merge

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index a7a21de..09bdc71 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -575,7 +575,7 @@ def get_merged_committee(simmx, theta=0.35):
         sortidx = sortsimmx[i]
         # iterate over the indices from the largest one
         idx = -1
-        for j in range(-2, -(sortidx.shape[0]), -1):
+        for j in range(-1, -(sortidx.shape[0]) - 1, -1):
             tmpidx = sortidx[j]
             if tmpidx > i and tmpidx not in merged:
                 # if committee has not been processed
-- 
2.43.0


From 6605dc08a804b59fa9b6b3d00ddd9cbf6e48a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 49/97] fix: CBC keeps all elements of a cluster without
 similarity as singletons

---
 nephosem/models/cbc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 09bdc71..14002d1 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -617,10 +617,7 @@ def clean_clusters(L):
 
     sgleles = set()  # -> singleton elements
     for _, c in singletons:
-        if len(c) < 1:
-            continue
-        e = list(c)[0]
-        sgleles.add(e)
+        sgleles.update(c)  # the elements of a cluster without similarity are singletons
 
     logger.info("removing duplicate >2-eles clusters...")
     # remove duplicate and transform clusters into sets
-- 
2.43.0


From 28cc29eff240c4e704af6c824dd2465bb0220e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 50/97] fix: CBC with several processes collects the clusters
 of every element

---
 nephosem/models/cbc.py | 51 +++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 14002d1..c1d32af 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -38,6 +38,7 @@ import logging
 import math
 import operator
 import os
+import tempfile
 from collections import defaultdict
 from copy import deepcopy
 from multiprocessing import cpu_count, Pool
@@ -51,7 +52,7 @@ from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
 from nephosem.specutils.mxcalc import calc_association, compute_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
-from nephosem.utils import make_dir, clean_dir
+from nephosem.utils import make_dir
 
 __all__ = ['CBC']
 
@@ -291,29 +292,26 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
                         prune_method='distance', t='median',
                         score_metric='without_size', highest_score=False):
     """
-    ~/.cbc/.10933/
-                 /L/  : folder for temporary L(s)
-                 /distmx.meta
-                 /distmx.npy
+    ~/.cbc/2021.01.31.12.00.xyz/
+                               /distmx.meta
+                               /distmx.npy
     """
-    homedir = os.path.expanduser('~')
-    tmpdir = os.path.join(homedir, '.cbc', '{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
-    make_dir(tmpdir)
-    clean_dir(tmpdir)
-    L_tmpdir = os.path.join(tmpdir, 'L')
-    make_dir(L_tmpdir)
-    clean_dir(L_tmpdir)
+    homedir = os.path.join(os.path.expanduser('~'), '.cbc')
+    make_dir(homedir)
+    # a directory of its own for every call
+    tmpdir = tempfile.mkdtemp(prefix=datetime.datetime.now().strftime("%Y.%m.%d.%H.%M."), dir=homedir)
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
-    num_cores = cpu_count() - 1
+    num_cores = max(1, cpu_count() - 1)
     num_eles = len(elements)
     data_group = [[] for _ in range(num_cores)]
     for i in range(num_eles):
-        idx = i % num_cores
+        idx = i * num_cores // num_eles
         data_group[idx].append(elements[i])
 
     pool = Pool(processes=num_cores)
+    results = []
     for i in range(num_cores):
         args = (data_group[i], tmpdir,)
         kwargs = {
@@ -321,26 +319,17 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
             'prune_method': prune_method, 't': t,
             'score_metric': score_metric, 'highest_score': highest_score,
         }
-        try:
-            pool.apply_async(cbc_step1_call, args=args, kwds=kwargs)
-        except Exception as err:
-            logger.exception("Error:", err)
+        results.append(pool.apply_async(cbc_step1_call, args=args, kwds=kwargs))
     pool.close()
     pool.join()
 
     # merge results
     L = []
-    for fname in os.listdir(L_tmpdir):
-        fname = os.path.join(L_tmpdir, fname)
-        # load json results of sub-processes L(s)
-        with codecs.open(fname, 'r') as inf:
-            procL = json.load(inf)
-        L.extend(procL)
-        os.remove(fname)
+    for res in results:
+        L.extend(res.get())
     try:
         os.remove(distmx_fname + '.meta')
         os.remove(distmx_fname + '.npy')
-        os.rmdir(L_tmpdir)
         os.rmdir(tmpdir)
     except Exception as err:
         logger.exception("clean tmp folder error: {}".format(err))
@@ -354,11 +343,7 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
     # print(pid, len(elements), tmpdir_proc, k, prune_method, t, score_metric, highest_score)
     # load distance matrix inside tmp directory
     tmp_distmx_fname = os.path.join(tmpdir_proc, 'distmx')
-    try:
-        distmx = TypeTokenMatrix.load(tmp_distmx_fname, pack=False)
-    except Exception as err:
-        logger.exception("Matrix load error: ".format(err))
-        return []
+    distmx = TypeTokenMatrix.load(tmp_distmx_fname, pack=False)
     logger.info("Starting subprocess {}...".format(pid))
 
     L = []
@@ -380,10 +365,6 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
             logger.exception("Cannot find highest scoring cluster for element: {}\nError: {}".format(e, err))
         L.extend(clusters)
 
-    tmp_proc_fname = os.path.join(tmpdir_proc, 'L', '{}'.format(pid))
-    with codecs.open(tmp_proc_fname, 'w') as outf:
-        json.dump(L, outf, ensure_ascii=False, indent=4)
-
     return L
 
 
-- 
2.43.0


From 48b912636cb9b5ce590a57904a69157f8fb370d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:47 +0000
Subject: [PATCH 51/97] fix: a failed save restores the nested objects

---
 nephosem/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 3ec61a0..d552174 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -687,13 +687,13 @@ class SaveLoad(object):
 
         recursive_saveloads = []
         restores = []
-        for attrib, val in iteritems(self.__dict__):
-            if hasattr(val, '_save_specials'):  # better than 'isinstance(val, SaveLoad)' if IPython reloading
-                recursive_saveloads.append(attrib)
-                cfname = '.'.join((fname, attrib))
-                restores.extend(val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol, compress, subname))
-
         try:
+            for attrib, val in iteritems(self.__dict__):
+                if hasattr(val, '_save_specials'):  # better than 'isinstance(val, SaveLoad)' if IPython reloading
+                    recursive_saveloads.append(attrib)
+                    cfname = '.'.join((fname, attrib))
+                    restores.extend(val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol, compress, subname))
+
             numpys, scipys, ignoreds = [], [], []
             for attrib, val in iteritems(asides):
                 if isinstance(val, np.ndarray) and attrib not in ignore:
@@ -739,8 +739,9 @@ class SaveLoad(object):
             self.__dict__['__recursive_saveloads'] = recursive_saveloads
         except Exception:
             # restore the attributes if exception-interrupted
-            for attrib, val in iteritems(asides):
-                setattr(self, attrib, val)
+            for obj, vals in restores + [(self, asides)]:
+                for attrib, val in iteritems(vals):
+                    setattr(obj, attrib, val)
             raise
         return restores + [(self, asides)]
 
-- 
2.43.0


From c425f3d72a791a71bf989f7eba54bbbd88bba7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 52/97] fix: attributes that cannot be stored separately are
 pickled with the object

---
 nephosem/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index d552174..4dfc06c 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -680,9 +680,12 @@ class SaveLoad(object):
                     separately.append(attrib)
 
         # whatever's in `separately` or `ignore` at this point won't get pickled
-        for attrib in separately + list(ignore):
-            if hasattr(self, attrib):
-                asides[attrib] = getattr(self, attrib)
+        for attrib in list(separately) + list(ignore):
+            val = self.__dict__.get(attrib)
+            # anything else than a plain array or sparse matrix is pickled with the object
+            storable = isinstance(val, np.ndarray) and not val.dtype.hasobject or isinstance(val, sparse_matrices)
+            if attrib in self.__dict__ and (attrib in ignore or storable):
+                asides[attrib] = val
                 delattr(self, attrib)
 
         recursive_saveloads = []
@@ -701,9 +704,9 @@ class SaveLoad(object):
                     logger.info("storing np array '%s' to %s", attrib, subname(fname, attrib))
 
                     if compress:
-                        np.savez_compressed(subname(fname, attrib), val=np.ascontiguousarray(val))
+                        np.savez_compressed(subname(fname, attrib), val=np.asarray(val, order='C'))
                     else:
-                        np.save(subname(fname, attrib), np.ascontiguousarray(val))
+                        np.save(subname(fname, attrib), np.asarray(val, order='C'))
 
                 elif isinstance(val, (sp.csr_matrix, sp.csc_matrix)) and attrib not in ignore:
                     scipys.append(attrib)
-- 
2.43.0


From 4ca86b0219b4a2a6320141e6ab306c8b83b19e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 53/97] fix: saving an object leaves no records that break
 saving it in another way

---
 nephosem/utils.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 4dfc06c..6cdeb92 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -481,6 +481,9 @@ class SaveLoad(object):
     such as lambda functions etc.
 
     """
+    # names of the records that are stored with an object to load its attributes handled specially
+    _records = ('__numpys', '__scipys', '__ignoreds', '__recursive_saveloads')
+
     @classmethod
     def load(cls, fname, mmap=None):
         """Load an object previously saved using :meth:`~gensim.utils.SaveLoad.save` from a file.
@@ -582,6 +585,18 @@ class SaveLoad(object):
             logger.info("setting ignored attribute %s to None", attrib)
             setattr(self, attrib, None)
 
+        for attrib in SaveLoad._records:  # the loaded object may be saved in another way
+            self.__dict__.pop(attrib, None)
+
+    @staticmethod
+    def _restore_specials(restores):
+        """Restore the attributes set aside by :meth:`_save_specials` and remove its records."""
+        for obj, asides in restores:
+            for attrib in SaveLoad._records:
+                obj.__dict__.pop(attrib, None)
+            for attrib, val in iteritems(asides):
+                setattr(obj, attrib, val)
+
     @staticmethod
     def _adapt_by_suffix(fname):
         """Get compress setting and filename for numpy file compression.
@@ -636,9 +651,7 @@ class SaveLoad(object):
             pickle(self, fname, protocol=pickle_protocol)
         finally:
             # restore attribs handled specially
-            for obj, asides in restores:
-                for attrib, val in iteritems(asides):
-                    setattr(obj, attrib, val)
+            SaveLoad._restore_specials(restores)
         logger.info("saved %s", fname)
 
     def _save_specials(self, fname, separately, sep_limit, ignore, pickle_protocol, compress, subname):
@@ -742,9 +755,7 @@ class SaveLoad(object):
             self.__dict__['__recursive_saveloads'] = recursive_saveloads
         except Exception:
             # restore the attributes if exception-interrupted
-            for obj, vals in restores + [(self, asides)]:
-                for attrib, val in iteritems(vals):
-                    setattr(obj, attrib, val)
+            SaveLoad._restore_specials(restores + [(self, asides)])
             raise
         return restores + [(self, asides)]
 
-- 
2.43.0


From 33307989ff8d906ba835d5a9c969691525315c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 54/97] fix: objects reached in several ways are saved
 completely

---
 nephosem/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 6cdeb92..fabf9b5 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -654,7 +654,7 @@ class SaveLoad(object):
             SaveLoad._restore_specials(restores)
         logger.info("saved %s", fname)
 
-    def _save_specials(self, fname, separately, sep_limit, ignore, pickle_protocol, compress, subname):
+    def _save_specials(self, fname, separately, sep_limit, ignore, pickle_protocol, compress, subname, seen=None):
         """Save aside any attributes that need to be handled separately, including
         by recursion any attributes that are themselves :class:`~gensim.utils.SaveLoad` instances.
 
@@ -674,6 +674,8 @@ class SaveLoad(object):
             If True - compress output with :func:`numpy.savez_compressed`.
         subname : function
             Produced by :meth:`~gensim.utils.SaveLoad._adapt_by_suffix`
+        seen : set of int, optional
+            The ids of the objects handled so far, because an object may be reached in several ways.
 
         Returns
         -------
@@ -682,6 +684,8 @@ class SaveLoad(object):
             during the default :func:`~gensim.utils.pickle`.
 
         """
+        seen = set() if seen is None else seen
+        seen.add(id(self))
         asides = {}
         sparse_matrices = (sp.csr_matrix, sp.csc_matrix)
         if separately is None:
@@ -705,10 +709,10 @@ class SaveLoad(object):
         restores = []
         try:
             for attrib, val in iteritems(self.__dict__):
-                if hasattr(val, '_save_specials'):  # better than 'isinstance(val, SaveLoad)' if IPython reloading
+                if hasattr(val, '_save_specials') and id(val) not in seen:  # better than 'isinstance(val, SaveLoad)' if IPython reloading
                     recursive_saveloads.append(attrib)
                     cfname = '.'.join((fname, attrib))
-                    restores.extend(val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol, compress, subname))
+                    restores.extend(val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol, compress, subname, seen))
 
             numpys, scipys, ignoreds = [], [], []
             for attrib, val in iteritems(asides):
-- 
2.43.0


From 026c150980d88fa2ba92ccd310ced506889a6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:03 +0000
Subject: [PATCH 55/97] fix: a save interrupted by the user restores the object

---
 nephosem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index fabf9b5..df9dcc1 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -757,7 +757,7 @@ class SaveLoad(object):
             self.__dict__['__scipys'] = scipys
             self.__dict__['__ignoreds'] = ignoreds
             self.__dict__['__recursive_saveloads'] = recursive_saveloads
-        except Exception:
+        except BaseException:  # also KeyboardInterrupt
             # restore the attributes if exception-interrupted
             SaveLoad._restore_specials(restores + [(self, asides)])
             raise
-- 
2.43.0


From 6909ecc82d112d164d3f1fbb8abc72d9311d7d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 56/97] fix: type nodes made from a string keep their format
 for sample() and to_type()

---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 5c1c8d6..1e8a52c 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -183,9 +183,9 @@ class TypeNode(ItemNode):
                         pos = ele
                     else:
                         raise ValueError("Type format should only include 'word', 'lemma', 'pos'!")
-                super(TypeNode, self).__init__(word=word, lemma=lemma, pos=pos)
+                super(TypeNode, self).__init__(word=word, lemma=lemma, pos=pos, type_fmt=type_fmt)
             elif word or lemma or pos:  # case 3: at least provide one
-                super(TypeNode, self).__init__(word=word, lemma=lemma, pos=pos)
+                super(TypeNode, self).__init__(word=word, lemma=lemma, pos=pos, type_fmt=type_fmt)
         else:
             # raise ValueError("Please provide necessary info!")
             raise ValueError("Please provide type format!")
-- 
2.43.0


From 1c4ded82064a56279f4ef7f01605540adacf51b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 57/97] fix: token nodes without collocates have empty
 collocate lists

---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 1e8a52c..5feac37 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -363,8 +363,8 @@ class TokenNode(ItemNode):
         self.fid = fid
         self.lid = str(lid)
         self.format = token_fmt
-        self.lcollocs = lcollocs
-        self.rcollocs = rcollocs
+        self.lcollocs = lcollocs if lcollocs is not None else []
+        self.rcollocs = rcollocs if rcollocs is not None else []
         self.__dict__.update(**kwargs)
 
     @property
-- 
2.43.0


From d266d992c997f1a953aa46911ea7769ef4cf6411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 58/97] fix: CorpusFormatter.get_token accepts integer line
 numbers

---
 nephosem/core/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 5feac37..7736f28 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -679,7 +679,7 @@ class CorpusFormatter(object):
 
     def get_token(self, match, fid, lid):
         """Get token string from match object."""
-        eles = [match.group(i) for i in self._token] + [fid, lid]
+        eles = [match.group(i) for i in self._token] + [fid, str(lid)]
         return self.connector.join(eles)
 
     def get_colloc(self, match):
-- 
2.43.0


From 6b7724ec8bd9dbd4ce4a4b9859956f4135c4d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 59/97] fix: parse token strings whose file id has directories

---
 nephosem/core/terms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 7736f28..80a794d 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -338,6 +338,10 @@ class TokenNode(ItemNode):
             if token_str:  # case 2
                 eles = token_str.split(self.connector)
                 fmts = token_fmt.split(self.connector)
+                if 'fid' in fmts and len(eles) > len(fmts):
+                    # the file id is a path relative to the corpus directory
+                    start, n = fmts.index('fid'), len(eles) - len(fmts) + 1
+                    eles[start:start + n] = [self.connector.join(eles[start:start + n])]
                 if len(eles) != len(fmts):
                     raise ValueError("Provided type string and type_fmt length inconsistent!")
                 for ele, fmt in zip(eles, fmts):
-- 
2.43.0


From a7d7346b46dc15acc602d5aba3a0419d7b5acedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 60/97] fix: type nodes saved with their tokens can be loaded
 again

---
 nephosem/core/terms.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 80a794d..e5d826f 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -123,7 +123,7 @@ class ItemNode(object):
         """String representation, like it in the original file line.
         [word]\TAB[pos]\TAB[lemma]
         """
-        return '\t'.join([self.word, self.pos, self.lemma])
+        return '\t'.join(c if c is not None else '' for c in [self.word, self.pos, self.lemma])
 
     def __repr__(self):
         return self.__str__()
@@ -223,8 +223,10 @@ class TypeNode(ItemNode):
         if verbose:
             print("Saving tokens of {}/{}".format(self.lemma, self.pos))
         data = dict()
+        data['word'] = self.word
         data['lemma'] = self.lemma
         data['pos'] = self.pos
+        data['type-format'] = self.format
         data['tokens'] = [tok.json_data for tok in self.tokens]
         with codecs.open(filename, 'w', encoding=encoding) as outf:
             json.dump(data, outf, indent=4)
@@ -236,7 +238,8 @@ class TypeNode(ItemNode):
         with codecs.open(filename, 'r', encoding=encoding) as inf:
             data = json.load(inf)
         tokens = [TokenNode.gen_token_from_json_data(tok) for tok in data['tokens']]
-        return cls(data['lemma'], data['pos'], tokens=tokens)
+        return cls(word=data.get('word'), lemma=data['lemma'], pos=data['pos'],
+                   type_fmt=data.get('type-format', 'lemma/pos'), tokens=tokens)
 
     def sample(self, n=300, method='random'):
         """Select n tokens/appearances from all.
@@ -392,6 +395,7 @@ class TokenNode(ItemNode):
         data['lemma'] = self.lemma
         data['fid'] = self.fid
         data['lid'] = self.lid
+        data['token-format'] = self.format
         # data['token'] = self.connector.join([self.word, self.pos, self.fid, str(self.lid)])
         data['left-collocates'] = [str(it) for it in self.lcollocs]
         data['right-collocates'] = [str(it) for it in self.rcollocs]
@@ -404,9 +408,14 @@ class TokenNode(ItemNode):
         lemma = json_data['lemma']
         fid = json_data['fid']
         lid = json_data['lid']
-        lcollocs = [ItemNode(item=col.split('\t')) for col in json_data['left-collocates']]
-        rcollocs = [ItemNode(item=col.split('\t')) for col in json_data['right-collocates']]
-        return cls(word, pos, lemma, fid, lid, lcollocs=lcollocs, rcollocs=rcollocs)
+        token_fmt = json_data.get('token-format', 'word/pos/fid/lid')
+        lcollocs, rcollocs = [], []
+        for collocs, key in [(lcollocs, 'left-collocates'), (rcollocs, 'right-collocates')]:
+            for col in json_data[key]:
+                cword, cpos, clemma = (c if c else None for c in col.split('\t'))
+                collocs.append(ItemNode(word=cword, pos=cpos, lemma=clemma))
+        return cls(word=word, pos=pos, lemma=lemma, fid=fid, lid=lid, token_fmt=token_fmt,
+                   lcollocs=lcollocs, rcollocs=rcollocs)
 
     def __str__(self):
         return self.token
-- 
2.43.0


From 7b7ec95b9249132166a879137375c8fbc2e7c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:57 +0000
Subject: [PATCH 61/97] fix: label and size the old token weight matrix by its
 contexts

build_tc_weight_matrix sized its result by the columns of the type weights but
labelled it with those of the token matrix, and raised KeyError for a token
without contexts.
---
 nephosem/models/typetoken.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index ffc8277..d5e595e 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -1231,7 +1231,7 @@ def build_tc_weight_matrix(tcPositionMTX, twMTX):
     for type_, toks in type2token.items():
         tw_row = type_weight_mtx[type_]
         for tok in toks:
-            tc_row = tok_context_mtx[tok]
+            tc_row = tok_context_mtx.get(tok, {})  # a token may have no contexts
             tc_feats = tc_row.keys()
             for feat in tc_feats:
                 if feat not in tw_row:
@@ -1239,5 +1239,5 @@ def build_tc_weight_matrix(tcPositionMTX, twMTX):
                 val = tw_row[feat]
                 tok_weight_dict[tok][feat] = val
 
-    tc_weight_mtx = mxutils.transform_dict_to_spmatrix(tok_weight_dict, tcPositionMTX.row_items, twMTX.col_items)
+    tc_weight_mtx = mxutils.transform_dict_to_spmatrix(tok_weight_dict, tcPositionMTX.row_items, tcPositionMTX.col_items)
     return TypeTokenMatrix(tc_weight_mtx, tcPositionMTX.row_items, tcPositionMTX.col_items)
-- 
2.43.0


From a40dc29ea8ef1fc09e88153df2c246d0c3eb5c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 62/97] fix: dropping the empty columns of a matrix without
 values

drop_empty(axis=1) raised AttributeError where drop_empty(axis=0) returns None.
---
 nephosem/core/matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 6e63236..d1e0489 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1116,7 +1116,8 @@ class TypeTokenMatrix(BaseMatrix):
         elif axis == 1:
             tmx = self.transpose()
             dropped_tmx = tmx.drop_empty_rows(explicit=explicit)
-            return dropped_tmx.transpose()
+            # nothing is left of a matrix without values
+            return dropped_tmx.transpose() if dropped_tmx is not None else None
         else:
             raise ValueError("axis should be 0 or 1!")
 
-- 
2.43.0


From b9744fd3e948ebe0aa021d27f8841dbeb8b1b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 63/97] fix: TypeVectorizer.vectorize passes the marginal
 frequencies

compute_association needs them, so every call raised TypeError.
---
 nephosem/models/typetoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index d5e595e..fb3048f 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -814,7 +814,8 @@ class TypeVectorizer(object):
         -------
         vectors : :class:`nephosem.core.matrix.TypeTokenMatrix`
         """
-        self.vectors = mxcalc.compute_association(self.freqmx, meas=meas)
+        nfreq, cfreq = Vocab(self.freqmx.sum(axis=1)), Vocab(self.freqmx.sum(axis=0))
+        self.vectors = mxcalc.compute_association(self.freqmx, nfreq=nfreq, cfreq=cfreq, meas=meas)
         return self.vectors
 
 
-- 
2.43.0


From 699048d936d77fd480163f90c938fe030e90fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:11 +0000
Subject: [PATCH 64/97] fix: read configuration files and graphml patterns as
 UTF-8 whatever the locale

ConfigLoader and PatternGraph.read_graphml used the encoding of the
locale, so that a user's settings or patterns with non-ASCII text failed
(or were read as other characters) under e.g. LC_ALL=C.
---
 nephosem/conf.py       | 2 +-
 nephosem/core/graph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/conf.py b/nephosem/conf.py
index 0752841..b49f1e8 100644
--- a/nephosem/conf.py
+++ b/nephosem/conf.py
@@ -82,7 +82,7 @@ class ConfigLoader(object):
         # ConfigParser parses INI files which are expected to be parsed case-insensitively
         # disable this behaviour by replacing the RawConfigParser.optionxform() function
         config.optionxform = str
-        config.read(config_file)
+        config.read(config_file, encoding="utf-8")
         sections = config.sections()  # sections in config file -> [Corpus-Format], [Span], ...
 
         for sect in sections:
diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index 1b6ae22..c5fa319 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -545,7 +545,7 @@ class PatternGraph(DiGraph):
 
     @classmethod
     def read_graphml(cls, fname):
-        with open(fname) as fin:
+        with open(fname, encoding="utf-8") as fin:
             graphs = []
             header = []
             ender = None
-- 
2.43.0


From 1956e2ae4336616254bd1d5965130e72c051c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:06 +0000
Subject: [PATCH 65/97] fix: save the committees and residues of a clustering
 as UTF-8

save_residues_json wrote latin1 and save_committees_json the encoding of
the locale: residues with other characters were lost (a logged
UnicodeEncodeError left a truncated file).
---
 nephosem/models/cbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index c1d32af..2f9b27d 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -1179,11 +1179,11 @@ def reverse(fcids, lid):
 
 def save_committees_json(tmpdir, comms):
     C_fname = os.path.join(tmpdir, 'Cs')
-    with codecs.open(C_fname, 'w') as fout:
+    with codecs.open(C_fname, 'w', encoding='utf-8') as fout:
         json.dump(comms, fout, ensure_ascii=False, indent=4)
 
 
 def save_residues_json(tmpdir, residues):
     R_fname = os.path.join(tmpdir, 'Rs')
-    with codecs.open(R_fname, 'w', encoding='latin1') as fout:
+    with codecs.open(R_fname, 'w', encoding='utf-8') as fout:
         json.dump(residues, fout, ensure_ascii=False, indent=4)
-- 
2.43.0


From b10d3e9b1395ed60a65282fbad901f50b094214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:34 +0000
Subject: [PATCH 66/97] fix: TokenHandler.retrieve_tokens returns the tokens of
 its own files only

A second call on the same handler also returned the tokens of the first.
---
 nephosem/models/typetoken.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index fb3048f..59c7d00 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -522,6 +522,9 @@ class TokenHandler(BaseHandler):
         :class:`~nephosem.TypeTokenMatrix`
         """
         fnames = self.prepare_fnames(fnames)
+        # start with empty type nodes: an earlier call leaves its tokens in them
+        self.type2toks = {w: TypeNode(type_str=w, type_fmt=self.formatter.type_format)
+                          for w in self.type2toks}
         logger.info("Scanning tokens of queries in corpus...")
         res = self.process(fnames)
         self.type2toks = res
-- 
2.43.0


From a2262a695078e367dd653a7874d79a91c0582c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:34 +0000
Subject: [PATCH 67/97] fix: only a newline ends a line of a corpus or list
 file

The iterator of a codecs stream also splits lines at U+2028, U+0085,
\x0b, \x0c, \x1c, \x1d and \x1e.
---
 nephosem/core/handler.py     | 4 ++--
 nephosem/models/deprel.py    | 4 ++--
 nephosem/models/typetoken.py | 4 ++--
 nephosem/utils.py            | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index b2bf37a..d1b6232 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -33,7 +33,7 @@ try:
 except ImportError:
     import pickle as _pickle
 
-import codecs
+import io
 import logging
 import os
 from copy import deepcopy
@@ -324,7 +324,7 @@ class BaseHandler(Paralleler):
         # process file
         fname = os.path.splitext(os.path.relpath(filename, start=self.settings['corpus-path']))[0] # change 2023.04.07: assign fid based corpus path in settings (flexible softcoding)
         # fname = os.path.basename(filename).rsplit('.', 1)[0]  # for filename in token
-        with codecs.open(filename, 'r', input_encoding) as fin:
+        with io.open(filename, 'r', encoding=input_encoding) as fin:
             lid = 0  # line number (1-based)
             for line in fin:
                 lid += 1
diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 7c88251..abd53cd 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -16,7 +16,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Nephosem. If not, see <https://www.gnu.org/licenses/>.
 
-import codecs
+import io
 import logging
 import multiprocessing as mp
 import os
@@ -294,7 +294,7 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
     -------
     generator of sentences (tuple(int, string))
     """
-    with codecs.open(filename, 'r', encoding=encoding) as fin:
+    with io.open(filename, 'r', encoding=encoding) as fin:
         sentence = []
         lid = 0
         for line in fin:
diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 59c7d00..f141011 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -43,7 +43,7 @@ Initialize a model with e.g.
 
 from __future__ import division
 
-import codecs
+import io
 import logging
 import os
 from collections import defaultdict
@@ -155,7 +155,7 @@ class ItemFreqHandler(BaseHandler):
             The corpus file name to process
         """
         # return super(ItemFreqHandler, self).update_one_file(filename, data)
-        with codecs.open(filename, 'r', self.input_encoding) as fin:
+        with io.open(filename, 'r', encoding=self.input_encoding) as fin:
             for line in fin:
                 line = line.strip()  # in case there is a '\n'
                 match = self.formatter.match_line(line)
diff --git a/nephosem/utils.py b/nephosem/utils.py
index df9dcc1..7fc9f2c 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -138,7 +138,7 @@ def read_fnames(filename, dirname='', encoding='utf-8'):
     if ext != ".fnames":
         filename = "{}.fnames".format(filename)
     try:
-        with codecs.open(filename, 'r', encoding=encoding) as inf:
+        with io.open(filename, 'r', encoding=encoding) as inf:
             for line in inf:
                 line = line.strip()
                 if len(line) <= 0 or line.startswith('#'):
@@ -416,7 +416,7 @@ def read_word_queries(fname, encoding='utf-8', wquery_default_key='_DEFAULT_'):
     retval = []
     if not os.path.isfile(fname):
         return retval
-    with codecs.open(fname, 'r', encoding=encoding) as inf:
+    with io.open(fname, 'r', encoding=encoding) as inf:
         for line in inf:
             line = line.strip()
             if len(line) <= 0 or line.startswith('#'):
-- 
2.43.0


From d0983876a6c364c2951bc1436a200432fc016911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:34 +0000
Subject: [PATCH 68/97] fix: concatenate rejects differently labelled matrices
 under python -O too

---
 nephosem/core/matrix.py      | 6 ++++--
 nephosem/specutils/mxcalc.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index d1e0489..2311e11 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1208,12 +1208,14 @@ class TypeTokenMatrix(BaseMatrix):
         """
         if axis == 0:
             concmx = self._mxbehavior.concatenate(targetmx.matrix, axis=axis)
-            assert self.col_items == targetmx.col_items
+            if self.col_items != targetmx.col_items:
+                raise ValueError("The matrices do not have the same column items!")
             conc_row_items = self.row_items + targetmx.row_items
             return TypeTokenMatrix(concmx, conc_row_items, self.col_items)
         elif axis == 1:
             concmx = self._mxbehavior.concatenate(targetmx.matrix, axis=axis)
-            assert self.row_items == targetmx.row_items
+            if self.row_items != targetmx.row_items:
+                raise ValueError("The matrices do not have the same row items!")
             conc_col_items = self.col_items + targetmx.col_items
             return TypeTokenMatrix(concmx, self.row_items, conc_col_items)
         else:
diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index a40b053..5f42058 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -557,7 +557,8 @@ def compute_token_vectors(tcWeightMTX, soccMTX, operation='addition', normalizat
     # 1. Matrix type
     # assert isinstance(tcWeightMTX, TypeTokenMatrix)
     # assert isinstance(soccMTX, TypeTokenMatrix)
-    assert tcWeightMTX.__class__ == soccMTX.__class__
+    if tcWeightMTX.__class__ != soccMTX.__class__:
+        raise ValueError("The two matrices are not of the same class!")
     # 2. check item list consistency
     inter_items_1 = tcWeightMTX.col_items
     inter_items_2 = soccMTX.row_items
-- 
2.43.0


From 17643c622daa85c7fcf4498446a8c72969c89b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:53 +0000
Subject: [PATCH 69/97] fix: sentences that are no trees are skipped under
 python -O too

---
 nephosem/specutils/deputils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index 06cc817..460a7f2 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -171,10 +171,8 @@ def tree_match(sentence, macro):
     macro : :class:`~qlvl.core.graph.MacroGraph`
     """
     # check whether the sentence (dependency tree) is a valid tree
-    try:
-        assert sentence.istree
-    except Exception as err:
-        logger.error(err, str(sentence.fid))
+    if not sentence.istree:
+        logger.error("not a valid tree: a sentence of {}".format(sentence.fid))
         return False
 
     num_curr_matches = len(macro.matched_nodes)
-- 
2.43.0


From 5c860d34e5964f58e9460b6f1502db95f900150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:53 +0000
Subject: [PATCH 70/97] fix: an optional group without a match is represented
 by '*'

A pattern like (N)?\w* aborted the whole run with a TypeError in join().
---
 nephosem/core/graph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index c5fa319..0e4a817 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -670,6 +670,8 @@ class MacroGraph(PatternGraph):
                 mtarget = re.match(target_regex, target_node)
                 try:
                     mtrgt_repr = mtarget.group(gid)
+                    if mtrgt_repr is None:  # an optional group that takes no part in the match
+                        mtrgt_repr = '*'
                 except:
                     mtrgt_repr = '*'  # ''
             vals.append(mtrgt_repr)
@@ -695,6 +697,8 @@ class MacroGraph(PatternGraph):
             mfeature = re.match(feat_regex, feat_node)
             try:
                 mfeat_repr = mfeature.group(gid)
+                if mfeat_repr is None:  # an optional group that takes no part in the match
+                    mfeat_repr = '*'
             except:
                 mfeat_repr = '*'
             vals.append(mfeat_repr)
@@ -766,6 +770,8 @@ class MacroGraph(PatternGraph):
             mnode = re.match(node_regex, node_attrs[attr])
             try:
                 mnode_repr = mnode.group(gid)
+                if mnode_repr is None:  # an optional group that takes no part in the match
+                    mnode_repr = '*'
             except:
                 mnode_repr = '*'  # ''
             vals.append(mnode_repr)
@@ -779,6 +785,8 @@ class MacroGraph(PatternGraph):
             medge = re.match(edge_regex, edge_attrs[attr])
             try:
                 medge_repr = medge.group(gid)
+                if medge_repr is None:  # an optional group that takes no part in the match
+                    medge_repr = '*'
             except:
                 medge_repr = '*'  # ''
             vals.append(medge_repr)
-- 
2.43.0


From 437af63b70e202dcf454909b6f0ea45cf4eedde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:11 +0000
Subject: [PATCH 71/97] fix: TypeVectorizer.fit learns the vocabulary of the
 files it is given

A second fit without given vocabularies kept the types of the first one.
---
 nephosem/models/typetoken.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index f141011..4090e0b 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -755,6 +755,8 @@ class TypeVectorizer(object):
         self.col_vocab = col_vocab
         self.col_max_df = col_max_df
         self.col_min_df = col_min_df
+        self._learned_row_vocab = None
+        self._learned_col_vocab = None
         if row_max_df < 0 or row_min_df < 0 or col_max_df < 0 or col_min_df < 0:
             raise ValueError("negative value for max_df or min_df")
         self.dtype = dtype
@@ -794,12 +796,15 @@ class TypeVectorizer(object):
             Co-occurrence frequency matrix.
         """
         cfhan = ColFreqHandler(self.settings)
-        if self.row_vocab is None:
+        # a vocabulary that was learned from the files of an earlier fit is learned anew
+        if self.row_vocab is None or self.row_vocab is self._learned_row_vocab:
             logger.info("Building vocabulary since no vocabulary provided!")
             ifhan = ItemFreqHandler(settings=self.settings)
             self.row_vocab = ifhan.build_item_freq(fnames=fnames)
-        if self.col_vocab is None:
+            self._learned_row_vocab = self.row_vocab
+        if self.col_vocab is None or self.col_vocab is self._learned_col_vocab:
             self.col_vocab = self.row_vocab.deepcopy()
+            self._learned_col_vocab = self.col_vocab
         self.freqmx = cfhan.build_col_freq(fnames=fnames, row_vocab=self.row_vocab, col_vocab=self.col_vocab)
         # TODO: filter matrix by max_df and min_df
 
-- 
2.43.0


From 84a10a90fee0eab584e69b150c89776877b43a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:10 +0000
Subject: [PATCH 72/97] fix: sample with a seed no longer seeds the global
 random generator

---
 nephosem/core/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 2311e11..f5a5df8 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -989,9 +989,9 @@ class TypeTokenMatrix(BaseMatrix):
             sample_size = sample_size if sample_size > 0 else 1
         else:
             raise ValueError("'percent' should be a float between (0, 1) or an integer!")
-        if seed >= 0:
-            np.random.seed(seed)
-        sample_idx = sorted(np.random.choice(range(size), size=sample_size, replace=replace))
+        # a generator of its own: a given seed must not make all later random numbers of the process repeat
+        rng = np.random.RandomState(seed) if seed >= 0 else np.random
+        sample_idx = sorted(rng.choice(range(size), size=sample_size, replace=replace))
         sample_items = [self.row_items[i] for i in sample_idx]
         return self.submatrix(row=sample_items)
 
-- 
2.43.0


From 8a148da78d3580baa76a99475e2b4d3ccfd01eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:03 +0000
Subject: [PATCH 73/97] fix: word queries may contain colons

---
 nephosem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 7fc9f2c..9c49079 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -430,7 +430,7 @@ def read_word_queries(fname, encoding='utf-8', wquery_default_key='_DEFAULT_'):
                 }
                 fields = line.split("\t")
                 for field in fields:
-                    eles = field.split(":")
+                    eles = field.split(":", 1)  # the word itself may contain colons
                     if len(eles) != 2:
                         continue
                     item_corpus_name = eles[0].strip()
-- 
2.43.0


From b5079b6e1f5610066b58856caff61d8dc0179aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:03 +0000
Subject: [PATCH 74/97] fix: CBC with several processes reports one that dies
 instead of waiting for ever or returning all elements as residues

---
 nephosem/models/cbc.py | 66 ++++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 2f9b27d..0f7ff26 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -41,7 +41,7 @@ import os
 import tempfile
 from collections import defaultdict
 from copy import deepcopy
-from multiprocessing import cpu_count, Pool
+from multiprocessing import Pipe, Process, cpu_count
 
 import numpy as np
 import scipy.cluster.hierarchy as sch
@@ -59,6 +59,10 @@ __all__ = ['CBC']
 logger = logging.getLogger(__name__)
 
 
+class WorkerError(RuntimeError):
+    """A worker process of the multicore method failed."""
+
+
 class CBC(object):
 
     def __init__(self, elements, freqmx, measmx=None, distmx=None,
@@ -186,6 +190,8 @@ class CBC(object):
             logger.info("{}\nRECURSION {}: {} elements".format(separator, i, len(residues)))
             try:
                 curC, curR = major_steps(self, eles=residues, multicore=multicore)
+            except WorkerError:
+                raise  # the similar elements of some elements are unknown
             except Exception as err:
                 logger.exception(err)
                 curC, curR = [], residues
@@ -310,23 +316,37 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
         idx = i * num_cores // num_eles
         data_group[idx].append(elements[i])
 
-    pool = Pool(processes=num_cores)
-    results = []
-    for i in range(num_cores):
-        args = (data_group[i], tmpdir,)
-        kwargs = {
-            'k': k,
-            'prune_method': prune_method, 't': t,
-            'score_metric': score_metric, 'highest_score': highest_score,
-        }
-        results.append(pool.apply_async(cbc_step1_call, args=args, kwds=kwargs))
-    pool.close()
-    pool.join()
-
-    # merge results
-    L = []
-    for res in results:
-        L.extend(res.get())
+    # a process (and a pipe) per group, not a multiprocessing.Pool: the pool waits for ever for the result of a process that dies
+    L, workers = [], []
+    try:
+        for i in range(num_cores):
+            kwargs = {
+                'k': k,
+                'prune_method': prune_method, 't': t,
+                'score_metric': score_metric, 'highest_score': highest_score,
+            }
+            receiver, sender = Pipe(duplex=False)
+            worker = Process(target=cbc_step1_worker, args=(sender, data_group[i], tmpdir), kwargs=kwargs, daemon=True)
+            worker.start()
+            sender.close()  # only the worker holds it now: its end is the end of the pipe
+            workers.append((worker, receiver))
+
+        # merge results
+        for worker, receiver in workers:
+            try:
+                clusters, error = receiver.recv()
+            except (EOFError, OSError):  # nothing, or half of a result
+                worker.join()
+                clusters, error = None, 'exit code {}'.format(worker.exitcode)
+            if clusters is None:
+                raise WorkerError("A process of step 1 failed: {}".format(error))
+            L.extend(clusters)
+            worker.join()
+    finally:
+        for worker, receiver in workers:
+            worker.terminate()
+            worker.join()
+            receiver.close()
     try:
         os.remove(distmx_fname + '.meta')
         os.remove(distmx_fname + '.npy')
@@ -336,6 +356,16 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     return L
 
 
+def cbc_step1_worker(sender, elements, tmpdir_proc, **kwargs):
+    """Send the clusters of `cbc_step1_call()`, or the error that stopped it, through a pipe."""
+    try:
+        res = (cbc_step1_call(elements, tmpdir_proc, **kwargs), None)
+    except Exception as err:
+        res = (None, repr(err))
+    sender.send(res)
+    sender.close()
+
+
 def cbc_step1_call(elements, tmpdir_proc, k=100,
                    prune_method='distance', t='median',
                    score_metric='without_size', highest_score=False):
-- 
2.43.0


From 7523fd98589021a78e9d7dc1027a81ba63732306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:27 +0000
Subject: [PATCH 75/97] fix: the console formatter prints the arguments of a
 log record instead of its raw message

---
 nephosem/logging.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nephosem/logging.py b/nephosem/logging.py
index f707522..42304eb 100644
--- a/nephosem/logging.py
+++ b/nephosem/logging.py
@@ -40,13 +40,13 @@ __all__ = ['DefaultFormatter']
 class DefaultFormatter(logging.Formatter):
     """This class inherits `logging.Formatter` and is used for setting the format of a handler."""
 
-    err_fmt = "ERROR: %(msg)s"
-    wrn_fmt = "WARNING: %(msg)s"
-    dbg_fmt = "DEBUG: %(module)s: %(lineno)d: %(msg)s"
-    info_fmt = "%(msg)s"
+    err_fmt = "ERROR: %(message)s"
+    wrn_fmt = "WARNING: %(message)s"
+    dbg_fmt = "DEBUG: %(module)s: %(lineno)d: %(message)s"
+    info_fmt = "%(message)s"
 
     def __init__(self):
-        fmt_ = "%(levelno)d: %(msg)s"
+        fmt_ = "%(levelno)d: %(message)s"
         if _python_version < 3:
             super(DefaultFormatter, self).__init__(fmt_)
         else:
-- 
2.43.0


From 50fc6627b68ea97056a0334e9b6e8f069899f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:27 +0000
Subject: [PATCH 76/97] fix: change_log_file replaces the log file of the
 library only, and closes it

---
 nephosem/logging.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/nephosem/logging.py b/nephosem/logging.py
index 42304eb..d9ee3e1 100644
--- a/nephosem/logging.py
+++ b/nephosem/logging.py
@@ -36,6 +36,8 @@ _python_version = sys.version_info[0]
 
 __all__ = ['DefaultFormatter']
 
+file_handler_name = 'nephosem.log'  # tells the file handler of the library from those of the user
+
 
 class DefaultFormatter(logging.Formatter):
     """This class inherits `logging.Formatter` and is used for setting the format of a handler."""
@@ -123,11 +125,7 @@ def init_logging():
         os.makedirs(tmpdir)
 
     # create a file handler
-    file_handler = logging.FileHandler('{}/nephosem.log'.format(tmpdir))  # ~/tmp/nephosem.log
-    file_formatter = logging.Formatter('%(asctime)s [%(levelname)s]: %(message)s',
-                                       datefmt='%d/%m/%Y %H:%M:%S')
-    file_handler.setFormatter(file_formatter)
-    file_handler.setLevel(logging.WARNING)
+    file_handler = create_file_handler('{}/nephosem.log'.format(tmpdir))  # ~/tmp/nephosem.log
 
     # logger for the whole module
     logger = logging.getLogger('nephosem')
@@ -153,6 +151,7 @@ def create_file_handler(log_fname):
         Logging file handler
     """
     file_handler = logging.FileHandler(log_fname)
+    file_handler.set_name(file_handler_name)
     file_formatter = logging.Formatter('%(asctime)s [%(levelname)s]: %(message)s',
                                        datefmt='%d/%m/%Y %H:%M:%S')
     file_handler.setFormatter(file_formatter)
@@ -177,7 +176,12 @@ def change_log_file(logger, fname):
     >>> new_log_fname = "/path/of/new/log/file"
     >>> change_log_file(logger, new_log_fname) # the file handler will now be stored in a new path 
     """
-    logger.handlers.pop()
+    # the user may have added other handlers: they stay
+    handlers = [hd for hd in logger.handlers if isinstance(hd, logging.FileHandler)]
+    handlers = [hd for hd in handlers if hd.get_name() == file_handler_name] or handlers[-1:]
+    for handler in handlers:
+        logger.removeHandler(handler)
+        handler.close()
     fhd = create_file_handler(fname)
     logger.addHandler(fhd)
 
-- 
2.43.0


From 98b129097dba1634eb07f726c5bb326010ff9214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:27 +0000
Subject: [PATCH 77/97] fix: TokenVectorizer.retrieve_tokens takes the type
 nodes of its handler, not the matrix

---
 nephosem/models/typetoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 4090e0b..0f9412f 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -856,7 +856,8 @@ class TokenVectorizer(object):
             query_dict.update(queries)
 
         tokhan = TokenHandler(Vocab(query_dict), settings=self.settings)
-        typenodes = tokhan.retrieve_tokens(fnames=fnames)
+        tokhan.retrieve_tokens(fnames=fnames)
+        typenodes = tokhan.type2toks  # the matrix of the tokens is not needed
 
         self.concepts = dict()
         for concept, variants in self.concept_queries.items():
-- 
2.43.0


From d569c3c63f93772b38b38b535fb90f702a1996c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:27 +0000
Subject: [PATCH 78/97] fix: matching a template at the artificial root of a
 sentence no longer fails on its missing label

---
 nephosem/deprel/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/deprel/basic.py b/nephosem/deprel/basic.py
index 8fa3852..0be9788 100644
--- a/nephosem/deprel/basic.py
+++ b/nephosem/deprel/basic.py
@@ -369,7 +369,7 @@ class SentenceGraph(DiGraph):
 
 def match_sub_template(sentence=None, feature=None, valid_nodes=None, valid_edges=None):
     if len(valid_nodes) == feature.graph.number_of_nodes():
-        matched_nodes = {idx: sentence.graph.nodes[vid]['label'] for vid, idx in valid_nodes}
+        matched_nodes = {idx: sentence.graph.nodes[vid].get('label', 'ROOT') for vid, idx in valid_nodes}
         matched_edges = {(head, tail): it for it, (head, tail) in valid_edges}
         feature.add_match(matched_nodes, matched_edges)
         return
@@ -387,7 +387,7 @@ def match_sub_template(sentence=None, feature=None, valid_nodes=None, valid_edge
             if preds == prevs:
                 continue
             srel = sentence.graph[preds][currs]['rel']
-            predsitem = sentence.nodes[preds]['label']
+            predsitem = sentence.nodes[preds].get('label', 'ROOT')
             trelpatt = feature.graph[predt][currt]['rel']
             predtpatt = feature.nodes[predt]['label']
             # check if edge and node match
@@ -652,7 +652,7 @@ def subtree_match(sentence=None, feature=None, lmatches=None):
             for m in lmatch:
                 nodemapping.update(m)
             # remap feature node to sentence node label (type)
-            matched_nodes = {fn: sentence.nodes[sn]['label'] for fn, sn in nodemapping.items()}
+            matched_nodes = {fn: sentence.nodes[sn].get('label', 'ROOT') for fn, sn in nodemapping.items()}
             # remap feature edge (tuple of node idx) to sentence edge label (dependency relation)
             matched_edges = {(head, tail): sentence.edges[(nodemapping[head], nodemapping[tail])]['rel']
                              for head, tail in feature.edges}
-- 
2.43.0


From 5bd2ec29b0f60ae500b7858be235c6a671c3cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:16 +0000
Subject: [PATCH 79/97] fix: build_tc_weight_matrix finds the type of tokens
 whose file is in a subfolder

---
 nephosem/models/typetoken.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 0f9412f..4d1a61e 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -1230,7 +1230,12 @@ def build_tc_weight_matrix(tcPositionMTX, twMTX):
     tokens = tcPositionMTX.row_items
     type2token = dict()
     for tok in tokens:
-        type_ = '/'.join(tok.split('/')[:-2])
+        eles = tok.split('/')
+        type_ = '/'.join(eles[:-2])
+        for n in range(len(eles) - 2, 0, -1):  # the 'fid' has slashes if the file is in a subfolder
+            if '/'.join(eles[:n]) in type_weight_mtx:
+                type_ = '/'.join(eles[:n])
+                break
         if type_ not in type_weight_mtx:
             missing_types.append(type_)
             continue
-- 
2.43.0


From 9c0bd74c97900abca1e056b2a0f7557353e2c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:34 +0000
Subject: [PATCH 80/97] fix: two sparse matrices with the same values are equal
 even if one of them stores zeros explicitly

---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index f5a5df8..cad1847 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -435,7 +435,7 @@ class SparseMatrix(BaseMatrix):
         return self.matrix.transpose()
 
     def equal(self, othermx):
-        if self.matrix.shape != othermx.shape or self.matrix.nnz != othermx.nnz:
+        if self.matrix.shape != othermx.shape:
             return False
         return (self.matrix != othermx).nnz == 0
 
-- 
2.43.0


From 04e8866a14d584f09939eb19e660101690d550f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:34 +0000
Subject: [PATCH 81/97] fix: clean_dir also removes links to directories and
 dangling links

---
 nephosem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 9c49079..7604050 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -96,7 +96,7 @@ def clean_dir(dirname):
     for fn in os.listdir(dirname):
         fname = os.path.join(dirname, fn)
         try:
-            if os.path.isfile(fname):
+            if os.path.isfile(fname) or os.path.islink(fname):  # a link itself, never what it points to
                 os.remove(fname)
             else:
                 shutil.rmtree(fname)
-- 
2.43.0


From 5074d2523713f3cfeb3a56c2ec990c63476f7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:34 +0000
Subject: [PATCH 82/97] fix: without a directory, read_fnames gives the names
 in the file and not names in the root directory

---
 nephosem/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 7604050..e81c561 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -150,8 +150,7 @@ def read_fnames(filename, dirname='', encoding='utf-8'):
     # if filenames in this file are base names, append the corpus directory to them
     absfnames = []
     for fname in fnames:
-        absfn = '{}/{}'.format(dirname, fname)
-        absfn = absfn if os.sep not in fname else fname
+        absfn = os.path.join(dirname, fname) if os.sep not in fname else fname
         absfnames.append(absfn)
     fnames = absfnames
     return fnames
-- 
2.43.0


From 0988f0aedbef3d027a4687d1ed7f3199b13244d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:34 +0000
Subject: [PATCH 83/97] fix: the 0 largest elements are none, not all

---
 nephosem/specutils/mxutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 7c6e242..05ab8c5 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -297,6 +297,8 @@ def get_largest_k(arr, k):
     """
     if k >= arr.shape[0]:
         return np.arange(arr.shape[0])
+    if k <= 0:
+        return np.arange(0)  # arr[-0:] would be everything
     indices = np.argpartition(arr, -k)[-k:]  # see usage of numpy.argpartition
     return indices
 
-- 
2.43.0


From f78d2eb7285443dae98802c6cd971ce49032014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:34 +0000
Subject: [PATCH 84/97] fix: CBC step 1 uses the score function it is given

---
 nephosem/models/cbc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 0f7ff26..5640e53 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -1072,7 +1072,9 @@ def score_cluster(clusters, simmx, metric='with_size', highest=False, score_func
             continue
 
         avgsim = clustsims[cid]
-        if metric == 'with_size_sqrt':
+        if score_func is not None:
+            score = score_func(len(ids), avgsim)
+        elif metric == 'with_size_sqrt':
             score = math.sqrt(len(ids)) * avgsim
         elif metric == 'with_size':
             score = len(ids) * avgsim
-- 
2.43.0


From 3670aac07f7c50ff703d0bfbcd5d43ef5ffe5835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:30 +0000
Subject: [PATCH 85/97] fix: compute_ppmi multiplies large marginal frequencies
 without integer overflow

---
 nephosem/specutils/mxcalc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 5f42058..ac0cd69 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -50,12 +50,12 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
         # sum of each rows of freqmx (size = row-size)
         row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
-        row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items])
+        row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items], dtype=np.float64)
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
         col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
-        col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items])
+        col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items], dtype=np.float64)
 
     freqmx = freqmx.tocoo()
     row = freqmx.row  # indices of row
-- 
2.43.0


From b5362005ded37936619534eed093395c2cda14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:25 +0000
Subject: [PATCH 86/97] fix: vectorizers and TypeToken keep the corpus name
 they are given

---
 nephosem/models/typetoken.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 4d1a61e..89a4018 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -746,7 +746,7 @@ class TypeVectorizer(object):
                  dtype=np.int64):
         self.settings = deepcopy(settings)
         self.corpus_path = self.settings.get('corpus-path', None)
-        self.corpus_name = corpus_name if not corpus_name else self.corpus_path.split(os.sep)[-1]
+        self.corpus_name = corpus_name if corpus_name or not self.corpus_path else self.corpus_path.split(os.sep)[-1]
         self.input_encoding = settings.get('file-encoding', 'utf-8')
         self.output_encoding = settings.get('output-encoding', 'utf-8')
         self.row_vocab = row_vocab
@@ -841,7 +841,7 @@ class TokenVectorizer(object):
         """
         self.settings = deepcopy(settings)
         self.corpus_path = self.settings.get('corpus-path', None)
-        self.corpus_name = corpus_name if not corpus_name else self.corpus_path.split(os.sep)[-1]
+        self.corpus_name = corpus_name if corpus_name or not self.corpus_path else self.corpus_path.split(os.sep)[-1]
         self.input_encoding = settings.get('file-encoding', 'utf-8')
         self.output_encoding = settings.get('output-encoding', 'utf-8')
         self.concept_queries = concepts
@@ -921,7 +921,7 @@ class TypeToken(object):
     def __init__(self, settings=None, corpus_name=None):
         self.settings = deepcopy(settings)
         self.corpus_path = self.settings.get('corpus-path', None)
-        self.corpus_name = corpus_name if not corpus_name else self.corpus_path.split(os.sep)[-1]
+        self.corpus_name = corpus_name if corpus_name or not self.corpus_path else self.corpus_path.split(os.sep)[-1]
         self.output_path = self.settings.get('output-path', homedir)
         self.input_encoding = settings['file-encoding']
         self.output_encoding = settings['output-encoding']
-- 
2.43.0


From 80189fc89aa344ed6e365c8139340811489a9c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:25 +0000
Subject: [PATCH 87/97] fix: files given by name are read without a corpus path

---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index d1b6232..a8e51e6 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -322,7 +322,7 @@ class BaseHandler(Paralleler):
         win = Window(lspan, rspan)
 
         # process file
-        fname = os.path.splitext(os.path.relpath(filename, start=self.settings['corpus-path']))[0] # change 2023.04.07: assign fid based corpus path in settings (flexible softcoding)
+        fname = os.path.splitext(os.path.relpath(filename, start=self.settings.get('corpus-path')))[0] # change 2023.04.07: assign fid based corpus path in settings (flexible softcoding)
         # fname = os.path.basename(filename).rsplit('.', 1)[0]  # for filename in token
         with io.open(filename, 'r', encoding=input_encoding) as fin:
             lid = 0  # line number (1-based)
-- 
2.43.0


From 23a671584d960fcf3d2e228874e0008fb4c637b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:47 +0000
Subject: [PATCH 88/97] fix: TypeToken.read_queries pairs the words of a list
 of queries

---
 nephosem/models/typetoken.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 89a4018..7a4be32 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -64,7 +64,7 @@ from nephosem.core.vocab import Vocab
 from nephosem.core.matrix import TypeTokenMatrix
 from nephosem.core.handler import BaseHandler
 from nephosem.specutils import mxcalc, mxutils
-from nephosem.utils import count_values
+from nephosem.utils import count_values, get_word_str
 
 __all__ = ['ItemFreqHandler', 'ColFreqHandler', 'TokenHandler', 'TypeToken']
 
@@ -1141,12 +1141,10 @@ class TypeToken(object):
 
     def read_queries(self, queries):
         default_key = self.settings['wqueries-default-key']
-        if not isinstance(queries, list):
-            # a list of word/type pairs: (specified word, neutral word)
-            self.type_pairs = [(get_word_str(w, specific=True, corpus_name=self.corpus_name, def_key=default_key),
-                                get_word_str(w, specific=False, def_key=default_key))
-                               for w in queries]
-        pass
+        # a list of word/type pairs: (specified word, neutral word)
+        self.type_pairs = [(get_word_str(w, specific=True, corpus_name=self.corpus_name, def_key=default_key),
+                            get_word_str(w, specific=False, def_key=default_key))
+                           for w in queries]
 
     def fetch_tokens(self, queries, fnames=None, multicore=True, prog_bar=True):
         subvocab = self.vocab.subvocab(queries)
-- 
2.43.0


From b202e028772baba0765cb31ebb340dacd949c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:03 +0000
Subject: [PATCH 89/97] fix: dependency tokens are told apart when files in
 different folders share a name

---
 nephosem/models/deprel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index abd53cd..4988ce5 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -257,7 +257,8 @@ class DepRelHandler(BaseHandler):
             2.2 so the matching should be a target-feature matching
             2.3 this is a way of speeding up the process when the targets are provided
         """
-        basename = os.path.basename(fname).rsplit('.', 1)[0]  # for filename in token
+        # for filename in token: files of one name in different folders are different files
+        basename = os.path.splitext(os.path.relpath(fname, start=self.settings.get('corpus-path')))[0]
         # read each sentence from the corpus file
         sentences = read_sentence(fname, formatter=self.formatter, encoding=self.input_encoding)
         for s in sentences:
-- 
2.43.0


From 3e4529a630a7251c86def1a6fc18c78c10838720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:03 +0000
Subject: [PATCH 90/97] fix: DepRelHandler.read_templates reads the template
 file in the encoding it is given

---
 nephosem/models/deprel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 4988ce5..8cc492e 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -98,7 +98,7 @@ class DepRelHandler(BaseHandler):
                 macro.matched_nodes = []
                 macro.matched_edges = []
         elif fname:
-            self.macros = MacroGraph.read_csv(fname)  # TODO: use different encodings
+            self.macros = MacroGraph.read_csv(fname, encoding=encoding)
         else:
             raise ValueError("Please provide either fname or features!")
 
-- 
2.43.0


From 6478d10407247f5eabca9020a0bc8a13a6b053c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:47 +0000
Subject: [PATCH 91/97] fix: the left-right boundary mechanism delimits the
 windows and sentences

---
 nephosem/core/terms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index e5d826f..04873ca 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -663,6 +663,8 @@ class CorpusFormatter(object):
             raise NotImplementedError("Only support 'type', 'colloc' and 'token'.")
 
     def separator_line_machine(self, line):
+        if self.bound_mech == 'left-right':  # a unit ends at its right boundary, at the latest where the next one starts
+            return self.left_bound_machine(line) or self.right_bound_machine(line)
         return self._single_bound_machine.match(line)
 
     def left_bound_machine(self, line):
-- 
2.43.0


From f719eab2b17d9adebe651460247ddfa509b4bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:56 +0000
Subject: [PATCH 92/97] fix: a stopped CBC worker cannot keep the lock of the
 progress bars

---
 nephosem/models/cbc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 5640e53..baf339b 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -42,6 +42,7 @@ import tempfile
 from collections import defaultdict
 from copy import deepcopy
 from multiprocessing import Pipe, Process, cpu_count
+from threading import RLock
 
 import numpy as np
 import scipy.cluster.hierarchy as sch
@@ -358,6 +359,8 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
 
 def cbc_step1_worker(sender, elements, tmpdir_proc, **kwargs):
     """Send the clusters of `cbc_step1_call()`, or the error that stopped it, through a pipe."""
+    # a worker that is stopped with the shared lock of the progress bars would keep it for ever
+    progbar.set_lock(RLock())
     try:
         res = (cbc_step1_call(elements, tmpdir_proc, **kwargs), None)
     except Exception as err:
-- 
2.43.0


From e8ae5b4d3dab363f5691684a717db992f6cdde7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:56 +0000
Subject: [PATCH 93/97] fix: TypeNode.sample selects all tokens when there are
 fewer than n

---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 04873ca..49567b5 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -247,7 +247,7 @@ class TypeNode(ItemNode):
         Parameters
         ----------
         n : int
-            default is 300
+            default is 300; all tokens are selected when there are fewer
         method : str
             'random', ...
 
@@ -256,7 +256,7 @@ class TypeNode(ItemNode):
         A new TypeNode object
         """
         if method == 'random':
-            sample_indices = set(random.sample(range(self.freq), n))
+            sample_indices = set(random.sample(range(self.freq), min(n, self.freq)))
             sample_tokens = [h for i, h in enumerate(self.tokens) if i in sample_indices]
         else:  # RETRIEVAL_METHOD_FIRST assumed
             sample_tokens = self.tokens[:n]
-- 
2.43.0


From d7d855369c0bbd7476a024e4ae6405c72619ef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:40 +0000
Subject: [PATCH 94/97] fix: TypeToken uses the handlers and functions that
 exist

---
 nephosem/models/typetoken.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 7a4be32..543c4c9 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -969,16 +969,15 @@ class TypeToken(object):
         --------
         build_vocab : :class:`~nephosem.ItemFreqHandler.build_vocab`
         """
-        ifman = ItemFreqManager(self.settings)
-        self.vocab = ifman.build_item_freq(fnames=fnames, multicore=multicore, prog_bar=prog_bar)
+        ifhan = ItemFreqHandler(self.settings)
+        self.vocab = ifhan.build_item_freq(fnames=fnames)
         return self.vocab.deepcopy()
 
     def build_col_freq(self, fnames=None, row_vocab=None, col_vocab=None, multicore=True, prog_bar=True):
-        cfman = ColFreqManager(self.settings)
+        cfhan = ColFreqHandler(self.settings)
         row_vocab = row_vocab if row_vocab else self.vocab
         col_vocab = col_vocab if col_vocab else Vocab()
-        self.freqmx = cfman.build_col_freq(fnames=fnames, row_vocab=row_vocab, col_vocab=col_vocab,
-                                           multicore=multicore, prog_bar=prog_bar)
+        self.freqmx = cfhan.build_col_freq(fnames=fnames, row_vocab=row_vocab, col_vocab=col_vocab)
         return self.freqmx.deepcopy()
 
     def compute_association(self, freqmx=None, meas='ppmi'):
@@ -995,7 +994,8 @@ class TypeToken(object):
 
         """
         freqmx = freqmx if freqmx else self.freqmx
-        self.measmx = mxcalc.compute_association(freqmx, meas=meas)
+        nfreq, cfreq = Vocab(freqmx.sum(axis=1)), Vocab(freqmx.sum(axis=0))
+        self.measmx = mxcalc.compute_association(freqmx, nfreq=nfreq, cfreq=cfreq, meas=meas)
         return self.measmx
 
     def compute_similarity(self, measmx=None, metric='cosine', rank=False, axis=0):
@@ -1034,8 +1034,8 @@ class TypeToken(object):
 
         """
         measmx = measmx if measmx else self.measmx
-        self.simmx = mxcalc.compute_distance(measmx, metric=metric)
-        return self.simmx
+        self.distmx = mxcalc.compute_distance(measmx, metric=metric)
+        return self.distmx
 
     def compute_simrank(self, simmx=None, distance=False, reverse=False):
         """Compute similarity rank matrix.
@@ -1050,6 +1050,7 @@ class TypeToken(object):
         -------
 
         """
+        simmx = simmx if simmx else self.simmx
         # if distance:  # the input matrix is a distance matrix
         self.rankmx = mxcalc.compute_simrank(simmx, reverse=reverse)
         return self.rankmx.deepcopy()
@@ -1079,8 +1080,8 @@ class TypeToken(object):
             row_vocab = self.select_types(queries)
         elif not row_vocab:
             raise ValueError("Please pass queries or row_vocab!")
-        tcman = TokenManager(self.settings)
-        self.tcmx = tcman.retrieve_tokens(fnames=fnames, row_vocab=row_vocab, col_vocab=col_vocab, multicore=multicore, prog_bar=prog_bar)
+        tokhan = TokenHandler(row_vocab, settings=self.settings, col_vocab=col_vocab)
+        self.tcmx = tokhan.retrieve_tokens(fnames=fnames)
         return self.tcmx.deepcopy()
 
     def build_token_weights(self, tcPositionMTX=None, twMTX=None):
@@ -1112,7 +1113,7 @@ class TypeToken(object):
             tcPositionMTX = self.tcmx
         if twMTX is None:
             raise ValueError("Please input a valid twMTX!")
-        self.token_weights = build_token_weights(tcPositionMTX, twMTX)
+        self.token_weights = mxcalc.compute_token_weights(tcPositionMTX, twMTX)
         return self.token_weights.deepcopy()
 
     def build_token_vectors(self, tcWeightMTX=None, soccMTX=None, operation='addition'):
@@ -1136,7 +1137,7 @@ class TypeToken(object):
             raise ValueError("Please input a valid token weight matrix!")
         if soccMTX is None:
             raise ValueError("Please input a valid second order matrix!")
-        self.token_vectors = build_token_vectors(tcWeightMTX, soccMTX, operation=operation)
+        self.token_vectors = mxcalc.compute_token_vectors(tcWeightMTX, soccMTX, operation=operation)
         return self.token_vectors.deepcopy()
 
     def read_queries(self, queries):
@@ -1148,9 +1149,9 @@ class TypeToken(object):
 
     def fetch_tokens(self, queries, fnames=None, multicore=True, prog_bar=True):
         subvocab = self.vocab.subvocab(queries)
-        tr = TokenScanner(self.settings, queries)
-        tr.set_raw_vocab(subvocab)
-        tpnodes = tr.retrieve_tokens(fnames=fnames, multicore=multicore, prog_bar=prog_bar)
+        tokhan = TokenHandler(subvocab, settings=self.settings)
+        tokhan.retrieve_tokens(fnames=fnames)
+        tpnodes = tokhan.type2toks
         self.type_nodes = tpnodes
         return tpnodes
 
-- 
2.43.0


From d51167ae28ced4fc92046f3716e58de5875cfab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:48 +0000
Subject: [PATCH 95/97] fix: TypeToken takes the settings of a ConfigLoader

---
 nephosem/models/typetoken.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 543c4c9..5cc0fb2 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -923,8 +923,8 @@ class TypeToken(object):
         self.corpus_path = self.settings.get('corpus-path', None)
         self.corpus_name = corpus_name if corpus_name or not self.corpus_path else self.corpus_path.split(os.sep)[-1]
         self.output_path = self.settings.get('output-path', homedir)
-        self.input_encoding = settings['file-encoding']
-        self.output_encoding = settings['output-encoding']
+        self.input_encoding = settings.get('file-encoding', 'utf-8')
+        self.output_encoding = settings.get('output-encoding', 'utf-8')
         self.vocab = None
         self.freqmx = None
         self.measmx = None
-- 
2.43.0


From 20635505ab80e34e448676cb1c0af2fcf8cf82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:51 +0000
Subject: [PATCH 96/97] fix: printed matrices show items that look like numbers
 as they are

---
 nephosem/core/matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index cad1847..073dd0c 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1511,7 +1511,8 @@ class TypeTokenMatrix(BaseMatrix):
         if n_rows < shape[0]:
             res.append(["..."] * len(res[0]))
 
-        table = tabulate(res, tablefmt='plain')
+        # items that look like numbers are items, and numbers are formatted already
+        table = tabulate(res, tablefmt='plain', disable_numparse=True)
         return table
 
     def spmatrix_to_dict(self):
-- 
2.43.0


From 8fb03ffeb440a9bf4d2b105496640163617d32c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:28 +0000
Subject: [PATCH 97/97] fix: a subvocab keeps the encoding of its vocabulary

---
 nephosem/core/vocab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/vocab.py b/nephosem/core/vocab.py
index 48309de..a58804b 100644
--- a/nephosem/core/vocab.py
+++ b/nephosem/core/vocab.py
@@ -319,7 +319,7 @@ class Vocab(object):
         sub_vocab = dict()
         for it in items:
             sub_vocab[it] = self.freq_dict.get(it, 0)
-        return self.__class__(sub_vocab)
+        return self.__class__(sub_vocab, self.encoding)
 
     # ------- filter methods -------
     @staticmethod
-- 
2.43.0

