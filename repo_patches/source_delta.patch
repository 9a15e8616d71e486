From d66c252542d2530508b8053d805d80fd89953672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 01/58] fix: Needleman-Wunsch borders accumulate the gap costs
 of the skipped elements

---
 lib/daeso/string/needleman_wunsch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/needleman_wunsch.py b/lib/daeso/string/needleman_wunsch.py
index 2cac879..081022c 100644
--- a/lib/daeso/string/needleman_wunsch.py
+++ b/lib/daeso/string/needleman_wunsch.py
@@ -78,10 +78,10 @@ def needleman_wunsch(seq1, seq2, sim_score, gap_cost):
     scores = {(0,0): (0, "T")}
     
     for i in range(1, len(seq1) + 1):
-        scores[i, 0] = (gap_cost(seq1[i-1]) * i, "U")
+        scores[i, 0] = (scores[i-1, 0][0] + gap_cost(seq1[i-1]), "U")
     
     for j in range(1, len(seq2) + 1):
-        scores[0, j] = (gap_cost(seq2[j-1]) * j, "L")
+        scores[0, j] = (scores[0, j-1][0] + gap_cost(seq2[j-1]), "L")
     
     for i in range(1, len(seq1) + 1):
         for j in range(1, len(seq2) + 1):
-- 
2.43.0


From 03c322f177a2411c783bf3c93d0ccbfdfeb04916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 02/58] fix: Smith-Waterman returns an empty alignment when no
 score is positive

---
 lib/daeso/string/smith_waterman.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/daeso/string/smith_waterman.py b/lib/daeso/string/smith_waterman.py
index f26ce9e..dd677b3 100644
--- a/lib/daeso/string/smith_waterman.py
+++ b/lib/daeso/string/smith_waterman.py
@@ -100,6 +100,11 @@ def smith_waterman(seq1, seq2, sim_score, gap_cost):
             
     # find highest score
     positives = [(score, pair) for (pair, score) in scores.items() if score[0] > 0]
+    
+    if not positives:
+        # nothing in common, so no local alignment
+        return scores, []
+    
     positives.sort()
     i,j = positives[-1][1]
     
-- 
2.43.0


From 9e2db098e3b5cb2f2d645f724a1bc82d6443cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 03/58] fix: ROUGE-L of an empty sequence is zero instead of a
 ZeroDivisionError

---
 lib/daeso/string/rouge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 287b656..e51f076 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -95,10 +95,10 @@ def rouge_l(candidate_tokens, reference_tokens, beta=1):
     beta determines the relative importance of recall in the F-measure
     """
     lcs = len(longest_common_subsequence(candidate_tokens, reference_tokens))
-    recall = lcs / float(len(reference_tokens))
-    precision = lcs / float(len(candidate_tokens))
 
     try:
+        recall = lcs / float(len(reference_tokens))
+        precision = lcs / float(len(candidate_tokens))
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
-- 
2.43.0


From c49c1291c97de254f234cbdcf7623e65f5a2bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 04/58] fix: ROUGE-S without skip bigrams is zero instead of a
 ZeroDivisionError

---
 lib/daeso/string/rouge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index e51f076..6b3cd55 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -135,10 +135,10 @@ def rouge_skip_bigram(skip_bigrams1, skip_bigrams2, beta=1):
     # In the current implementation, X and Y are effectively considered sets (i.e. no duplicates). 
     matches_count = float(len(matches))
     
-    recall = matches_count / len(skip_bigrams1)
-    precision = matches_count / len(skip_bigrams2)
     
     try:
+        recall = matches_count / len(skip_bigrams1)
+        precision = matches_count / len(skip_bigrams2)
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
-- 
2.43.0


From 996e7eec3e59e0769c8cb102c0b9153b480ca5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 05/58] fix: normalized tf*idf weights of a single document do
 not divide by zero

---
 lib/daeso/string/tf_idf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/tf_idf.py b/lib/daeso/string/tf_idf.py
index 40cd63d..8e435d3 100644
--- a/lib/daeso/string/tf_idf.py
+++ b/lib/daeso/string/tf_idf.py
@@ -84,7 +84,7 @@ TODO
     docs_count = float(len(terms_per_doc))
     weights_per_doc = []
     
-    if normalized:
+    if normalized and docs_count > 1:
         # note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count),
         # so we can normalize idf by simply dividing by logs(docs_count) 
@@ -151,7 +151,7 @@ def tf_idf(terms_per_doc, normalized=False, indicator=False):
     docs_count = float(len(terms_per_doc))
     weights_per_doc = []
     
-    if normalized:
+    if normalized and docs_count > 1:
         # Note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count).
         # so we can normalize idf by simply dividing by logs(docs_count) 
-- 
2.43.0


From ac60e6fde0ceb468bd345f8f0d54f4e841ad8689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 06/58] fix: roots_aligned compared the source root with itself

---
 lib/daeso/pgc/graphpair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index db5ccab..f9e076d 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -320,8 +320,8 @@ class GraphMapping(GraphPairBase, DiGraph):
         aligned
         """
         return self.has_edge(
-            self._graphs.source.root ,
-            self._graphs.source.root)
+            self._graphs.source.root,
+            self._graphs.target.root)
     
     
     def dump_alignments(self):
-- 
2.43.0


From 6be721f140170abcc2837582b862ad19a73eda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 07/58] fix: graph pair dropped meta data elements without
 children

---
 lib/daeso/pgc/graphpair.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index f9e076d..2b22e11 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -75,7 +75,10 @@ class GraphPairBase(object):
         # references to them. Therefore graphs are automatically destroyed if
         # they are no longer part of any graph pair.
         self._graphs = graphs
-        self._meta_data = meta_data or et.Element("graph_meta_data")
+        # an Element without children is false, so test for None
+        if meta_data is None:
+            meta_data = et.Element("graph_meta_data")
+        self._meta_data = meta_data
         
         
     def __eq__(self, other):
-- 
2.43.0


From 8c8093f1d047e4fc33573d3c8203ed7f9f5d07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 08/58] fix: graph pairs that are equal also compared as not
 equal

---
 lib/daeso/pgc/graphpair.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 2b22e11..567305c 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -109,6 +109,13 @@ class GraphPairBase(object):
                          self._meta_data_equal(other) )
         
         
+    def __ne__(self, other):
+        """
+        self.__ne__(self, other) <==> self != other
+        """
+        return not self == other
+        
+        
     def __deepcopy__(self, memo_dict):
         """
         Implements the copy protocol for copy.deepcopy(graph_pair), which only
-- 
2.43.0


From bdf78058994ae1bf5655db50775a8366f46ef2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 09/58] fix: str of a graph mapping raised TypeError

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 567305c..fb931e4 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -279,7 +279,7 @@ class GraphMapping(GraphPairBase, DiGraph):
             self.__class__.__name__,
             self._banks,
             self._graphs,
-            list.__str__(self),
+            self.alignments(),
             self._meta_data)
 
     
-- 
2.43.0


From e7ad8890eff6f4fb38ccf0631656d6cb91eb4316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 10/58] fix: pairs that are equal also compared as not equal

---
 lib/daeso/pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/pair.py b/lib/daeso/pair.py
index 3003ce0..e0909c0 100644
--- a/lib/daeso/pair.py
+++ b/lib/daeso/pair.py
@@ -44,6 +44,10 @@ class Pair(object):
                      self.target == other.target )
         
         
+    def __ne__(self, other):
+        return not self == other
+        
+        
     def __repr__(self):
         return 'Pair(source={pair.source!r}, target={pair.target!r})'.format(
             pair=self) 
-- 
2.43.0


From c2fa8d0c6f6205434cce1f796947e4c0e751551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 11/58] fix: etree.equals failed on non-ascii text and mixed up
 no text and None

---
 lib/daeso/utils/etree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4248e84..4f98dfd 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -50,8 +50,8 @@ def equals(elem1, elem2):
     """
     # as far as I can see, _ElementInterface lacks a __eq__ method
     return ( elem1.tag == elem2.tag and
-             str(elem1.text).strip() == str(elem2.text).strip() and
-             str(elem1.tail).strip() == str(elem2.tail).strip() and
+             (elem1.text or "").strip() == (elem2.text or "").strip() and
+             (elem1.tail or "").strip() == (elem2.tail or "").strip() and
              elem1.attrib == elem2.attrib and
              len(elem1) == len(elem2) and
              all([ equals(child1, child2)
-- 
2.43.0


From be81b8f93af978a35f411df0fbc3ebfbfed4cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 12/58] fix: comparing graph banks with a missing file raised
 OSError

---
 lib/daeso/gb/graphbank.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 90dbf96..b445093 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -88,8 +88,14 @@ class GraphBank(object):
         reasons of simplicity and efficiency no attempt is made to analyse
         their contents.)
         """
-        return ( self._file_path == other._file_path or
-                 os.path.samefile(self._file_path, other._file_path))
+        if self._file_path == other._file_path:
+            return True
+        
+        try:
+            return os.path.samefile(self._file_path, other._file_path)
+        except OSError:
+            # at least one of the files does not exist
+            return False
     
     
     def __ne__(self, other):
-- 
2.43.0


From b3c0bf0431862145bba6686eb3fab2c0d6da4682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 13/58] fix: names missing in ograph, so building from data or
 wrong arguments raised NameError

---
 lib/daeso/graph/ograph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 8a60bd9..35a8343 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -57,6 +57,8 @@ if LooseVersion(networkx.__version__) < LooseVersion('1.0'):
     raise ImportError("networkx version 1.0 or later required" +
                       "(this is version {0!r}".format(networkx.__version__))
 
+from networkx import NetworkXError, convert
+
 try:
     from collections import OrderedDict
 except ImportError:
@@ -118,7 +120,7 @@ class ODiGraph(networkx.DiGraph):
 
         # attempt to load graph with data
         if data is not None:
-            convert.from_whatever(data,create_using=self)
+            convert.to_networkx_graph(data, create_using=self)
         # load graph attributes (must be after convert)
         self.graph.update(attr)
 
-- 
2.43.0


From c5c53d64735ccf8da6a912eba5806b4c7d93ba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 14/58] fix: nodes added by one add_nodes_from call shared
 their attributes

---
 lib/daeso/graph/ograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 35a8343..7efd766 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -220,7 +220,7 @@ class ODiGraph(networkx.DiGraph):
             if n not in self.succ:
                 self.succ[n] = OrderedDict()
                 self.pred[n] = OrderedDict()
-                self.node[n] = attr
+                self.node[n] = attr.copy()
             else: # update attr even if node already exists            
                 self.node[n].update(attr)
 
-- 
2.43.0


From f2cb3f48c97b821bde4efbd7cfefc52b70d9915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 15/58] fix: NetworkXError missing in daesograph

---
 lib/daeso/graph/daesograph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index b1d9ea5..ba53c87 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -26,6 +26,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 import string
 
+from networkx import NetworkXError
+
 from daeso.graph.ograph import ODiGraph
 
 # TODO:
-- 
2.43.0


From 364b9c6b4580f852167bd4de3fdfc0fd6649ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 16/58] fix: non_terminals called a method that does not exist

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index ba53c87..3bc6c6d 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -101,7 +101,7 @@ class DaesoGraph(ODiGraph):
     
     def non_terminals_iter(self):
         return ( node for node in self
-                 if self.is_non_terminal(node) )
+                 if self.node_is_non_terminal(node) )
     
     
     def non_terminals(self):
-- 
2.43.0


From 47ac37b84b978e8c8923963d1e840f2235745fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 17/58] fix: terminal_yield of a false node gave the yield of
 the root

---
 lib/daeso/graph/daesograph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 3bc6c6d..1beb841 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -149,7 +149,8 @@ class DaesoGraph(ODiGraph):
         terminal nodes dominated by non-terminal node n (in pre-order)
         """
         # should work for both trees and graphs
-        queue = [n or self.root] # LIFO queue
+        # a node may be false, e.g. 0
+        queue = [self.root if n is None else n] # LIFO queue
         seen = {} # nodes seen      
         terminals = []  # list of terminal nodes in a DFS preorder
         
-- 
2.43.0


From 519af8e2281cc6ce47673ad19a2c36a504ff6470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:43 +0000
Subject: [PATCH 18/58] fix: alignment evaluation written to a file was left
 unclosed

---
 lib/daeso/pgc/evaluate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/evaluate.py b/lib/daeso/pgc/evaluate.py
index 7b3c519..ae1bb17 100644
--- a/lib/daeso/pgc/evaluate.py
+++ b/lib/daeso/pgc/evaluate.py
@@ -305,7 +305,12 @@ class AlignEval(dict):
         write full evaluation 
 	"""
         if isinstance(out, basestring):
-            out = open(out, "w")
+            outf = open(out, "w")
+            
+            try:
+                return self.write(outf)
+            finally:
+                outf.close()
             
         self.write_alignment_only(out)
         self.write_alignment_per_relation(out)
-- 
2.43.0


From 079e8df682053c1697dfac5f01abc8ce9e067b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 19/58] fix: pickled agreement results were left in an unclosed
 file

---
 lib/daeso/pgc/agreement.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/agreement.py b/lib/daeso/pgc/agreement.py
index b3e34b7..55bf73b 100644
--- a/lib/daeso/pgc/agreement.py
+++ b/lib/daeso/pgc/agreement.py
@@ -53,11 +53,20 @@ def run_eval(corpus_fns, annotators, pickle_fn=None, words_only=False):
     write_tables(tables)
     
     if pickle_fn:
-        pickle.dump((align_eval, tables), open(pickle_fn, "wb"))
+        write_pickle((align_eval, tables), pickle_fn)
         
     return align_eval, tables
 
 
+def write_pickle(obj, pickle_fn):
+    f = open(pickle_fn, "wb")
+    
+    try:
+        pickle.dump(obj, f)
+    finally:
+        f.close()
+
+
 def write_tables(tables):
     for rel, val in tables.items():
         print 80 * "="
@@ -94,7 +103,7 @@ def tableize(align_eval, pickle_fn=None):
             am.calculate_statistics()
             
     if pickle_fn:
-        pickle.dump(tables, open(pickle_fn, "wb"))
+        write_pickle(tables, pickle_fn)
         
     return tables
            
@@ -124,7 +133,7 @@ def cross_evaluate(corpus_fns, annotators=None, pickle_fn=None,
     align_eval.run_eval()
         
     if pickle_fn:
-        pickle.dump(align_eval, open(pickle_fn, "wb"))
+        write_pickle(align_eval, pickle_fn)
         
     return align_eval
 
-- 
2.43.0


From b04777140f4dbdd1aa4ad831961d95de84b16268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 20/58] fix: comparing corpora with != raised TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index b7a9896..1136663 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -350,7 +350,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__ne__(other) <==> corpsu != other
         """
-        return not self.__eq__(self, other)
+        return not self.__eq__(other)
     
       
     def __repr__(self):
-- 
2.43.0


From 849f2f46443295b3c054218a3ec76824ba83bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 21/58] fix: n * corpus raised TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 1136663..4707876 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -374,7 +374,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__rmul__(n) <==> n * corpus
         """
-        return self.__mul__()
+        return self.__mul__(n)
          
     
     def __setitem__(self, index, value):
-- 
2.43.0


From e2be9a1b9027c65ccc73ff0c08e6fd3af6b8dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 22/58] fix: corpus.insert took no index and raised NameError

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 4707876..724c5ba 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -498,7 +498,7 @@ class ParallelGraphCorpus(list):
         return list.index(self, graph_pair)
     
           
-    def insert(self, graph_pair):
+    def insert(self, index, graph_pair):
         """
         corpus.insert(index, graph_pair) -- insert graph_pair before index
         
@@ -509,7 +509,7 @@ class ParallelGraphCorpus(list):
         if not isinstance(graph_pair, GraphPair):
             raise TypeError("only GraphPair instances are allowed")
         
-        list.insert(self, i, graph_pair)
+        list.insert(self, index, graph_pair)
     
     
     def read(self, inf, graph_loading=LOAD_SPARSE, relax_gb_paths=False):
-- 
2.43.0


From 4c42d7852f5d1371f1919e75d94110ebcc093ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 23/58] fix: corpus.pop failed without index and returned
 nothing

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 724c5ba..69e3f7a 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -542,7 +542,7 @@ class ParallelGraphCorpus(list):
                      relax_gb_paths=relax_gb_paths)
 
           
-    def pop(self, index=None):
+    def pop(self, index=-1):
         """
         corpus.pop([index]) -> GraphPair -- 
         remove and return graph pair at index (default last)
@@ -550,7 +550,7 @@ class ParallelGraphCorpus(list):
         Raises IndexError if corpus is empty or index is out of range.
         """
         # redundant graphbanks are automatically garbage collected
-        list.pop(self, index)
+        return list.pop(self, index)
     
     
     def purge(self, graph_pair=None):
-- 
2.43.0


From 2b3c19c6a12bc9011e700347345e88d6fa9e6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 24/58] fix: comparing corpora with and without meta data
 raised AttributeError

---
 lib/daeso/pgc/corpus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 69e3f7a..27528d1 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -679,6 +679,8 @@ class ParallelGraphCorpus(list):
         if self._meta_data is other._meta_data:
             # both None or same object 
             return True
+        elif self._meta_data is None or other._meta_data is None:
+            return False
         else: 
             return equals(self._meta_data, other._meta_data)
 
-- 
2.43.0


From 2de84ab1af7c759c0ce52ef41a6d1b7459374621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 25/58] fix: creating a corpus sorted the caller's list of
 relations

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 27528d1..e6c0fed 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -429,8 +429,8 @@ class ParallelGraphCorpus(list):
 
         
     def set_relations(self, relations=None):
-        self._relations = relations or []
-        self._relations.sort()
+        # sort a copy, as the list belongs to the caller
+        self._relations = sorted(relations or [])
 
     
     def append(self, graph_pair):
-- 
2.43.0


From 8cb2ae436184a1b83ae39482f82590b692c2a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 26/58] fix: meta data without child elements was not written

---
 lib/daeso/pgc/corpus.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index e6c0fed..5f45972 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1118,7 +1118,8 @@ class PGCGenerator(object):
     def _gen_pg_corpus(self, pg_corpus, out_dir, abs_path):
         root_elem = et.Element("parallel_graph_corpus")
         
-        if pg_corpus._meta_data:
+        # an Element without children is false, so test for None
+        if pg_corpus._meta_data is not None:
             root_elem.append(pg_corpus._meta_data)
         
         graphbanks_elem = et.SubElement(root_elem, "graphbanks")
@@ -1159,8 +1160,14 @@ class PGCGenerator(object):
                 from_graph_id=graph_pair._graphs.source.id,
                 to_graph_id=graph_pair._graphs.target.id)
             
-            if graph_pair._meta_data:
-                graph_pair_elem.append(graph_pair._meta_data)
+            meta_data = graph_pair._meta_data
+            
+            # an Element without children is false, but may have text or
+            # attributes
+            if meta_data is not None and (
+                len(meta_data) or meta_data.attrib or
+                (meta_data.text or "").strip() ):
+                graph_pair_elem.append(meta_data)
             
             self._gen_node_pairs(graph_pair_elem, graph_pair)
                 
-- 
2.43.0


From 4b52199cfd475dc9e19cb5c89638296bca277587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 27/58] fix: reading a corpus with relative graphbank paths
 from a file-like object failed

---
 lib/daeso/pgc/corpus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 5f45972..9ee62af 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -792,6 +792,9 @@ class PGCParser(object):
         elif isinstance(inf, file):
             # if input is a tty, dir becomes ""
             self.dir = os.path.dirname(inf.name)
+        else:
+            # other file-like objects have no path
+            self.dir = os.getcwd()
             
         if pg_corpus is not None:
             assert isinstance(pg_corpus, ParallelGraphCorpus)
-- 
2.43.0


From 94f716b94fd9b7611b691b006daa6e5d3851d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 28/58] fix: XML written to a named file was left in an
 unclosed file

---
 lib/daeso/utils/etree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4f98dfd..74e9e91 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -33,7 +33,12 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     even when encoding is the default utf-8
     """
     if not hasattr(file, "write"):
-        file = open(file, "wb")
+        outf = open(file, "wb")
+        
+        try:
+            return write(etree, outf, encoding, pprint)
+        finally:
+            outf.close()
         
     if pprint:
         indent(etree.getroot())
-- 
2.43.0


From 35a3f4f0a7c0934964eb83d8927808bd786d2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 29/58] fix: elements inside meta data were taken for parts of
 the corpus

---
 lib/daeso/pgc/corpus.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 9ee62af..328a63a 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -808,6 +808,12 @@ class PGCParser(object):
         # use ElementTree's iterparse rather than expat, because we want to
         # store the meta-data as an Element
         for event, elem in et.iterparse(inf, ("start", "end")):
+            if self.in_meta_data and not (
+                event == "end" and elem is self.meta_data_elem ):
+                # elements inside meta data are never part of the corpus,
+                # whatever their tag
+                continue
+            
             if event == "start":
                 try:
                     # search handler only
@@ -854,6 +860,7 @@ class PGCParser(object):
 
     def handle_meta_data_elem_start(self, elem):
         self.in_meta_data = True
+        self.meta_data_elem = elem
 
         
     def handle_graphbanks_elem_start(self, elem):
-- 
2.43.0


From bd80c12fedfa3cc47e5f40085112ae73dfa8e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 30/58] fix: purge of a graph pair without alignments purged
 the whole corpus

---
 lib/daeso/pgc/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 328a63a..85ffbda 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -568,7 +568,8 @@ class ParallelGraphCorpus(list):
         # (difference between source and target banks is irelevant)
         old2new = {}
         
-        if graph_pair:
+        # a graph pair without alignments is false
+        if graph_pair is not None:
             to_purge = [graph_pair]
         else:
             to_purge = self
-- 
2.43.0


From d67e6e530e86a8c96b3d9ba2e77872c5259fd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 31/58] fix: root of a GraphML graph was never set

---
 lib/daeso/gb/graphml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 792d3c5..0cb3730 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -161,7 +161,7 @@ class GraphmlParser(XmlGraphbankParser):
             
             # set the root node, defined as a graph attribute like 
             # <data key="root">n0</data>
-            self._graph.root = self._graph.graph.get("graph")
+            self._graph.root = self._graph.graph.get("root")
             
             self._graph = None
             self._comp_attrs = None
-- 
2.43.0


From e64027f2cc90269a621cfc2dad8418fdcd0fd69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 32/58] fix: default values of GraphML keys were ignored

---
 lib/daeso/gb/graphml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 0cb3730..6656f63 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -143,13 +143,13 @@ class GraphmlParser(XmlGraphbankParser):
     def _end_element(self, tag):
         if tag == "graph":
             self._end_graph()
+        elif tag == "default":
+            self._end_default()
         elif self._graph_wanted():
             if tag in "node":
                 self._end_node()
             elif tag == "data":
                 self._end_data()
-            elif tag == "default":
-                self._end_default()
                 
         self._context.pop()
         
@@ -206,7 +206,8 @@ class GraphmlParser(XmlGraphbankParser):
         
  
     def _char_data(self, data):
-        if self._graph_wanted():
+        # <default> elements come before any graph
+        if self._graph_wanted() or self._context[-1] == "default":
             self._char_data_buf += data   
             
             
-- 
2.43.0


From e679ebc40b0e597093916a0de768afd6bf5c190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 33/58] fix: default tokens of a GraphML node went to the
 previous node

---
 lib/daeso/gb/graphml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 6656f63..bb0b922 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -119,8 +119,8 @@ class GraphmlParser(XmlGraphbankParser):
         # temporarily assign None to required arg label
         self._graph.add_node(n, label=None)
         self._comp_attrs = self._graph.node[n]
-        self._set_defaults()
         self._node = n 
+        self._set_defaults()
         
             
     def _start_edge(self, attrs):
-- 
2.43.0


From df808b449a47bcf46bf75622a8f8dcee4b43d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 34/58] fix: GraphML data of a graph after its nodes or edges
 failed or went to an edge

---
 lib/daeso/gb/graphml.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index bb0b922..0683c01 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -146,8 +146,10 @@ class GraphmlParser(XmlGraphbankParser):
         elif tag == "default":
             self._end_default()
         elif self._graph_wanted():
-            if tag in "node":
+            if tag == "node":
                 self._end_node()
+            elif tag == "edge":
+                self._end_edge()
             elif tag == "data":
                 self._end_data()
                 
@@ -175,11 +177,12 @@ class GraphmlParser(XmlGraphbankParser):
             raise DaesoError("node must have a 'tokens' attribute")
         
         self._node = None
-        self._comp_attrs = None
+        # back to the attributes of the graph
+        self._comp_attrs = self._graph.graph
         
         
-    def end_edge(self):
-        self._comp_attrs = None
+    def _end_edge(self):
+        self._comp_attrs = self._graph.graph
     
      
     def _end_data(self):
-- 
2.43.0


From f322a0b65c776076ed84fc2f7dff20c59aba9e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 35/58] fix: GraphML keys for other components raised KeyError

---
 lib/daeso/gb/graphml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 0683c01..fe985b3 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -102,7 +102,9 @@ class GraphmlParser(XmlGraphbankParser):
         key_for = attrs.get("for", "all")
         self._current_key = dict(name=attrs["attr.name"],
                                  type=attrs.get("attr.type", "string"))
-        self._key_table[key_for][attrs["id"]] =  self._current_key
+        # there may be keys for other components, such as ports
+        key_table = self._key_table.setdefault(key_for, {})
+        key_table[attrs["id"]] = self._current_key
                 
         
     def _start_graph(self, attrs):
-- 
2.43.0


From 73692ce42b2e2fac2e184e5485504e86acf0261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 36/58] fix: sparse parsing of graphbanks from strings or
 file-like objects failed

---
 lib/daeso/gb/parser.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 657f920..5be6f89 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -55,14 +55,10 @@ class XmlGraphbankParser(object):
         
     def parse_string(self, data, id2graph=None, sparse=False):
         # supports incremental parsing
-        self._id2graph = id2graph or {}
+        self._id2graph = {} if id2graph is None else id2graph
         self._sparse = sparse
 
         self._parser.Parse(data, 0)
-        
-        if self._sparse:
-            self._check_for_unresolved_graphs()
-            
         return self._id2graph
 
         
@@ -70,6 +66,10 @@ class XmlGraphbankParser(object):
         self._parser.Parse("", 1) # end of data
         del self._parser # get rid of circular references
         
+        if self._sparse:
+            # only now all data has been seen
+            self._check_for_unresolved_graphs()
+        
         
     def parse_file(self, inf, id2graph=None, sparse=False):
         if not hasattr(inf, "read"):
@@ -82,12 +82,12 @@ class XmlGraphbankParser(object):
         ##del self._parser 
         
         if self._sparse:
-            self._check_for_unresolved_graphs(inf)
+            self._check_for_unresolved_graphs(getattr(inf, "name", inf))
             
         return self._id2graph
     
             
-    def _check_for_unresolved_graphs(self, inf):
+    def _check_for_unresolved_graphs(self, name="<string>"):
         unresolved = [ '"{0}"'.format(id) 
                        for (id, graph) in self._id2graph.items() 
                        if graph is None ]
@@ -95,7 +95,7 @@ class XmlGraphbankParser(object):
         if unresolved:
             msg = ( "graphs with the following id's were not found"
                     ' in graphbank file "{0}": {1}'.format(
-                        inf.name, 
+                        name,
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
         
-- 
2.43.0


From 474d592b5aa45e64a9f0afae70dfe50f965ef393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 37/58] fix: parse_file needed a dict of graphs and left its
 file unclosed

---
 lib/daeso/gb/parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 5be6f89..bf62c1a 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -72,13 +72,18 @@ class XmlGraphbankParser(object):
         
         
     def parse_file(self, inf, id2graph=None, sparse=False):
-        if not hasattr(inf, "read"):
+        to_close = not hasattr(inf, "read")
+        if to_close:
             inf = open(inf)
             
-        self._id2graph = id2graph
+        self._id2graph = {} if id2graph is None else id2graph
         self._sparse = sparse
         
-        self._parser.ParseFile(inf)
+        try:
+            self._parser.ParseFile(inf)
+        finally:
+            if to_close:
+                inf.close()
         ##del self._parser 
         
         if self._sparse:
-- 
2.43.0


From 6470df9e0f25d62dae7bfc0b5768279c1dfdb3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 38/58] fix: unknown graphbank format raised AttributeError
 instead of AssertionError

---
 lib/daeso/gb/graphbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index b445093..c0e88d3 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -168,9 +168,9 @@ class GraphBank(object):
         try:
             parser_module_name, parser_class_name = getattr(daeso.gb.register, 
                                                             format.lower())
-        except KeyError:
+        except AttributeError:
             # TODO: use own error class
-            AssertionError("no parser available for graphbank in '%s' format" % format)
+            raise AssertionError("no parser available for graphbank in '%s' format" % format)
             
         try:
             parser_module = __import__(parser_module_name, 
-- 
2.43.0


From a32b015ad60a3e8f1a1a21692bb91e9de07aa81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 39/58] fix: error message about a client of a graph stub could
 not be formatted

---
 lib/daeso/gb/graphstub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphstub.py b/lib/daeso/gb/graphstub.py
index f3a1da5..6acb177 100644
--- a/lib/daeso/gb/graphstub.py
+++ b/lib/daeso/gb/graphstub.py
@@ -92,7 +92,7 @@ class GraphStub(object):
             elif graph_pair._graphs.target is self:
                 graph_pair._graphs.target = graph
             else:
-                raise ValueError( "{0} is no client of {}".format(
+                raise ValueError( "{0} is no client of {1}".format(
                     graph_pair, self))
         
         # If any of the graph pairs is deleted while for some reason the graph
-- 
2.43.0


From 964170258a8970cda47451e8e3a9128c554e024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:05 +0000
Subject: [PATCH 40/58] fix: statistics counted failed parses and unaligned
 roots of discarded graphs

---
 lib/daeso/gb/gbstats.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index 10b0109..1896f4b 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -134,15 +134,19 @@ def graph_stats(gb,
     gb_table["BANK"][i] = name
 
     for graph in gb:                                   
+        found_failed_parse = found_unaligned_root = False
+        
         if graph.is_failed_parse():
             if with_failed_parses:
-                gb_table["CGFP"][i] += 1
+                # postpone counting because the graph might be discarded
+                # for other reasons
+                found_failed_parse = True
             else:
                 continue
         
         if not root_aligned(graph):
             if with_unaligned_roots:
-                gb_table["CGUR"][i] +=1
+                found_unaligned_root = True
             else:
                 continue
             
@@ -163,6 +167,12 @@ def graph_stats(gb,
             else:
                 gb_table["CGMA"][i] += 1
         
+        if found_failed_parse:
+            gb_table["CGFP"][i] += 1
+            
+        if found_unaligned_root:
+            gb_table["CGUR"][i] += 1
+        
         gb_table["CG"][i] += 1
         gb_table["CT"][i] += count_tokens(graph, with_punc)
         
-- 
2.43.0


From 497b0d41cf94ec48efe9bd78eb0f8e1e6f2b7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:05 +0000
Subject: [PATCH 41/58] fix: stats tables were read again before they were
 completely written

---
 lib/daeso/stats/corpus.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 141cde1..2164b08 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -170,4 +170,8 @@ def write_table(table, fn, verbose=True):
     """
     if not table.is_empty():
         if verbose: print "Writing table", fn
-        table.write(out=file(fn, "w"))
\ No newline at end of file
+        outf = open(fn, "w")
+        try:
+            table.write(out=outf)
+        finally:
+            outf.close()
-- 
2.43.0


From 1e868da62e683fd16f44892f277b963c30501121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 42/58] fix: truncated stats table in a file-like object raised
 AttributeError instead of EOFError

---
 lib/daeso/stats/table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 7923f93..9422b73 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -182,7 +182,9 @@ class StatsTable(OrderedDict):
                     else:
                         col.append(float(val))
         else:
-            raise EOFError("stats table truncated in file " + file.name)
+            # a file-like object may lack a name
+            raise EOFError("stats table truncated in file {0}".format(
+                getattr(file, "name", file)))
                         
                         
     def is_separator(self, l):
-- 
2.43.0


From c876fd16cbe3d237804b2527b476eecc491e9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 43/58] fix: stats table with a space in a filename could not
 be read

---
 lib/daeso/stats/table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 9422b73..f522d99 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -172,7 +172,9 @@ class StatsTable(OrderedDict):
                     continue            
             elif sep_count == 1:
                 # read body
-                value_row = l.strip().split()
+                # a string in the first column, such as a filename, may contain
+                # spaces
+                value_row = l.strip().rsplit(None, len(self) - 1)
                 
                 for col, val in zip(self.values(), value_row):
                     if col.type == "string":
-- 
2.43.0


From d644017b8fc4fc13e05921c67ccee63c422ba510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:36 +0000
Subject: [PATCH 44/58] fix: column ignored its width and precision

---
 lib/daeso/stats/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index f522d99..90234c0 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -39,8 +39,8 @@ class Column(list):
         self.type = type
         self.descr = descr
         self.overall = overall
-        self.width = 8
-        self.prec = 2
+        self.width = width
+        self.prec = prec
         
         if size:
             self.grow(size)
-- 
2.43.0


From 372aa21758e71104a18ba35d31efb853574f8e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:43 +0000
Subject: [PATCH 45/58] fix: pgc_diff wrote no headings of the corpora and the
 graph pairs

---
 lib/daeso/pgc/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index cf2d5b5..6fa8061 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -59,7 +59,7 @@ def pgc_diff(corpus1, corpus2,
     pair_count = 0
     
     header("%s corpus: %s\n%s corpus: %s" % (annot1, corpus_name1, annot2,
-                                             corpus_name2), width=120, char="#")
+                                             corpus_name2), out, width=120, char="#")
     
     for graph_pair1, graph_pair2 in zip(corpus1, corpus2):
         # assume that the corpora have the same graph pairs in the same order,
@@ -103,7 +103,7 @@ def pgc_diff(corpus1, corpus2,
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
         #    continue
             
-        header("Graph pair %d" % pair_count, width=120, char="=")
+        header("Graph pair %d" % pair_count, out, width=120, char="=")
         
         print >>out, graphs.source.get_graph_token_string().encode("utf-8"), "\n"
         print >>out, graphs.target.get_graph_token_string().encode("utf-8"), "\n"
-- 
2.43.0


From 7db47075ecb95c658b9c27ef068c6df5feb4acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:43 +0000
Subject: [PATCH 46/58] fix: pgc_diff restricted to words raised AttributeError
 and skipped the words

---
 lib/daeso/pgc/diff.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 6fa8061..3c29dd4 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -77,8 +77,8 @@ def pgc_diff(corpus1, corpus2,
         
         for nodes, rel1 in graph_pair1.alignments_iter(relations=relations):
             if ( words_only and
-                 graphs.source.node_node_is_non_terminal(nodes.source) and
-                 graphs.target.node_is_non_terminal(nodes.target) ):
+                 ( graphs.source.node_is_non_terminal(nodes.source) or
+                   graphs.target.node_is_non_terminal(nodes.target) )):
                 continue
             
             rel2 = graph_pair2.get_align(nodes)
@@ -92,8 +92,8 @@ def pgc_diff(corpus1, corpus2,
             
         for nodes, rel2 in graph_pair2.alignments_iter(relations=relations):
             if ( words_only and
-                 ( graphs.source.node_is_terminal(nodes.source) or
-                   graphs.target.node_is_terminal(nodes.target) )):
+                 ( graphs.source.node_is_non_terminal(nodes.source) or
+                   graphs.target.node_is_non_terminal(nodes.target) )):
                 continue
             
             if not graph_pair1.get_align(nodes):
-- 
2.43.0


From 66e844f42dbd9b8a9a7e3ccc87b55b7dfa9a5706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:43 +0000
Subject: [PATCH 47/58] fix: pgc_diff raised AttributeError on an empty comment

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 3c29dd4..2c3ddbf 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -173,6 +173,6 @@ def print_comments(graph_pair, annot, out, encoding="utf-8"):
     except AttributeError:
         return
     
-    if comment.strip():
+    if comment and comment.strip():
         header("Comments by " + annot, out, char="-")
         print >>out, comment.encode(encoding), "\n"
-- 
2.43.0


From 0fb55879f9fab8724f61d952f7646ec7f8b3f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:43 +0000
Subject: [PATCH 48/58] fix: pgc_diff raised UnicodeError on labels and
 relations that are not ascii

---
 lib/daeso/pgc/diff.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 2c3ddbf..5adcbed 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -141,21 +141,21 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
         
         for nodes in nodes_list:        
             align_count += 1
-            rel1 = str(graph_pair1.get_align(nodes))
-            rel2 = str(graph_pair2.get_align(nodes))
+            rel1 = unicode(graph_pair1.get_align(nodes))
+            rel2 = unicode(graph_pair2.get_align(nodes))
             
             # tricky because of implicit coercions, 
             # see "Formatting Markers" http://www.python.org/dev/peps/pep-0100/
             print >>out, "#%d:" % align_count 
-            s = '(%s) %s [%s:%s]: "%s"' % (                
+            s = u'(%s) %s [%s:%s]: "%s"' % (                
                 nodes.source,
-                graphs.source.node[nodes.source]["label"].encode("utf-8"),
+                graphs.source.node[nodes.source]["label"],
                 graphs.source.node[nodes.source]["begin"],
                 graphs.source.node[nodes.source]["end"],
                 graphs.source.get_node_token_string(nodes.source))
             print >>out, s.encode("utf-8")
-            print >>out, "<<<", rel1.upper(), "/", rel2.upper(), ">>>"
-            s = '(%s) %s [%s:%s]: "%s"\n' % (
+            print >>out, "<<<", rel1.upper().encode("utf-8"), "/", rel2.upper().encode("utf-8"), ">>>"
+            s = u'(%s) %s [%s:%s]: "%s"\n' % (
                 nodes.target,
                 graphs.target.node[nodes.target]["label"],
                 graphs.target.node[nodes.target]["begin"],
-- 
2.43.0


From 8bd5d6bbe7eb3b26d6912b3fad620c8695739337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:34 +0000
Subject: [PATCH 49/58] fix: search for a text found the Hitaext document
 itself instead of the text beside it

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 3296cdb..c7f9e88 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -95,7 +95,7 @@ class HitaextDoc(ElementTree):
                 # relative path
                 join(dirname(self.filename), fn),
                 # ignore path, just search in same dir as hitaext document
-                join(dirname(self.filename), basename(self.filename)) 
+                join(dirname(self.filename), basename(fn)) 
             ):
                 if exists(p):
                     return p
-- 
2.43.0


From 5d15a824cf511bf69fa4de1f39abcf5b263ffc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:34 +0000
Subject: [PATCH 50/58] fix: Hitaext document without filename raised
 AttributeError

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index c7f9e88..81a4074 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -86,7 +86,7 @@ class HitaextDoc(ElementTree):
         
         
     def get_filename(self, side, search=False):
-        fn = self.find('/%s/filename' % side).text.strip()
+        fn = (self.find('/%s/filename' % side).text or "").strip()
         
         # this still won't work with a windows path
         if search:
-- 
2.43.0


From f45051b2e56d46c471afe0eddbe53f93d567d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:34 +0000
Subject: [PATCH 51/58] fix: Hitaext document was left open, and so incomplete,
 after writing

---
 lib/daeso/ptc/document.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 81a4074..522eef0 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -174,10 +174,17 @@ class HitaextDoc(ElementTree):
         """
         # ElementTree.write does not write the XML header
         # if the encoding is utf-8
-        if not hasattr(file, "write"):
-            file = open(file, "w")
-        print >>file, '<?xml version="1.0" encoding="utf-8"?>'
-        ElementTree.write(self, file, "utf-8")
+        if hasattr(file, "write"):
+            out = file
+        else:
+            out = open(file, "w")
+            
+        try:
+            print >>out, '<?xml version="1.0" encoding="utf-8"?>'
+            ElementTree.write(self, out, "utf-8")
+        finally:
+            if out is not file:
+                out.close()
     
     #===============================================================================
     # document tree methods
-- 
2.43.0


From 6bd70a14c7a4637489c9c576b115aee2da5d9105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:34 +0000
Subject: [PATCH 52/58] fix: ignored elements without children were not marked,
 and marks outlived an update

---
 lib/daeso/ptc/ielemtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/ielemtree.py b/lib/daeso/ptc/ielemtree.py
index 47fee79..afcb0ae 100644
--- a/lib/daeso/ptc/ielemtree.py
+++ b/lib/daeso/ptc/ielemtree.py
@@ -97,9 +97,14 @@ class IndexElemTree(ElementTree):
         # it may be better to create this attribute on the fly
         elem.set("_alignments", [])
         
+        # remove what an earlier update may have left
+        for key in "_ignore", "_start", "_end":
+            elem.attrib.pop(key, None)
+        
         if ignore or elem.tag in self.ignoreTags: 
+            elem.set("_ignore", "true")
+            
             for child in elem.getchildren():
-                elem.set("_ignore", "true")
                 self.index_elem(child, ignore=True)
                 
             text = ""
-- 
2.43.0


From 8674d6557a7e86ad56f2f757b04ee9e4a42c4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:11 +0000
Subject: [PATCH 53/58] fix: punctuation was not left out of preprocessed word
 n-grams

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index a53e686..27d61be 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -322,7 +322,7 @@ def preproc_word_n_gram_factory(n):
         # but does not return the tokens lower cased!!!
         text = [ token.lower()
                  for token in text.split()
-                 if text not in string.punctuation ]
+                 if token not in string.punctuation ]
         return n_gram_strings(text, n)
     
     func.__name__ = "preproc_word_%d_gram" % n
-- 
2.43.0


From 4ca69dc8c771dafaf0eda40c07019604cf83341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:23 +0000
Subject: [PATCH 54/58] fix: ptc_diff raised UnicodeError on ids that are not
 ascii

---
 lib/daeso/ptc/diff.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/ptc/diff.py b/lib/daeso/ptc/diff.py
index d668866..458bb59 100644
--- a/lib/daeso/ptc/diff.py
+++ b/lib/daeso/ptc/diff.py
@@ -61,10 +61,10 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                     break
             else:
                 count += 1
-                print "#%d true only (%s, %s):" % (
+                print (u"#%d true only (%s, %s):" % (
                     count,
                     true_from_elem.get("id"),
-                    true_to_elem.get("id"))
+                    true_to_elem.get("id"))).encode(encoding)
                 print true_from_tree.get_elem_text(true_from_elem).encode(encoding)
                 print true_to_tree.get_elem_text(true_to_elem).encode(encoding)
                 print
@@ -77,10 +77,10 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                     break
             else:
                 count += 1
-                print "#%d predicted only (%s, %s)" % (
+                print (u"#%d predicted only (%s, %s)" % (
                     count,
                     pred_from_elem.get("id"),
-                    pred_to_elem.get("id"))
+                    pred_to_elem.get("id"))).encode(encoding)
                 print pred_from_tree.get_elem_text(pred_from_elem).encode(encoding)
                 print pred_to_tree.get_elem_text(pred_to_elem).encode(encoding)
                 print
-- 
2.43.0


From d702dfdce8087dc24bd94f2d3e4b6107daea9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:04 +0000
Subject: [PATCH 55/58] fix: pgc_split made parts that are too large, hence too
 few of them

---
 bin/pgc_split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pgc_split.py b/bin/pgc_split.py
index fc5eaa9..8b595a4 100755
--- a/bin/pgc_split.py
+++ b/bin/pgc_split.py
@@ -78,7 +78,8 @@ corpus = ParallelGraphCorpus(inf=args.filename)
 root, ext = os.path.splitext(args.filename)
 
 if not args.size:
-    args.size = int(round(len(corpus) / args.parts + 0.5))
+    # round up, so that there are no more parts than asked for
+    args.size = max(1, (len(corpus) + args.parts - 1) // args.parts)
 
 for i in range(0, len(corpus), args.size): 
     j = min(i + args.size, len(corpus))
-- 
2.43.0


From 21f1d2cff8d03c557c64da4f4408e738b3122473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:04 +0000
Subject: [PATCH 56/58] fix: ptc_n_to_id took the list of corpora for a file
 and always failed

---
 bin/ptc_n_to_id.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/bin/ptc_n_to_id.py b/bin/ptc_n_to_id.py
index ef44119..e33683b 100644
--- a/bin/ptc_n_to_id.py
+++ b/bin/ptc_n_to_id.py
@@ -53,25 +53,26 @@ parser.add_argument(
 
 args = parser.parse_args()
 
-if args.verbose:
-    print >>stderr, "Reading corpus from", args.corpus
+for fn in args.corpus:
+    if args.verbose:
+        print >>stderr, "Reading corpus from", fn
+        
+    corpus = HitaextDoc(file=fn)
     
-corpus = HitaextDoc(file=args.corpus)
-
-from_tree = corpus.get_doc_tree("from")
-to_tree = corpus.get_doc_tree("to")
-
-from_tree.update()
-to_tree.update()
-
-corpus.inject_alignments(from_tree, to_tree)
-
-corpus.alignment.set("method", "id")
-
-corpus.extract_alignments(from_tree, to_tree)
-
-if args.verbose:
-    print >>stderr, "Writing corpus to", args.corpus
+    from_tree = corpus.get_doc_tree("from")
+    to_tree = corpus.get_doc_tree("to")
+    
+    from_tree.update()
+    to_tree.update()
+    
+    corpus.inject_alignments(from_tree, to_tree)
+    
+    corpus.alignment.set("method", "id")
+    
+    corpus.extract_alignments(from_tree, to_tree)
     
-corpus.write(args.corpus)
+    if args.verbose:
+        print >>stderr, "Writing corpus to", fn
+        
+    corpus.write(fn)
 
-- 
2.43.0


From 72ee17aeeb25ce4edcb98efb562068b43d7ca00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:04 +0000
Subject: [PATCH 57/58] fix: ptc_chdir raised IndexError on a filename of one
 capital

---
 bin/ptc_chdir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/ptc_chdir.py b/bin/ptc_chdir.py
index 27f7565..1ef12ae 100755
--- a/bin/ptc_chdir.py
+++ b/bin/ptc_chdir.py
@@ -81,7 +81,7 @@ for fn in args.corpus:
             print >>stderr, "Current %s path is %s" %  (side, path)
         
         # a heuristic to deal with windows paths        
-        if path[0] in uppercase and path[1] == ":":
+        if path[0] in uppercase and path[1:2] == ":":
             # strip drive letter
             path = path[2:]
         path = path.replace("\\", "/")
-- 
2.43.0


From 36f2b4cb8c69b7d3f400736d277ae9f927fcbe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:30 +0000
Subject: [PATCH 58/58] fix: pgc_stats did not accept a threshold for the
 difference in tokens

---
 bin/pgc_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_stats.py b/bin/pgc_stats.py
index 9f58b45..02c200c 100755
--- a/bin/pgc_stats.py
+++ b/bin/pgc_stats.py
@@ -91,7 +91,7 @@ parser.add_argument(
 
 parser.add_argument(
     "-t", "--token_diff_threshold", 
-    type="int", 
+    type=int, 
     metavar="THRESHOLD",
     default=0, dest="threshold", 
     help="exclude graph pairs with a token difference below the threshold")
-- 
2.43.0

