From 7b527fa16cfc20593b79f765899a4bd15bf7ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 01/49] fix: saving XML replaces the file only once it is
 completely written, and closes it

---
 lib/daeso/utils/etree.py |  5 ++++-
 lib/daeso/utils/opsys.py | 45 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4248e84..fb808cc 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -26,6 +26,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 import sys
 
+from daeso.utils.opsys import replacing
+
 
 def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     """
@@ -33,7 +35,8 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     even when encoding is the default utf-8
     """
     if not hasattr(file, "write"):
-        file = open(file, "wb")
+        with replacing(file) as outf:
+            return write(etree, outf, encoding, pprint)
         
     if pprint:
         indent(etree.getroot())
diff --git a/lib/daeso/utils/opsys.py b/lib/daeso/utils/opsys.py
index 0e70905..6547515 100644
--- a/lib/daeso/utils/opsys.py
+++ b/lib/daeso/utils/opsys.py
@@ -26,8 +26,53 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 
 import os
+import shutil
 import glob as _glob
 
+from contextlib import contextmanager
+
+
+@contextmanager
+def replacing(filename, mode="wb"):
+    """
+    Context manager which opens a file for writing in such a way that the
+    file with the given name is only replaced once all of the new content has
+    been written. If writing fails or is interrupted, the old file (if any)
+    remains as it was.
+    """
+    # follow links, so it is the file linked to which is replaced
+    target = os.path.realpath(filename)
+    
+    if os.path.exists(target) and not os.path.isfile(target):
+        # e.g. a device or named pipe, which cannot be replaced
+        temp = target
+    else:
+        temp = "%s.%d.tmp" % (target, os.getpid())
+        
+        if os.path.exists(target):
+            # raises an exception if the old file is write protected
+            open(target, "ab").close()
+    
+    out = open(temp, mode)
+    
+    try:
+        try:
+            yield out
+        finally:
+            out.close()
+            
+        if temp != target:
+            if os.path.exists(target):
+                shutil.copymode(target, temp)
+                if os.name == "nt":
+                    os.remove(target)
+            os.rename(temp, target)
+    except:
+        if temp != target and os.path.exists(temp):
+            os.remove(temp)
+        raise
+
+
 def makedirs(path, mode=0777):
     """
     a version of os.makedirs which raises no exception when the dir already
-- 
2.43.0


From 5fd9680dc545b24bf6f8994aa9afbebdf16e2da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 02/49] fix: saving a Hitaext document replaces the file only
 once it is completely written, and closes it

---
 lib/daeso/ptc/document.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 3296cdb..8d83d11 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -29,6 +29,7 @@ from xml.etree.cElementTree import Element, ElementTree, XML
 
 from daeso.ptc.ielemtree import IndexElemTree
 from daeso.pair import Pair
+from daeso.utils.opsys import replacing
 
 from os.path import basename, dirname, exists, join
     
@@ -175,7 +176,8 @@ class HitaextDoc(ElementTree):
         # ElementTree.write does not write the XML header
         # if the encoding is utf-8
         if not hasattr(file, "write"):
-            file = open(file, "w")
+            with replacing(file) as outf:
+                return self.write(outf, encoding)
         print >>file, '<?xml version="1.0" encoding="utf-8"?>'
         ElementTree.write(self, file, "utf-8")
     
-- 
2.43.0


From 6fd886eb36406c276c37ccab6f0314621582ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 03/49] fix: moved text documents are found in the directory of
 the Hitaext document

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 8d83d11..83be69c 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -96,7 +96,7 @@ class HitaextDoc(ElementTree):
                 # relative path
                 join(dirname(self.filename), fn),
                 # ignore path, just search in same dir as hitaext document
-                join(dirname(self.filename), basename(self.filename)) 
+                join(dirname(self.filename), basename(fn)) 
             ):
                 if exists(p):
                     return p
-- 
2.43.0


From 1355d0e4f18ea46c34b8b35a7d7f8067110cdaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 04/49] fix: comparing elements with absent or non-ASCII text

---
 lib/daeso/utils/etree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index fb808cc..3becc1a 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -53,8 +53,8 @@ def equals(elem1, elem2):
     """
     # as far as I can see, _ElementInterface lacks a __eq__ method
     return ( elem1.tag == elem2.tag and
-             str(elem1.text).strip() == str(elem2.text).strip() and
-             str(elem1.tail).strip() == str(elem2.tail).strip() and
+             (elem1.text or "").strip() == (elem2.text or "").strip() and
+             (elem1.tail or "").strip() == (elem2.tail or "").strip() and
              elem1.attrib == elem2.attrib and
              len(elem1) == len(elem2) and
              all([ equals(child1, child2)
-- 
2.43.0


From 3932a14ded3bf5a8bb598d70baef2f3364ccb31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 05/49] fix: comparing corpora for inequality, and comparing
 corpora only one of which has meta-data

---
 lib/daeso/pgc/corpus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index b7a9896..c27b888 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -350,7 +350,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__ne__(other) <==> corpsu != other
         """
-        return not self.__eq__(self, other)
+        return not self.__eq__(other)
     
       
     def __repr__(self):
@@ -679,6 +679,8 @@ class ParallelGraphCorpus(list):
         if self._meta_data is other._meta_data:
             # both None or same object 
             return True
+        elif self._meta_data is None or other._meta_data is None:
+            return False
         else: 
             return equals(self._meta_data, other._meta_data)
 
-- 
2.43.0


From 007dca02104937d9fcb9b57d0e427912abdf2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 06/49] fix: meta-data without child elements was dropped on
 saving, copying and pairing

---
 lib/daeso/pgc/corpus.py    | 6 +++---
 lib/daeso/pgc/graphpair.py | 6 +++++-
 lib/daeso/utils/etree.py   | 9 +++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index c27b888..d85adba 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -43,7 +43,7 @@ from daeso.pgc.graphpair import GraphPair
 from daeso.gb.graphbank import GraphBank, SparseGraphBank
 from daeso.exception import DaesoWarning, DaesoError
 from daeso.pair import Pair
-from daeso.utils.etree import write, equals
+from daeso.utils.etree import write, equals, is_empty
 
 
 # global flags for graph loading
@@ -1118,7 +1118,7 @@ class PGCGenerator(object):
     def _gen_pg_corpus(self, pg_corpus, out_dir, abs_path):
         root_elem = et.Element("parallel_graph_corpus")
         
-        if pg_corpus._meta_data:
+        if pg_corpus._meta_data is not None:
             root_elem.append(pg_corpus._meta_data)
         
         graphbanks_elem = et.SubElement(root_elem, "graphbanks")
@@ -1159,7 +1159,7 @@ class PGCGenerator(object):
                 from_graph_id=graph_pair._graphs.source.id,
                 to_graph_id=graph_pair._graphs.target.id)
             
-            if graph_pair._meta_data:
+            if not is_empty(graph_pair._meta_data):
                 graph_pair_elem.append(graph_pair._meta_data)
             
             self._gen_node_pairs(graph_pair_elem, graph_pair)
diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index db5ccab..7c45573 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -75,7 +75,11 @@ class GraphPairBase(object):
         # references to them. Therefore graphs are automatically destroyed if
         # they are no longer part of any graph pair.
         self._graphs = graphs
-        self._meta_data = meta_data or et.Element("graph_meta_data")
+        
+        if meta_data is None:
+            meta_data = et.Element("graph_meta_data")
+            
+        self._meta_data = meta_data
         
         
     def __eq__(self, other):
diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 3becc1a..e3653c8 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -45,6 +45,15 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     etree.write(file, "utf-8")
     
  
+def is_empty(elem):
+    """
+    Test if element is None or has no children, attributes or text
+    """
+    # the truth value of an element only depends on its children 
+    return ( elem is None or
+             not ( len(elem) or elem.attrib or (elem.text or "").strip() ))
+
+
 def equals(elem1, elem2):
     """
     Test if two elements are equal in terms of tag, text, tail, attributes and
-- 
2.43.0


From 48d55274c2d58fc4068640845c2d24aa45f5af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 07/49] fix: the corpus methods insert, pop, index and __rmul__
 do what their documentation says

---
 lib/daeso/pgc/corpus.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index d85adba..65712da 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -374,7 +374,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__rmul__(n) <==> n * corpus
         """
-        return self.__mul__()
+        return self.__mul__(n)
          
     
     def __setitem__(self, index, value):
@@ -489,16 +489,16 @@ class ParallelGraphCorpus(list):
         return self._relations
     
     
-    def index(self, graph_pair):
+    def index(self, graph_pair, *args):
         """
         corpus.index(graph_pair, [start, [stop]]) -> integer -- 
         return first index of graph_pair.
         Raises ValueError if the graph_pair is not present.
         """
-        return list.index(self, graph_pair)
+        return list.index(self, graph_pair, *args)
     
           
-    def insert(self, graph_pair):
+    def insert(self, index, graph_pair):
         """
         corpus.insert(index, graph_pair) -- insert graph_pair before index
         
@@ -509,7 +509,7 @@ class ParallelGraphCorpus(list):
         if not isinstance(graph_pair, GraphPair):
             raise TypeError("only GraphPair instances are allowed")
         
-        list.insert(self, i, graph_pair)
+        list.insert(self, index, graph_pair)
     
     
     def read(self, inf, graph_loading=LOAD_SPARSE, relax_gb_paths=False):
@@ -542,7 +542,7 @@ class ParallelGraphCorpus(list):
                      relax_gb_paths=relax_gb_paths)
 
           
-    def pop(self, index=None):
+    def pop(self, index=-1):
         """
         corpus.pop([index]) -> GraphPair -- 
         remove and return graph pair at index (default last)
@@ -550,7 +550,7 @@ class ParallelGraphCorpus(list):
         Raises IndexError if corpus is empty or index is out of range.
         """
         # redundant graphbanks are automatically garbage collected
-        list.pop(self, index)
+        return list.pop(self, index)
     
     
     def purge(self, graph_pair=None):
-- 
2.43.0


From c7c1186ea694df8fe215c18abc7de79ff71c1da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 08/49] fix: a failing read leaves the corpus as it was instead
 of partially filled

---
 lib/daeso/pgc/corpus.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 65712da..8412110 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -536,10 +536,19 @@ class ParallelGraphCorpus(list):
         assert graph_loading in (LOAD_ALL, 
                                  LOAD_SPARSE,
                                  LOAD_NONE)
+        old_pairs = list(self)
+        old_relations, old_meta_data = self._relations, self._meta_data
         self._graph_loading = graph_loading
         parser = PGCParser()
-        parser.parse(inf, self, graph_loading=graph_loading,
-                     relax_gb_paths=relax_gb_paths)
+        
+        try:
+            parser.parse(inf, self, graph_loading=graph_loading,
+                         relax_gb_paths=relax_gb_paths)
+        except:
+            # don't leave the corpus with part of the contents
+            list.__setslice__(self, 0, len(self), old_pairs)
+            self._relations, self._meta_data = old_relations, old_meta_data
+            raise
 
           
     def pop(self, index=-1):
-- 
2.43.0


From 0aa860f5c7a98a571b99d7272cbf469747f1d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 09/49] fix: corpora whose graphbank files are absent can be
 saved, purged and compared

---
 lib/daeso/gb/graphbank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 90dbf96..584ec86 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -89,7 +89,9 @@ class GraphBank(object):
         their contents.)
         """
         return ( self._file_path == other._file_path or
-                 os.path.samefile(self._file_path, other._file_path))
+                 ( os.path.exists(self._file_path) and
+                   os.path.exists(other._file_path) and
+                   os.path.samefile(self._file_path, other._file_path)))
     
     
     def __ne__(self, other):
-- 
2.43.0


From c4a16b3753722c0ab1e3c049349801b6feb3c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 10/49] fix: unknown graphbank formats are reported as such

---
 lib/daeso/gb/graphbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 584ec86..fe71b73 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -164,9 +164,9 @@ class GraphBank(object):
         try:
             parser_module_name, parser_class_name = getattr(daeso.gb.register, 
                                                             format.lower())
-        except KeyError:
+        except AttributeError:
             # TODO: use own error class
-            AssertionError("no parser available for graphbank in '%s' format" % format)
+            raise AssertionError("no parser available for graphbank in '%s' format" % format)
             
         try:
             parser_module = __import__(parser_module_name, 
-- 
2.43.0


From 19b1fd831b4d530a26ca863e88ee4ed8be41c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 11/49] fix: root node of graphs in GraphML format was never
 set

---
 lib/daeso/gb/graphml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 792d3c5..0cb3730 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -161,7 +161,7 @@ class GraphmlParser(XmlGraphbankParser):
             
             # set the root node, defined as a graph attribute like 
             # <data key="root">n0</data>
-            self._graph.root = self._graph.graph.get("graph")
+            self._graph.root = self._graph.graph.get("root")
             
             self._graph = None
             self._comp_attrs = None
-- 
2.43.0


From 611e2acd6b1de4da327646b4c2627ab620d1556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 12/49] fix: default values and data elements in GraphML end up
 at the right component

---
 lib/daeso/gb/graphml.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 0cb3730..10c39f6 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -119,8 +119,8 @@ class GraphmlParser(XmlGraphbankParser):
         # temporarily assign None to required arg label
         self._graph.add_node(n, label=None)
         self._comp_attrs = self._graph.node[n]
-        self._set_defaults()
         self._node = n 
+        self._set_defaults()
         
             
     def _start_edge(self, attrs):
@@ -143,13 +143,15 @@ class GraphmlParser(XmlGraphbankParser):
     def _end_element(self, tag):
         if tag == "graph":
             self._end_graph()
+        elif tag == "default":
+            self._end_default()
         elif self._graph_wanted():
-            if tag in "node":
+            if tag == "node":
                 self._end_node()
+            elif tag == "edge":
+                self._end_edge()
             elif tag == "data":
                 self._end_data()
-            elif tag == "default":
-                self._end_default()
                 
         self._context.pop()
         
@@ -175,11 +177,11 @@ class GraphmlParser(XmlGraphbankParser):
             raise DaesoError("node must have a 'tokens' attribute")
         
         self._node = None
-        self._comp_attrs = None
+        self._comp_attrs = self._graph.graph
         
         
-    def end_edge(self):
-        self._comp_attrs = None
+    def _end_edge(self):
+        self._comp_attrs = self._graph.graph
     
      
     def _end_data(self):
@@ -206,7 +208,7 @@ class GraphmlParser(XmlGraphbankParser):
         
  
     def _char_data(self, data):
-        if self._graph_wanted():
+        if self._graph_wanted() or self._context[-1] == "default":
             self._char_data_buf += data   
             
             
-- 
2.43.0


From 800b3e46dc71d0ebbfdfb799419bbe1b95bdcb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 13/49] fix: incremental parsing of graphbanks keeps earlier
 results and checks for missing graphs at the end

---
 lib/daeso/gb/parser.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 657f920..b2eb5c4 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -55,13 +55,15 @@ class XmlGraphbankParser(object):
         
     def parse_string(self, data, id2graph=None, sparse=False):
         # supports incremental parsing
-        self._id2graph = id2graph or {}
+        if id2graph is not None:
+            self._id2graph = id2graph
+        elif self._id2graph is None:
+            self._id2graph = {}
+            
         self._sparse = sparse
 
+        # whether graphs are unresolved is only known at the end of the data
         self._parser.Parse(data, 0)
-        
-        if self._sparse:
-            self._check_for_unresolved_graphs()
             
         return self._id2graph
 
@@ -70,6 +72,9 @@ class XmlGraphbankParser(object):
         self._parser.Parse("", 1) # end of data
         del self._parser # get rid of circular references
         
+        if self._sparse:
+            self._check_for_unresolved_graphs()
+        
         
     def parse_file(self, inf, id2graph=None, sparse=False):
         if not hasattr(inf, "read"):
@@ -87,7 +92,7 @@ class XmlGraphbankParser(object):
         return self._id2graph
     
             
-    def _check_for_unresolved_graphs(self, inf):
+    def _check_for_unresolved_graphs(self, inf=None):
         unresolved = [ '"{0}"'.format(id) 
                        for (id, graph) in self._id2graph.items() 
                        if graph is None ]
@@ -95,7 +100,7 @@ class XmlGraphbankParser(object):
         if unresolved:
             msg = ( "graphs with the following id's were not found"
                     ' in graphbank file "{0}": {1}'.format(
-                        inf.name, 
+                        getattr(inf, "name", "?"), 
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
         
-- 
2.43.0


From 1f01a89e9bc7569f5ce0a169b27721a443f06c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 14/49] fix: overwriting a cache entry left a stale node in the
 LRU list, making a later insert loop forever

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index d991323..f0a7b2d 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -149,8 +149,9 @@ class GenericCache(dict):
         else:
             node = key
 
-        if not key in self:
-            self._shrink(1)
+        # the LRU list must not keep a reference to an old node for this key
+        self.remove(key)
+        self._shrink(1)
         
         node.__cache_timestamp = time.time()
         self.values[node] = node
@@ -189,16 +190,19 @@ class GenericCache(dict):
     __delitem__ = remove
     __len__ = size
 
+    @synchronized
     def keys(self):
         """
         Get stored keys
         """
         return [ key.key for key in self.values.keys() ]
 
+    @synchronized
     def has_key(self, key):
         """
         Do we have such key ?
         """
-        return self.values.has_key(key)
+        # keys are compared as strings, as in fetch and remove
+        return self.values.has_key(str(key))
     __contains__ = has_key
 
-- 
2.43.0


From 45c7acd352af6cd47f0da78766e9117f8e15bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 15/49] fix: reading a stats table keeps names with spaces and
 adds nothing if the table is truncated

---
 lib/daeso/stats/table.py | 49 ++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/lib/daeso/stats/table.py b/lib/daeso/stats/table.py
index 7923f93..1c5bfed 100644
--- a/lib/daeso/stats/table.py
+++ b/lib/daeso/stats/table.py
@@ -111,7 +111,9 @@ class StatsTable(OrderedDict):
                 out.write(c.label.ljust(w))
                 format += "%-" + str(w) + "s"
             elif c.type == "count":
-                w = c.width
+                # big counts must remain separated from the preceding column
+                w = max([c.width] + 
+                        [len(str(n)) + 1 for n in c + [c.overall or 0]])
                 out.write(c.label.rjust(w))
                 format += "%" + str(w) + "d"
             else:
@@ -155,7 +157,8 @@ class StatsTable(OrderedDict):
         # doesn't read the summary
                 
         if not hasattr(file, "read"):
-            file = open(file, "r")
+            with open(file, "r") as inf:
+                return self.read(inf)
         
         sep_count = 0
         rows = []
@@ -171,22 +174,40 @@ class StatsTable(OrderedDict):
                 else:
                     continue            
             elif sep_count == 1:
-                # read body
-                value_row = l.strip().split()
-                
-                for col, val in zip(self.values(), value_row):
-                    if col.type == "string":
-                        col.append(val)
-                    elif col.type == "count":
-                        col.append(int(val))
-                    else:
-                        col.append(float(val))
+                # read body; the first column is a name, which may contain
+                # spaces
+                value_row = l.strip().rsplit(None, len(self) - 1)
+                
+                if len(value_row) != len(self):
+                    self._truncated_error(file)
+                
+                rows.append([ self.convert(col, val)
+                              for col, val in zip(self.values(), value_row) ])
         else:
-            raise EOFError("stats table truncated in file " + file.name)
+            self._truncated_error(file)
+            
+        # add rows only now the table turns out to be complete
+        for row in rows:
+            for col, val in zip(self.values(), row):
+                col.append(val)
+                
+                
+    def convert(self, col, val):
+        if col.type == "string":
+            return val
+        elif col.type == "count":
+            return int(val)
+        else:
+            return float(val)
+                
+                
+    def _truncated_error(self, file):
+        raise EOFError("stats table truncated in file " + 
+                       getattr(file, "name", "?"))
                         
                         
     def is_separator(self, l):
-        return l.startswith("----")
+        return l.startswith("----") and not l.strip().strip("-")
         
 
     def summarize(self):
-- 
2.43.0


From b69e1f904a4898a23d74a433d010e53724f8259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 16/49] fix: segment statistics no longer include stale or
 unreadable tables, and restore the working directory

---
 lib/daeso/stats/corpus.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 141cde1..08646a6 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -30,12 +30,14 @@ report statistics over (part of) the files from a corpus (segment)
 
 __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
+import errno
+
 from sys import stderr
-from glob import glob
-from os import getcwd, chdir, path
+from os import getcwd, chdir, path, remove
 
 from daeso.pgc.pgcstats import pgc_stats, PgcStatsTable 
 from daeso.gb.gbstats import GbStatsTable
+from daeso.utils.opsys import glob, replacing
 
 
 
@@ -135,17 +137,20 @@ def stats(pgc_dir, pgc_files_pattern, with_unaligned_roots=False):
     # because paths to gb files are interpreted relative to location of pgc file 
     try:
         chdir(pgc_dir)
-    except OSError:
+    except OSError, inst:
+        if inst.errno != errno.ENOENT:
+            raise
         # dir does not exist
         # assume there are no files, which results in a empty table
         pgc_files = []
     else:
         pgc_files = glob(pgc_files_pattern)
         
-    pgc_table, gb_table = pgc_stats(pgc_files, 
-                                    with_unaligned_roots=with_unaligned_roots)
-
-    chdir(cwd)
+    try:
+        pgc_table, gb_table = pgc_stats(pgc_files, 
+                                        with_unaligned_roots=with_unaligned_roots)
+    finally:
+        chdir(cwd)
     
     return  pgc_table, gb_table
     
@@ -158,7 +163,9 @@ def read_subtable(table, fn, verbose=True):
     try:
         if verbose: print "Reading table", fn
         table.read(fn)
-    except IOError:
+    except IOError, inst:
+        if inst.errno != errno.ENOENT:
+            raise
         print >>stderr, "Warning: no file", fn
 
         
@@ -166,8 +173,11 @@ def read_subtable(table, fn, verbose=True):
 def write_table(table, fn, verbose=True):
     """
     write a stats table for parallel graph corpora or graph banks
-    unless it is empty
+    unless it is empty, in which case any old table is removed
     """
     if not table.is_empty():
         if verbose: print "Writing table", fn
-        table.write(out=file(fn, "w"))
\ No newline at end of file
+        with replacing(fn, "w") as out:
+            table.write(out=out)
+    elif path.exists(fn):
+        remove(fn)
\ No newline at end of file
-- 
2.43.0


From 774fbc25a04ab3536141e22e7ef895c5f1b135de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 17/49] fix: makedirs no longer hides failures to create a
 directory

---
 lib/daeso/utils/opsys.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/utils/opsys.py b/lib/daeso/utils/opsys.py
index 6547515..609a629 100644
--- a/lib/daeso/utils/opsys.py
+++ b/lib/daeso/utils/opsys.py
@@ -25,6 +25,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 
 
+import errno
 import os
 import shutil
 import glob as _glob
@@ -81,9 +82,9 @@ def makedirs(path, mode=0777):
     try:
         os.makedirs(path, mode)
     except OSError, inst:
-        if inst.errno == 17:
-            # dir already exists
-            pass
+        if inst.errno != errno.EEXIST or not os.path.isdir(path):
+            # not just because dir already exists
+            raise
         
         
 def glob(pattern):
-- 
2.43.0


From 34f131e3806779ab6e2ac2ef8ee1cf1c31cb36d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 18/49] fix: evaluation results and pickles are closed, and
 replace the file only once completely written

---
 lib/daeso/pgc/agreement.py | 10 +++++++---
 lib/daeso/pgc/evaluate.py  |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/agreement.py b/lib/daeso/pgc/agreement.py
index b3e34b7..893f3e9 100644
--- a/lib/daeso/pgc/agreement.py
+++ b/lib/daeso/pgc/agreement.py
@@ -36,6 +36,7 @@ import pickle
 
 from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_SPARSE, LOAD_NONE
 from daeso.pgc.evaluate import AlignEval, AlignCounts
+from daeso.utils.opsys import replacing
 
 
 def run_eval(corpus_fns, annotators, pickle_fn=None, words_only=False):
@@ -53,7 +54,8 @@ def run_eval(corpus_fns, annotators, pickle_fn=None, words_only=False):
     write_tables(tables)
     
     if pickle_fn:
-        pickle.dump((align_eval, tables), open(pickle_fn, "wb"))
+        with replacing(pickle_fn) as outf:
+            pickle.dump((align_eval, tables), outf)
         
     return align_eval, tables
 
@@ -94,7 +96,8 @@ def tableize(align_eval, pickle_fn=None):
             am.calculate_statistics()
             
     if pickle_fn:
-        pickle.dump(tables, open(pickle_fn, "wb"))
+        with replacing(pickle_fn) as outf:
+            pickle.dump(tables, outf)
         
     return tables
            
@@ -124,7 +127,8 @@ def cross_evaluate(corpus_fns, annotators=None, pickle_fn=None,
     align_eval.run_eval()
         
     if pickle_fn:
-        pickle.dump(align_eval, open(pickle_fn, "wb"))
+        with replacing(pickle_fn) as outf:
+            pickle.dump(align_eval, outf)
         
     return align_eval
 
diff --git a/lib/daeso/pgc/evaluate.py b/lib/daeso/pgc/evaluate.py
index 7b3c519..dcef064 100644
--- a/lib/daeso/pgc/evaluate.py
+++ b/lib/daeso/pgc/evaluate.py
@@ -104,6 +104,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 from sys import stdout
 from math import sqrt
 
+from daeso.utils.opsys import replacing
 from daeso.utils.report import header
 
 # TODO
@@ -305,7 +306,8 @@ class AlignEval(dict):
         write full evaluation 
 	"""
         if isinstance(out, basestring):
-            out = open(out, "w")
+            with replacing(out, "w") as outf:
+                return self.write(outf)
             
         self.write_alignment_only(out)
         self.write_alignment_per_relation(out)
-- 
2.43.0


From c340b492c2e02be0dad7ffb7b23783b4d18e1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 19/49] fix: pgc_stats crashed on the type of its threshold
 option

---
 bin/pgc_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_stats.py b/bin/pgc_stats.py
index 9f58b45..02c200c 100755
--- a/bin/pgc_stats.py
+++ b/bin/pgc_stats.py
@@ -91,7 +91,7 @@ parser.add_argument(
 
 parser.add_argument(
     "-t", "--token_diff_threshold", 
-    type="int", 
+    type=int, 
     metavar="THRESHOLD",
     default=0, dest="threshold", 
     help="exclude graph pairs with a token difference below the threshold")
-- 
2.43.0


From b48b4314a44dc992a007b1375499e08980acc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 20/49] fix: ptc_n_to_id used its list of corpora as a filename

---
 bin/ptc_n_to_id.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/bin/ptc_n_to_id.py b/bin/ptc_n_to_id.py
index ef44119..e33683b 100644
--- a/bin/ptc_n_to_id.py
+++ b/bin/ptc_n_to_id.py
@@ -53,25 +53,26 @@ parser.add_argument(
 
 args = parser.parse_args()
 
-if args.verbose:
-    print >>stderr, "Reading corpus from", args.corpus
+for fn in args.corpus:
+    if args.verbose:
+        print >>stderr, "Reading corpus from", fn
+        
+    corpus = HitaextDoc(file=fn)
     
-corpus = HitaextDoc(file=args.corpus)
-
-from_tree = corpus.get_doc_tree("from")
-to_tree = corpus.get_doc_tree("to")
-
-from_tree.update()
-to_tree.update()
-
-corpus.inject_alignments(from_tree, to_tree)
-
-corpus.alignment.set("method", "id")
-
-corpus.extract_alignments(from_tree, to_tree)
-
-if args.verbose:
-    print >>stderr, "Writing corpus to", args.corpus
+    from_tree = corpus.get_doc_tree("from")
+    to_tree = corpus.get_doc_tree("to")
+    
+    from_tree.update()
+    to_tree.update()
+    
+    corpus.inject_alignments(from_tree, to_tree)
+    
+    corpus.alignment.set("method", "id")
+    
+    corpus.extract_alignments(from_tree, to_tree)
     
-corpus.write(args.corpus)
+    if args.verbose:
+        print >>stderr, "Writing corpus to", fn
+        
+    corpus.write(fn)
 
-- 
2.43.0


From 0955fa9f2591f12c10cf1ed9eb636a3a08abce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 21/49] fix: pgc_zip reports missing corpora and clashing
 names, and stores shared graphbanks once

---
 bin/pgc_zip.py | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/bin/pgc_zip.py b/bin/pgc_zip.py
index aed0d4e..2dbd760 100755
--- a/bin/pgc_zip.py
+++ b/bin/pgc_zip.py
@@ -41,34 +41,49 @@ __authors__ = 'Erwin Marsi <e.marsi@gmail.com>'
 import os
 import zipfile
 
+from sys import exit
 
 from daeso.utils.cli import DaesoArgParser
-from daeso.utils.opsys import multiglob
+from daeso.utils.opsys import glob, multiglob, replacing
 from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
 
 
 def pgc_zip(zip_filename, pgc_filenames):
-    zip_arch = zipfile.ZipFile(zip_filename, "w")
     arch_dir = os.path.splitext( os.path.basename(zip_filename))[0]
     
+    with replacing(zip_filename) as outf:
+        zip_arch = zipfile.ZipFile(outf, "w")
+        add_corpora(zip_arch, arch_dir, pgc_filenames)
+        zip_arch.close()
+    
+    
+def add_corpora(zip_arch, arch_dir, pgc_filenames):
+    added = {}
+    
+    def add(filename):
+        arch_filename = os.path.join( arch_dir,
+                                      os.path.basename(filename) )
+        filename = os.path.realpath(filename)
+        
+        # corpora may share graphbanks, which should be added only once
+        if arch_filename not in added:
+            zip_arch.write(filename, arch_filename)
+            added[arch_filename] = filename
+        elif added[arch_filename] != filename:
+            exit('pgc_zip.py: error: files "{0}" and "{1}" have the same '
+                 'name in the archive'.format(added[arch_filename], filename))
+    
     for corpus_filename in multiglob(pgc_filenames):
         # add corpus to archive
-        arch_filename = os.path.join( arch_dir,
-                                      os.path.basename(corpus_filename) )
-        zip_arch.write(corpus_filename, arch_filename)
+        add(corpus_filename)
         
         corpus = ParallelGraphCorpus(inf=corpus_filename,
                                      graph_loading=LOAD_NONE)
 
         for gb in corpus._graphbanks():
-            gb_filename = gb.get_file_path()
             # add graphbank files to archive
-            arch_filename = os.path.join( arch_dir,
-                                          os.path.basename(gb_filename) )
-            zip_arch.write(gb_filename, arch_filename)
+            add(gb.get_file_path())
             
-    zip_arch.close()
-    
 
 parser = DaesoArgParser(description=__doc__,
                         epilog=epilog)
@@ -87,6 +102,10 @@ parser.add_argument(
 
 args = parser.parse_args()
 
+for pattern in args.pgc_files:
+    if not glob(pattern):
+        parser.error("no such corpus file: " + pattern)
+
 pgc_zip(args.zip_file, args.pgc_files)
 
 
-- 
2.43.0


From ff1ba5b10d62c893d08091a225fd40770ec368f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 22/49] fix: pgc_join reports missing corpora instead of
 leaving them out

---
 bin/pgc_join.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bin/pgc_join.py b/bin/pgc_join.py
index 8bfd769..94846cf 100755
--- a/bin/pgc_join.py
+++ b/bin/pgc_join.py
@@ -35,7 +35,7 @@ __authors__ = 'Erwin Marsi <e.marsi@gmail.com>'
 import sys
 
 from daeso.utils.cli import DaesoArgParser
-from daeso.utils.opsys import multiglob
+from daeso.utils.opsys import glob, multiglob
 from daeso.pgc.corpus import ParallelGraphCorpus
 
 
@@ -65,6 +65,10 @@ parser.add_argument(
 
 args = parser.parse_args()
 
+for pattern in args.file:
+    if not glob(pattern):
+        parser.error("no such corpus file: " + pattern)
+
 pgc_fns = multiglob(args.file)
 
 def log(s):
-- 
2.43.0


From e6c755db685e330b5fa70eea055e4f88a7a1a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 23/49] fix: user-defined meta-data was interpreted as part of
 the corpus when using the same tags

---
 bin/pgc_chdir.py        | 2 +-
 lib/daeso/pgc/corpus.py | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/pgc_chdir.py b/bin/pgc_chdir.py
index 7f509bb..3a11d96 100755
--- a/bin/pgc_chdir.py
+++ b/bin/pgc_chdir.py
@@ -85,7 +85,7 @@ for fn in args.corpus:
     # because of all the overhead of reading the treebanks etc.
     tree = ElementTree(file=fn)
         
-    for file_el in tree.findall("//file"):
+    for file_el in tree.findall("graphbanks/file"):
         from_path, to_path = args.path_prefix_pair
         
         if file_el.text.startswith(from_path):
diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 8412110..5e65153 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -814,6 +814,11 @@ class PGCParser(object):
         # use ElementTree's iterparse rather than expat, because we want to
         # store the meta-data as an Element
         for event, elem in et.iterparse(inf, ("start", "end")):
+            if ( self.in_meta_data and 
+                 elem.tag not in ("corpus_meta_data", "graph_meta_data") ):
+                # user-defined meta-data, to be stored but not interpreted
+                continue
+            
             if event == "start":
                 try:
                     # search handler only
-- 
2.43.0


From 909c7d1b8bd55db8c67118a4472229c5647c8831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 24/49] fix: corpus differences limited to words, or written to
 a file

---
 lib/daeso/pgc/diff.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index cf2d5b5..4210b57 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -59,7 +59,7 @@ def pgc_diff(corpus1, corpus2,
     pair_count = 0
     
     header("%s corpus: %s\n%s corpus: %s" % (annot1, corpus_name1, annot2,
-                                             corpus_name2), width=120, char="#")
+                                             corpus_name2), out, width=120, char="#")
     
     for graph_pair1, graph_pair2 in zip(corpus1, corpus2):
         # assume that the corpora have the same graph pairs in the same order,
@@ -77,8 +77,8 @@ def pgc_diff(corpus1, corpus2,
         
         for nodes, rel1 in graph_pair1.alignments_iter(relations=relations):
             if ( words_only and
-                 graphs.source.node_node_is_non_terminal(nodes.source) and
-                 graphs.target.node_is_non_terminal(nodes.target) ):
+                 ( graphs.source.node_is_non_terminal(nodes.source) or
+                   graphs.target.node_is_non_terminal(nodes.target) )):
                 continue
             
             rel2 = graph_pair2.get_align(nodes)
@@ -92,8 +92,8 @@ def pgc_diff(corpus1, corpus2,
             
         for nodes, rel2 in graph_pair2.alignments_iter(relations=relations):
             if ( words_only and
-                 ( graphs.source.node_is_terminal(nodes.source) or
-                   graphs.target.node_is_terminal(nodes.target) )):
+                 ( graphs.source.node_is_non_terminal(nodes.source) or
+                   graphs.target.node_is_non_terminal(nodes.target) )):
                 continue
             
             if not graph_pair1.get_align(nodes):
@@ -103,7 +103,7 @@ def pgc_diff(corpus1, corpus2,
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
         #    continue
             
-        header("Graph pair %d" % pair_count, width=120, char="=")
+        header("Graph pair %d" % pair_count, out, width=120, char="=")
         
         print >>out, graphs.source.get_graph_token_string().encode("utf-8"), "\n"
         print >>out, graphs.target.get_graph_token_string().encode("utf-8"), "\n"
@@ -149,7 +149,7 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
             print >>out, "#%d:" % align_count 
             s = '(%s) %s [%s:%s]: "%s"' % (                
                 nodes.source,
-                graphs.source.node[nodes.source]["label"].encode("utf-8"),
+                graphs.source.node[nodes.source]["label"],
                 graphs.source.node[nodes.source]["begin"],
                 graphs.source.node[nodes.source]["end"],
                 graphs.source.get_node_token_string(nodes.source))
-- 
2.43.0


From 706854f10b3495300a8c0fc85b8ddbab000f5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 25/49] fix: graph pair methods roots_aligned, __ne__ and
 __str__, and listing the non-terminals of a graph

---
 lib/daeso/graph/daesograph.py |  4 +++-
 lib/daeso/pgc/graphpair.py    | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index b1d9ea5..3bc6c6d 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -26,6 +26,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 import string
 
+from networkx import NetworkXError
+
 from daeso.graph.ograph import ODiGraph
 
 # TODO:
@@ -99,7 +101,7 @@ class DaesoGraph(ODiGraph):
     
     def non_terminals_iter(self):
         return ( node for node in self
-                 if self.is_non_terminal(node) )
+                 if self.node_is_non_terminal(node) )
     
     
     def non_terminals(self):
diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 7c45573..76f4fcf 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -108,6 +108,13 @@ class GraphPairBase(object):
                 return ( self._banks == other._banks and
                          self._graphs_equal(other) and
                          self._meta_data_equal(other) )
+            
+            
+    def __ne__(self, other):
+        """
+        self.__ne__(self, other) <==> self != other
+        """
+        return not self == other
         
         
     def __deepcopy__(self, memo_dict):
@@ -273,7 +280,7 @@ class GraphMapping(GraphPairBase, DiGraph):
             self.__class__.__name__,
             self._banks,
             self._graphs,
-            list.__str__(self),
+            self.alignments(),
             self._meta_data)
 
     
@@ -325,7 +332,7 @@ class GraphMapping(GraphPairBase, DiGraph):
         """
         return self.has_edge(
             self._graphs.source.root ,
-            self._graphs.source.root)
+            self._graphs.target.root)
     
     
     def dump_alignments(self):
-- 
2.43.0


From 49b3ca1ab73e061378cf0c87d3b25339cee9347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 26/49] fix: nodes added together to an ordered graph shared
 their attributes

---
 lib/daeso/graph/ograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 8a60bd9..2a9603d 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -218,7 +218,7 @@ class ODiGraph(networkx.DiGraph):
             if n not in self.succ:
                 self.succ[n] = OrderedDict()
                 self.pred[n] = OrderedDict()
-                self.node[n] = attr
+                self.node[n] = attr.copy()
             else: # update attr even if node already exists            
                 self.node[n].update(attr)
 
-- 
2.43.0


From c8e509de2050caa2cae089c2afe292603266e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 27/49] fix: report node pairs with missing attributes instead
 of accepting them

---
 lib/daeso/pgc/corpus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 5e65153..a66c667 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -948,6 +948,10 @@ class PGCParser(object):
         
         
     def handle_node_pair_start(self, elem):
+        for attrib in "from_node_id", "to_node_id", "relation":
+            if attrib not in elem.attrib:
+                self._missing_attrib_error(elem, attrib)
+                
         nodes = Pair( elem.get("from_node_id"), 
                       elem.get("to_node_id"))
         relation = elem.get("relation")
-- 
2.43.0


From 60875dc7cfc2b2ab6ea2a4736893fa9a8d49a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 28/49] fix: a graphbank that fails to load keeps none of its
 graphs

---
 lib/daeso/gb/graphbank.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index fe71b73..a020001 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -155,8 +155,11 @@ class GraphBank(object):
         """
         assert not self._loaded
         parser = self._get_parser(self._format)
-        parser.parse_file(self._file_path, self._id2graph,
+        # no graphs are added if loading fails halfway
+        id2graph = {}
+        parser.parse_file(self._file_path, id2graph,
                           sparse=False)
+        self._id2graph.update(id2graph)
         self._loaded = True 
             
     
-- 
2.43.0


From 7fd06d19271c79d5b549d5cca9e0537e09d6b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 29/49] fix: pgc_zip leaves out graphbanks that are listed but
 not used by a pair

A corpus cannot be loaded without them.
---
 bin/pgc_zip.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bin/pgc_zip.py b/bin/pgc_zip.py
index 2dbd760..969239b 100755
--- a/bin/pgc_zip.py
+++ b/bin/pgc_zip.py
@@ -45,7 +45,7 @@ from sys import exit
 
 from daeso.utils.cli import DaesoArgParser
 from daeso.utils.opsys import glob, multiglob, replacing
-from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
+from daeso.pgc.corpus import PGCParser, LOAD_NONE
 
 
 def pgc_zip(zip_filename, pgc_filenames):
@@ -77,10 +77,12 @@ def add_corpora(zip_arch, arch_dir, pgc_filenames):
         # add corpus to archive
         add(corpus_filename)
         
-        corpus = ParallelGraphCorpus(inf=corpus_filename,
-                                     graph_loading=LOAD_NONE)
+        # all graphbanks listed in the corpus are required to load it, also
+        # those that no graph pair refers to
+        pgc_parser = PGCParser()
+        pgc_parser.parse(corpus_filename, graph_loading=LOAD_NONE)
 
-        for gb in corpus._graphbanks():
+        for gb in pgc_parser.graphbanks.values():
             # add graphbank files to archive
             add(gb.get_file_path())
             
-- 
2.43.0


From 5abb1c9f852945e048f39d7787ccda934a50124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 30/49] fix: graphbank statistics counted failed parses of
 graphs left out for other reasons

Their percentage of the graphs counted could exceed 100.
---
 lib/daeso/gb/gbstats.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index 10b0109..d32395d 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -134,11 +134,10 @@ def graph_stats(gb,
     gb_table["BANK"][i] = name
 
     for graph in gb:                                   
-        if graph.is_failed_parse():
-            if with_failed_parses:
-                gb_table["CGFP"][i] += 1
-            else:
-                continue
+        failed_parse = graph.is_failed_parse()
+        
+        if failed_parse and not with_failed_parses:
+            continue
         
         if not root_aligned(graph):
             if with_unaligned_roots:
@@ -163,6 +162,10 @@ def graph_stats(gb,
             else:
                 gb_table["CGMA"][i] += 1
         
+        if failed_parse:
+            # only now, because the graph might be discarded for other reasons
+            gb_table["CGFP"][i] += 1
+        
         gb_table["CG"][i] += 1
         gb_table["CT"][i] += count_tokens(graph, with_punc)
         
-- 
2.43.0


From 2ac47eba2c907a0fe1bf6fcd8a083b364cadffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 31/49] fix: alignments that refer to no text element were
 taken to refer to another one

---
 lib/daeso/ptc/document.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 83be69c..70199a0 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -273,15 +273,22 @@ class HitaextDoc(ElementTree):
             fromTag = elem.get('from_tag')
             fromN = int(elem.get('from_n'))
             # fromN/toN counts from 1 -- tagCountTable counts from zero!!! 
-            fromElem = from_tree.tagCountTable[fromTag][fromN - 1]
+            fromElem = self._get_nth_elem(from_tree, fromTag, fromN)
             
             toTag = elem.get('to_tag')
             toN = int(elem.get('to_n'))
-            # fromN/toN counts from 1 -- tagCountTable counts from zero!!! 
-            toElem = to_tree.tagCountTable[toTag][toN - 1]
+            toElem = self._get_nth_elem(to_tree, toTag, toN)
             
             fromElem.get("_alignments").append(toElem)
             toElem.get("_alignments").append(fromElem)    
+            
+            
+    def _get_nth_elem(self, tree, tag, n):
+        if n < 1:
+            # or else it would count from the end
+            raise IndexError("no such element: <%s> number %d" % (tag, n))
+        
+        return tree.tagCountTable[tag][n - 1]
 
     
     def inject_alignments_id(self, from_tree, to_tree):
@@ -294,11 +301,12 @@ class HitaextDoc(ElementTree):
         # Assume "_alignments" attribute is initialized with empty list
         for elem in self.alignment:
             fromTag = elem.get('from_tag')
-            fromId = elem.get('from_id')
+            # never None, which would find an element without id
+            fromId = elem.attrib['from_id']
             fromElem = from_tree.tagIdTable[fromTag][fromId]
             
             toTag = elem.get('to_tag')
-            toId = elem.get('to_id')
+            toId = elem.attrib['to_id']
             toElem = to_tree.tagIdTable[toTag][toId]
             
             fromElem.get("_alignments").append(toElem)
-- 
2.43.0


From b621f51c4f1a60756e5d0b84f802246584a71b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 32/49] fix: ptc_chdir crashed on filenames of a single capital

---
 bin/ptc_chdir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/ptc_chdir.py b/bin/ptc_chdir.py
index 27f7565..1ef12ae 100755
--- a/bin/ptc_chdir.py
+++ b/bin/ptc_chdir.py
@@ -81,7 +81,7 @@ for fn in args.corpus:
             print >>stderr, "Current %s path is %s" %  (side, path)
         
         # a heuristic to deal with windows paths        
-        if path[0] in uppercase and path[1] == ":":
+        if path[0] in uppercase and path[1:2] == ":":
             # strip drive letter
             path = path[2:]
         path = path.replace("\\", "/")
-- 
2.43.0


From 8263fad4e7dc4d7ee92d13ae1484164349d08571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 33/49] fix: pgc_from_ptc let one corpus overwrite another with
 the same basename

---
 bin/pgc_from_ptc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bin/pgc_from_ptc.py b/bin/pgc_from_ptc.py
index b504863..06ebc17 100755
--- a/bin/pgc_from_ptc.py
+++ b/bin/pgc_from_ptc.py
@@ -153,7 +153,12 @@ if len(args.parallel_text_corpora) != len(args.source_graphbanks):
     
 if len(args.parallel_text_corpora) != len(args.target_graphbanks):
     exit("Error: too few or to many target graphbanks")
-    
+
+def get_outfn(text_corpus):
+    return os.path.splitext(os.path.basename(text_corpus))[0] + ".pgc"
+
+if len(set(map(get_outfn, args.parallel_text_corpora))) < len(args.parallel_text_corpora):
+    exit("Error: parallel text corpora with the same basename")
 
 for text_corpus, source_graphbank, target_graphbank in zip(args.parallel_text_corpora,
                                                            args.source_graphbanks,
@@ -168,8 +173,7 @@ for text_corpus, source_graphbank, target_graphbank in zip(args.parallel_text_co
         min_token_diff=args.min_token_diff,
         max_token_len=args.max_token_len)
     
-    outfn = os.path.splitext(os.path.basename(text_corpus))[0] + ".pgc"
-    graph_corpus.write(outfn, pprint=True)
+    graph_corpus.write(get_outfn(text_corpus), pprint=True)
     
     
 
-- 
2.43.0


From c853f0947e51a5a3e428be1b7101c6e75339cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 34/49] fix: a cache operation that ran out of memory made a
 later insert loop forever

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py |  8 ++++----
 lib/daeso/thirdparty/GenericCache/LRUStock.py     | 10 +++++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index f0a7b2d..75ef0c4 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -121,9 +121,8 @@ class GenericCache(dict):
         """
         key = str(key)
         if key in self.values:
-            value = self.values[key]
-            self.lru.discard(value)
-            del self.values[key]    
+            del self.values[key]
+        self.lru.discard(key)
 
     @synchronized
     def reconfigure(self, maxsize = None, expiry = None):
@@ -154,8 +153,9 @@ class GenericCache(dict):
         self._shrink(1)
         
         node.__cache_timestamp = time.time()
-        self.values[node] = node
+        # every value must be in the LRU list, also if memory runs out
         self.lru.add(node)
+        self.values[node] = node
 
     @synchronized
     def clear(self):
diff --git a/lib/daeso/thirdparty/GenericCache/LRUStock.py b/lib/daeso/thirdparty/GenericCache/LRUStock.py
index 313a9c9..535f71d 100644
--- a/lib/daeso/thirdparty/GenericCache/LRUStock.py
+++ b/lib/daeso/thirdparty/GenericCache/LRUStock.py
@@ -37,8 +37,10 @@ class LRUStock(object):
         """
         Get given value
         """
+        # create the new node first: if that fails, nothing is lost
+        node = LRUNode(item)
         self.discard(item)
-        self.add(item)
+        self._append(node)
 
     def discard(self, item):
         """
@@ -55,8 +57,10 @@ class LRUStock(object):
         """
         Add given object
         """
-        node = LRUNode(item)
-        self.keys[item] = node
+        self._append(LRUNode(item))
+
+    def _append(self, node):
+        self.keys[node.item] = node
         node.next = self
         node.prev = self.prev
         node.prev.next = node
-- 
2.43.0


From 0a6f34ea5e5c7643c08c049f66cde196f5f67875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 35/49] fix: fetch_with_generator never called the generator of
 a cache that fails by default

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index 75ef0c4..993d6a5 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -107,7 +107,7 @@ class GenericCache(dict):
         """
         Fetch key, calling generator to build if it doesn't exist
         """
-        res = self.fetch(key, onmissing = _marker)
+        res = self.fetch(key, fail = False, onmissing = _marker)
         if res is _marker:
             res = generator(*args, **kwargs)
             self[key] = res
-- 
2.43.0


From 08219ca8b901b4faa1c549b40c7565db412662b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 36/49] fix: cached functions could not have arguments named
 key, generator or self

---
 lib/daeso/thirdparty/GenericCache/decorators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/decorators.py b/lib/daeso/thirdparty/GenericCache/decorators.py
index 305545c..16c29ca 100644
--- a/lib/daeso/thirdparty/GenericCache/decorators.py
+++ b/lib/daeso/thirdparty/GenericCache/decorators.py
@@ -24,7 +24,9 @@ def cached(cache, marshaller = default_marshaller):
         def inner(*args, **kwargs):
             key = marshaller(func, *args, **kwargs)
 
-            return cache.fetch_with_generator(key, func, *args, **kwargs)
+            # keyword arguments of func may be called "key" or "generator" too
+            return cache.fetch_with_generator(key,
+                                              lambda: func(*args, **kwargs))
             
         return inner
     return decorator
-- 
2.43.0


From 382226dc12290619b5b251c3f5f02915444a406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 37/49] fix: cached functions with the same name in different
 modules shared their values

---
 lib/daeso/thirdparty/GenericCache/decorators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/decorators.py b/lib/daeso/thirdparty/GenericCache/decorators.py
index 16c29ca..f5b71c9 100644
--- a/lib/daeso/thirdparty/GenericCache/decorators.py
+++ b/lib/daeso/thirdparty/GenericCache/decorators.py
@@ -12,7 +12,8 @@ def default_marshaller(func, *args, **kwargs):
     """
     Default marshaller
     """
-    return repr((func.__name__, args, kwargs))
+    # functions in different modules may have the same name
+    return repr((func.__module__, func.__name__, args, kwargs))
 
 def cached(cache, marshaller = default_marshaller):
     """
-- 
2.43.0


From 32d559481213f27ffd723b78a783ddf807ef340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 38/49] fix: ptc_eval counted all alignments by number as a
 single one

---
 lib/daeso/ptc/evaluate.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/ptc/evaluate.py b/lib/daeso/ptc/evaluate.py
index 0e5c4f2..6db94b1 100644
--- a/lib/daeso/ptc/evaluate.py
+++ b/lib/daeso/ptc/evaluate.py
@@ -91,9 +91,17 @@ def get_alignment(corpus, tag):
     for link_elem in corpus.get_alignments():
         if ( link_elem.get('from_tag') == tag and 
              link_elem.get('to_tag') == tag ):
-            alignments.add((
-                link_elem.get('from_id'),
-                link_elem.get('to_id')))
+            # elements are aligned either by id or by number
+            if link_elem.get('from_id') and link_elem.get('to_id'):
+                alignments.add((
+                    'id',
+                    link_elem.get('from_id'),
+                    link_elem.get('to_id')))
+            else:
+                alignments.add((
+                    'n',
+                    int(link_elem.attrib['from_n']),
+                    int(link_elem.attrib['to_n'])))
             
     return alignments
 
@@ -104,6 +112,11 @@ def count_alignment(true_corpus, pred_corpus, tag):
     true_alignments = get_alignment(true_corpus, tag)
     pred_alignments = get_alignment(pred_corpus, tag)
     
+    if len(set(align[0] for align in true_alignments | pred_alignments)) > 1:
+        raise ValueError("cannot compare alignments by id to alignments by "
+                         "number: %s, %s" % (true_corpus.filename, 
+                                             pred_corpus.filename))
+    
     return (
         len(true_alignments),
         len(pred_alignments),
-- 
2.43.0


From 9d71f8258190e9e547805df81ce6a9f0d3e02664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 39/49] fix: ptc_diff hid differences between elements without
 ids or with other tags

---
 lib/daeso/ptc/diff.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/diff.py b/lib/daeso/ptc/diff.py
index d668866..7a76b6d 100644
--- a/lib/daeso/ptc/diff.py
+++ b/lib/daeso/ptc/diff.py
@@ -56,7 +56,7 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
         for true_to_elem in true_from_elem.get("_alignments"):
 
             for pred_to_elem in pred_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if is_same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -72,7 +72,7 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
         for pred_to_elem in pred_from_elem.get("_alignments"):
 
             for true_to_elem in true_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if is_same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -87,6 +87,12 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                 
     
     
+def is_same_elem(elem1, elem2):
+    # identify elements by their tag and id, or by their number if there is no id
+    return ( elem1.tag == elem2.tag and
+             elem1.get("id", elem1.get("_n")) == elem2.get("id", elem2.get("_n")) )
+    
+    
 def read_corpus(corpus): 
     if not isinstance(corpus, HitaextDoc):
         corpus = HitaextDoc(file=corpus)
-- 
2.43.0


From dabfbec6aac6386eebe5d4854b9e06b23e7c04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 40/49] fix: pgc_diff left out relations declared only by the
 second corpus

---
 lib/daeso/pgc/diff.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 4210b57..79f5df3 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -47,8 +47,7 @@ def pgc_diff(corpus1, corpus2,
     """
     assert len(corpus1) == len(corpus2)
     
-    if not relations:
-        relations = corpus1.get_relations()
+    # by default all relations, including those used in only one of the corpora
     
     # counter for numbering the alignments when printing;
     # may be less than the actual number of alignments when identical alignments
-- 
2.43.0


From 78a5bca1ebefe65295a78dfe329e9a29b1e0773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 41/49] fix: pgc_diff crashed on relations with non-ASCII names

---
 lib/daeso/pgc/diff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 79f5df3..4ac5601 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -140,8 +140,8 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
         
         for nodes in nodes_list:        
             align_count += 1
-            rel1 = str(graph_pair1.get_align(nodes))
-            rel2 = str(graph_pair2.get_align(nodes))
+            rel1 = graph_pair1.get_align(nodes) or "None"
+            rel2 = graph_pair2.get_align(nodes) or "None"
             
             # tricky because of implicit coercions, 
             # see "Formatting Markers" http://www.python.org/dev/peps/pep-0100/
@@ -153,7 +153,8 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
                 graphs.source.node[nodes.source]["end"],
                 graphs.source.get_node_token_string(nodes.source))
             print >>out, s.encode("utf-8")
-            print >>out, "<<<", rel1.upper(), "/", rel2.upper(), ">>>"
+            s = "<<< %s / %s >>>" % (rel1.upper(), rel2.upper())
+            print >>out, s.encode("utf-8")
             s = '(%s) %s [%s:%s]: "%s"\n' % (
                 nodes.target,
                 graphs.target.node[nodes.target]["label"],
-- 
2.43.0


From ff02e1fd9ae73d8272c5f6536fe94201d08fe234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 42/49] fix: pgc_diff crashed on empty comments

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 4ac5601..12c14d0 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -173,6 +173,6 @@ def print_comments(graph_pair, annot, out, encoding="utf-8"):
     except AttributeError:
         return
     
-    if comment.strip():
+    if comment and comment.strip():
         header("Comments by " + annot, out, char="-")
         print >>out, comment.encode(encoding), "\n"
-- 
2.43.0


From 7a2f316f3629041bd9462db74001b852fe08184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 43/49] fix: pgc_zip silently left out graphbanks that are
 directories

---
 bin/pgc_zip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/pgc_zip.py b/bin/pgc_zip.py
index 969239b..4a7e100 100755
--- a/bin/pgc_zip.py
+++ b/bin/pgc_zip.py
@@ -65,6 +65,10 @@ def add_corpora(zip_arch, arch_dir, pgc_filenames):
                                       os.path.basename(filename) )
         filename = os.path.realpath(filename)
         
+        if os.path.isdir(filename):
+            exit('pgc_zip.py: error: "{0}" is a directory, not a '
+                 'file'.format(filename))
+        
         # corpora may share graphbanks, which should be added only once
         if arch_filename not in added:
             zip_arch.write(filename, arch_filename)
-- 
2.43.0


From 2689a84985b6da144e901cc79984965603224951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 44/49] fix: a corpus file named by the empty string was taken
 for an empty corpus

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index a66c667..d3adbe6 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -133,7 +133,7 @@ class ParallelGraphCorpus(list):
         self.set_relations(relations)
         self._meta_data = meta_data
         self._graph_loading = None
-        if inf: self.read(inf, graph_loading)
+        if inf is not None: self.read(inf, graph_loading)
         
     
     def __add__(self, other):
-- 
2.43.0


From b842bcb91b8cb851c1c67f941950fd496f8fed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:40 +0000
Subject: [PATCH 45/49] fix: a document named by the empty string was taken for
 a new document

---
 lib/daeso/ptc/document.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 70199a0..68ee7a6 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -62,15 +62,18 @@ class HitaextDoc(ElementTree):
     
     
     def __init__(self, element=None, file=None):
-        ElementTree.__init__(self, element=element, file=file)
+        ElementTree.__init__(self, element=element)
         
-        if element or file:
+        if file is not None:
+            self.parse(file)
+        
+        if element or file is not None:
             self.validate()
         else:
             xml = "".join(self._hitaext_template.split())
             self._setroot(XML(xml))
         
-        if file:
+        if file is not None:
             self.filename = file
         else:
             self.filename = ""
-- 
2.43.0


From 67d6ec1eb463ff299c3ba0cf49b2157512f94c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 46/49] fix: archive the same version of a corpus as its
 graphbanks are taken from

When another process replaced a corpus between adding it to the archive and
reading the names of its graphbanks, pgc_zip made an archive of the old corpus
with the graphbanks of the new one.
---
 bin/pgc_zip.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/bin/pgc_zip.py b/bin/pgc_zip.py
index 4a7e100..a7ff3e0 100755
--- a/bin/pgc_zip.py
+++ b/bin/pgc_zip.py
@@ -42,6 +42,7 @@ import os
 import zipfile
 
 from sys import exit
+from time import localtime
 
 from daeso.utils.cli import DaesoArgParser
 from daeso.utils.opsys import glob, multiglob, replacing
@@ -60,7 +61,7 @@ def pgc_zip(zip_filename, pgc_filenames):
 def add_corpora(zip_arch, arch_dir, pgc_filenames):
     added = {}
     
-    def add(filename):
+    def add(filename, content=None):
         arch_filename = os.path.join( arch_dir,
                                       os.path.basename(filename) )
         filename = os.path.realpath(filename)
@@ -71,20 +72,37 @@ def add_corpora(zip_arch, arch_dir, pgc_filenames):
         
         # corpora may share graphbanks, which should be added only once
         if arch_filename not in added:
-            zip_arch.write(filename, arch_filename)
+            if content is None:
+                zip_arch.write(filename, arch_filename)
+            else:
+                info = os.stat(filename)
+                zip_info = zipfile.ZipInfo(arch_filename,
+                                           localtime(info.st_mtime)[:6])
+                zip_info.external_attr = (info.st_mode & 0xFFFF) << 16
+                zip_arch.writestr(zip_info, content)
             added[arch_filename] = filename
         elif added[arch_filename] != filename:
             exit('pgc_zip.py: error: files "{0}" and "{1}" have the same '
                  'name in the archive'.format(added[arch_filename], filename))
     
     for corpus_filename in multiglob(pgc_filenames):
-        # add corpus to archive
-        add(corpus_filename)
-        
+        if os.path.isdir(corpus_filename):
+            # reports the error
+            add(corpus_filename)
+            
         # all graphbanks listed in the corpus are required to load it, also
         # those that no graph pair refers to
         pgc_parser = PGCParser()
-        pgc_parser.parse(corpus_filename, graph_loading=LOAD_NONE)
+        
+        # the corpus may be replaced any time, so the graphbanks must be taken
+        # from the same version of it as the one that is added
+        with open(corpus_filename, "rb") as inf:
+            pgc_parser.parse(inf, graph_loading=LOAD_NONE)
+            inf.seek(0)
+            content = inf.read()
+            
+        # add corpus to archive
+        add(corpus_filename, content)
 
         for gb in pgc_parser.graphbanks.values():
             # add graphbank files to archive
-- 
2.43.0


From c03edb94252d86ad159837cd015512bf2d7e0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:41 +0000
Subject: [PATCH 47/49] fix: ODiGraph made from data, and its errors, raised
 NameError

---
 lib/daeso/graph/ograph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 2a9603d..e174432 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -52,6 +52,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 from distutils.version import LooseVersion
 import networkx
+from networkx import NetworkXError
 
 if LooseVersion(networkx.__version__) < LooseVersion('1.0'):
     raise ImportError("networkx version 1.0 or later required" +
@@ -118,7 +119,7 @@ class ODiGraph(networkx.DiGraph):
 
         # attempt to load graph with data
         if data is not None:
-            convert.from_whatever(data,create_using=self)
+            networkx.convert.to_networkx_graph(data, create_using=self)
         # load graph attributes (must be after convert)
         self.graph.update(attr)
 
-- 
2.43.0


From a050c64c43ba632b7616dadd96b2e5b7fcf73134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:17 +0000
Subject: [PATCH 48/49] fix: archive graphbanks under the names by which the
 corpus lists them

---
 bin/pgc_zip.py          | 11 ++++++-----
 lib/daeso/pgc/corpus.py |  7 +++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/bin/pgc_zip.py b/bin/pgc_zip.py
index a7ff3e0..c473bd3 100755
--- a/bin/pgc_zip.py
+++ b/bin/pgc_zip.py
@@ -61,9 +61,9 @@ def pgc_zip(zip_filename, pgc_filenames):
 def add_corpora(zip_arch, arch_dir, pgc_filenames):
     added = {}
     
-    def add(filename, content=None):
+    def add(filename, content=None, name=None):
         arch_filename = os.path.join( arch_dir,
-                                      os.path.basename(filename) )
+                                      name or os.path.basename(filename) )
         filename = os.path.realpath(filename)
         
         if os.path.isdir(filename):
@@ -104,9 +104,10 @@ def add_corpora(zip_arch, arch_dir, pgc_filenames):
         # add corpus to archive
         add(corpus_filename, content)
 
-        for gb in pgc_parser.graphbanks.values():
-            # add graphbank files to archive
-            add(gb.get_file_path())
+        for id, gb in pgc_parser.graphbanks.items():
+            # add graphbank files to archive, under the names by which they
+            # are looked up next to the corpus
+            add(gb.get_file_path(), name=pgc_parser.graphbank_names[id])
             
 
 parser = DaesoArgParser(description=__doc__,
diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index d3adbe6..ba893b0 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -771,6 +771,9 @@ class PGCParser(object):
         # ParallelGraphCorpus object holds no direct reference to
         # (Sparse)GraphBank objects; only the GraphPair objects do.
         self.graphbanks = {}
+        # A dict of the same id's to the names of the graphbank files as
+        # listed in the corpus, which may be those of symbolic links
+        self.graphbank_names = {}
         
         
     def parse(self, inf, pg_corpus=None, graph_loading=LOAD_SPARSE,
@@ -974,6 +977,7 @@ class PGCParser(object):
         assert id not in self.graphbanks
         format = elem.get("format") or self.default_format
         file_path = elem.text.strip()
+        file_name = self.graphbank_names[id] = os.path.basename(file_path)
         
         if not os.path.isabs(file_path):
             # create absolute path, using os.path.realpath rather than
@@ -989,8 +993,7 @@ class PGCParser(object):
         # and I see no other way to provide for it.
         if ( not os.path.exists(file_path) and 
              self.relax_gb_paths ):
-            file_path = os.path.join(self.dir, 
-                                     os.path.basename(file_path))
+            file_path = os.path.join(self.dir, file_name)
             file_path = os.path.realpath(file_path) 
         
         if self.graph_loading == LOAD_ALL:
-- 
2.43.0


From af18a10c6ac7d13f22c945ca18469ac89ccacf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:25 +0000
Subject: [PATCH 49/49] fix: stay in the same directory if listing the corpora
 of a segment is interrupted

---
 lib/daeso/stats/corpus.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 08646a6..d663ee3 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -136,17 +136,17 @@ def stats(pgc_dir, pgc_files_pattern, with_unaligned_roots=False):
     # must change to dir of pgc files,
     # because paths to gb files are interpreted relative to location of pgc file 
     try:
-        chdir(pgc_dir)
-    except OSError, inst:
-        if inst.errno != errno.ENOENT:
-            raise
-        # dir does not exist
-        # assume there are no files, which results in a empty table
-        pgc_files = []
-    else:
-        pgc_files = glob(pgc_files_pattern)
-        
-    try:
+        try:
+            chdir(pgc_dir)
+        except OSError, inst:
+            if inst.errno != errno.ENOENT:
+                raise
+            # dir does not exist
+            # assume there are no files, which results in a empty table
+            pgc_files = []
+        else:
+            pgc_files = glob(pgc_files_pattern)
+            
         pgc_table, gb_table = pgc_stats(pgc_files, 
                                         with_unaligned_roots=with_unaligned_roots)
     finally:
-- 
2.43.0

