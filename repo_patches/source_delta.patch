From ad50755a4623a95e88cd18dbce27a365212767c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 01/11] fix: RiceCode(0) raised ValueError although 0 is a
 documented parameter

---
 src/zope/index/text/ricecode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 555ffcc..19b54ae 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -102,7 +102,7 @@ class RiceCode:
     def init(self, m):
         self.m = m
         self.lower = (1 << m) - 1
-        self.mask = 1 << (m - 1)
+        self.mask = (1 << m) >> 1  # 0 if there are no binary bits
 
     def append(self, val):
         """Append an item to the list."""
-- 
2.43.0


From e9d61efc3d97a1b6502b3ab2fd7218cfb1c3714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 02/11] fix: decode_deltas skipped the first delta and used the
 last one twice

---
 src/zope/index/text/ricecode.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 19b54ae..84823c0 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -186,10 +186,8 @@ def decode_deltas(start, enc_deltas):
     l_ = [start]
     if not enc_deltas:
         return l_
-    deltas = enc_deltas.tolist()
-    for i in range(1, len(deltas)):
-        l_.append(l_[i - 1] + deltas[i])
-    l_.append(l_[-1] + deltas[-1])
+    for delta in enc_deltas.tolist():
+        l_.append(l_[-1] + delta)
     return l_
 
 
-- 
2.43.0


From 2c379ed2cac00fee2218ce0bfbdcd6b28236a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 03/11] fix: OkapiIndex.clear kept the total document length of
 the old contents

---
 src/zope/index/text/okapiindex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index a243398..45b3ed8 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -237,6 +237,10 @@ class OkapiIndex(BaseIndex):
         # used often enough that speed should matter.
         self._totaldoclen = Length(0)
 
+    def clear(self):
+        BaseIndex.clear(self)
+        self._totaldoclen = Length(0)
+
     def index_doc(self, docid, text):
         count = BaseIndex.index_doc(self, docid, text)
         self._change_doc_len(count)
-- 
2.43.0


From e5b3e4e093911608499aba8f89d9d5bd5e804848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 04/11] fix: TopicIndex.apply removed the operator from the
 caller's query

---
 src/zope/index/topic/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index 673f660..cdfc6fc 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -107,6 +107,6 @@ class TopicIndex(Persistent):
         operator = 'and'
         if isinstance(query, dict):
             if 'operator' in query:
-                operator = query.pop('operator')
+                operator = query['operator']
             query = query['query']
         return self.search(query, operator=operator)
-- 
2.43.0


From c476619f4f68313f070be2e9d688d87508ee1763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 05/11] fix: re-indexing left a document in topic filters it no
 longer matches

---
 src/zope/index/topic/filter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index dbaa98d..7303157 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -72,8 +72,12 @@ class PythonFilteredSet(FilteredSetBase):
     """ a topic filtered set to check a context against a Python expression """
 
     def index_doc(self, docid, context):
+        matches = False
         try:
-            if eval(self.expr):
+            matches = bool(eval(self.expr))
+            if matches:
                 self._ids.insert(docid)
         except BaseException:
             pass  # ignore errors
+        if not matches:
+            self.unindex_doc(docid)
-- 
2.43.0


From c2f58afea2532d25909bfc1cf9f62e988954d3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 06/11] fix: TopicIndex.clearFilters was lost on commit

---
 src/zope/index/topic/filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index 7303157..8f7466f 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -36,10 +36,12 @@ class FilteredSetBase:
             self.family = family
         self.id = id
         self.expr = expr
-        self.clear()
+        self._ids = self.family.IF.Set()
 
     def clear(self):
-        self._ids = self.family.IF.Set()
+        # The filter itself isn't persistent, so replacing the set would not
+        # be noticed by the database.
+        self._ids.clear()
 
     def index_doc(self, docid, context):
         raise NotImplementedError
-- 
2.43.0


From b305bf14118351158ac5cecbee30080b77fbfc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 07/11] fix: globs misread special characters before the glob
 and line breaks

---
 src/zope/index/text/lexicon.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index 2ed331a..3278707 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -119,7 +119,7 @@ class Lexicon(Persistent):
             # This is too efficient, so we raise an exception.
             raise QueryError(
                 "pattern %r shouldn't start with glob character" % pattern)
-        pat = prefix
+        pat = re.escape(prefix)
         for c in pattern:
             if c == "*":
                 pat += ".*"
@@ -127,14 +127,13 @@ class Lexicon(Persistent):
                 pat += "."
             else:
                 pat += re.escape(c)
-        pat += "$"
-        prog = re.compile(pat)
+        prog = re.compile(pat, re.DOTALL)
         keys = self._wids.keys(prefix)  # Keys starting at prefix
         wids = []
         for key in keys:
             if not key.startswith(prefix):
                 break
-            if prog.match(key):
+            if prog.fullmatch(key):
                 wids.append(self._wids[key])
         return wids
 
-- 
2.43.0


From 07b090635c83acf4a5832f4d67d0b410e17b2c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 08/11] fix: KeywordIndex counted documents without keywords
 left after normalizing

---
 src/zope/index/keyword/index.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 96bb9ab..9420408 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -83,15 +83,15 @@ class KeywordIndex(Persistent):
             raise TypeError('seq argument must be a list/tuple of strings')
 
         old_kw = self._rev_index.get(docid, None)
-        if not seq:
+        if seq:
+            seq = self.normalize(seq)
+
+        new_kw = self.family.OO.Set(seq or ())
+        if not new_kw:
             if old_kw:
                 self.unindex_doc(docid)
             return
 
-        seq = self.normalize(seq)
-
-        new_kw = self.family.OO.Set(seq)
-
         if old_kw is None:
             self._insert_forward(docid, new_kw)
             self._insert_reverse(docid, new_kw)
-- 
2.43.0


From 2750802c80cf6f87c00969f069272124591ee74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 09/11] fix: CosineIndex.query_weight was no upper bound if a
 term is repeated

---
 src/zope/index/text/cosineindex.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/cosineindex.py b/src/zope/index/text/cosineindex.py
index 8c64e27..f626ced 100644
--- a/src/zope/index/text/cosineindex.py
+++ b/src/zope/index/text/cosineindex.py
@@ -84,9 +84,12 @@ class CosineIndex(BaseIndex):
         for term in terms:
             wids += self._lexicon.termToWordIds(term)
         N = float(len(self._docweight))
-        sum = 0.0
+        counts = {}  # a repeated term weighs (and scores) more than once
         for wid in self._remove_oov_wids(wids):
-            wt = inverse_doc_frequency(len(self._wordinfo[wid]), N)
+            counts[wid] = counts.get(wid, 0) + 1
+        sum = 0.0
+        for wid, count in counts.items():
+            wt = count * inverse_doc_frequency(len(self._wordinfo[wid]), N)
             sum += wt ** 2.0
         return math.sqrt(sum)
 
-- 
2.43.0


From dc3cca46f2a770ae01b64e30881f1c069ca6a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 10/11] fix: FieldIndex.sort failed on unindexed documents and
 None values

---
 src/zope/index/field/sorting.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/zope/index/field/sorting.py b/src/zope/index/field/sorting.py
index 0c44012..5b08bd7 100644
--- a/src/zope/index/field/sorting.py
+++ b/src/zope/index/field/sorting.py
@@ -50,8 +50,11 @@ class SortingIndexMixin:
 
         fwd_index = getattr(self, self._sorting_fwd_index_attr)
         rev_index = getattr(self, self._sorting_rev_index_attr)
-        getValue = lambda x, d=-1: rev_index.get(x, d)  # noqa: E731 use def
-        marker = object()
+
+        def getKey(docid):
+            # None sorts first, as it does in the forward index
+            value = rev_index[docid]
+            return value is not None, value
 
         # use_lazy and use_nbest computations lifted wholesale from
         # Zope2 catalog without questioning reasoning
@@ -72,9 +75,8 @@ class SortingIndexMixin:
 
             def nsort():
                 for docid in docids:
-                    val = getValue(docid, marker)
-                    if val is not marker:
-                        yield (val, docid)
+                    if docid in rev_index:
+                        yield (getKey(docid), docid)
 
             iterable = nsort()
 
@@ -126,9 +128,9 @@ class SortingIndexMixin:
                 # of documents in this index, or if we need to sort in
                 # reverse order, use a non-lazy sort.
                 n = 0
-                for docid in sorted(docids, key=getValue, reverse=reverse):
-                    if getValue(docid, marker) is not marker:
-                        n += 1
-                        yield docid
-                        if limit and n >= limit:
-                            return
+                indexed = [docid for docid in docids if docid in rev_index]
+                for docid in sorted(indexed, key=getKey, reverse=reverse):
+                    n += 1
+                    yield docid
+                    if limit and n >= limit:
+                        return
-- 
2.43.0


From 6aa35c780d12610c9a2af3f30c74d45129c49117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 11/11] fix: phrase searches matched beginnings of longer word
 id encodings

---
 src/zope/index/text/baseindex.py |  2 +-
 src/zope/index/text/widcode.py   | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 3076b89..99b8811 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -208,7 +208,7 @@ class BaseIndex(Persistent):
         result = self.family.IF.BTree()
         for docid, weight in hits.items():
             docwords = self._docwords[docid]
-            if docwords.find(code) >= 0:
+            if widcode.contains(docwords, code):
                 result[docid] = weight
         return result
 
diff --git a/src/zope/index/text/widcode.py b/src/zope/index/text/widcode.py
index 6090378..f983233 100644
--- a/src/zope/index/text/widcode.py
+++ b/src/zope/index/text/widcode.py
@@ -115,6 +115,21 @@ def _decode(s):
     return ((a & 0x7F) << 21) | (b << 14) | (c << 7) | d
 
 
+def contains(code, subcode):
+    """Whether the list encoded as code contains the one encoded as subcode.
+
+    A match of the strings can end in the middle of an encoding, so the next
+    byte has to be an initial one.
+    """
+    start = code.find(subcode)
+    while start >= 0:
+        end = start + len(subcode)
+        if end == len(code) or code[end] >= '\x80':
+            return True
+        start = code.find(subcode, start + 1)
+    return False
+
+
 def _fill():
     global _encoding
     for i in range(0x80):
-- 
2.43.0

