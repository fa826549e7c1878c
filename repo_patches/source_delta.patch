From 130c0dce83a95c4c1bcf6ac8910cfca16b21ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:51 +0000
Subject: [PATCH 01/18] fix: OkapiIndex.clear() forgets the total document
 length

The total survived clear(), so every score computed afterwards used a
mean document length that included the dropped documents.
---
 src/zope/index/text/okapiindex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index a243398..e705f67 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -232,6 +232,8 @@ class OkapiIndex(BaseIndex):
         # in compressed form, so uncompressing it just to count the list
         # length would be ridiculously expensive.
 
+    def clear(self):
+        BaseIndex.clear(self)
         # sum(self._docweight.values()), the total # of words in all docs
         # This is a long for "better safe than sorry" reasons.  It isn't
         # used often enough that speed should matter.
-- 
2.43.0


From 713edab4ff296d8c2642dce7a3c20efa501b8048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:51 +0000
Subject: [PATCH 02/18] fix: TopicIndex.apply() must not modify the caller's
 query

The operator was popped off the mapping passed in, so applying the same
query again fell back to "and".
---
 src/zope/index/topic/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index 673f660..cdfc6fc 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -107,6 +107,6 @@ class TopicIndex(Persistent):
         operator = 'and'
         if isinstance(query, dict):
             if 'operator' in query:
-                operator = query.pop('operator')
+                operator = query['operator']
             query = query['query']
         return self.search(query, operator=operator)
-- 
2.43.0


From f7e92fb584305263811a5eb734bc89cee05a6d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:22 +0000
Subject: [PATCH 03/18] fix: PythonFilteredSet drops documents that no longer
 match

Re-indexing a document whose expression became false (or started to
raise) left it in the set forever.
---
 src/zope/index/topic/filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index dbaa98d..55f88f6 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -75,5 +75,8 @@ class PythonFilteredSet(FilteredSetBase):
         try:
             if eval(self.expr):
                 self._ids.insert(docid)
+                return
         except BaseException:
             pass  # ignore errors
+        # Don't keep a document that matched when it was indexed before.
+        self.unindex_doc(docid)
-- 
2.43.0


From 49fb0f5c16be6886d2641598b31955f98961f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:22 +0000
Subject: [PATCH 04/18] fix: make filtered sets persistent

A filter is stored inside a persistent TopicIndex; as a plain object its
clear() and setExpression() changed nothing the database would notice,
so those changes were lost at commit.
---
 src/zope/index/topic/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index 55f88f6..4f9b688 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -15,13 +15,14 @@
 """
 
 import BTrees
+from persistent import Persistent
 from zope.interface import implementer
 
 from zope.index.topic.interfaces import ITopicFilteredSet
 
 
 @implementer(ITopicFilteredSet)
-class FilteredSetBase:
+class FilteredSetBase(Persistent):
     """
     Base class for all filtered sets.
 
-- 
2.43.0


From a94797bf7ee3836d60803002e599aaa11d711504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:22 +0000
Subject: [PATCH 05/18] fix: RiceCode accepts m == 0 as documented

---
 src/zope/index/text/ricecode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 555ffcc..b0a5263 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -102,7 +102,7 @@ class RiceCode:
     def init(self, m):
         self.m = m
         self.lower = (1 << m) - 1
-        self.mask = 1 << (m - 1)
+        self.mask = (1 << m) >> 1
 
     def append(self, val):
         """Append an item to the list."""
-- 
2.43.0


From 367277765c0075d0e81dacbf80853e5548522fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:22 +0000
Subject: [PATCH 06/18] fix: decode_deltas() decodes lists with non-uniform
 deltas

---
 src/zope/index/text/ricecode.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index b0a5263..f9cd66c 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -187,9 +187,8 @@ def decode_deltas(start, enc_deltas):
     if not enc_deltas:
         return l_
     deltas = enc_deltas.tolist()
-    for i in range(1, len(deltas)):
-        l_.append(l_[i - 1] + deltas[i])
-    l_.append(l_[-1] + deltas[-1])
+    for delta in deltas:
+        l_.append(l_[-1] + delta)
     return l_
 
 
-- 
2.43.0


From acda40cf881c699b3fc5845266af2d7d14b6d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:22 +0000
Subject: [PATCH 07/18] fix: phrase search no longer matches inside a longer
 word code

The encoded form of a small wid is a prefix of the encoded form of some
bigger wids, so a plain find() reported phrases that do not occur.
---
 src/zope/index/text/baseindex.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 3076b89..4536315 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -14,6 +14,7 @@
 """Abstract base class for full text index with relevance ranking.
 """
 import math
+import re
 
 import BTrees
 from BTrees import Length
@@ -204,11 +205,14 @@ class BaseIndex(Persistent):
         hits = mass_weightedIntersection(scores, self.family)
         if not hits:
             return hits
-        code = widcode.encode(wids)
+        # The last wid of the phrase must end where the match ends:  the code
+        # of a wid can be the beginning of the code of a bigger one.
+        find = re.compile(re.escape(widcode.encode(wids))
+                          + r"(?![\x00-\x7f])").search
         result = self.family.IF.BTree()
         for docid, weight in hits.items():
             docwords = self._docwords[docid]
-            if docwords.find(code) >= 0:
+            if find(docwords):
                 result[docid] = weight
         return result
 
-- 
2.43.0


From 74bc9caffd1aee05137688cb99611e056daa400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 08/18] fix: glob patterns match literally except for "*" and
 "?"

The literal prefix of a pattern was compiled as a regular expression:
"a+b*" did not match "a+bc" and "a(b*" raised re.error.  Line ends were
special as well.
---
 src/zope/index/text/lexicon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index 2ed331a..6e772a9 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -119,7 +119,7 @@ class Lexicon(Persistent):
             # This is too efficient, so we raise an exception.
             raise QueryError(
                 "pattern %r shouldn't start with glob character" % pattern)
-        pat = prefix
+        pat = re.escape(prefix)
         for c in pattern:
             if c == "*":
                 pat += ".*"
@@ -127,8 +127,8 @@ class Lexicon(Persistent):
                 pat += "."
             else:
                 pat += re.escape(c)
-        pat += "$"
-        prog = re.compile(pat)
+        pat += r"\Z"
+        prog = re.compile(pat, re.DOTALL)
         keys = self._wids.keys(prefix)  # Keys starting at prefix
         wids = []
         for key in keys:
-- 
2.43.0


From fffe2861ed388125020e2f32ab24174c04f60c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 09/18] fix: KeywordIndex handles keywords that normalize to
 nothing

A true sequence without any keyword left (an exhausted iterator, or a
normalize() which drops words) counted a document that is not indexed,
and left the old keywords behind when re-indexing.
---
 src/zope/index/keyword/index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 96bb9ab..52cacd3 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -91,6 +91,11 @@ class KeywordIndex(Persistent):
         seq = self.normalize(seq)
 
         new_kw = self.family.OO.Set(seq)
+        if not new_kw:
+            # nothing left after normalization
+            if old_kw:
+                self.unindex_doc(docid)
+            return
 
         if old_kw is None:
             self._insert_forward(docid, new_kw)
-- 
2.43.0


From be73023474512a3b9edd3f70c273ccc907b8c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 10/18] fix: "and" searches never return a set stored in the
 index

With a single operand the result of KeywordIndex and TopicIndex was the
live document set, so changing the result corrupted the index (and later
indexing changed the result).
---
 src/zope/index/keyword/index.py | 6 +++++-
 src/zope/index/topic/index.py   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 52cacd3..0d01343 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -182,7 +182,11 @@ class KeywordIndex(Persistent):
             sets.sort(key=len)
             rs = None
             for set in sets:
-                rs = self.family.IF.intersection(rs, set)
+                if rs is None:
+                    # never hand out the set stored in the index
+                    rs = self.family.IF.Set(set)
+                else:
+                    rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
         else:
diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index cdfc6fc..28dccf9 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -91,7 +91,11 @@ class TopicIndex(Persistent):
             sets.sort(key=len)
             rs = None
             for set in sets:
-                rs = self.family.IF.intersection(rs, set)
+                if rs is None:
+                    # never hand out the set stored in the index
+                    rs = self.family.IF.Set(set)
+                else:
+                    rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
         else:
-- 
2.43.0


From f6037d74597fc0a0084fad9c2434e5dca05c7c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 11/18] fix: mass set operations on one operand return a
 mapping of their own

With weight 1 the operand itself was returned; CosineIndex passes the
mappings it stores, and TextIndex.apply() rescales the result in place.
---
 src/zope/index/text/setops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/setops.py b/src/zope/index/text/setops.py
index 734aca4..46acad9 100644
--- a/src/zope/index/text/setops.py
+++ b/src/zope/index/text/setops.py
@@ -55,12 +55,12 @@ def mass_weightedUnion(L, family=BTrees.family32):
 
 def _trivial(L, family):
     # L is empty or has only one (mapping, weight) pair.  If there is a
-    # pair, we may still need to multiply the mapping by its weight.
+    # pair, we may still need to multiply the mapping by its weight, and
+    # the caller must get a mapping of its own in any case.
     assert len(L) <= 1
     if len(L) == 0:
         return family.IF.Bucket()
     [(result, weight)] = L
-    if weight != 1:
-        dummy, result = family.IF.weightedUnion(
-            family.IF.Bucket(), result, 0, weight)
+    dummy, result = family.IF.weightedUnion(
+        family.IF.Bucket(), result, 0, weight)
     return result
-- 
2.43.0


From 54365ccb85b3c8ef1050639da1c08234d02a5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 12/18] fix: sort() ignores unknown docids and orders None
 consistently

Docids which are not indexed were sorted as if their value was -1 before
being dropped, which raised TypeError for e.g. strings; so did a None
value, which the forward index sorts before everything else.
---
 src/zope/index/field/sorting.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/zope/index/field/sorting.py b/src/zope/index/field/sorting.py
index 0c44012..7bbc0f3 100644
--- a/src/zope/index/field/sorting.py
+++ b/src/zope/index/field/sorting.py
@@ -16,6 +16,7 @@
 import bisect
 import heapq
 from itertools import islice
+from operator import itemgetter
 
 from zope.interface import implementer
 
@@ -50,9 +51,15 @@ class SortingIndexMixin:
 
         fwd_index = getattr(self, self._sorting_fwd_index_attr)
         rev_index = getattr(self, self._sorting_rev_index_attr)
-        getValue = lambda x, d=-1: rev_index.get(x, d)  # noqa: E731 use def
         marker = object()
 
+        def nsort():
+            for docid in docids:
+                val = rev_index.get(docid, marker)
+                if val is not marker:
+                    # like the forward index, sort None before any value
+                    yield ((val is not None, val), docid)
+
         # use_lazy and use_nbest computations lifted wholesale from
         # Zope2 catalog without questioning reasoning
         use_lazy = rlen > numdocs * (rlen / 100 + 1)
@@ -70,12 +77,6 @@ class SortingIndexMixin:
             # set of simultaneous values in memory; use generators
             # and heapq functions to do so.
 
-            def nsort():
-                for docid in docids:
-                    val = getValue(docid, marker)
-                    if val is not marker:
-                        yield (val, docid)
-
             iterable = nsort()
 
             if reverse:
@@ -126,9 +127,8 @@ class SortingIndexMixin:
                 # of documents in this index, or if we need to sort in
                 # reverse order, use a non-lazy sort.
                 n = 0
-                for docid in sorted(docids, key=getValue, reverse=reverse):
-                    if getValue(docid, marker) is not marker:
-                        n += 1
-                        yield docid
-                        if limit and n >= limit:
-                            return
+                for val in sorted(nsort(), key=itemgetter(0), reverse=reverse):
+                    n += 1
+                    yield val[1]
+                    if limit and n >= limit:
+                        return
-- 
2.43.0


From 74acc3711d9c85ec404404fc163f0f6859ad8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 13/18] fix: a limited reverse sort() is a prefix of the
 unlimited one

Documents with equal values came in descending docid order with a small
limit and in ascending order without one.
---
 src/zope/index/field/sorting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/field/sorting.py b/src/zope/index/field/sorting.py
index 7bbc0f3..a967cbe 100644
--- a/src/zope/index/field/sorting.py
+++ b/src/zope/index/field/sorting.py
@@ -84,7 +84,8 @@ class SortingIndexMixin:
                 # sort case because the nlargest implementation does
                 # not manifest the whole thing into memory at once if
                 # we do so.
-                for val in heapq.nlargest(limit, iterable):
+                for val in heapq.nlargest(limit, iterable,
+                                          key=itemgetter(0)):
                     yield val[1]
             else:
                 # lifted from heapq.nsmallest
-- 
2.43.0


From 45e6ddb514608e73d1c7a666633e1dd3e3845b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:54 +0000
Subject: [PATCH 14/18] fix: okascore.score() reports errors of its arguments

Failures to get the length of the items or to convert a frequency or a
document length to a number were ignored, which surfaced as a SystemError
("returned a result with an exception set").
---
 src/zope/index/text/okascore.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/okascore.c b/src/zope/index/text/okascore.c
index bc9f338..52100ca 100644
--- a/src/zope/index/text/okascore.c
+++ b/src/zope/index/text/okascore.c
@@ -57,18 +57,21 @@ score(PyObject *self, PyObject *args)
 	double idf;		/* inverse doc frequency of t */
 	double meandoclen;	/* average number of words in a doc */
 
-	int n, i;
+	Py_ssize_t n, i;
 
 	if (!PyArg_ParseTuple(args, "OOOdd:score", &result, &d2fitems, &d2len,
 						   &idf, &meandoclen))
 		return NULL;
 
 	n = PyObject_Length(d2fitems);
+	if (n < 0)
+		return NULL;
 	for (i = 0; i < n; ++i) {
 		PyObject *d_and_f;	/* d2f[i], a (d, f) pair */
 		PyObject *d;
 		double f;
 		PyObject *doclen;	/* ._docweight[d] */
+		double len;
 		double lenweight;
 		double tf;
 		PyObject *doc_score;
@@ -86,13 +89,23 @@ score(PyObject *self, PyObject *args)
 		}
 		d = PyTuple_GET_ITEM(d_and_f, 0);
 		f = PyFloat_AsDouble(PyTuple_GET_ITEM(d_and_f, 1));
+		if (f == -1.0 && PyErr_Occurred()) {
+			Py_DECREF(d_and_f);
+			return NULL;
+		}
 
 		doclen = PyObject_GetItem(d2len, d);
 		if (doclen == NULL) {
 			Py_DECREF(d_and_f);
 			return NULL;
 		}
-		lenweight = B_FROM1 + B * PyFloat_AsDouble(doclen) / meandoclen;
+		len = PyFloat_AsDouble(doclen);
+		if (len == -1.0 && PyErr_Occurred()) {
+			Py_DECREF(d_and_f);
+			Py_DECREF(doclen);
+			return NULL;
+		}
+		lenweight = B_FROM1 + B * len / meandoclen;
 
 		tf = f * K1_PLUS1 / (f + K1 * lenweight);
 		doc_score = PyFloat_FromDouble(tf * idf);
-- 
2.43.0


From 94f4f55d4486bf36b7edbf20a472c8f3d5b51a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:31 +0000
Subject: [PATCH 15/18] fix: FieldIndex.index_doc() keeps no value for a docid
 it refuses

---
 src/zope/index/field/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/field/index.py b/src/zope/index/field/index.py
index b273023..b6c17a3 100644
--- a/src/zope/index/field/index.py
+++ b/src/zope/index/field/index.py
@@ -73,7 +73,8 @@ class FieldIndex(SortingIndexMixin, persistent.Persistent):
         # Insert into forward index.
         set = self._fwd_index.get(value)
         if set is None:
-            set = self.family.IF.TreeSet()
+            # refuses a bad docid before anything is stored
+            set = self.family.IF.TreeSet((docid,))
             self._fwd_index[value] = set
         set.insert(docid)
 
-- 
2.43.0


From d0bddc9cea59629c0ddf6c8e3f979abbcae98164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:31 +0000
Subject: [PATCH 16/18] fix: KeywordIndex.index_doc() keeps no keywords for a
 docid it refuses

---
 src/zope/index/keyword/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 0d01343..9163c5d 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -149,7 +149,8 @@ class KeywordIndex(Persistent):
         for word in words:
             word_idx = get_word_idx(word)
             if word_idx is None:
-                idx[word] = word_idx = Set()
+                # refuses a bad docid before anything is stored
+                idx[word] = word_idx = Set((docid,))
             word_idx.insert(docid)
             if (not isinstance(word_idx, TreeSet) and
                     len(word_idx) >= self.tree_threshold):
-- 
2.43.0


From 82529a9d06abda866802430728cabb442389c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:31 +0000
Subject: [PATCH 17/18] fix: a text index keeps no words for a docid it refuses

---
 src/zope/index/text/baseindex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 4536315..bba1450 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -105,8 +105,8 @@ class BaseIndex(Persistent):
             return self._reindex_doc(docid, text)
         wids = self._lexicon.sourceToWordIds(text)
         wid2weight, docweight = self._get_frequencies(wids)
+        self._docweight[docid] = docweight  # refuses a bad docid
         self._mass_add_wordinfo(wid2weight, docid)
-        self._docweight[docid] = docweight
         self._docwords[docid] = widcode.encode(wids)
         try:
             self.documentCount.change(1)
-- 
2.43.0


From 9ab822a3f74efad6590336fc8f0766f8453dfd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:31 +0000
Subject: [PATCH 18/18] fix: OkapiIndex keeps its total length when a new text
 is refused

---
 src/zope/index/text/okapiindex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index e705f67..6d757fd 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -245,8 +245,10 @@ class OkapiIndex(BaseIndex):
         return count
 
     def _reindex_doc(self, docid, text):
-        self._change_doc_len(-self._docweight[docid])
-        return BaseIndex._reindex_doc(self, docid, text)
+        old_count = self._docweight[docid]
+        count = BaseIndex._reindex_doc(self, docid, text)
+        self._change_doc_len(-old_count)
+        return count
 
     def unindex_doc(self, docid):
         if docid not in self._docwords:
-- 
2.43.0

