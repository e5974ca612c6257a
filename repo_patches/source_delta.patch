From 76c2e1fbaa7362d622a7ab85b9762a2342d3b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:13 +0000
Subject: [PATCH 01/19] fix: sort documents with None or non-integer values
 together with ids that are not indexed

---
 src/zope/index/field/sorting.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/zope/index/field/sorting.py b/src/zope/index/field/sorting.py
index 0c44012..7b18fe8 100644
--- a/src/zope/index/field/sorting.py
+++ b/src/zope/index/field/sorting.py
@@ -50,9 +50,13 @@ class SortingIndexMixin:
 
         fwd_index = getattr(self, self._sorting_fwd_index_attr)
         rev_index = getattr(self, self._sorting_rev_index_attr)
-        getValue = lambda x, d=-1: rev_index.get(x, d)  # noqa: E731 use def
+        getValue = rev_index.get
         marker = object()
 
+        def sortKey(value):
+            # ``None`` sorts before all other values, as in the forward index
+            return (value is not None, value)
+
         # use_lazy and use_nbest computations lifted wholesale from
         # Zope2 catalog without questioning reasoning
         use_lazy = rlen > numdocs * (rlen / 100 + 1)
@@ -74,7 +78,7 @@ class SortingIndexMixin:
                 for docid in docids:
                     val = getValue(docid, marker)
                     if val is not marker:
-                        yield (val, docid)
+                        yield (sortKey(val), docid)
 
             iterable = nsort()
 
@@ -126,9 +130,12 @@ class SortingIndexMixin:
                 # of documents in this index, or if we need to sort in
                 # reverse order, use a non-lazy sort.
                 n = 0
-                for docid in sorted(docids, key=getValue, reverse=reverse):
-                    if getValue(docid, marker) is not marker:
-                        n += 1
-                        yield docid
-                        if limit and n >= limit:
-                            return
+                indexed = [docid for docid in docids
+                           if getValue(docid, marker) is not marker]
+                for docid in sorted(indexed,
+                                    key=lambda x: sortKey(getValue(x)),
+                                    reverse=reverse):
+                    n += 1
+                    yield docid
+                    if limit and n >= limit:
+                        return
-- 
2.43.0


From d55bf4afa074ee7187433973374b4fc5e40efde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 02/19] fix: treat a document whose keywords all normalize away
 as having no keywords

---
 src/zope/index/keyword/index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 96bb9ab..345a7c5 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -91,6 +91,11 @@ class KeywordIndex(Persistent):
         seq = self.normalize(seq)
 
         new_kw = self.family.OO.Set(seq)
+        if not new_kw:
+            # nothing is left after normalization
+            if old_kw:
+                self.unindex_doc(docid)
+            return
 
         if old_kw is None:
             self._insert_forward(docid, new_kw)
-- 
2.43.0


From 20ecd4d08a862d416cbe8d64bc88971a627dfa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 03/19] fix: do not hand out the stored docid sets as search
 results

---
 src/zope/index/keyword/index.py | 5 +++--
 src/zope/index/topic/index.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 345a7c5..bba9e11 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -180,8 +180,9 @@ class KeywordIndex(Persistent):
             # sort smallest to largest set so we intersect the smallest
             # number of document identifiers possible
             sets.sort(key=len)
-            rs = None
-            for set in sets:
+            # copy the first set: never return (and so expose) a stored one
+            rs = self.family.IF.Set(sets[0]) if sets else None
+            for set in sets[1:]:
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index 673f660..e1b508d 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -89,8 +89,9 @@ class TopicIndex(Persistent):
             # sort smallest to largest set so we intersect the smallest
             # number of document identifiers possible
             sets.sort(key=len)
-            rs = None
-            for set in sets:
+            # copy the first set: never return (and so expose) a stored one
+            rs = self.family.IF.Set(sets[0]) if sets else None
+            for set in sets[1:]:
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
                     break
-- 
2.43.0


From d83b600ef475a381c0fd049e0e88bbede634b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 04/19] fix: drop a document from a topic filter when it is
 reindexed and no longer matches

---
 src/zope/index/topic/filter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index dbaa98d..383f035 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -73,7 +73,10 @@ class PythonFilteredSet(FilteredSetBase):
 
     def index_doc(self, docid, context):
         try:
-            if eval(self.expr):
-                self._ids.insert(docid)
+            matches = bool(eval(self.expr))
         except BaseException:
-            pass  # ignore errors
+            matches = False  # ignore errors
+        if matches:
+            self._ids.insert(docid)
+        else:
+            self.unindex_doc(docid)
-- 
2.43.0


From 5d8d7c98b4d9d2d143098c4d72d9f9fede63ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 05/19] fix: do not remove 'operator' from the query passed to
 TopicIndex.apply

---
 src/zope/index/topic/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index e1b508d..4b08e30 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -108,6 +108,6 @@ class TopicIndex(Persistent):
         operator = 'and'
         if isinstance(query, dict):
             if 'operator' in query:
-                operator = query.pop('operator')
+                operator = query['operator']
             query = query['query']
         return self.search(query, operator=operator)
-- 
2.43.0


From d38f8c5412735437dcca91f35054d1a35ed59c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 06/19] fix: make clearing a stored topic filter persistent

---
 src/zope/index/topic/filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index 383f035..41e185b 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -36,10 +36,12 @@ class FilteredSetBase:
             self.family = family
         self.id = id
         self.expr = expr
-        self.clear()
+        self._ids = self.family.IF.Set()
 
     def clear(self):
-        self._ids = self.family.IF.Set()
+        # Filters are not persistent themselves, their set of ids is: empty
+        # it in place so that the change gets stored.
+        self._ids.clear()
 
     def index_doc(self, docid, context):
         raise NotImplementedError
-- 
2.43.0


From e5bdb3b145fafef5e9f5150f77023340342eadcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 07/19] fix: reset the total document length when an okapi
 index is cleared

---
 src/zope/index/text/okapiindex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index a243398..45b3ed8 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -237,6 +237,10 @@ class OkapiIndex(BaseIndex):
         # used often enough that speed should matter.
         self._totaldoclen = Length(0)
 
+    def clear(self):
+        BaseIndex.clear(self)
+        self._totaldoclen = Length(0)
+
     def index_doc(self, docid, text):
         count = BaseIndex.index_doc(self, docid, text)
         self._change_doc_len(count)
-- 
2.43.0


From bc66ee87fbd80f4277abbb899f97466f8fe58b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 08/19] fix: keep the total document length when reindexing a
 document fails

---
 src/zope/index/text/okapiindex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index 45b3ed8..5da09af 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -247,8 +247,10 @@ class OkapiIndex(BaseIndex):
         return count
 
     def _reindex_doc(self, docid, text):
-        self._change_doc_len(-self._docweight[docid])
-        return BaseIndex._reindex_doc(self, docid, text)
+        old_len = self._docweight[docid]
+        count = BaseIndex._reindex_doc(self, docid, text)
+        self._change_doc_len(-old_len)
+        return count
 
     def unindex_doc(self, docid):
         if docid not in self._docwords:
-- 
2.43.0


From cea5a9a3f002a32e6c6429c545e94443b62a2c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 09/19] fix: leave a text index unchanged when a docid is
 refused

---
 src/zope/index/text/baseindex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 3076b89..942346f 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -104,9 +104,11 @@ class BaseIndex(Persistent):
             return self._reindex_doc(docid, text)
         wids = self._lexicon.sourceToWordIds(text)
         wid2weight, docweight = self._get_frequencies(wids)
-        self._mass_add_wordinfo(wid2weight, docid)
+        docwords = widcode.encode(wids)
+        # These come first as they refuse a docid the family does not support.
         self._docweight[docid] = docweight
-        self._docwords[docid] = widcode.encode(wids)
+        self._docwords[docid] = docwords
+        self._mass_add_wordinfo(wid2weight, docid)
         try:
             self.documentCount.change(1)
         except AttributeError:
-- 
2.43.0


From 94de55763128022e9b1df19102aae0061ca7e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 10/19] fix: leave field and keyword indexes unchanged when a
 docid or value is refused

---
 src/zope/index/field/index.py   | 12 +++++++++---
 src/zope/index/keyword/index.py | 16 ++++++++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/zope/index/field/index.py b/src/zope/index/field/index.py
index b273023..34658f9 100644
--- a/src/zope/index/field/index.py
+++ b/src/zope/index/field/index.py
@@ -69,13 +69,19 @@ class FieldIndex(SortingIndexMixin, persistent.Persistent):
             if docid in self._fwd_index.get(value, ()):
                 # no need to index the doc, its already up to date
                 return
-            self.unindex_doc(docid)
-        # Insert into forward index.
+        # Insert into forward index. This comes first as it refuses docids
+        # and values that are not supported.
         set = self._fwd_index.get(value)
         if set is None:
             set = self.family.IF.TreeSet()
+            set.insert(docid)
             self._fwd_index[value] = set
-        set.insert(docid)
+        else:
+            set.insert(docid)
+
+        # Remove the old value.
+        if docid in rev_index:
+            self.unindex_doc(docid)
 
         # increment doc count
         self._num_docs.change(1)
diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index bba9e11..bc6d07a 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -107,6 +107,9 @@ class KeywordIndex(Persistent):
             kw_added = self.family.OO.difference(new_kw, old_kw)
             kw_removed = self.family.OO.difference(old_kw, new_kw)
 
+            # added keywords come first, in case they are refused
+            self._insert_forward(docid, kw_added)
+
             # removed keywords are removed from the forward index
             for word in kw_removed:
                 fwd = self._fwd_index[word]
@@ -114,8 +117,7 @@ class KeywordIndex(Persistent):
                 if not fwd:
                     del self._fwd_index[word]
 
-            # now update reverse and forward indexes
-            self._insert_forward(docid, kw_added)
+            # now update the reverse index
             self._insert_reverse(docid, new_kw)
 
     def unindex_doc(self, docid):
@@ -146,11 +148,13 @@ class KeywordIndex(Persistent):
         IF = self.family.IF
         Set = IF.Set
         TreeSet = IF.TreeSet
-        for word in words:
-            word_idx = get_word_idx(word)
+        # Look up all words before changing anything, as this refuses words
+        # that cannot be compared with the indexed ones.
+        for word, word_idx in [(w, get_word_idx(w)) for w in words]:
             if word_idx is None:
-                idx[word] = word_idx = Set()
-            word_idx.insert(docid)
+                idx[word] = word_idx = Set((docid,))
+            else:
+                word_idx.insert(docid)
             if (not isinstance(word_idx, TreeSet) and
                     len(word_idx) >= self.tree_threshold):
                 # Convert to a TreeSet.
-- 
2.43.0


From f1c3cda2a68911035fdafe01cafbd257eda88db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 11/19] fix: do not match a phrase whose last wid is the
 beginning of a longer encoded wid

---
 src/zope/index/text/baseindex.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 942346f..cfd93b9 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -210,7 +210,7 @@ class BaseIndex(Persistent):
         result = self.family.IF.BTree()
         for docid, weight in hits.items():
             docwords = self._docwords[docid]
-            if docwords.find(code) >= 0:
+            if _contains_code(docwords, code):
                 result[docid] = weight
         return result
 
@@ -323,6 +323,21 @@ class BaseIndex(Persistent):
                 self.wordCount = Length.Length(len(self._wordinfo))
 
 
+def _contains_code(docwords, code):
+    """Whether the encoded wids *code* occur in the encoded *docwords*.
+
+    A match always starts at the start of an encoded wid, but its last wid
+    may be just the beginning of a longer one.
+    """
+    start = docwords.find(code)
+    while start >= 0:
+        end = start + len(code)
+        if end == len(docwords) or docwords[end] >= '\x80':
+            return True
+        start = docwords.find(code, start + 1)
+    return False
+
+
 def inverse_doc_frequency(term_count, num_items):
     """Return the inverse doc frequency for a term,
 
-- 
2.43.0


From 1b7b7830dd7ad826a653935c8f81987031787521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 12/19] fix: count repeated terms in the cosine query weight

---
 src/zope/index/text/cosineindex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/text/cosineindex.py b/src/zope/index/text/cosineindex.py
index 8c64e27..27e8d3c 100644
--- a/src/zope/index/text/cosineindex.py
+++ b/src/zope/index/text/cosineindex.py
@@ -85,8 +85,12 @@ class CosineIndex(BaseIndex):
             wids += self._lexicon.termToWordIds(term)
         N = float(len(self._docweight))
         sum = 0.0
+        counts = {}
         for wid in self._remove_oov_wids(wids):
-            wt = inverse_doc_frequency(len(self._wordinfo[wid]), N)
+            counts[wid] = counts.get(wid, 0) + 1
+        for wid, count in counts.items():
+            # a term that is repeated in the query scores every time
+            wt = count * inverse_doc_frequency(len(self._wordinfo[wid]), N)
             sum += wt ** 2.0
         return math.sqrt(sum)
 
-- 
2.43.0


From b44fd0ec438eb28c12721fe6abdfc8f0cd8f25d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 13/19] fix: take all characters of a glob pattern but * and ?
 literally

---
 src/zope/index/text/lexicon.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index 2ed331a..3278707 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -119,7 +119,7 @@ class Lexicon(Persistent):
             # This is too efficient, so we raise an exception.
             raise QueryError(
                 "pattern %r shouldn't start with glob character" % pattern)
-        pat = prefix
+        pat = re.escape(prefix)
         for c in pattern:
             if c == "*":
                 pat += ".*"
@@ -127,14 +127,13 @@ class Lexicon(Persistent):
                 pat += "."
             else:
                 pat += re.escape(c)
-        pat += "$"
-        prog = re.compile(pat)
+        prog = re.compile(pat, re.DOTALL)
         keys = self._wids.keys(prefix)  # Keys starting at prefix
         wids = []
         for key in keys:
             if not key.startswith(prefix):
                 break
-            if prog.match(key):
+            if prog.fullmatch(key):
                 wids.append(self._wids[key])
         return wids
 
-- 
2.43.0


From d7143fd6c4c5a0184b251ec244934125e4912e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 14/19] fix: decode unequal deltas

---
 src/zope/index/text/ricecode.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 555ffcc..393966f 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -186,10 +186,8 @@ def decode_deltas(start, enc_deltas):
     l_ = [start]
     if not enc_deltas:
         return l_
-    deltas = enc_deltas.tolist()
-    for i in range(1, len(deltas)):
-        l_.append(l_[i - 1] + deltas[i])
-    l_.append(l_[-1] + deltas[-1])
+    for delta in enc_deltas.tolist():
+        l_.append(l_[-1] + delta)
     return l_
 
 
-- 
2.43.0


From 4d9559ad66323b6187b97d7457237a237b351c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 15/19] fix: support rice codes without a binary part (m=0)

---
 src/zope/index/text/ricecode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 393966f..9601fe1 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -102,7 +102,7 @@ class RiceCode:
     def init(self, m):
         self.m = m
         self.lower = (1 << m) - 1
-        self.mask = 1 << (m - 1)
+        self.mask = (1 << m) >> 1
 
     def append(self, val):
         """Append an item to the list."""
-- 
2.43.0


From 37f456f8a7b4a649e665ebc1a14e8360d0d142c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 16/19] fix: report errors of length and float conversions in
 okascore

---
 src/zope/index/text/okascore.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/text/okascore.c b/src/zope/index/text/okascore.c
index bc9f338..fb82626 100644
--- a/src/zope/index/text/okascore.c
+++ b/src/zope/index/text/okascore.c
@@ -64,6 +64,8 @@ score(PyObject *self, PyObject *args)
 		return NULL;
 
 	n = PyObject_Length(d2fitems);
+	if (n < 0)
+		return NULL;
 	for (i = 0; i < n; ++i) {
 		PyObject *d_and_f;	/* d2f[i], a (d, f) pair */
 		PyObject *d;
@@ -86,13 +88,23 @@ score(PyObject *self, PyObject *args)
 		}
 		d = PyTuple_GET_ITEM(d_and_f, 0);
 		f = PyFloat_AsDouble(PyTuple_GET_ITEM(d_and_f, 1));
+		if (f == -1.0 && PyErr_Occurred()) {
+			Py_DECREF(d_and_f);
+			return NULL;
+		}
 
 		doclen = PyObject_GetItem(d2len, d);
 		if (doclen == NULL) {
 			Py_DECREF(d_and_f);
 			return NULL;
 		}
-		lenweight = B_FROM1 + B * PyFloat_AsDouble(doclen) / meandoclen;
+		lenweight = PyFloat_AsDouble(doclen);
+		if (lenweight == -1.0 && PyErr_Occurred()) {
+			Py_DECREF(d_and_f);
+			Py_DECREF(doclen);
+			return NULL;
+		}
+		lenweight = B_FROM1 + B * lenweight / meandoclen;
 
 		tf = f * K1_PLUS1 / (f + K1 * lenweight);
 		doc_score = PyFloat_FromDouble(tf * idf);
-- 
2.43.0


From 92b3c43502af5d9741fd85c348336abdee068eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 17/19] fix: raise ParseError for queries that are nested too
 deeply

---
 src/zope/index/text/queryparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/text/queryparser.py b/src/zope/index/text/queryparser.py
index 66370fd..f3f31eb 100644
--- a/src/zope/index/text/queryparser.py
+++ b/src/zope/index/text/queryparser.py
@@ -127,7 +127,10 @@ class QueryParser:
 
         # Syntactical analysis.
         self._ignored = []  # Ignored words in the query, for parseQueryEx
-        tree = self._parseOrExpr()
+        try:
+            tree = self._parseOrExpr()
+        except RecursionError:
+            raise parsetree.ParseError("Query is nested too deeply")
         self._require(_EOF)
         if tree is None:
             raise parsetree.ParseError(
-- 
2.43.0


From 3fdbd60b30748d62443ce64df26fe3ef145f7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:28 +0000
Subject: [PATCH 18/19] fix: make converting a keyword's docid set conflict
 with concurrent updates of it

---
 src/zope/index/keyword/index.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index bc6d07a..da9d1f9 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -159,6 +159,7 @@ class KeywordIndex(Persistent):
                     len(word_idx) >= self.tree_threshold):
                 # Convert to a TreeSet.
                 idx[word] = TreeSet(word_idx)
+                _empty(word_idx)
 
     def _insert_reverse(self, docid, words):
         """ add words to forward index """
@@ -222,10 +223,20 @@ class KeywordIndex(Persistent):
                 if not isinstance(word_idx, TreeSet):
                     # Convert to a TreeSet.
                     idx[word] = TreeSet(word_idx)
+                    _empty(word_idx)
             else:
                 if isinstance(word_idx, TreeSet):
                     # Convert to a Set.
                     idx[word] = Set(word_idx)
+                    _empty(word_idx)
+
+
+def _empty(docids):
+    # Empty a set that has just been replaced by a copy, so that a concurrent
+    # transaction still updating it gets a conflict error instead of losing
+    # its update. Removing the docids one by one changes all buckets.
+    for docid in reversed(list(docids)):
+        docids.remove(docid)
 
 
 class CaseInsensitiveKeywordIndex(KeywordIndex):
-- 
2.43.0


From c8f6ef7379c4b30a0a2251f7615b5a20c4601ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:41 +0000
Subject: [PATCH 19/19] fix: register changes of postings before making them,
 so that aborting an interrupted update forgets them

---
 src/zope/index/text/baseindex.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index cfd93b9..b63708d 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -278,8 +278,10 @@ class BaseIndex(Persistent):
             if (isinstance(doc2score, type({})) and
                     len(doc2score) == self.DICT_CUTOFF):
                 doc2score = self.family.IF.BTree(doc2score)
+        # Not redundant:  Persistency!  This comes first: if the update is
+        # interrupted after the change, aborting must forget the change.
+        self._wordinfo[wid] = doc2score
         doc2score[docid] = f
-        self._wordinfo[wid] = doc2score  # not redundant:  Persistency!
 
     #    self._mass_add_wordinfo(wid2weight, docid)
     #
@@ -301,8 +303,9 @@ class BaseIndex(Persistent):
             elif (isinstance(doc2score, dicttype) and
                   len(doc2score) == self.DICT_CUTOFF):
                 doc2score = self.family.IF.BTree(doc2score)
+            # Not redundant:  Persistency!  See _add_wordinfo.
+            self._wordinfo[wid] = doc2score
             doc2score[docid] = weight
-            self._wordinfo[wid] = doc2score  # not redundant:  Persistency!
         try:
             self.wordCount.change(new_word_count)
         except AttributeError:
@@ -311,10 +314,10 @@ class BaseIndex(Persistent):
 
     def _del_wordinfo(self, wid, docid):
         doc2score = self._wordinfo[wid]
+        # Not redundant:  Persistency!  See _add_wordinfo.
+        self._wordinfo[wid] = doc2score
         del doc2score[docid]
-        if doc2score:
-            self._wordinfo[wid] = doc2score  # not redundant:  Persistency!
-        else:
+        if not doc2score:
             del self._wordinfo[wid]
             try:
                 self.wordCount.change(-1)
-- 
2.43.0

