From 9055a7e508992ec390e0dfabefd2c0803934b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:39 +0000
Subject: [PATCH 01/62] fix: clip bin indexes before casting them to 32-bit
 integers

Values beyond the range of a 32-bit index (including +inf) wrapped around in
the cast and were counted in the underflow bin instead of the overflow bin.
---
 histbook/calc/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 12fb2eb..01df06c 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -223,6 +223,7 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
             numpy.ceil(indexes, indexes)
             numpy.add(indexes, shift - 1, indexes)
 
+        numpy.clip(indexes, -1, numbins + shift, indexes)   # before casting: INDEXTYPE can't represent very large values
         out = numpy.ma.array(indexes, dtype=INDEXTYPE)
         with numpy.errstate(invalid="ignore"):
             if underflow:
-- 
2.43.0


From 283eb4c00019939fd357f7f75a8418a5529b1562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:19 +0000
Subject: [PATCH 02/62] fix: keep NaN and out-of-range values out of integer
 bins

intbin cast its shifted values straight to 32-bit integers: NaN and very large
values landed in arbitrary bins, and with underflow=False values just below
the minimum were truncated up into the first bin.
---
 histbook/calc/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 01df06c..69b3057 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -263,7 +263,8 @@ def histbook_intbin(underflow, overflow):
         shift = 0
 
     def intbin(values, min, max):
-        indexes = numpy.ma.array((values + (shift - min)), dtype=INDEXTYPE)
+        shifted = numpy.clip(numpy.floor(values + (shift - min)), -1, shift + 1 + max - min)   # before casting: INDEXTYPE can't represent very large values
+        indexes = numpy.ma.array(shifted, dtype=INDEXTYPE)
 
         if underflow:
             numpy.maximum(indexes, 0, indexes)
@@ -275,6 +276,8 @@ def histbook_intbin(underflow, overflow):
         else:
             indexes[indexes > (shift + max - min)] = numpy.ma.masked
 
+        indexes[numpy.isnan(shifted)] = numpy.ma.masked
+
         return indexes
 
     return intbin
-- 
2.43.0


From 93dc3c800e61e77f586108b1354c7210077af3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:22 +0000
Subject: [PATCH 03/62] fix: fill profiles when some entries fall outside of
 the binned range

---
 histbook/hist.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3178c92..260075b 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -421,15 +421,18 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 weight2[selection] = 0.0
 
         def fillblock(content, indexes, axissumx, axissumx2, weight, weight2):
-            for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
-                if indexes is None:
-                    indexes = numpy.ma.zeros(len(sumx), dtype=histbook.calc.INDEXTYPE)
+            if indexes is None and len(axissumx) > 0:
+                indexes = numpy.ma.zeros(len(axissumx[0]), dtype=histbook.calc.INDEXTYPE)
+            selection = numpy.ma.getmask(indexes)
+            if selection is not numpy.ma.nomask:
+                selection = numpy.bitwise_not(selection)
+                axissumx = [x[selection] for x in axissumx]
+                axissumx2 = [x[selection] for x in axissumx2]
                 if weight2 is not None:
-                    selection = numpy.ma.getmask(indexes)
-                    if selection is not numpy.ma.nomask:
-                        selection = numpy.bitwise_not(selection)
-                        weight = weight[selection]
-                        weight2 = weight2[selection]
+                    weight = weight[selection]
+                    weight2 = weight2[selection]
+
+            for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumx * weight)
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * weight)
 
@@ -441,11 +444,6 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 if indexes is None:
                     indexes = numpy.ma.zeros(len(weight), dtype=histbook.calc.INDEXTYPE)
-                selection = numpy.ma.getmask(indexes)
-                if selection is not numpy.ma.nomask:
-                    selection = numpy.bitwise_not(selection)
-                    weight = weight[selection]
-                    weight2 = weight2[selection]
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumwindex], indexes.compressed(), weight)
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumw2index], indexes.compressed(), weight2)
 
-- 
2.43.0


From 76f4b53551b04b314b25ec4bcdfec2780db11448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:01 +0000
Subject: [PATCH 04/62] fix: don't share axis objects, and their bin layout,
 between histograms

---
 histbook/hist.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 260075b..ba27691 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -155,12 +155,11 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         newaxis = []
         for old in axis:
-            if isinstance(old, histbook.axis._nullaxis) or hasattr(old, "_parsed"):
+            if isinstance(old, histbook.axis._nullaxis):
                 newaxis.append(old)
             else:
-                expr = histbook.expr.Expr.parse(old._expr, defs=defs)
                 new = old.copy()
-                new._parsed = expr
+                new._parsed = old._parsed if hasattr(old, "_parsed") else histbook.expr.Expr.parse(old._expr, defs=defs)
                 newaxis.append(new)
 
         self._goals = set()
-- 
2.43.0


From 7300e775ba4b59a1f4350292eee96ca19c3f4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:05 +0000
Subject: [PATCH 05/62] fix: allow a histogram that has not been filled to be
 scaled

---
 histbook/hist.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index ba27691..2bc8a79 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -566,7 +566,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             raise TypeError("Hist can only be multiplied by a scalar number.")
 
         def recurse(content):
-            if isinstance(content, dict):
+            if content is None:
+                return None
+            elif isinstance(content, dict):
                 return dict((n, recurse(x)) for n, x in content.items())
             else:
                 return content * value
@@ -584,7 +586,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             raise TypeError("Hist can only be multiplied by a scalar number.")
 
         def recurse(content):
-            if isinstance(content, dict):
+            if content is None:
+                pass
+            elif isinstance(content, dict):
                 for x in content.values():
                     recurse(x)
             else:
-- 
2.43.0


From 1b0f08de2a2028fec29d6875279e269d28b1fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:09 +0000
Subject: [PATCH 06/62] fix: make sums and scaled histograms independent of
 their operands

---
 histbook/hist.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 2bc8a79..9acc164 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -517,14 +517,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     if n in othercontent:
                         out[n] = add(selfcontent[n], othercontent[n])
                     else:
-                        out[n] = selfcontent[n]
+                        out[n] = Hist._copycontent(selfcontent[n])
                 for n in othercontent:
                     if n not in selfcontent:
-                        out[n] = othercontent[n]
+                        out[n] = Hist._copycontent(othercontent[n])
                 return out
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = add(self._content, other._content)
         return out
 
@@ -573,8 +572,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 return content * value
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = recurse(self._content)
         return out
 
-- 
2.43.0


From 52bf3db3eca311a472a330dcbd1ed72f7fe19198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:12 +0000
Subject: [PATCH 07/62] fix: reject the sum of a weighted and an unweighted
 histogram

---
 histbook/hist.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/histbook/hist.py b/histbook/hist.py
index 9acc164..33f0a58 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -497,6 +497,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
+        if self._shape != other._shape:
+            raise TypeError("weighted histograms can only be added to other weighted histograms")
+
         def add(selfcontent, othercontent):
             if selfcontent is None and othercontent is None:
                 return None
@@ -534,6 +537,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
+        if self._shape != other._shape:
+            raise TypeError("weighted histograms can only be added to other weighted histograms")
+
         def add(selfcontent, othercontent):
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
             for n in selfcontent:
-- 
2.43.0


From f49d77225c5f0944517cd39dfeb094cef0b705da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:35 +0000
Subject: [PATCH 08/62] fix: reading a histogram that has not been filled no
 longer changes it

---
 histbook/hist.py | 17 ++++++++++-------
 histbook/proj.py |  8 ++------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 33f0a58..69b42f8 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -376,11 +376,15 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._postfill(arrays, length)
 
     def _prefill(self):
-        if self._content is None:
-            if len(self._group) == 0:
-                self._content = numpy.zeros(self._shape, dtype=self.COUNTTYPE)
-            else:
-                self._content = {}
+        self._content = self._filledcontent()
+
+    def _filledcontent(self):
+        if self._content is not None:
+            return self._content
+        elif len(self._group) == 0:
+            return numpy.zeros(self._shape, dtype=self.COUNTTYPE)
+        else:
+            return {}
 
     def _postfill(self, arrays, length):
         j = len(self._group)
@@ -758,8 +762,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def __getitem__(self, where):
         if not isinstance(where, tuple):
             where = (where,)
-        self._prefill()
-        out = self._content
+        out = self._filledcontent()
         for i in where:
             out = out[i]
         return out
diff --git a/histbook/proj.py b/histbook/proj.py
index 6063808..b261211 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -523,8 +523,6 @@ class Projectable(object):
         if len(opts) > 0:
             raise TypeError("unrecognized options for Hist.table: {0}".format(" ".join(opts)))
 
-        self._prefill()
-
         profile = [x if isinstance(x, histbook.axis.Axis) else self.axis.profile(x) for x in profile]
         profileindex = []
         for prof in profile:
@@ -622,7 +620,7 @@ class Projectable(object):
             else:
                 return handlearray(content)
 
-        out = handle(self._content)
+        out = handle(self._filledcontent())
 
         if showcolumns:
             return out, columns
@@ -670,8 +668,6 @@ class Projectable(object):
         if len(opts) > 0:
             raise TypeError("unrecognized options for Hist.table: {0}".format(" ".join(opts)))
 
-        self._prefill()
-
         cut = [x if isinstance(x, histbook.axis.Axis) else self.axis.cut(x) for x in cut]
 
         cutindex = []
@@ -783,7 +779,7 @@ class Projectable(object):
             else:
                 return handlearray(denomcontent, cutcontent)
 
-        out = handle(denomhist._content, [x._content for x in cuthist])
+        out = handle(denomhist._filledcontent(), [x._filledcontent() for x in cuthist])
 
         if showcolumns:
             out = out, columns
-- 
2.43.0


From 16a4211eb983654978f955a0c931502b01b01bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:39 +0000
Subject: [PATCH 09/62] fix: copy-on-fill histograms never share changes with
 the original

---
 histbook/hist.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 69b42f8..80323cc 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -87,8 +87,14 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         out = Hist(*(self._group + self._fixed + self._profile), weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
         out._copyonfill = True
         out._content = self._content
+        self._copyonfill = True
         return out
 
+    def _copybeforechange(self):
+        if self._copyonfill:
+            self._content = Hist._copycontent(self._content)
+            self._copyonfill = False
+
     def clear(self):
         """Effectively reset all bins to zero."""
         self._content = None
@@ -346,10 +352,6 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         **more : Numpy arrays or numbers
             more field values
         """
-        if self._copyonfill:
-            self._content = Hist._copycontent(self._content)
-            self._copyonfill = False
-
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
             wait = histbook.calc.spark.fillspark(self, arrays)
@@ -376,6 +378,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._postfill(arrays, length)
 
     def _prefill(self):
+        self._copybeforechange()
         self._content = self._filledcontent()
 
     def _filledcontent(self):
@@ -556,6 +559,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._copybeforechange()
+
         if other._content is None:
             pass
 
@@ -602,6 +607,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 content *= value
 
+        self._copybeforechange()
         recurse(self._content)
         return self
 
-- 
2.43.0


From c94010365e92c2680f21132e56b21e5c756b65b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:42 +0000
Subject: [PATCH 10/62] fix: don't share attachments and definitions with the
 caller

---
 histbook/book.py | 4 ++--
 histbook/hist.py | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 830e0bc..5dac947 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -182,7 +182,7 @@ class GenericBook(collections.MutableMapping):
             return node
         out = {"type": self.__class__.__name__, "content": [merge(n, x.tojson()) for n, x in self._content.items()]}
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
@@ -194,7 +194,7 @@ class GenericBook(collections.MutableMapping):
                 content[node["name"]] = histbook.hist.Hist.fromjson(node)
             else:
                 content[node["name"]] = GenericBook.fromjson(node)
-        return cls.fromdicts(content, obj.get("attachment", {}))
+        return cls.fromdicts(content, dict(obj.get("attachment", {})))
 
     def __len__(self):
         return len(self._content)
diff --git a/histbook/hist.py b/histbook/hist.py
index 80323cc..25db52b 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -139,6 +139,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if len(opts) > 0:
             raise TypeError("unrecognized options for Hist: {0}".format(" ".join(opts)))
 
+        if attachment is not None:
+            attachment = dict(attachment)
+
         if systematic is not None:
             if attachment is None:
                 attachment = {"systematic": systematic}
@@ -150,7 +153,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if defs is None:
             self._defs = {}
         else:
-            self._defs = defs
+            self._defs = dict(defs)
         if attachment is None:
             self._attachment = {}
         else:
@@ -709,7 +712,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._filteroriginal is not None:
             out["filter"] = self._filteroriginal
         if self._defs is not None and len(self._defs) != 0:
-            out["defs"] = self._defs
+            out["defs"] = dict(self._defs)
         if self._content is not None:
             def recurse(node):
                 if isinstance(node, dict):
@@ -718,7 +721,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     return node.tolist()
             out["content"] = recurse(self._content)
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
-- 
2.43.0


From 768fa8bab2f21736680afbc8786410862c21f6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:08 +0000
Subject: [PATCH 11/62] fix: group filtered, unfilled and mixed
 weighted/unweighted histograms consistently

---
 histbook/hist.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 25db52b..d2a2d8e 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -647,13 +647,11 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if histbook.axis.groupby(by) in axis:
             raise ValueError("groupby({0}) already exists in these histograms; use hist.togroup(other) to add to a group".format(repr(by)))
 
-        weight = None
+        weight = hist._weightoriginal
         for x in hists.values():
-            if weight is None:
-                weight = x._weightoriginal
-            elif x._weightoriginal is None:
+            if (x._weightparsed is None) != (hist._weightparsed is None):
                 raise TypeError("histograms can only be grouped with the same weight specifications")
-            elif weight != x._weightoriginal:
+            elif hist._weightparsed is not None and (weight is None or weight != x._weightoriginal):
                 weight = 1.0
                 
         defs = {}
@@ -663,7 +661,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         out = cls(*((histbook.axis.groupby(by),) + hist._group + hist._fixed + hist._profile), weight=weight, filter=None, defs=dict(defs), attachment=None)
         out._content = {}
         for n, x in hists.items():
-            out._content[n] = cls._copycontent(x._content)
+            out._content[n] = cls._copycontent(x._filledcontent())
         return out
 
     def togroup(**hists):
-- 
2.43.0


From e8c78723b93be5db72b1fd33c1b0e9fcd06c0bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:12 +0000
Subject: [PATCH 12/62] fix: make Hist.togroup usable

---
 histbook/hist.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index d2a2d8e..fc88fe1 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -664,7 +664,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             out._content[n] = cls._copycontent(x._filledcontent())
         return out
 
-    def togroup(**hists):
+    def togroup(self, **hists):
         u"""
         Add histograms to the :py:class:`groupby <histbook.axis.groupby>` that is the first axis.
 
@@ -684,6 +684,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         for x in hists.values():
             if self._group[1:] + self._fixed + self._profile != x._group + x._fixed + x._profile:
                 raise TypeError("histograms can only be grouped with the same axis specifications")
+            if self._shape != x._shape:
+                raise TypeError("histograms can only be grouped with the same weight specifications")
 
         def add(selfcontent, othercontent):
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
@@ -697,11 +699,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
-        for n, x in hists.items():
-            if n in self._content:
-                add(self._content[n], other._content)
-            else:
-                self._content[n] = Hist._copycontent(other._content)
+        self._prefill()
+        add(self._content, dict((n, x._filledcontent()) for n, x in hists.items()))
 
     def tojson(self):
         out = {"type": "Hist", "axis": [x.tojson() for x in self._group + self._fixed + self._profile]}
-- 
2.43.0


From 484915aed7e4c7be5b6891395d8285d12ffda7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:16 +0000
Subject: [PATCH 13/62] fix: restore numeric groupbin keys from JSON text

---
 histbook/hist.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index fc88fe1..9e80db6 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -724,16 +724,20 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     @staticmethod
     def fromjson(obj):
         assert obj["type"] == "Hist"
-        def recurse(node):
+        def recurse(node, group):
             if node is None:
                 return None
             elif isinstance(node, dict):
-                return dict((n, recurse(x)) for n, x in node.items())
+                if isinstance(group[0], histbook.axis.groupbin):
+                    # a text file turns numeric keys into strings
+                    return dict((n if n == "NaN" else float(n), recurse(x, group[1:])) for n, x in node.items())
+                else:
+                    return dict((n, recurse(x, group[1:])) for n, x in node.items())
             else:
                 return numpy.array(node, dtype=Hist.COUNTTYPE)
 
         out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=obj.get("defs", None), attachment=obj.get("attachment", None))
-        out._content = recurse(obj.get("content", None))
+        out._content = recurse(obj.get("content", None), out._group)
         return out
 
     def __getstate__(self):
-- 
2.43.0


From 95876d11b50c16365a1a419c1600b18939cebf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:19 +0000
Subject: [PATCH 14/62] fix: list and select groupbin bins when there is also a
 NaN bin

---
 histbook/axis.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index edb672f..763fd9c 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -500,13 +500,13 @@ class groupbin(GroupAxis, _RebinFactor):
             close = round((value - float(self._origin)) / float(self._binwidth)) * float(self._binwidth) + float(self._origin)
             if abs(value - close) < tolerance:
                 if self._closedlow and cmp == "<":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 elif self._closedlow and cmp == ">=":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == ">":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == "<=":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 else:
                     return None, None, close, True
             else:
@@ -522,7 +522,7 @@ class groupbin(GroupAxis, _RebinFactor):
         """Returns (key, value) pairs of the content."""
         if not isinstance(content, dict):
             raise TypeError("groupbin content must be a dict")
-        return [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(content)]
+        return [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(x for x in content if x != "NaN")] + [IntervalPair((IntervalNaN(), content[n])) for n in content if n == "NaN"]
 
 class bin(FixedAxis, _RebinFactor, _RebinSplit):
     """
-- 
2.43.0


From f26dd936b1111b13e33d7dde229a36da1c8b7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:42 +0000
Subject: [PATCH 15/62] fix: project out group axes with any number of keys

---
 histbook/proj.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index b261211..5e09f23 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -258,22 +258,17 @@ class Projectable(object):
                 return left + right
 
         def addall(values):
-            assert len(values) != 0
-            left = values[:len(values) // 2]
-            right = values[len(values) // 2:]
-            if len(left) == 0:
-                return right
-            elif len(right) == 0:
-                return left
-            elif len(left) == 1 and len(right) == 1:
-                return addany(left[0], right[0])
+            if len(values) == 1:
+                return values[0]
             else:
-                return addall([addall(left)] + [addall(right)])
-            
+                return addany(addall(values[:len(values) // 2]), addall(values[len(values) // 2:]))
+
         def projcontent(j, content):
             if j < len(self._group):
                 if allaxis[j] in axis:
                     return dict((n, projcontent(j + 1, x)) for n, x in content.items())
+                elif len(content) == 0:
+                    return None
                 else:
                     return addall([projcontent(j + 1, x) for x in content.values()])
             else:
-- 
2.43.0


From 0c70dca6930a90636f2e3b27416fc7ef8f88f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:45 +0000
Subject: [PATCH 16/62] fix: keep the right columns when dropping profiles

---
 histbook/proj.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 5e09f23..f9bcd24 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -204,10 +204,11 @@ class Projectable(object):
         for i, prof in enumerate(self._profile):
             if prof not in profile:
                 axis.append(prof)
-                index.append(i)
+                index.append(self._profile[i]._sumwxindex)
+                index.append(self._profile[i]._sumwx2index)
 
         index.append(self._sumwindex)
-        if self._weightoriginal is not None:
+        if self._weightparsed is not None:
             index.append(self._sumw2index)
 
         slc = (slice(None),) * (len(self._shape) - 1) + (index,)
-- 
2.43.0


From a626a8242f7f4081b3b24a40639de8cca70c0184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:48 +0000
Subject: [PATCH 17/62] fix: compute fractions of histograms without profiles

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index f9bcd24..ca998d3 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -674,7 +674,7 @@ class Projectable(object):
                 cutindex.append(self._fixed.index(c))
         cut = [self._fixed[i] for i in cutindex]
 
-        noprofiles = self.drop(*self._profile)
+        noprofiles = self.drop(*self._profile) if len(self._profile) > 0 else self
         denomhist = noprofiles.project(*[x for x in self._group + self._fixed if x not in cut])
         cuthist = []
         for c in cut:
-- 
2.43.0


From bf0273ed73293e1cc16b20600696acc0cdf6d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:51 +0000
Subject: [PATCH 18/62] fix: select group bins with three or more alternatives

---
 histbook/proj.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index ca998d3..a526b14 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -405,17 +405,14 @@ class Projectable(object):
                         elif andslice is None:
                             andslice = slice1
                         else:
-                            slice2 = andslice
-                            andslice = lambda x: slice1(x) and slice2(x)
+                            andslice = lambda x, slice1=slice1, slice2=andslice: slice1(x) and slice2(x)
 
                     if not good:
                         break
                     elif orslice is None:
                         orslice = andslice
                     else:
-                        slice1 = andslice
-                        slice2 = orslice
-                        orslice = lambda x: slice1(x) or slice2(x)
+                        orslice = lambda x, slice1=andslice, slice2=orslice: slice1(x) or slice2(x)
 
                 if good:
                     return axis, axis, orslice, None, None, None
-- 
2.43.0


From 0aa084fbb1eae5e460f30dc1cb70cdf32b31ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:54 +0000
Subject: [PATCH 19/62] fix: selecting group bins copies their content

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index a526b14..b733504 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -459,7 +459,7 @@ class Projectable(object):
 
             if isinstance(allaxis[i], (histbook.axis.groupby, histbook.axis.groupbin)):
                 if allaxis[i] is cutaxis:
-                    return dict((n, x) for n, x in content.items() if cutslice(n))
+                    return self._copycontent(dict((n, x) for n, x in content.items() if cutslice(n)))
                 else:
                     return dict((n, cutcontent(i + 1, x)) for n, x in content.items())
 
-- 
2.43.0


From 3ae9d52593289c6c6e6fc01387a43fd18080e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:29 +0000
Subject: [PATCH 20/62] fix: project out group axes without keys

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index b733504..2270faa 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -269,7 +269,7 @@ class Projectable(object):
                 if allaxis[j] in axis:
                     return dict((n, projcontent(j + 1, x)) for n, x in content.items())
                 elif len(content) == 0:
-                    return None
+                    return {} if any(x in axis for x in self._group[j + 1:]) else numpy.zeros(out._shape, dtype=self.COUNTTYPE)
                 else:
                     return addall([projcontent(j + 1, x) for x in content.values()])
             else:
-- 
2.43.0


From 14bcda1b81945bf04472754dbbb8abd8b6185a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:33 +0000
Subject: [PATCH 21/62] fix: select the NaN bin of a bin or split axis

---
 histbook/axis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 763fd9c..eb8cc9a 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -714,7 +714,8 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._numbins, out._high = 0, out._low
+            out._underflow, out._overflow = False, False
             out._checktot()
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
@@ -1235,7 +1236,8 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._edges = self._edges[:1]
+            out._underflow, out._overflow = False, False
             out._checktot()
             return out, slice(len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0), len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
-- 
2.43.0


From 5810b939633f68a985e02898c342b45190c18815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:36 +0000
Subject: [PATCH 22/62] fix: compare an intbin axis with infinity in select

---
 histbook/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index eb8cc9a..f2d85e8 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -918,28 +918,28 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("-inf") and cmp == ">":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<=":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
             if value + tolerance < self._min:
-- 
2.43.0


From 9bd645bb0c8031439d4283c990f5b6e234cfd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:41 +0000
Subject: [PATCH 23/62] fix: rebin by a factor

---
 histbook/axis.py | 27 +++++++++++++--------------
 histbook/proj.py |  4 ++--
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index f2d85e8..2253732 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -430,7 +430,7 @@ class groupbin(GroupAxis, _RebinFactor):
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
 
-        newaxis = groupbin(self._expr, float(self._binwidth) / float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
+        newaxis = groupbin(self._expr, float(self._binwidth) * float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
         if hasattr(self, "_original"):
             newaxis._original = self._original
         if hasattr(self, "_parsed"):
@@ -444,19 +444,12 @@ class groupbin(GroupAxis, _RebinFactor):
                         out[n] = recurse(j + 1, x)
 
                     else:
-                        index = (n - float(self._origin)) / float(self._binwidth)
-                        if self._closedlow:
-                            index = int(numpy.floor(index))
-                        else:
-                            index = int(numpy.ceil(index)) - 1
-
-                        index = index // int(factor)
-
-                        n = index * float(newindex._binwidth) + float(newaxis._origin)
+                        i = int(round((n - float(self._origin)) / float(self._binwidth))) // int(factor)
+                        n = i * float(newaxis._binwidth) + float(newaxis._origin)
                         if n not in out:
                             out[n] = recurse(j + 1, x)
                         else:
-                            out[n] += recurse(j + 1, x)
+                            out[n] = add(out[n], recurse(j + 1, x))
 
                 return out
                         
@@ -464,7 +457,13 @@ class groupbin(GroupAxis, _RebinFactor):
                 return dict((n, recurse(j + 1, x)) for n, x in content.items())
 
             else:
-                return content
+                return content.copy()
+
+        def add(one, two):
+            if isinstance(one, dict):
+                return dict((n, add(one[n], two[n]) if n in one and n in two else one[n] if n in one else two[n]) for n in list(one) + list(two))
+            else:
+                return one + two
 
         if content is None:
             return newaxis, None
@@ -910,7 +909,7 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
         return self.bin()._rebinsplit(edges, content, index)
 
     def _rebinfactor(self, factor, content, index):
-        return self.bin()._rebinfactor(edges, content, index)
+        return self.bin()._rebinfactor(factor, content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
@@ -1209,7 +1208,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
 
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
-        return self._rebinsplit(self.edges[0:-1:factor] + self.edges[-1], content, index)
+        return self._rebinsplit(self.edges[0:-1:factor] + self.edges[-1:], content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
diff --git a/histbook/proj.py b/histbook/proj.py
index 2270faa..83bc5f4 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -169,9 +169,9 @@ class Projectable(object):
             raise IndexError("no such rebinnable axis: {0}".format(axis))
 
         if isinstance(axis, histbook.axis.GroupAxis):
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index)
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index)
         else:
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index - len(self._group))
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index - len(self._group))
 
         outaxis = [newaxis if i == index else x for i, x in enumerate(self._group + self._fixed + self._profile)]
         out = self.__class__(*outaxis, weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-- 
2.43.0


From 7cc68be5b62ace318723a3211486148af4481f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:01 +0000
Subject: [PATCH 24/62] fix: fill a bin axis of which only the overflow bins
 are left

---
 histbook/calc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 69b3057..3758e4a 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -213,7 +213,7 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
 
     def bin(values, numbins, low, high):
         indexes = values - float(low)
-        numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
+        numpy.multiply(indexes, float(numbins) / float(high - low) if high != low else 1.0, indexes)
 
         if closedlow:
             numpy.floor(indexes, indexes)
-- 
2.43.0


From a2fc9116debaee49e8ce340de92f7cdd4ffe6b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:31 +0000
Subject: [PATCH 25/62] fix: negated boolean fields are negated when filling

---
 histbook/instr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/instr.py b/histbook/instr.py
index 15ab458..0e4b4c5 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -159,7 +159,10 @@ def totree(expr):
 
         return histbook.expr.Call(fcn, left, right)
 
-    if isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
+    if isinstance(expr, histbook.expr.Predicate) and not expr.positive:
+        return histbook.expr.Call("numpy.logical_not", expr.negate())
+
+    elif isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
         return expr
 
     elif isinstance(expr, histbook.expr.Call):
-- 
2.43.0


From 230e1ba706cdfef940b8c0de927aac5fe250f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:35 +0000
Subject: [PATCH 26/62] fix: cancel the right factors of a fraction

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 8b864ea..10ebe2a 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -723,7 +723,7 @@ class RingAlgebraAddLike(RingAlgebra):
             pos, neg = list(x.pos), []
             for y in x.neg:
                 try:
-                    i = x.pos.index(y)
+                    i = pos.index(y)
                 except ValueError:
                     neg.append(y)
                 else:
-- 
2.43.0


From 95e60d88d74a096dbbb23067d3f04a108b70f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:38 +0000
Subject: [PATCH 27/62] fix: fold constants of all operators

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 10ebe2a..3c8ddfa 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -246,7 +246,7 @@ class Expr(object):
                 right = recurse(node.right)
 
                 if isinstance(left, Const) and isinstance(right, Const):
-                    return Const(calculate[fcn](left.value, right.value))
+                    return Const(calculate[fcn if fcn in calculate else op](left.value, right.value))
 
                 if fcn == "+":
                     return PlusMinus.combine(left, right).simplify()
-- 
2.43.0


From 4a0332449f39eab806bdb6aa237a0a36a7fce797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:41 +0000
Subject: [PATCH 28/62] fix: implement all of the functions that expressions
 can use

---
 histbook/calc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 3758e4a..9882134 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -39,6 +39,8 @@ library["numpy.add"] = numpy.add
 library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
+library["numpy.floor_divide"] = numpy.floor_divide
+library["xor"] = numpy.bitwise_xor
 library["numpy.equal"] = numpy.equal
 library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
@@ -94,6 +96,7 @@ library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
 library["rint"] = numpy.rint
+library["round"] = numpy.round
 library["sign"] = numpy.sign
 library["sinh"] = numpy.sinh
 library["sin"] = numpy.sin
-- 
2.43.0


From 7fde4fbdf06c69f707e6db3f12b87a702d66c09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:44 +0000
Subject: [PATCH 29/62] fix: compare values with the members of a set, not the
 set itself

---
 histbook/calc/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 9882134..bdc8989 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -46,9 +46,10 @@ library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
 library["numpy.less_equal"] = numpy.less_equal
 try:
-    library["numpy.isin"] = numpy.isin
+    isin = numpy.isin
 except AttributeError:
-    library["numpy.isin"] = numpy.in1d
+    isin = numpy.in1d
+library["numpy.isin"] = lambda values, collection: isin(values, list(collection))
 library["numpy.logical_or"] = numpy.logical_or
 library["numpy.logical_and"] = numpy.logical_and
 library["numpy.logical_not"] = numpy.logical_not
-- 
2.43.0


From b98cd680c9aa65ed84a033f7f869f733229c2ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:48 +0000
Subject: [PATCH 30/62] fix: expressions never overwrite the arrays they are
 given

---
 histbook/calc/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index bdc8989..ba115a7 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -28,6 +28,8 @@
 # OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import functools
+
 import histbook.expr
 
 import numpy
@@ -91,8 +93,8 @@ library["log2"] = numpy.log2
 library["logaddexp2"] = numpy.logaddexp2
 library["logaddexp"] = numpy.logaddexp
 library["log"] = numpy.log
-library["max"] = numpy.maximum;           library["fmax"] = numpy.maximum
-library["min"] = numpy.minimum;           library["fmin"] = numpy.minimum
+library["max"] = lambda *args: functools.reduce(numpy.maximum, args);  library["fmax"] = numpy.maximum
+library["min"] = lambda *args: functools.reduce(numpy.minimum, args);  library["fmin"] = numpy.minimum
 library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
@@ -359,7 +361,10 @@ def calculate(expr, symbols):
         return expr.value
 
     elif isinstance(expr, histbook.expr.Call) and expr.fcn in library:
-        return library[expr.fcn](*(calculate(arg, symbols) for arg in expr.args))
+        fcn = library[expr.fcn]
+        if isinstance(fcn, numpy.ufunc) and len(expr.args) != fcn.nin:    # another argument would be overwritten as output
+            raise TypeError("function {0} takes {1} arguments, not {2}".format(repr(expr.fcn), fcn.nin, len(expr.args)))
+        return fcn(*(calculate(arg, symbols) for arg in expr.args))
             
     else:
         raise AssertionError(repr(expr))
-- 
2.43.0


From 05628eccaf5a0b8861f4c3ea8de12dbaf48e6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:51 +0000
Subject: [PATCH 31/62] fix: order broadcast constants by name

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 3c8ddfa..ff5f9d1 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -579,7 +579,7 @@ class BroadcastConst(Name):
                     else:
                         return type(self.value).__name__ < type(other.value).__name__
                 else:
-                    self.name < other.name
+                    return self.name < other.name
             else:
                 return type(self.name).__name__ < type(other.name).__name__
         else:
-- 
2.43.0


From 20323c35dba9d394e7516589561a4e8ae03c824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:54 +0000
Subject: [PATCH 32/62] fix: report expressions that can't be handled

---
 histbook/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index ff5f9d1..a8bd6bf 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -223,7 +223,7 @@ class Expr(object):
                 if isinstance(content, Const):
                     return Const(~content.value)
                 else:
-                    return BitAnd.negate(content).simplify()
+                    raise NotImplementedError
 
             elif isinstance(node, ast.UnaryOp):
                 raise ExpressionError("only unary operators supported: 'not', '-', '+', and '~': {0}".format(histbook.util.astunparse.tostring(node).strip()))
@@ -306,7 +306,7 @@ class Expr(object):
             elif isinstance(node, ast.Call):
                 fcn = Expr.recognized.get(resolve(node.func), None)
 
-                if fcn is None and node.func.id in Expr.recognized.values():
+                if fcn is None and isinstance(node.func, ast.Name) and node.func.id in Expr.recognized.values():
                     fcn = node.func.id
 
                 elif fcn is not None:
@@ -321,7 +321,7 @@ class Expr(object):
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
-                ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+                raise ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
         return recurse(pyast, relations=True)
         
-- 
2.43.0


From 90acf8fceeb314c5542a5e521adf8d13e1e14e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 33/62] fix: list each field once and no constants among the
 fields

---
 histbook/fill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/fill.py b/histbook/fill.py
index 2b67ecd..853abec 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -54,7 +54,7 @@ class Fillable(object):
             fields = histbook.instr.sources(goals, table)
 
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(x.goal.value for x in fields)
+            self._fields = sorted(set(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst)))
 
         return self._fields
 
-- 
2.43.0


From df32a39e5eccf4c059f852767113b3d2fd4955d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:00 +0000
Subject: [PATCH 34/62] fix: evaluate function calls without any fields

---
 histbook/fill.py  | 5 +++--
 histbook/instr.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/histbook/fill.py b/histbook/fill.py
index 853abec..343a43f 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -54,7 +54,7 @@ class Fillable(object):
             fields = histbook.instr.sources(goals, table)
 
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(set(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst)))
+            self._fields = sorted(set(x.goal.value for x in fields if not isinstance(x.goal, (histbook.expr.BroadcastConst, histbook.expr.Call))))
 
         return self._fields
 
@@ -146,7 +146,8 @@ class Fillable(object):
                 symbols[instruction.name] = array
 
             elif isinstance(instruction, histbook.instr.Assign):
-                symbols[instruction.name] = histbook.calc.calculate(instruction.expr, symbols)
+                result = histbook.calc.calculate(instruction.expr, symbols)
+                symbols[instruction.name] = full(length, result) if isinstance(result, numpy.generic) else result
 
             elif isinstance(instruction, histbook.instr.Export):
                 data = symbols[instruction.name]
diff --git a/histbook/instr.py b/histbook/instr.py
index 0e4b4c5..c23e496 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -105,7 +105,7 @@ class CallGraphNode(object):
                 if not isinstance(arg, histbook.expr.Const):
                     node = table[CallGraphNode(arg)]
                     out.update(node.sources(table))
-            return out
+            return out if len(self.requires) > 0 else set([self])
 
         else:
             raise NotImplementedError
-- 
2.43.0


From 82bbace225979c22f977e93e402dcea060c53a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:11 +0000
Subject: [PATCH 35/62] fix: sums of books don't share histograms with their
 operands

---
 histbook/book.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 5dac947..b0c189e 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -445,10 +445,10 @@ class GenericBook(collections.MutableMapping):
             if n in other:
                 content[n] = x + other[n]
             else:
-                content[n] = x
+                content[n] = x.copy()
         for n, x in other.iteritems():
             if n not in self:
-                content[n] = x
+                content[n] = x.copy()
 
         attachment = dict(self._attachment)
         attachment.update(other._attachment)
@@ -460,7 +460,7 @@ class GenericBook(collections.MutableMapping):
         
         for n, x in other.iteritems():
             if n not in self:
-                self[n] = x
+                self[n] = x.copy()
             else:
                 self[n] += x
         return self
-- 
2.43.0


From 927c09df7aff59185cc55ef130dc0d1f54ad455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:14 +0000
Subject: [PATCH 36/62] fix: delete only what matches a wildcard

---
 histbook/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index b0c189e..fb94b54 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -282,7 +282,8 @@ class GenericBook(collections.MutableMapping):
 
         if "*" in name or "?" in name or "[" in name:
             for n in self.allkeys():
-                self._del(n, "")
+                if fnmatch.fnmatchcase(n, name) and self._get(n) is not None:
+                    self._del(n, "")
         else:
             self._del(name, "")
 
-- 
2.43.0


From 242606bb25452adae7bc5fa40dec885ab53ef24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:17 +0000
Subject: [PATCH 37/62] fix: notice changes of nested books when filling

---
 histbook/book.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index fb94b54..1073497 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -528,7 +528,17 @@ class Book(GenericBook, histbook.fill.Fillable):
 
     @property
     def _goals(self):
-        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)))
+        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
+
+    @property
+    def fields(self):
+        """Names of fields that must be provided in the ``fill`` method."""
+        if self._fields is not None:
+            # nested books and their histograms may have been replaced without calling our _changed
+            hists = list(self.itervalues(recursive=True, onlyhist=True))
+            if len(hists) != len(self._destination) or any(x._destination[0] is not y for x, y in zip(hists, self._destination)):
+                self._fields = None
+        return super(Book, self).fields
 
     def _streamline(self, i, instructions):
         self._destination = []
-- 
2.43.0


From 93de6013cf2dc4780894e67d3a64b8424854c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:20 +0000
Subject: [PATCH 38/62] fix: make SystematicsBook fillable

---
 histbook/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/book.py b/histbook/book.py
index 1073497..bba2845 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -648,6 +648,7 @@ class SystematicsBook(Book):
         return super(SystematicsBook, self).__str__(indent=indent, first=first)
 
     def _changed(self):
+        super(SystematicsBook, self)._changed()
         self.assertcompatible()
         if not all(x.has("systematic") for x in self.itervalues(recursive=True, onlyhist=True)):
             raise ValueError("all histograms in a SystematicsBook must have a 'systematic' attachment")
-- 
2.43.0


From 5d24feb916a574a4d19af93f524415d87b228a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:23 +0000
Subject: [PATCH 39/62] fix: import threading, which filling a book from Spark
 needs

---
 histbook/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/book.py b/histbook/book.py
index bba2845..534457d 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -32,6 +32,7 @@ import collections
 import fnmatch
 import functools
 import sys
+import threading
 
 import numpy
 
-- 
2.43.0


From 5e7af1dbc3f676659b4f00873f5419e448fe4845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:19 +0000
Subject: [PATCH 40/62] fix: normalize tables of histograms with group axes or
 several split axes

---
 histbook/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 83bc5f4..271e63c 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -545,11 +545,11 @@ class Projectable(object):
             for axis in self._group:
                 if isinstance(axis, histbook.axis.groupbin):
                     groupbins *= axis.binwidth
-            binwidths[tuple(axis.finiteslice for axis in self._group + self._fixed)] = groupbins
+            binwidths[tuple(axis.finiteslice for axis in self._fixed)] = groupbins
 
             for i, axis in enumerate(self._fixed):
                 if callable(axis.binwidth):
-                    binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)])
+                    binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)]).reshape((-1,) + (1,) * (len(self._fixed) - 1 - i))
                 else:
                     binwidth = axis.binwidth
 
-- 
2.43.0


From e977dd314696bbe08be39ba86475623b1089f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:52 +0000
Subject: [PATCH 41/62] fix: list the group keys of a histogram that has not
 been filled

---
 histbook/hist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 9e80db6..334870e 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -799,7 +799,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             if x == axis:
                 break
         else:
-            raise IndexError("no such groupby/groupbin axis: {0}".format(x))
+            raise IndexError("no such groupby/groupbin axis: {0}".format(axis))
 
         out = set()
         def recurse(j, content):
@@ -809,5 +809,5 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 for x in content.values():
                     recurse(j + 1, x)
         
-        recurse(0, self._content)
+        recurse(0, self._filledcontent())
         return out
-- 
2.43.0


From adb9a4072d542cca02ab8ba46ab883677a6a774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:55 +0000
Subject: [PATCH 42/62] fix: rebin and drop axes by index position, as
 documented

---
 histbook/proj.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 271e63c..7f63c69 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -110,7 +110,9 @@ class Projectable(object):
         :py:class:`Hist <histbook.hist.Hist>`
             a rebinned histogram.
         """
-        if not isinstance(axis, histbook.axis.Axis):
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
+        elif not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
                 if isinstance(x, histbook.axis._RebinSplit) and expr == x._parsed:
@@ -154,7 +156,9 @@ class Projectable(object):
         if not isinstance(factor, (numbers.Integral, numpy.integer)) or factor <= 0:
             raise TypeError("factor must be a positive integer")
 
-        if not isinstance(axis, histbook.axis.Axis):
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
+        elif not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
                 if isinstance(x, histbook.axis._RebinFactor) and expr == x._parsed:
@@ -194,7 +198,7 @@ class Projectable(object):
         """
         if len(profile) == 0:
             raise IndexError("no profile axis given")
-        profile = [x if isinstance(x, histbook.axis.Axis) else self.axis.profile(x) for x in profile]
+        profile = [x if isinstance(x, histbook.axis.Axis) else self.axis[x] if isinstance(x, (numbers.Integral, numpy.integer)) else self.axis.profile(x) for x in profile]
         for prof in profile:
             if prof not in self._profile:
                 raise IndexError("no such profile axis: {0}".format(prof))
-- 
2.43.0


From ffcd2d49e67f9d64fd08e25b621e779586a60112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:50 +0000
Subject: [PATCH 43/62] fix: keep the product of the constants when multiplying
 sums

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index a8bd6bf..4f06228 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -789,7 +789,7 @@ class RingAlgebraAddLike(RingAlgebra):
         pos += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.neg)]
         neg += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.pos)]
 
-        return op.collect(op(op.identity, tuple(pos), tuple(neg)))
+        return op.collect(op(op.subop.calcval(left.const, right.const), tuple(pos), tuple(neg)))
 
     def simplify(self):
         out = self.__class__(self.const, self.pos, self.neg)
-- 
2.43.0


From e0db619c803d2ca84ba61bac203ec9bcfb50bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:00 +0000
Subject: [PATCH 44/62] fix: a rejected fill leaves an unfilled histogram
 unfilled

---
 histbook/book.py | 2 +-
 histbook/hist.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 534457d..3687663 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -590,9 +590,9 @@ class Book(GenericBook, histbook.fill.Fillable):
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
+            length = self._fill(arrays)
             for x in self.itervalues(recursive=True, onlyhist=True):
                 x._prefill()
-            length = self._fill(arrays)
             for x in self.itervalues(recursive=True, onlyhist=True):
                 x._postfill(arrays, length)
 
diff --git a/histbook/hist.py b/histbook/hist.py
index 334870e..2459647 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -376,8 +376,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
-            self._prefill()
             length = self._fill(arrays)
+            self._prefill()
             self._postfill(arrays, length)
 
     def _prefill(self):
-- 
2.43.0


From f79f54a333f5228b237c4bc1437351ef984ed056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:03 +0000
Subject: [PATCH 45/62] fix: refuse keyword arguments in expressions instead of
 ignoring them

---
 histbook/expr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/expr.py b/histbook/expr.py
index 4f06228..f94c771 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -318,6 +318,9 @@ class Expr(object):
                 if fcn is None:
                     raise ExpressionError("unhandled function in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
+                if len(node.keywords) != 0:
+                    raise ExpressionError("functions in expressions don't take keyword arguments: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
-- 
2.43.0


From 0005a7ce00a40d7593aa1cefebedca1144b60ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:10 +0000
Subject: [PATCH 46/62] fix: error messages about expressions that contain
 constants

---
 histbook/util/astunparse.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/histbook/util/astunparse.py b/histbook/util/astunparse.py
index 63c6b2d..4e017b1 100644
--- a/histbook/util/astunparse.py
+++ b/histbook/util/astunparse.py
@@ -509,6 +509,14 @@ class Unparser(object):
         self._generic_With(t, async_=True)
 
     # expr
+    def _Constant(self, t):
+        if isinstance(t.value, (float, complex)):
+            self.write(repr(t.value).replace("inf", INFSTR))
+        elif t.value is Ellipsis:
+            self.write("...")
+        else:
+            self.write(repr(t.value))
+
     def _Bytes(self, t):
         self.write(repr(t.s))
 
-- 
2.43.0


From 5968f82acf2dd028418444235b64ff7561c37aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:04 +0000
Subject: [PATCH 47/62] fix: number of sigmas in fraction errors when scipy is
 not installed

---
 histbook/proj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 7f63c69..92ce4a4 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -708,7 +708,10 @@ class Projectable(object):
                 a7 = math.pi**3 * 127.0/40320.0
                 a9 = math.pi**4 * 4369.0/5806080.0
                 a11 = math.pi**5 * 34807.0/182476800.0
-                return 0.5*math.sqrt(math.pi)*(level + a3*level**3 + a5*level**5 + a7*level**7 + a9*level**9 + a11*level**11)
+                out = 0.5*math.sqrt(math.pi)*(level + a3*level**3 + a5*level**5 + a7*level**7 + a9*level**9 + a11*level**11)
+                for i in range(20):         # the series is only a starting point for Newton's method
+                    out -= 0.5*math.sqrt(math.pi)*(math.erf(out) - level)*math.exp(out**2)
+                return out * math.sqrt(2)
             else:
                 return float(erfinv(level) * math.sqrt(2))
 
-- 
2.43.0


From 1e3e7174afeadf5a945128ce3d2925524ea0d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 48/62] fix: heatmap with an integer axis on the vertical axis

---
 histbook/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 8b37bbe..eaed06f 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -834,7 +834,7 @@ class Plotable2d(PlotableFrontends):
             ybin = {"extent": [self._last.yaxis.low, self._last.yaxis.high], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.intbin):
             ytype = "quantitative"
-            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.may + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
+            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.max + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.split):
             raise NotImplementedError("Vega-Lite doesn't support heatmaps of explicit axis splitting (yet?)")
         else:
-- 
2.43.0


From 688f54afa20c5358447bc20dddabc6d51bed4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:43 +0000
Subject: [PATCH 49/62] fix: error bars of plots whose horizontal axis has
 labels

---
 histbook/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index eaed06f..7d9c150 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -707,7 +707,7 @@ class Plotable1d(PlotableFrontends):
             else:
                 errx = varname + str(axis.index(self._last.axis))
 
-            encoding2 = {"x": {"field": errx, "type": "quantitative"},
+            encoding2 = {"x": {"field": errx, "type": xtype},
                          "y": {"field": "error-down", "type": "quantitative"},
                          "y2": {"field": "error-up", "type": "quantitative"}}
 
-- 
2.43.0


From 2feb228d1944b539ebb41568591e94c2818f0854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:47 +0000
Subject: [PATCH 50/62] fix: plots with error bars beside or below others drew
 the others' data

---
 histbook/vega.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 7d9c150..8dc7fa1 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -1040,7 +1040,7 @@ class beside(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1081,7 +1081,7 @@ class below(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1123,7 +1123,7 @@ class grid(Combination):
                     tofill[-1]["hconcat"].append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
 
                 else:
-                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
 
                 i += 1
 
-- 
2.43.0


From 748f904486b21ecc457e87fd92e420da92b3c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 51/62] fix: colors and stacking order of overlaid or stacked
 cut and intbin axes

---
 histbook/vega.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 8dc7fa1..5e5fd7b 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -36,6 +36,12 @@ import numpy
 
 import histbook.axis
 
+def _label(key):
+    if isinstance(key, (bool, numpy.bool_)):
+        return "pass" if key else "fail"
+    else:
+        return str(key)
+
 class Channel(object):
     """Abstract class for graphical channels in a Vega-Lite plot."""
 
@@ -558,13 +564,13 @@ class Plotable1d(PlotableFrontends):
 
             else:
                 axis = projectedorder[j]
-                if axis not in domains:
-                    domains[axis] = set()
-                domains[axis].update(axis.keys(content))
+                domain = domains.setdefault(axis, set())
 
                 if isinstance(axis, histbook.axis.intbin):
                     axis = axis.bin()
 
+                domain.update(axis.keys(content))
+
                 for i, (n, x) in enumerate(axis.items(content)):
                     if isinstance(n, histbook.axis.Interval):
                         if j == lastj and xtype == "quantitative":
@@ -587,11 +593,8 @@ class Plotable1d(PlotableFrontends):
                         else:
                             recurse(j + 1, x, row + (str(n),), base)
 
-                    elif isinstance(n, (bool, numpy.bool_, numpy.bool)):
-                        recurse(j + 1, x, row + ("pass" if n else "fail",), base)
-
                     else:
-                        recurse(j + 1, x, row + (str(n),), base)
+                        recurse(j + 1, x, row + (_label(n),), base)
 
         recurse(0, table, (), False)
         if error and baseline:
@@ -653,12 +656,12 @@ class Plotable1d(PlotableFrontends):
                     "y": {"field": varname + str(len(axis)), "type": "quantitative", "axis": {"title": ytitle}}}
         for channel in self._chain[:-1]:
             if isinstance(channel, OverlayChannel):
-                overlayorder = [str(x) for x in sorted(domains[channel.axis])]
+                overlayorder = [_label(x) for x in sorted(domains[channel.axis])]
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": overlayorder}}
 
             elif isinstance(channel, StackChannel):
                 if channel.order is None:
-                    stackorder = [str(x) for x in sorted(domains[channel.axis])]
+                    stackorder = [_label(x) for x in sorted(domains[channel.axis])]
                 else:
                     stackorder = channel.order
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": list(reversed(stackorder))}}
@@ -792,13 +795,13 @@ class Plotable2d(PlotableFrontends):
 
             else:
                 axis = projectedorder[j]
-                if axis not in domains:
-                    domains[axis] = set()
-                domains[axis].update(axis.keys(content))
+                domain = domains.setdefault(axis, set())
 
                 if isinstance(axis, histbook.axis.intbin):
                     axis = axis.bin()
 
+                domain.update(axis.keys(content))
+
                 for i, (n, x) in enumerate(axis.items(content)):
                     if isinstance(n, histbook.axis.Interval):
                         if j in lastj:
@@ -807,11 +810,8 @@ class Plotable2d(PlotableFrontends):
                         else:
                             recurse(j + 1, x, row + (str(n),))
 
-                    elif isinstance(n, (bool, numpy.bool_, numpy.bool)):
-                        recurse(j + 1, x, row + ("pass" if n else "fail",))
-
                     else:
-                        recurse(j + 1, x, row + (str(n),))
+                        recurse(j + 1, x, row + (_label(n),))
 
         recurse(0, table, ())
         return projectedorder, data, domains
-- 
2.43.0


From 10f698f4138abefb5ad119d5d8a1bac3b9278e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:56 +0000
Subject: [PATCH 52/62] fix: intbin axes misplaced integers near the limits of
 their type

---
 histbook/calc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index ba115a7..c7e272f 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -269,7 +269,7 @@ def histbook_intbin(underflow, overflow):
         shift = 0
 
     def intbin(values, min, max):
-        shifted = numpy.clip(numpy.floor(values + (shift - min)), -1, shift + 1 + max - min)   # before casting: INDEXTYPE can't represent very large values
+        shifted = numpy.clip(numpy.floor(values + float(shift - min)), -1, shift + 1 + max - min)   # before casting: INDEXTYPE can't represent very large values
         indexes = numpy.ma.array(shifted, dtype=INDEXTYPE)
 
         if underflow:
-- 
2.43.0


From adf28b1057c11574ba098b935e016e83b7aab941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:00 +0000
Subject: [PATCH 53/62] fix: expressions of small integer fields wrapped around

---
 histbook/fill.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/fill.py b/histbook/fill.py
index 343a43f..e77f114 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -139,6 +139,8 @@ class Fillable(object):
                     array = numpy.array(array)
                 if array.shape == ():
                     array = full(length, array)
+                if array.dtype.kind in "iu" and array.dtype.itemsize < 8:
+                    array = array.astype(numpy.int64)     # small integer types would wrap around in expressions
 
                 if length != array.shape[0]:
                     raise ValueError("array {0} has len {1} but other arrays have len {2}".format(repr(str(instruction.extern)), len(array), length))
-- 
2.43.0


From 607980707ab13bbaa83c43a237d02966ad505794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:04 +0000
Subject: [PATCH 54/62] fix: sums of squares of integer profiles and weights
 wrapped around

---
 histbook/axis.py          |  2 +-
 histbook/calc/__init__.py |  1 +
 histbook/hist.py          | 10 +++++-----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 2253732..21b6a66 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -1465,7 +1465,7 @@ class profile(ProfileAxis):
         if isinstance(parsed, histbook.expr.Const):
             parsed = histbook.expr.BroadcastConst(None, parsed.value)
         return [histbook.instr.CallGraphGoal(parsed),
-                histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", parsed, parsed))]
+                histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", parsed))]
 
     def __eq__(self, other):
         return self.__class__ is other.__class__ and self._expr == other._expr
diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index c7e272f..b94b060 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -40,6 +40,7 @@ library = {}
 library["numpy.add"] = numpy.add
 library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
+library["histbook.square"] = lambda values: numpy.square(values, dtype=numpy.float64)   # squares of integers would wrap around
 library["numpy.true_divide"] = numpy.true_divide
 library["numpy.floor_divide"] = numpy.floor_divide
 library["xor"] = numpy.bitwise_xor
diff --git a/histbook/hist.py b/histbook/hist.py
index 2459647..9ec5079 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -230,7 +230,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._sumw2index = self._shape[-1] + 1
             self._shape[-1] += 2
             dest([histbook.instr.CallGraphGoal(self._weightparsed),
-                  histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", self._weightparsed, self._weightparsed))])
+                  histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", self._weightparsed))])
 
         elif self._filteroriginal is None:
             self._weightoriginal = weight
@@ -242,7 +242,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._sumw2index = self._shape[-1] + 1
             self._shape[-1] += 2
             dest([histbook.instr.CallGraphGoal(self._weightparsed),
-                  histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", self._weightparsed, self._weightparsed))])
+                  histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", self._weightparsed))])
 
         else:
             self._weightoriginal = weight
@@ -253,7 +253,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._sumw2index = self._shape[-1] + 1
             self._shape[-1] += 2
             dest([histbook.instr.CallGraphGoal(self._weightparsed),
-                  histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", self._weightparsed, self._weightparsed))])
+                  histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", self._weightparsed))])
 
         self._group = tuple(self._group)
         self._fixed = tuple(self._fixed)
@@ -442,8 +442,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     weight2 = weight2[selection]
 
             for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumx * weight)
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * weight)
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), numpy.multiply(sumx, weight, dtype=numpy.float64))
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), numpy.multiply(sumx2, weight, dtype=numpy.float64))
 
             if weight2 is None:
                 if indexes is None:
-- 
2.43.0


From a606cd7c1e69e0cd90ccd89593ac308184ecdb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:05 +0000
Subject: [PATCH 55/62] fix: sums and differences of boolean fields

---
 histbook/calc/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index b94b060..ee0a5dd 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -37,8 +37,12 @@ INDEXTYPE = numpy.int32
 
 library = {}
 
-library["numpy.add"] = numpy.add
-library["numpy.subtract"] = numpy.subtract
+def number(values):
+    # numpy adds booleans with a logical "or" and refuses to subtract them
+    return values.astype(numpy.int64) if isinstance(values, (numpy.ndarray, numpy.generic)) and values.dtype.kind == "b" else values
+
+library["numpy.add"] = lambda left, right: numpy.add(number(left), number(right))
+library["numpy.subtract"] = lambda left, right: numpy.subtract(number(left), number(right))
 library["numpy.multiply"] = numpy.multiply
 library["histbook.square"] = lambda values: numpy.square(values, dtype=numpy.float64)   # squares of integers would wrap around
 library["numpy.true_divide"] = numpy.true_divide
-- 
2.43.0


From b9e379e4a0b021c54288e1be0160c791d62168bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:43 +0000
Subject: [PATCH 56/62] fix: fields of 16- and 32-bit floating point numbers
 are binned and evaluated in full precision

---
 histbook/fill.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/fill.py b/histbook/fill.py
index e77f114..43fe8b1 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -141,6 +141,8 @@ class Fillable(object):
                     array = full(length, array)
                 if array.dtype.kind in "iu" and array.dtype.itemsize < 8:
                     array = array.astype(numpy.int64)     # small integer types would wrap around in expressions
+                elif array.dtype.kind == "f" and array.dtype.itemsize < 8:
+                    array = array.astype(numpy.float64)   # small floating point types would round bin edges and overflow
 
                 if length != array.shape[0]:
                     raise ValueError("array {0} has len {1} but other arrays have len {2}".format(repr(str(instruction.extern)), len(array), length))
-- 
2.43.0


From 87188988eaad415b2b83ac398c3abf0f582222d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:43 +0000
Subject: [PATCH 57/62] fix: integer fields with negative or large powers

---
 histbook/calc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index ee0a5dd..b29e242 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -100,7 +100,7 @@ library["logaddexp"] = numpy.logaddexp
 library["log"] = numpy.log
 library["max"] = lambda *args: functools.reduce(numpy.maximum, args);  library["fmax"] = numpy.maximum
 library["min"] = lambda *args: functools.reduce(numpy.minimum, args);  library["fmin"] = numpy.minimum
-library["pow"] = numpy.power
+library["pow"] = lambda left, right: numpy.power(left, right, dtype=numpy.float64)   # integers overflow and have no negative powers
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
 library["rint"] = numpy.rint
-- 
2.43.0


From 165f2c1ddf79c92871350ff9390453188be370a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:43 +0000
Subject: [PATCH 58/62] fix: pandas() of a groupbin axis with NaN entries

---
 histbook/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/export.py b/histbook/export.py
index fe38c83..26dc470 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -89,7 +89,7 @@ class Exportable(object):
 
                 elif isinstance(axis, histbook.axis.groupbin):
                     closed = "left" if axis.closedlow else "right"
-                    for n in sorted(content):
+                    for n in sorted(content, key=lambda n: (1, 0.0) if n == "NaN" else (0, n)):
                         if n == "NaN":
                             index(j + 1, content[n], key + ("{NaN}",))
                         else:
-- 
2.43.0


From ef3b5da3961a928fb6259620a1a9213f9a627177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:43 +0000
Subject: [PATCH 59/62] fix: pandas() of cuts in a histogram without other
 fixed axes had no values

---
 histbook/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/export.py b/histbook/export.py
index 26dc470..1a95119 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -73,7 +73,7 @@ class Exportable(object):
 
         def index(j, content, key):
             if j == len(allaxis):
-                if len(self._fixed) == 0:
+                if not any(isinstance(x, histbook.axis.FixedAxis) for x in allaxis):
                     arrays.append(numpy.array([content]))
 
                 for j, k in enumerate(key):
-- 
2.43.0


From e1fbd2d20f58eb0c6df793427e02352ff6632ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:43 +0000
Subject: [PATCH 60/62] fix: pandas() of an empty histogram keeps the names of
 the index levels

---
 histbook/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index 1a95119..12ffd92 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -67,7 +67,7 @@ class Exportable(object):
         else:
             raise TypeError("selected axis must be all profiles (for table) or all cuts (for fraction)")
 
-        names = [None for x in allaxis]
+        names = [str(x.expr) for x in allaxis]
         arrays = []
         keys = [[] for x in allaxis]
 
@@ -81,7 +81,6 @@ class Exportable(object):
 
             else:
                 axis = allaxis[j]
-                names[j] = str(axis.expr)
 
                 if isinstance(axis, histbook.axis.groupby):
                     for n in sorted(content):
-- 
2.43.0


From 54cdcdbe08b8f487e89cb883719ac94dbbe0e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:43 +0000
Subject: [PATCH 61/62] fix: pandas() of a histogram without axes

---
 histbook/export.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index 12ffd92..b5ed3f6 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -145,14 +145,18 @@ class Exportable(object):
 
         index(0, content, ())
 
+        if len(allaxis) == 0:
+            rows = None
+        else:
+            rows = pd.MultiIndex.from_arrays(keys, names=names)
+
         if len(arrays) == 0:
-            return pd.DataFrame(index=pd.MultiIndex.from_arrays(keys, names=names),
-                                columns=columns)
+            return pd.DataFrame(index=rows, columns=columns)
         else:
             arrays = numpy.concatenate(arrays)
-            return pd.DataFrame(index=pd.MultiIndex.from_arrays(keys, names=names),
+            return pd.DataFrame(index=rows,
                                 columns=arrays.dtype.names,
-                                data=arrays.view(arrays.dtype[arrays.dtype.names[0]]).reshape(len(keys[0]), -1))
+                                data=arrays.view(arrays.dtype[arrays.dtype.names[0]]).reshape(-1, len(arrays.dtype.names)))
 
     def root(self, *axis, **opts):
         """
-- 
2.43.0


From 35bf9f16440c1d202e96277f8a7edab35b006909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:43 +0000
Subject: [PATCH 62/62] fix: root() of a split axis has the edges of its bins

---
 histbook/export.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index b5ed3f6..23d6c5e 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -255,9 +255,13 @@ class Exportable(object):
 
         elif len(binaxis) == 1:
             xaxis = binaxis[0]
+            if isinstance(xaxis, histbook.axis.split):
+                binning = (xaxis.numbins, numpy.array(xaxis.edges, dtype=numpy.float64))
+            else:
+                binning = (xaxis.numbins, xaxis.low, xaxis.high)
 
             if profile is None:
-                out = ROOT.TH1D(name, title, xaxis.numbins, xaxis.low, xaxis.high)
+                out = ROOT.TH1D(name, title, *binning)
 
                 entries = numpy.zeros(xaxis.numbins + 2, dtype=numpy.float64)
                 entries[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content["count()"][: (-1 if xaxis.nanflow else None)]
@@ -270,7 +274,7 @@ class Exportable(object):
                     out.SetError(errors)
 
             else:
-                out = ROOT.TProfile(name, title, xaxis.numbins, xaxis.low, xaxis.high)
+                out = ROOT.TProfile(name, title, *binning)
 
                 entries = numpy.zeros(xaxis.numbins + 2, dtype=numpy.float64)
                 entries[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content[content.dtype.names[0]][: (-1 if xaxis.nanflow else None)]
-- 
2.43.0

