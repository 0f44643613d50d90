From 52babfc7c43b2ed0dc5141d7ee0563ddcb0db9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:04 +0000
Subject: [PATCH 01/41] fix: make != the negation of == on containers

---
 xigt/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 9557ff4..ce9d7e3 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -47,6 +47,10 @@ class XigtContainerMixin(list):
         except AttributeError:
             return False
 
+    def __ne__(self, other):
+        # list.__ne__ would only compare the contained objects
+        return not self == other
+
     def __getitem__(self, obj_id):
         if isinstance(obj_id, (int, slice)):
             return list.__getitem__(self, obj_id)
-- 
2.43.0


From 9ad1438202f7772ec0c5fdbad0148c77825f5d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 02/41] fix: don't adopt an object whose insertion is rejected

---
 xigt/mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index ce9d7e3..9a8fdae 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -106,14 +106,14 @@ class XigtContainerMixin(list):
 
     def append(self, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.append(self, obj)
 
     def insert(self, i, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.insert(self, i, obj)
 
     def extend(self, objs):
-- 
2.43.0


From c9c195999cf36db274aad09997129bf8faebda41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 03/41] fix: keep the id index intact when remove() fails

---
 xigt/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 9a8fdae..1ebe27e 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -122,9 +122,9 @@ class XigtContainerMixin(list):
 
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
+        list.remove(self, obj)
         if obj.id is not None:
             del self._dict[obj.id]
-        list.remove(self, obj)
 
     def clear(self):
         self._dict.clear()
-- 
2.43.0


From 5a4314c9c8a65261b53a337f766a666426d2cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:07 +0000
Subject: [PATCH 04/41] fix: check for duplicate ids before item assignment,
 and set the parent

---
 xigt/mixins.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 1ebe27e..cfb2a03 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -72,9 +72,13 @@ class XigtContainerMixin(list):
         except TypeError:
             idx = int(idx)
             cur_obj = list.__getitem__(self, idx)
-        if cur_obj.id is not None:
-            del self._dict[cur_obj.id]
-        self._create_id_mapping(obj)
+        if obj.id is None or obj.id != cur_obj.id:
+            self._create_id_mapping(obj)
+            if cur_obj.id is not None:
+                del self._dict[cur_obj.id]
+        else:
+            self._dict[obj.id] = obj
+        obj._parent = self._container
         list.__setitem__(self, idx, obj)
 
     def __delitem__(self, obj_id):
-- 
2.43.0


From e2b4257d2f2f5920e14f6028436de3926695825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:09 +0000
Subject: [PATCH 05/41] fix: make del remove the selected object and not the
 first equal one

---
 xigt/mixins.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index cfb2a03..d6cb42a 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -84,7 +84,12 @@ class XigtContainerMixin(list):
     def __delitem__(self, obj_id):
         # NOTE: this method is destructive. check for broken refs here?
         obj = self[obj_id]
-        self.remove(obj)
+        # find by identity; remove() would delete the first equal object
+        objs = list(list.__iter__(self))
+        idx = next(i for i, x in enumerate(objs) if x is obj)
+        list.__delitem__(self, idx)
+        if obj.id is not None:
+            del self._dict[obj.id]
 
     def get(self, obj_id, default=None):
         try:
-- 
2.43.0


From b3770b1df8e21ca9e584f4b993c3814f147a895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 06/41] fix: keep the id index up to date in pop()

---
 xigt/mixins.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index d6cb42a..13a4715 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -135,6 +135,13 @@ class XigtContainerMixin(list):
         if obj.id is not None:
             del self._dict[obj.id]
 
+    def pop(self, i=-1):
+        # NOTE: this method is destructive. check for broken refs here?
+        obj = list.pop(self, i)
+        if obj.id is not None:
+            del self._dict[obj.id]
+        return obj
+
     def clear(self):
         self._dict.clear()
         # list.clear doesn't exist in Python2
-- 
2.43.0


From f62c95ad13e68277b2bd3fcdc59306669e74fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:11 +0000
Subject: [PATCH 07/41] fix: check, index, and adopt objects added with +=

---
 xigt/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 13a4715..6cc0c08 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -129,6 +129,10 @@ class XigtContainerMixin(list):
         for obj in objs:
             self.append(obj)
 
+    def __iadd__(self, objs):
+        self.extend(objs)
+        return self
+
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
         list.remove(self, obj)
-- 
2.43.0


From bc5a38f90a232d6ad266a43ee3054c708d645512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:12 +0000
Subject: [PATCH 08/41] fix: don't lose objects when assigning a container from
 a view of itself

---
 xigt/metadata.py | 10 +++++++---
 xigt/model.py    |  9 ++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 9f786d5..1c5c892 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -38,6 +38,7 @@ class XigtMetadataMixin(object):
         if isinstance(value, Metadata):
             raise XigtError('The metadata attribute must be a sequence '
                             'of Metadata objects.')
+        value = list(value)  # value may be a view on self._md
         self._md.clear()
         self._md.extend(value)
 
@@ -113,8 +114,9 @@ class Metadata(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @metas.setter
     def metas(self, value):
+        value = list(value or [])  # value may be a view on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     # deprecated properties
 
@@ -161,8 +163,9 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
+        value = list(value or [])  # value may be a view on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
 
 class MetaChild(XigtContainerMixin, XigtAttributeMixin):
@@ -202,5 +205,6 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
+        value = list(value or [])  # value may be a view on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
diff --git a/xigt/model.py b/xigt/model.py
index 014c9ac..58f857a 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -111,8 +111,9 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
+        value = list(value or [])  # value may be a view on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
 
 class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
@@ -197,8 +198,9 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @tiers.setter
     def tiers(self, value):
+        value = list(value or [])  # value may be a view on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     def get_item(self, item_id, default=None):
         return self._itemdict.get(item_id, default)
@@ -298,8 +300,9 @@ class Tier(XigtContainerMixin, XigtAttributeMixin,
         return list(self)
     @items.setter
     def items(self, value):
+        value = list(value or [])  # value may be a view on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     def allowed_reference_attributes(self):
         # tiers get _tier_refattrs[tier.type]; if a type is not
-- 
2.43.0


From f7374fcb34a971745a9d0c1f9b661f1ee360ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:14 +0000
Subject: [PATCH 09/41] fix: inherit namespaced attributes in get_attribute()

---
 xigt/mixins.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 6cc0c08..8144c4f 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -225,9 +225,8 @@ class XigtAttributeMixin(object):
             return self.attributes[key]
         except KeyError:
             if inherit and _has_parent(self):
-                return self._parent.get_attribute(
-                    key, default, inherit, namespace=namespace
-                )
+                # key is already qualified at this point
+                return self._parent.get_attribute(key, default, inherit)
             else:
                 return default
 
-- 
2.43.0


From fda697bfea4735c4e525d5807dadda5519739b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:15 +0000
Subject: [PATCH 10/41] fix: rebuild the item index from the current items only

---
 xigt/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 58f857a..bb86e2c 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -156,9 +156,11 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
 
         xs = [i for t in self.tiers for i in t.items]
         if items:
-            idict = self._itemdict
+            self._itemdict = idict = {}
             for item in xs:
                 i_id = item.id
+                if i_id is None:
+                    continue
                 if idict.get(i_id, item) != item:
                     warnings.warn(
                         'Item "{}" already exists in Igt.'.format(i_id),
-- 
2.43.0


From f0a9dc8d4f76c32f8ebdbb8ec15ed4cb89580a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 11/41] fix: yield already loaded Igts when re-iterating an
 incremental corpus

---
 xigt/model.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index bb86e2c..32f768a 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -78,7 +78,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if mode == FULL:
             self.extend(igts or [])
         else:
-            self._generator = igts
+            self._generator = iter(igts or [])
 
     def __repr__(self):
         return '<XigtCorpus object (id: {}) with {} Igts at {}>'.format(
@@ -96,13 +96,22 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if self.mode == FULL:
             for igt in XigtContainerMixin.__iter__(self):
                 yield igt
+        elif self.mode == INCREMENTAL:
+            # first those loaded by an earlier iteration, then load more
+            i = 0
+            while True:
+                while i < len(self):
+                    yield list.__getitem__(self, i)
+                    i += 1
+                igt = next(self._generator, None)
+                if igt is None:
+                    break
+                self.append(igt)
+            self.mode = FULL
         else:
             for igt in self._generator:
-                if self.mode == INCREMENTAL:
-                    self.add(igt)
-                else:
-                    # don't add, but set the parent
-                    igt._parent = self
+                # don't add, but set the parent
+                igt._parent = self
                 yield igt
             self.mode = FULL
 
-- 
2.43.0


From e5e42694276900219a38c15591d52dd092e6ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 12/41] fix: detect cycles in query.ancestors() by tier id

---
 xigt/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/query.py b/xigt/query.py
index d25c540..0f83486 100644
--- a/xigt/query.py
+++ b/xigt/query.py
@@ -41,7 +41,7 @@ def ancestors(obj, refattrs=(ALIGNMENT, SEGMENTATION)):
         # cycle detection; break if we've now encountered something twice
         if reftier.id in visited:
             break
-        visited.update(reftier.id)
+        visited.add(reftier.id)
         tier = reftier
         items = refitems
 
-- 
2.43.0


From 5a70bbd52f03d0b1b7b580121d5c3812e4ac8899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 13/41] fix: make sort_tiers() terminate on cyclic and dangling
 references

---
 xigt/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 32f768a..8f7fe68 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -246,7 +246,10 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         for t in self:
             key = [(idx[t.id],0)]  # default value
             tmp = pr.get(t.id)
-            while tmp:  # iterative depth first
+            seen = set([t.id])  # references may be cyclic or dangling
+            while tmp and tmp[0] in idx and tmp[0] not in seen:
+                # iterative depth first
+                seen.add(tmp[0])
                 key.append((idx[tmp[0]], tmp[1]))
                 tmp = pr.get(tmp[0])
             dfi[t.id] = tuple(reversed(key))  # highest ancestor first
-- 
2.43.0


From c285da9cff6e32f45faef8b416db690a5732ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:46 +0000
Subject: [PATCH 14/41] fix: evaluate XigtPath existence predicates

---
 xigt/xigtpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 020c73b..1d9f380 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -253,7 +253,7 @@ def _make_predicate_test(steps):
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-        predtest = lambda obj: any(bool(findall(obj, subpath)))
+        predtest = lambda obj: any(v is not None for v in findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
         val = steps.popleft().strip('"')
-- 
2.43.0


From ece8fec166eb606a0042f2f39cd800f42b638e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 15/41] fix: don't match missing attributes in XigtPath

---
 xigt/xigtpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 1d9f380..b779924 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -209,7 +209,9 @@ def _find_attr(obj, attr):
             vals.extend(obj.get_attribute(attrkey, namespace=namespace)
                         for attrkey in obj.attributes)
         else:
-            vals.append(obj.get_attribute(attr, namespace=namespace))
+            val = obj.get_attribute(attr, namespace=namespace)
+            if val is not None:
+                vals.append(val)
     for val in vals:
         yield val
 
-- 
2.43.0


From 6bafdf3f962fdeb284e7c3d0632ad0b6af614fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 16/41] fix: don't split XigtPath names that begin with a
 function name

---
 xigt/xigtpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index b779924..807f292 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -40,7 +40,7 @@ xp_tokenizer_re = re.compile(
     r'\(|\)|'  # groups
     r'\||'  # union
     r'!=|=|'  # comparisons
-    r'(?:text|value|referent|referrer)|'
+    r'(?:text|value|referent|referrer)(?=\s*\()|'
     r'\*|[^.\/\[\]!=|()]+'  # .., *, igt, tier, item, etc.
 )
 
-- 
2.43.0


From 5ca10d3f987eba295c06651f2e2877bcaf9e1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 17/41] fix: respect namespace prefixes in the descendant axis
 of XigtPath

---
 xigt/xigtpath.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 807f292..c7846e9 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -216,14 +216,16 @@ def _find_attr(obj, attr):
         yield val
 
 def _find_descendant_or_self(obj, name):
-    namespace = None
+    namespace, localname = None, name
     if ':' in name:
-        namespace, name = name.split(':', 1)
+        namespace, localname = name.split(':', 1)
+        namespace = obj.nsmap.get(namespace, namespace)
     if isinstance(obj, MetaChild):
         objname = obj.name
     else:
         objname = obj.__class__.__name__.lower()
-    if (namespace is None or obj.namespace == namespace) and objname == name:
+    if ((namespace is None or obj.namespace == namespace)
+            and objname == localname):
         yield obj
     for child in _find_child(obj, '*'):
         for desc in _find_descendant_or_self(child, name):
-- 
2.43.0


From e3f610819131c750d10940cab88b4f845a752176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:51 +0000
Subject: [PATCH 18/41] fix: yield nothing for the parent axis on objects
 without a parent

---
 xigt/xigtpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index c7846e9..b91cfe2 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -120,7 +120,8 @@ def _step(objs, steps):
             attr = steps.popleft()
             results = (res for obj in objs for res in _find_attr(obj, attr))
         elif step == '..':
-            results = (obj._parent for obj in objs)
+            results = (obj._parent for obj in objs
+                       if getattr(obj, '_parent', None) is not None)
         elif step == '.':
             results = objs
         # elif steps and steps[0] == '::':
-- 
2.43.0


From 53801d712102fecddc77e1a740f79e26723b7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 19/41] fix: consume the steps of an XigtPath group that has no
 context objects

---
 xigt/xigtpath.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index b91cfe2..4594322 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -76,7 +76,7 @@ def _expr(objs, steps):
     elif steps[0] in ('/', '//'):
         if steps[0] == '/':
             steps.popleft()
-        results = _step([_get_corpus(objs[0])], steps)
+        results = _step([_get_corpus(obj) for obj in objs[:1]], steps)
     else:
         results = _step(objs, steps)
     for result in results:
@@ -87,9 +87,10 @@ def _disjunction(objs, steps):
     # NOTE: on the first pass, steps is the original deque, so it is
     #       modified in-place. Afterwards, the copy is reused.
     orig_steps = deque(steps)
-    for obj in objs:
+    # without any objs, the steps still need to be consumed
+    for group in [[obj] for obj in objs] or [[]]:
         while True:
-            results.extend(r for r in _expr([obj], steps))
+            results.extend(r for r in _expr(group, steps))
             next_ = steps.popleft()
             if next_ == '|':
                 continue
-- 
2.43.0


From f5f520c9ee8d0a798a9acde149aa600c58632c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:28 +0000
Subject: [PATCH 20/41] fix: decode the type of a corpus in XigtJSON

---
 xigt/codecs/xigtjson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 557054f..8344ea9 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -61,6 +61,7 @@ def decode(obj, mode='full', nsmap=None):
     nsmap = active_namespaces(obj, nsmap)
     return XigtCorpus(
         id=obj.get('id'),
+        type=obj.get('type'),
         attributes=obj.get('attributes', {}),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
-- 
2.43.0


From b17891c77197a4021232e7a9fa18dc577cee1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 21/41] fix: encode empty item text in XigtJSON

---
 xigt/codecs/xigtjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 8344ea9..c755424 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -254,6 +254,6 @@ def encode_tier(tier, nscontext=None):
 
 def encode_item(item, nscontext=None):
     obj, ns = _make_obj(item, nscontext)
-    if item.text: obj['text'] = item.text
+    if item.text is not None: obj['text'] = item.text
     return obj
 
-- 
2.43.0


From a1c003b25727c4f68d876ac1d9f2cbfc0d4c70e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 22/41] fix: keep inherited namespace prefixes when decoding
 XigtJSON

---
 xigt/codecs/xigtjson.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index c755424..a51c94f 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -69,7 +69,7 @@ def decode(obj, mode='full', nsmap=None):
               for igt in obj.get('igts', [])],
         mode=mode,
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if obj.get('namespaces') else None
     )
 
 def decode_igt(obj, nsmap=None):
@@ -83,7 +83,7 @@ def decode_igt(obj, nsmap=None):
         tiers=[decode_tier(tier, nsmap)
                for tier in obj.get('tiers', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if obj.get('namespaces') else None
     )
     return igt
 
@@ -99,7 +99,7 @@ def decode_tier(obj, nsmap=None):
         items=[decode_item(item, nsmap)
                for item in obj.get('items', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if obj.get('namespaces') else None
     )
     return tier
 
@@ -112,7 +112,7 @@ def decode_item(obj, nsmap=None):
         attributes=obj.get('attributes', {}),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if obj.get('namespaces') else None
     )
     return item
 
@@ -126,7 +126,7 @@ def decode_metadata(obj, nsmap=None):
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if obj.get('namespaces') else None
     )
     return metadata
 
@@ -144,7 +144,7 @@ def decode_meta(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if obj.get('namespaces') else None
     )
     return meta
 
@@ -166,7 +166,7 @@ def decode_metachild(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=namespace,
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if obj.get('namespaces') else None
     )
     return mc
 
-- 
2.43.0


From 6e74fcfa9f8b8df3ad437f227fc9b0a884a0de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 23/41] fix: resolve prefixes of attributes when decoding
 XigtJSON

---
 xigt/codecs/xigtjson.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index a51c94f..0d79642 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -62,7 +62,7 @@ def decode(obj, mode='full', nsmap=None):
     return XigtCorpus(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         igts=[decode_igt(igt, nsmap)
@@ -77,7 +77,7 @@ def decode_igt(obj, nsmap=None):
     igt = Igt(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         tiers=[decode_tier(tier, nsmap)
@@ -93,7 +93,7 @@ def decode_tier(obj, nsmap=None):
     tier = Tier(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         items=[decode_item(item, nsmap)
@@ -109,7 +109,7 @@ def decode_item(obj, nsmap=None):
     item = Item(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
         nsmap=nsmap if obj.get('namespaces') else None
@@ -122,7 +122,7 @@ def decode_metadata(obj, nsmap=None):
     metadata = Metadata(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
@@ -139,7 +139,7 @@ def decode_meta(obj, nsmap=None):
     meta = Meta(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -161,7 +161,7 @@ def decode_metachild(obj, nsmap=None):
             namespace = nsmap[namespace]
     mc = MetaChild(
         name,
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -171,6 +171,17 @@ def decode_metachild(obj, nsmap=None):
     return mc
 
 
+def decode_attributes(obj, nsmap):
+    # the inverse of re-adding prefixes in _make_obj()
+    attrs = {}
+    for k, v in obj.get('attributes', {}).items():
+        prefix, key = ns_split(k) if not k.startswith('{') else (None, k)
+        if prefix in nsmap:
+            k = '{%s}%s' % (nsmap[prefix], key)
+        attrs[k] = v
+    return attrs
+
+
 def active_namespaces(obj, nsmap):
     nsmap = {} if nsmap is None else dict(nsmap)
     nsmap.update(obj.get('namespaces', {}))
-- 
2.43.0


From 65db986ddec6aae1c114fb8ad77cb8d924814ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:34 +0000
Subject: [PATCH 24/41] fix: decode the type of a corpus in XigtXML

---
 xigt/codecs/xigtxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index da41112..4f4b6d0 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -241,7 +241,8 @@ def default_decode_xigtcorpus(elem, igts=None, mode='full'):
     assert tag == 'xigt-corpus'
     return XigtCorpus(
         id=elem.get('id'),
-        attributes=get_attributes(elem, ignore=('id',)),
+        type=elem.get('type'),
+        attributes=get_attributes(elem, ignore=('id', 'type')),
         metadata=[decode_metadata(md) for md in elem.findall('metadata')],
         # NOTE: possible bug here; does nsiterparse run with elem.findall?
         igts=igts or [decode_igt(igt) for igt in elem.findall('igt')],
-- 
2.43.0


From ee6b46cb9f32cdf7dfd391b95ef69ae39734f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:35 +0000
Subject: [PATCH 25/41] fix: keep id and type attributes of MetaChild elements
 in XigtXML

---
 xigt/codecs/xigtxml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 4f4b6d0..2aaa4b7 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -341,7 +341,7 @@ def default_decode_metachild(elem):
     text = elem.text or ''
     mc = MetaChild(
         tag,
-        attributes=get_attributes(elem, ignore=('id', 'type')),
+        attributes=get_attributes(elem),
         text=text if text.strip() else None,
         children=[decode_metachild(mc) for mc in elem],
         namespace=ns,
-- 
2.43.0


From d5d49568b10e82ce2bda93784ffc5eaa8b7ea1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 26/41] fix: write well-formed XML for default namespaces

---
 xigt/codecs/xigtxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 2aaa4b7..c94dbdd 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -359,14 +359,15 @@ def default_decode_metachild(elem):
 def _build_elem(tag, obj, nscontext):
     ns = getattr(obj, 'namespace', None)
     revmap = dict((v, k) for k, v in getattr(obj, 'nsmap', {}).items())
-    if revmap.get(ns) is not None:
+    if revmap.get(ns):  # the default namespace has an empty prefix
         tag = '{}:{}'.format(revmap[ns], tag)
     e = Element(tag)
     # element attributes (including namespaces)
     if hasattr(obj, 'nsmap'):
         for pre, uri in obj.nsmap.items():
             if nscontext.get(pre) != uri:
-                e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort), uri)
+                name = 'xmlns:%s' % pre if pre else 'xmlns'
+                e.set(_QName(name, sortkey=xigt_attrsort), uri)
     if getattr(obj, 'id') is not None:
         e.set(_QName('id', sortkey=xigt_attrsort), obj.id)
     if getattr(obj, 'type') is not None:
-- 
2.43.0


From d5f235d8d5175af5dba8351bb788a0391d0edc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 27/41] fix: compare sort keys one by one

---
 xigt/scripts/xigt_sort.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 21e20bb..5b8965f 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -39,9 +39,10 @@ def make_sortkey(sortkeys):
             return int(x)
         except ValueError:
             return x
-    key = lambda x: [k for sk in sortkeys
-                     for k in map(safe_int,
-                                  re.split(r'(\d+)', xp.find(x, sk) or ''))]
+    # one sublist per key; otherwise their parts can get out of step
+    key = lambda x: [list(map(safe_int,
+                              re.split(r'(\d+)', xp.find(x, sk) or '')))
+                     for sk in sortkeys]
     return key
 
 def main(arglist=None):
-- 
2.43.0


From d6f8a7ea2b0de35bba4275628d08c5ac6384b4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 28/41] fix: don't overwrite a partition when keys share a
 filename

---
 xigt/scripts/xigt_partition.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index 9b4511f..0269667 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -18,12 +18,18 @@ def run(args):
     for fn in args.infiles:
         logging.info('Indexing {}'.format(fn))
         index(fn, keypath, idx)
+    # different keys may be normalized to the same filename
+    groups = {}  # normalized key : filename : igt-index
     for key, fn_idx in idx.items():
-        logging.info('Writing {} (grouped from {} files)'
-                     .format(key, len(fn_idx)))
         if key is None:
             key = args.default_key
-        out_fn = os.path.join(args.outdir, normalize_key(key) + '.xml')
+        group = groups.setdefault(normalize_key(key), defaultdict(set))
+        for fn, igt_indices in fn_idx.items():
+            group[fn].update(igt_indices)
+    for key, fn_idx in groups.items():
+        logging.info('Writing {} (grouped from {} files)'
+                     .format(key, len(fn_idx)))
+        out_fn = os.path.join(args.outdir, key + '.xml')
         write(out_fn, fn_idx)
 
 def create_outdir(outdir):
-- 
2.43.0


From 9dc477b03a5d4b227c34d7970f1a8dbd0d9e7c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 29/41] fix: fail the validation of corpora that cannot be
 parsed

---
 xigt/scripts/xigt_validate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 4d4be94..1cbb1b9 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -399,6 +399,7 @@ def run(args):
                       'that the XML file is valid by doing a schema '
                       'validation.'
                       .format(i, f))
+                passed.append(False)
             else:
                 context = make_context(
                     xc, i, '<xigt-corpus>', 'collection', ids=ids
-- 
2.43.0


From 8035be57704890214bbd18ea79d2cb38f2982604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 30/41] fix: validate references to items of empty tiers

---
 xigt/scripts/xigt_validate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 1cbb1b9..413f21a 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -239,7 +239,7 @@ def item_refattrs_specified_on_tier(tier):
 def algnexpr_ids_in_referred_tier(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     missing = []
     for ae_id in ids(itemref):
@@ -256,7 +256,7 @@ def algnexpr_ids_in_referred_tier(item, refattr):
 def algnexpr_spans_in_aligned_item(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     error_spans = []
     for span in spans(itemref):
@@ -285,7 +285,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
 def algnexpr_spans_do_not_overlap(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     spans_by_id = defaultdict(Counter)
     for span in spans(itemref):
-- 
2.43.0


From 43c803c2f0c096363245a018c49a1d5cee1b7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:42 +0000
Subject: [PATCH 31/41] fix: validate spans of items without a value

---
 xigt/scripts/xigt_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 413f21a..753ad7b 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -272,7 +272,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
-        item_len = len(tgt_item.value())
+        item_len = len(tgt_item.value() or '')
         if start > item_len or end > item_len:
             error_spans.append(span)
     if error_spans:
-- 
2.43.0


From 3a886a540bc52e05ebcbf11b8e0380c691a464ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:44 +0000
Subject: [PATCH 32/41] fix: detect overlapping spans in validation

---
 xigt/scripts/xigt_validate.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 753ad7b..2b6cb44 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -291,18 +291,18 @@ def algnexpr_spans_do_not_overlap(item, refattr):
     for span in spans(itemref):
         if span in alignment_expression_delimiters:
             continue  # schema validator should catch bad algnexprs like '+w3'
-        if isinstance(span, str):
-            tgt_item = reftier.get(span)
+        sel_delim, item_id, _range = selection_re.match(span).groups()
+        if _range:
+            _, start, end = span_re.match(_range).groups()
+            spans_by_id[item_id].update(range(int(start), int(end)))
+        else:
+            tgt_item = reftier.get(item_id)
             if tgt_item is None:
                 continue  # this should be caught by algnexpr_ids_in_referred_tier
             val = tgt_item.value()
             if val is None:
                 continue  # does this need to be handled?
-            item_len = len(tgt_item.value())
-            spans_by_id[span].update(range(0, item_len))
-        else:
-            item_id, start, end = span
-            spans_by_id[item_id].update(range(start, end))
+            spans_by_id[item_id].update(range(0, len(val)))
     error_spans = [
         item_id for item_id, count in spans_by_id.items()
         if any(count[c] > 1 for c in count)
-- 
2.43.0


From e59fa41a9634c4cfecd5e44e454beaf68164ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:45 +0000
Subject: [PATCH 33/41] fix: evaluate each cell with its own mapper in the
 itsdb exporter

---
 xigt/exporters/itsdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 38258e7..fc59602 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -48,7 +48,7 @@ def prepare_config(config):
             config['relations'] = rel_path
     # evaluate lambda expressions now, since they won't change
     config.setdefault('cells', DEFAULT_CELLS)
-    config['cells'] = [(key, lambda igt: eval(mapper))
+    config['cells'] = [(key, lambda igt, mapper=mapper: eval(mapper))
                        for key, mapper in config['cells']]
     return config
 
-- 
2.43.0


From 6313457488efa36c9a61b36a8703984952aebfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 34/41] fix: don't replace valid supplementary characters in
 the ODIN importer

---
 xigt/importers/odin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 153d07c..c580ce0 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -222,8 +222,7 @@ def make_igt_raw_tier(block, options):
 #  \U000DFFFE, \U000DFFFF, \U000EFFFE, \U000EFFFF, \U000FFFFE, \U000FFFFF,
 #  \U0010FFFE, \U0010FFFF
 invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
-                             #'\U00010000-\U0010FFFF]'
-                             ']'
+                             '\U00010000-\U0010FFFF]'
                              , re.UNICODE)
 
 
-- 
2.43.0


From ed9a6442fc13ea631a81c2127f8aaf5eddec613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 35/41] fix: import names used on the error paths of ref.py

---
 xigt/ref.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index a3e8b2a..ab439f1 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -1,8 +1,13 @@
 
 import re
+import warnings
 from collections import namedtuple
 
-from xigt.errors import (XigtLookupError, XigtStructureError)
+from xigt.errors import (
+    XigtAttributeError,
+    XigtLookupError,
+    XigtStructureError
+)
 
 ### Alignment Expressions ####################################################
 
-- 
2.43.0


From f959bcb36b1ae36185fd0358155515731cef948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 36/41] fix: validate space-separated references without
 crashing

---
 xigt/scripts/xigt_validate.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 2b6cb44..33eb5f3 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -259,9 +259,8 @@ def algnexpr_spans_in_aligned_item(item, refattr):
     if not itemref or reftier is None:
         return
     error_spans = []
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
+    # schema validator should catch bad algnexprs like '+w3'
+    for span in spans(itemref, keep_delimiters=False):
         sel_delim, item_id, _range = selection_re.match(span).groups()
         if _range:
             _, start, end = span_re.match(_range).groups()
@@ -288,9 +287,8 @@ def algnexpr_spans_do_not_overlap(item, refattr):
     if not itemref or reftier is None:
         return
     spans_by_id = defaultdict(Counter)
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
+    # schema validator should catch bad algnexprs like '+w3'
+    for span in spans(itemref, keep_delimiters=False):
         sel_delim, item_id, _range = selection_re.match(span).groups()
         if _range:
             _, start, end = span_re.match(_range).groups()
-- 
2.43.0


From 2b570403a9825b4927041e70721fc1305ec90d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 37/41] fix: separate LaTeX text commands from the text that
 follows them

---
 xigt/exporters/latex.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 3190491..2689b8a 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -12,9 +12,8 @@ from xigt import ref
 from xigt.exporters.util import sub
 
 DEFAULT_TIER_TYPES = ('words', 'morphemes', 'glosses')
-# order matters here
 LATEX_CHARMAP = [
-    ('\\', '\\textbackslash'),
+    ('\\', '\\textbackslash{}'),
     ('&', '\\&'),
     ('%', '\\%'),
     ('$', '\\$'),
@@ -22,8 +21,8 @@ LATEX_CHARMAP = [
     ('_', '\\_'),
     ('{', '\\{'),
     ('}', '\\}'),
-    ('~', '\\textasciitilde'),
-    ('^', '\\textasciicircum'),
+    ('~', '\\textasciitilde{}'),
+    ('^', '\\textasciicircum{}'),
 ]
 
 header = '''
@@ -59,9 +58,9 @@ def escape(s):
     # _unescape_func = lambda m: _character_unescapes[m.group(0)]
     # _unescape_re = re.compile(r'(\\s|\\n|\\\\)')
     # _unescape_re.sub(_unescape_func, string, re.UNICODE)
-    for c, r in LATEX_CHARMAP:
-        s = s.replace(c, r)
-    return s
+    # replace in one pass; replacements may contain special characters
+    charmap = dict(LATEX_CHARMAP)
+    return ''.join(charmap.get(c, c) for c in s)
 
 def export_corpus(xc, config):
     for igt in xc:
-- 
2.43.0


From f4b7f8693d98683bbe1d7cd47d7264386b654790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 38/41] fix: don't escape the empty-group placeholder in the
 LaTeX exporter

---
 xigt/exporters/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 2689b8a..9c982b9 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -94,7 +94,7 @@ def export_igt(igt, config):
             items = col[i]
             toks.append('{{{}}}'.format(
                 ' '.join(
-                    sub(escape(item.get_content() or '{}'),
+                    sub(escape(item.get_content() or '') or '{}',
                         tier_type,
                         item_subs)
                     for item in items
@@ -105,7 +105,7 @@ def export_igt(igt, config):
     for tier in igt.tiers:
         if tier.type == 'translations' and len(tier) > 0:
             lines.append('\\trans {}'.format(
-                sub(escape(tier[0].get_content() or '{}'),
+                sub(escape(tier[0].get_content() or '') or '{}',
                     tier.type,
                     tier_subs)
             ))
-- 
2.43.0


From a48ac0dbb6d565973ca31f94c4df8f64deaf8e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:35 +0000
Subject: [PATCH 39/41] fix: raise KeyError for keys that cannot be ids, so
 get() uses its default

---
 xigt/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 8144c4f..1a10d5c 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -59,7 +59,7 @@ class XigtContainerMixin(list):
         else:
             try:
                 return list.__getitem__(self, int(obj_id))
-            except ValueError:
+            except (TypeError, ValueError):
                 pass
         raise KeyError(obj_id)
 
-- 
2.43.0


From 3c16d53630a297efa7745d083d5012db456b3751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:11 +0000
Subject: [PATCH 40/41] fix: export items with no alignment or segmentation to
 LaTeX

---
 xigt/exporters/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 9c982b9..1ed6676 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -185,7 +185,7 @@ def align_tier(trellis, tier):
     return trellis
 
 def get_agenda(tier):
-    agenda = [(ref.ids(item.alignment or item.segmentation), item)
+    agenda = [(ref.ids(item.alignment or item.segmentation or ''), item)
               for item in tier.items]
     # then group those with the same alignment (still a list [(ids, item)])
     agenda = deque(tuple([k, [g[1] for g in gs]])
-- 
2.43.0


From fbbc186cb7f4b9ede72b460105e440014a93981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:25 +0000
Subject: [PATCH 41/41] fix: follow every reference attribute given to
 referent() and referrer()

---
 xigt/xigtpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 4594322..8d8523d 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -157,7 +157,7 @@ def _function(obj, func, args):
         find_refs = _find_referent if func == 'referent' else _find_referrer
         refattrs = None
         if args:
-            refattrs = [ra.strip('"') for ra in args if ra != ',']
+            refattrs = [ra.strip('" ') for ra in ''.join(args).split(',')]
         results = find_refs(obj, refattrs)
     for result in results:
         yield result
-- 
2.43.0

