From bd7df4b2bb5485116c9ae68cf0ed11d2d83c3e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:42 +0000
Subject: [PATCH 01/84] fix: adding a list or dict to an owned container
 recursed forever

---
 jsonclasses/jsonclassify.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index e226dc8..a128967 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -803,11 +803,11 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
     if isinstance(val, dict):
-        odict[key] = to_owned_dict(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_dict(
+            self, val, concat_keypath(odict.keypath, key)))
     if isinstance(val, list):
-        odict[key] = to_owned_list(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_list(
+            self, val, concat_keypath(odict.keypath, key)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
@@ -866,11 +866,11 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
     if isinstance(val, dict):
-        olist[idx] = to_owned_dict(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_dict(
+            self, val, concat_keypath(olist.keypath, idx)))
     if isinstance(val, list):
-        olist[idx] = to_owned_list(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_list(
+            self, val, concat_keypath(olist.keypath, idx)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-- 
2.43.0


From 14661900ed4c20a87e1d948910ab9eb527df263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:20 +0000
Subject: [PATCH 02/84] fix: one argument setdefault on an owned dict was not
 tracked and a set container was not returned

---
 jsonclasses/odict.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/odict.py b/jsonclasses/odict.py
index aa941bc..f7191fd 100644
--- a/jsonclasses/odict.py
+++ b/jsonclasses/odict.py
@@ -77,16 +77,14 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
     def setdefault(self, *args) -> _VT:
         will_set = False
         len_args = len(args)
-        if len_args == 2:
-            try:
-                self[args[0]]
-            except KeyError:
-                will_set = True
+        if 1 <= len_args <= 2:
+            will_set = args[0] not in self
         if will_set:
             self.owner.__odict_will_change__(self)
         retval = super().setdefault(*args)
         if will_set:
-            self.owner.__odict_add__(self, args[0], args[1])
+            self.owner.__odict_add__(self, args[0], retval)
+            return self[args[0]]
         return retval
 
     def update(self, *args, **kwargs: _VT) -> None:
-- 
2.43.0


From 25b894b6513b74c2950a0a5206acc8e94128ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:20 +0000
Subject: [PATCH 03/84] fix: updating an owned dict from a one-shot iterable
 dropped the items

---
 jsonclasses/odict.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/odict.py b/jsonclasses/odict.py
index f7191fd..cfc4211 100644
--- a/jsonclasses/odict.py
+++ b/jsonclasses/odict.py
@@ -95,13 +95,11 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
             new_dict = kwargs
         elif isinstance(args[0], Mapping):
             new_dict = dict(args[0], **kwargs)
-        elif isinstance(args[0], Iterable):
-            new_dict = dict(args[0], **kwargs)
         else:
-            new_dict = {}
+            new_dict = dict(args[0], **kwargs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        super().update(*args, **kwargs)
+        super().update(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
@@ -134,7 +132,7 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
         new_dict = dict(rhs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        retval = super().__ior__(rhs)
+        retval = super().__ior__(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
-- 
2.43.0


From f2e8da40256304c4a95f2caded446c2c464c7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:20 +0000
Subject: [PATCH 04/84] fix: extending an owned list with a one-shot iterable
 or with itself failed

---
 jsonclasses/olist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 456e1b3..12f58e5 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -53,6 +53,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
 
     def extend(self, values: Iterable[_T]) -> None:
         curlen = len(self)
+        values = list(values)
         if len(values) > 0:
             self.owner.__olist_will_change__(self)
         super().extend(values)
@@ -99,6 +100,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         return super().__add__(x)
 
     def __iadd__(self, x: Iterable[_T]) -> OwnedList[_T]:
+        x = list(x)
         if len(x) > 0:
             self.owner.__olist_will_change__(self)
         curlen = len(self)
-- 
2.43.0


From 4d374a523f12e5cdfbfd66fb351339ecc4a092a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:20 +0000
Subject: [PATCH 05/84] fix: inserting into an owned list at a negative index
 reported a wrong position

---
 jsonclasses/olist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 12f58e5..5689da3 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -65,7 +65,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         curlen = len(self)
         self.owner.__olist_will_change__(self)
         super().insert(index, value)
-        idx = min(curlen, index)
+        idx = min(curlen, index) if index >= 0 else max(0, curlen + index)
         self.owner.__olist_add__(self, idx, value)
 
     def remove(self, value: _T) -> None:
-- 
2.43.0


From 21d203a0ac20d3550de267a03fa04ae3773a3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:20 +0000
Subject: [PATCH 06/84] fix: slice assignment on an owned list dropped one-shot
 iterables and mislocated negative steps

---
 jsonclasses/olist.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 5689da3..4a89544 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -150,16 +150,13 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         elif isinstance(args[0], slice):
             slc: slice = args[0]
             remove_list = self[slc]
-            start = slc.start or 0
-            step = slc.step or 1
-            if start < 0:
-                start = len_self + start
-            start = min(max(0, start), len_self)
+            add_list = list(args[1])
+            start, _, step = slc.indices(len_self)
             self.owner.__olist_will_change__(self)
-            super().__setitem__(*args)
+            super().__setitem__(slc, add_list)
             for item in remove_list:
                 self.owner.__olist_del__(self, item)
-            for item in args[1]:
+            for item in add_list:
                 self.owner.__olist_add__(self, start, item)
                 start += step
         else:
-- 
2.43.0


From 926d761d22e8fd19ec27da1980dcbf764e646a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:20 +0000
Subject: [PATCH 07/84] fix: persisted_modified_fields failed when a nested
 container was modified

---
 jsonclasses/jsonclassify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a128967..b968628 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -300,7 +300,8 @@ def persisted_modified_fields(self: JObject) -> tuple[str]:
     retval: list[str] = []
     cdef = self.__class__.cdef
     for name in self._modified_fields:
-        if cdef.field_named(name).fdef.fstore != FStore.TEMP:
+        fname = initial_keypath(name)
+        if cdef.field_named(fname).fdef.fstore != FStore.TEMP:
             retval.append(name)
     return tuple(retval)
 
-- 
2.43.0


From d62fdcf403d14fe93417c2d42b273fdc5ed84f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:34 +0000
Subject: [PATCH 08/84] fix: fields of an object inside a list or dict were
 processed with the wrong owner and parent

---
 jsonclasses/modifiers/instanceof_modifier.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index b5526ba..1bbda42 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -24,6 +24,14 @@ class InstanceOfModifier(Modifier):
         fdef._ftype = FType.INSTANCE
         fdef._raw_inst_types = self.raw_type
 
+    def _enter(self, ctx: Ctx) -> Ctx:
+        """Make the object being processed the owner and the parent of its
+        fields, no matter it's reached from a field or from a collection.
+        """
+        return ctx._replace(owner=ctx.val, parent=ctx.val,
+                            keypatho=[], fkeypatho=[],
+                            keypathp=[], fkeypathp=[])
+
     def validate(self, ctx: Ctx) -> None:
         from ..jobject import JObject
         # only validate if there is a value
@@ -39,6 +47,7 @@ class InstanceOfModifier(Modifier):
             all_fields = cls.cdef.jconf.validate_all_fields
         if not isinstance(ctx.val, cls):
             ctx.raise_vexc(f'value is not instance of {cls.__name__}')
+        ctx = self._enter(ctx)
         only_validate_modified = not ctx.val.is_new
         modified_fields = []
         if only_validate_modified:
@@ -185,6 +194,7 @@ class InstanceOfModifier(Modifier):
         from ..jobject import JObject
         if ctx.val is None:
             return None
+        ctx = self._enter(ctx)
         val = cast(JObject, ctx.val)
         retval = {}
         clschain = ctx.idchain
@@ -245,6 +255,7 @@ class InstanceOfModifier(Modifier):
         if exist_item is not None:  # Don't do twice for an object
             return value
         ctx.mgraph.put(value)
+        ctx = self._enter(ctx)
         should_update = False
         if value.is_modified or value.is_new:
             should_update = True
-- 
2.43.0


From eab69dbc6b85279d32e5d85ef6a197940887bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:46 +0000
Subject: [PATCH 09/84] fix: validating a plain value in an object field
 crashed instead of reporting it

---
 jsonclasses/modifiers/instanceof_modifier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 1bbda42..d0d0dc0 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -37,16 +37,16 @@ class InstanceOfModifier(Modifier):
         # only validate if there is a value
         if ctx.val is None:
             return
-        # only validate an instance once in the circular referenced map
-        if ctx.mgraph.has(ctx.val):
-            return
-        ctx.mgraph.put(ctx.val)
         cls = cast(type, ctx.fdef.inst_cls)
         all_fields = ctx.ctxcfg.all_fields
         if all_fields is None:
             all_fields = cls.cdef.jconf.validate_all_fields
         if not isinstance(ctx.val, cls):
             ctx.raise_vexc(f'value is not instance of {cls.__name__}')
+        # only validate an instance once in the circular referenced map
+        if ctx.mgraph.has(ctx.val):
+            return
+        ctx.mgraph.put(ctx.val)
         ctx = self._enter(ctx)
         only_validate_modified = not ctx.val.is_new
         modified_fields = []
-- 
2.43.0


From c49114024da4cb699b3107e7051f7e134f4368f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 10/84] fix: validating a required reference list without a
 value crashed

---
 jsonclasses/modifiers/required_modifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/required_modifier.py b/jsonclasses/modifiers/required_modifier.py
index caf7467..72e6527 100644
--- a/jsonclasses/modifiers/required_modifier.py
+++ b/jsonclasses/modifiers/required_modifier.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING
 from ..fdef import FDef
 from .modifier import Modifier
-from ..fdef import FStore
+from ..fdef import FStore, FType
 from ..jconf import JConf
 from ..isjsonclass import isjsonobject
 if TYPE_CHECKING:
@@ -24,6 +24,8 @@ class RequiredModifier(Modifier):
             return
         if storage == FStore.LOCAL_KEY:
             if ctx.val is None:  # check key presence
+                if ctx.fdef.ftype == FType.LIST:
+                    ctx.raise_vexc('value required')
                 jconf: JConf = ctx.holder.__class__.cdef.jconf
                 ko = str(ctx.keypathh[0])
                 field = ctx.holder.__class__.cdef.field_named(ko)
-- 
2.43.0


From fdb406954b94e14801388c630d31485d9e19c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 11/84] fix: saving skipped every second unlinked object

---
 jsonclasses/jsonclassify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index b968628..e58bbb1 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -352,7 +352,7 @@ def save(self: JObject,
     self._set_on_save()
     self._database_write()
     for _, lst in self.unlinked_objects.items():
-        for item in lst:
+        for item in list(lst):
             lst.remove(item)
             item.save(validate_all_fields=validate_all_fields,
                       skip_validation=skip_validation)
-- 
2.43.0


From 5407245fe511a3e37754149ef548b183a0f58123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 12/84] fix: an object was not trackable anymore after being
 completed

---
 jsonclasses/jsonclassify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index e58bbb1..74e10b4 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -381,7 +381,7 @@ def complete(self: JObject) -> JObject:
     """Fetch missing field values from the underlying ORM.
     """
     if self.is_partial:
-        saved_modified_fields = list(self._modified_fields)
+        saved_modified_fields = set(self._modified_fields)
         saved_is_modified = self._is_modified
         self._orm_complete()
         self._is_modified = saved_is_modified
-- 
2.43.0


From 420f4fbc70510a86f686a3e2927c10f2caa27ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 13/84] fix: pick and omit always failed, and omit damaged the
 class definition

---
 jsonclasses/jsonclassify.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 74e10b4..e356b2c 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -171,8 +171,8 @@ def pick(self: JObject, picks: list[str]) -> None:
     Partial picks some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
-    self._partial_picks = picks
+    self._is_partial = True
+    self._partial_picks = list(picks)
 
 
 def omit(self: JObject, omits: list[str]) -> None:
@@ -180,14 +180,12 @@ def omit(self: JObject, omits: list[str]) -> None:
     Partial omits some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
+    self._is_partial = True
     if hasattr(self, '_partial_picks'):
         picks = self._partial_picks
     else:
         picks = self.cdef._field_names
-    for o in omits:
-        picks.remove(o)
-    self._partial_picks = picks
+    self._partial_picks = [p for p in picks if p not in omits]
 
 def validate(self: JObject, all_fields: Optional[bool] = None) -> JObject:
     """Validate the jsonclass object's validity. Raises ValidationException
-- 
2.43.0


From 814475a99076b16ed88d362d94f8ed0556cb4eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 14/84] fix: field level permission checks with a callable
 always crashed

---
 jsonclasses/modifiers/cancu_modifier.py | 10 +++++-----
 jsonclasses/modifiers/canr_modifier.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/jsonclasses/modifiers/cancu_modifier.py b/jsonclasses/modifiers/cancu_modifier.py
index 9c336ae..71745c0 100644
--- a/jsonclasses/modifiers/cancu_modifier.py
+++ b/jsonclasses/modifiers/cancu_modifier.py
@@ -21,15 +21,15 @@ class CanCUModifier(Modifier):
         if ctx.operator is None:
             ctx.raise_vexc('operator not present')
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return
             if result is True:
diff --git a/jsonclasses/modifiers/canr_modifier.py b/jsonclasses/modifiers/canr_modifier.py
index 77dc639..44b4c38 100644
--- a/jsonclasses/modifiers/canr_modifier.py
+++ b/jsonclasses/modifiers/canr_modifier.py
@@ -22,15 +22,15 @@ class CanRModifier(Modifier):
         if ctx.operator is None:
             return None
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return ctx.val
             if result is True:
-- 
2.43.0


From d7d12cf799e3d614b050f8b1fdcba4c03fe0b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 15/84] fix: oneisvalid never called its callable subroutines

---
 jsonclasses/modifiers/oneisvalid_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/oneisvalid_modifier.py b/jsonclasses/modifiers/oneisvalid_modifier.py
index fc55979..8fbf1cf 100644
--- a/jsonclasses/modifiers/oneisvalid_modifier.py
+++ b/jsonclasses/modifiers/oneisvalid_modifier.py
@@ -34,9 +34,9 @@ class OneIsValidModifier(Modifier):
             else:
                 params_len = len(signature(item).parameters)
                 if params_len == 1:
-                    result = callable(ctx.val)
+                    result = item(ctx.val)
                 elif params_len == 2:
-                    result = callable(ctx.val, ctx)
+                    result = item(ctx.val, ctx)
                 if result is None:
                     return
                 if result is True:
-- 
2.43.0


From adafab729700770cf6f271b4fc335452eb24f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 16/84] fix: hasprefix on a list only accepted the prefix
 itself

---
 jsonclasses/modifiers/hasprefix_modifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/hasprefix_modifier.py b/jsonclasses/modifiers/hasprefix_modifier.py
index bc2ed94..22ff304 100644
--- a/jsonclasses/modifiers/hasprefix_modifier.py
+++ b/jsonclasses/modifiers/hasprefix_modifier.py
@@ -15,7 +15,8 @@ class HasPrefixModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not ctx.val[:len(ctx.val)] == self.resolve_param(self.prefix, ctx):
+            prefix = self.resolve_param(self.prefix, ctx)
+            if not ctx.val[:len(prefix)] == prefix:
                 ctx.raise_vexc('prefix is not found')
         elif type(ctx.val) is str:
             if not ctx.val.startswith(self.resolve_param(self.prefix, ctx)):
-- 
2.43.0


From d25615ec2b52e45e4438a6987f7ed5d3e7307ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 17/84] fix: list suffix checks rejected the empty suffix

---
 jsonclasses/modifiers/hassuffix_modifier.py  | 3 ++-
 jsonclasses/modifiers/issuffixof_modifier.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/hassuffix_modifier.py b/jsonclasses/modifiers/hassuffix_modifier.py
index db23f28..c3d0d25 100644
--- a/jsonclasses/modifiers/hassuffix_modifier.py
+++ b/jsonclasses/modifiers/hassuffix_modifier.py
@@ -15,7 +15,8 @@ class HasSuffixModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not ctx.val[-len(self.resolve_param(self.suffix, ctx)):] == self.resolve_param(self.suffix, ctx):
+            suffix = self.resolve_param(self.suffix, ctx)
+            if len(suffix) > 0 and not ctx.val[-len(suffix):] == suffix:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
             if not ctx.val.endswith(self.resolve_param(self.suffix, ctx)):
diff --git a/jsonclasses/modifiers/issuffixof_modifier.py b/jsonclasses/modifiers/issuffixof_modifier.py
index d496d41..f9328ae 100644
--- a/jsonclasses/modifiers/issuffixof_modifier.py
+++ b/jsonclasses/modifiers/issuffixof_modifier.py
@@ -15,7 +15,8 @@ class IsSuffixOfModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not self.resolve_param(self.suffix, ctx)[-len(ctx.val):] == ctx.val:
+            suffix = self.resolve_param(self.suffix, ctx)
+            if len(ctx.val) > 0 and not suffix[-len(ctx.val):] == ctx.val:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
             if not self.resolve_param(self.suffix, ctx).endswith(ctx.val):
-- 
2.43.0


From 4bfd31184df1a0e44dcd533a8e516643a2c99f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 18/84] fix: enum fields accepting values turned unknown input
 into null and never tried names

---
 jsonclasses/modifiers/enum_modifier.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/enum_modifier.py b/jsonclasses/modifiers/enum_modifier.py
index 2e35866..5e30041 100644
--- a/jsonclasses/modifiers/enum_modifier.py
+++ b/jsonclasses/modifiers/enum_modifier.py
@@ -41,7 +41,7 @@ class EnumModifier(Modifier):
                 return enum_class(ctx.val)
             except ValueError:
                 pass
-        elif isinstance(ctx.val, str):
+        if isinstance(ctx.val, str):
             if enum_input.__contains__(EnumInput.NAME):
                 try:
                     return enum_class[ctx.val]
@@ -52,9 +52,7 @@ class EnumModifier(Modifier):
                     return enum_class[ctx.val.upper()]
                 except KeyError:
                     pass
-            ctx.raise_vexc('unknown enum value')
-        else:
-            ctx.raise_vexc('unknown enum value')
+        ctx.raise_vexc('unknown enum value')
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
-- 
2.43.0


From 8ea5b73f85a2613b58d6c6ca524986f8e96f569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:11 +0000
Subject: [PATCH 19/84] fix: defining a second enum with the same name raised
 the wrong error

---
 jsonclasses/cgraph.py | 3 ++-
 jsonclasses/excs.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/cgraph.py b/jsonclasses/cgraph.py
index a261cab..5a2a7b1 100644
--- a/jsonclasses/cgraph.py
+++ b/jsonclasses/cgraph.py
@@ -144,7 +144,8 @@ class CGraph:
         exist_def = self._enum_map.get(enum_class.__name__)
         if exist_def:
             raise JSONClassTypedDictRedefinitionException(enum_class,
-                                                          exist_def.cls)
+                                                          exist_def,
+                                                          self.name)
         self._enum_map[enum_class.__name__] = enum_class
 
     def fetch_enum(self: CGraph, ec_or_name: type[Enum] | str) -> type[Enum]:
diff --git a/jsonclasses/excs.py b/jsonclasses/excs.py
index b6f4415..9ae78ff 100644
--- a/jsonclasses/excs.py
+++ b/jsonclasses/excs.py
@@ -74,13 +74,15 @@ class JSONClassTypedDictRedefinitionException(Exception):
     exists before in the same graph.
     """
 
-    def __init__(self, new_class: type, exist_class: type[JObject]) -> None:
+    def __init__(self, new_class: type, exist_class: type,
+                 graph: str) -> None:
         """Create an exception that notifies the user that a typed dict class
         with duplicated name is defined twice.
 
         Args:
             new_class (type): The new class which is putting on the graph.
             exist_class(type): The existing class which the user defined.
+            graph (str): The name of the graph.
         """
         name = new_class.__name__
         original_module = getmodule(exist_class)
@@ -91,7 +93,6 @@ class JSONClassTypedDictRedefinitionException(Exception):
         assert new_module is not None
         new_file = new_module.__file__
         new_line = getsourcelines(new_class)[1]
-        graph = exist_class.cdef.jconf.cgraph
         message = (f'jsonclass typed dict name conflict in graph `{graph}`: '
                    f'exist `{name}` defined at '
                    f'`{original_file}:{original_line}`, '
-- 
2.43.0


From b8b83d2d5e1827e5eeedf08775bc9bf0cf5d06cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:05 +0000
Subject: [PATCH 20/84] fix: JSON output of an aware datetime was malformed or
 off by its offset

---
 jsonclasses/modifiers/datetime_modifier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 6752e62..dba295a 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -34,4 +34,9 @@ class DatetimeModifier(TypeModifier):
             return ctx.val
 
     def tojson(self, ctx: Ctx) -> Any:
-        return None if ctx.val is None else ctx.val.isoformat()[:23] + 'Z'
+        if ctx.val is None:
+            return None
+        val = ctx.val
+        if isinstance(val, datetime) and val.tzinfo is not None:
+            val = val.astimezone(timezone.utc).replace(tzinfo=None)
+        return val.isoformat()[:23] + 'Z'
-- 
2.43.0


From dbd58cb5d8c39a123b85aa8b67282db857d53b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:05 +0000
Subject: [PATCH 21/84] fix: parsing a datetime string dropped its UTC offset

---
 jsonclasses/modifiers/datetime_modifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index dba295a..8249009 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -22,6 +22,8 @@ class DatetimeModifier(TypeModifier):
         elif isinstance(ctx.val, str):
             try:
                 retval = datetime.fromisoformat(ctx.val.replace('Z', ''))
+                if retval.tzinfo is not None:
+                    return retval.astimezone(timezone.utc)
                 return retval.replace(tzinfo=timezone.utc)
             except ValueError:
                 ctx.raise_vexc('wrong datetime format')
-- 
2.43.0


From 035dc94f0bb5924b104052affd4c9347fa37b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:43 +0000
Subject: [PATCH 22/84] fix: changing a container in place inside an any or
 union field lost the value to reset to

---
 jsonclasses/jsonclassify.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index e356b2c..1b8141d 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -792,12 +792,11 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype == FType.DICT:
-                self.previous_values[name] = unowned_copy_dict(
-                    getattr(self, name))
-            if field.fdef.ftype == FType.LIST:
-                self.previous_values[name] = unowned_copy_list(
-                    getattr(self, name))
+            value = getattr(self, name)
+            if isinstance(value, dict):
+                self.previous_values[name] = unowned_copy_dict(value)
+            if isinstance(value, list):
+                self.previous_values[name] = unowned_copy_list(value)
 
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
@@ -834,12 +833,11 @@ def __olist_will_change__(self, olist: OwnedList) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype == FType.DICT:
-                self.previous_values[name] = unowned_copy_dict(
-                    getattr(self, name))
-            if field.fdef.ftype == FType.LIST:
-                self.previous_values[name] = unowned_copy_list(
-                    getattr(self, name))
+            value = getattr(self, name)
+            if isinstance(value, dict):
+                self.previous_values[name] = unowned_copy_dict(value)
+            if isinstance(value, list):
+                self.previous_values[name] = unowned_copy_list(value)
 
 
 def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
-- 
2.43.0


From b3aff98bc44ec0c962b7d18fb93497212af285c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:44 +0000
Subject: [PATCH 23/84] fix: read only and write once references could be
 written through their keys

---
 jsonclasses/modifiers/instanceof_modifier.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index d0d0dc0..0c5bd3b 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -155,6 +155,11 @@ class InstanceOfModifier(Modifier):
                     if fdef.fstore == FStore.LOCAL_KEY:
                         tsfm = dest.__class__.cdef.jconf.ref_name_strategy
                         refname = tsfm(field)
+                        if fdef.write_rule == WriteRule.NO_WRITE:
+                            continue
+                        if fdef.write_rule == WriteRule.WRITE_ONCE:
+                            if getattr(dest, field.name) or getattr(dest, refname):
+                                continue
                         if ctx.val.get(refname) is not None:
                             setattr(dest, refname, ctx.val.get(refname))
                         crefname = dest.__class__.cdef.jconf.output_key_strategy(refname)
@@ -173,6 +178,10 @@ class InstanceOfModifier(Modifier):
                 cfv = getattr(dest, field.name)
                 if (cfv is not None) and (not isinstance(cfv, Types)):
                     allow_write_field = False
+                if field.fdef.fstore == FStore.LOCAL_KEY:
+                    tsfm = dest.__class__.cdef.jconf.ref_name_strategy
+                    if getattr(dest, tsfm(field)):
+                        allow_write_field = False
             if field.fdef.write_rule == WriteRule.WRITE_NONNULL:
                 if field_value is None:
                     allow_write_field = False
-- 
2.43.0


From 48a000c547bd322f5cfde6ac79fafbf7c1a3415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:52 +0000
Subject: [PATCH 24/84] fix: repeating an object in the input erased its write
 once and write nonnull values

---
 jsonclasses/modifiers/instanceof_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 0c5bd3b..a146b82 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -186,7 +186,7 @@ class InstanceOfModifier(Modifier):
                 if field_value is None:
                     allow_write_field = False
             if not allow_write_field:
-                if ctx.ctxcfg.fill_dest_blanks:
+                if ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
                     if field.fdef.fstore != FStore.CALCULATED:
                         self._fill_default_value(field, dest, ctx)
                 continue
-- 
2.43.0


From 45ef706ecb8189b789416b97d54912fc1011f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:17 +0000
Subject: [PATCH 25/84] fix: the key of a write only reference was part of the
 JSON output

---
 jsonclasses/modifiers/instanceof_modifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index a146b82..a575a6b 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -233,6 +233,8 @@ class InstanceOfModifier(Modifier):
                 rk = val.__class__.cdef.jconf.ref_name_strategy(field)
                 jrk = val.__class__.cdef.jconf.output_key_strategy(rk)
                 valatk = getattr(val, rk)
+                if fd.read_rule == ReadRule.NO_READ and not ignore_writeonly:
+                    continue
                 if output_null or (valatk is not None):
                     retval[jrk] = valatk
             if fd.fstore == FStore.LOCAL_KEY and (isrf or no_key_refs):
-- 
2.43.0


From 7b22f3f4b15430c91e6549b603d0bc3ccda6a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:26 +0000
Subject: [PATCH 26/84] fix: unlinking from the other side left a saved object
 unmodified and marked a new one

---
 jsonclasses/jsonclassify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 1b8141d..a889eb8 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -940,7 +940,9 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
                 if of.fdef.fstore == FStore.LOCAL_KEY:
                     tsfm = item.__class__.cdef.jconf.ref_name_strategy
                     item.__original_setattr__(tsfm(other_field), None)
-                    item._modified_fields.add(other_field.name)
+                    if not item.is_new:
+                        setattr(item, '_is_modified', True)
+                        item._modified_fields.add(other_field.name)
                 item._add_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
-- 
2.43.0


From c22a84420794e8ef6e9dd34f6ae61f1aac9beb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:49 +0000
Subject: [PATCH 27/84] fix: distinct objects with equal content were taken for
 one another when linking

---
 jsonclasses/jsonclassify.py | 43 +++++++++++++++++++++++++++----------
 jsonclasses/olist.py        |  6 ++++--
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a889eb8..8f80552 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -522,7 +522,7 @@ def _add_unlinked_object(self: JObject,
     """Add an object into unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj not in self._unlinked_objects[field_name]:
+    if __index_of_object__(self._unlinked_objects[field_name], obj) < 0:
         self._unlinked_objects[field_name].append(obj)
 
 
@@ -532,8 +532,9 @@ def _del_unlinked_object(self: JObject,
     """Remove an object from unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj in self._unlinked_objects[field_name]:
-        self._unlinked_objects[field_name].remove(obj)
+    index = __index_of_object__(self._unlinked_objects[field_name], obj)
+    if index >= 0:
+        del self._unlinked_objects[field_name][index]
 
 
 def _clear_unlinked_object(self: JObject) -> None:
@@ -662,6 +663,19 @@ def _previous_id(self: JObject) -> str | int | None:
     return self._id
 
 
+def __index_of_object__(objects: list[Any], obj: Any) -> int:
+    """Index of the very object in a list of objects, -1 if it isn't there."""
+    return next((i for i, o in enumerate(objects) if o is obj), -1)
+
+
+def __is_same_reference__(value: Any, current: Any) -> bool:
+    """Whether two values of a reference field refer to the same objects."""
+    if isinstance(value, list) and isinstance(current, list):
+        return (len(value) == len(current)
+                and all(v is c for v, c in zip(value, current)))
+    return value is current
+
+
 def __is_private_attr__(name: str) -> bool:
     """Returns true if the attribute name indicates private attribute."""
     return name.startswith('_')
@@ -722,8 +736,13 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 ctx = Ctx.rootctxp(self, name, None, value)
                 field.fdef.setter.modifier.transform(ctx)
             return
-    if hasattr(self, name) and value == getattr(self, name):
-        return
+    if hasattr(self, name):
+        current = getattr(self, name)
+        if isjsonobject(value) or field.fdef.is_ref:
+            if __is_same_reference__(value, current):
+                return
+        elif value == current:
+            return
     # track modified and previous value
     if not self.is_new:
         setattr(self, '_is_modified', True)
@@ -887,8 +906,8 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
                 # TODO: reorder flist here
                 # TODO: replace the underneath implementation
                 match = next((v for v in flist if v._id == val), "PLACEHOLDER")
-                if match != "PLACEHOLDER":
-                    flist.remove(match)
+                if not isinstance(match, str):
+                    del flist[__index_of_object__(flist, match)]
         return
     try:
         field = cdef.field_named(olist.keypath)
@@ -947,8 +966,9 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
             if isinstance(other_list, list):
-                if self in other_list:
-                    other_list.remove(self)
+                index = __index_of_object__(other_list, self)
+                if index >= 0:
+                    del other_list[index]
                     item._add_unlinked_object(other_field.name, self)
 
 
@@ -968,7 +988,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
         if other_field is None:
             return
         if other_field.fdef.ftype == FType.INSTANCE:
-            if getattr(item, other_field.name) != self:
+            if getattr(item, other_field.name) is not self:
                 setattr(item, other_field.name, self)
                 item._del_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
@@ -976,7 +996,8 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
                 setattr(item, other_field.name, [self])
                 item._del_unlinked_object(other_field.name, self)
             else:
-                if self not in getattr(item, other_field.name):
+                other_list = getattr(item, other_field.name)
+                if __index_of_object__(other_list, self) < 0:
                     getattr(item, other_field.name).append(self)
                     item._del_unlinked_object(other_field.name, self)
         self.__link_graph__(item)
diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 4a89544..5f20bc9 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -69,9 +69,11 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         self.owner.__olist_add__(self, idx, value)
 
     def remove(self, value: _T) -> None:
+        index = self.index(value)
+        removed = self[index]
         self.owner.__olist_will_change__(self)
-        super().remove(value)
-        self.owner.__olist_del__(self, value)
+        super().__delitem__(index)
+        self.owner.__olist_del__(self, removed)
 
     def sort(self, **kwargs) -> None:  # TODO: fix argument type hint
         self.owner.__olist_will_change__(self)
-- 
2.43.0


From b8de2782347de2ecb18b755ebe76c77ebfc3511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:45 +0000
Subject: [PATCH 28/84] fix: an assigned list of reference keys was not owned
 and not tracked

---
 jsonclasses/jsonclassify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 8f80552..c7703ee 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -701,6 +701,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 # in the future, may query object from graph
                 self.__original_setattr__(name, value)
                 setattr(self, field_name, None)
+                self.__original_setattr__(name, value)
         elif field.fdef.ftype == FType.LIST:
             olist = to_owned_list(self, value or [], name)
             self.__original_setattr__(name, olist)
@@ -716,9 +717,12 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                     if existitem is not None:
                         new_list.append(existitem)
                 setattr(self, field_name, new_list)
+            olist = to_owned_list(self, value or [], name)
+            self.__original_setattr__(name, olist)
         if not self.is_new:
             setattr(self, '_is_modified', True)
             self._modified_fields.add(field_name)
+        return
     # use original setattr for non JSON class fields
     try:
         field = self.__class__.cdef.field_named(name)
-- 
2.43.0


From 30df7384e80bc1d858c7281eda060d19929f0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:51 +0000
Subject: [PATCH 29/84] fix: item assignment, slices and sorting on a reference
 list left stale keys

---
 jsonclasses/jsonclassify.py | 50 +++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index c7703ee..76253cd 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -878,13 +878,9 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
     if field is not None and field.fdef.is_ref:
         self.__link_field__(field, [val])
         if field.fdef.fstore == FStore.LOCAL_KEY:
-            rkes = cdef.jconf.ref_name_strategy
-            rk = rkes(field)
-            rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
-                if val._id is None:
-                    raise ValueError('a referenced object must have a valid primary key')
-                rlist.insert(idx, val._id)
+            if val._id is None:
+                raise ValueError('a referenced object must have a valid primary key')
+            self.__mirror_local_keys__(field, olist)
     if isinstance(val, dict):
         list.__setitem__(olist, idx, to_owned_dict(
             self, val, concat_keypath(olist.keypath, idx)))
@@ -906,7 +902,7 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             self._is_modified = True
         flist = getattr(self, fname)
         if isinstance(flist, list):
-            if len(flist) != len(olist):
+            if val not in olist:
                 # TODO: reorder flist here
                 # TODO: replace the underneath implementation
                 match = next((v for v in flist if v._id == val), "PLACEHOLDER")
@@ -920,13 +916,8 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
     if field and field.fdef.is_ref:
         self.__unlink_field__(field, [val])
         if field.fdef.fstore == FStore.LOCAL_KEY:
-            ## TODO: replace the underneath implementation
-            rkes = cdef.jconf.ref_name_strategy
-            rk = rkes(field)
-            rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
-                if val is not None and val._id in rlist:
-                    rlist.remove(val._id)
+            self.__mirror_local_keys__(
+                field, olist, None if val is None else val._id)
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
@@ -934,13 +925,39 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
 
 
 def __olist_sor__(self, olist: OwnedList) -> None:
-    # TODO: sort local keys here
+    cdef = self.__class__.cdef
+    if olist.keypath in self._local_keys:
+        if not self.is_new:
+            setattr(self, '_is_modified', True)
+            self._modified_fields.add(self._local_key_map[olist.keypath])
+        return
+    try:
+        field = cdef.field_named(olist.keypath)
+    except ValueError:
+        field = None
+    if field is not None and field.fdef.fstore == FStore.LOCAL_KEY:
+        self.__mirror_local_keys__(field, olist)
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
         self._modified_fields.add(olist.keypath)
 
 
+def __mirror_local_keys__(self: JObject,
+                          field: JField,
+                          objects: list[JObject],
+                          removed: str | int | None = None) -> None:
+    """Make the list of local keys follow the list of linked objects. Keys of
+    which the objects are not loaded are kept.
+    """
+    keys = getattr(self, self.__class__.cdef.jconf.ref_name_strategy(field))
+    ids = [o._id for o in objects if o is not None and o._id is not None]
+    kept = [k for k in keys if k in ids or k != removed]
+    if [k for k in kept if k in ids] != ids:
+        kept = ids + [k for k in kept if k not in ids]
+    list.__setitem__(keys, slice(None), kept)
+
+
 def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
     items: list[JObject] = []
     if field.fdef.ftype == FType.INSTANCE:
@@ -1098,6 +1115,7 @@ def jsonclassify(class_: type) -> type[JObject]:
     class_.__olist_add__ = __olist_add__
     class_.__olist_del__ = __olist_del__
     class_.__olist_sor__ = __olist_sor__
+    class_.__mirror_local_keys__ = __mirror_local_keys__
     class_.__unlink_field__ = __unlink_field__
     class_.__link_field__ = __link_field__
     class_.__link_graph__ = __link_graph__
-- 
2.43.0


From 3671bfcc768cd13d5cd387736d1f07171d49791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:24 +0000
Subject: [PATCH 30/84] fix: slice assignment unlinked objects that stay in the
 list

---
 jsonclasses/jsonclassify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 76253cd..20aa616 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -914,7 +914,8 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
     except ValueError:
         field = None
     if field and field.fdef.is_ref:
-        self.__unlink_field__(field, [val])
+        if __index_of_object__(olist, val) < 0:
+            self.__unlink_field__(field, [val])
         if field.fdef.fstore == FStore.LOCAL_KEY:
             self.__mirror_local_keys__(
                 field, olist, None if val is None else val._id)
-- 
2.43.0


From a01fb1f3b1bc2219b5255e06c19124c46bc09009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:11 +0000
Subject: [PATCH 31/84] fix: linking from the other side dropped the keys of
 objects not loaded

---
 jsonclasses/jsonclassify.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 20aa616..ff2e12c 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -1014,6 +1014,14 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
                 setattr(item, other_field.name, self)
                 item._del_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
+            if other_field.fdef.fstore == FStore.LOCAL_KEY:
+                # the objects aren't loaded, don't lose their keys
+                rkes = item.__class__.cdef.jconf.ref_name_strategy
+                if getattr(item, other_field.name) is None:
+                    if getattr(item, rkes(other_field)):
+                        item.__original_setattr__(
+                            other_field.name,
+                            to_owned_list(item, [], other_field.name))
             if not isinstance(getattr(item, other_field.name), list):
                 setattr(item, other_field.name, [self])
                 item._del_unlinked_object(other_field.name, self)
-- 
2.43.0


From 9146e7c0e69193ab0d9abe8c3745b49215d7f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:32 +0000
Subject: [PATCH 32/84] fix: saving several unlinked objects that share an
 owner crashed

---
 jsonclasses/jsonclassify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index ff2e12c..9108045 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -349,9 +349,9 @@ def save(self: JObject,
         self.validate(all_fields=validate_all_fields)
     self._set_on_save()
     self._database_write()
-    for _, lst in self.unlinked_objects.items():
-        for item in list(lst):
-            lst.remove(item)
+    for lst in list(self.unlinked_objects.values()):
+        while lst:
+            item = lst.pop(0)
             item.save(validate_all_fields=validate_all_fields,
                       skip_validation=skip_validation)
     return self
-- 
2.43.0


From d5106d04cd067141b0b6d2c2b0de1592c384e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:56 +0000
Subject: [PATCH 33/84] fix: items of read only and write once fields could be
 written through key paths

---
 jsonclasses/jsonclassify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 9108045..3355157 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union, cast
 from inspect import signature, getmro
 from .jobject import JObject
 from .ctx import Ctx, CtxCfg
-from .fdef import FDef, FStore, FType
+from .fdef import FDef, FStore, FType, WriteRule
 from .types import Types
 from .modifiers.instanceof_modifier import InstanceOfModifier
 from .jfield import JField
@@ -82,6 +82,10 @@ def _keypath_set(self: JObject, kwargs: dict[str, Any]) -> None:
         items = keypath_split(key)
         dest = getattr(self, items[0])
         fdef = self.__class__.cdef.field_named(items[0]).types.fdef
+        if fdef.write_rule == WriteRule.NO_WRITE:
+            continue
+        if fdef.write_rule == WriteRule.WRITE_ONCE and dest is not None:
+            continue
         used_items = [items[0]]
         self._set_to_container(dest, items[1:], value, fdef, used_items)
 
-- 
2.43.0


From d52882083170948e9bb9ddf759c8c5e8b55bac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:36 +0000
Subject: [PATCH 34/84] fix: a write once reference with key 0 could be written
 again

---
 jsonclasses/modifiers/instanceof_modifier.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index a575a6b..5b488ca 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -158,7 +158,9 @@ class InstanceOfModifier(Modifier):
                         if fdef.write_rule == WriteRule.NO_WRITE:
                             continue
                         if fdef.write_rule == WriteRule.WRITE_ONCE:
-                            if getattr(dest, field.name) or getattr(dest, refname):
+                            if getattr(dest, field.name):
+                                continue
+                            if getattr(dest, refname) not in (None, []):
                                 continue
                         if ctx.val.get(refname) is not None:
                             setattr(dest, refname, ctx.val.get(refname))
@@ -180,7 +182,7 @@ class InstanceOfModifier(Modifier):
                     allow_write_field = False
                 if field.fdef.fstore == FStore.LOCAL_KEY:
                     tsfm = dest.__class__.cdef.jconf.ref_name_strategy
-                    if getattr(dest, tsfm(field)):
+                    if getattr(dest, tsfm(field)) not in (None, []):
                         allow_write_field = False
             if field.fdef.write_rule == WriteRule.WRITE_NONNULL:
                 if field_value is None:
-- 
2.43.0


From 3237a0f5d1bb29339d289247e7d063c559e315cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:37 +0000
Subject: [PATCH 35/84] fix: nested dicts and unions in string annotations were
 misread

---
 jsonclasses/rtypes.py | 43 +++++++------------------------------------
 1 file changed, 7 insertions(+), 36 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index d23e43e..bba857c 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -7,7 +7,7 @@ from typing import (
 )
 from datetime import date, datetime
 from enum import Enum
-from re import match, split
+from re import match
 from .excs import UnresolvedTypeNameException
 if TYPE_CHECKING:
     from .types import Types
@@ -45,7 +45,7 @@ def apply_link_specifier(types: Types, specifier: str) -> Types:
     else:
         raise TypeError(f"wrong format of link specifier '{specifier}'")
 
-def union_split(arg: str) -> list[str]:
+def union_split(arg: str, separator: str = '|') -> list[str]:
     result = ['']
     depth = 0
     for c in arg:
@@ -56,7 +56,7 @@ def union_split(arg: str) -> list[str]:
             case ']':
                 depth -= 1
                 result[-1] += c
-            case '|':
+            case _ if c == separator:
                 if depth < 1:
                     result.append('')
                 else:
@@ -65,30 +65,6 @@ def union_split(arg: str) -> list[str]:
                 result[-1] += c
     return [r.strip() for r in result]
 
-def merge_back_dicts(args: list[str]) -> list[str]:
-    """This method is used for union arguments parsing. When union contains
-    dict, dict is separated wrongly by split method. This function merge
-    dicts back.
-
-    Args:
-        args (list[str]): A list of string tokens.
-
-    Returns:
-        list[str]: The renovated string tokens.
-    """
-    retval = []
-    do_not_push_next = False
-    for idx, arg in enumerate(args):
-        if do_not_push_next:
-            do_not_push_next = False
-            continue
-        if match('^[Dd]ict\\[', arg):
-            retval.append(arg + ', ' + args[idx + 1])
-            do_not_push_next = True
-        else:
-            retval.append(arg)
-    return retval
-
 def str_to_types(anytypes: str, opt: bool = False) -> Types:
     """
     Convert user specified string described types to types.
@@ -123,13 +99,8 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 match_data = match('^Union\\[(.*)\\]', anytypes)
                 assert match_data is not None
                 all_item_types = match_data.group(1)
-                types_to_build_union = split(", *", all_item_types)
-                types_to_build_union = merge_back_dicts(types_to_build_union)
-                results = []
-                for t in types_to_build_union:
-                    results.append(str_to_types(t, True))
-                union = types.union(results)
-                return union if opt else union.required
+                return str_to_types(
+                    ' | '.join(union_split(all_item_types, ',')), opt)
             elif anytypes.startswith('Optional['):
                 match_data = match('^Optional\\[(.*)\\]', anytypes)
                 assert match_data is not None
@@ -142,9 +113,9 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 list_type = types.listof(str_to_types(item_type))
                 return list_type if opt else list_type.required
             elif match('^[Dd]ict\\[', anytypes):
-                match_data = match('[Dd]ict\\[.+, *(.*)\\]', anytypes)
+                match_data = match('[Dd]ict\\[(.+)\\]', anytypes)
                 assert match_data is not None
-                item_type = match_data.group(1)
+                item_type = union_split(match_data.group(1), ',')[1]
                 dict_type = types.dictof(str_to_types(item_type))
                 return dict_type if opt else dict_type.required
             elif anytypes.startswith('Annotated['):
-- 
2.43.0


From 56457ae3b42e5ee7abf86b128f02e2670f6c0eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:45 +0000
Subject: [PATCH 36/84] fix: an optional forward reference was treated as
 required

---
 jsonclasses/rtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index bba857c..535ac71 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -155,7 +155,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
     """
     from .types import types
     if isinstance(anytypes, str):
-        return str_to_types(anytypes)
+        return str_to_types(anytypes, opt)
     elif anytypes is str:
         return types.str if opt else types.str.required
     elif anytypes is int:
@@ -208,7 +208,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
         instance_type = types.objof(anytypes)
         return instance_type if opt else instance_type.required
     elif isinstance(anytypes, ForwardRef):
-        return str_to_types(anytypes.__forward_arg__)
+        return str_to_types(anytypes.__forward_arg__, opt)
     else:
         raise ValueError(f'{anytypes} is not a valid JSON Class type.')
 
-- 
2.43.0


From 8465b03cb97effffcf1b5e551bf8c36ddfc18381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:51 +0000
Subject: [PATCH 37/84] fix: union annotations written with a bar were refused

---
 jsonclasses/rtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index 535ac71..b77e63d 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -8,6 +8,7 @@ from typing import (
 from datetime import date, datetime
 from enum import Enum
 from re import match
+from types import UnionType
 from .excs import UnresolvedTypeNameException
 if TYPE_CHECKING:
     from .types import Types
@@ -176,7 +177,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
     elif get_origin(anytypes) is dict:
         dict_type = types.dictof(get_args(anytypes)[1])
         return dict_type if opt else dict_type.required
-    elif get_origin(anytypes) == Union:
+    elif get_origin(anytypes) in (Union, UnionType):
         required: bool = True
         types_to_build_union: list[Any] = []
         args = get_args(anytypes)
-- 
2.43.0


From 602f3ceaabfd791ab2c487fd4b59bf345f4074ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:21 +0000
Subject: [PATCH 38/84] fix: an input key named self crashed instead of being
 rejected

---
 jsonclasses/jsonclassify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 3355157..90fa452 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -27,7 +27,7 @@ from .orm import ORMObject
 
 
 
-def __init__(self: JObject, **kwargs: dict[str, Any]) -> None:
+def __init__(self: JObject, /, **kwargs: dict[str, Any]) -> None:
     """Initialize a new jsonclass object from keyed arguments or a dict.
     This method is suitable for accepting web and malformed inputs. Eager
     validation and transformation are applied during the initialization
@@ -56,7 +56,7 @@ def __init__(self: JObject, **kwargs: dict[str, Any]) -> None:
         pass
 
 
-def jsonobject_set(self: JObject, **kwargs: dict[str, Any]) -> JObject:
+def jsonobject_set(self: JObject, /, **kwargs: dict[str, Any]) -> JObject:
     """Set object values in a batch. This method is suitable for web and
     fraud inputs. This method takes accessor marks into consideration,
     means readonly and internal field values will be just ignored.
@@ -121,7 +121,7 @@ def _set_to_container(self: JObject,
             self._set_to_container(dest[items[0]], items[1:], value, fdef, used_items + [items[0]])
 
 
-def update(self: JObject, **kwargs: dict[str, Any]) -> JObject:
+def update(self: JObject, /, **kwargs: dict[str, Any]) -> JObject:
     """Update object values in a batch. This method is suitable for
     internal inputs. This method ignores accessor marks, thus you can
     update readonly and internal values through this method. Writeonce
-- 
2.43.0


From 095b934d8e1cd5f25a4b36bd132070c5441a23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:13 +0000
Subject: [PATCH 39/84] fix: reference keys of objects not loaded were lost
 when reading JSON output back

---
 jsonclasses/modifiers/instanceof_modifier.py | 21 ++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 5b488ca..cb27f1b 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -99,6 +99,25 @@ class InstanceOfModifier(Modifier):
             field_value = ctx.val.get(field.name)
         return field_value
 
+    def _keep_unloaded_keys(self, field: JField, dest: JObject, ctx: Ctx):
+        """An input can contain both a reference and its key. Don't lose the
+        keys of which the objects are not present.
+        """
+        jconf = dest.__class__.cdef.jconf
+        refname = jconf.ref_name_strategy(field)
+        keys = ctx.val.get(refname)
+        if keys is None:
+            keys = ctx.val.get(jconf.output_key_strategy(refname))
+        if keys is None:
+            return
+        current = getattr(dest, field.name)
+        if field.fdef.ftype == FType.LIST:
+            if isinstance(keys, list) and \
+                    all(getattr(o, '_id', None) in keys for o in current or []):
+                setattr(dest, refname, keys)
+        elif current is None:
+            setattr(dest, refname, keys)
+
     # pylint: disable=arguments-differ, too-many-locals, too-many-branches
     def transform(self, ctx: Ctx) -> Any:
         from ..types import Types
@@ -196,6 +215,8 @@ class InstanceOfModifier(Modifier):
             tsfmd = field.types.modifier.transform(fctx)
             if field.fdef.fstore != FStore.CALCULATED:
                 setattr(dest, field.name, tsfmd)
+            if field.fdef.fstore == FStore.LOCAL_KEY:
+                self._keep_unloaded_keys(field, dest, ctx)
         for cname in nonnull_ref_lists:
             if getattr(dest, cname) is None:
                 setattr(dest, cname, [])
-- 
2.43.0


From bc90040ad45208d07504339403aba2bf4dd92c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:02 +0000
Subject: [PATCH 40/84] fix: class definitions were copied with field
 definitions, first use of collection fields took exponential time

---
 jsonclasses/cdef.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index 27da2c8..62fdf92 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -100,6 +100,12 @@ class CDef:
                 self._auth_by_fields.append(jfield)
         self._tuple_fields: tuple[JField, ...] = tuple(self._list_fields)
 
+    def __deepcopy__(self: CDef, memo: dict[int, Any]) -> CDef:
+        """A class has only one class definition. It's never copied along with
+        the field definitions which refer to it.
+        """
+        return self
+
     @property
     def cls(self: CDef) -> type:
         """The JSON class on which this class definition is defined.
-- 
2.43.0


From 502f65b2742c46558767511ff35425b5c57ba29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:25 +0000
Subject: [PATCH 41/84] fix: remember every object of a one sided reference
 list when unlinking

---
 jsonclasses/jsonclassify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 90fa452..8390525 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -977,7 +977,7 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
         self._add_unlinked_object(field.name, item)
         other_field = field.foreign_field
         if other_field is None:
-            return
+            continue
         if other_field.fdef.ftype == FType.INSTANCE:
             if getattr(item, other_field.name) is self:
                 item.__original_setattr__(other_field.name, None)
@@ -1012,7 +1012,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
         self._del_unlinked_object(field.name, item)
         other_field = field.foreign_field
         if other_field is None:
-            return
+            continue
         if other_field.fdef.ftype == FType.INSTANCE:
             if getattr(item, other_field.name) is not self:
                 setattr(item, other_field.name, self)
-- 
2.43.0


From 331801341aede47464fd67eb6759ae4deb380a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:12 +0000
Subject: [PATCH 42/84] fix: compare naive and aware datetimes in before and
 after

---
 jsonclasses/modifiers/after_modifier.py  | 40 +++++++++++++-----------
 jsonclasses/modifiers/before_modifier.py | 15 ++++-----
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/jsonclasses/modifiers/after_modifier.py b/jsonclasses/modifiers/after_modifier.py
index 39bbe56..86ef74a 100644
--- a/jsonclasses/modifiers/after_modifier.py
+++ b/jsonclasses/modifiers/after_modifier.py
@@ -1,13 +1,26 @@
 """module for after modifier."""
 from __future__ import annotations
-from typing import Callable, TYPE_CHECKING
-from datetime import date, datetime
+from typing import Any, Callable, TYPE_CHECKING
+from datetime import date, datetime, timezone
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
     from ..types import Types
 
 
+def moment(value: Any) -> datetime | None:
+    """The comparable moment of a date or a datetime. Dates begin at midnight,
+    datetimes without timezone are in UTC. Other values have no moment.
+    """
+    if not isinstance(value, date):
+        return None
+    if not isinstance(value, datetime):
+        value = datetime.combine(value, datetime.min.time())
+    if value.tzinfo is None:
+        value = value.replace(tzinfo=timezone.utc)
+    return value
+
+
 class AfterModifier(Modifier):
     """After modifier validates date against after date."""
 
@@ -17,20 +30,9 @@ class AfterModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             return
-        value = ctx.val
-        point = self.resolve_param(self.point, ctx)
-        if type(value) is date and type(point) is date:
-            if value <= point:
-                ctx.raise_vexc('value is too early')
-        if type(value) is datetime and type(point) is datetime:
-            if value <= point:
-                ctx.raise_vexc('value is too early')
-        else:
-            value = value
-            point = point
-            if type(value) is date:
-                value = datetime.combine(value, datetime.min.time())
-            if type(point) is date:
-                point = datetime.combine(point, datetime.min.time())
-            if value <= point:
-                ctx.raise_vexc('value is too early')
+        value = moment(ctx.val)
+        point = moment(self.resolve_param(self.point, ctx))
+        if value is None or point is None:
+            return
+        if value <= point:
+            ctx.raise_vexc('value is too early')
diff --git a/jsonclasses/modifiers/before_modifier.py b/jsonclasses/modifiers/before_modifier.py
index 2ed8c69..a0e7299 100644
--- a/jsonclasses/modifiers/before_modifier.py
+++ b/jsonclasses/modifiers/before_modifier.py
@@ -1,7 +1,8 @@
 """module for before modifier."""
 from __future__ import annotations
-from typing import Callable, Union, TYPE_CHECKING
+from typing import Callable, TYPE_CHECKING
 from datetime import date, datetime
+from .after_modifier import moment
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -16,13 +17,9 @@ class BeforeModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             return
-        value = ctx.val
-        point = self.resolve_param(self.point, ctx)
-        if type(value) is date:
-            value = datetime.combine(ctx.val, datetime.min.time())
-        if type(point) is date:
-            point = datetime.combine(self.resolve_param(self.point, ctx), datetime.min.time())
-        if point is None:
-            return ctx.val
+        value = moment(ctx.val)
+        point = moment(self.resolve_param(self.point, ctx))
+        if value is None or point is None:
+            return
         if value >= point:
             ctx.raise_vexc('value is too late')
-- 
2.43.0


From 3b9947f707811719db2df779f3455b80730bcb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:11 +0000
Subject: [PATCH 43/84] fix: hexcolor and url must match the whole value

---
 jsonclasses/modifiers/hexcolor_modifier.py | 4 ++--
 jsonclasses/modifiers/url_modifier.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/hexcolor_modifier.py b/jsonclasses/modifiers/hexcolor_modifier.py
index 8751d34..a7c64db 100644
--- a/jsonclasses/modifiers/hexcolor_modifier.py
+++ b/jsonclasses/modifiers/hexcolor_modifier.py
@@ -1,7 +1,7 @@
 """module for hexcolor modifier."""
 from __future__ import annotations
 from typing import Any, cast, TYPE_CHECKING
-from re import compile, match
+from re import compile
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,5 +20,5 @@ class HexColorModifier(Modifier):
         return ctx.val
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, str) and match(hex_color_regex, ctx.val) is None:
+        if isinstance(ctx.val, str) and hex_color_regex.fullmatch(ctx.val) is None:
             ctx.raise_vexc('value is not hex color string')
\ No newline at end of file
diff --git a/jsonclasses/modifiers/url_modifier.py b/jsonclasses/modifiers/url_modifier.py
index 8326996..378effb 100644
--- a/jsonclasses/modifiers/url_modifier.py
+++ b/jsonclasses/modifiers/url_modifier.py
@@ -1,7 +1,7 @@
 """module for match modifier."""
 from __future__ import annotations
 from typing import TYPE_CHECKING
-from re import compile, match, IGNORECASE
+from re import compile, IGNORECASE
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,5 +20,5 @@ class UrlModifier(Modifier):
     """URL modifier raises if value is not valid url."""
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, str) and match(url_regex, ctx.val) is None:
+        if isinstance(ctx.val, str) and url_regex.fullmatch(ctx.val) is None:
             ctx.raise_vexc('value is not valid url string')
-- 
2.43.0


From 57859ef65233c0297933093c76bf030df936f6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:56 +0000
Subject: [PATCH 44/84] fix: prefix and suffix rules report a text checked
 against a list instead of crashing

---
 jsonclasses/modifiers/hasprefix_modifier.py  | 3 ++-
 jsonclasses/modifiers/hassuffix_modifier.py  | 3 ++-
 jsonclasses/modifiers/isprefixof_modifier.py | 3 ++-
 jsonclasses/modifiers/issuffixof_modifier.py | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/hasprefix_modifier.py b/jsonclasses/modifiers/hasprefix_modifier.py
index 22ff304..4b1eac1 100644
--- a/jsonclasses/modifiers/hasprefix_modifier.py
+++ b/jsonclasses/modifiers/hasprefix_modifier.py
@@ -19,5 +19,6 @@ class HasPrefixModifier(Modifier):
             if not ctx.val[:len(prefix)] == prefix:
                 ctx.raise_vexc('prefix is not found')
         elif type(ctx.val) is str:
-            if not ctx.val.startswith(self.resolve_param(self.prefix, ctx)):
+            prefix = self.resolve_param(self.prefix, ctx)
+            if isinstance(prefix, list) or not ctx.val.startswith(prefix):
                 ctx.raise_vexc('prefix is not found')
diff --git a/jsonclasses/modifiers/hassuffix_modifier.py b/jsonclasses/modifiers/hassuffix_modifier.py
index c3d0d25..6adf3ef 100644
--- a/jsonclasses/modifiers/hassuffix_modifier.py
+++ b/jsonclasses/modifiers/hassuffix_modifier.py
@@ -19,5 +19,6 @@ class HasSuffixModifier(Modifier):
             if len(suffix) > 0 and not ctx.val[-len(suffix):] == suffix:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
-            if not ctx.val.endswith(self.resolve_param(self.suffix, ctx)):
+            suffix = self.resolve_param(self.suffix, ctx)
+            if isinstance(suffix, list) or not ctx.val.endswith(suffix):
                 ctx.raise_vexc('suffix is not found')
diff --git a/jsonclasses/modifiers/isprefixof_modifier.py b/jsonclasses/modifiers/isprefixof_modifier.py
index 7b5d08e..f824430 100644
--- a/jsonclasses/modifiers/isprefixof_modifier.py
+++ b/jsonclasses/modifiers/isprefixof_modifier.py
@@ -18,5 +18,6 @@ class IsPrefixOfModifier(Modifier):
             if not self.resolve_param(self.prefix, ctx)[:len(ctx.val)] == ctx.val:
                 ctx.raise_vexc('prefix is not found')
         elif type(ctx.val) is str:
-            if not self.resolve_param(self.prefix, ctx).startswith(ctx.val):
+            prefix = self.resolve_param(self.prefix, ctx)
+            if isinstance(prefix, list) or not prefix.startswith(ctx.val):
                 ctx.raise_vexc('prefix is not found')
diff --git a/jsonclasses/modifiers/issuffixof_modifier.py b/jsonclasses/modifiers/issuffixof_modifier.py
index f9328ae..367433d 100644
--- a/jsonclasses/modifiers/issuffixof_modifier.py
+++ b/jsonclasses/modifiers/issuffixof_modifier.py
@@ -19,5 +19,6 @@ class IsSuffixOfModifier(Modifier):
             if len(ctx.val) > 0 and not suffix[-len(ctx.val):] == ctx.val:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
-            if not self.resolve_param(self.suffix, ctx).endswith(ctx.val):
+            suffix = self.resolve_param(self.suffix, ctx)
+            if isinstance(suffix, list) or not suffix.endswith(ctx.val):
                 ctx.raise_vexc('suffix is not found')
-- 
2.43.0


From ea9c9ff3711224f0a871780ffd985aede5860246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:07 +0000
Subject: [PATCH 45/84] fix: random strings can be longer than their alphabet

---
 jsonclasses/modifiers/random_alnumpuncs_modifier.py | 4 ++--
 jsonclasses/modifiers/random_alnums_modifier.py     | 4 ++--
 jsonclasses/modifiers/random_digits_modifier.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/modifiers/random_alnumpuncs_modifier.py b/jsonclasses/modifiers/random_alnumpuncs_modifier.py
index 068d9eb..0add636 100644
--- a/jsonclasses/modifiers/random_alnumpuncs_modifier.py
+++ b/jsonclasses/modifiers/random_alnumpuncs_modifier.py
@@ -1,7 +1,7 @@
 """module for random alnumpuncs modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,4 +20,4 @@ class RandomAlnumpuncsModifier(Modifier):
         punctuation = r"""!"#$%&'()*+,-./:;<=>?@[\]^_`{|}~"""
         digits = '0123456789'
         ascii_letters = ascii_lowercase + ascii_uppercase
-        return ''.join(sample(punctuation+ascii_letters+digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(punctuation+ascii_letters+digits, k=self.resolve_param(self.length, ctx)))
diff --git a/jsonclasses/modifiers/random_alnums_modifier.py b/jsonclasses/modifiers/random_alnums_modifier.py
index 3606493..7827130 100644
--- a/jsonclasses/modifiers/random_alnums_modifier.py
+++ b/jsonclasses/modifiers/random_alnums_modifier.py
@@ -1,7 +1,7 @@
 """module for random alnums modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -19,4 +19,4 @@ class RandomAlnumsModifier(Modifier):
         ascii_uppercase = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
         digits = '0123456789'
         ascii_letters = ascii_lowercase + ascii_uppercase
-        return ''.join(sample(ascii_letters+digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(ascii_letters+digits, k=self.resolve_param(self.length, ctx)))
diff --git a/jsonclasses/modifiers/random_digits_modifier.py b/jsonclasses/modifiers/random_digits_modifier.py
index e3f2c90..1141e89 100644
--- a/jsonclasses/modifiers/random_digits_modifier.py
+++ b/jsonclasses/modifiers/random_digits_modifier.py
@@ -1,7 +1,7 @@
 """module for random digits modifier."""
 from __future__ import annotations
 from typing import Any, TYPE_CHECKING, Callable
-from random import sample
+from random import choices
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -16,4 +16,4 @@ class RandomDigitsModifier(Modifier):
 
     def transform(self, ctx: Ctx) -> Any:
         digits = '0123456789'
-        return ''.join(sample(digits, self.resolve_param(self.length, ctx)))
+        return ''.join(choices(digits, k=self.resolve_param(self.length, ctx)))
-- 
2.43.0


From 5bb79edc6536761e5b7cf7a5ff37dd26be2cd284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:13 +0000
Subject: [PATCH 46/84] fix: prepending a number to a text works like appending
 it

---
 jsonclasses/modifiers/prepend_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/prepend_modifier.py b/jsonclasses/modifiers/prepend_modifier.py
index a9496fa..60a387b 100644
--- a/jsonclasses/modifiers/prepend_modifier.py
+++ b/jsonclasses/modifiers/prepend_modifier.py
@@ -17,6 +17,6 @@ class PrependModifier(Modifier):
         if isinstance(ctx.val, list):
             return [self.resolve_param(self.item, ctx)] + ctx.val
         elif type(ctx.val) is str:
-            return self.resolve_param(self.item, ctx) + ctx.val
+            return str(self.resolve_param(self.item, ctx)) + ctx.val
         else:
             return ctx.val
-- 
2.43.0


From 23763cdbccf4a5ad20fa96dcc3be18e872728137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:18 +0000
Subject: [PATCH 47/84] fix: truncating a value without slices leaves it to the
 type check

---
 jsonclasses/modifiers/truncate_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/truncate_modifier.py b/jsonclasses/modifiers/truncate_modifier.py
index a552e14..1ccbb24 100644
--- a/jsonclasses/modifiers/truncate_modifier.py
+++ b/jsonclasses/modifiers/truncate_modifier.py
@@ -14,4 +14,4 @@ class TruncateModifier(Modifier):
         self.mlen = mlen
 
     def transform(self, ctx: Ctx) -> Any:
-        return ctx.val[:self.resolve_param(self.mlen, ctx)] if hasattr(ctx.val, '__len__') else ctx.val
+        return ctx.val[:self.resolve_param(self.mlen, ctx)] if isinstance(ctx.val, (str, list)) else ctx.val
-- 
2.43.0


From cb425fdf67f99925c2841a7550600ff2a26605f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:24 +0000
Subject: [PATCH 48/84] fix: tsupdated starts with the same kind of time stamp
 it is updated to

---
 jsonclasses/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index c80d2ac..96447ef 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -1305,7 +1305,7 @@ class Types:
         """This modifier adds a default current time and a set on save.
         """
         return Types(self,
-                     DefaultModifier(datetime.now),
+                     DefaultModifier(lambda: datetime.now(timezone.utc)),
                      PreserializeModifier(),
                      SetOnSaveModifier(lambda: datetime.now(timezone.utc)))
 
-- 
2.43.0


From aff1b2507de5a7f971e79d73dde68ea37addf877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:30 +0000
Subject: [PATCH 49/84] fix: umininterval accepts the first time stamp of a
 saved object

---
 jsonclasses/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index 96447ef..f027bed 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -1313,7 +1313,7 @@ class Types:
         """This modifier compares old and new value against the time interval.
         """
         def compare_callable(old: datetime, new: datetime):
-            if new >= old + interval:
+            if old is None or new is None or new >= old + interval:
                 return None
             return 'time interval too short'
         return Types(self,
-- 
2.43.0


From 9303cb1c7a299ea6c98936c90c931808946c0261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:19 +0000
Subject: [PATCH 50/84] fix: a transformer after the save point does not run
 save hooks twice or early

---
 jsonclasses/modifiers/chained_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/chained_modifier.py b/jsonclasses/modifiers/chained_modifier.py
index 21b469c..0360cb5 100644
--- a/jsonclasses/modifiers/chained_modifier.py
+++ b/jsonclasses/modifiers/chained_modifier.py
@@ -32,7 +32,8 @@ class ChainedModifier(Modifier):
         return self.vs.index(v) if v is not None else None
 
     def _last_vidx(self, cls: type[Modifier]) -> Optional[int]:
-        v = next((v for v in self.vs[::-1] if isinstance(v, cls)), None)
+        vs = self.vs[:self._fpvidx]
+        v = next((v for v in vs[::-1] if isinstance(v, cls)), None)
         return self.vs.index(v) if v is not None else None
 
     @property
@@ -50,7 +51,6 @@ class ChainedModifier(Modifier):
         This is from the beginning to the last eager modifier before the first
         preserialize modifier.
         """
-        # TODO: accounting into e and p
         return self.vs[:self._levidx] if self._levidx is not None else []
 
     @property
-- 
2.43.0


From 8c59632dd4321809abee855e95a1f33821ffd214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:08 +0000
Subject: [PATCH 51/84] fix: two objects with equal primary keys are both
 validated and saved

---
 jsonclasses/mgraph.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index ecbd0c9..a5349a9 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -13,10 +13,9 @@ class MarkClassTable:
 
     def put(self, object: JObject) -> None:
         pk = object._id
-        if pk is None:
-            memory_id = hex(id(object))
-            self._memory_id_table[memory_id] = object
-        else:
+        memory_id = hex(id(object))
+        self._memory_id_table[memory_id] = object
+        if pk is not None:
             self.putp(pk, object)
 
     def putp(self, pk: Union[str, int], object: JObject) -> None:
@@ -26,24 +25,12 @@ class MarkClassTable:
         self._primary_key_table[str(pk)] = object
 
     def has(self, object: JObject) -> bool:
-        pk = object._id
-        if pk is not None:
-            if self._primary_key_table.get(str(pk)) is not None:
-                return True
         memory_id = hex(id(object))
-        if self._memory_id_table.get(memory_id) is not None:
-            return True
-        return False
+        return self._memory_id_table.get(memory_id) is not None
 
     def get(self, object: JObject) -> Optional[JObject]:
-        pk = object._id
-        if pk is not None:
-            if self._primary_key_table.get(str(pk)) is not None:
-                return self._primary_key_table.get(str(pk))
         memory_id = hex(id(object))
-        if self._memory_id_table.get(memory_id) is not None:
-            return self._memory_id_table.get(memory_id)
-        return None
+        return self._memory_id_table.get(memory_id)
 
     def getp(self, pk: Union[str, int]) -> Optional[JObject]:
         return self._primary_key_table.get(str(pk))
-- 
2.43.0


From 75e4933476d0548a791129a48c0cb1d6325f27f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:21 +0000
Subject: [PATCH 52/84] fix: an unlinked object which fails to be saved is
 saved by the next attempt

---
 jsonclasses/jsonclassify.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 8390525..c0fb595 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -356,8 +356,12 @@ def save(self: JObject,
     for lst in list(self.unlinked_objects.values()):
         while lst:
             item = lst.pop(0)
-            item.save(validate_all_fields=validate_all_fields,
-                      skip_validation=skip_validation)
+            try:
+                item.save(validate_all_fields=validate_all_fields,
+                          skip_validation=skip_validation)
+            except BaseException:
+                lst.insert(0, item)
+                raise
     return self
 
 
-- 
2.43.0


From b49811cab2980ae309c3d57bfbbe1257f320cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:42 +0000
Subject: [PATCH 53/84] fix: two objects without primary keys are not the same
 object to permission rules

---
 jsonclasses/modifiers/isobj_modifier.py  | 4 +++-
 jsonclasses/modifiers/isthis_modifier.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/isobj_modifier.py b/jsonclasses/modifiers/isobj_modifier.py
index f0d35f4..45b6c61 100644
--- a/jsonclasses/modifiers/isobj_modifier.py
+++ b/jsonclasses/modifiers/isobj_modifier.py
@@ -36,6 +36,8 @@ class IsObjModifier(Modifier):
         else:
             that_cls = that.cls
             that_id = that.id
-        if that_cls == this_cls and that_id == this_id:
+        if this is that:
+            return
+        if that_cls == this_cls and that_id == this_id and this_id is not None:
             return
         ctx.raise_vexc('objects are not equal')
diff --git a/jsonclasses/modifiers/isthis_modifier.py b/jsonclasses/modifiers/isthis_modifier.py
index 22b42c6..14516a8 100644
--- a/jsonclasses/modifiers/isthis_modifier.py
+++ b/jsonclasses/modifiers/isthis_modifier.py
@@ -15,6 +15,6 @@ class IsThisModifier(Modifier):
         if ctx.val is ctx.owner:
             return None
         if ctx.val.__class__ == ctx.owner.__class__:
-            if ctx.val._id == ctx.owner._id:
+            if ctx.val._id is not None and ctx.val._id == ctx.owner._id:
                 return None
         ctx.raise_vexc('value is not this')
-- 
2.43.0


From 83486da3554f86da9e14f0204a2ff61ef4398372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:36 +0000
Subject: [PATCH 54/84] fix: a class given to objof is used itself, not looked
 up by its name

---
 jsonclasses/fdef.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index a99c6a1..7079f45 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -372,9 +372,9 @@ class FDef:
             return None
         if isjsonclass(self._raw_inst_types):
             self._inst_cls = cast(type[JObject], self._raw_inst_types)
-        cgraph = self.cdef.jconf.cgraph
-        inst_cls = cgraph.fetch(self._raw_inst_types).cls
-        self._inst_cls = inst_cls
+        else:
+            cgraph = self.cdef.jconf.cgraph
+            self._inst_cls = cgraph.fetch(self._raw_inst_types).cls
         return self._inst_cls
 
     @property
-- 
2.43.0


From 8688ba195547c76eb5fd79ac9390ce7312376299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 55/84] fix: fields shared with or inherited by another class
 keep their own class

---
 jsonclasses/cdef.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index 62fdf92..859d5c0 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -73,6 +73,9 @@ class CDef:
             else:
                 types = rtypes(field.type)
                 default = field.default
+            if types.fdef._cdef is not None:
+                # these types are inherited from or shared with another class
+                types = Types(types)
             types.fdef._cdef = self
             jfield = JField(cdef=self, name=name, default=default, types=types)
             self._camelized_field_names.append(jfield.json_name)
-- 
2.43.0


From a5c7c9cac9b321dbcabefcb17b416bd432c094dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:46 +0000
Subject: [PATCH 56/84] fix: the first access to a field of a named type sees
 the resolved type

---
 jsonclasses/cdef.py   | 4 ++--
 jsonclasses/jfield.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index 859d5c0..266bfa0 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -308,9 +308,9 @@ class CDef:
 
     def _resolve_types(self: CDef) -> None:
         for jfield in self._tuple_fields:
-            if jfield.types.fdef._unresolved:
+            if jfield._types.fdef._unresolved:
                 cgraph = self.jconf.cgraph
-                jfield._types = rnamedtypes(jfield.types, cgraph, self.name)
+                jfield._types = rnamedtypes(jfield._types, cgraph, self.name)
 
     def _resolve_ref_names(self: CDef) -> None:
         for jfield in self._tuple_fields:
diff --git a/jsonclasses/jfield.py b/jsonclasses/jfield.py
index a70511e..c137e43 100644
--- a/jsonclasses/jfield.py
+++ b/jsonclasses/jfield.py
@@ -61,19 +61,21 @@ class JField:
         """The user defined field types definition or auto generated types
         definition.
         """
+        if self._types.fdef._unresolved:
+            self.cdef._resolve_ref_types_if_needed()
         return self._types
 
     @property
     def fdef(self: JField) -> FDef:
         """The detailed field definition defined with the types chain.
         """
-        return self._types.fdef
+        return self.types.fdef
 
     @property
     def modifier(self: JField) -> ChainedModifier:
         """The chained modifier of the field.
         """
-        return self._types.modifier
+        return self.types.modifier
 
     @property
     def foreign_cdef(self: JField) -> Optional[CDef]:
-- 
2.43.0


From 5e82adf3d5f82dd6bafd89bdc5f66cbe5b3c2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:17 +0000
Subject: [PATCH 57/84] fix: classes and enums in a union are resolved by their
 names

---
 jsonclasses/fdef.py                     | 16 ++++++++++++++++
 jsonclasses/modifiers/union_modifier.py | 16 ++++------------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index 7079f45..1ce131b 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -325,6 +325,22 @@ class FDef:
         self._resolve_if_needed()
         return self._raw_union_types
 
+    @property
+    def union_types(self: FDef) -> Optional[list[Types]]:
+        """The union types of this union field with type names resolved.
+        """
+        self._resolve_if_needed()
+        if self._raw_union_types is None:
+            return None
+        if self._resolved_union_types is None:
+            resolved = []
+            for types in self._raw_union_types:
+                types.fdef._cdef = self.cdef
+                resolved.append(rnamedtypes(
+                    types, self.cdef.jconf.cgraph, self.cdef.name))
+            self._resolved_union_types = resolved
+        return self._resolved_union_types
+
     # subtypes
 
     @property
diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 6c16b05..965df92 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -23,9 +23,7 @@ class UnionModifier(Modifier):
     def transform(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in ctx.fdef.union_types:
             try:
                 return types.modifier.transform(ctx.alterfdef(types.fdef))
             except:
@@ -35,9 +33,7 @@ class UnionModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             return
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in ctx.fdef.union_types:
             try:
                 types.modifier.validate(ctx.alterfdef(types.fdef))
                 return
@@ -48,9 +44,7 @@ class UnionModifier(Modifier):
     def serialize(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in ctx.fdef.union_types:
             try:
                 newctx = ctx.alterfdef(types.fdef)
                 types.modifier.validate(newctx)
@@ -62,9 +56,7 @@ class UnionModifier(Modifier):
     def tojson(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
-        for types in ctx.fdef.raw_union_types:
-            if types.fdef._cdef is None:
-                types.fdef._cdef = ctx.owner.__class__.cdef
+        for types in ctx.fdef.union_types:
             try:
                 newctx = ctx.alterfdef(types.fdef)
                 types.modifier.validate(newctx)
-- 
2.43.0


From 369d7be06b73f56dccaf867409a144f826db737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:40 +0000
Subject: [PATCH 58/84] fix: isobjof looks up its class in the graph of each
 owner

---
 jsonclasses/modifiers/isobjof_modifier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/isobjof_modifier.py b/jsonclasses/modifiers/isobjof_modifier.py
index ea9caee..e1321d7 100644
--- a/jsonclasses/modifiers/isobjof_modifier.py
+++ b/jsonclasses/modifiers/isobjof_modifier.py
@@ -15,7 +15,8 @@ class IsObjOfModifier(Modifier):
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             ctx.raise_vexc('none is not object of a class')
-        if type(self.cls) is str:
-            self.cls = ctx.owner.__class__.cdef.jconf.cgraph.fetch(self.cls).cls
-        if not isinstance(ctx.val, self.cls):
-            ctx.raise_vexc(f'value is not instance of {self.cls.__name__}')
+        cls = self.cls
+        if type(cls) is str:
+            cls = ctx.owner.__class__.cdef.jconf.cgraph.fetch(cls).cls
+        if not isinstance(ctx.val, cls):
+            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
-- 
2.43.0


From 2af53b584d0244bca77216ed227c601de1e8957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:45 +0000
Subject: [PATCH 59/84] fix: item types are published only when they are
 completely resolved

---
 jsonclasses/fdef.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index 1ce131b..ba75622 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -360,15 +360,16 @@ class FDef:
             return cast(Types, None)
         if self._resolved_item_types is not None:
             return self._resolved_item_types
-        self._resolved_item_types = rtypes(self.raw_item_types)
-        self._resolved_item_types.fdef._cdef = self.cdef
-        self._resolved_item_types = rnamedtypes(
-            self._resolved_item_types,
-            self.cdef.jconf.cgraph,
-            self.cdef.name)
-        if self._resolved_item_types.fdef.item_nullability == Nullability.UNDEFINED:
-            self._resolved_item_types = self._resolved_item_types.required
-        return self._resolved_item_types
+        types = rtypes(self.raw_item_types)
+        if types.fdef._cdef is not None:
+            # these types are shared with another field
+            types = Types(types)
+        types.fdef._cdef = self.cdef
+        types = rnamedtypes(types, self.cdef.jconf.cgraph, self.cdef.name)
+        if types.fdef.item_nullability == Nullability.UNDEFINED:
+            types = types.required
+        self._resolved_item_types = types
+        return types
 
     @property
     def raw_inst_types(self: FDef) -> Optional[str | type[JObject]]:
-- 
2.43.0


From e3b6ad884de14c20f9b61eaad63b3ea619789b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:14 +0000
Subject: [PATCH 60/84] fix: inherited fields are resolved for the class which
 inherits them

---
 jsonclasses/cdef.py |  1 +
 jsonclasses/fdef.py | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index 266bfa0..b17f9e6 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -76,6 +76,7 @@ class CDef:
             if types.fdef._cdef is not None:
                 # these types are inherited from or shared with another class
                 types = Types(types)
+                types.fdef._forget_resolved()
             types.fdef._cdef = self
             jfield = JField(cdef=self, name=name, default=default, types=types)
             self._camelized_field_names.append(jfield.json_name)
diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index ba75622..e898fd5 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -364,6 +364,7 @@ class FDef:
         if types.fdef._cdef is not None:
             # these types are shared with another field
             types = Types(types)
+            types.fdef._forget_resolved()
         types.fdef._cdef = self.cdef
         types = rnamedtypes(types, self.cdef.jconf.cgraph, self.cdef.name)
         if types.fdef.item_nullability == Nullability.UNDEFINED:
@@ -599,5 +600,14 @@ class FDef:
     def _resolve(self: FDef) -> None:
         self.cdef._resolve_ref_types_if_needed()
 
+    def _forget_resolved(self: FDef) -> None:
+        """Forget what names are resolved to, they mean something else in
+        another class.
+        """
+        self._enum_class = None
+        self._inst_cls = None
+        self._resolved_union_types = None
+        self._resolved_item_types = None
+
     def __str__(self):
         return '<FDef: ' + str(vars(self)) + '>'
-- 
2.43.0


From 0aef9202cffc321a9609fbb9ad0c66e52f13347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:15 +0000
Subject: [PATCH 61/84] fix: a type name is read only once while it is resolved

---
 jsonclasses/rtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index b77e63d..09d4686 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -244,9 +244,9 @@ def rnamedtypes(types: Types, cgraph: CGraph, cname: str) -> Types:
     Returns:
         Types: a types which is fully resolved.
     """
-    if not types.fdef._unresolved_name:
-        return types
     name = types.fdef._unresolved_name
+    if not name:
+        return types
     if cgraph.has(name):
         cdef = cgraph.fetch(name)
         types = types.objof(cdef.cls)
-- 
2.43.0


From c876bbe4162f446dcc84013481db32ed56c509cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:20 +0000
Subject: [PATCH 62/84] fix: threads which define classes get the same
 initialized graph

---
 jsonclasses/cgraph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/cgraph.py b/jsonclasses/cgraph.py
index 5a2a7b1..65cd5f6 100644
--- a/jsonclasses/cgraph.py
+++ b/jsonclasses/cgraph.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 from typing import final, TYPE_CHECKING
 from enum import Enum
+from threading import RLock
 from .jconf import JConf
 from .keypath import camelize_key, reference_key, underscore_key
 from .excs import (JSONClassRedefinitionException,
@@ -26,12 +27,17 @@ class CGraph:
     _initialized_map: dict[str, bool] = {}
     """The map on which graphs' initialization status are recorded."""
 
+    _lock: RLock = RLock()
+    """The lock which guards the creation of graphs."""
+
     def __new__(cls: type[CGraph], name: str) -> CGraph:
         """The `CGraph` class returns a shared graph object by it's
         name.
         """
         if not cls._graph_map.get(name):
-            cls._graph_map[name] = super(CGraph, cls).__new__(cls)
+            with cls._lock:
+                if not cls._graph_map.get(name):
+                    cls._graph_map[name] = super(CGraph, cls).__new__(cls)
         return cls._graph_map.get(name)
 
     def __init__(self: CGraph, name: str) -> None:
@@ -43,6 +49,11 @@ class CGraph:
         """
         if self.__class__._initialized_map.get(name):
             return
+        with self._lock:
+            if not self._initialized_map.get(name):
+                self._initialize(name)
+
+    def _initialize(self: CGraph, name: str) -> None:
         self._name: str = name
         self._map: dict[str, CDef] = {}
         self._enum_map: dict[str, type] = {}
@@ -63,7 +74,6 @@ class CGraph:
                                      can_delete=[],
                                      can_read=[])
         self.__class__._initialized_map[name] = True
-        return None
 
     def __repr__(self) -> str:
         return f'[{self._name}]'
-- 
2.43.0


From aa0ce504ee76489d2c635fd9d47aef4b1ed9c8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:56 +0000
Subject: [PATCH 63/84] fix: JSON output never shares lists and dicts with the
 object

---
 jsonclasses/jsonclassify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index c0fb595..aab66a2 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -167,7 +167,8 @@ def tojson(self: JObject,
                     reverse_relationship=reverse_relationship,
                     output_null=output_null)
     ctx = Ctx.rootctx(self, ctxcfg)
-    return InstanceOfModifier(self.__class__).tojson(ctx)
+    # the output never shares lists and dicts with the object
+    return unowned_copy_dict(InstanceOfModifier(self.__class__).tojson(ctx))
 
 
 def pick(self: JObject, picks: list[str]) -> None:
-- 
2.43.0


From 9f2d82c355e116409c4b9cd7f32ddd3c8fd5c2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:39 +0000
Subject: [PATCH 64/84] fix: save hooks of objects embedded in dicts and nested
 collections of an unmodified object were not run

---
 jsonclasses/fdef.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index e898fd5..cd9ea3e 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -574,9 +574,9 @@ class FDef:
         self._resolve_if_needed()
         if self.ftype == FType.INSTANCE:
             return True
-        if self.ftype == FType.LIST:
-            if self.item_types.fdef.ftype == FType.INSTANCE:
-                return True
+        if self.ftype in (FType.LIST, FType.DICT):
+            if self.item_types is not None:
+                return self.item_types.fdef.is_inst
         return False
 
     @property
-- 
2.43.0


From afa0773bd6bd8d64675a748d5a16fd9f98894a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:56 +0000
Subject: [PATCH 65/84] fix: onwrite was not called when a nested list or dict
 of the field was changed

---
 jsonclasses/modifiers/onwrite_modifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/onwrite_modifier.py b/jsonclasses/modifiers/onwrite_modifier.py
index 172c59e..05f8a12 100644
--- a/jsonclasses/modifiers/onwrite_modifier.py
+++ b/jsonclasses/modifiers/onwrite_modifier.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 from typing import Callable, Any, cast, TYPE_CHECKING
 from inspect import signature
+from ..keypath import initial_keypaths
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -24,7 +25,8 @@ class OnWriteModifier(Modifier):
         from ..jobject import JObject
         name = ctx.keypathp[-1]
         parent = cast(JObject, ctx.parent)
-        if not parent.is_new and name not in parent.modified_fields:
+        modified = initial_keypaths(set(parent.modified_fields))
+        if not parent.is_new and name not in modified:
             return ctx.val
         params_len = len(signature(self.callback).parameters)
         if params_len == 0:
-- 
2.43.0


From e94c7f44c590c3273bedcd7c352c6bd1107f432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:16 +0000
Subject: [PATCH 66/84] fix: reading a missing user configuration list item
 raised

---
 jsonclasses/uconf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/uconf.py b/jsonclasses/uconf.py
index af545b2..f908bc1 100644
--- a/jsonclasses/uconf.py
+++ b/jsonclasses/uconf.py
@@ -26,9 +26,9 @@ class UserConf:
             return None
         cur = keypaths[0]
         if isinstance(val, list):
-            if int(cur) < len(val):
+            try:
                 next = val[int(cur)]
-            else:
+            except (ValueError, IndexError):
                 next = None
         elif isinstance(val, dict):
             next = val.get(cur)
-- 
2.43.0


From 999ed3b3e69dee6c03b0db59dafa6dcb2ed4b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:45 +0000
Subject: [PATCH 67/84] fix: nested input with a multiple words primary key was
 not unified

---
 jsonclasses/modifiers/instanceof_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index cb27f1b..f02bbe7 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -131,8 +131,8 @@ class InstanceOfModifier(Modifier):
         cls = cast(type[JObject], ctx.fdef.inst_cls)
         pfield = cls.cdef.primary_field
         if pfield:
-            pkey = pfield.name
-            pvalue = cast(Union[str, int, None], ctx.val.get(pkey))
+            pvalue = cast(Union[str, int, None],
+                          self._get_field_value(pfield, ctx))
         else:
             pvalue = None
         soft_apply_mode = False
-- 
2.43.0


From c9e7b37ff222408ffac0176c96f1b0ec7647ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:51 +0000
Subject: [PATCH 68/84] fix: nested input denoting the object being set was not
 unified with it

---
 jsonclasses/modifiers/instanceof_modifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index f02bbe7..a8123c9 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -140,6 +140,8 @@ class InstanceOfModifier(Modifier):
             dest = ctx.original
             if pvalue is not None:
                 ctx.mgraph.putp(pvalue, dest)
+            else:
+                ctx.mgraph.put(dest)
         elif pvalue is not None:
             exist_item = ctx.mgraph.getp(cls, pvalue)
             if exist_item is not None:
-- 
2.43.0


From 643d5d0d450bfc0810a70e6f291ffdaffe9232b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:28 +0000
Subject: [PATCH 69/84] fix: a field with a default factory was filled with a
 placeholder

---
 jsonclasses/cdef.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/cdef.py b/jsonclasses/cdef.py
index b17f9e6..8f54580 100644
--- a/jsonclasses/cdef.py
+++ b/jsonclasses/cdef.py
@@ -7,7 +7,7 @@ and class field settings.
 from __future__ import annotations
 from jsonclasses.jobject import JObject
 from typing import Optional, Any, final, cast, TYPE_CHECKING
-from dataclasses import fields as dataclass_fields
+from dataclasses import MISSING, fields as dataclass_fields
 from .jfield import JField
 from .fdef import FStore, DeleteRule, FType
 from .rtypes import rtypes, rnamedtypes
@@ -67,9 +67,11 @@ class CDef:
             if isinstance(field.default, Types):
                 types = field.default
                 default = None
-            elif field.default == cast(Any, field).default_factory:
+            elif field.default is MISSING:
                 types = rtypes(field.type)
                 default = None
+                if cast(Any, field).default_factory is not MISSING:
+                    types = types.default(cast(Any, field).default_factory)
             else:
                 types = rtypes(field.type)
                 default = field.default
-- 
2.43.0


From d7aac45c8c529063dbf90bcb5c800489926a694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:52 +0000
Subject: [PATCH 70/84] fix: an object stayed in its graph under a replaced
 primary key

---
 jsonclasses/jsonclassify.py |  3 +++
 jsonclasses/ograph.py       | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index aab66a2..ec74d27 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -794,7 +794,10 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                     self.__original_setattr__(rname, olist)
         self.__link_field__(field, value)
     else:
+        old_id = self._id if field.fdef.primary else None
         self.__original_setattr__(name, value)
+        if old_id is not None:
+            self._graph.rekey(self, old_id)
 
 
 def __getattribute__(self: JObject, name: str, default: Any = None) -> Any:
diff --git a/jsonclasses/ograph.py b/jsonclasses/ograph.py
index 216b215..5859d85 100644
--- a/jsonclasses/ograph.py
+++ b/jsonclasses/ograph.py
@@ -1,6 +1,6 @@
 """This module defineds the JSON Class object mapping graph."""
 from __future__ import annotations
-from typing import Iterator, NamedTuple, Union, TYPE_CHECKING
+from typing import Any, Iterator, NamedTuple, Union, TYPE_CHECKING
 from .isjsonclass import isjsonobject
 from .excs import (UnlinkableJSONClassException,
                          JSONClassGraphMergeConflictException)
@@ -73,6 +73,16 @@ class OGraph:
         object_map = self._object_map(class_name)
         return object_map.get(primary_value)
 
+    def rekey(self: OGraph, object: JObject, old_id: Any) -> None:
+        """Update the position of an object of which the primary key changed
+        from old id.
+        """
+        object_map = self._object_map(object.__class__.__name__)
+        if object_map.get(str(old_id)) is object:
+            del object_map[str(old_id)]
+            if object._id is not None:
+                object_map.setdefault(str(object._id), object)
+
     def copy(self: OGraph) -> OGraph:
         """Get a copy of this object graph.
         """
-- 
2.43.0


From bd1476a2215227ac7f8cbee622d6f681cb747e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 71/84] fix: defaults overwrote the values of another
 occurrence of the same object in the input

---
 jsonclasses/modifiers/instanceof_modifier.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index a8123c9..850c995 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -164,6 +164,11 @@ class InstanceOfModifier(Modifier):
         if strictness:
             self._strictness_check(ctx, dest)
         # fill values
+        blanks: dict[str, Any] = {}
+        if ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
+            for field in dest.__class__.cdef.fields:
+                if field.fdef.fstore != FStore.CALCULATED:
+                    blanks[field.name] = getattr(dest, field.name)
         dict_keys = list(ctx.val.keys())
         nonnull_ref_lists: list[str] = []
         for field in dest.__class__.cdef.fields:
@@ -189,8 +194,9 @@ class InstanceOfModifier(Modifier):
                         if ctx.val.get(crefname) is not None:
                             setattr(dest, refname, ctx.val.get(crefname))
                     pass
-                elif ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
-                    if field.fdef.fstore != FStore.CALCULATED:
+                elif field.name in blanks:
+                    # another occurrence of dest in the input may have a value
+                    if getattr(dest, field.name) is blanks[field.name]:
                         self._fill_default_value(field, dest, ctx)
                 continue
             field_value = self._get_field_value(field, ctx)
@@ -209,9 +215,8 @@ class InstanceOfModifier(Modifier):
                 if field_value is None:
                     allow_write_field = False
             if not allow_write_field:
-                if ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
-                    if field.fdef.fstore != FStore.CALCULATED:
-                        self._fill_default_value(field, dest, ctx)
+                if field.name in blanks:
+                    self._fill_default_value(field, dest, ctx)
                 continue
             fctx = ctx.nextvo(field_value, field.name, field.fdef, dest)
             tsfmd = field.types.modifier.transform(fctx)
-- 
2.43.0


From 9ae9c68d67e90da715ba8daef9fbc751813b1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 72/84] fix: nested input creates objects whose class requires
 values eagerly

---
 jsonclasses/jsonclassify.py                  | 18 ++++++++++++------
 jsonclasses/modifiers/instanceof_modifier.py | 17 ++++++++++++++---
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index ec74d27..04b06e6 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -33,6 +33,17 @@ def __init__(self: JObject, /, **kwargs: dict[str, Any]) -> None:
     validation and transformation are applied during the initialization
     process.
     """
+    self._set_blank()
+    self._set(single_key_args(kwargs), fill_blanks=True)
+    self._keypath_set(compound_key_args(kwargs))
+    try:
+        self._graph.put(self)
+    except UnlinkableJSONClassException:
+        pass
+
+
+def _set_blank(self: JObject) -> None:
+    """Make this a new object without any values, not even defaults."""
     if self.__class__.cdef.jconf.abstract:
         raise AbstractJSONClassException(self.__class__)
     self._set_initial_status()
@@ -48,12 +59,6 @@ def __init__(self: JObject, /, **kwargs: dict[str, Any]) -> None:
                 setattr(self, local_key, None)
             self._local_keys.add(local_key)
             self._local_key_map[local_key] = field.name
-    self._set(single_key_args(kwargs), fill_blanks=True)
-    self._keypath_set(compound_key_args(kwargs))
-    try:
-        self._graph.put(self)
-    except UnlinkableJSONClassException:
-        pass
 
 
 def jsonobject_set(self: JObject, /, **kwargs: dict[str, Any]) -> JObject:
@@ -1095,6 +1100,7 @@ def jsonclassify(class_: type) -> type[JObject]:
     class_.complete = complete
     class_.include = include
     # protected methods
+    class_._set_blank = _set_blank
     class_._set = _set
     class_._keypath_set = _keypath_set
     class_._set_to_container = _set_to_container
diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 850c995..9a83fa1 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -99,6 +99,14 @@ class InstanceOfModifier(Modifier):
             field_value = ctx.val.get(field.name)
         return field_value
 
+    def _new_object(self, cls: type[JObject]) -> JObject:
+        """A new object which gets its values, including defaults, from the
+        input being transformed.
+        """
+        dest = cls.__new__(cls)
+        dest._set_blank()
+        return dest
+
     def _keep_unloaded_keys(self, field: JField, dest: JObject, ctx: Ctx):
         """An input can contain both a reference and its key. Don't lose the
         keys of which the objects are not present.
@@ -136,6 +144,7 @@ class InstanceOfModifier(Modifier):
         else:
             pvalue = None
         soft_apply_mode = False
+        fill_blanks = ctx.ctxcfg.fill_dest_blanks
         if ctx.original is not None:
             dest = ctx.original
             if pvalue is not None:
@@ -148,11 +157,13 @@ class InstanceOfModifier(Modifier):
                 dest = exist_item
                 soft_apply_mode = True
             else:
-                dest = cls()
+                dest = self._new_object(cls)
                 ctx.mgraph.putp(pvalue, dest)
+                fill_blanks = True
         else:
-            dest = cls()
+            dest = self._new_object(cls)
             ctx.mgraph.put(dest)
+            fill_blanks = True
 
         # strictness check
         strictness = cast(bool, cls.cdef.jconf.strict_input)
@@ -165,7 +176,7 @@ class InstanceOfModifier(Modifier):
             self._strictness_check(ctx, dest)
         # fill values
         blanks: dict[str, Any] = {}
-        if ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
+        if fill_blanks and not soft_apply_mode:
             for field in dest.__class__.cdef.fields:
                 if field.fdef.fstore != FStore.CALCULATED:
                     blanks[field.name] = getattr(dest, field.name)
-- 
2.43.0


From 88108b57d12909c849899b8af607c6df38a50824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:30 +0000
Subject: [PATCH 73/84] fix: lists and dicts taken out of an object kept
 notifying it

---
 jsonclasses/jsonclassify.py | 20 ++++++++++++++++---
 jsonclasses/outils.py       | 38 +++++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 04b06e6..34e4c35 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -13,7 +13,8 @@ from .ograph import OGraph
 from .odict import OwnedDict
 from .olist import OwnedList
 from .outils import (
-    to_owned_dict, to_owned_list, unowned_copy_dict, unowned_copy_list
+    disown, to_owned_dict, to_owned_list, unowned_copy_dict,
+    unowned_copy_list
 )
 from .keypath import (
     concat_keypath, initial_keypath, single_key_args, compound_key_args,
@@ -717,6 +718,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 setattr(self, field_name, None)
                 self.__original_setattr__(name, value)
         elif field.fdef.ftype == FType.LIST:
+            disown(getattr(self, name))
             olist = to_owned_list(self, value or [], name)
             self.__original_setattr__(name, olist)
             if (value is None) or (value is []):
@@ -768,16 +770,24 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
         if self.__class__.cdef.jconf.reset_all_fields or \
                 field.fdef.has_reset_modifier:
             if name not in self.previous_values:
-                self.previous_values[name] = getattr(self, name)
+                previous = getattr(self, name)
+                if not field.fdef.is_ref:
+                    if isinstance(previous, list):
+                        previous = unowned_copy_list(previous)
+                    elif isinstance(previous, dict):
+                        previous = unowned_copy_dict(previous)
+                self.previous_values[name] = previous
     # make list and dict assignments owned and monitored
     if isinstance(value, list):
         value = to_owned_list(self, value, name)
     if isinstance(value, dict):
         value = to_owned_dict(self, value, name)
+    replaced = getattr(self, name) if hasattr(self, name) else None
     if field.fdef.is_ref:
         if hasattr(self, name):
-            self.__unlink_field__(field, getattr(self, name))
+            self.__unlink_field__(field, replaced)
         self.__original_setattr__(name, value)
+        disown(replaced)
         if field.fdef.fstore == FStore.LOCAL_KEY:
             rkes = self.__class__.cdef.jconf.ref_name_strategy
             rname = rkes(field)
@@ -787,6 +797,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 if isjsonobject(value):
                     self.__original_setattr__(rname, value._id)
             elif field.fdef.ftype == FType.LIST:
+                disown(getattr(self, rname, None))
                 if value is None:
                     olist = to_owned_list(self, [], rname)
                     self.__original_setattr__(rname, olist)
@@ -801,6 +812,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
     else:
         old_id = self._id if field.fdef.primary else None
         self.__original_setattr__(name, value)
+        disown(replaced)
         if old_id is not None:
             self._graph.rekey(self, old_id)
 
@@ -853,6 +865,7 @@ def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
 
 
 def __odict_del__(self, odict: OwnedDict, val: Any) -> None:
+    disown(val)
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
@@ -911,6 +924,7 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
 
 
 def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
+    disown(val)
     cdef = self.__class__.cdef
     if olist.keypath in self._local_keys:
         fname = self._local_key_map[olist.keypath]
diff --git a/jsonclasses/outils.py b/jsonclasses/outils.py
index 72804a6..ca6630c 100644
--- a/jsonclasses/outils.py
+++ b/jsonclasses/outils.py
@@ -67,3 +67,41 @@ def unowned_copy_list(any_list: list[T]) -> list[T]:
         else:
             retval.append(v)
     return retval
+
+
+class _NoOwner:
+    """The owner of lists and dicts which were taken out of their object."""
+
+    def __olist_add__(self, olist: OwnedList, idx: int, val: Any) -> None:
+        pass
+
+    def __olist_del__(self, olist: OwnedList, val: Any) -> None:
+        pass
+
+    def __olist_sor__(self, olist: OwnedList) -> None:
+        pass
+
+    def __olist_will_change__(self, olist: OwnedList) -> None:
+        pass
+
+    def __odict_add__(self, odict: OwnedDict, key: Any, val: Any) -> None:
+        pass
+
+    def __odict_del__(self, odict: OwnedDict, val: Any) -> None:
+        pass
+
+    def __odict_will_change__(self, odict: OwnedDict) -> None:
+        pass
+
+
+_no_owner = _NoOwner()
+
+
+def disown(value: Any) -> None:
+    """Changes of a list or dict which is taken out of its object don't concern
+    the object anymore.
+    """
+    if isinstance(value, (OwnedDict, OwnedList)):
+        value.owner = _no_owner
+        for v in value.values() if isinstance(value, dict) else value:
+            disown(v)
-- 
2.43.0


From f2631629132567a88fed00d58803bab2c0bbf2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:48 +0000
Subject: [PATCH 74/84] fix: taking several keys out of a list of stored keys
 put some of them back

---
 jsonclasses/jsonclassify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 34e4c35..306b22a 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -938,7 +938,9 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
                 # TODO: replace the underneath implementation
                 match = next((v for v in flist if v._id == val), "PLACEHOLDER")
                 if not isinstance(match, str):
-                    del flist[__index_of_object__(flist, match)]
+                    # the keys are what is being changed, don't mirror them
+                    list.__delitem__(flist, __index_of_object__(flist, match))
+                    self.__unlink_field__(cdef.field_named(fname), [match])
         return
     try:
         field = cdef.field_named(olist.keypath)
-- 
2.43.0


From d7937dcac5c1afffc06e221b2ed3b5d235fbf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:55 +0000
Subject: [PATCH 75/84] fix: checking a password against text that is no hash
 raised ValueError

---
 jsonclasses/modifiers/checkpw_modifier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/checkpw_modifier.py b/jsonclasses/modifiers/checkpw_modifier.py
index 83221fe..99ee312 100644
--- a/jsonclasses/modifiers/checkpw_modifier.py
+++ b/jsonclasses/modifiers/checkpw_modifier.py
@@ -23,5 +23,9 @@ class CheckpwModifier(Modifier):
             ctx.raise_vexc('value is incorrect')
         if type(ctx.val) is not str:
             ctx.raise_vexc('value is incorrect')
-        if not checkpw(against_val.encode(), ctx.val.encode()):
+        try:
+            matches = checkpw(against_val.encode(), ctx.val.encode())
+        except ValueError:  # not a hash, or text bcrypt doesn't take
+            matches = False
+        if not matches:
             ctx.raise_vexc('value is incorrect')
-- 
2.43.0


From a6d48e72a50951630740fbaad01f5b26f4b4bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:27 +0000
Subject: [PATCH 76/84] fix: objects of classes with the same name in different
 class graphs were taken for each other

---
 jsonclasses/mgraph.py |  9 +++++----
 jsonclasses/ograph.py | 18 ++++++++----------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index a5349a9..5e8fb68 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -45,12 +45,13 @@ class MGraph:
     """
 
     def __init__(self):
-        self._class_tables: dict[str, MarkClassTable] = {}
+        self._class_tables: dict[type, MarkClassTable] = {}
 
     def class_table(self, cls: type) -> MarkClassTable[JObject]:
-        if self._class_tables.get(cls.__name__) is None:
-            self._class_tables[cls.__name__] = MarkClassTable()
-        return self._class_tables[cls.__name__]
+        # classes of different class graphs can have the same name
+        if self._class_tables.get(cls) is None:
+            self._class_tables[cls] = MarkClassTable()
+        return self._class_tables[cls]
 
     def put(self, object: JObject) -> None:
         self.class_table(object.__class__).put(object)
diff --git a/jsonclasses/ograph.py b/jsonclasses/ograph.py
index 5859d85..52be86a 100644
--- a/jsonclasses/ograph.py
+++ b/jsonclasses/ograph.py
@@ -18,7 +18,7 @@ class OGraph:
     def __init__(self: OGraph,
                  objects: Union[list[JObject],
                                 JObject, None] = None) -> None:
-        self._maps: dict[str, dict[str, JObject]] = {}
+        self._maps: dict[type, dict[str, JObject]] = {}
         try:
             if isinstance(objects, list):
                 for object in objects:
@@ -36,10 +36,10 @@ class OGraph:
         return lst.__iter__()
 
     def _object_map(self: OGraph,
-                    name: str) -> dict[str, JObject]:
-        if self._maps.get(name) is None:
-            self._maps[name] = {}
-        return self._maps[name]
+                    cls: type) -> dict[str, JObject]:
+        if self._maps.get(cls) is None:
+            self._maps[cls] = {}
+        return self._maps[cls]
 
     def _check_get_str_id(self: OGraph, object: JObject) -> str:
         primary_value = object._id
@@ -56,8 +56,7 @@ class OGraph:
         overrides the existing one on the graph.
         """
         primary_value = self._check_get_str_id(object)
-        class_name = object.__class__.__name__
-        object_map = self._object_map(class_name)
+        object_map = self._object_map(object.__class__)
         object_map[primary_value] = object
 
     def has(self: OGraph, object: JObject) -> bool:
@@ -69,15 +68,14 @@ class OGraph:
         """Get an object from the graph which matches the provided object.
         """
         primary_value = self._check_get_str_id(object)
-        class_name = object.__class__.__name__
-        object_map = self._object_map(class_name)
+        object_map = self._object_map(object.__class__)
         return object_map.get(primary_value)
 
     def rekey(self: OGraph, object: JObject, old_id: Any) -> None:
         """Update the position of an object of which the primary key changed
         from old id.
         """
-        object_map = self._object_map(object.__class__.__name__)
+        object_map = self._object_map(object.__class__)
         if object_map.get(str(old_id)) is object:
             del object_map[str(old_id)]
             if object._id is not None:
-- 
2.43.0


From 2765f71fdc3df1b2935f3da5b2d15366364ef6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:31 +0000
Subject: [PATCH 77/84] fix: output left out the links of a class named like
 one further up in another class graph

---
 jsonclasses/ctx.py                           | 6 +++---
 jsonclasses/modifiers/instanceof_modifier.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/jsonclasses/ctx.py b/jsonclasses/ctx.py
index f418242..8ab799f 100644
--- a/jsonclasses/ctx.py
+++ b/jsonclasses/ctx.py
@@ -53,7 +53,7 @@ class Ctx(NamedTuple):
     fdef: FDef
     operator: Any
     mgraph: MGraph = MGraph()
-    idchain: list[str] = []
+    idchain: list[type] = []
     passin: Optional[Any] = None
 
     @property
@@ -193,7 +193,7 @@ class Ctx(NamedTuple):
                    mgraph=self.mgraph, idchain=self.idchain,
                    passin=self.passin)
 
-    def nextvc(self: Ctx, val: Any, key: str | int, fdef: FDef, c: str) -> Ctx:
+    def nextvc(self: Ctx, val: Any, key: str | int, fdef: FDef, c: type) -> Ctx:
         ekey = self.owner.__class__.cdef.jconf.output_key_strategy(key)
         return Ctx(root=self.root, owner=self.owner, parent=self.parent,
                    holder=self.holder, val=val, original=None,
@@ -210,7 +210,7 @@ class Ctx(NamedTuple):
                    operator=self.operator, mgraph=self.mgraph,
                    idchain=[*self.idchain, c], passin=self.passin)
 
-    def nextoc(self: Ctx, val: Any, key: str | int, fdef: FDef, c: str) -> Ctx:
+    def nextoc(self: Ctx, val: Any, key: str | int, fdef: FDef, c: type) -> Ctx:
         ekey = self.owner.__class__.cdef.jconf.output_key_strategy(key)
         return Ctx(root=self.root, owner=val, parent=val, holder=self.owner,
                    val=val, original=None, ctxcfg=self.ctxcfg,
diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 9a83fa1..a816426 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -248,12 +248,12 @@ class InstanceOfModifier(Modifier):
         val = cast(JObject, ctx.val)
         retval = {}
         clschain = ctx.idchain
-        cls_name = val.__class__.cdef.name
+        cls = val.__class__
         rr = ctx.ctxcfg.reverse_relationship
         output_null = ctx.ctxcfg.output_null
         if output_null is None:
             output_null = val.cdef.jconf.output_null
-        no_key_refs = cls_name in clschain
+        no_key_refs = cls in clschain
         for field in val.__class__.cdef.fields:
             fval = getattr(val, field.name)
             fd = field.types.fdef
@@ -290,9 +290,9 @@ class InstanceOfModifier(Modifier):
                 if field.name not in val._partial_picks:
                     continue
             if field.fdef.ftype == FType.INSTANCE:
-                ictx = ctx.nextoc(fval, field.name, field.fdef, cls_name)
+                ictx = ctx.nextoc(fval, field.name, field.fdef, cls)
             else:
-                ictx = ctx.nextvc(fval, field.name, field.fdef, cls_name)
+                ictx = ctx.nextvc(fval, field.name, field.fdef, cls)
             field_value = field.types.modifier.tojson(ictx)
             if output_null or (field_value is not None):
                 retval[jf_name] = field_value
-- 
2.43.0


From 2c61a1a0ada332ffb303d6a8dd8c6d6e3e96b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:06 +0000
Subject: [PATCH 78/84] fix: output left out a linked object when the field two
 steps up was named like its reverse

---
 jsonclasses/modifiers/instanceof_modifier.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index a816426..1cfb6e1 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -244,6 +244,7 @@ class InstanceOfModifier(Modifier):
         from ..jobject import JObject
         if ctx.val is None:
             return None
+        path = ctx.keypatho
         ctx = self._enter(ctx)
         val = cast(JObject, ctx.val)
         retval = {}
@@ -264,8 +265,9 @@ class InstanceOfModifier(Modifier):
                 if field.foreign_field:
                     isrf = field.foreign_field.fdef == ctx.fdef
                     if not isrf:
-                        if len(ctx.keypathr) > 1:
-                            key = ctx.keypathr[-2]
+                        # the list of which this object is an item
+                        if len(path) > 1:
+                            key = path[-2]
                             isrf = field.foreign_field.name == key
             if fd.fstore == FStore.LOCAL_KEY:
                 if val.is_partial:
-- 
2.43.0


From 3dfc86ece22b25b30269085f80cd6427f7d79a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:35 +0000
Subject: [PATCH 79/84] fix: objects in a union skipped validation by later
 alternatives and were not processed on saving

---
 jsonclasses/mgraph.py                   | 15 +++++++++++++++
 jsonclasses/modifiers/union_modifier.py | 22 +++++++++++++++++-----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index 5e8fb68..e3e0981 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -73,6 +73,21 @@ class MGraph:
              memid: int) -> Optional[JObject]:
         return self.class_table(cls).getm(memid)
 
+    def copy(self) -> MGraph:
+        """Get a copy of this mark graph. It's used for attempts, the marks of
+        which don't count if they fail.
+        """
+        graph = MGraph()
+        graph.merge(self)
+        return graph
+
+    def merge(self, graph: MGraph) -> None:
+        """Take over the marks of another mark graph."""
+        for cls, table in graph._class_tables.items():
+            own = self.class_table(cls)
+            own._primary_key_table.update(table._primary_key_table)
+            own._memory_id_table.update(table._memory_id_table)
+
     def __iter__(self) -> Iterator:
         lst = []
         for ct in self._class_tables.values():
diff --git a/jsonclasses/modifiers/union_modifier.py b/jsonclasses/modifiers/union_modifier.py
index 965df92..f83b520 100644
--- a/jsonclasses/modifiers/union_modifier.py
+++ b/jsonclasses/modifiers/union_modifier.py
@@ -7,6 +7,7 @@ from ..rtypes import rtypes
 from ..fdef import FDef, FType
 if TYPE_CHECKING:
     from ..ctx import Ctx
+    from ..types import Types
 
 
 class UnionModifier(Modifier):
@@ -20,25 +21,36 @@ class UnionModifier(Modifier):
         fdef._ftype = FType.UNION
         fdef._raw_union_types = [rtypes(t) for t in self.type_list]
 
+    def _attempt(self, ctx: Ctx, types: Types) -> Ctx:
+        """The context for trying one of the types. Marks made by a failed
+        attempt don't count.
+        """
+        return ctx.alterfdef(types.fdef)._replace(mgraph=ctx.mgraph.copy())
+
     def transform(self, ctx: Ctx) -> Any:
         if ctx.val is None:
             return None
         for types in ctx.fdef.union_types:
+            attempt = self._attempt(ctx, types)
             try:
-                return types.modifier.transform(ctx.alterfdef(types.fdef))
+                retval = types.modifier.transform(attempt)
             except:
                 continue
+            ctx.mgraph.merge(attempt.mgraph)
+            return retval
         return ctx.val
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
             return
         for types in ctx.fdef.union_types:
+            attempt = self._attempt(ctx, types)
             try:
-                types.modifier.validate(ctx.alterfdef(types.fdef))
-                return
+                types.modifier.validate(attempt)
             except ValidationException:
                 continue
+            ctx.mgraph.merge(attempt.mgraph)
+            return
         ctx.raise_vexc('value is not of any provided type')
 
     def serialize(self, ctx: Ctx) -> Any:
@@ -47,7 +59,7 @@ class UnionModifier(Modifier):
         for types in ctx.fdef.union_types:
             try:
                 newctx = ctx.alterfdef(types.fdef)
-                types.modifier.validate(newctx)
+                types.modifier.validate(self._attempt(ctx, types))
                 return types.modifier.serialize(newctx)
             except ValidationException:
                 continue
@@ -59,7 +71,7 @@ class UnionModifier(Modifier):
         for types in ctx.fdef.union_types:
             try:
                 newctx = ctx.alterfdef(types.fdef)
-                types.modifier.validate(newctx)
+                types.modifier.validate(self._attempt(ctx, types))
                 return types.modifier.tojson(newctx)
             except ValidationException:
                 continue
-- 
2.43.0


From acfcc14b423bba6acf4c5a4fa479828f266e18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 80/84] fix: objects held by a field of union type were not
 processed on saving an unmodified object

---
 jsonclasses/fdef.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonclasses/fdef.py b/jsonclasses/fdef.py
index cd9ea3e..e1493e3 100644
--- a/jsonclasses/fdef.py
+++ b/jsonclasses/fdef.py
@@ -577,6 +577,8 @@ class FDef:
         if self.ftype in (FType.LIST, FType.DICT):
             if self.item_types is not None:
                 return self.item_types.fdef.is_inst
+        if self.ftype == FType.UNION:
+            return any(types.fdef.is_inst for types in self.union_types or [])
         return False
 
     @property
-- 
2.43.0


From 9fc64bd89234794e4abcfd4aad6f9a8cdec35058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 81/84] fix: adding or removing a key by input dropped the
 other linked objects

---
 jsonclasses/modifiers/listof_modifier.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jsonclasses/modifiers/listof_modifier.py b/jsonclasses/modifiers/listof_modifier.py
index e193249..cbaacb3 100644
--- a/jsonclasses/modifiers/listof_modifier.py
+++ b/jsonclasses/modifiers/listof_modifier.py
@@ -38,6 +38,19 @@ class ListOfModifier(CollectionTypeModifier):
             return False
         return isinstance(v, dict) and ('_add' in v or '_del' in v)
 
+    def transform(self, ctx: Ctx) -> Any:
+        if not isinstance(ctx.val, list) or len(ctx.val) == 0 or not all(
+                self.should_special_handle(i, v, ctx)
+                for i, v in enumerate(ctx.val)):
+            return super().transform(ctx)
+        # the current list is altered, it's not replaced
+        fname = ctx.keypatho[-1]
+        if getattr(ctx.owner, fname) is None:
+            setattr(ctx.owner, fname, super().transform(ctx.nval(None)))
+        for i, v in enumerate(ctx.val):
+            self.special_handle(i, v, ctx)
+        return getattr(ctx.owner, fname)
+
     def special_handle(self, key: Any, v: Any, ctx: Ctx) -> None:
         fname = ctx.keypatho[-1]
         is_lkey = ctx.fdef.fstore == FStore.LOCAL_KEY
-- 
2.43.0


From 4d33645b3ed43d741e4b36288bd7e65171079204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:10 +0000
Subject: [PATCH 82/84] fix: functions run on the default of a nested object
 were not told its owner

---
 jsonclasses/modifiers/instanceof_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 1cfb6e1..0acce28 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -86,7 +86,7 @@ class InstanceOfModifier(Modifier):
         if field.default is not None:
             setattr(dest, field.name, field.default)
         else:
-            dctx = ctx.default(ctx.original, field.name, field.fdef)
+            dctx = ctx.default(dest, field.name, field.fdef)
             tsfmd = field.types.modifier.transform(dctx)
             setattr(dest, field.name, tsfmd)
 
-- 
2.43.0


From b35ebd77433aa1903ff1db40314733f9bd736f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:26 +0000
Subject: [PATCH 83/84] fix: loading an object was recorded as a change of the
 field

---
 jsonclasses/jsonclassify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 306b22a..9e38f58 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -396,8 +396,10 @@ def complete(self: JObject) -> JObject:
     if self.is_partial:
         saved_modified_fields = set(self._modified_fields)
         saved_is_modified = self._is_modified
+        saved_previous_values = dict(self._previous_values)
         self._orm_complete()
         self._is_modified = saved_is_modified
+        self._previous_values = saved_previous_values
         self._modified_fields = saved_modified_fields
     return self
 
@@ -412,6 +414,7 @@ def include(self: JObject, field_name: str) -> JObject:
         cls = field.fdef.item_types.fdef.inst_cls
     modified_fields = self.modified_fields
     is_modified = self.is_modified
+    previous_values = dict(self.previous_values)
     if field.fdef.fstore == FStore.LOCAL_KEY:
         if field.fdef.ftype == FType.INSTANCE:
             rkes = self.__class__.cdef.jconf.ref_name_strategy
@@ -446,6 +449,7 @@ def include(self: JObject, field_name: str) -> JObject:
             setattr(self, field.name, result)
     setattr(self, '_modified_fields', set(modified_fields))
     setattr(self, '_is_modified', is_modified)
+    setattr(self, '_previous_values', previous_values)
     return self
 
 def _orm_complete(self: JObject) -> JObject:
-- 
2.43.0


From 3838ed1e8110654e517b787c3f11c01d30aab485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:43 +0000
Subject: [PATCH 84/84] fix: hooks for updates and comparisons ran on new
 objects after changes in place

---
 jsonclasses/jsonclassify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 9e38f58..829e2a3 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -840,6 +840,8 @@ def __getattribute__(self: JObject, name: str, default: Any = None) -> Any:
 
 
 def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
+    if self.is_new:
+        return
     # record previous value
     name = initial_keypath(odict.keypath)
     field = self.__class__.cdef.field_named(name)
@@ -877,6 +879,8 @@ def __odict_del__(self, odict: OwnedDict, val: Any) -> None:
 
 
 def __olist_will_change__(self, olist: OwnedList) -> None:
+    if self.is_new:
+        return
     # record previous value
     name = initial_keypath(olist.keypath)
     try:
-- 
2.43.0

