From b325a734453da8dfac8cafb32df95f832061fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 01/46] fix: bound the number of substitutions in a single
 attribute value

A value that refers to itself (a='[a]'), or extra values that refer to each
other (x='[y]', y='[x]'), made the substitution loop spin forever. Raise
FootprintMaxIter, as already done for cycles that span several attributes.
---
 src/footprints/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1d71b10..29be410 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -51,6 +51,7 @@ proxy = proxies.get()
 # Predefined constants
 
 UNKNOWN = '__unknown__'
+MAX_SUBSTITUTIONS = 1000
 replattr = re.compile(r'\[(\w+)(?::+([:\w]+))?(?:#(\w+))?(?:%([^\]]+))?\]')
 
 
@@ -453,8 +454,13 @@ class Footprint:
 
         guessk = guess[k]
 
+        nbsub = 0
         changed = 1
         while changed:
+            nbsub += 1
+            if nbsub > MAX_SUBSTITUTIONS:
+                logger.error('Attribute %s: replacements are cycling too much... %d tries ?', k, nbsub)
+                raise FootprintMaxIter('Too many Footprint replacements')
             changed = 0
             if isinstance(guessk, str):
                 mobj = replattr.search(guessk)
-- 
2.43.0


From ab612fc7d6e4c0bf89b8c4828fd0012b999faf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 02/46] fix: do not loop forever on a remap that contains a
 cycle

A remap entry that maps a value onto itself (for instance through
autoremap='first' and a duplicated value) is now a fixed point. Any other
cycle raises FootprintMaxIter.
---
 src/footprints/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 29be410..ff2ce39 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -580,9 +580,16 @@ class Footprint:
 
             attr_seen.add(k)
 
+            nbremap = 0
             while guess[k].__hash__ is not None and guess[k] in kdef['remap']:
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
-                guess[k] = kdef['remap'][guess[k]]
+                remapped = kdef['remap'][guess[k]]
+                if remapped == guess[k]:
+                    break
+                nbremap += 1
+                if nbremap > len(kdef['remap']):
+                    raise FootprintMaxIter('The remap of attribute `' + k + '` is cycling')
+                guess[k] = remapped
 
             if guess[k] is not UNKNOWN:
                 ktype = kdef.get('type', str)
-- 
2.43.0


From e2bd47f16a65e7d8090fc20b3a0dd5ce7906d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 03/46] fix: substitute attribute values verbatim

The value of an attribute (or of a glob in util.expand) was used as a regular
expression replacement template: backslashes in it were interpreted.
---
 src/footprints/__init__.py | 9 ++++++---
 src/footprints/util.py     | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index ff2ce39..e852d2e 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -422,7 +422,8 @@ class Footprint:
                 else:
                     starter = subattr
         if guessk is not None and starter != '__SKIP__':
-            guessk = replattr.sub(myautofmt(starter), guessk, 1)
+            newvalue = myautofmt(starter)
+            guessk = replattr.sub(lambda m: newvalue, guessk, 1)
         return guessk, changed
 
     def _replacement(self, nbpass, k, kfast, guess, extras,
@@ -503,7 +504,8 @@ class Footprint:
                                 guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                       guess, extras, myautofmt, requeue=False)
                             else:
-                                guessk = replattr.sub(myautofmt(guess[replk]), guessk, 1)
+                                newvalue = myautofmt(guess[replk])
+                                guessk = replattr.sub(lambda m: newvalue, guessk, 1)
                     elif replk in extras:
                         changed = 1
                         if replm:
@@ -511,7 +513,8 @@ class Footprint:
                             guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                   guess, extras, myautofmt, requeue=True)
                         else:
-                            guessk = replattr.sub(myautofmt(extras[replk]), guessk, 1)
+                            newvalue = myautofmt(extras[replk])
+                            guessk = replattr.sub(lambda m: newvalue, guessk, 1)
 
         if (guessk is not None and
                 isinstance(guessk, str) and
diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9e3d17f..44b9c47 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -60,7 +60,7 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
             for g in globs.keys():
-                newd[k] = re.sub(r'\[glob:' + g + r'\]', globs[g], newd[k])
+                newd[k] = newd[k].replace('[glob:' + g + ']', globs[g])
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From f227ef2a16ebe627a8dc7214f5fa5645b7b806cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 04/46] fix: do not alter values/outcast sets while iterating
 over them

Reclassing several equivalent values (e.g. ['1', '01'] for an integer) raised
RuntimeError at footprint definition time.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index e852d2e..6d8198b 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -210,7 +210,7 @@ class Footprint:
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
-                for v in fp['attr'][a][autoreclass]:
+                for v in list(fp['attr'][a][autoreclass]):
                     if not isinstance(v, ktype):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
-- 
2.43.0


From 6667175193e85d4f8d2fd5b97f750dd25e0ebb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 05/46] fix: checkonly accepts an empty report when the only
 parameter is missing

With the default reporting mode, a class with an only clause on a parameter
that is defined nowhere made the whole lookup crash with AttributeError instead
of simply being rejected.
---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 6d8198b..36c723f 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -672,7 +672,8 @@ class Footprint:
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
             if actualvalue is None:
                 rd = False
-                report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
+                if report:
+                    report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
                 break
 
             checkflag = False
-- 
2.43.0


From cf5c7f3ddfb623444ab8df5b604c816771c349b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 06/46] fix: an only clause given as a string is a single value

Strings are iterable: only=dict(kind='abc') was checked character by character.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 36c723f..65be073 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -657,7 +657,7 @@ class Footprint:
             resolvecache = collectors.ResolveCache()
         params = resolvecache.defaults
         for k, v in self.only.items():
-            if not hasattr(v, '__iter__'):
+            if isinstance(v, str) or not hasattr(v, '__iter__'):
                 v = (v,)
 
             actualattr = k
-- 
2.43.0


From 50ff490702515160fd6e597b64d8f177d4846294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 07/46] fix: look for only parameters in the defaults whatever
 their case

setup.defaults is a case insensitive dictionary, but its get method is not.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 65be073..ad1d13b 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -669,7 +669,7 @@ class Footprint:
             if after or before:
                 actualattr = k.partition('_')[-1]
 
-            actualvalue = rd.get(actualattr, params.get(actualattr, None))
+            actualvalue = rd.get(actualattr, params[actualattr] if actualattr in params else None)
             if actualvalue is None:
                 rd = False
                 if report:
-- 
2.43.0


From acc41ba7b8aab300334c696c14c33d1d2935a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 08/46] fix: an unset optional attribute does not satisfy an
 only clause

Comparing the internal "unknown" marker raised TypeError with before_/after_
clauses on an optional attribute.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index ad1d13b..0e46edc 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -670,7 +670,7 @@ class Footprint:
                 actualattr = k.partition('_')[-1]
 
             actualvalue = rd.get(actualattr, params[actualattr] if actualattr in params else None)
-            if actualvalue is None:
+            if actualvalue is None or actualvalue is UNKNOWN:
                 rd = False
                 if report:
                     report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
-- 
2.43.0


From 9a4cab39b1106b23a701780b6a53e7af225d2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 09/46] fix: unset optional attributes remain unset after
 unpickling

The "unknown" marker is compared by identity, which is lost by pickle: unset
attributes came back as the '__unknown__' string.
---
 src/footprints/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 0e46edc..a8a5c78 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -951,6 +951,10 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __setstate__(self, state):
         self._observer = observer.get(tag=self.__class__.fullname())
         self.__dict__.update(state)
+        # The UNKNOWN marker is always compared by identity
+        for k, v in self._attributes.items():
+            if isinstance(v, str) and v == UNKNOWN:
+                self._attributes[k] = UNKNOWN
         self.footprint_riseup()
 
     def footprint_getattr(self, attr, auth=None):  # @UnusedVariable
-- 
2.43.0


From 56ea3a1705565a88ea0880134dfe56289b68b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 10/46] fix: copy.copy of a footprint object does not share its
 attributes

Writing an attribute of the copy also modified the original object.
---
 src/footprints/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index a8a5c78..fe7290c 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -945,6 +945,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
 
     def __getstate__(self):
         d = self.__dict__.copy()
+        d['_attributes'] = d['_attributes'].copy()
         del d['_observer']
         return d
 
-- 
2.43.0


From 252c8c2513fb2e7cbb8fbf468ab45c5d8018be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 11/46] fix: deleting a rwd attribute only affects the object
 at hand

The class level descriptor was damaged by the deletion: the attribute could no
longer be read, set or deleted on any other instance of the class.
---
 src/footprints/__init__.py | 2 +-
 src/footprints/access.py   | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index fe7290c..7ad9ad5 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1104,7 +1104,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         rc = resolved and None not in resolved.values()
         if rc:
             for k in resolved.keys():
-                if self._attributes[k] != resolved[k]:
+                if k not in self._attributes or self._attributes[k] != resolved[k]:
                     rc = False
                     break
         return rc
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 47dd2da..eb5a333 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -30,6 +30,11 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
     """Read-write-del accessor class to footprint attributes."""
     access_mode = 'rwd'
 
+    def __get__(self, instance, owner):
+        if not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Attribute [' + self._attr + '] is not defined')
+        return super().__get__(instance, owner)
+
     def __set__(self, instance, value, weak=False):
         fp = instance.footprint
         if self._attr is not None:
@@ -59,8 +64,9 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
     def __delete__(self, instance):
+        if not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Attribute [' + self._attr + '] is not defined')
         instance.footprint_delattr(self._attr, auth=self._auth)
-        del self._attr
 
 
 class FootprintAttrDescriptorWeakRWD(FootprintAttrDescriptorRWD):
-- 
2.43.0


From 6ce6709a185921f45b03fb1b0d7411ea9136549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 12/46] fix: weak attributes may be unset, set to None or
 already weak

An optional weak attribute left unset, an explicit None or an object that is
already a weak proxy (as in footprint_clone) raised TypeError.
---
 src/footprints/__init__.py | 3 ++-
 src/footprints/access.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 7ad9ad5..7a2d747 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -646,7 +646,8 @@ class Footprint:
                 # else:
                 #     logger.debug(' > No valid attribute %s', k)
             else:
-                if 'weak' in attrs[k]['access']:
+                if ('weak' in attrs[k]['access'] and guess[k] is not UNKNOWN and
+                        not isinstance(guess[k], weakref.ProxyTypes)):
                     guess[k] = weakref.proxy(guess[k])
 
         return (guess, attr_input, attr_seen)
diff --git a/src/footprints/access.py b/src/footprints/access.py
index eb5a333..0139f5a 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -59,7 +59,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             if fpdef['outcast'] and fp.in_values(value, fpdef['outcast']):
                 raise ValueError('Value {!s} excluded from range {!s}'
                                  .format(value, list(fpdef['outcast'])))
-            if weak:
+            if weak and value is not None and not isinstance(value, weakref.ProxyTypes):
                 value = weakref.proxy(value)
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
-- 
2.43.0


From 732f05b9a373682dd37430f885f80a68b4b03f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 13/46] fix: accept attribute values that are not hashable

A FPList or FPDict holding a list or a dictionary, a tuple holding a list and
weak proxies made the resolution crash with "TypeError: unhashable type".
---
 src/footprints/__init__.py | 4 ++--
 src/footprints/util.py     | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 7a2d747..608fc0b 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -531,7 +531,7 @@ class Footprint:
 
     def in_values(self, item, values):
         """Check that item is inside ``values`` or compares as equal to one of these values."""
-        if item in values:
+        if util.is_hashable(item) and item in values:
             return True
         else:
             return bool([x for x in values if x == item])
@@ -584,7 +584,7 @@ class Footprint:
             attr_seen.add(k)
 
             nbremap = 0
-            while guess[k].__hash__ is not None and guess[k] in kdef['remap']:
+            while util.is_hashable(guess[k]) and guess[k] in kdef['remap']:
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
                 remapped = kdef['remap'][guess[k]]
                 if remapped == guess[k]:
diff --git a/src/footprints/util.py b/src/footprints/util.py
index 44b9c47..83de533 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -26,6 +26,15 @@ mktuple = _b_mktuple
 rangex = timeintrangex
 
 
+def is_hashable(obj):
+    """Whether the **obj** object (including the items it may contain) can be hashed."""
+    try:
+        hash(obj)
+    except TypeError:
+        return False
+    return True
+
+
 def list2dict(a, klist):
     """
     Reshape any entry of *a* specified in *klist* as a dictionary of the
-- 
2.43.0


From 3a2ce42e6b837983442af1b8b51dc170f373fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 14/46] fix: equal FPDict or FPSet objects have the same hash

Their hash depended on the insertion order whereas equality does not.
---
 src/footprints/stdtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/stdtypes.py b/src/footprints/stdtypes.py
index d89a30b..f91523c 100644
--- a/src/footprints/stdtypes.py
+++ b/src/footprints/stdtypes.py
@@ -15,7 +15,7 @@ __all__ = ['FPDict', 'FPList', 'FPSet', 'FPStr', 'FPTuple', 'FPRegex']
 class FPDict(dict):
     """A dict type for FootPrints arguments (without expansion)."""
     def __hash__(self):
-        return hash(tuple(self.items()))
+        return hash(frozenset(self.items()))
 
 
 class FPList(list):
@@ -33,7 +33,7 @@ class FPSet(set):
     """A set type for FootPrints arguments (without expansion)."""
 
     def __hash__(self):
-        return hash(tuple(self))
+        return hash(frozenset(self))
 
     def items(self):
         """Return a tuple copy of internal components of the FPSet."""
-- 
2.43.0


From 4570743fffa99d39c8d425b33d79c8aa0a953f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 15/46] fix: a priority level is never equal to an unknown
 level name

The comparison raised AttributeError.
---
 src/footprints/priorities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 1322b79..5429748 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -40,6 +40,8 @@ class PriorityLevel:
                 other = self.inset.level(str(other))
             except (ValueError, TypeError):
                 return False
+            if other is None:
+                return False
         return self.rank == other.rank
 
     def __gt__(self, other):
-- 
2.43.0


From 204da6f333d6b3e547151b4d2c3db97171f59a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 16/46] fix: PrioritySet.insert leaves the set untouched when
 its reference is invalid

With an unknown reference (or the inserted level itself) the level was lost
from the set by the time ValueError was raised.
---
 src/footprints/priorities.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 5429748..4af8746 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -202,6 +202,13 @@ class PrioritySet:
             return None
         else:
             tag = str(tag).upper()
+        reference = after if after is not None else before
+        if reference is not None:
+            if isinstance(reference, PriorityLevel):
+                reference = reference.tag
+            reference = reference.upper()
+            if reference not in self._levels or reference == tag:
+                raise ValueError('Not a valid reference for level {!s}: {!s}'.format(tag, reference))
         self.extend(tag)
         if after is not None:
             self._levels.remove(tag)
-- 
2.43.0


From df00f1ab89b8ed3c38f23cefa9126dddaa9b2455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 17/46] fix: FootprintLog clear, reduce_to_last and cached
 views

reduce_to_last raised TypeError. After clear, the log was not bounded anymore,
the previous context was still active and the cached views were outdated.
as_dict and as_xml were sharing the same refresh flag, and the stamp argument of
as_dict was ignored when a view was already cached.
---
 src/footprints/reporting.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 8749838..156e15a 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -208,10 +208,17 @@ class FootprintLog(getbytag.GetByTag):
     def __init__(self, log_maxlen=None, weak=True):
         self._log = collections.deque(maxlen=log_maxlen)
         self._weak = weak
+        self._reset()
+
+    def _reset(self):
+        """No active entry and no cached view."""
         self._current = None
+        self._touch()
+
+    def _touch(self):
+        """The log has changed: forget any cached view."""
         self._xml = None
         self._dict = dict()
-        self._touch = False
 
     def info(self):
         """Return a simple description as a string."""
@@ -234,11 +241,14 @@ class FootprintLog(getbytag.GetByTag):
 
     def clear(self):
         """Start a fresh new log history."""
-        self._log = list()
+        self._log.clear()
+        self._reset()
 
     def reduce_to_last(self):
         """Remove from the current log history all but the last collector resolution attempt."""
-        self._log[0:-1] = []
+        while len(self._log) > 1:
+            self._log.popleft()
+        self._touch()
 
     @property
     def last(self):
@@ -254,7 +264,7 @@ class FootprintLog(getbytag.GetByTag):
         """Insert a collector entry into the log."""
         self._current = FootprintLogCollector(node, **kw)
         self._log.append(self._current)
-        self._touch = True
+        self._touch()
 
     def add_candidate(self, node, **kw):
         """Insert a class entry into the log."""
@@ -263,7 +273,7 @@ class FootprintLog(getbytag.GetByTag):
         if self._current is None or not isinstance(self._current, FootprintLogCollector):
             raise FootprintBadLogEntry('Current log context is either empty or not a collector')
         self._current = FootprintLogClass(node, parent=self._current, **kw)
-        self._touch = True
+        self._touch()
 
     def add_attribute(self, name, **kw):
         """Insert an attribute resolution information entry into the log."""
@@ -271,7 +281,7 @@ class FootprintLog(getbytag.GetByTag):
             raise FootprintBadLogEntry('Current log context is either empty or not a class candidate')
         kw['name'] = name
         self._current.add(kw)
-        self._touch = True
+        self._touch()
 
     def add(self, **kw):
         """
@@ -310,26 +320,25 @@ class FootprintLog(getbytag.GetByTag):
 
     def as_xml(self, force=False):
         """Return a true class:`xml.dom.minidom.Document`."""
-        if not self._xml or self._touch or force:
+        if not self._xml or force:
             self._xml = StandardReport(tag=self.tag)
             for item in self._log:
                 item.feed_xml(self._xml)
-            self._touch = False
         return self._xml
 
     def as_dict(self, force=False, stamp=True):
         """Convenient method for retrieving some handy dictionary."""
-        if not self._dict or self._touch or force:
-            self._dict = dict()
+        stamp = bool(stamp)
+        if stamp not in self._dict or force:
+            self._dict[stamp] = dict()
             for i, item in enumerate(self._log):
                 key = item.name
                 if stamp:
                     key += ' ' + item.stamp.isoformat()
                 else:
                     key += '_{:04d}'.format(i + 1)
-                self._dict[key] = item.as_dict()
-            self._touch = False
-        return self._dict
+                self._dict[stamp][key] = item.as_dict()
+        return self._dict[stamp]
 
     def fulldump(self, stamp=False):
         """Shortcut to :mod:``dump`` facilities."""
-- 
2.43.0


From 52ab673e8630ab1a77cbe02293aaa68749978c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 18/46] fix: expand resolves dictionary matching whatever the
 order of the keys

A dictionary matching on a key whose value is still to be expanded (comma
separated string, range, glob or other matching dictionary) raised KeyError
when it came first in the description.
---
 src/footprints/util.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 83de533..4e4d3a6 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -163,6 +163,21 @@ def _parse_globs(todo):
     return glob_names, re.compile('^' + finalpattern + '$'), finalglob
 
 
+_RANGE_RE = re.compile(r'range\(\d+(,\d+)?(,\d+)?\)$', re.IGNORECASE)
+_GLOB_RE = re.compile(r'{glob:\w+:')
+
+
+def _still_expandable(value, desc):
+    """Whether the **value** of an item of **desc** is going to be expanded by :func:`expand`."""
+    if value.__class__.__name__.startswith('FP'):
+        return False
+    if isinstance(value, str):
+        return bool(_RANGE_RE.match(value) or ',' in value or _GLOB_RE.search(value))
+    if isinstance(value, dict):
+        return any([k in desc for k in value.keys()])
+    return isinstance(value, (list, tuple, set))
+
+
 def expand(desc):
     r"""
     Expand the given description according to iterable or expandable arguments.
@@ -258,7 +273,7 @@ def expand(desc):
                         globalindex += 1
                     somechanges = True
                     break
-                if isinstance(v, str) and re.match(r'range\(\d+(,\d+)?(,\d+)?\)$', v, re.IGNORECASE):
+                if isinstance(v, str) and _RANGE_RE.match(v):
                     logger.debug(' > Range expansion %s', v)
                     lv = [int(x) for x in re.split(r'[\(\),]+', v) if re.match(r'\d+$', x)]
                     if len(lv) < 2:
@@ -276,7 +291,7 @@ def expand(desc):
                         globalindex += 1
                     somechanges = True
                     break
-                if isinstance(v, str) and re.search(r'{glob:\w+:', v):
+                if isinstance(v, str) and _GLOB_RE.search(v):
                     logger.debug(' > Globbing from string %s', v)
                     g_names, g_re, g_glob = _parse_globs(v)
                     repld = list()
@@ -294,7 +309,7 @@ def expand(desc):
                 if isinstance(v, dict):
                     for dk in [x for x in v.keys() if x in d]:
                         dv = d[dk]
-                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set)):
+                        if not (isinstance(dv, (list, tuple, set)) or _still_expandable(dv, d)):
                             newld.append(inplace(d, k, v[dk][str(dv)], globalindex=globalindex))
                             globalindex += 1
                             somechanges = True
-- 
2.43.0


From c3347caa07a55f58be0041e9a9619cc53d95f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 19/46] fix: check all the collectors of a class before
 registering it

When one of the collector tags was refused, the invalid class remained
registered in the previous ones. Moreover, the check ignored that tags are
cleaned: an attribute "cow" was accepted in collector "Cows".
---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 608fc0b..06a02a1 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -838,9 +838,10 @@ class FootprintBaseMeta(type):
                 raise FootprintInvalidDefinition('Explicit class without any mandatory footprint attribute.')
         # Add all classes in collectors but take into accout the abstract key
         for cname in realcls._collector:
-            if cname in thisfp.allkeys():
+            if {cname, collectors.Collector.tag_clean(cname)} & thisfp.allkeys():
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
+        for cname in realcls._collector:
             thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
                                            report_style=setup.report_style)
             thiscollector.add(realcls, abstract=abstract)
-- 
2.43.0


From 1269fc5c2de319433ae798f979768f9c7f3fa93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 20/46] fix: fasttrack does not overlook classes that remap the
 attribute

A class accepting a value through its remap was excluded as soon as another
class of the collector had this very value in its list.
---
 src/footprints/collectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index f3308b0..db0a30c 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -150,8 +150,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             myfp = cls.footprint_retrieve()
             if myattr in myfp.mandatory():
                 myvalues = myfp.get_values(myattr)
-                # Is there some restrictions on values ?
-                if myvalues:
+                # Is there some restrictions on values ? (with a remap, other values may be accepted)
+                if myvalues and not myfp.attr[myattr]['remap']:
                     # Ensure that the attribute types are consistent
                     if self._fasttrack_type[myattr] is None:
                         self._fasttrack_type[myattr] = myfp.attr[myattr].get('type', str)
-- 
2.43.0


From 84fd2698f2e6fd6acb857ee66c059146026905b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 21/46] fix: fasttrack accepts values that are not hashable

The lookup raised "TypeError: unhashable type" instead of going through all of
the classes.
---
 src/footprints/collectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index db0a30c..36b87cd 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -12,7 +12,7 @@ from bronx.fancies import dump, loggers
 from bronx.stdtypes.catalog import Catalog
 from bronx.patterns import observer, getbytag
 
-from . import config, priorities, reporting
+from . import config, priorities, reporting, util
 
 #: No automatic export
 __all__ = []
@@ -224,7 +224,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             for k, v in desc.items():
                 if k in self._fasttrack_attr:
                     # Check if the key's value is in the index
-                    if v in self._fasttrack_index[k]:
+                    if util.is_hashable(v) and v in self._fasttrack_index[k]:
                         indexkey = v
                     else:
                         # A type conversion might be usefull
@@ -232,7 +232,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                             v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
                         except (ValueError, TypeError):
                             v_conv = None
-                        if v_conv is not None and v_conv in self._fasttrack_index[k]:
+                        if (v_conv is not None and util.is_hashable(v_conv) and
+                                v_conv in self._fasttrack_index[k]):
                             indexkey = v_conv
                         else:
                             # Ok we give up...
-- 
2.43.0


From 779c83351500fd3c512f9a808a68f1fd5aaa7b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 22/46] fix: clearing a collector also clears its fasttrack
 index

After clear or pop, the classes were still found through the fasttrack index.
---
 src/footprints/collectors.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 36b87cd..4461a00 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -268,6 +268,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         super().discard(bye)
         self._upd_fasttrack_delete(bye)
 
+    def pop(self):
+        """Remove and return an arbitrary class from the current catalog."""
+        bye = super().pop()
+        self._upd_fasttrack_delete(bye)
+        return bye
+
+    def clear(self):
+        """Remove all of the classes previously recorded in this catalog."""
+        super().clear()
+        self.fasttrack = self.fasttrack
+
     def pickup_and_cache(self, desc, resolvecache=None):
         """Try to pickup inside the collector an item that could match the description."""
         logger.debug('Pick up a "{:s}" in description {!s} with collector {!r}'.format(self.tag, desc, self))
-- 
2.43.0


From 66b65dcbd3d92a3369ad0c4f6396d3b11fdff487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 23/46] fix: interesting values come first in factorized
 reports

Items were removed from a list while iterating over it: some of the interesting
entries were skipped. The error message of a missing ordering key was broken.
---
 src/footprints/reporting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 156e15a..2a1e5f8 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -497,7 +497,7 @@ class FactorizedReport:
         order = list()
         other = list(dic.keys())
         for val in self.interestingValues(list(self.keys())[depth]):
-            for v in other:
+            for v in other[:]:
                 if v[1].startswith(val):
                     order.append(v)
                     other.remove(v)
@@ -526,7 +526,7 @@ class FactorizedReport:
                     dic = dic[(kj, v)]
                     break
             if v is None:
-                raise KeyError("Ordering key not found: {:s}".format(k))
+                raise KeyError("Ordering key not found: {!s}".format(k))
         info = kw.get('args', '')
         dic[tagvalue] = str(info)
 
-- 
2.43.0


From 7c700fef56ecf8a4297c59c72ab2950869511bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 24/46] fix: a priority level is never copied

Priority levels are references to a position in a priority set. A deep copied
one (e.g. inherited doc_visibility, Footprint(nodefault=True, priority=...)) was
detached from its priority set: later changes in priorities were ignored.
---
 src/footprints/priorities.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 4af8746..285d7e8 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -21,6 +21,15 @@ class PriorityLevel:
     def __call__(self):
         return self.rank
 
+    def __copy__(self):
+        """A level is a reference to a given tag in its priority set: it is not duplicated."""
+        return self
+
+    def __deepcopy__(self, memo):
+        """A level is a reference to a given tag in its priority set: it is not duplicated."""
+        memo[id(self)] = self
+        return self
+
     @property
     def tag(self):
         return self._tag
-- 
2.43.0


From 92d84d0853b43911aa05b62415bc447b88e7c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 25/46] fix: reject a value that is not a class for an isclass
 attribute

issubclass raised TypeError instead.
---
 src/footprints/__init__.py | 2 +-
 src/footprints/access.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 06a02a1..ddd159f 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -597,7 +597,7 @@ class Footprint:
             if guess[k] is not UNKNOWN:
                 ktype = kdef.get('type', str)
                 if kdef.get('isclass', False):
-                    if not issubclass(guess[k], ktype):
+                    if not (isinstance(guess[k], type) and issubclass(guess[k], ktype)):
                         # logger.debug(' > Attr %s class %s not a subclass %s', k, guess[k], ktype)
                         report.add(attribute=k, why=reporting.REPORT_WHY_SUBCLASS, args=ktype.__name__)
                         diags[k] = True
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 0139f5a..34c311c 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -41,7 +41,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             fpdef = fp.attr[self._attr]
             atype = fpdef.get('type', str)
             if fpdef.get('isclass', False):
-                if not issubclass(value, atype):
+                if not (isinstance(value, type) and issubclass(value, atype)):
                     raise ValueError('Attempt to set {:s} as a non compatible subclass {!s}'
                                      .format(self._attr, value))
             elif not isinstance(value, atype) and value is not None:
-- 
2.43.0


From eeb43fee0e6d6176568a776f4d992c1fb7fcb230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 26/46] fix: do not hide the actual reason of a rejection

When a value could not be reclassed, a second entry "Not in values: None"
superseded the first one in the reports.
---
 src/footprints/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index ddd159f..52a0f0e 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -614,12 +614,12 @@ class Footprint:
                                    args=(ktype.__name__, str(guess[k])))
                         diags[k] = True
                         guess[k] = None
-                if kdef['values'] and not self.in_values(guess[k], kdef['values']):
+                if guess[k] is not None and kdef['values'] and not self.in_values(guess[k], kdef['values']):
                     # logger.debug(' > Attr %s value not in range = %s %s', k, guess[k], kdef['values'])
                     report.add(attribute=k, why=reporting.REPORT_WHY_OUTSIDE, args=guess[k])
                     diags[k] = True
                     guess[k] = None
-                if kdef['outcast'] and self.in_values(guess[k], kdef['outcast']):
+                if guess[k] is not None and kdef['outcast'] and self.in_values(guess[k], kdef['outcast']):
                     # logger.debug(' > Attr %s value excluded from range = %s %s', k, guess[k], kdef['outcast'])
                     report.add(attribute=k, why=reporting.REPORT_WHY_OUTCAST, args=guess[k])
                     diags[k] = True
-- 
2.43.0


From af858060d361b84df86dba809499ddd0080e5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 27/46] fix: visibility always prevails over zorder in
 docstrings

With extreme values of doc_zorder, attributes of different visibilities were
mixed up.
---
 src/footprints/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 516c81b..11aae26 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -75,7 +75,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     s_attrs = sorted(fpdict['attr'].items(), key=lambda item: item[0])
     # Then use visibility and zorder
     s_attrs = sorted(s_attrs,
-                     key=lambda item: item[1]['doc_visibility'].rank * 200 - item[1]['doc_zorder'])
+                     key=lambda item: (item[1]['doc_visibility'].rank, - item[1]['doc_zorder']))
     for attr, desc in s_attrs:
         # Find out the type name
         t = desc.get('type', str)
-- 
2.43.0


From 36293f563db14c4114cc0d7708a953297f9ea522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 28/46] fix: do not feed the report when reporting is off

With NO_REPORTING, candidates were added to the last entry of a report log
that had been filled previously.
---
 src/footprints/collectors.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 4461a00..4bdb543 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -321,6 +321,13 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         """Try to pickup inside the collector an item that could match the description."""
         return self.pickup_and_cache(desc, resolvecache=resolvecache)[0]
 
+    def _initial_report_log(self):
+        """The report log to be used at first when looking for a class."""
+        if self.report in (config.NO_REPORTING, config.ONERROR_REPORTING):
+            return None
+        else:
+            return self.report_log
+
     def find_any(self, desc, resolvecache=None):
         """
         Return the first item of the collector that :meth:`footprint_couldbe`
@@ -330,7 +337,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if resolvecache is None:
             resolvecache = ResolveCache()
         requeue = True
-        report_log = None if self.report == config.ONERROR_REPORTING else self.report_log
+        report_log = self._initial_report_log()
         while requeue:
             requeue = False
             if self.report and report_log is not None:
@@ -356,7 +363,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if resolvecache is None:
             resolvecache = ResolveCache()
         requeue = True
-        report_log = None if self.report == config.ONERROR_REPORTING else self.report_log
+        report_log = self._initial_report_log()
         while requeue:
             requeue = False
             found = list()
-- 
2.43.0


From 9ec37247dbfc3716b75bd9fae655724e61115342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 29/46] fix: the limit on replacement passes depends on the
 number of attributes

Any footprint with more than 50 attributes, or an acyclic chain of 10
attributes defined in an unfavorable order, raised FootprintMaxIter. Without
any cycle, the number of passes never exceeds the square of the number of
attributes.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 52a0f0e..27f7248 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -449,7 +449,7 @@ class Footprint:
             If the format string is incorrect, or if it can not be applied to key-name, a
             :exception:`ValueError` exception will be raised
         """
-        if nbpass > 50:
+        if nbpass > max(50, len(self.attr) ** 2):
             logger.error('Resolve probably cycling too much... %d tries ?', nbpass)
             raise FootprintMaxIter('Too many Footprint replacements')
 
-- 
2.43.0


From 7a515702dc9b4fe7dbb40bf77428ae39ab59aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 30/46] fix: the resolve cache identifies the footprint objects
 by identity

Any object of the description that is not hashable (weak proxy, class with its
own __eq__ method) made the resolution crash, and two distinct objects that
compare equal were mixed up.
---
 src/footprints/collectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 4bdb543..8c2d388 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -535,6 +535,7 @@ class ResolveCache:
         self._shallow_cache = dict()
 
     def get_shallow_fp(self, obj):
-        if obj not in self._shallow_cache:
-            self._shallow_cache[obj] = obj.footprint_as_shallow_dict()
-        return self._shallow_cache[obj]
+        # NB: a reference to obj is kept along, hence its id can't be reused
+        if id(obj) not in self._shallow_cache:
+            self._shallow_cache[id(obj)] = (obj, obj.footprint_as_shallow_dict())
+        return self._shallow_cache[id(obj)][1]
-- 
2.43.0


From 6c3c8e1c54e2267a5f8e83e123c0a35d16a1da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 31/46] fix: values and outcast of an isclass attribute are
 classes

They were converted to instances of the type of the attribute when the
footprint was defined.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 27f7248..e01b2dd 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -211,7 +211,7 @@ class Footprint:
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
                 for v in list(fp['attr'][a][autoreclass]):
-                    if not isinstance(v, ktype):
+                    if not (isinstance(v, ktype) or fp['attr'][a].get('isclass', False)):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
                             v = ktype(v, **kargs)
-- 
2.43.0


From d64643bf1444e5881214e5822dd632c679ec514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 32/46] fix: a fasttrack attribute that can not be converted is
 not an error

The resolution of a class rejects any value whose conversion raises a
FootprintException. The subsetting made beforehand let it through.
---
 src/footprints/collectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 8c2d388..a20ed55 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -230,7 +230,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                         # A type conversion might be usefull
                         try:
                             v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
-                        except (ValueError, TypeError):
+                        except Exception:
+                            # The resolution itself will tell what is wrong with this value
                             v_conv = None
                         if (v_conv is not None and util.is_hashable(v_conv) and
                                 v_conv in self._fasttrack_index[k]):
-- 
2.43.0


From 60a3a0e027d39099c64eff57df6e953b5a5403ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 33/46] fix: the dictionary used to define a footprint is not
 modified

Its attr and only entries, when given as lists, were replaced in place.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index e01b2dd..03b4a60 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -167,7 +167,7 @@ class Footprint:
             adict = None
             if isinstance(a, dict) and bool(a):
                 logger.debug('Init Footprint updated with dict %s', a)
-                adict = util.list2dict(a, ('attr', 'only'))
+                adict = util.list2dict(dict(a), ('attr', 'only'))
             if isinstance(a, Footprint) and (bool(a.attr) or bool(a.only)):
                 logger.debug('Init Footprint updated with object %s', a)
                 adict = a.as_dict()
-- 
2.43.0


From 3f28c9168d684d29bf66d3259076cc778dbd51c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 34/46] fix: a failed lookup can be reported with an empty
 report log

With a maximum length of 0 for the light reports, there is no last report:
a failed load raised an AttributeError instead of returning None.
---
 src/footprints/collectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index a20ed55..4cf0938 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -300,7 +300,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         elif emptywarning:
             dumper = dump.get()
             logger.warning("No %s found in description \n%s", self.tag, dumper.cleandump(desc))
-            if mkstdreport and self.report:
+            if mkstdreport and self.report and self.report_last is not None:
                 print("\n", self.report_log.info(), "\n")
                 if reportstyle == config.RAW_REPORTINGSTYLE:
                     self.report_last.lightdump()
-- 
2.43.0


From 6274c92eb3c63c84bb72a7a7a838cb7087e85272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:43 +0000
Subject: [PATCH 35/46] fix: file patterns references and protected or not yet
 expanded values

The references to the parts matched by a file pattern were replaced neither
in the lists (...) nor in the dictionaries still to be expanded, hence the
result depended on the order of the keys. The protected strings became plain
strings and were expanded. A matched part that looks like a reference could
be replaced in turn.
---
 src/footprints/util.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 4e4d3a6..ac92c37 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -49,6 +49,22 @@ def list2dict(a, klist):
     return a
 
 
+_GLOBREF_RE = re.compile(r'\[glob:(\w+)\]')
+
+
+def _replace_globs(value, globs, desc):
+    """Replace the references to the parts of a file name in **value** or in the items to be expanded."""
+    if isinstance(value, str):
+        replaced = _GLOBREF_RE.sub(lambda m: globs.get(m.group(1), m.group(0)), value)
+        return value if replaced == value else value.__class__(replaced)
+    if not _still_expandable(value, desc):
+        return value
+    if isinstance(value, dict):
+        return {k: {x: _replace_globs(y, globs, desc) for x, y in v.items()} if k in desc else v
+                for k, v in value.items()}
+    return [_replace_globs(x, globs, desc) for x in value]
+
+
 def inplace(desc, key, value, globs=None, globalindex=None):
     """
     Redefine the ``key`` value in a deep copy of the description ``desc``.
@@ -67,9 +83,8 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd = copy.deepcopy(desc)
     newd[key] = value
     if globs:
-        for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
-            for g in globs.keys():
-                newd[k] = newd[k].replace('[glob:' + g + ']', globs[g])
+        for k in [x for x in newd.keys() if x != key]:
+            newd[k] = _replace_globs(newd[k], globs, desc)
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From ef91931aa649e2daea0ce332e8893936884d6e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 36/46] fix: the names given by a file pattern are not expanded
 again

A file name (or one of its matched parts) with a comma was split.
---
 src/footprints/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index ac92c37..65a4116 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -13,6 +13,8 @@ from bronx.stdtypes.date import timeintrangex
 from bronx.syntax import dictmerge as _b_dictmerge
 from bronx.syntax import mktuple as _b_mktuple
 
+from .stdtypes import FPStr
+
 #: No automatic export
 __all__ = []
 
@@ -56,7 +58,11 @@ def _replace_globs(value, globs, desc):
     """Replace the references to the parts of a file name in **value** or in the items to be expanded."""
     if isinstance(value, str):
         replaced = _GLOBREF_RE.sub(lambda m: globs.get(m.group(1), m.group(0)), value)
-        return value if replaced == value else value.__class__(replaced)
+        if replaced == value:
+            return value
+        if _still_expandable(replaced, {}) and not _still_expandable(value, {}):
+            return FPStr(replaced)
+        return value.__class__(replaced)
     if not _still_expandable(value, desc):
         return value
     if isinstance(value, dict):
@@ -316,6 +322,8 @@ def expand(desc):
                             globmap = dict()
                             for g in g_names:
                                 globmap[g] = m.group(g)
+                            if _still_expandable(filename, d):
+                                filename = FPStr(filename)
                             repld.append(inplace(d, k, filename, globmap, globalindex=globalindex))
                             globalindex += 1
                     newld.extend(repld)
-- 
2.43.0


From 25f0d125e4cbcfbd19c556c2c99ab45b50e4a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 37/46] fix: any malformed file pattern raises a ValueError

With an invalid name, or expressions that are valid on their own only, a
re.error was raised.
---
 src/footprints/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 65a4116..6dec2e4 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -181,7 +181,11 @@ def _parse_globs(todo):
         finalpattern += glob2re(curbuffer)
         finalglob += curbuffer
 
-    return glob_names, re.compile('^' + finalpattern + '$'), finalglob
+    try:
+        finalre = re.compile('^' + finalpattern + '$')
+    except re.error as e:
+        raise ValueError("Unable to compile << {:s} >>: {!s}".format(finalpattern, e))
+    return glob_names, finalre, finalglob
 
 
 _RANGE_RE = re.compile(r'range\(\d+(,\d+)?(,\d+)?\)$', re.IGNORECASE)
-- 
2.43.0


From ce53c146a8fcb091d4681c51bfc91398e0910918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:47 +0000
Subject: [PATCH 38/46] fix: the proxy finds a collector whatever the case of
 the name

Like the collectors themselves do.
---
 src/footprints/proxies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/proxies.py b/src/footprints/proxies.py
index 6291fb7..fe6a5c8 100644
--- a/src/footprints/proxies.py
+++ b/src/footprints/proxies.py
@@ -69,7 +69,7 @@ class FootprintProxy(getbytag.GetByTag):
 
     def exists(self, tag):
         """Check if a given ``tag`` of objects is tracked or not."""
-        return tag.rstrip('s') in collectors.keys()
+        return collectors.Collector.tag_clean(tag) in collectors.keys()
 
     def __contains__(self, item):
         """Similar as ``self.exists(item)``."""
@@ -88,7 +88,7 @@ class FootprintProxy(getbytag.GetByTag):
         if attr.startswith('_') or attr not in self:
             return None
         else:
-            if attr.endswith('s'):
+            if attr.lower().endswith('s'):
                 return collectors.get(tag=attr)
             else:
                 return collectors.get(tag=attr).load
-- 
2.43.0


From 593e83a9ebab3d9a087d92eb31af732dedcf15a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:01 +0000
Subject: [PATCH 39/46] fix: list an alias shared by several attributes under
 each of them

The docstring only mentioned the last attribute.
---
 src/footprints/doc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 11aae26..404049e 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -2,7 +2,6 @@
 Footprint's docstring generator
 """
 
-import collections
 import re
 
 from bronx.fancies import dump
@@ -70,7 +69,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
 
     # Now the attributes...
     out.append('   Automatic parameters from the footprint:\n')
-    aliases = collections.OrderedDict()  # For later use
+    aliases = list()  # For later use
     # First sort alphabetically with respect to the attribute names
     s_attrs = sorted(fpdict['attr'].items(), key=lambda item: item[0])
     # Then use visibility and zorder
@@ -102,7 +101,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
         # Store aliases (they will be displayed later)
         if desc['alias']:
             for alias in desc['alias']:
-                aliases[alias] = attr
+                aliases.append((alias, attr))
     out.append('')
 
     # Only
@@ -122,7 +121,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     # Aliases
     if aliases:
         out.append("   Aliases of some parameters:\n")
-        for k, v in aliases.items():
+        for k, v in aliases:
             out.append("     * **{}** is an alias of {}.".format(k, v))
         out.append('')
 
-- 
2.43.0


From 0889320d2a01e7de1d5fdcb76c97f8ba91e3142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 40/46] fix: flat report sorted on a key whose values are not
 strings

It raised a TypeError.
---
 src/footprints/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 2a1e5f8..bc0978c 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -434,7 +434,7 @@ class FlatReport:
             done = True
             for k in self._sort:
                 if k in info:
-                    entry = k + ': ' + info.pop(k)
+                    entry = k + ': ' + str(info.pop(k))
                     if entry not in current:
                         current[entry] = dict()
                     current = current[entry]
-- 
2.43.0


From b83199874d970ad527a6834e6727a92d4e9892b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:59 +0000
Subject: [PATCH 41/46] fix: a value built on a rejected attribute is missing

Formatting the rejected value (None) raised a TypeError, which put an end to
the lookup instead of the rejection of the class.
---
 src/footprints/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 03b4a60..d9127ff 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -498,6 +498,10 @@ class Footprint:
                             raise FootprintUnreachableAttr('Could not replace attribute ' + replk)
                     if replk in guess:
                         if replk not in todok:
+                            if guess[replk] is None:
+                                # The attribute was rejected: nothing can be built on it
+                                guess[k] = None
+                                return True
                             changed = 1
                             if replm:
                                 replk_v = guess[replk]
-- 
2.43.0


From b59e72cc21e9cf610231ac26b4d693d14ac36e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 42/46] fix: a collector only tracks the objects of its own
 classes

The objects are notified by means of the full name of their class: a class
with the same module and name, but in an other collector, had its objects
tracked (then reused or listed) there as well.
---
 src/footprints/collectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 4cf0938..7adf3d4 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -84,7 +84,9 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
     def newobsitem(self, item, info):
         """Register a new instance of some of the classes in the current collector."""
         logger.debug('Notified {!r} new item {!r}'.format(self, item))
-        self.instances.add(item)
+        # NB: an other class with the very same name may be registered elsewhere
+        if self.tag in [self.tag_clean(cname) for cname in item.__class__._collector]:
+            self.instances.add(item)
 
     def delobsitem(self, item, info):
         """Unregister an existing object in the current collector of instances."""
-- 
2.43.0


From c7cdba3eb15cb05019814d79f2cba67835e3fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 43/46] fix: a single attribute name is not searched as a
 substring

With only='kind', the map also included any attribute whose name is a part of
"kind".
---
 src/footprints/collectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 7adf3d4..ff5cb74 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -447,7 +447,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         """Build a reversed attr-class map."""
         if attrmap is None:
             attrmap = dict()
-        if only is not None and not hasattr(only, '__contains__'):
+        if only is not None and (isinstance(only, str) or not hasattr(only, '__contains__')):
             only = (only,)
         for c in self:
             fp = c.footprint_retrieve()
-- 
2.43.0


From 33b341a5dc0d87deec4bfc4c8832442bb9920664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 44/46] fix: values of various types can be listed

Neither the values authorized by the classes of a collector nor the values of
the attributes of an object can always be compared: TypeError.
---
 src/footprints/__init__.py   | 6 +++++-
 src/footprints/collectors.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index d9127ff..b3293cb 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1014,7 +1014,11 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     @property
     def footprint_attributes_values(self):
         """Returns the list of current attributes values."""
-        return sorted(self._attributes.values())
+        thevalues = [self.footprint_getattr(a) for a in self.footprint_attributes]
+        try:
+            return sorted(thevalues)
+        except TypeError:
+            return thevalues
 
     def footprint_as_shallow_dict(self):
         """Returns a dictionary that contains the current attributes (shallow copy)."""
diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index ff5cb74..114b58c 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -495,7 +495,10 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             if attrname in fp.attr:
                 for v in fp.get_values(attrname):
                     allvalues.add(v)
-        return sorted(allvalues)
+        try:
+            return sorted(allvalues)
+        except TypeError:
+            return sorted(allvalues, key=repr)
 
     def report_dump(self, stamp=False):
         """Print a nicelly formatted dump report as a dict."""
-- 
2.43.0


From a0e0111fecf8d91b243be269e22ff574e3a2f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 45/46] fix: the last entry of a XML report can be listed

StandardReport.iter_last gave the very same dictionary again and again: once
collected, all the items were the last one. It also failed on an empty report.
---
 src/footprints/reporting.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index bc0978c..6671125 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -397,12 +397,13 @@ class StandardReport:
 
     def iter_last(self):
         """Iterate on last node and return ( class, name, why ) information."""
+        if self.root.lastChild is None:
+            return
         for kid in self.root.lastChild.childNodes:
-            dico = dict(classname=kid.getAttribute('name'))
             for subkid in kid.childNodes:
-                dico['name'] = subkid.getAttribute('name')
-                dico['why'] = subkid.getAttribute('why')
-                yield dico
+                yield dict(classname=kid.getAttribute('name'),
+                           name=subkid.getAttribute('name'),
+                           why=subkid.getAttribute('why'))
 
 
 class FlatReport:
-- 
2.43.0


From 23099c38e7e5c5c93bd737222c0da0fb597c38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 46/46] fix: a value refused by its type rejects the class
 whatever the error

The constructor of a type may raise something else than a ValueError or a TypeError
(re.error for FPRegex, OverflowError for int, decimal.InvalidOperation...): the whole
lookup crashed although the value is only not suitable for this class.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index b3293cb..bb24ea0 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -612,7 +612,7 @@ class Footprint:
                     try:
                         guess[k] = ktype(guess[k], **kwargs)
                         # logger.debug(' > Attr %s reclassed = %s', k, guess[k])
-                    except (ValueError, TypeError, FootprintException):
+                    except Exception:
                         # logger.debug(' > Attr %s badly reclassed as %s = %s', k, ktype, guess[k])
                         report.add(attribute=k, why=reporting.REPORT_WHY_RECLASS,
                                    args=(ktype.__name__, str(guess[k])))
-- 
2.43.0

