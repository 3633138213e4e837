From 8b7b48ef7fefb9d2799c85c2bd8af58d8205be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 01/47] fix: retype values/outcast over a snapshot of the set

The set was modified while being iterated: some entries were left with their
original type and duplicates raised a RuntimeError.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1d71b10..f0e25c2 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -209,7 +209,7 @@ class Footprint:
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
-                for v in fp['attr'][a][autoreclass]:
+                for v in list(fp['attr'][a][autoreclass]):
                     if not isinstance(v, ktype):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
-- 
2.43.0


From 0792b6dbd72f0f8ebe9dd7b7f7b6c6a471e49236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 02/47] fix: only clause on a missing value must not crash
 without a report

With the default ONERROR reporting, the first resolution pass is done with
report=None.
---
 src/footprints/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index f0e25c2..1d96a62 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -656,7 +656,8 @@ class Footprint:
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
             if actualvalue is None:
                 rd = False
-                report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
+                if report:
+                    report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
                 break
 
             checkflag = False
-- 
2.43.0


From b15e043a39cb14cc8cdf14ed0cc5f6807cda32c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 03/47] fix: a plain string in an only clause is a single value

Its characters were considered one by one.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1d96a62..a169d6c 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -641,7 +641,7 @@ class Footprint:
             resolvecache = collectors.ResolveCache()
         params = resolvecache.defaults
         for k, v in self.only.items():
-            if not hasattr(v, '__iter__'):
+            if isinstance(v, str) or not hasattr(v, '__iter__'):
                 v = (v,)
 
             actualattr = k
-- 
2.43.0


From bc30f61f38e6ea01123d5e9eb862ce08fbfef1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 04/47] fix: an optional attribute left unset does not fulfil
 an only clause

The internal UNKNOWN placeholder was compared to the expected values
(TypeError with the after_/before_ forms).
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index a169d6c..fb70660 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -654,7 +654,7 @@ class Footprint:
                 actualattr = k.partition('_')[-1]
 
             actualvalue = rd.get(actualattr, params.get(actualattr, None))
-            if actualvalue is None:
+            if actualvalue is None or actualvalue is UNKNOWN:
                 rd = False
                 if report:
                     report.add(attribute=actualattr, only=reporting.REPORT_ONLY_NOTFOUND, args=k)
-- 
2.43.0


From 204f44d01cac6503aaff43104c4cbc5a37b542ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 05/47] fix: look for the only keys in setup.defaults
 regardless of the case

The get method of LowerCaseDict objects is case sensitive.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index fb70660..e233c3b 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -653,7 +653,7 @@ class Footprint:
             if after or before:
                 actualattr = k.partition('_')[-1]
 
-            actualvalue = rd.get(actualattr, params.get(actualattr, None))
+            actualvalue = rd.get(actualattr, params[actualattr] if actualattr in params else None)
             if actualvalue is None or actualvalue is UNKNOWN:
                 rd = False
                 if report:
-- 
2.43.0


From 3b78b2bdb837d0a74f479875246562345cf76359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 06/47] fix: deleting a rwd attribute must only affect the
 given instance

The descriptor itself (shared by all the instances of the class) was broken
by the first deletion.
---
 src/footprints/__init__.py | 2 +-
 src/footprints/access.py   | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index e233c3b..d8addbf 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -1083,7 +1083,7 @@ class FootprintBase(metaclass=FootprintBaseMeta):
         rc = resolved and None not in resolved.values()
         if rc:
             for k in resolved.keys():
-                if self._attributes[k] != resolved[k]:
+                if self._attributes.get(k, None) != resolved[k]:
                     rc = False
                     break
         return rc
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 47dd2da..65fb313 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -30,6 +30,11 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
     """Read-write-del accessor class to footprint attributes."""
     access_mode = 'rwd'
 
+    def __get__(self, instance, owner):
+        if not instance.footprint_has_attribute(self._attr):
+            raise AttributeError('Attribute [' + self._attr + '] has been deleted')
+        return super().__get__(instance, owner)
+
     def __set__(self, instance, value, weak=False):
         fp = instance.footprint
         if self._attr is not None:
@@ -60,7 +65,6 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
 
     def __delete__(self, instance):
         instance.footprint_delattr(self._attr, auth=self._auth)
-        del self._attr
 
 
 class FootprintAttrDescriptorWeakRWD(FootprintAttrDescriptorRWD):
@@ -75,6 +79,9 @@ class FootprintAttrDescriptorRWX(FootprintAttrDescriptorRWD):
     """Read-write accessor class to footprint attributes."""
     access_mode = 'rwx'
 
+    # The attribute can not be deleted: no need to check for its existence
+    __get__ = FootprintAttrDescriptor.__get__
+
     def __delete__(self, instance):
         raise AttributeError('Read-only attribute [' + self._attr + '] (delete)')
 
-- 
2.43.0


From 8648db08c80d6eb079a4e6128711ba6b6ae533f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 07/47] fix: a weak attribute may be left unset, reset to None
 or given as a proxy

weakref.proxy was called on the UNKNOWN placeholder, None or an existing proxy.
---
 src/footprints/__init__.py | 3 ++-
 src/footprints/access.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index d8addbf..e741d0d 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -630,7 +630,8 @@ class Footprint:
                 # else:
                 #     logger.debug(' > No valid attribute %s', k)
             else:
-                if 'weak' in attrs[k]['access']:
+                if ('weak' in attrs[k]['access'] and guess[k] is not UNKNOWN and
+                        not isinstance(guess[k], weakref.ProxyTypes)):
                     guess[k] = weakref.proxy(guess[k])
 
         return (guess, attr_input, attr_seen)
diff --git a/src/footprints/access.py b/src/footprints/access.py
index 65fb313..c123a1f 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -59,7 +59,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             if fpdef['outcast'] and fp.in_values(value, fpdef['outcast']):
                 raise ValueError('Value {!s} excluded from range {!s}'
                                  .format(value, list(fpdef['outcast'])))
-            if weak:
+            if weak and value is not None and not isinstance(value, weakref.ProxyTypes):
                 value = weakref.proxy(value)
             instance.footprint_setattr(self._attr, value, auth=self._auth)
 
-- 
2.43.0


From 7dff879cbd9d06d11fbbd0754c89f7204198580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 08/47] fix: values that can not be hashed are valid attribute
 values

A tuple or FPDict with unhashable items, or a weak proxy (footprint_clone),
raised a TypeError during the resolution.
---
 src/footprints/__init__.py   | 15 +++++++++++++--
 src/footprints/collectors.py |  7 ++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index e741d0d..b607d6b 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -76,6 +76,17 @@ class FootprintInvalidDefinition(FootprintException):
     pass
 
 
+# Private utility
+
+def _is_hashable(obj):
+    """Returns whether ``obj`` could be hashed (this includes its own items, if any)."""
+    try:
+        hash(obj)
+    except TypeError:
+        return False
+    return True
+
+
 # Module interface
 
 def pickup(rd):
@@ -522,7 +533,7 @@ class Footprint:
 
     def in_values(self, item, values):
         """Check that item is inside ``values`` or compares as equal to one of these values."""
-        if item in values:
+        if _is_hashable(item) and item in values:
             return True
         else:
             return bool([x for x in values if x == item])
@@ -574,7 +585,7 @@ class Footprint:
 
             attr_seen.add(k)
 
-            while guess[k].__hash__ is not None and guess[k] in kdef['remap']:
+            while kdef['remap'] and _is_hashable(guess[k]) and guess[k] in kdef['remap']:
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
                 guess[k] = kdef['remap'][guess[k]]
 
diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index f3308b0..a747f60 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -516,6 +516,7 @@ class ResolveCache:
         self._shallow_cache = dict()
 
     def get_shallow_fp(self, obj):
-        if obj not in self._shallow_cache:
-            self._shallow_cache[obj] = obj.footprint_as_shallow_dict()
-        return self._shallow_cache[obj]
+        # NB: Weak proxies are not hashable (obj is also recorded in order to keep it alive)
+        if id(obj) not in self._shallow_cache:
+            self._shallow_cache[id(obj)] = (obj, obj.footprint_as_shallow_dict())
+        return self._shallow_cache[id(obj)][1]
-- 
2.43.0


From 4dbabdad6a86ec8915bbce7659d4cbcc2592f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 09/47] fix: endless remaps

A value remapped to itself (including autoremap with duplicated values) or a
cycle of remapped values caused the resolution to hang.
---
 src/footprints/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index b607d6b..c751979 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -585,8 +585,14 @@ class Footprint:
 
             attr_seen.add(k)
 
+            nbmap = 0
             while kdef['remap'] and _is_hashable(guess[k]) and guess[k] in kdef['remap']:
                 # logger.debug(' > Attr %s remap(%s) = %s', k, guess[k], kdef['remap'][guess[k]])
+                if guess[k] == kdef['remap'][guess[k]]:
+                    break
+                nbmap += 1
+                if nbmap > len(kdef['remap']):
+                    raise FootprintMaxIter('Endless remap of attribute ' + k)
                 guess[k] = kdef['remap'][guess[k]]
 
             if guess[k] is not UNKNOWN:
-- 
2.43.0


From 6e5026cded8553b16f53404289e15c29b4d30af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 10/47] fix: substituted values are plain text, not regex
 templates

Any backslash in a replacement value was either interpreted or fatal.
---
 src/footprints/__init__.py | 15 ++++++++++-----
 src/footprints/util.py     |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c751979..9c3ade6 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -76,7 +76,12 @@ class FootprintInvalidDefinition(FootprintException):
     pass
 
 
-# Private utility
+# Private utilities
+
+def _replace_first(repl, target):
+    """Replace the first substitution sequence of ``target`` by the ``repl`` string (as is)."""
+    return replattr.sub(lambda mobj: repl, target, 1)
+
 
 def _is_hashable(obj):
     """Returns whether ``obj`` could be hashed (this includes its own items, if any)."""
@@ -432,7 +437,7 @@ class Footprint:
                 else:
                     starter = subattr
         if guessk is not None and starter != '__SKIP__':
-            guessk = replattr.sub(myautofmt(starter), guessk, 1)
+            guessk = _replace_first(myautofmt(starter), guessk)
         return guessk, changed
 
     def _replacement(self, nbpass, k, kfast, guess, extras,
@@ -492,7 +497,7 @@ class Footprint:
                         if replx:
                             changed = 1
                             # Here we do not call _autofmt since replx is already a str
-                            guessk = replattr.sub(replx, guessk, 1)
+                            guessk = _replace_first(replx, guessk)
                         else:
                             logger.error('No %s attribute in guess:', replk)
                             logger.error('%s', guess)
@@ -508,7 +513,7 @@ class Footprint:
                                 guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                       guess, extras, myautofmt, requeue=False)
                             else:
-                                guessk = replattr.sub(myautofmt(guess[replk]), guessk, 1)
+                                guessk = _replace_first(myautofmt(guess[replk]), guessk)
                     elif replk in extras:
                         changed = 1
                         if replm:
@@ -516,7 +521,7 @@ class Footprint:
                             guessk, changed = self._process_replm(replk_v, replm, guessk, changed,
                                                                   guess, extras, myautofmt, requeue=True)
                         else:
-                            guessk = replattr.sub(myautofmt(extras[replk]), guessk, 1)
+                            guessk = _replace_first(myautofmt(extras[replk]), guessk)
 
         if (guessk is not None and
                 isinstance(guessk, str) and
diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9e3d17f..44b9c47 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -60,7 +60,7 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
             for g in globs.keys():
-                newd[k] = re.sub(r'\[glob:' + g + r'\]', globs[g], newd[k])
+                newd[k] = newd[k].replace('[glob:' + g + ']', globs[g])
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From afcf2a876d1b76e3732d5d1d97129f1b562fd9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 11/47] fix: an attribute that refers to itself must not hang

It is now dealt with as any other circular reference (FootprintMaxIter).
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 9c3ade6..33c000b 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -506,7 +506,7 @@ class Footprint:
                             logger.error('Actual defaults: %s', setup.defaults)
                             raise FootprintUnreachableAttr('Could not replace attribute ' + replk)
                     if replk in guess:
-                        if replk not in todok:
+                        if replk not in todok and replk != k:
                             changed = 1
                             if replm:
                                 replk_v = guess[replk]
-- 
2.43.0


From 9cc54872cf5abe0dca2b7f30ba09208479b6a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 12/47] fix: footprints with many attributes are not circular
 references

With n attributes, up to n * (n + 1) / 2 tries may be needed (at least one
attribute is settled each time the queue is cycled through).
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 33c000b..3358772 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -463,7 +463,7 @@ class Footprint:
             If the format string is incorrect, or if it can not be applied to key-name, a
             :exception:`ValueError` exception will be raised
         """
-        if nbpass > 50:
+        if nbpass > max(50, len(guess) * (len(guess) + 1) // 2):
             logger.error('Resolve probably cycling too much... %d tries ?', nbpass)
             raise FootprintMaxIter('Too many Footprint replacements')
 
-- 
2.43.0


From 7d1d2f3c562827126c78a5503c5ad030ff380a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 13/47] fix: circular references among extras must not hang

The extra parameters are replaced on the spot: they were not subject to any limit.
---
 src/footprints/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 3358772..dd96e24 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -469,8 +469,15 @@ class Footprint:
 
         guessk = guess[k]
 
+        nbrepl = 0
+        maxrepl = 1000 + (guessk.count('[') if isinstance(guessk, str) else 0)
+
         changed = 1
         while changed:
+            nbrepl += 1
+            if nbrepl > maxrepl:
+                logger.error('Attribute %s is being replaced endlessly', k)
+                raise FootprintMaxIter('Too many Footprint replacements')
             changed = 0
             if isinstance(guessk, str):
                 mobj = replattr.search(guessk)
-- 
2.43.0


From e7cc197fb1cb467c8dc8b7ebb04aac877eca92f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 14/47] fix: isclass attributes must reject anything but a
 class

issubclass raises a TypeError in such a case.
---
 src/footprints/__init__.py | 2 +-
 src/footprints/access.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index dd96e24..ea0b907 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -610,7 +610,7 @@ class Footprint:
             if guess[k] is not UNKNOWN:
                 ktype = kdef.get('type', str)
                 if kdef.get('isclass', False):
-                    if not issubclass(guess[k], ktype):
+                    if not (isinstance(guess[k], type) and issubclass(guess[k], ktype)):
                         # logger.debug(' > Attr %s class %s not a subclass %s', k, guess[k], ktype)
                         report.add(attribute=k, why=reporting.REPORT_WHY_SUBCLASS, args=ktype.__name__)
                         diags[k] = True
diff --git a/src/footprints/access.py b/src/footprints/access.py
index c123a1f..75cc3bb 100644
--- a/src/footprints/access.py
+++ b/src/footprints/access.py
@@ -41,7 +41,7 @@ class FootprintAttrDescriptorRWD(FootprintAttrDescriptor):
             fpdef = fp.attr[self._attr]
             atype = fpdef.get('type', str)
             if fpdef.get('isclass', False):
-                if not issubclass(value, atype):
+                if not (isinstance(value, type) and issubclass(value, atype)):
                     raise ValueError('Attempt to set {:s} as a non compatible subclass {!s}'
                                      .format(self._attr, value))
             elif not isinstance(value, atype) and value is not None:
-- 
2.43.0


From 8c1de83eeb477a5814c01756212f35266443f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:59 +0000
Subject: [PATCH 15/47] fix: values/outcast of isclass attributes are classes

There is no point in converting them to instances.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index ea0b907..51c91e0 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -226,7 +226,7 @@ class Footprint:
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
                 for v in list(fp['attr'][a][autoreclass]):
-                    if not isinstance(v, ktype):
+                    if not fp['attr'][a].get('isclass', False) and not isinstance(v, ktype):
                         fp['attr'][a][autoreclass].remove(v)
                         try:
                             v = ktype(v, **kargs)
-- 
2.43.0


From c34fe7d7221ac3f7d357f924ef4bb82648745c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:59 +0000
Subject: [PATCH 16/47] fix: unset attributes are still unset after a pickle
 round-trip

The UNKNOWN placeholder, a mere string, is identified using "is".
---
 src/footprints/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 51c91e0..05494c2 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -965,6 +965,10 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __setstate__(self, state):
         self._observer = observer.get(tag=self.__class__.fullname())
         self.__dict__.update(state)
+        # The UNKNOWN placeholder is always looked for using its identity
+        for k, v in self._attributes.items():
+            if isinstance(v, str) and v == UNKNOWN:
+                self._attributes[k] = UNKNOWN
         self.footprint_riseup()
 
     def footprint_getattr(self, attr, auth=None):  # @UnusedVariable
-- 
2.43.0


From 2ef076c90de0166f14065e88a386bff5678e9f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 17/47] fix: equal FPDict or FPSet objects must share the same
 hash

The hash was sensitive to the ordering of the items.
---
 src/footprints/stdtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/stdtypes.py b/src/footprints/stdtypes.py
index d89a30b..f91523c 100644
--- a/src/footprints/stdtypes.py
+++ b/src/footprints/stdtypes.py
@@ -15,7 +15,7 @@ __all__ = ['FPDict', 'FPList', 'FPSet', 'FPStr', 'FPTuple', 'FPRegex']
 class FPDict(dict):
     """A dict type for FootPrints arguments (without expansion)."""
     def __hash__(self):
-        return hash(tuple(self.items()))
+        return hash(frozenset(self.items()))
 
 
 class FPList(list):
@@ -33,7 +33,7 @@ class FPSet(set):
     """A set type for FootPrints arguments (without expansion)."""
 
     def __hash__(self):
-        return hash(tuple(self))
+        return hash(frozenset(self))
 
     def items(self):
         """Return a tuple copy of internal components of the FPSet."""
-- 
2.43.0


From bd83d5359f889b26c8053d8bbe8d0ac7fb1021a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 18/47] fix: comparing a priority level with an unknown tag is
 False

An AttributeError was raised.
---
 src/footprints/priorities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 1322b79..5429748 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -40,6 +40,8 @@ class PriorityLevel:
                 other = self.inset.level(str(other))
             except (ValueError, TypeError):
                 return False
+            if other is None:
+                return False
         return self.rank == other.rank
 
     def __gt__(self, other):
-- 
2.43.0


From 0504004cb19c950619b504f9864e1dd6d4cd6b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 19/47] fix: a failing priority insertion leaves the priority
 set as it was

With an unknown anchor, the inserted level was lost.
---
 src/footprints/priorities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 5429748..77b78af 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -202,6 +202,10 @@ class PrioritySet:
             return None
         else:
             tag = str(tag).upper()
+        for anchor in [x for x in (after if after is not None else before, ) if x is not None]:
+            anchor = anchor.tag if isinstance(anchor, PriorityLevel) else anchor.upper()
+            if anchor == tag or anchor not in self._levels:
+                raise ValueError('Could not insert {!s} next to {!s}'.format(tag, anchor))
         self.extend(tag)
         if after is not None:
             self._levels.remove(tag)
-- 
2.43.0


From 1468f775192f756bf238c0ee021407468a109372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 20/47] fix: a deep copied priority level stays in its priority
 set

Footprints merges may deepcopy levels (nodefault): the copy was tied to a
snapshot of the priority set, hence insensitive to any later reordering.
---
 src/footprints/priorities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/footprints/priorities.py b/src/footprints/priorities.py
index 77b78af..698a861 100644
--- a/src/footprints/priorities.py
+++ b/src/footprints/priorities.py
@@ -49,6 +49,11 @@ class PriorityLevel:
             other = self.inset.level(str(other))
         return self.rank > other.rank
 
+    def __deepcopy__(self, memo):
+        # A level remains in its own set (unless the set itself is being copied)
+        pset = memo.get(id(self._pset), self._pset)
+        return self if pset is self._pset else self.__class__(self._tag, pset)
+
     def delete(self):
         """Removes itself from the priority set."""
         self.inset.remove(self.tag)
-- 
2.43.0


From 1a7f6c651c304c6afb18c219d1ded126135102f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 21/47] fix: inherit from nodefault footprints without any
 attribute

Such footprints have no default "only" entry.
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 05494c2..24d2a2e 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -183,7 +183,7 @@ class Footprint:
             if isinstance(a, dict) and bool(a):
                 logger.debug('Init Footprint updated with dict %s', a)
                 adict = util.list2dict(a, ('attr', 'only'))
-            if isinstance(a, Footprint) and (bool(a.attr) or bool(a.only)):
+            if isinstance(a, Footprint) and (bool(a.attr) or bool(a._fp.get('only'))):
                 logger.debug('Init Footprint updated with object %s', a)
                 adict = a.as_dict()
             if adict is not None:
-- 
2.43.0


From 901dc08c7c1b29bf2c9b65f125fb772d629f45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 22/47] fix: expand dictionary matchings whatever the order of
 the keys

The matching was attempted (KeyError) on strings that are still to be expanded.
---
 src/footprints/util.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 44b9c47..6c947a1 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -66,6 +66,13 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     return newd
 
 
+def _is_expandable_str(v):
+    """Tell if **v** is a string that will be expanded (range, comma separated or glob)."""
+    return (isinstance(v, str) and not v.__class__.__name__.startswith('FP') and
+            bool(re.match(r'range\(\d+(,\d+)?(,\d+)?\)$', v, re.IGNORECASE) or
+                 re.search(r',', v) or re.search(r'{glob:\w+:', v)))
+
+
 def _parse_globs(todo):
     """Process the **todo** string that contains ``glob`` statements.
 
@@ -285,7 +292,8 @@ def expand(desc):
                 if isinstance(v, dict):
                     for dk in [x for x in v.keys() if x in d]:
                         dv = d[dk]
-                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set)):
+                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set) or
+                                _is_expandable_str(dv)):
                             newld.append(inplace(d, k, v[dk][str(dv)], globalindex=globalindex))
                             globalindex += 1
                             somechanges = True
-- 
2.43.0


From 93b0e99e8ea25f433b6ef8ceb4b7fca5b80669b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 23/47] fix: clear or reduce a footprint log

* clear: the history was not bounded anymore and outdated views were returned;
* reduce_to_last: TypeError since the log is a deque.
---
 src/footprints/reporting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 8749838..7390ad2 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -234,11 +234,15 @@ class FootprintLog(getbytag.GetByTag):
 
     def clear(self):
         """Start a fresh new log history."""
-        self._log = list()
+        self._log.clear()
+        self._current = None
+        self._touch = True
 
     def reduce_to_last(self):
         """Remove from the current log history all but the last collector resolution attempt."""
-        self._log[0:-1] = []
+        while len(self._log) > 1:
+            self._log.popleft()
+        self._touch = True
 
     @property
     def last(self):
-- 
2.43.0


From b83400952167fa1d9ea5afaa9e8a4408e1d2eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 24/47] fix: the views of a footprint log must be up-to-date

as_xml and as_dict shared a single flag: as soon as one of them was called, the
other one could return an outdated view. The value of stamp was ignored as well.
---
 src/footprints/reporting.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 7390ad2..6410e87 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -210,8 +210,13 @@ class FootprintLog(getbytag.GetByTag):
         self._weak = weak
         self._current = None
         self._xml = None
-        self._dict = dict()
-        self._touch = False
+        self._dict = None
+        self._dict_stamp = None
+
+    def _touch(self):
+        """The log is changing: forget about any view previously generated."""
+        self._xml = None
+        self._dict = None
 
     def info(self):
         """Return a simple description as a string."""
@@ -236,13 +241,13 @@ class FootprintLog(getbytag.GetByTag):
         """Start a fresh new log history."""
         self._log.clear()
         self._current = None
-        self._touch = True
+        self._touch()
 
     def reduce_to_last(self):
         """Remove from the current log history all but the last collector resolution attempt."""
         while len(self._log) > 1:
             self._log.popleft()
-        self._touch = True
+        self._touch()
 
     @property
     def last(self):
@@ -258,7 +263,7 @@ class FootprintLog(getbytag.GetByTag):
         """Insert a collector entry into the log."""
         self._current = FootprintLogCollector(node, **kw)
         self._log.append(self._current)
-        self._touch = True
+        self._touch()
 
     def add_candidate(self, node, **kw):
         """Insert a class entry into the log."""
@@ -267,7 +272,7 @@ class FootprintLog(getbytag.GetByTag):
         if self._current is None or not isinstance(self._current, FootprintLogCollector):
             raise FootprintBadLogEntry('Current log context is either empty or not a collector')
         self._current = FootprintLogClass(node, parent=self._current, **kw)
-        self._touch = True
+        self._touch()
 
     def add_attribute(self, name, **kw):
         """Insert an attribute resolution information entry into the log."""
@@ -275,7 +280,7 @@ class FootprintLog(getbytag.GetByTag):
             raise FootprintBadLogEntry('Current log context is either empty or not a class candidate')
         kw['name'] = name
         self._current.add(kw)
-        self._touch = True
+        self._touch()
 
     def add(self, **kw):
         """
@@ -314,17 +319,17 @@ class FootprintLog(getbytag.GetByTag):
 
     def as_xml(self, force=False):
         """Return a true class:`xml.dom.minidom.Document`."""
-        if not self._xml or self._touch or force:
+        if not self._xml or force:
             self._xml = StandardReport(tag=self.tag)
             for item in self._log:
                 item.feed_xml(self._xml)
-            self._touch = False
         return self._xml
 
     def as_dict(self, force=False, stamp=True):
         """Convenient method for retrieving some handy dictionary."""
-        if not self._dict or self._touch or force:
+        if self._dict is None or self._dict_stamp != bool(stamp) or force:
             self._dict = dict()
+            self._dict_stamp = bool(stamp)
             for i, item in enumerate(self._log):
                 key = item.name
                 if stamp:
@@ -332,7 +337,6 @@ class FootprintLog(getbytag.GetByTag):
                 else:
                     key += '_{:04d}'.format(i + 1)
                 self._dict[key] = item.as_dict()
-            self._touch = False
         return self._dict
 
     def fulldump(self, stamp=False):
-- 
2.43.0


From 71959bcf9a1de52efd2f60af00e955034efe13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 25/47] fix: ordering of factorized reports

The list was modified while being iterated.
---
 src/footprints/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 6410e87..8dfeb9d 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -496,7 +496,7 @@ class FactorizedReport:
         order = list()
         other = list(dic.keys())
         for val in self.interestingValues(list(self.keys())[depth]):
-            for v in other:
+            for v in list(other):
                 if v[1].startswith(val):
                     order.append(v)
                     other.remove(v)
-- 
2.43.0


From 48a3b8dd3236e52987d971180b0f307886dfe132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 26/47] fix: error message of FactorizedReport.add

The ordering key is a tuple.
---
 src/footprints/reporting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 8dfeb9d..93adfba 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -525,7 +525,7 @@ class FactorizedReport:
                     dic = dic[(kj, v)]
                     break
             if v is None:
-                raise KeyError("Ordering key not found: {:s}".format(k))
+                raise KeyError("Ordering key not found: {!s}".format(k))
         info = kw.get('args', '')
         dic[tagvalue] = str(info)
 
-- 
2.43.0


From 04481468f7f819f2035da3999b3eb62cd318ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 27/47] fix: documentation visibility prevails over zorder,
 even for extreme zorders

---
 src/footprints/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 516c81b..11aae26 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -75,7 +75,7 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     s_attrs = sorted(fpdict['attr'].items(), key=lambda item: item[0])
     # Then use visibility and zorder
     s_attrs = sorted(s_attrs,
-                     key=lambda item: item[1]['doc_visibility'].rank * 200 - item[1]['doc_zorder'])
+                     key=lambda item: (item[1]['doc_visibility'].rank, - item[1]['doc_zorder']))
     for attr, desc in s_attrs:
         # Find out the type name
         t = desc.get('type', str)
-- 
2.43.0


From d3a95984ebc43f0244e20f8f220f5e1ae39daa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 28/47] fix: fasttrack must not discard classes that remap the
 attribute value

The authorized values are those obtained after the remap.
---
 src/footprints/collectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index a747f60..b0e41dd 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -151,7 +151,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             if myattr in myfp.mandatory():
                 myvalues = myfp.get_values(myattr)
                 # Is there some restrictions on values ?
-                if myvalues:
+                # (NB: With a remap table, some other input values may be accepted)
+                if myvalues and not myfp.attr[myattr]['remap']:
                     # Ensure that the attribute types are consistent
                     if self._fasttrack_type[myattr] is None:
                         self._fasttrack_type[myattr] = myfp.attr[myattr].get('type', str)
-- 
2.43.0


From 4e2f7f8d3508c85d05707f7ee9ed7bd8c8329436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 29/47] fix: fasttrack must cope with values that can not be
 hashed

---
 src/footprints/collectors.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index b0e41dd..a20a694 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -224,6 +224,11 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             objgroup_list = list()
             for k, v in desc.items():
                 if k in self._fasttrack_attr:
+                    try:
+                        hash(v)
+                    except TypeError:
+                        # Such a value can't be looked for in the index...
+                        continue
                     # Check if the key's value is in the index
                     if v in self._fasttrack_index[k]:
                         indexkey = v
-- 
2.43.0


From 3d8afbfb0fb3637f1489eb407fbe58523d2ed151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 30/47] fix: a failing fasttrack type conversion is not an
 error

Any exception (e.g. a FootprintException) just means that the index can't be used.
---
 src/footprints/collectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index a20a694..a1f8cc5 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -236,7 +236,8 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                         # A type conversion might be usefull
                         try:
                             v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
-                        except (ValueError, TypeError):
+                            hash(v_conv)
+                        except Exception:
                             v_conv = None
                         if v_conv is not None and v_conv in self._fasttrack_index[k]:
                             indexkey = v_conv
-- 
2.43.0


From a96ca54147841fa06f0b8f23ea56aebba2f31a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 31/47] fix: removing classes with pop or clear must update the
 fasttrack index

Otherwise the removed classes could still be selected.
---
 src/footprints/collectors.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index a1f8cc5..ee4f55d 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -274,6 +274,17 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         super().discard(bye)
         self._upd_fasttrack_delete(bye)
 
+    def pop(self):
+        """Remove and return an arbitrary element from the catalog."""
+        bye = super().pop()
+        self._upd_fasttrack_delete(bye)
+        return bye
+
+    def clear(self):
+        """Completely clear the list of items previously recorded in this catalog."""
+        super().clear()
+        self._set_fasttrack(self._fasttrack_attr)
+
     def pickup_and_cache(self, desc, resolvecache=None):
         """Try to pickup inside the collector an item that could match the description."""
         logger.debug('Pick up a "{:s}" in description {!s} with collector {!r}'.format(self.tag, desc, self))
-- 
2.43.0


From d5ce9cbbac0fbffbdf43f9ea43eac432f6783076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 32/47] fix: an invalid class must not be registered in any
 collector

With several collectors, the class was added to those preceding the conflicting one.
---
 src/footprints/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 24d2a2e..36e206a 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -854,6 +854,7 @@ class FootprintBaseMeta(type):
             if cname in thisfp.allkeys():
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
+        for cname in realcls._collector:
             thiscollector = collectors.get(tag=cname, report=setup.report, lreport_len=setup.lreport_len,
                                            report_style=setup.report_style)
             thiscollector.add(realcls, abstract=abstract)
-- 
2.43.0


From 7886fba40ebd8b9454f98d8bbca4cf39d56459aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 33/47] fix: detect attributes that conflict with the actual
 collector tag

The actual tag is a lower-case string without any trailing "s".
---
 src/footprints/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 36e206a..0dfc191 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -851,7 +851,7 @@ class FootprintBaseMeta(type):
                 raise FootprintInvalidDefinition('Explicit class without any mandatory footprint attribute.')
         # Add all classes in collectors but take into accout the abstract key
         for cname in realcls._collector:
-            if cname in thisfp.allkeys():
+            if thisfp.allkeys() & {cname, collectors.Collector.tag_clean(cname)}:
                 raise FootprintInvalidDefinition('A attribute or alias name is equal to collector tag: ' +
                                                  cname)
         for cname in realcls._collector:
-- 
2.43.0


From 520186d8344d1e9d12f905f7c5d2b6a6feb41fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 34/47] fix: retype each of the values/outcast independently

A value that is equal, once converted, to the raw form of another one was lost.
---
 src/footprints/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 0dfc191..1311119 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -220,21 +220,20 @@ class Footprint:
                     vfirst = fp['attr'][a]['values'][0]
                     for x in fp['attr'][a]['values'][1:]:
                         fp['attr'][a]['remap'][x] = vfirst
-            fp['attr'][a]['values'] = set(fp['attr'][a].get('values', set()))
-            fp['attr'][a]['outcast'] = set(fp['attr'][a].get('outcast', set()))
             ktype = fp['attr'][a].get('type', str)
             kargs = fp['attr'][a].get('args', dict())
             for autoreclass in ('values', 'outcast'):
-                for v in list(fp['attr'][a][autoreclass]):
+                reclassed = set()
+                for v in fp['attr'][a].get(autoreclass, set()):
                     if not fp['attr'][a].get('isclass', False) and not isinstance(v, ktype):
-                        fp['attr'][a][autoreclass].remove(v)
                         try:
                             v = ktype(v, **kargs)
-                            fp['attr'][a][autoreclass].add(v)
                             logger.debug('Init Footprint [%s] %s reclassed = %s', autoreclass, a, v)
                         except Exception:
                             logger.error('Bad init footprint in [%s]', autoreclass)
                             raise
+                    reclassed.add(v)
+                fp['attr'][a][autoreclass] = reclassed
         self._fp = fp
         self._firstguess_keys_internal = None
         self._resolve_keys_internal = None
-- 
2.43.0


From 397342c460c49e2cd77404e09f9f50b386cc98b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:19 +0000
Subject: [PATCH 35/47] fix: fasttrack must convert values as the resolution
 does

A value that compares equal to an index entry without being of the proper type may well be converted to something else.
---
 src/footprints/collectors.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index ee4f55d..5b5758d 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -229,21 +229,21 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
                     except TypeError:
                         # Such a value can't be looked for in the index...
                         continue
-                    # Check if the key's value is in the index
-                    if v in self._fasttrack_index[k]:
-                        indexkey = v
-                    else:
-                        # A type conversion might be usefull
+                    # A type conversion might be usefull (NB: A value of another type that
+                    # compares equal to an index entry may well be converted to something else)
+                    v_conv = v
+                    if self._fasttrack_type[k] is not None and not isinstance(v, (type, self._fasttrack_type[k])):
                         try:
                             v_conv = self._fasttrack_type[k](v, ** self._fasttrack_typeargs[k])
                             hash(v_conv)
                         except Exception:
                             v_conv = None
-                        if v_conv is not None and v_conv in self._fasttrack_index[k]:
-                            indexkey = v_conv
-                        else:
-                            # Ok we give up...
-                            indexkey = None
+                    # Check if the key's value is in the index
+                    if v_conv is not None and v_conv in self._fasttrack_index[k]:
+                        indexkey = v_conv
+                    else:
+                        # Ok we give up...
+                        indexkey = None
 
                     if indexkey is not None:
                         logger.debug('Fasttrack subsetting took place for key %s', k)
-- 
2.43.0


From 9649db49cd52242cd3ea9349be8c7f8f0df6c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 36/47] fix: a shallow copy must not share its attributes with
 the original

---
 src/footprints/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 1311119..c0dc436 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -965,6 +965,8 @@ class FootprintBase(metaclass=FootprintBaseMeta):
     def __setstate__(self, state):
         self._observer = observer.get(tag=self.__class__.fullname())
         self.__dict__.update(state)
+        # Even a shallow copy has its own attributes
+        self._attributes = dict(self._attributes)
         # The UNKNOWN placeholder is always looked for using its identity
         for k, v in self._attributes.items():
             if isinstance(v, str) and v == UNKNOWN:
-- 
2.43.0


From 64d8482f9824c60b57ce44cb5b2f886e30ca3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 37/47] fix: a null string is reported as an invalid value, not
 as a missing one

---
 src/footprints/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index c0dc436..8e400dc 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -648,6 +648,7 @@ class Footprint:
                 logger.warning(' > Attr %s is a null string', k)
                 if k not in diags:
                     report.add(attribute=k, why=reporting.REPORT_WHY_INVALID)
+                    diags[k] = True
             if guess[k] is None:
                 attr_input.discard(k)
                 if k not in diags:
-- 
2.43.0


From 66d3f73718968bcb594510ab25b38adcec73db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 38/47] fix: things that can not be sorted must not break the
 messages, reports and documentation

---
 src/footprints/__init__.py   |  3 ++-
 src/footprints/collectors.py | 12 +++++-------
 src/footprints/doc.py        |  6 +++++-
 src/footprints/reporting.py  |  4 +++-
 src/footprints/util.py       | 11 ++++++++++-
 5 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 8e400dc..00794fa 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -17,6 +17,7 @@ from . import access, collectors, config, doc
 from . import priorities, proxies, reporting, util
 from .stdtypes import FPDict, FPList, FPRegex, FPSet, FPStr, FPTuple
 
+assert dump
 assert FPDict
 assert FPList
 assert FPRegex
@@ -316,7 +317,7 @@ class Footprint:
 
     def nice(self):
         """Returns a nice dump version of the actual footprint."""
-        return dump.get().cleandump(self._fp)
+        return util.nicedump(self._fp)
 
     def track(self, desc):
         """Returns if the items of ``desc`` are found in the specified footstep ``fp``."""
diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 5b5758d..13b32c8 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -8,11 +8,11 @@ from weakref import WeakSet
 import collections
 import logging
 
-from bronx.fancies import dump, loggers
+from bronx.fancies import loggers
 from bronx.stdtypes.catalog import Catalog
 from bronx.patterns import observer, getbytag
 
-from . import config, priorities, reporting
+from . import config, priorities, reporting, util
 
 #: No automatic export
 __all__ = []
@@ -303,8 +303,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         if desc[self.tag] is not None:
             desc = desc[self.tag].footprint_cleanup(desc)
         elif emptywarning:
-            dumper = dump.get()
-            logger.warning("No %s found in description \n%s", self.tag, dumper.cleandump(desc))
+            logger.warning("No %s found in description \n%s", self.tag, util.nicedump(desc))
             if mkstdreport and self.report:
                 print("\n", self.report_log.info(), "\n")
                 if reportstyle == config.RAW_REPORTINGSTYLE:
@@ -394,8 +393,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             candidates.sort(key=lambda x: x[0].footprint_weight(len(x[2])), reverse=True)
             ambiguous = candidates[0][0].footprint_pl() == candidates[1][0].footprint_pl()
             loglevel = logging.WARNING if ambiguous else self.non_ambiguous_loglevel
-            dumper = dump.get()
-            logger.log(loglevel, "Multiple %s candidates \n%s", self.tag, dumper.cleandump(desc))
+            logger.log(loglevel, "Multiple %s candidates \n%s", self.tag, util.nicedump(desc))
             for i, c in enumerate(candidates):
                 thisclass, u_resolved, theinput = c  # @UnusedVariable
                 logger.log(loglevel, 'no.%d in.%d is %s', i + 1, len(theinput), str(thisclass))
@@ -514,7 +512,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
 
     def report_dumplast(self):
         """Print a nicely formatted dump report as a dict."""
-        print(dump.fulldump(self.report_last.as_dict()))
+        print(util.nicedump(self.report_last.as_dict()))
 
     def report_whynot(self, classname):
         """
diff --git a/src/footprints/doc.py b/src/footprints/doc.py
index 11aae26..823dc9f 100644
--- a/src/footprints/doc.py
+++ b/src/footprints/doc.py
@@ -45,7 +45,11 @@ def _formating_sphinx_v1(fp, abstractfpobj=False):
     fpdict = fp.as_dict()
 
     def _sphinx_secured_dump(todump):
-        d = dumper.dump(todump)
+        try:
+            d = dumper.dump(todump)
+        except TypeError:
+            # Some of the things to be dumped can not be sorted
+            d = repr(todump)
         # Escape trailing _ (it might be mistaken with an internal link)
         return re.sub(r'(?<=\w)(_)\b', r'\\_', d, count=0)
 
diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 93adfba..ae49ddc 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -11,6 +11,8 @@ import weakref
 from bronx.fancies import dump
 from bronx.patterns import getbytag
 
+from . import util
+
 #: No automatic export
 __all__ = []
 
@@ -341,7 +343,7 @@ class FootprintLog(getbytag.GetByTag):
 
     def fulldump(self, stamp=False):
         """Shortcut to :mod:``dump`` facilities."""
-        print(dump.fulldump(self.as_dict(force=True, stamp=stamp)))
+        print(util.nicedump(self.as_dict(force=True, stamp=stamp)))
 
 
 class StandardReport:
diff --git a/src/footprints/util.py b/src/footprints/util.py
index 6c947a1..e86843d 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -6,9 +6,10 @@ import re
 import copy
 import glob
 from collections import deque
+import pprint
 import string
 
-from bronx.fancies import loggers
+from bronx.fancies import dump, loggers
 from bronx.stdtypes.date import timeintrangex
 from bronx.syntax import dictmerge as _b_dictmerge
 from bronx.syntax import mktuple as _b_mktuple
@@ -26,6 +27,14 @@ mktuple = _b_mktuple
 rangex = timeintrangex
 
 
+def nicedump(obj):
+    """A nice dump of any object (including those that contain things that can not be sorted)."""
+    try:
+        return dump.fulldump(obj)
+    except TypeError:
+        return pprint.pformat(obj)
+
+
 def list2dict(a, klist):
     """
     Reshape any entry of *a* specified in *klist* as a dictionary of the
-- 
2.43.0


From d29948a0c0c31eed54339f118f7d79341df444fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:33 +0000
Subject: [PATCH 39/47] fix: expand chained dictionary matchings whatever the
 order of the keys

---
 src/footprints/util.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index e86843d..9133304 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -75,11 +75,15 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     return newd
 
 
-def _is_expandable_str(v):
-    """Tell if **v** is a string that will be expanded (range, comma separated or glob)."""
-    return (isinstance(v, str) and not v.__class__.__name__.startswith('FP') and
-            bool(re.match(r'range\(\d+(,\d+)?(,\d+)?\)$', v, re.IGNORECASE) or
-                 re.search(r',', v) or re.search(r'{glob:\w+:', v)))
+def _is_expandable(v, desc):
+    """Tell if the value **v** of **desc** will be expanded (a list, a range, a dictionary matching, ...)."""
+    if v.__class__.__name__.startswith('FP'):
+        # Compatibility: sequences are never compared to strings
+        return isinstance(v, (list, tuple, set))
+    if isinstance(v, str):
+        return bool(re.match(r'range\(\d+(,\d+)?(,\d+)?\)$', v, re.IGNORECASE) or
+                    re.search(r',', v) or re.search(r'{glob:\w+:', v))
+    return isinstance(v, (list, tuple, set)) or (isinstance(v, dict) and any(k in desc for k in v))
 
 
 def _parse_globs(todo):
@@ -301,8 +305,7 @@ def expand(desc):
                 if isinstance(v, dict):
                     for dk in [x for x in v.keys() if x in d]:
                         dv = d[dk]
-                        if not (isinstance(dv, list) or isinstance(dv, tuple) or isinstance(dv, set) or
-                                _is_expandable_str(dv)):
+                        if not _is_expandable(dv, d):
                             newld.append(inplace(d, k, v[dk][str(dv)], globalindex=globalindex))
                             globalindex += 1
                             somechanges = True
-- 
2.43.0


From 9f1c7e80fc7b4f49d0db6f0df2e16a2da7e59923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:34 +0000
Subject: [PATCH 40/47] fix: globs must not turn the FPStr strings into
 expandable ones

---
 src/footprints/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index 9133304..bb36f24 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -68,8 +68,11 @@ def inplace(desc, key, value, globs=None, globalindex=None):
     newd[key] = value
     if globs:
         for k in [x for x in newd.keys() if (x != key and isinstance(newd[x], str))]:
+            newv = newd[k]
             for g in globs.keys():
-                newd[k] = newd[k].replace('[glob:' + g + ']', globs[g])
+                newv = newv.replace('[glob:' + g + ']', globs[g])
+            # Strings that should not be expanded must remain so
+            newd[k] = type(newd[k])(newv) if type(newd[k]).__name__.startswith('FP') else newv
     if globalindex is not None:
         newd['index_expansion'] = globalindex + 1
     return newd
-- 
2.43.0


From f489a8ec8d821f8566f4cadfad827e59323bfd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 41/47] fix: list the values of an attribute even if the
 classes do not agree on its type

---
 src/footprints/collectors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index 13b32c8..f0a432d 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -489,7 +489,11 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
             if attrname in fp.attr:
                 for v in fp.get_values(attrname):
                     allvalues.add(v)
-        return sorted(allvalues)
+        try:
+            return sorted(allvalues)
+        except TypeError:
+            # The classes may not agree on the type of this attribute
+            return sorted(allvalues, key=lambda v: (type(v).__name__, str(v)))
 
     def report_dump(self, stamp=False):
         """Print a nicelly formatted dump report as a dict."""
-- 
2.43.0


From 403dea7a2726ccad1674bd9d9d2378a1ba037f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:44 +0000
Subject: [PATCH 42/47] fix: an attribute map restricted to one attribute must
 not include those whose name is a part of it

---
 src/footprints/collectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprints/collectors.py b/src/footprints/collectors.py
index f0a432d..d514508 100644
--- a/src/footprints/collectors.py
+++ b/src/footprints/collectors.py
@@ -441,7 +441,7 @@ class Collector(getbytag.GetByTag, Catalog, observer.Observer):
         """Build a reversed attr-class map."""
         if attrmap is None:
             attrmap = dict()
-        if only is not None and not hasattr(only, '__contains__'):
+        if only is not None and (isinstance(only, str) or not hasattr(only, '__contains__')):
             only = (only,)
         for c in self:
             fp = c.footprint_retrieve()
-- 
2.43.0


From 4d09f24ebd8566ec565a22e885a8f97d2c6e0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 43/47] fix: inherit the priority level and info of footprints
 without any attribute

Footprint objects (thus base classes) that declare neither attributes nor
only clauses were ignored, including what they state otherwise.
---
 src/footprints/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 00794fa..90498d6 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -184,9 +184,13 @@ class Footprint:
             if isinstance(a, dict) and bool(a):
                 logger.debug('Init Footprint updated with dict %s', a)
                 adict = util.list2dict(a, ('attr', 'only'))
-            if isinstance(a, Footprint) and (bool(a.attr) or bool(a._fp.get('only'))):
+            if isinstance(a, Footprint):
                 logger.debug('Init Footprint updated with object %s', a)
                 adict = a.as_dict()
+                if not (bool(a.attr) or bool(a._fp.get('only'))):
+                    # The default values must not hide what is already known
+                    blank = Footprint().as_dict()
+                    adict = {k: v for k, v in adict.items() if v != blank.get(k)}
             if adict is not None:
                 util.dictmerge(fp, adict)
                 if 'attr' in adict:
-- 
2.43.0


From 3a916f77404652e9358ec8696291116453a1dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 44/47] fix: what a glob has found is not expanded any further

File names (or parts of them) with commas, for instance, were split into
several values.
---
 src/footprints/util.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/footprints/util.py b/src/footprints/util.py
index bb36f24..65e71ee 100644
--- a/src/footprints/util.py
+++ b/src/footprints/util.py
@@ -177,6 +177,11 @@ def _parse_globs(todo):
     return glob_names, re.compile('^' + finalpattern + '$'), finalglob
 
 
+class FPGlobbedStr(str):
+    """What comes from a file name is not to be expanded any further (during the expansion only)."""
+    pass
+
+
 def expand(desc):
     r"""
     Expand the given description according to iterable or expandable arguments.
@@ -300,7 +305,11 @@ def expand(desc):
                             globmap = dict()
                             for g in g_names:
                                 globmap[g] = m.group(g)
-                            repld.append(inplace(d, k, filename, globmap, globalindex=globalindex))
+                            newd = inplace(d, k, FPGlobbedStr(filename), globmap, globalindex=globalindex)
+                            for x in [x for x in d if type(d[x]) is str and newd[x] != d[x] and
+                                      not _is_expandable(d[x], d)]:
+                                newd[x] = FPGlobbedStr(newd[x])
+                            repld.append(newd)
                             globalindex += 1
                     newld.extend(repld)
                     somechanges = True
@@ -323,6 +332,10 @@ def expand(desc):
                 globalindex += 1
         ld = newld
 
+    for d in ld:
+        for k in [x for x in d if isinstance(d[x], FPGlobbedStr)]:
+            d[k] = str(d[k])
+
     logger.debug('Expand in %d loops', nbpass)
     return list(ld)
 
-- 
2.43.0


From 1fc83bd8a534fa2cb707867bc483953a20d89e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:19 +0000
Subject: [PATCH 45/47] fix: a flat report does not lose any item, whatever its
 order

---
 src/footprints/reporting.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index ae49ddc..17bd273 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -445,11 +445,10 @@ class FlatReport:
                         break
             if done or skip:
                 focus = info.pop('focus')
-                if info:
-                    current[focus] = ' / '.join([str(x) + ': ' + str(info[x])
-                                                 for x in info.keys()])
-                else:
-                    current[focus] = None
+                text = ' / '.join([str(x) + ': ' + str(info[x])
+                                   for x in info.keys()])
+                # Several items of the same class may be found at the same place
+                current[focus] = ' // '.join([t for t in (current.get(focus), text) if t]) or None
 
     def fulldump(self):
         """Print out the internal tree."""
-- 
2.43.0


From 41e8532ec69baab80111661b7a3c424b5a01b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 46/47] fix: a value that is rejected by its type is not also
 reported as a forbidden None

---
 src/footprints/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/footprints/__init__.py b/src/footprints/__init__.py
index 90498d6..490e3af 100644
--- a/src/footprints/__init__.py
+++ b/src/footprints/__init__.py
@@ -631,12 +631,12 @@ class Footprint:
                                    args=(ktype.__name__, str(guess[k])))
                         diags[k] = True
                         guess[k] = None
-                if kdef['values'] and not self.in_values(guess[k], kdef['values']):
+                if guess[k] is not None and kdef['values'] and not self.in_values(guess[k], kdef['values']):
                     # logger.debug(' > Attr %s value not in range = %s %s', k, guess[k], kdef['values'])
                     report.add(attribute=k, why=reporting.REPORT_WHY_OUTSIDE, args=guess[k])
                     diags[k] = True
                     guess[k] = None
-                if kdef['outcast'] and self.in_values(guess[k], kdef['outcast']):
+                if guess[k] is not None and kdef['outcast'] and self.in_values(guess[k], kdef['outcast']):
                     # logger.debug(' > Attr %s value excluded from range = %s %s', k, guess[k], kdef['outcast'])
                     report.add(attribute=k, why=reporting.REPORT_WHY_OUTCAST, args=guess[k])
                     diags[k] = True
-- 
2.43.0


From 40d2e3b48e2712c9acac410bca3013033445fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:38 +0000
Subject: [PATCH 47/47] fix: each item given by iter_last is a dictionary of
 its own

---
 src/footprints/reporting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/footprints/reporting.py b/src/footprints/reporting.py
index 17bd273..b04b2e2 100644
--- a/src/footprints/reporting.py
+++ b/src/footprints/reporting.py
@@ -403,7 +403,8 @@ class StandardReport:
             for subkid in kid.childNodes:
                 dico['name'] = subkid.getAttribute('name')
                 dico['why'] = subkid.getAttribute('why')
-                yield dico
+                # (each of the reasons has got its own dictionary)
+                yield dict(dico)
 
 
 class FlatReport:
-- 
2.43.0

