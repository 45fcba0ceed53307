From 7c124727bc29375d02981ce03aec9d195305ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:47 +0000
Subject: [PATCH 01/95] fix: ImmutableList.clear() emptied the immutable list

---
 verktyg/datastructures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4c55381..3ce54c1 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -80,6 +80,9 @@ class ImmutableListMixin(object):
         is_immutable(self)
     remove = append
 
+    def clear(self):
+        is_immutable(self)
+
     def extend(self, iterable):
         is_immutable(self)
 
-- 
2.43.0


From fb04b1a8a1e55f8aa574d75f8c38f13b1ce09097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 02/95] fix: the |= operator modified immutable dicts in place

---
 verktyg/datastructures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 3ce54c1..a8f2396 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -155,6 +155,9 @@ class ImmutableDictMixin(object):
     def __delitem__(self, key):
         is_immutable(self)
 
+    def __ior__(self, other):
+        is_immutable(self)
+
     def clear(self):
         is_immutable(self)
 
-- 
2.43.0


From face65579d02fec3394b0353ee6e49531d26ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:52 +0000
Subject: [PATCH 03/95] fix: the |= operator changed a CallbackDict without
 calling on_update

---
 verktyg/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index a8f2396..4d77e53 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -229,6 +229,7 @@ class UpdateDictMixin(object):
     clear = calls_update('clear')
     popitem = calls_update('popitem')
     update = calls_update('update')
+    __ior__ = calls_update('__ior__')
     del calls_update
 
 
-- 
2.43.0


From 96aa7428b10a42c81e496456ed83fb5e150caf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 04/95] fix: the |= operator corrupted the value lists of a
 MultiDict

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4d77e53..2d2b9ed 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -550,6 +550,10 @@ class MultiDict(TypeConversionDict):
         for key, value in iter_multi_items(other_dict):
             MultiDict.add(self, key, value)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def pop(self, key, default=_missing):
         """Pop the first item for a list on the dict.  Afterwards the
         key is removed from the dict, so additional values are discarded:
-- 
2.43.0


From ae1e732e312bc6fe009c97ba10d8c43c3e66537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 05/95] fix: OrderedMultiDict.clear() left the items in
 iteration order behind

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 2d2b9ed..0e6f4c9 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -816,6 +816,10 @@ class OrderedMultiDict(MultiDict):
             bucket.unlink(self)
         return key, [x.value for x in buckets]
 
+    def clear(self):
+        dict.clear(self)
+        self._first_bucket = self._last_bucket = None
+
 
 class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
     """A read only :class:`MultiDict` that you can pass multiple
-- 
2.43.0


From 79a7ec96f81885f610503b4ad5d08d457f8c7baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:00 +0000
Subject: [PATCH 06/95] fix: deep copying an OrderedMultiDict lost the order of
 interleaved keys

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 0e6f4c9..37bb025 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -772,6 +772,10 @@ class OrderedMultiDict(MultiDict):
         for value in new_list:
             self.add(key, value)
 
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(deepcopy(list(self.items(multi=True)), memo))
+
     def setlistdefault(self, key, default_list=None):
         raise TypeError(
             'setlistdefault is unsupported for ordered multi dicts'
-- 
2.43.0


From 183a683940b084d19dd7c0232effba17787fc77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:03 +0000
Subject: [PATCH 07/95] fix: CombinedMultiDict.to_dict(flat=False) dropped
 values of all but the first dict

---
 verktyg/datastructures.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 37bb025..56295ee 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -940,10 +940,9 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         :return:
             A :class:`dict`
         """
-        rv = {}
-        for d in reversed(self.dicts):
-            rv.update(d.to_dict(flat))
-        return rv
+        if flat:
+            return dict(self.items())
+        return dict(self.lists())
 
     def __len__(self):
         return len(self._keys_impl())
-- 
2.43.0


From 2c2e56903f9f923faf882f32ab92b307c2f1b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:06 +0000
Subject: [PATCH 08/95] fix: deep copying a CombinedMultiDict returned an
 unusable object

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 56295ee..095e48d 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -928,6 +928,10 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         """Return a shallow copy of this object."""
         return self.__class__(self.dicts[:])
 
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(deepcopy(self.dicts, memo))
+
     def to_dict(self, flat=True):
         """Return the contents as regular dict.  If `flat` is `True` the
         returned dict will only have the first item present, if `flat` is
-- 
2.43.0


From 06d3c1c506d4ec4c54fad6cee33ea158c9baf18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 09/95] fix: HeaderSet.remove() with a name that is not lower
 case left the name in the header

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c83f722..f7ca16c 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -990,7 +990,7 @@ class HeaderSet(object):
             raise KeyError(header)
         self._set.remove(key)
         for idx, key in enumerate(self._headers):
-            if key.lower() == header:
+            if key.lower() == header.lower():
                 del self._headers[idx]
                 break
         if self.on_update is not None:
-- 
2.43.0


From 59b54c562599303d04f85fb0cc46dc20131f14be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 10/95] fix: list and dict header parsing unquoted values
 twice, so quotes that belong to a value were lost

---
 verktyg/http/basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index f7ca16c..0549644 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -612,7 +612,8 @@ def parse_list_header(value):
     result = []
     for item in _parse_list_header(value):
         if item[:1] == item[-1:] == '"':
-            item = unquote_header_value(item[1:-1])
+            # escapes have already been removed by the splitter
+            item = item[1:-1]
         result.append(item)
     return result
 
@@ -653,7 +654,8 @@ def parse_dict_header(value, cls=dict):
             continue
         name, value = item.split('=', 1)
         if value[:1] == value[-1:] == '"':
-            value = unquote_header_value(value[1:-1])
+            # escapes have already been removed by the splitter
+            value = value[1:-1]
         result[name] = value
     return result
 
-- 
2.43.0


From 67c548578b29f4d7976801c0e999a6904987d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 11/95] fix: an empty header value was written as an empty
 token, which does not parse back

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 0549644..628a650 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -78,7 +78,7 @@ def quote_header_value(value, extra_chars='', allow_token=True):
     value = str(value)
     if allow_token:
         token_chars = _token_chars | set(extra_chars)
-        if set(value).issubset(token_chars):
+        if value and set(value).issubset(token_chars):
             return value
     return '"%s"' % value.replace('\\', '\\\\').replace('"', '\\"')
 
-- 
2.43.0


From b9ad462d6a26f701f83be5cb4d170ebc781e50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:18 +0000
Subject: [PATCH 12/95] fix: parse_options_header() raised StopIteration for a
 header with nothing but separators

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 628a650..3cac819 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -688,7 +688,7 @@ def parse_options_header(value):
         return '', {}
 
     parts = _tokenize(';' + value)
-    name = next(parts)[0]
+    name = next(parts, ('', None))[0]
     extra = dict(parts)
     return name, extra
 
-- 
2.43.0


From 111f6d26b223a8c1962b51796f6b8b2ca31f16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 13/95] fix: Headers built from a list accepted values with
 newlines (header injection)

---
 verktyg/http/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 3cac819..6a86a49 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -152,6 +152,8 @@ class Headers(object):
         self._list = []
         if defaults is not None:
             if isinstance(defaults, (list, Headers)):
+                for _, value in defaults:
+                    self._validate_value(unicodify_header_value(value))
                 self._list.extend(defaults)
             else:
                 self.extend(defaults)
-- 
2.43.0


From 4c375debae1884a38417ccc96a54ef01c26b1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 14/95] fix: iterating over a FileStorage with a binary stream
 never ended

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 6a86a49..708f1f0 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -950,7 +950,7 @@ class FileStorage(object):
         return getattr(self.stream, name)
 
     def __iter__(self):
-        return iter(self.readline, '')
+        return iter(self.stream)
 
     def __repr__(self):
         return '<%s: %r (%r)>' % (
-- 
2.43.0


From c54922aa20c4fe24655a708dcae750f4e9acb4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 15/95] fix: parse_range_header() raised ValueError or
 TypeError for malformed ranges instead of returning None

---
 verktyg/http/cache_control.py | 44 +++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index b94f52c..97e22b7 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -127,29 +127,33 @@ def parse_range_header(value, make_inclusive=True):
     units, rng = value.split('=', 1)
     units = units.strip().lower()
 
-    for item in rng.split(','):
-        item = item.strip()
-        if '-' not in item:
-            return None
-        if item.startswith('-'):
-            if last_end < 0:
+    try:
+        for item in rng.split(','):
+            item = item.strip()
+            if '-' not in item:
                 return None
-            begin = int(item)
-            end = None
-            last_end = -1
-        elif '-' in item:
-            begin, end = item.split('-', 1)
-            begin = int(begin)
-            if begin < last_end or last_end < 0:
+            if last_end is None or last_end < 0:
+                # nothing can follow an open ended or a suffix range
                 return None
-            if end:
-                end = int(end) + 1
-                if begin >= end:
-                    return None
-            else:
+            if item.startswith('-'):
+                begin = int(item)
                 end = None
-            last_end = end
-        ranges.append((begin, end))
+                last_end = -1
+            else:
+                begin, end = item.split('-', 1)
+                begin = int(begin)
+                if begin < last_end:
+                    return None
+                if end:
+                    end = int(end) + 1
+                    if begin >= end:
+                        return None
+                else:
+                    end = None
+                last_end = end
+            ranges.append((begin, end))
+    except ValueError:
+        return None
 
     return Range(units, ranges)
 
-- 
2.43.0


From e16af1b935b184d1496bbe6e30bae91b0de5a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:03 +0000
Subject: [PATCH 16/95] fix: the empty suffix range bytes=-0 was taken for the
 whole content

---
 verktyg/http/cache_control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 97e22b7..bb92d82 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -137,6 +137,8 @@ def parse_range_header(value, make_inclusive=True):
                 return None
             if item.startswith('-'):
                 begin = int(item)
+                if begin >= 0:
+                    return None
                 end = None
                 last_end = -1
             else:
-- 
2.43.0


From 55fd3a2716fe0cb7ee325d4f96c51d4c063c254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:05 +0000
Subject: [PATCH 17/95] fix: a suffix range longer than the content was treated
 as unsatisfiable

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index bb92d82..2885d26 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -84,7 +84,7 @@ class Range(object):
         if end is None:
             end = length
             if start < 0:
-                start += length
+                start = max(0, start + length)
         if is_byte_range_valid(start, end, length):
             return start, min(end, length)
 
-- 
2.43.0


From 9af845c317d58eba57d9dd3fb9641d19e41fe648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:08 +0000
Subject: [PATCH 18/95] fix: parse_content_range_header() raised ValueError for
 digits that are not decimal

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 2885d26..68e0b96 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -258,7 +258,7 @@ def parse_content_range_header(value, on_update=None):
     rng, length = rangedef.split('/', 1)
     if length == '*':
         length = None
-    elif length.isdigit():
+    elif length.isdecimal():
         length = int(length)
     else:
         return None
-- 
2.43.0


From 3413adb71b30e83ed9c90371e34e8d0ef3a9b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:10 +0000
Subject: [PATCH 19/95] fix: setting an absent cache control directive to None
 raised KeyError

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 68e0b96..b37544a 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -338,7 +338,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
                 self.pop(key, None)
         else:
             if value is None:
-                self.pop(key)
+                self.pop(key, None)
             elif value is True:
                 self[key] = None
             else:
-- 
2.43.0


From bdaa956b53bec049e9af1353db09c685e7abe1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:13 +0000
Subject: [PATCH 20/95] fix: parse_etags() turned an empty etag into None

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index b37544a..cc08a0f 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -571,7 +571,7 @@ def parse_etags(value):
         is_weak, quoted, raw = match.groups()
         if raw == '*':
             return ETags(star_tag=True)
-        elif quoted:
+        elif quoted is not None:
             raw = quoted
         if is_weak:
             weak.append(raw)
-- 
2.43.0


From bbcfd5000d5d0cdadc312c57ac89b417f8b0d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 21/95] fix: parse_etags() never returned for a value that ends
 in a newline

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index cc08a0f..ad6101c 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -16,7 +16,7 @@ from verktyg.http.basic import (
 )
 
 
-_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|$)')
+_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|\Z)')
 
 
 class IfRange(object):
-- 
2.43.0


From c7b0297e4536a564d7cc4cc7b36c80ae559f7eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 22/95] fix: parse_cookie() ignored errors and raised
 UnicodeDecodeError for undecodable cookies

---
 verktyg/http/cookies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index 95bab83..be3dde9 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -188,8 +188,8 @@ def parse_cookie(header, charset='utf-8', errors='replace', cls=None):
 
     def _parse_pairs():
         for key, val in _cookie_parse_impl(header):
-            key = key.decode(charset)
-            val = val.decode(charset)
+            key = key.decode(charset, errors)
+            val = val.decode(charset, errors)
             yield key, val
 
     return cls(_parse_pairs())
-- 
2.43.0


From 86b5434fad9b38b38b04aa27c6e82e87e98265c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 23/95] fix: copying or pickling an Authorization object lost
 its data

---
 verktyg/http/auth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/http/auth.py b/verktyg/http/auth.py
index 8e32395..8a280f2 100644
--- a/verktyg/http/auth.py
+++ b/verktyg/http/auth.py
@@ -30,6 +30,9 @@ class Authorization(datastructures.ImmutableDictMixin, dict):
         dict.__init__(self, data or {})
         self.type = auth_type
 
+    def __reduce_ex__(self, protocol):
+        return type(self), (self.type, dict(self))
+
     username = property(lambda x: x.get('username'), doc='''
         The username transmitted.  This is set for both basic and digest
         auth all the time.''')
-- 
2.43.0


From 2bcfd92d50cfea4732eeccc9701b28f661fc2a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:58 +0000
Subject: [PATCH 24/95] fix: checking a host against a trusted suffix such as
 .example.org raised TypeError

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4b15444..a818669 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -134,7 +134,7 @@ def host_is_trusted(hostname, trusted_list):
         ref = _normalize(ref)
         if ref == hostname:
             return True
-        if suffix_match and hostname.endswith('.' + ref):
+        if suffix_match and hostname.endswith(b'.' + ref):
             return True
     return False
 
-- 
2.43.0


From dd7d525f18c659a990ec57c9bc1c711e204aa005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 25/95] fix: trusting one IPv6 literal also trusted others that
 differ in the last group

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index a818669..f39c5a3 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -120,7 +120,7 @@ def host_is_trusted(hostname, trusted_list):
         trusted_list = [trusted_list]
 
     def _normalize(hostname):
-        if ':' in hostname:
+        if ':' in hostname and not hostname.endswith(']'):
             hostname = hostname.rsplit(':', 1)[0]
         return encode_idna(hostname)
 
-- 
2.43.0


From 177f0d3698c267d717fe249335757c89350e9346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 26/95] fix: SharedDataMiddleware raised TypeError for the
 documented list of disallow rules

---
 verktyg/wsgi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index f39c5a3..a25039d 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -399,7 +399,11 @@ class SharedDataMiddleware(object):
             self.exports[key] = loader
         if disallow is not None:
             from fnmatch import fnmatch
-            self.is_allowed = lambda x: not fnmatch(x, disallow)
+            if isinstance(disallow, str):
+                disallow = [disallow]
+            self.is_allowed = lambda x: not any(
+                fnmatch(x, rule) for rule in disallow
+            )
         self.fallback_mimetype = fallback_mimetype
 
     def is_allowed(self, filename):
-- 
2.43.0


From 184337606b9f17b8fbf92221c87fd32c036f60b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:05 +0000
Subject: [PATCH 27/95] fix: ClosingIterator did not close an iterable whose
 iterator is a separate object

---
 verktyg/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index a25039d..e04c585 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -587,7 +587,7 @@ class ClosingIterator(object):
             callbacks = [callbacks]
         else:
             callbacks = list(callbacks)
-        iterable_close = getattr(iterator, 'close', None)
+        iterable_close = getattr(iterable, 'close', None)
         if iterable_close:
             callbacks.insert(0, iterable_close)
         self._callbacks = callbacks
-- 
2.43.0


From a6bf34e8bc685af1b4e4f153a262e2a0c0c8ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 28/95] fix: LimitedStream.read() and readline() with a
 negative size read past the limit

---
 verktyg/wsgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index e04c585..4536690 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -873,7 +873,7 @@ class LimitedStream(object):
         """
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None or size == -1:  # -1 is for consistence with file
+        if size is None or size < 0:  # -1 is for consistence with file
             size = self.limit
         to_read = min(self.limit - self._pos, size)
         try:
@@ -889,7 +889,7 @@ class LimitedStream(object):
         """Reads one line from the stream."""
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None:
+        if size is None or size < 0:
             size = self.limit - self._pos
         else:
             size = min(size, self.limit - self._pos)
-- 
2.43.0


From fddaf06891ba6295181948996eefbfa23249721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 29/95] fix: make_line_iter() raised TypeError for every byte
 stream

---
 verktyg/wsgi.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4536690..ad1e1e0 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -704,29 +704,39 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
     """
     _iter = _make_chunk_iter(stream, limit, buffer_size)
 
+    first_item = next(_iter, '')
+    if not first_item:
+        return
+
+    _iter = chain((first_item,), _iter)
+    if isinstance(first_item, str):
+        empty, cr, lf = '', '\r', '\n'
+    else:
+        empty, cr, lf = b'', b'\r', b'\n'
+
     def _iter_basic_lines():
         buffer = []
         while 1:
-            new_data = next(_iter, '')
+            new_data = next(_iter, empty)
             if not new_data:
                 break
             new_buf = []
             for item in chain(buffer, new_data.splitlines(True)):
                 new_buf.append(item)
-                if item and item[-1:] in '\r\n':
-                    yield ''.join(new_buf)
+                if item and item[-1:] in (cr, lf):
+                    yield empty.join(new_buf)
                     new_buf = []
             buffer = new_buf
         if buffer:
-            yield ''.join(buffer)
+            yield empty.join(buffer)
 
     # This hackery is necessary to merge 'foo\r' and '\n' into one item
     # of 'foo\r\n' if we were unlucky and we hit a chunk boundary.
-    previous = ''
+    previous = empty
     for item in _iter_basic_lines():
-        if item == '\n' and previous[-1:] == '\r':
+        if item == lf and previous[-1:] == cr:
             previous += item
-            item = ''
+            item = empty
         if previous:
             yield previous
         previous = item
-- 
2.43.0


From 608a70275906b4ff59eb1aeee07bdef665c1cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:13 +0000
Subject: [PATCH 30/95] fix: make_chunk_iter() missed separators that span two
 reads

---
 verktyg/wsgi.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index ad1e1e0..865d542 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -9,7 +9,6 @@
     :license:
         BSD, see LICENSE for more details.
 """
-import re
 import os
 from io import BytesIO
 import sys
@@ -767,29 +766,27 @@ def make_chunk_iter(stream, separator, limit=None, buffer_size=10 * 1024):
         return
 
     _iter = chain((first_item,), _iter)
-    if isinstance(first_item, str):
-        _split = re.compile(r'(%s)' % re.escape(separator)).split
-        _join = ''.join
-    else:
-        _split = re.compile(b'(' + re.escape(separator) + b')').split
-        _join = b''.join
+    _join = first_item[:0].join
+    # the end of a block is held back if it could be the start of a separator
+    # that continues in the next block
+    hold = len(separator) - 1
+    held = first_item[:0]
 
     buffer = []
     while 1:
         new_data = next(_iter, '')
         if not new_data:
             break
-        chunks = _split(new_data)
-        new_buf = []
-        for item in chain(buffer, chunks):
-            if item == separator:
-                yield _join(new_buf)
-                new_buf = []
-            else:
-                new_buf.append(item)
-        buffer = new_buf
-    if buffer:
-        yield _join(buffer)
+        chunks = (held + new_data).split(separator)
+        for item in chunks[:-1]:
+            buffer.append(item)
+            yield _join(buffer)
+            buffer = []
+        cut = max(0, len(chunks[-1]) - hold)
+        buffer.append(chunks[-1][:cut])
+        held = chunks[-1][cut:]
+    buffer.append(held)
+    yield _join(buffer)
 
 
 class LimitedStream(object):
-- 
2.43.0


From 0d7aba2a9959742ace0acdae6b27490ca86c4fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:51 +0000
Subject: [PATCH 31/95] fix: append_slash_redirect() did not quote the path, so
 /http://host/x redirected to another site

---
 verktyg/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index ad20122..7d48aeb 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -15,6 +15,7 @@ import re
 import os
 
 from html import escape
+from urllib.parse import quote
 
 
 _filename_ascii_strip_re = re.compile(r'[^A-Za-z0-9_.-]')
@@ -228,8 +229,12 @@ def append_slash_redirect(environ, code=301):
     :param code:
         The status code for the redirect.
     """
-    new_path = environ['PATH_INFO'].strip('/') + '/'
-    query_string = environ.get('QUERY_STRING')
+    from verktyg.wsgi import get_path_info, get_query_string
+
+    # the path has been unquoted by the server.  It has to be quoted again or
+    # it could be mistaken for another url.
+    new_path = quote(get_path_info(environ, charset=None).strip(b'/')) + '/'
+    query_string = get_query_string(environ)
     if query_string:
         new_path += '?' + query_string
     return redirect(new_path, code)
-- 
2.43.0


From 352ab31cbab1f242c54b947b7df26c934f24f945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 32/95] fix: a host name that can not be encoded made the
 trusted host check raise UnicodeError

---
 verktyg/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 865d542..bee2fae 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -123,7 +123,10 @@ def host_is_trusted(hostname, trusted_list):
             hostname = hostname.rsplit(':', 1)[0]
         return encode_idna(hostname)
 
-    hostname = _normalize(hostname)
+    try:
+        hostname = _normalize(hostname)
+    except UnicodeError:
+        return False
     for ref in trusted_list:
         if ref.startswith('.'):
             ref = ref[1:]
-- 
2.43.0


From f1a6ae8877b45ef264b1eab386dc4f9093c18b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:42 +0000
Subject: [PATCH 33/95] fix: Content-Length counted the characters of text
 chunks instead of the bytes sent

---
 verktyg/responses.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index e6e434b..a144236 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -344,7 +344,7 @@ class BaseResponse(object):
             self._ensure_sequence()
         except RuntimeError:
             return None
-        return sum(len(x) for x in self.response)
+        return sum(len(x) for x in self.iter_encoded())
 
     def _ensure_sequence(self, mutable=False):
         """This method can be called by methods that need a sequence.  If
@@ -560,14 +560,13 @@ class BaseResponse(object):
 
         # if we can determine the content length automatically, we
         # should try to do that.  But only if this does not involve
-        # flattening the iterator or encoding of unicode strings in
-        # the response.  We however should not do that if we have a 304
-        # response.
+        # flattening the iterator.  We however should not do that if we
+        # have a 304 response.
         if (
             self.automatically_set_content_length and
             self.is_sequence and content_length is None and status != 304
         ):
-            content_length = sum(len(x) for x in self.response)
+            content_length = sum(len(x) for x in self.iter_encoded())
             headers['Content-Length'] = str(content_length)
 
         return headers
-- 
2.43.0


From 8ddacae7ee5d439ff6204f856082f913c3c43dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:44 +0000
Subject: [PATCH 34/95] fix: freezing a streamed response dropped the close
 method of its iterable

---
 verktyg/responses.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index a144236..740f2be 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -490,6 +490,7 @@ class BaseResponse(object):
         """
         # we explicitly set the length to a list of the *encoded* response
         # iterator.  Even if the implicit sequence conversion is disabled.
+        self.make_sequence()
         self.response = list(self.iter_encoded())
         self.headers['Content-Length'] = str(sum(map(len, self.response)))
 
-- 
2.43.0


From 04823691ecf8e7cffd3efcf85823436d815372d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 35/95] fix: reading the content_range of a response deleted a
 header that could not be parsed

---
 verktyg/http/cache_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index ad6101c..3adc56e 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -167,8 +167,9 @@ class ContentRange(object):
     def __init__(self, units, start, stop, length=None, on_update=None):
         if not is_byte_range_valid(start, stop, length):
             raise ValueError('Bad range provided')
-        self.on_update = on_update
+        self.on_update = None
         self.set(start, stop, length, units)
+        self.on_update = on_update
 
     def _callback_property(name):
         def fget(self):
-- 
2.43.0


From 06d09a2258874a5795850f1dffa13aeb9c927057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:26 +0000
Subject: [PATCH 36/95] fix: a response was closed twice if the client went
 away before the end of the body

---
 verktyg/application.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/application.py b/verktyg/application.py
index 385ff31..5c15cd4 100644
--- a/verktyg/application.py
+++ b/verktyg/application.py
@@ -89,7 +89,10 @@ class BaseApplication(object):
     def _wsgi_inner(self, wsgi_env, start_response):
         with self.request_class(wsgi_env) as request:
             with self._get_response(request) as response:
-                yield from response(wsgi_env, start_response)
+                # `yield from` would forward an early close to the response,
+                # which is going to be closed by the with statement anyway.
+                for chunk in response(wsgi_env, start_response):
+                    yield chunk
 
     def __call__(self, wsgi_env, start_response):
         wsgi_env['verktyg.application'] = self
-- 
2.43.0


From 3836130a262a42bae612492a953dc106856c3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 37/95] fix: JSON views raised AttributeError in every
 application because there was no debug flag

---
 verktyg/application.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/application.py b/verktyg/application.py
index 5c15cd4..8d0743b 100644
--- a/verktyg/application.py
+++ b/verktyg/application.py
@@ -26,6 +26,9 @@ def _default_redirect_handler(app, req, exc_type, exc_value, exc_traceback):
 
 
 class BaseApplication(object):
+    #: Views may produce more verbose output if this is set.
+    debug = False
+
     def __init__(
         self, app_root, config, *,
         routes, converters, bindings, handlers,
-- 
2.43.0


From b39ec46b52d97e71317483f2aa54b763a85a95ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 38/95] fix: a nested ExceptionDispatcher raised AttributeError

---
 verktyg/exception_dispatch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/exception_dispatch.py b/verktyg/exception_dispatch.py
index 6634a21..a8756be 100644
--- a/verktyg/exception_dispatch.py
+++ b/verktyg/exception_dispatch.py
@@ -77,7 +77,9 @@ class ExceptionDispatcher(ExceptionHandlerFactory):
                 self._handlers[handler.exception_class].append(handler)
 
     def get_exception_handlers(self):
-        return iter(self._handlers)
+        for handlers in self._handlers.values():
+            for handler in handlers:
+                yield handler
 
     def lookup(
         self, exception_class,
-- 
2.43.0


From 03dc3351e79fa2e51a7b29599e3d20707ae77ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 39/95] fix: max_forwards raised TypeError for requests without
 that header

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 6965d3b..d22fa8a 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -616,7 +616,7 @@ class CommonRequestDescriptorsMixin(object):
         """
         try:
             return int(self.environ.get('HTTP_MAX_FORWARDS'))
-        except ValueError:
+        except (TypeError, ValueError):
             return None
 
     def _parse_content_type(self):
-- 
2.43.0


From 32ddeac428eeec9d03e38fbcf1ce6159510dac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:37 +0000
Subject: [PATCH 40/95] fix: request.is_secure was None for every request

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index d22fa8a..3b2a841 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -435,7 +435,7 @@ class BaseRequest(object):
     def is_secure(self):
         """`True` if the request is made over an encrypted connection
         """
-        self.environ['wsgi.url_scheme'] == 'https',
+        return self.environ['wsgi.url_scheme'] == 'https'
 
     @property
     def is_multithread(self):
-- 
2.43.0


From b85cae12680ad2558c3117739350853dae2cb591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 41/95] fix: query parameters with an empty value were missing
 from request.args

---
 verktyg/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 3b2a841..c8350c3 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -267,7 +267,7 @@ class BaseRequest(object):
             errors=self.encoding_errors,
         )
         return self.parameter_storage_class(parse_qsl(
-            qs, errors=self.encoding_errors,
+            qs, keep_blank_values=True, errors=self.encoding_errors,
         ))
 
     def get_data(self, cache=True, as_text=False):
-- 
2.43.0


From 02f9dfb0b584a44f14ed71f398fa2cfe23178d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:48 +0000
Subject: [PATCH 42/95] fix: the language and charset of a representation were
 not compared with the accept headers

---
 verktyg/accept/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 2d93257..e575b5f 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -172,13 +172,13 @@ class Representation(object):
         )
 
         language_acceptability = (
-            self._content_type.acceptability(accept)
+            self._language.acceptability(accept_language)
             if self._language is not None else
             None
         )
 
         charset_acceptability = (
-            self._charset.acceptability
+            self._charset.acceptability(accept_charset)
             if self._charset is not None else
             None
         )
-- 
2.43.0


From 952901d17fd4045db06d4c0b656b06d92458ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 43/95] fix: the representation chosen for a request depended
 on the order of ranges and bindings because acceptabilities had no consistent
 order; ranges with q=0 were accepted

---
 verktyg/accept/__init__.py | 35 ++++++++++++++++-------------------
 verktyg/accept/_base.py    | 17 +++++++++--------
 2 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index e575b5f..65cf298 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -53,29 +53,26 @@ class Acceptability(object):
         return True
 
     def __gt__(self, other):
-        def _gt(self, other):
-            if (self is None) and (other is None):
-                return False
-            if self <= other:
-                return False
-            return True
-
-        if _gt(
+        for ours, theirs in (
+            (
                 self._content_type_acceptability,
-                other._content_type_acceptability):
-            return True
-        if _gt(
+                other._content_type_acceptability,
+            ), (
                 self._language_acceptability,
-                other._language_acceptability):
-            return True
-        if _gt(
+                other._language_acceptability,
+            ), (
                 self._charset_acceptability,
-                other._charset_acceptability):
-            return True
-        if _gt(
+                other._charset_acceptability,
+            ), (
                 self._qs,
-                other._qs):
-            return True
+                other._qs,
+            ),
+        ):
+            if ours != theirs:
+                # something unspecified is less acceptable than a match
+                if ours is None:
+                    return False
+                return theirs is None or ours > theirs
         return False
 
 
diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index eaca9ff..9f27534 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -167,13 +167,10 @@ class Acceptability(object):
         if other is None:
             return True
 
-        if self._match_quality > other._match_quality:
-            return True
-
-        if self.quality > other.quality:
-            return True
+        if self.quality != other.quality:
+            return self.quality > other.quality
 
-        return False
+        return self._match_quality > other._match_quality
 
 
 # TODO better name
@@ -209,10 +206,14 @@ class Value(object):
             except NotAcceptable:
                 pass
             else:
-                if best_match is None or match > best_match:
+                # the most specific range decides, whatever its quality
+                if best_match is None or (
+                    (match._match_quality, match._q) >
+                    (best_match._match_quality, best_match._q)
+                ):
                     best_match = match
 
-        if best_match is None:
+        if best_match is None or not best_match._q:
             raise NotAcceptable()
 
         return best_match
-- 
2.43.0


From 88c46c14b9dc1ae5e88af8d8404a6aec3edc01be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:52 +0000
Subject: [PATCH 44/95] fix: the source quality of a representation was not
 multiplied with the quality the client gave its content type

---
 verktyg/accept/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 65cf298..47bac14 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -124,8 +124,13 @@ class Representation(object):
         self, *, content_type=None, language=None,
         charset=None, qs=None
     ):
+        if qs is None:
+            qs = 1.0
+        qs = max(min(float(qs), 1.0), 0.0)
+        self._qs = qs
+
         if isinstance(content_type, str):
-            content_type = parse_content_type_header(content_type)
+            content_type = parse_content_type_header(content_type, qs=qs)
         self._content_type = content_type
 
         if isinstance(language, str):
@@ -136,10 +141,6 @@ class Representation(object):
             charset = parse_charset_header(charset)
         self._charset = charset
 
-        if qs is None:
-            qs = 1.0
-        self._qs = max(min(float(qs), 1.0), 0.0)
-
     def acceptability(
         self, *,
         accept=None,
-- 
2.43.0


From d422a45af706a72f2685ddf122ae61c13434f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 45/95] fix: malformed Accept headers no longer escape as
 ValueError

---
 verktyg/accept/__init__.py     | 35 ++++++++++++++++++++--------------
 verktyg/accept/_base.py        |  7 ++++++-
 verktyg/accept/content_type.py |  4 ++--
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 47bac14..21e1e48 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -76,6 +76,20 @@ class Acceptability(object):
         return False
 
 
+def _parse_header(parse, header, default):
+    """Clients can send anything.  A header that does not make sense is treated
+    in the same way as one that is missing.
+    """
+    if header is None:
+        return parse(default)
+    if isinstance(header, str):
+        try:
+            return parse(header)
+        except ValueError:
+            return parse(default)
+    return header
+
+
 def select_representation(
     representations,
     accept='*/*', accept_language='*', accept_charset='*'
@@ -83,20 +97,13 @@ def select_representation(
     highest_acceptability = None
     best_representation = None
 
-    if accept is None:
-        accept = '*/*'
-    if isinstance(accept, str):
-        accept = parse_accept_header(accept)
-
-    if accept_language is None:
-        accept_language = '*'
-    if isinstance(accept_language, str):
-        accept_language = parse_accept_language_header(accept_language)
-
-    if accept_charset is None:
-        accept_charset = '*'
-    if isinstance(accept_charset, str):
-        accept_charset = parse_accept_charset_header(accept_charset)
+    accept = _parse_header(parse_accept_header, accept, '*/*')
+    accept_language = _parse_header(
+        parse_accept_language_header, accept_language, '*'
+    )
+    accept_charset = _parse_header(
+        parse_accept_charset_header, accept_charset, '*'
+    )
 
     for representation in representations:
         try:
diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index 9f27534..69eeccc 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -228,7 +228,12 @@ class Value(object):
 
 
 def split_accept_string(string):
-    for accept_range in string.split(','):
+    # empty list elements are legal and carry no information
+    accept_ranges = [r for r in string.split(',') if r.strip()]
+    if not accept_ranges:
+        raise ValueError("no ranges: %r" % string)
+
+    for accept_range in accept_ranges:
         accept, *str_params = accept_range.split(';')
 
         params = {}
diff --git a/verktyg/accept/content_type.py b/verktyg/accept/content_type.py
index a4837ac..726d5ca 100644
--- a/verktyg/accept/content_type.py
+++ b/verktyg/accept/content_type.py
@@ -55,12 +55,12 @@ class _ContentTypeRange(_base.Range):
 
     @property
     def type(self):
-        type, _ = self.value.split('/')
+        type, _ = self.value.split('/', 1)
         return type
 
     @property
     def subtype(self):
-        _, subtype = self.value.split('/')
+        _, subtype = self.value.split('/', 1)
         return subtype
 
 
-- 
2.43.0


From 3927e1a4e30e55afbddcf538b327af805908d21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:54 +0000
Subject: [PATCH 46/95] fix: routes no longer match paths with a trailing
 newline

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 2fe0b86..daf3775 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -627,7 +627,7 @@ class Route(RouteFactory):
 
         if self.build_only:
             return
-        regex = r'^%s%s$' % (
+        regex = r'^%s%s\Z' % (
             u''.join(regex_parts),
             '(?<!/)(?P<__suffix__>/?)'
             if (not self.is_leaf or not self.strict_slashes)
-- 
2.43.0


From 2725ebe8afdc4d0a29688f90735b16ffa0681232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:56 +0000
Subject: [PATCH 47/95] fix: built urls keep dot segments and empty segments of
 values

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index daf3775..841b37f 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1557,7 +1557,7 @@ class MapAdapter(object):
                 (host_matching and host == self.server_name) or
                 (not host_matching and domain_part == self.subdomain)
             ):
-                return str(urljoin(self.script_name, './' + path.lstrip('/')))
+                return posixpath.join(self.script_name, path.lstrip('/'))
 
         return urlunparse(ParseResult(
             scheme=self.url_scheme or '',
-- 
2.43.0


From aac8f96a4def3856d54b6d8daa2f0dd05de506b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 48/95] fix: building from a MultiDict no longer raises
 AttributeError

---
 verktyg/routing.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 841b37f..547ce85 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1530,11 +1530,7 @@ class MapAdapter(object):
         """
         self.router.update()
         if values:
-            if isinstance(values, MultiDict):
-                valueiter = values.iteritems(multi=True)
-            else:
-                valueiter = values.items()
-            values = dict((k, v) for k, v in valueiter if v is not None)
+            values = dict((k, v) for k, v in values.items() if v is not None)
         else:
             values = {}
 
-- 
2.43.0


From 081b3db4faedffb7e5da1c45fb5a054635ba22c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:02 +0000
Subject: [PATCH 49/95] fix: numbers too long to convert do not match instead
 of crashing

---
 verktyg/routing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 547ce85..313332c 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -906,7 +906,11 @@ class NumberConverter(BaseConverter):
     def to_python(self, value):
         if (self.fixed_digits and len(value) != self.fixed_digits):
             raise ValidationError()
-        value = self.num_convert(value)
+        try:
+            value = self.num_convert(value)
+        except ValueError:
+            # python refuses to convert excessively long strings of digits
+            raise ValidationError()
         if (
             (self.min is not None and value < self.min) or
             (self.max is not None and value > self.max)
-- 
2.43.0


From a09e1b4be3a75967f82ec1782138e79a167f7f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:05 +0000
Subject: [PATCH 50/95] fix: adjacent positional converter arguments are no
 longer merged

---
 verktyg/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 313332c..1bb27f5 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -122,8 +122,8 @@ _converter_args_re = re.compile(r'''
     ((?P<name>\w+)\s*=\s*)?
     (?P<value>
         True|False|
-        \d+.\d+|
-        \d+.|
+        \d+\.\d+|
+        \d+\.|
         \d+|
         \w+|
         [urUR]?(?P<stringval>"[^"]*?"|'[^']*')
-- 
2.43.0


From 168cb087d0ba65bbfbe0f82809e3bbe528089656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:08 +0000
Subject: [PATCH 51/95] fix: very large and very small floats build urls that
 match

---
 verktyg/routing.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 1bb27f5..5eb177f 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -94,6 +94,7 @@
 import re
 import uuid
 import posixpath
+from decimal import Decimal
 from urllib.parse import (
     urlencode, quote as urlquote, urljoin,
     urlunparse, ParseResult
@@ -967,6 +968,13 @@ class FloatConverter(NumberConverter):
     def __init__(self, router, min=None, max=None):
         NumberConverter.__init__(self, router, 0, min, max)
 
+    def to_url(self, value):
+        # The url pattern does not cover exponents.
+        value = format(Decimal(repr(self.num_convert(value))), 'f')
+        if '.' not in value:
+            value += '.0'
+        return value
+
 
 class UUIDConverter(BaseConverter):
     """This converter only accepts UUID strings::
-- 
2.43.0


From 89677a791accb3f3d7f8fd7e9b2e9c411f062019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:32 +0000
Subject: [PATCH 52/95] fix: route templates keep the redirect, alias and host
 of their routes

---
 verktyg/routing.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 5eb177f..32458ec 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -387,7 +387,7 @@ class RouteTemplateFactory(RouteFactory):
     def get_routes(self, router):
         for routefactory in self.routes:
             for route in routefactory.get_routes(router):
-                new_defaults = subdomain = None
+                new_defaults = subdomain = host = None
                 if route.defaults:
                     new_defaults = {}
                     for key, value in route.defaults.items():
@@ -396,6 +396,11 @@ class RouteTemplateFactory(RouteFactory):
                         new_defaults[key] = value
                 if route.subdomain is not None:
                     subdomain = route.subdomain.format(**self.context)
+                if route.host is not None:
+                    host = route.host.format(**self.context)
+                redirect_to = route.redirect_to
+                if isinstance(redirect_to, str):
+                    redirect_to = redirect_to.format(**self.context)
                 new_endpoint = route.endpoint
                 if isinstance(new_endpoint, str):
                     new_endpoint = new_endpoint.format(**self.context)
@@ -405,7 +410,10 @@ class RouteTemplateFactory(RouteFactory):
                     subdomain,
                     route.build_only,
                     new_endpoint,
-                    route.strict_slashes
+                    route.strict_slashes,
+                    redirect_to,
+                    route.alias,
+                    host,
                 )
 
 
-- 
2.43.0


From 027ee2058be1223fd9427ab14b343aed95bbe29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:35 +0000
Subject: [PATCH 53/95] fix: concurrent first requests no longer see a half
 sorted url map

---
 verktyg/routing.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 32458ec..23c02e2 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -94,6 +94,7 @@
 import re
 import uuid
 import posixpath
+import threading
 from decimal import Decimal
 from urllib.parse import (
     urlencode, quote as urlquote, urljoin,
@@ -1062,6 +1063,7 @@ class URLMap(object):
         self._routes = []
         self._routes_by_endpoint = {}
         self._remap = True
+        self._remap_lock = threading.Lock()
 
         self.default_subdomain = default_subdomain
         self.charset = charset
@@ -1258,7 +1260,14 @@ class URLMap(object):
         """Called before matching and building to keep the compiled routes
         in the correct order after things changed.
         """
-        if self._remap:
+        if not self._remap:
+            return
+
+        with self._remap_lock:
+            # another thread may have got there first
+            if not self._remap:
+                return
+
             self._routes.sort(key=lambda x: x.match_compare_key())
             for routes in self._routes_by_endpoint.values():
                 routes.sort(key=lambda x: x.build_compare_key())
-- 
2.43.0


From c34f0b66c4b88c3a5a8fa7c0973da37ff0bbec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 54/95] fix: values from the url cannot turn a relative
 redirect_to into an external redirect

---
 verktyg/routing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 23c02e2..6d182d5 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1402,6 +1402,9 @@ class MapAdapter(object):
                     redirect_url = _simple_route_re.sub(
                         _handle_match, route.redirect_to,
                     )
+                    if route.redirect_to.startswith('<'):
+                        # do not let the value be taken for a scheme
+                        redirect_url = './' + redirect_url
                 else:
                     redirect_url = route.redirect_to(self, **rv)
                 raise RequestRedirect(str(urljoin('%s://%s%s%s' % (
-- 
2.43.0


From 269877f69fba42e1c420a7ea5bbd2c1ee4415d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:40 +0000
Subject: [PATCH 55/95] fix: text fields can be encoded as multipart

---
 verktyg/test.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f6d2fd1..56957c4 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -98,12 +98,11 @@ def stream_encode_multipart(
                         break
                     write_binary(chunk)
             else:
-                if isinstance(value, str):
-                    write(value)
-                else:
-                    write_binary(value)
                 write('\r\n\r\n')
-                write_binary(value)
+                if isinstance(value, bytes):
+                    write_binary(value)
+                else:
+                    write(str(value))
             write('\r\n')
     write('--%s--\r\n' % boundary)
 
-- 
2.43.0


From 76a8293772f8ee3c42e131614bceffc0d360511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:43 +0000
Subject: [PATCH 56/95] fix: EnvironBuilder sends all values of a repeated
 argument or field

---
 verktyg/test.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 56957c4..2b3ed46 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -484,7 +484,9 @@ class EnvironBuilder(object):
     def _get_query_string(self):
         if self._query_string is None:
             if self._args is not None:
-                return urlencode(self._args, encoding=self.charset)
+                return urlencode(
+                    list(_iter_data(self._args)), encoding=self.charset
+                )
             return ''
         return self._query_string
 
@@ -570,7 +572,9 @@ class EnvironBuilder(object):
             )
             content_type += '; boundary="%s"' % boundary
         elif content_type == 'application/x-www-form-urlencoded':
-            values = urlencode(self.form, encoding=self.charset)
+            values = urlencode(
+                list(_iter_data(self.form)), encoding=self.charset
+            )
             values = values.encode('ascii')
             content_length = len(values)
             input_stream = BytesIO(values)
-- 
2.43.0


From 85abf9dab5a91de311c13ec3c7979af184670125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 57/95] fix: run_wsgi_app copes with empty generators and
 exc_info

---
 verktyg/test.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 2b3ed46..38c6473 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -918,7 +918,7 @@ def run_wsgi_app(app, environ, buffered=False):
         if exc_info is not None:
             exc_type, exc_value, exc_traceback = exc_info
             if exc_value.__traceback__ is not exc_traceback:
-                raise exc_value.with_traceback()
+                raise exc_value.with_traceback(exc_traceback)
             raise exc_value
         response[:] = [status, headers]
         return buffer.append
@@ -942,7 +942,10 @@ def run_wsgi_app(app, environ, buffered=False):
     # original return value.
     else:
         while not response:
-            buffer.append(next(app_iter))
+            try:
+                buffer.append(next(app_iter))
+            except StopIteration:
+                break
         if buffer:
             app_iter = chain(buffer, app_iter)
         if close_func is not None and app_iter is not app_rv:
-- 
2.43.0


From 8f3fe089856c6b3e98eaac83d4dca70291731cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:48 +0000
Subject: [PATCH 58/95] fix: Client.allow_subdomain_redirects raised
 AttributeError

---
 verktyg/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 38c6473..3889cf2 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -722,7 +722,9 @@ class Client(object):
         real_server_name = get_host(environ).rsplit(':', 1)[0].split('.')
 
         if self.allow_subdomain_redirects:
-            allowed = cur_server_name.endswith(real_server_name)
+            allowed = (
+                cur_server_name[-len(real_server_name):] == real_server_name
+            )
         else:
             allowed = cur_server_name == real_server_name
 
-- 
2.43.0


From 71c22e4af3cad6b2296705cb29d5289b9e28b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:20 +0000
Subject: [PATCH 59/95] fix: data passed to write is kept by buffered runs

---
 verktyg/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 3889cf2..756874d 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -933,7 +933,7 @@ def run_wsgi_app(app, environ, buffered=False):
     # application iterator into a regular list
     if buffered:
         try:
-            app_iter = list(app_iter)
+            app_iter = buffer + list(app_iter)
         finally:
             if close_func is not None:
                 close_func()
-- 
2.43.0


From 604d51b2a5ba2ba488c25bc1e5b4657a5681578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:44 +0000
Subject: [PATCH 60/95] fix: values rejected by a converter no longer redirect
 to a slash url that does not exist

---
 verktyg/routing.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 6d182d5..4b6440f 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -660,19 +660,7 @@ class Route(RouteFactory):
             m = self._regex.search(path)
             if m is not None:
                 groups = m.groupdict()
-                # we have a folder like part of the url without a trailing
-                # slash and strict slashes enabled. raise an exception that
-                # tells the router to redirect to the same url but with a
-                # trailing slash
-                if (
-                    self.strict_slashes and not self.is_leaf and
-                    not groups.pop('__suffix__')
-                ):
-                    raise RequestSlash()
-                # if we are not in strict slashes mode we have to remove
-                # a __suffix__
-                elif not self.strict_slashes:
-                    del groups['__suffix__']
+                suffix = groups.pop('__suffix__', None)
 
                 result = {}
                 for name, value in groups.items():
@@ -681,6 +669,14 @@ class Route(RouteFactory):
                     except ValidationError:
                         return
                     result[str(name)] = value
+
+                # we have a folder like part of the url without a trailing
+                # slash and strict slashes enabled. raise an exception that
+                # tells the router to redirect to the same url but with a
+                # trailing slash
+                if self.strict_slashes and not self.is_leaf and not suffix:
+                    raise RequestSlash()
+
                 if self.defaults:
                     result.update(self.defaults)
 
-- 
2.43.0


From e8301f0dd245f1c9aed224da3247f09f0fb1e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:24 +0000
Subject: [PATCH 61/95] fix: match() without any path info matches the root as
 documented

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 4b6440f..2f7fc44 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1360,7 +1360,7 @@ class MapAdapter(object):
         """
         self.router.update()
         if path_info is None:
-            path_info = self.path_info
+            path_info = self.path_info or '/'
         if query_args is None:
             query_args = self.query_args
 
-- 
2.43.0


From 0976b93deaff72ae90b86391b2e2fedc555e99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:57 +0000
Subject: [PATCH 62/95] fix: values after a prefix in a redirect_to target can
 not be taken for a scheme

---
 verktyg/routing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 2f7fc44..490c9fe 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1398,7 +1398,8 @@ class MapAdapter(object):
                     redirect_url = _simple_route_re.sub(
                         _handle_match, route.redirect_to,
                     )
-                    if route.redirect_to.startswith('<'):
+                    prefix = route.redirect_to.partition('<')[0]
+                    if not any(c in prefix for c in ':/?#'):
                         # do not let the value be taken for a scheme
                         redirect_url = './' + redirect_url
                 else:
-- 
2.43.0


From 2e1aecfa36f165ce4fcba5a7ca47fb4cabaa691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:05 +0000
Subject: [PATCH 63/95] fix: adding routes no longer disturbs requests being
 matched at the same time

---
 verktyg/routing.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 490c9fe..31db6d5 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1120,11 +1120,12 @@ class URLMap(object):
         for factory in factories:
             for route in factory.get_routes(self):
                 route.bind(self)
-                self._routes.append(route)
-                self._routes_by_endpoint.setdefault(
-                    route.endpoint, []
-                ).append(route)
-        self._remap = True
+                with self._remap_lock:
+                    self._routes.append(route)
+                    self._routes_by_endpoint.setdefault(
+                        route.endpoint, []
+                    ).append(route)
+                    self._remap = True
 
     def bind(
         self, server_name, script_name=None, subdomain=None,
@@ -1264,9 +1265,15 @@ class URLMap(object):
             if not self._remap:
                 return
 
-            self._routes.sort(key=lambda x: x.match_compare_key())
-            for routes in self._routes_by_endpoint.values():
-                routes.sort(key=lambda x: x.build_compare_key())
+            # other threads may be iterating over the current lists, which
+            # would be empty for them while they are being sorted in place
+            self._routes = sorted(
+                self._routes, key=lambda x: x.match_compare_key()
+            )
+            self._routes_by_endpoint = {
+                endpoint: sorted(routes, key=lambda x: x.build_compare_key())
+                for endpoint, routes in self._routes_by_endpoint.items()
+            }
             self._remap = False
 
     def __repr__(self):
-- 
2.43.0


From e71be61b451381263fe730fb30f8d904e073018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:19 +0000
Subject: [PATCH 64/95] fix: a route can be matched only once it is known by
 its endpoint

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 31db6d5..6b7ccc6 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1121,10 +1121,10 @@ class URLMap(object):
             for route in factory.get_routes(self):
                 route.bind(self)
                 with self._remap_lock:
-                    self._routes.append(route)
                     self._routes_by_endpoint.setdefault(
                         route.endpoint, []
                     ).append(route)
+                    self._routes.append(route)
                     self._remap = True
 
     def bind(
-- 
2.43.0


From edf732cdb9a9120ef50eb33475566e7ba14a4a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:03 +0000
Subject: [PATCH 65/95] fix: updating a multi dict with itself terminates

---
 verktyg/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 095e48d..52b0b32 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -547,7 +547,7 @@ class MultiDict(TypeConversionDict):
 
     def update(self, other_dict):
         """update() extends rather than replaces existing key lists."""
-        for key, value in iter_multi_items(other_dict):
+        for key, value in list(iter_multi_items(other_dict)):
             MultiDict.add(self, key, value)
 
     def __ior__(self, other):
@@ -782,7 +782,7 @@ class OrderedMultiDict(MultiDict):
         )
 
     def update(self, mapping):
-        for key, value in iter_multi_items(mapping):
+        for key, value in list(iter_multi_items(mapping)):
             OrderedMultiDict.add(self, key, value)
 
     def poplist(self, key):
-- 
2.43.0


From a2de3e8dac5efc53b18f24fcf44bb3d2800ccffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:23 +0000
Subject: [PATCH 66/95] fix: comparing a multi dict with an ordered one is
 symmetric

---
 verktyg/datastructures.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 52b0b32..4eaed56 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -346,6 +346,17 @@ class MultiDict(TypeConversionDict):
                 tmp.setdefault(key, []).append(value)
             dict.__init__(self, tmp)
 
+    def __eq__(self, other):
+        if isinstance(other, OrderedMultiDict):
+            # the ordered variant stores its values in another way
+            return other.__eq__(self)
+        return dict.__eq__(self, other)
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = None
+
     def __getstate__(self):
         return dict(self.lists())
 
-- 
2.43.0


From ebd539378c47f79b0b0c64a69331025a7e6f3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:36 +0000
Subject: [PATCH 67/95] fix: an ordered multi dict differs from objects of
 other types

---
 verktyg/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4eaed56..088848c 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -700,7 +700,7 @@ class OrderedMultiDict(MultiDict):
         return True
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        return not self == other
 
     def __reduce_ex__(self, protocol):
         return type(self), (list(self.items(multi=True)),)
-- 
2.43.0


From 8331b1d8ede84854eb1eae15d54e66fb9aa86407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:15 +0000
Subject: [PATCH 68/95] fix: clearing read only headers is refused like any
 other change

---
 verktyg/http/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 708f1f0..3fe8026 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -517,6 +517,9 @@ class ImmutableHeadersMixin(object):
         is_immutable(self)
     remove = add_header = add
 
+    def clear(self):
+        is_immutable(self)
+
     def extend(self, iterable):
         is_immutable(self)
 
-- 
2.43.0


From 36863284badb8572d6f6c38db494e5cc41b61090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:18 +0000
Subject: [PATCH 69/95] fix: the lists from listvalues are copies, an immutable
 multi dict can not be changed through them

---
 verktyg/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 088848c..a2f0fc4 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -530,7 +530,8 @@ class MultiDict(TypeConversionDict):
         True
         """
 
-        return dict.values(self)
+        for values in dict.values(self):
+            yield list(values)
 
     def copy(self):
         """Return a shallow copy of this object."""
-- 
2.43.0


From 6f16f7049cf29ea9367fa71983f00196a33a61a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 70/95] fix: white space after the value of a header option is
 not part of it

---
 verktyg/http/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 3fe8026..532cc99 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -686,7 +686,9 @@ def parse_options_header(value):
             key, value = match.groups()
             key = unquote_header_value(key)
             if value is not None:
-                value = unquote_header_value(value, key == 'filename')
+                value = unquote_header_value(
+                    value.rstrip(), key == 'filename'
+                )
             yield key, value
 
     if not value:
-- 
2.43.0


From 8514c7050b21cc34f96702e5f21a49b69b9bcd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:07 +0000
Subject: [PATCH 71/95] fix: empty elements of header lists are ignored

---
 verktyg/http/basic.py         |  6 ++++++
 verktyg/http/cache_control.py | 10 ++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 532cc99..b0ef87c 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -616,6 +616,9 @@ def parse_list_header(value):
     """
     result = []
     for item in _parse_list_header(value):
+        if not item:
+            # empty list elements carry no information
+            continue
         if item[:1] == item[-1:] == '"':
             # escapes have already been removed by the splitter
             item = item[1:-1]
@@ -654,6 +657,9 @@ def parse_dict_header(value, cls=dict):
         # XXX: validate
         value = bytes_to_wsgi(value)
     for item in _parse_list_header(value):
+        if not item:
+            # empty list elements carry no information
+            continue
         if '=' not in item:
             result[item] = None
             continue
diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 3adc56e..5a687d7 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -574,10 +574,12 @@ def parse_etags(value):
             return ETags(star_tag=True)
         elif quoted is not None:
             raw = quoted
-        if is_weak:
-            weak.append(raw)
-        else:
-            strong.append(raw)
+        if raw or quoted is not None:
+            # empty list elements carry no information
+            if is_weak:
+                weak.append(raw)
+            else:
+                strong.append(raw)
         pos = match.end()
     return ETags(strong, weak)
 
-- 
2.43.0


From b0a8025ac2e6da77cf703b43c58d35f31314be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 72/95] fix: white space around the equals sign of a header
 pair is not part of the name or value

---
 verktyg/http/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index b0ef87c..1e83cd5 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -664,6 +664,7 @@ def parse_dict_header(value, cls=dict):
             result[item] = None
             continue
         name, value = item.split('=', 1)
+        name, value = name.rstrip(), value.lstrip()
         if value[:1] == value[-1:] == '"':
             # escapes have already been removed by the splitter
             value = value[1:-1]
-- 
2.43.0


From 6dc848bd080a44f489735678894a0b27156d7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:03 +0000
Subject: [PATCH 73/95] fix: signs and underscores are no part of the numbers
 of a range header

---
 verktyg/http/cache_control.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 5a687d7..90417e7 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -113,6 +113,14 @@ class Range(object):
         return '<%s %r>' % (self.__class__.__name__, str(self))
 
 
+def _parse_position(value):
+    """Only plain digits are positions, unlike for :func:`int`."""
+    value = value.strip()
+    if not value.isascii() or not value.isdigit():
+        raise ValueError('Bad position: %r' % value)
+    return int(value)
+
+
 def parse_range_header(value, make_inclusive=True):
     """Parses a range header into a :class:`~Range`
     object.  If the header is missing or malformed `None` is returned.
@@ -136,18 +144,18 @@ def parse_range_header(value, make_inclusive=True):
                 # nothing can follow an open ended or a suffix range
                 return None
             if item.startswith('-'):
-                begin = int(item)
+                begin = -_parse_position(item[1:])
                 if begin >= 0:
                     return None
                 end = None
                 last_end = -1
             else:
                 begin, end = item.split('-', 1)
-                begin = int(begin)
+                begin = _parse_position(begin)
                 if begin < last_end:
                     return None
                 if end:
-                    end = int(end) + 1
+                    end = _parse_position(end) + 1
                     if begin >= end:
                         return None
                 else:
@@ -259,10 +267,11 @@ def parse_content_range_header(value, on_update=None):
     rng, length = rangedef.split('/', 1)
     if length == '*':
         length = None
-    elif length.isdecimal():
-        length = int(length)
     else:
-        return None
+        try:
+            length = _parse_position(length)
+        except ValueError:
+            return None
 
     if rng == '*':
         return ContentRange(units, None, None, length, on_update=on_update)
@@ -271,8 +280,8 @@ def parse_content_range_header(value, on_update=None):
 
     start, stop = rng.split('-', 1)
     try:
-        start = int(start)
-        stop = int(stop) + 1
+        start = _parse_position(start)
+        stop = _parse_position(stop) + 1
     except ValueError:
         return None
 
-- 
2.43.0


From 11db0156c24691ec0db033c6c7c2f8282d771cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:57 +0000
Subject: [PATCH 74/95] fix: the test client sends cookies only to the hosts
 and paths they were set for

---
 verktyg/test.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 756874d..532dfd8 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -164,11 +164,11 @@ class _TestCookieJar(CookieJar):
         """Inject the cookies as client headers into the server's wsgi
         environment.
         """
-        cvals = []
-        for cookie in self:
-            cvals.append('%s=%s' % (cookie.name, cookie.value))
-        if cvals:
-            environ['HTTP_COOKIE'] = '; '.join(cvals)
+        request = Request(get_current_url(environ))
+        # only adds the cookies that belong to the host and path
+        self.add_cookie_header(request)
+        if request.has_header('Cookie'):
+            environ['HTTP_COOKIE'] = request.get_header('Cookie')
 
     def extract_wsgi(self, environ, headers):
         """Extract the server's set-cookie headers as cookies into the
-- 
2.43.0


From cf0e820fe81649dee1ba47810644e77daf7c7b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:30 +0000
Subject: [PATCH 75/95] fix: LimitedStream.readlines ends if on_disconnect does
 not raise

---
 verktyg/wsgi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index bee2fae..43c192e 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -929,7 +929,11 @@ class LimitedStream(object):
                 size -= last_pos - self._pos
             if self._pos >= end:
                 break
-            result.append(self.readline(size))
+            line = self.readline(size)
+            if not line:
+                # the client is gone and `on_disconnect` did not raise
+                break
+            result.append(line)
             if size is not None:
                 last_pos = self._pos
         return result
-- 
2.43.0


From fc98a162b97d2200bec46b6b60df704534601303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:49 +0000
Subject: [PATCH 76/95] fix: FileStorage accepts unnamed files, whose name is a
 number

---
 verktyg/http/basic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 1e83cd5..411d3f6 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -877,6 +877,11 @@ class FileStorage(object):
                     sys.getfilesystemencoding(), 'replace'
                 )
 
+            # Unnamed files (for example temporary files) have the number of
+            # their file descriptor as name.
+            if isinstance(filename, int):
+                filename = None
+
             if filename and filename[0] == '<' and filename[-1] == '>':
                 filename = None
 
-- 
2.43.0


From 0cd15ee9c4826e88adbc44a45a321d3e31c3683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:02 +0000
Subject: [PATCH 77/95] fix: directories in package data are not files

---
 verktyg/wsgi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 43c192e..9ebb68b 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -438,7 +438,8 @@ class SharedDataMiddleware(object):
             if path is None:
                 return None, None
             path = posixpath.join(package_path, path)
-            if not provider.has_resource(path):
+            if not provider.has_resource(path) or \
+                    provider.resource_isdir(path):
                 return None, None
             basename = posixpath.basename(path)
             if filesystem_bound:
-- 
2.43.0


From 9ab4733b1b99767b7bfc36e340a0e45a117cacae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:26 +0000
Subject: [PATCH 78/95] fix: package data outside of the file system is sent
 with its length

---
 verktyg/wsgi.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 9ebb68b..799f428 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -445,11 +445,8 @@ class SharedDataMiddleware(object):
             if filesystem_bound:
                 return basename, self._opener(
                     provider.get_resource_filename(manager, path))
-            return basename, lambda: (
-                provider.get_resource_stream(manager, path),
-                loadtime,
-                0
-            )
+            data = provider.get_resource_string(manager, path)
+            return basename, lambda: (BytesIO(data), loadtime, len(data))
         return loader
 
     def get_directory_loader(self, directory):
-- 
2.43.0


From 2dba089fc2540953d9fde6d207a849344c9fe457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:53 +0000
Subject: [PATCH 79/95] fix: shared data answers 304 only to GET and HEAD
 requests

---
 verktyg/wsgi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 799f428..b5ec6f9 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -507,7 +507,9 @@ class SharedDataMiddleware(object):
                 ('Etag', '"%s"' % etag),
                 ('Cache-Control', 'max-age=%d, public' % timeout)
             ]
-            if not is_resource_modified(environ, etag, last_modified=mtime):
+            if environ['REQUEST_METHOD'] in ('GET', 'HEAD') and \
+                    not is_resource_modified(environ, etag,
+                                             last_modified=mtime):
                 f.close()
                 start_response('304 Not Modified', headers)
                 return []
-- 
2.43.0


From ff5c8fdda4610426362515c218b27a519bf75a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:29 +0000
Subject: [PATCH 80/95] fix: hosts with user info, path or other disguises are
 not trusted

---
 verktyg/wsgi.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index b5ec6f9..2227b56 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -10,6 +10,7 @@
         BSD, see LICENSE for more details.
 """
 import os
+import re
 from io import BytesIO
 import sys
 import posixpath
@@ -102,6 +103,14 @@ def get_current_url(
     return uri_to_iri(''.join(tmp))
 
 
+# A host name or address without characters that would make a different host
+# of it when it becomes part of a url, and an optional port.
+_host_re = re.compile(
+    r'(\[[^\[\]/?#@\\\s\x00-\x20\x7f]+\]|[^\[\]/?#@\\:\s\x00-\x20\x7f]+)'
+    r'(?::[0-9]*)?\Z'
+)
+
+
 def host_is_trusted(hostname, trusted_list):
     """Checks if a host is trusted against a list.  This also takes care
     of port normalization.
@@ -119,13 +128,14 @@ def host_is_trusted(hostname, trusted_list):
         trusted_list = [trusted_list]
 
     def _normalize(hostname):
-        if ':' in hostname and not hostname.endswith(']'):
-            hostname = hostname.rsplit(':', 1)[0]
-        return encode_idna(hostname)
+        match = _host_re.match(hostname)
+        if match is None:
+            raise ValueError('%r is not a host name' % hostname)
+        return encode_idna(match.group(1))
 
     try:
         hostname = _normalize(hostname)
-    except UnicodeError:
+    except ValueError:
         return False
     for ref in trusted_list:
         if ref.startswith('.'):
@@ -133,7 +143,10 @@ def host_is_trusted(hostname, trusted_list):
             suffix_match = True
         else:
             suffix_match = False
-        ref = _normalize(ref)
+        try:
+            ref = _normalize(ref)
+        except ValueError:
+            continue
         if ref == hostname:
             return True
         if suffix_match and hostname.endswith(b'.' + ref):
-- 
2.43.0


From 019b92285f6fd96a8ae5a81cd39248f3996a5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:11 +0000
Subject: [PATCH 81/95] fix: uri_to_iri must not decode characters that change
 the structure of the URL

---
 verktyg/urls.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index 983173b..d5447b3 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -20,6 +20,10 @@ _hextobyte = dict(
 )
 
 
+# Stripped or rejected by URL parsers so always left percent encoded.
+_control_chars = ''.join(map(chr, range(0x20))) + '\x7f'
+
+
 def _safe_urlunquote_to_bytes(string, unsafe=''):
     if isinstance(string, str):
         string = string.encode('utf-8')
@@ -141,14 +145,16 @@ def uri_to_iri(uri, errors='replace'):
     if uri.username or uri.password:
         if uri.username:
             username = _safe_urlunquote(
-                uri.username, errors='strict', unsafe='/:%'
+                uri.username, errors='strict',
+                unsafe='/:%?#[]@\\' + _control_chars
             )
         else:
             username = ''
 
         if uri.password:
             password = _safe_urlunquote(
-                uri.password, errors='strict', unsafe='/:%'
+                uri.password, errors='strict',
+                unsafe='/:%?#[]@\\' + _control_chars
             )
             auth = '%s:%s' % (username, password)
         else:
@@ -157,13 +163,13 @@ def uri_to_iri(uri, errors='replace'):
         netloc = '%s@%s' % (auth, netloc)
 
     path = _safe_urlunquote(
-        uri.path, errors=errors, unsafe='%/;?'
+        uri.path, errors=errors, unsafe='%/;?#\\' + _control_chars
     )
     query = _safe_urlunquote(
-        uri.query, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.query, errors=errors, unsafe='%;/?:@&=+,$#' + _control_chars
     )
     fragment = _safe_urlunquote(
-        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#' + _control_chars
     )
     return urlunsplit(
         (uri.scheme, netloc, path, query, fragment)
-- 
2.43.0


From 438f31446e7c113f3eb868abe3a6899ca006eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:42 +0000
Subject: [PATCH 82/95] fix: cookie headers of any shape must be parsed in
 linear time

---
 verktyg/http/cookies.py | 66 ++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 41 deletions(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index be3dde9..a8a76ac 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -36,16 +36,18 @@ for _i in chain(range(32), range(127, 256)):
         '\\%03o' % _i
     ).encode('latin1')
 
-_octal_re = re.compile(b'\\\\[0-3][0-7][0-7]')
-_quote_re = re.compile(b'[\\\\].')
-_cookie_re = re.compile(b"""(?x)
-    (?P<key>[^=]+)
-    \s*=\s*
-    (?P<val>
-        "(?:[^\\\\"]|\\\\.)*" |
-         (?:.*?)
-    )
-    \s*;
+_unquote_re = re.compile(br'\\(?:([0-3][0-7][0-7])|(.))')
+_cookie_re = re.compile(br"""(?x)
+    (?P<key>[^=;]*)
+    (?:
+        =\s*
+        (?P<val>
+            "(?:[^\\"]|\\.)*" (?=\s*;) |
+            [^;]*
+        )
+        \s*
+    )?
+    ;
 """)
 
 
@@ -71,34 +73,13 @@ def _cookie_unquote(b):
     if b[:1] != b'"' or b[-1:] != b'"':
         return b
 
-    b = b[1:-1]
-
-    i = 0
-    n = len(b)
-    rv = bytearray()
-    _push = rv.extend
-
-    while 0 <= i < n:
-        o_match = _octal_re.search(b, i)
-        q_match = _quote_re.search(b, i)
-        if not o_match and not q_match:
-            rv.extend(b[i:])
-            break
-        j = k = -1
-        if o_match:
-            j = o_match.start(0)
-        if q_match:
-            k = q_match.start(0)
-        if q_match and (not o_match or k < j):
-            _push(b[i:k])
-            _push(b[k + 1:k + 2])
-            i = k + 2
-        else:
-            _push(b[i:j])
-            rv.append(int(b[j + 1:j + 4], 8))
-            i = j + 4
+    def _unescape(match):
+        octal, char = match.groups()
+        if octal is not None:
+            return bytes([int(octal, 8)])
+        return char
 
-    return bytes(rv)
+    return _unquote_re.sub(_unescape, b[1:-1])
 
 
 def _make_cookie_domain(domain):
@@ -123,18 +104,21 @@ def _cookie_parse_impl(b):
     i = 0
     n = len(b)
 
+    b += b';'
+
     while i < n:
-        match = _cookie_re.search(b + b';', i)
-        if not match:
-            break
+        match = _cookie_re.match(b, i)
 
         key = match.group('key').strip()
         value = match.group('val')
         i = match.end(0)
 
+        if not key or value is None:
+            continue
+
         # Ignore parameters.  We have no interest in them.
         if key.lower() not in _cookie_params:
-            yield _cookie_unquote(key), _cookie_unquote(value)
+            yield _cookie_unquote(key), _cookie_unquote(value.rstrip())
 
 
 def cookie_date(expires=None):
-- 
2.43.0


From 28bd5b55bc20a14d6fb419d66a09a27bc9e7630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:49 +0000
Subject: [PATCH 83/95] fix: malformed host headers must be refused instead of
 raising ValueError

---
 verktyg/wsgi.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 2227b56..db21da0 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -86,10 +86,20 @@ def get_current_url(
         A list of trusted hosts, see :func:`host_is_trusted` for more
         information.
     """
-    tmp = [environ['wsgi.url_scheme'], '://', get_host(environ, trusted_hosts)]
+    host = get_host(environ, trusted_hosts)
+    tmp = [environ['wsgi.url_scheme'], '://', host]
     cat = tmp.append
+
+    def _to_iri(url):
+        try:
+            return uri_to_iri(url)
+        except ValueError:
+            # everything apart from the host has already been encoded
+            from verktyg.exceptions import SecurityError
+            raise SecurityError('Host "%s" is malformed' % host)
+
     if host_only:
-        return uri_to_iri(''.join(tmp) + '/')
+        return _to_iri(''.join(tmp) + '/')
     cat(urlquote(wsgi_get_bytes(environ.get('SCRIPT_NAME', ''))).rstrip('/'))
     cat('/')
     if not root_only:
@@ -100,7 +110,7 @@ def get_current_url(
             qs = get_query_string(environ)
             if qs:
                 cat('?' + qs)
-    return uri_to_iri(''.join(tmp))
+    return _to_iri(''.join(tmp))
 
 
 # A host name or address without characters that would make a different host
-- 
2.43.0


From e63605ea186e6c50cefaf12f8f2b218bed76a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:52 +0000
Subject: [PATCH 84/95] fix: absurd content lengths must be treated like a
 client disconnecting

---
 verktyg/wsgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index db21da0..4e16514 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -911,7 +911,7 @@ class LimitedStream(object):
         to_read = min(self.limit - self._pos, size)
         try:
             read = self._read(to_read)
-        except (IOError, ValueError):
+        except (IOError, ValueError, OverflowError):
             return self.on_disconnect()
         if to_read and len(read) != to_read:
             return self.on_disconnect()
@@ -928,7 +928,7 @@ class LimitedStream(object):
             size = min(size, self.limit - self._pos)
         try:
             line = self._readline(size)
-        except (ValueError, IOError):
+        except (ValueError, IOError, OverflowError):
             return self.on_disconnect()
         if size and not line:
             return self.on_disconnect()
-- 
2.43.0


From 60cdb0bb187da6b7a34349cce3d49ece22e36fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:58 +0000
Subject: [PATCH 85/95] fix: EnvironBuilder.close must close all files that
 share a name

---
 verktyg/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 532dfd8..bce3a20 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -543,7 +543,7 @@ class EnvironBuilder(object):
         if self.closed:
             return
         try:
-            files = self.files.values()
+            files = list(chain.from_iterable(self.files.listvalues()))
         except AttributeError:
             files = ()
         for f in files:
-- 
2.43.0


From cc30fa2d2027dc285219702509d3e2eaa6c73fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:00 +0000
Subject: [PATCH 86/95] fix: secure_filename must know all reserved device
 names

---
 verktyg/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index 7d48aeb..c1404f2 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -20,8 +20,9 @@ from urllib.parse import quote
 
 _filename_ascii_strip_re = re.compile(r'[^A-Za-z0-9_.-]')
 _windows_device_files = {
-    'CON', 'AUX', 'COM1', 'COM2', 'COM3', 'COM4',
-    'LPT1', 'LPT2', 'LPT3', 'PRN', 'NUL',
+    'CON', 'AUX', 'COM1', 'COM2', 'COM3', 'COM4', 'COM5', 'COM6', 'COM7',
+    'COM8', 'COM9', 'LPT1', 'LPT2', 'LPT3', 'LPT4', 'LPT5', 'LPT6', 'LPT7',
+    'LPT8', 'LPT9', 'PRN', 'NUL',
 }
 _missing = object()
 
-- 
2.43.0


From ee3c3a86289183049d99af4dbdb40ef4cdfb2ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:35 +0000
Subject: [PATCH 87/95] fix: JsonView must not send NaN and Infinity, which are
 not JSON

---
 verktyg/views.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verktyg/views.py b/verktyg/views.py
index 24e52cd..866d61e 100644
--- a/verktyg/views.py
+++ b/verktyg/views.py
@@ -90,9 +90,11 @@ class JsonView(View):
             return Response(status=204)
 
         if env.debug:
-            json_response = json.dumps(res, indent=4)
+            json_response = json.dumps(res, indent=4, allow_nan=False)
         else:
-            json_response = json.dumps(res, separators=(',', ':'))
+            json_response = json.dumps(
+                res, separators=(',', ':'), allow_nan=False
+            )
 
         return Response(json_response, content_type='application/json')
 
-- 
2.43.0


From b0499631be4e5ca0c265ff699e44a3e5f363163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:21 +0000
Subject: [PATCH 88/95] fix: bind_to_environ refuses malformed hosts, matches
 nothing for foreign hosts and ignores an empty Host header

---
 verktyg/routing.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 6b7ccc6..deae1e4 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -105,7 +105,7 @@ from pprint import pformat
 
 from verktyg.datastructures import ImmutableDict, MultiDict
 from verktyg.wsgi import wsgi_decoding_dance
-from verktyg.exceptions import HTTPException, NotFound
+from verktyg.exceptions import HTTPException, NotFound, SecurityError
 
 
 _route_re = re.compile(r'''
@@ -1205,7 +1205,7 @@ class URLMap(object):
         environ = getattr(environ, 'environ', environ)
         assert isinstance(environ, dict)
         if server_name is None:
-            if 'HTTP_HOST' in environ:
+            if environ.get('HTTP_HOST'):
                 server_name = environ['HTTP_HOST']
             else:
                 server_name = environ['SERVER_NAME']
@@ -1216,7 +1216,7 @@ class URLMap(object):
                     server_name += ':' + environ['SERVER_PORT']
         elif subdomain is None and not self.host_matching:
             server_name = server_name.lower()
-            if 'HTTP_HOST' in environ:
+            if environ.get('HTTP_HOST'):
                 wsgi_server_name = environ.get('HTTP_HOST')
             else:
                 wsgi_server_name = environ.get('SERVER_NAME')
@@ -1247,11 +1247,14 @@ class URLMap(object):
         script_name = _get_wsgi_string('SCRIPT_NAME')
         path_info = _get_wsgi_string('PATH_INFO')
         query_args = _get_wsgi_string('QUERY_STRING')
-        return URLMap.bind(
-            self, server_name, script_name,
-            subdomain, environ['wsgi.url_scheme'],
-            path_info, query_args=query_args,
-        )
+        try:
+            return URLMap.bind(
+                self, server_name, script_name,
+                subdomain, environ['wsgi.url_scheme'],
+                path_info, query_args=query_args,
+            )
+        except UnicodeError:
+            raise SecurityError('Malformed host')
 
     def update(self):
         """Called before matching and building to keep the compiled routes
@@ -1371,6 +1374,10 @@ class MapAdapter(object):
         if query_args is None:
             query_args = self.query_args
 
+        if self.subdomain == '<invalid>':
+            # requested through a host that is not part of this site
+            raise NotFound()
+
         path = u'%s|/%s' % (
             self.router.host_matching and self.server_name or
             self.subdomain, path_info.lstrip('/')
-- 
2.43.0


From 67f40b82f608b72e21f7d78869d50c406ff9d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:24 +0000
Subject: [PATCH 89/95] fix: missing headers of a request raise
 BadRequestKeyError like those of Headers

---
 verktyg/wsgi.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4e16514..ec6459a 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -23,7 +23,7 @@ from functools import partial
 from urllib.parse import quote as urlquote
 
 from verktyg.urls import uri_to_iri, encode_idna
-from verktyg import http
+from verktyg import exceptions, http
 from verktyg.http import (
     is_resource_modified, http_date, unicodify_header_value,
 )
@@ -316,10 +316,12 @@ class EnvironHeaders(http.ImmutableHeadersMixin, http.Headers):
     def __getitem__(self, key, _get_mode=False):
         # _get_mode is a no-op for this class as there is no index but
         # used because get() calls it.
-        key = key.upper().replace('-', '_')
-        if key in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
-            return unicodify_header_value(self.environ[key])
-        return unicodify_header_value(self.environ['HTTP_' + key])
+        name = key.upper().replace('-', '_')
+        if name not in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
+            name = 'HTTP_' + name
+        if name not in self.environ:
+            raise exceptions.BadRequestKeyError(key)
+        return unicodify_header_value(self.environ[name])
 
     def __len__(self):
         # the iter is necessary because otherwise list calls our
-- 
2.43.0


From aa31a2f06154a9c621a0f8667c4354ee8d95455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:27 +0000
Subject: [PATCH 90/95] fix: str() of an HTTP exception without code does not
 fail

---
 verktyg/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/exceptions.py b/verktyg/exceptions.py
index 373d2d5..c0e7e77 100644
--- a/verktyg/exceptions.py
+++ b/verktyg/exceptions.py
@@ -150,7 +150,7 @@ class HTTPException(Exception):
         return HTTP_STATUS_CODES.get(self.code, 'Unknown Error')
 
     def __str__(self):
-        return '%d: %s' % (self.code, self.name)
+        return '%s: %s' % (self.code or '???', self.name)
 
     def __repr__(self):
         return '<%s \'%s\'>' % (self.__class__.__name__, self)
-- 
2.43.0


From 3e86e6c887636f52b755ed006f5ce58e7d6d4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:39 +0000
Subject: [PATCH 91/95] fix: the environ builder wrote the content type and
 length of one request into the Headers object it was given, so that the next
 request made with it carried them as well

---
 verktyg/test.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index bce3a20..62766b4 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -336,11 +336,9 @@ class EnvironBuilder(object):
                 query_string = MultiDict(query_string)
             self.args = query_string
         self.method = method
-        if headers is None:
-            headers = Headers()
-        elif not isinstance(headers, Headers):
-            headers = Headers(headers)
-        self.headers = headers
+        # copied so that the content type and length of this request do not end
+        # up in the next one to be made with the same headers
+        self.headers = Headers(headers)
         if content_type is not None:
             self.content_type = content_type
         if errors_stream is None:
-- 
2.43.0


From d6517eeafb3d07d13d14af27e8a1f4810a477529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 92/95] fix: a semicolon behind a ? or # in the path of a
 cookie added attributes to the Set-Cookie header

---
 verktyg/http/cookies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index a8a76ac..0e0ada2 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -224,7 +224,8 @@ def dump_cookie(
     value = value.encode(charset)
 
     if path is not None:
-        path = iri_to_uri(path)
+        # a semicolon would end the attribute
+        path = iri_to_uri(path).replace(';', '%3B')
     domain = _make_cookie_domain(domain)
     if isinstance(max_age, timedelta):
         max_age = (max_age.days * 60 * 60 * 24) + max_age.seconds
-- 
2.43.0


From 988c73b0cad43d38eeb3342e2712cf534a6a6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:34 +0000
Subject: [PATCH 93/95] fix: an application that failed before it started the
 response was not closed by unbuffered runs of the test client

---
 verktyg/test.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 62766b4..11ece93 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -941,11 +941,17 @@ def run_wsgi_app(app, environ, buffered=False):
     # a new `ClosingIterator` if we need to restore a `close` callable from the
     # original return value.
     else:
-        while not response:
-            try:
-                buffer.append(next(app_iter))
-            except StopIteration:
-                break
+        try:
+            while not response:
+                try:
+                    buffer.append(next(app_iter))
+                except StopIteration:
+                    break
+        except BaseException:
+            # nobody else is going to
+            if close_func is not None:
+                close_func()
+            raise
         if buffer:
             app_iter = chain(buffer, app_iter)
         if close_func is not None and app_iter is not app_rv:
-- 
2.43.0


From 26e172581833c96d65eadc68408db135efa8970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 94/95] fix: an entity tag that reads like a date is still an
 entity tag in If-Range

---
 verktyg/http/cache_control.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 90417e7..91b2388 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -53,9 +53,11 @@ def parse_if_range_header(value):
     """
     if not value:
         return IfRange()
-    date = parse_date(value)
-    if date is not None:
-        return IfRange(date=date)
+    # an entity tag is quoted, whatever it says
+    if '"' not in value:
+        date = parse_date(value)
+        if date is not None:
+            return IfRange(date=date)
     # drop weakness information
     return IfRange(unquote_etag(value)[0])
 
-- 
2.43.0


From 1bf0d05f2614b7255ef3aae5f95f0a1cac8c12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 95/95] fix: header values that are not text, given as a list,
 were passed on to the server unconverted

---
 verktyg/http/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 411d3f6..d72f64b 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -475,7 +475,8 @@ class Headers(object):
 
         :return: list
         """
-        return list(self)
+        # a list given to the constructor is taken as it is
+        return [(key, unicodify_header_value(value)) for key, value in self]
 
     def copy(self):
         return self.__class__(self._list)
-- 
2.43.0

