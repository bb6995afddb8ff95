From 67309bd6e7349eab37fcaa410b63d85ad67c6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:20 +0000
Subject: [PATCH 01/63] fix: reject newlines in header values passed to the
 Headers constructor as a list

---
 verktyg/http/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index c83f722..0b498be 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -152,7 +152,9 @@ class Headers(object):
         self._list = []
         if defaults is not None:
             if isinstance(defaults, (list, Headers)):
-                self._list.extend(defaults)
+                for key, value in defaults:
+                    self._validate_value(unicodify_header_value(value))
+                    self._list.append((key, value))
             else:
                 self.extend(defaults)
 
-- 
2.43.0


From 8b92a3ec6d5484df298cd782fbe90afa532c5c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:19 +0000
Subject: [PATCH 02/63] fix: make immutable containers reject clear() and
 in-place union

---
 verktyg/datastructures.py | 6 ++++++
 verktyg/http/basic.py     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 4c55381..c7634f9 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -95,6 +95,9 @@ class ImmutableListMixin(object):
     def sort(self, cmp=None, key=None, reverse=None):
         is_immutable(self)
 
+    def clear(self):
+        is_immutable(self)
+
 
 class ImmutableList(ImmutableListMixin, list):
     """An immutable :class:`list`.
@@ -155,6 +158,9 @@ class ImmutableDictMixin(object):
     def clear(self):
         is_immutable(self)
 
+    def __ior__(self, other):
+        is_immutable(self)
+
 
 class ImmutableMultiDictMixin(ImmutableDictMixin):
     """Makes a :class:`MultiDict` immutable.
diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 0b498be..e3b3291 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -532,6 +532,9 @@ class ImmutableHeadersMixin(object):
     def setdefault(self, key, default):
         is_immutable(self)
 
+    def clear(self):
+        is_immutable(self)
+
 
 def dump_options_header(header, options):
     """The reverse function to :func:`parse_options_header`.
-- 
2.43.0


From 7d4de3c46ba26f7e7a30294c53eeb56c5d34d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:23 +0000
Subject: [PATCH 03/63] fix: keep multi dict views consistent after clear, |=
 and state restore

---
 verktyg/datastructures.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index c7634f9..92c58a2 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -549,6 +549,10 @@ class MultiDict(TypeConversionDict):
         for key, value in iter_multi_items(other_dict):
             MultiDict.add(self, key, value)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def pop(self, key, default=_missing):
         """Pop the first item for a list on the dict.  Afterwards the
         key is removed from the dict, so additional values are discarded:
@@ -693,7 +697,7 @@ class OrderedMultiDict(MultiDict):
         return list(self.items(multi=True))
 
     def __setstate__(self, values):
-        dict.clear(self)
+        OrderedMultiDict.clear(self)
         for key, value in values:
             self.add(key, value)
 
@@ -776,6 +780,10 @@ class OrderedMultiDict(MultiDict):
         for key, value in iter_multi_items(mapping):
             OrderedMultiDict.add(self, key, value)
 
+    def clear(self):
+        dict.clear(self)
+        self._first_bucket = self._last_bucket = None
+
     def poplist(self, key):
         buckets = dict.pop(self, key, ())
         for bucket in buckets:
-- 
2.43.0


From d0293116412b5baa13c4368125c1800c1e502d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:55 +0000
Subject: [PATCH 04/63] fix: do not leak the internal value lists from
 MultiDict.listvalues

---
 verktyg/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 92c58a2..f0cd035 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -518,7 +518,8 @@ class MultiDict(TypeConversionDict):
         True
         """
 
-        return dict.values(self)
+        for values in dict.values(self):
+            yield list(values)
 
     def copy(self):
         """Return a shallow copy of this object."""
-- 
2.43.0


From f0062b3537538e9d2d6423d670194c71730f53e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 05/63] fix: call the update callback on in-place union of
 callback dicts

---
 verktyg/datastructures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index f0cd035..6e53397 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -229,6 +229,7 @@ class UpdateDictMixin(object):
     clear = calls_update('clear')
     popitem = calls_update('popitem')
     update = calls_update('update')
+    __ior__ = calls_update('__ior__')
     del calls_update
 
 
-- 
2.43.0


From 36edff8d6e84a1bd1730ca63a38178fbfde6dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:26 +0000
Subject: [PATCH 06/63] fix: allow setting an absent cache control directive to
 None

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index b94f52c..e190f00 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -332,7 +332,7 @@ class _CacheControl(datastructures.UpdateDictMixin, dict):
                 self.pop(key, None)
         else:
             if value is None:
-                self.pop(key)
+                self.pop(key, None)
             elif value is True:
                 self[key] = None
             else:
-- 
2.43.0


From aa8e58b3eb60a0c72ded382760c2e2c158e16cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:28 +0000
Subject: [PATCH 07/63] fix: keep the two stores of a header set in agreement

---
 verktyg/http/basic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index e3b3291..e6c2045 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -975,8 +975,10 @@ class HeaderSet(object):
     """
 
     def __init__(self, headers=None, on_update=None):
-        self._headers = list(headers or ())
-        self._set = set([x.lower() for x in self._headers])
+        self._headers = []
+        self._set = set()
+        self.on_update = None
+        self.update(headers or ())
         self.on_update = on_update
 
     def add(self, header):
@@ -995,7 +997,7 @@ class HeaderSet(object):
             raise KeyError(header)
         self._set.remove(key)
         for idx, key in enumerate(self._headers):
-            if key.lower() == header:
+            if key.lower() == header.lower():
                 del self._headers[idx]
                 break
         if self.on_update is not None:
-- 
2.43.0


From 4327393ff8ba3d87b0d18171aa6f6f76f8c57814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:46 +0000
Subject: [PATCH 08/63] fix: count encoded bytes when computing Content-Length
 of text bodies

---
 verktyg/responses.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index e6e434b..0a93e76 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -344,7 +344,7 @@ class BaseResponse(object):
             self._ensure_sequence()
         except RuntimeError:
             return None
-        return sum(len(x) for x in self.response)
+        return sum(len(x) for x in self.iter_encoded())
 
     def _ensure_sequence(self, mutable=False):
         """This method can be called by methods that need a sequence.  If
@@ -560,14 +560,14 @@ class BaseResponse(object):
 
         # if we can determine the content length automatically, we
         # should try to do that.  But only if this does not involve
-        # flattening the iterator or encoding of unicode strings in
-        # the response.  We however should not do that if we have a 304
+        # flattening the iterator.  Text items count with their encoded
+        # length.  We however should not do that if we have a 304
         # response.
         if (
             self.automatically_set_content_length and
             self.is_sequence and content_length is None and status != 304
         ):
-            content_length = sum(len(x) for x in self.response)
+            content_length = sum(len(x) for x in self.iter_encoded())
             headers['Content-Length'] = str(content_length)
 
         return headers
-- 
2.43.0


From 4a9d8b382b794d9d751e5c9e3c9154d798011ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:19 +0000
Subject: [PATCH 09/63] fix: include the values of all parts in
 CombinedMultiDict.to_dict(flat=False)

---
 verktyg/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 6e53397..77932eb 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -937,6 +937,8 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         :return:
             A :class:`dict`
         """
+        if not flat:
+            return dict(self.lists())
         rv = {}
         for d in reversed(self.dicts):
             rv.update(d.to_dict(flat))
-- 
2.43.0


From a166a198fc153dcc57ba879b94bcc3345f0e85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:43 +0000
Subject: [PATCH 10/63] fix: keep LimitedStream within its limit for negative
 read sizes

---
 verktyg/wsgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 4b15444..2aecd76 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -869,7 +869,7 @@ class LimitedStream(object):
         """
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None or size == -1:  # -1 is for consistence with file
+        if size is None or size < 0:  # for consistence with file
             size = self.limit
         to_read = min(self.limit - self._pos, size)
         try:
@@ -885,7 +885,7 @@ class LimitedStream(object):
         """Reads one line from the stream."""
         if self._pos >= self.limit:
             return self.on_exhausted()
-        if size is None:
+        if size is None or size < 0:  # for consistence with file
             size = self.limit - self._pos
         else:
             size = min(size, self.limit - self._pos)
-- 
2.43.0


From 4b8d5f212bedddb866389a0938a079061a872133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:45 +0000
Subject: [PATCH 11/63] fix: match subdomains of trusted hosts and reject
 malformed host names

host_is_trusted compared bytes with text for entries starting with a dot,
let the exception of an unencodable host name escape, took whatever
follows the last colon for a port, trusting 'name:x@elsewhere', and
trusted 'elsewhere/.name' as a subdomain.
---
 verktyg/wsgi.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 2aecd76..1a5fc0e 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -116,15 +116,23 @@ def host_is_trusted(hostname, trusted_list):
     if not hostname:
         return False
 
+    # Would end the host part of a url built from the name.
+    if any(char in hostname for char in '/?#@\\'):
+        return False
+
     if isinstance(trusted_list, str):
         trusted_list = [trusted_list]
 
     def _normalize(hostname):
-        if ':' in hostname:
-            hostname = hostname.rsplit(':', 1)[0]
+        name, sep, port = hostname.rpartition(':')
+        if sep and (not port or port.isdigit()):
+            hostname = name
         return encode_idna(hostname)
 
-    hostname = _normalize(hostname)
+    try:
+        hostname = _normalize(hostname)
+    except UnicodeError:
+        return False
     for ref in trusted_list:
         if ref.startswith('.'):
             ref = ref[1:]
@@ -134,7 +142,7 @@ def host_is_trusted(hostname, trusted_list):
         ref = _normalize(ref)
         if ref == hostname:
             return True
-        if suffix_match and hostname.endswith('.' + ref):
+        if suffix_match and hostname.endswith(b'.' + ref):
             return True
     return False
 
-- 
2.43.0


From e532ceccedd1247710e8a11a936c1d8071727da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 12/63] fix: return the result of Request.is_secure and None
 for an absent Max-Forwards

---
 verktyg/requests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/requests.py b/verktyg/requests.py
index 6965d3b..3b2a841 100644
--- a/verktyg/requests.py
+++ b/verktyg/requests.py
@@ -435,7 +435,7 @@ class BaseRequest(object):
     def is_secure(self):
         """`True` if the request is made over an encrypted connection
         """
-        self.environ['wsgi.url_scheme'] == 'https',
+        return self.environ['wsgi.url_scheme'] == 'https'
 
     @property
     def is_multithread(self):
@@ -616,7 +616,7 @@ class CommonRequestDescriptorsMixin(object):
         """
         try:
             return int(self.environ.get('HTTP_MAX_FORWARDS'))
-        except ValueError:
+        except (TypeError, ValueError):
             return None
 
     def _parse_content_type(self):
-- 
2.43.0


From ba5a2e18384294da27d357093903f50f3a070754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:36 +0000
Subject: [PATCH 13/63] fix: do not close a response twice when the server
 closes the iterator early

---
 verktyg/application.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/application.py b/verktyg/application.py
index 385ff31..f34aff4 100644
--- a/verktyg/application.py
+++ b/verktyg/application.py
@@ -89,7 +89,10 @@ class BaseApplication(object):
     def _wsgi_inner(self, wsgi_env, start_response):
         with self.request_class(wsgi_env) as request:
             with self._get_response(request) as response:
-                yield from response(wsgi_env, start_response)
+                # Not ``yield from``: closing this generator would be passed
+                # on to the iterator, which also closes the response.
+                for item in response(wsgi_env, start_response):
+                    yield item
 
     def __call__(self, wsgi_env, start_response):
         wsgi_env['verktyg.application'] = self
-- 
2.43.0


From c90aed0e53042dcd35fb0518020821b91ece123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:53 +0000
Subject: [PATCH 14/63] fix: negotiate language and charset against their own
 accept headers

---
 verktyg/accept/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 2d93257..e575b5f 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -172,13 +172,13 @@ class Representation(object):
         )
 
         language_acceptability = (
-            self._content_type.acceptability(accept)
+            self._language.acceptability(accept_language)
             if self._language is not None else
             None
         )
 
         charset_acceptability = (
-            self._charset.acceptability
+            self._charset.acceptability(accept_charset)
             if self._charset is not None else
             None
         )
-- 
2.43.0


From 8592be55d17f16e14bd38db5dab04bb5f18185a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:16 +0000
Subject: [PATCH 15/63] fix: compare acceptabilities one dimension after the
 other

---
 verktyg/accept/__init__.py | 12 ++++++++++++
 verktyg/accept/_base.py    |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index e575b5f..2dcb040 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -64,14 +64,26 @@ class Acceptability(object):
                 self._content_type_acceptability,
                 other._content_type_acceptability):
             return True
+        if _gt(
+                other._content_type_acceptability,
+                self._content_type_acceptability):
+            return False
         if _gt(
                 self._language_acceptability,
                 other._language_acceptability):
             return True
+        if _gt(
+                other._language_acceptability,
+                self._language_acceptability):
+            return False
         if _gt(
                 self._charset_acceptability,
                 other._charset_acceptability):
             return True
+        if _gt(
+                other._charset_acceptability,
+                self._charset_acceptability):
+            return False
         if _gt(
                 self._qs,
                 other._qs):
diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index eaca9ff..79f4835 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -170,6 +170,9 @@ class Acceptability(object):
         if self._match_quality > other._match_quality:
             return True
 
+        if self._match_quality < other._match_quality:
+            return False
+
         if self.quality > other.quality:
             return True
 
-- 
2.43.0


From 42b1927a120afcb92bcab930457b439e2c25d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:17 +0000
Subject: [PATCH 16/63] fix: do not accept values that the client has given a
 quality of zero

---
 verktyg/accept/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/accept/_base.py b/verktyg/accept/_base.py
index 79f4835..144e48b 100644
--- a/verktyg/accept/_base.py
+++ b/verktyg/accept/_base.py
@@ -215,7 +215,7 @@ class Value(object):
                 if best_match is None or match > best_match:
                     best_match = match
 
-        if best_match is None:
+        if best_match is None or best_match._q == 0:
             raise NotAcceptable()
 
         return best_match
-- 
2.43.0


From 4bb5f8de0a00c45b9229291ce3d71f2e71b3ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:19 +0000
Subject: [PATCH 17/63] fix: yield handlers rather than exception classes when
 nesting exception dispatchers

---
 verktyg/exception_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/exception_dispatch.py b/verktyg/exception_dispatch.py
index 6634a21..1e731d2 100644
--- a/verktyg/exception_dispatch.py
+++ b/verktyg/exception_dispatch.py
@@ -77,7 +77,8 @@ class ExceptionDispatcher(ExceptionHandlerFactory):
                 self._handlers[handler.exception_class].append(handler)
 
     def get_exception_handlers(self):
-        return iter(self._handlers)
+        for handlers in self._handlers.values():
+            yield from handlers
 
     def lookup(
         self, exception_class,
-- 
2.43.0


From c3981f48057c2070cbfd9c21eb932afefaab15b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:42 +0000
Subject: [PATCH 18/63] fix: ignore malformed accept headers instead of raising
 ValueError

---
 verktyg/accept/__init__.py     | 20 +++++++++++++++++---
 verktyg/accept/content_type.py |  8 ++++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/verktyg/accept/__init__.py b/verktyg/accept/__init__.py
index 2dcb040..1cb62cd 100644
--- a/verktyg/accept/__init__.py
+++ b/verktyg/accept/__init__.py
@@ -91,6 +91,16 @@ class Acceptability(object):
         return False
 
 
+def _parse_or_any(parse, header, wildcard):
+    """Parses an accept header sent by a client.  Malformed headers are treated
+    as if they had not been sent.
+    """
+    try:
+        return parse(header)
+    except ValueError:
+        return parse(wildcard)
+
+
 def select_representation(
     representations,
     accept='*/*', accept_language='*', accept_charset='*'
@@ -101,17 +111,21 @@ def select_representation(
     if accept is None:
         accept = '*/*'
     if isinstance(accept, str):
-        accept = parse_accept_header(accept)
+        accept = _parse_or_any(parse_accept_header, accept, '*/*')
 
     if accept_language is None:
         accept_language = '*'
     if isinstance(accept_language, str):
-        accept_language = parse_accept_language_header(accept_language)
+        accept_language = _parse_or_any(
+            parse_accept_language_header, accept_language, '*'
+        )
 
     if accept_charset is None:
         accept_charset = '*'
     if isinstance(accept_charset, str):
-        accept_charset = parse_accept_charset_header(accept_charset)
+        accept_charset = _parse_or_any(
+            parse_accept_charset_header, accept_charset, '*'
+        )
 
     for representation in representations:
         try:
diff --git a/verktyg/accept/content_type.py b/verktyg/accept/content_type.py
index a4837ac..c1cbc24 100644
--- a/verktyg/accept/content_type.py
+++ b/verktyg/accept/content_type.py
@@ -55,12 +55,12 @@ class _ContentTypeRange(_base.Range):
 
     @property
     def type(self):
-        type, _ = self.value.split('/')
+        type, _ = self.value.split('/', 1)
         return type
 
     @property
     def subtype(self):
-        _, subtype = self.value.split('/')
+        _, subtype = self.value.split('/', 1)
         return subtype
 
 
@@ -103,12 +103,12 @@ class ContentType(_base.Value):
 
     @property
     def type(self):
-        type, _ = self.value.split('/')
+        type, _ = self.value.split('/', 1)
         return type
 
     @property
     def subtype(self):
-        _, subtype = self.value.split('/')
+        _, subtype = self.value.split('/', 1)
         return subtype
 
     def _acceptability_for_option(self, option):
-- 
2.43.0


From a63697ef63351f5a3ec7a78ce098b1837a7db3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:51 +0000
Subject: [PATCH 19/63] fix: do not require a debug attribute on the
 application in JsonView

---
 verktyg/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/views.py b/verktyg/views.py
index 24e52cd..b541e27 100644
--- a/verktyg/views.py
+++ b/verktyg/views.py
@@ -89,7 +89,7 @@ class JsonView(View):
             # no content
             return Response(status=204)
 
-        if env.debug:
+        if getattr(env, 'debug', False):
             json_response = json.dumps(res, indent=4)
         else:
             json_response = json.dumps(res, separators=(',', ':'))
-- 
2.43.0


From 17e3c427025a0421ccdb10e8f9ae4748e9805bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:24 +0000
Subject: [PATCH 20/63] fix: do not match paths with a trailing line break

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 2fe0b86..daf3775 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -627,7 +627,7 @@ class Route(RouteFactory):
 
         if self.build_only:
             return
-        regex = r'^%s%s$' % (
+        regex = r'^%s%s\Z' % (
             u''.join(regex_parts),
             '(?<!/)(?P<__suffix__>/?)'
             if (not self.is_leaf or not self.strict_slashes)
-- 
2.43.0


From ac87d5f4e7e1cd673ad60d5e6fda7a227137e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 21/63] fix: treat numbers that cannot be converted as not
 matching

---
 verktyg/routing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index daf3775..ffd2f3e 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -906,7 +906,11 @@ class NumberConverter(BaseConverter):
     def to_python(self, value):
         if (self.fixed_digits and len(value) != self.fixed_digits):
             raise ValidationError()
-        value = self.num_convert(value)
+        try:
+            value = self.num_convert(value)
+        except ValueError:
+            # int refuses texts with too many digits
+            raise ValidationError()
         if (
             (self.min is not None and value < self.min) or
             (self.max is not None and value > self.max)
-- 
2.43.0


From e18a5e8f7d193a6f44c791d9a584ef8c2d3d5231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 22/63] fix: build URLs from byte values

---
 verktyg/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index ffd2f3e..fe4d10f 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -812,7 +812,9 @@ class BaseConverter(object):
         return value
 
     def to_url(self, value):
-        if not isinstance(value, (str, bytes)):
+        if isinstance(value, bytes):
+            return urlquote(value, safe='/:')
+        if not isinstance(value, str):
             value = str(value)
         return urlquote(value, encoding=self.router.charset, safe='/:')
 
-- 
2.43.0


From ad8bf64b9d476b100e0ddf160431b74d6bc1111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:44 +0000
Subject: [PATCH 23/63] fix: quote the URL text of uuid values

---
 verktyg/routing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index fe4d10f..c259416 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -986,9 +986,6 @@ class UUIDConverter(BaseConverter):
     def to_python(self, value):
         return uuid.UUID(value)
 
-    def to_url(self, value):
-        return str(value)
-
 
 #: the default converter mapping for the router.
 DEFAULT_CONVERTERS = {
-- 
2.43.0


From 6d94cd997b03057146453de8563eee4d314794a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:44 +0000
Subject: [PATCH 24/63] fix: do not read converter arguments like 1,2 as one
 number

---
 verktyg/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index c259416..f8a4b14 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -122,8 +122,8 @@ _converter_args_re = re.compile(r'''
     ((?P<name>\w+)\s*=\s*)?
     (?P<value>
         True|False|
-        \d+.\d+|
-        \d+.|
+        \d+\.\d+|
+        \d+\.|
         \d+|
         \w+|
         [urUR]?(?P<stringval>"[^"]*?"|'[^']*')
-- 
2.43.0


From b2a2a14d01363bcd09167bb8ede9e0aa826f2e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:57 +0000
Subject: [PATCH 25/63] fix: build URLs from multi dicts

---
 verktyg/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index f8a4b14..9b18089 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1534,7 +1534,7 @@ class MapAdapter(object):
         self.router.update()
         if values:
             if isinstance(values, MultiDict):
-                valueiter = values.iteritems(multi=True)
+                valueiter = values.items(multi=True)
             else:
                 valueiter = values.items()
             values = dict((k, v) for k, v in valueiter if v is not None)
-- 
2.43.0


From e7334a9ec004eaf4d6972ce6a95b66eaee5c6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:57 +0000
Subject: [PATCH 26/63] fix: append all values of a list to the query of a
 built URL

---
 verktyg/routing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 9b18089..4dbfdc9 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -94,6 +94,7 @@
 import re
 import uuid
 import posixpath
+from operator import itemgetter
 from urllib.parse import (
     urlencode, quote as urlquote, urljoin,
     urlunparse, ParseResult
@@ -707,7 +708,10 @@ class Route(RouteFactory):
 
             if query_vars:
                 url += u'?' + urlencode(
-                    sorted(query_vars.items(), key=self.router.sort_key),
+                    sorted(
+                        query_vars.items(multi=True),
+                        key=self.router.sort_key or itemgetter(0),
+                    ),
                     encoding=self.router.charset,
                 )
 
-- 
2.43.0


From 46f175faff773a07ccbbd0e03efb8df4fd00b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 27/63] fix: keep redirect target, alias and host of routes in
 route templates

---
 verktyg/routing.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 4dbfdc9..68131ff 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -399,13 +399,22 @@ class RouteTemplateFactory(RouteFactory):
                 new_endpoint = route.endpoint
                 if isinstance(new_endpoint, str):
                     new_endpoint = new_endpoint.format(**self.context)
+                redirect_to = route.redirect_to
+                if isinstance(redirect_to, str):
+                    redirect_to = redirect_to.format(**self.context)
+                host = route.host
+                if host is not None:
+                    host = host.format(**self.context)
                 yield Route(
                     route.route.format(**self.context),
                     new_defaults,
                     subdomain,
                     route.build_only,
                     new_endpoint,
-                    route.strict_slashes
+                    route.strict_slashes,
+                    redirect_to,
+                    route.alias,
+                    host,
                 )
 
 
-- 
2.43.0


From dec0638931edb4eb5f2033b6959a902f15ce9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 28/63] fix: copy the parts of a combined multi dict when
 copying deeply

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index 77932eb..e84a8eb 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -925,6 +925,10 @@ class CombinedMultiDict(ImmutableMultiDictMixin, MultiDict):
         """Return a shallow copy of this object."""
         return self.__class__(self.dicts[:])
 
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(deepcopy(self.dicts, memo))
+
     def to_dict(self, flat=True):
         """Return the contents as regular dict.  If `flat` is `True` the
         returned dict will only have the first item present, if `flat` is
-- 
2.43.0


From 2c5054c5fa830bb93ff3c182dae61b898656f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 29/63] fix: keep the order in deep copies of ordered multi
 dicts

---
 verktyg/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index e84a8eb..ee0d197 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -692,6 +692,10 @@ class OrderedMultiDict(MultiDict):
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    def deepcopy(self, memo=None):
+        """Return a deep copy of this object."""
+        return self.__class__(deepcopy(list(self.items(multi=True)), memo))
+
     def __reduce_ex__(self, protocol):
         return type(self), (list(self.items(multi=True)),)
 
-- 
2.43.0


From 8a11ae8ebe87d6914c3ab816e2511fb0e2219ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 30/63] fix: report ordered multi dicts as unequal to other
 objects

---
 verktyg/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/datastructures.py b/verktyg/datastructures.py
index ee0d197..e583bc0 100644
--- a/verktyg/datastructures.py
+++ b/verktyg/datastructures.py
@@ -690,7 +690,8 @@ class OrderedMultiDict(MultiDict):
         return True
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        rv = self.__eq__(other)
+        return rv if rv is NotImplemented else not rv
 
     def deepcopy(self, memo=None):
         """Return a deep copy of this object."""
-- 
2.43.0


From 89c89ba518480611a6447e2036d14afc8bcb9ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:15 +0000
Subject: [PATCH 31/63] fix: match the root URL when no path info was bound

---
 verktyg/routing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 68131ff..6d1744f 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1352,6 +1352,8 @@ class MapAdapter(object):
         self.router.update()
         if path_info is None:
             path_info = self.path_info
+        if path_info is None:
+            path_info = '/'
         if query_args is None:
             query_args = self.query_args
 
-- 
2.43.0


From 3d3bb42e47d7abbfae59a2c1c37b1a8736022742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:15 +0000
Subject: [PATCH 32/63] fix: encode query arguments of redirects in the charset
 of the map

---
 verktyg/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 6d1744f..c7ce8f3 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1465,7 +1465,9 @@ class MapAdapter(object):
 
     def encode_query_args(self, query_args):
         if not isinstance(query_args, str):
-            query_args = urlencode(query_args, self.router.charset)
+            query_args = urlencode(
+                query_args, doseq=True, encoding=self.router.charset,
+            )
         return query_args
 
     def make_redirect_url(self, path_info, query_args=None, domain_part=None):
-- 
2.43.0


From 27b4c65aeebd403605e33cad93548772794b8576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:15 +0000
Subject: [PATCH 33/63] fix: apply encoding_errors of the map when binding to
 an environment

---
 verktyg/routing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index c7ce8f3..742cf38 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1239,7 +1239,9 @@ class URLMap(object):
         def _get_wsgi_string(name):
             val = environ.get(name)
             if val is not None:
-                return wsgi_decoding_dance(val, self.charset)
+                return wsgi_decoding_dance(
+                    val, self.charset, self.encoding_errors,
+                )
 
         script_name = _get_wsgi_string('SCRIPT_NAME')
         path_info = _get_wsgi_string('PATH_INFO')
-- 
2.43.0


From 060b945990ff3b125943ed671c8dbd02d05eb95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:15 +0000
Subject: [PATCH 34/63] fix: skip the default redirect when the canonical route
 cannot be built

---
 verktyg/routing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 742cf38..8f3d3ee 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1460,8 +1460,10 @@ class MapAdapter(object):
                 r.provides_defaults_for(route) and
                 r.suitable_for(values)
             ):
-                values.update(r.defaults)
-                domain_part, path = r.build(values)
+                rv = r.build(dict(values, **r.defaults))
+                if rv is None:
+                    continue
+                domain_part, path = rv
                 return self.make_redirect_url(
                     path, query_args, domain_part=domain_part)
 
-- 
2.43.0


From 6683b68228d818a02508b649485e62489c28020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 35/63] fix: keep redirect targets made from URL values on the
 same host

---
 verktyg/routing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 8f3d3ee..26a7069 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -97,7 +97,7 @@ import posixpath
 from operator import itemgetter
 from urllib.parse import (
     urlencode, quote as urlquote, urljoin,
-    urlunparse, ParseResult
+    urlparse, urlunparse, ParseResult
 )
 
 from pprint import pformat
@@ -1393,6 +1393,13 @@ class MapAdapter(object):
                     redirect_url = _simple_route_re.sub(
                         _handle_match, route.redirect_to,
                     )
+                    if (
+                        not urlparse(route.redirect_to).scheme and
+                        not route.redirect_to.startswith('/')
+                    ):
+                        # Values from the URL must not be taken for the
+                        # scheme or the host of the target.
+                        redirect_url = './' + redirect_url
                 else:
                     redirect_url = route.redirect_to(self, **rv)
                 raise RequestRedirect(str(urljoin('%s://%s%s%s' % (
-- 
2.43.0


From 0e7c03a79c5e2646362e8c22013f6faa80035f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 36/63] fix: do not unquote the items of list and dict headers
 twice

---
 verktyg/http/basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index e6c2045..961138e 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -617,7 +617,8 @@ def parse_list_header(value):
     result = []
     for item in _parse_list_header(value):
         if item[:1] == item[-1:] == '"':
-            item = unquote_header_value(item[1:-1])
+            # backslash escapes have already been resolved
+            item = item[1:-1]
         result.append(item)
     return result
 
@@ -658,7 +659,8 @@ def parse_dict_header(value, cls=dict):
             continue
         name, value = item.split('=', 1)
         if value[:1] == value[-1:] == '"':
-            value = unquote_header_value(value[1:-1])
+            # backslash escapes have already been resolved
+            value = value[1:-1]
         result[name] = value
     return result
 
-- 
2.43.0


From 377227c71b89d029da7159eb02db2c1c59f7cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 37/63] fix: quote empty header values

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 961138e..3bf69ea 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -78,7 +78,7 @@ def quote_header_value(value, extra_chars='', allow_token=True):
     value = str(value)
     if allow_token:
         token_chars = _token_chars | set(extra_chars)
-        if set(value).issubset(token_chars):
+        if value and set(value).issubset(token_chars):
             return value
     return '"%s"' % value.replace('\\', '\\\\').replace('"', '\\"')
 
-- 
2.43.0


From 4b5a7283cd1a338b8e31682566b6a388e5e4a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 38/63] fix: accept option headers without a value

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 3bf69ea..d190a8b 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -693,7 +693,7 @@ def parse_options_header(value):
         return '', {}
 
     parts = _tokenize(';' + value)
-    name = next(parts)[0]
+    name = next(parts, ('', None))[0]
     extra = dict(parts)
     return name, extra
 
-- 
2.43.0


From edfafa0f5c5083bbc3dbdb12252e6b6854bd3417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:10 +0000
Subject: [PATCH 39/63] fix: return None for malformed range headers

---
 verktyg/http/cache_control.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index e190f00..6342af4 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -134,21 +134,28 @@ def parse_range_header(value, make_inclusive=True):
         if item.startswith('-'):
             if last_end < 0:
                 return None
-            begin = int(item)
+            try:
+                begin = int(item)
+            except ValueError:
+                return None
             end = None
             last_end = -1
         elif '-' in item:
             begin, end = item.split('-', 1)
-            begin = int(begin)
+            try:
+                begin = int(begin)
+                end = int(end) + 1 if end else None
+            except ValueError:
+                return None
             if begin < last_end or last_end < 0:
                 return None
-            if end:
-                end = int(end) + 1
+            if end is None:
+                # nothing can follow an open ended range
+                last_end = -1
+            else:
                 if begin >= end:
                     return None
-            else:
-                end = None
-            last_end = end
+                last_end = end
         ranges.append((begin, end))
 
     return Range(units, ranges)
-- 
2.43.0


From 3034b70deb60c14068aa1275f95059a9b12b81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:10 +0000
Subject: [PATCH 40/63] fix: return None for content range headers with
 malformed length

---
 verktyg/http/cache_control.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 6342af4..2e1c6dc 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -260,7 +260,10 @@ def parse_content_range_header(value, on_update=None):
     if length == '*':
         length = None
     elif length.isdigit():
-        length = int(length)
+        try:
+            length = int(length)
+        except ValueError:
+            return None
     else:
         return None
 
-- 
2.43.0


From b792ad07d020b4d65304c4ffab10e1dbb24221a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:01 +0000
Subject: [PATCH 41/63] fix: do not loop forever on etag headers ending in a
 line feed

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index 2e1c6dc..a59ac9a 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -16,7 +16,7 @@ from verktyg.http.basic import (
 )
 
 
-_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|$)')
+_etag_re = re.compile(r'([Ww]/)?(?:"(.*?)"|(.*?))(?:\s*,\s*|\Z)')
 
 
 class IfRange(object):
-- 
2.43.0


From df4055bee6d3a0e1af4d6599d1a27e7a442914c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:02 +0000
Subject: [PATCH 42/63] fix: parse empty quoted etags as empty etags

---
 verktyg/http/cache_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/cache_control.py b/verktyg/http/cache_control.py
index a59ac9a..e548144 100644
--- a/verktyg/http/cache_control.py
+++ b/verktyg/http/cache_control.py
@@ -575,7 +575,7 @@ def parse_etags(value):
         is_weak, quoted, raw = match.groups()
         if raw == '*':
             return ETags(star_tag=True)
-        elif quoted:
+        elif quoted is not None:
             raw = quoted
         if is_weak:
             weak.append(raw)
-- 
2.43.0


From 434d0d06e724dd1c7cd6531426d22f9de700d264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:34 +0000
Subject: [PATCH 43/63] fix: apply the error handling asked for when decoding
 cookies

---
 verktyg/http/cookies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verktyg/http/cookies.py b/verktyg/http/cookies.py
index 95bab83..be3dde9 100644
--- a/verktyg/http/cookies.py
+++ b/verktyg/http/cookies.py
@@ -188,8 +188,8 @@ def parse_cookie(header, charset='utf-8', errors='replace', cls=None):
 
     def _parse_pairs():
         for key, val in _cookie_parse_impl(header):
-            key = key.decode(charset)
-            val = val.decode(charset)
+            key = key.decode(charset, errors)
+            val = val.decode(charset, errors)
             yield key, val
 
     return cls(_parse_pairs())
-- 
2.43.0


From a985bc70223ba81b1c53a7c6e85ec71c5e713ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 44/63] fix: accept a list of disallow rules in
 SharedDataMiddleware

---
 verktyg/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index 1a5fc0e..cddc00c 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -407,7 +407,10 @@ class SharedDataMiddleware(object):
             self.exports[key] = loader
         if disallow is not None:
             from fnmatch import fnmatch
-            self.is_allowed = lambda x: not fnmatch(x, disallow)
+            if isinstance(disallow, str):
+                disallow = [disallow]
+            self.is_allowed = lambda x: not any(
+                fnmatch(x, pattern) for pattern in disallow)
         self.fallback_mimetype = fallback_mimetype
 
     def is_allowed(self, filename):
-- 
2.43.0


From a709b47c3ef8828b55ad8714c9c34a015ff03a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 45/63] fix: accept an empty status line as an unknown status

---
 verktyg/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/responses.py b/verktyg/responses.py
index 0a93e76..9f816fd 100644
--- a/verktyg/responses.py
+++ b/verktyg/responses.py
@@ -300,7 +300,7 @@ class BaseResponse(object):
         self._status = value
         try:
             self._status_code = int(self._status.split(None, 1)[0])
-        except ValueError:
+        except (ValueError, IndexError):
             self._status_code = 0
             self._status = '0 %s' % self._status
     status = property(_get_status, _set_status, doc='The HTTP Status code')
-- 
2.43.0


From 6bd721a149a1bff604480a0dd698a22f0ba1acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 46/63] fix: keep written data when buffering an application
 response

---
 verktyg/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f6d2fd1..74b8522 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -928,7 +928,9 @@ def run_wsgi_app(app, environ, buffered=False):
     # application iterator into a regular list
     if buffered:
         try:
-            app_iter = list(app_iter)
+            for item in app_iter:
+                buffer.append(item)
+            app_iter = buffer
         finally:
             if close_func is not None:
                 close_func()
-- 
2.43.0


From 06578d9f8e636fbb76b8a92bc97d4c5f77ea8218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 47/63] fix: give exceptions without a status code a string
 form

---
 verktyg/exceptions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/exceptions.py b/verktyg/exceptions.py
index 373d2d5..69e57a0 100644
--- a/verktyg/exceptions.py
+++ b/verktyg/exceptions.py
@@ -150,7 +150,9 @@ class HTTPException(Exception):
         return HTTP_STATUS_CODES.get(self.code, 'Unknown Error')
 
     def __str__(self):
-        return '%d: %s' % (self.code, self.name)
+        return '%s: %s' % (
+            '???' if self.code is None else self.code, self.name
+        )
 
     def __repr__(self):
         return '<%s \'%s\'>' % (self.__class__.__name__, self)
-- 
2.43.0


From 7d45297948a538b656ff8ca4e8853402406401a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 48/63] fix: initialise the HTTP exception behind a redirect

---
 verktyg/routing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 26a7069..766d6b6 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -220,6 +220,7 @@ class RequestRedirect(HTTPException, RoutingException):
     code = 301
 
     def __init__(self, new_url):
+        HTTPException.__init__(self)
         RoutingException.__init__(self, new_url)
         self.new_url = new_url
 
-- 
2.43.0


From 0e0d695ea81c6a5f5a200769649aa86449f0c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:02 +0000
Subject: [PATCH 49/63] fix: keep escaped delimiters when converting a URI to
 an IRI

---
 verktyg/urls.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/verktyg/urls.py b/verktyg/urls.py
index 983173b..2740cfe 100644
--- a/verktyg/urls.py
+++ b/verktyg/urls.py
@@ -19,6 +19,9 @@ _hextobyte = dict(
     for a in _hexdigits for b in _hexdigits
 )
 
+# characters that `urlsplit` removes, wherever they are in an url
+_stripped = '\t\n\r'
+
 
 def _safe_urlunquote_to_bytes(string, unsafe=''):
     if isinstance(string, str):
@@ -141,14 +144,14 @@ def uri_to_iri(uri, errors='replace'):
     if uri.username or uri.password:
         if uri.username:
             username = _safe_urlunquote(
-                uri.username, errors='strict', unsafe='/:%'
+                uri.username, errors='strict', unsafe='/:%?#[]@' + _stripped
             )
         else:
             username = ''
 
         if uri.password:
             password = _safe_urlunquote(
-                uri.password, errors='strict', unsafe='/:%'
+                uri.password, errors='strict', unsafe='/:%?#[]@' + _stripped
             )
             auth = '%s:%s' % (username, password)
         else:
@@ -157,13 +160,13 @@ def uri_to_iri(uri, errors='replace'):
         netloc = '%s@%s' % (auth, netloc)
 
     path = _safe_urlunquote(
-        uri.path, errors=errors, unsafe='%/;?'
+        uri.path, errors=errors, unsafe='%/;?#' + _stripped
     )
     query = _safe_urlunquote(
-        uri.query, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.query, errors=errors, unsafe='%;/?:@&=+,$#' + _stripped
     )
     fragment = _safe_urlunquote(
-        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#'
+        uri.fragment, errors=errors, unsafe='%;/?:@&=+,$#' + _stripped
     )
     return urlunsplit(
         (uri.scheme, netloc, path, query, fragment)
-- 
2.43.0


From f29ac5f5d36836d34ba32fad91f2b24d814eeb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:01 +0000
Subject: [PATCH 50/63] fix: escape the path in append_slash_redirect

---
 verktyg/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index ad20122..b2beffe 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -228,7 +228,10 @@ def append_slash_redirect(environ, code=301):
     :param code:
         The status code for the redirect.
     """
-    new_path = environ['PATH_INFO'].strip('/') + '/'
+    from urllib.parse import quote
+    from verktyg.wsgi import wsgi_get_bytes
+
+    new_path = quote(wsgi_get_bytes(environ['PATH_INFO']).strip(b'/')) + '/'
     query_string = environ.get('QUERY_STRING')
     if query_string:
         new_path += '?' + query_string
-- 
2.43.0


From ac87b12b2c1acdd27b907ec688843d8bbf7cf2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:25 +0000
Subject: [PATCH 51/63] fix: append the slash to the script name if the path is
 empty

---
 verktyg/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/utils.py b/verktyg/utils.py
index b2beffe..bae1719 100644
--- a/verktyg/utils.py
+++ b/verktyg/utils.py
@@ -231,7 +231,8 @@ def append_slash_redirect(environ, code=301):
     from urllib.parse import quote
     from verktyg.wsgi import wsgi_get_bytes
 
-    new_path = quote(wsgi_get_bytes(environ['PATH_INFO']).strip(b'/')) + '/'
+    path = wsgi_get_bytes(environ['PATH_INFO']).strip(b'/')
+    new_path = (quote(path) or '.') + '/'
     query_string = environ.get('QUERY_STRING')
     if query_string:
         new_path += '?' + query_string
-- 
2.43.0


From 79336bea24e28c5cf9d136c55c646127548de607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 52/63] fix: write multipart values once, after the headers of
 their part

---
 verktyg/test.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 74b8522..dc13e37 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -98,12 +98,11 @@ def stream_encode_multipart(
                         break
                     write_binary(chunk)
             else:
+                write('\r\n\r\n')
                 if isinstance(value, str):
                     write(value)
                 else:
                     write_binary(value)
-                write('\r\n\r\n')
-                write_binary(value)
             write('\r\n')
     write('--%s--\r\n' % boundary)
 
-- 
2.43.0


From aae41f9e92cbc0f24c581a3b13af1372c34719ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 53/63] fix: send every value of a key from the environ builder

---
 verktyg/test.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index dc13e37..0ee9799 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -484,7 +484,9 @@ class EnvironBuilder(object):
     def _get_query_string(self):
         if self._query_string is None:
             if self._args is not None:
-                return urlencode(self._args, encoding=self.charset)
+                return urlencode(
+                    list(_iter_data(self._args)), encoding=self.charset
+                )
             return ''
         return self._query_string
 
@@ -570,7 +572,9 @@ class EnvironBuilder(object):
             )
             content_type += '; boundary="%s"' % boundary
         elif content_type == 'application/x-www-form-urlencoded':
-            values = urlencode(self.form, encoding=self.charset)
+            values = urlencode(
+                list(_iter_data(self.form)), encoding=self.charset
+            )
             values = values.encode('ascii')
             content_length = len(values)
             input_stream = BytesIO(values)
-- 
2.43.0


From ede8bc7be2f5d5dae6410841fc31b7f6f98b92cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 54/63] fix: allow redirects to subdomains in the test client

---
 verktyg/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index 0ee9799..ca6e27e 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -722,7 +722,9 @@ class Client(object):
         real_server_name = get_host(environ).rsplit(':', 1)[0].split('.')
 
         if self.allow_subdomain_redirects:
-            allowed = cur_server_name.endswith(real_server_name)
+            allowed = (
+                cur_server_name[-len(real_server_name):] == real_server_name
+            )
         else:
             allowed = cur_server_name == real_server_name
 
-- 
2.43.0


From 61c24b5579ac9626239a5fc1ed2b8ecaf4d18098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 55/63] fix: keep the traceback of errors passed to
 start_response

---
 verktyg/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index ca6e27e..f42449d 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -920,7 +920,7 @@ def run_wsgi_app(app, environ, buffered=False):
         if exc_info is not None:
             exc_type, exc_value, exc_traceback = exc_info
             if exc_value.__traceback__ is not exc_traceback:
-                raise exc_value.with_traceback()
+                raise exc_value.with_traceback(exc_traceback)
             raise exc_value
         response[:] = [status, headers]
         return buffer.append
-- 
2.43.0


From f19ed7a210e47ae50a0cd8614c22e9d8ab111728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:00 +0000
Subject: [PATCH 56/63] fix: close every file of the environ builder

---
 verktyg/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/test.py b/verktyg/test.py
index f42449d..1bcee4a 100644
--- a/verktyg/test.py
+++ b/verktyg/test.py
@@ -543,7 +543,7 @@ class EnvironBuilder(object):
         if self.closed:
             return
         try:
-            files = self.files.values()
+            files = [f for _, f in self.files.items(multi=True)]
         except AttributeError:
             files = ()
         for f in files:
-- 
2.43.0


From 75b063a2a6b7256dda49bb1b02372423d1484be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 57/63] fix: accept streams named by a file descriptor in
 FileStorage

---
 verktyg/http/basic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index d190a8b..0a50677 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -868,6 +868,9 @@ class FileStorage(object):
                     sys.getfilesystemencoding(), 'replace'
                 )
 
+            if not isinstance(filename, str):
+                # files opened by descriptor have a number as their name
+                filename = None
             if filename and filename[0] == '<' and filename[-1] == '>':
                 filename = None
 
-- 
2.43.0


From 8864d663bb2b16da52b8321158081908ddb52ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 58/63] fix: end the iteration of a FileStorage at the end of
 its stream

---
 verktyg/http/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 0a50677..40c1f95 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -956,7 +956,7 @@ class FileStorage(object):
         return getattr(self.stream, name)
 
     def __iter__(self):
-        return iter(self.readline, '')
+        return iter(self.stream)
 
     def __repr__(self):
         return '<%s: %r (%r)>' % (
-- 
2.43.0


From a479d0808f7ade6689dfa8d448077fb857e17d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 59/63] fix: ignore a malformed content length of a FileStorage

---
 verktyg/http/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index 40c1f95..ff870e0 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -895,7 +895,10 @@ class FileStorage(object):
     @property
     def content_length(self):
         """The content-length sent in the header.  Usually not available"""
-        return int(self.headers.get('content-length') or 0)
+        try:
+            return int(self.headers.get('content-length') or 0)
+        except ValueError:
+            return 0
 
     @property
     def mimetype(self):
-- 
2.43.0


From b63b89653ce043905127b1fbe86643bf26b42860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 60/63] fix: derive the mimetype of a FileStorage from its
 current content type

---
 verktyg/http/basic.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/verktyg/http/basic.py b/verktyg/http/basic.py
index ff870e0..5695a23 100644
--- a/verktyg/http/basic.py
+++ b/verktyg/http/basic.py
@@ -884,8 +884,7 @@ class FileStorage(object):
             headers['Content-Length'] = str(content_length)
 
     def _parse_content_type(self):
-        if not hasattr(self, '_parsed_content_type'):
-            self._parsed_content_type = parse_options_header(self.content_type)
+        return parse_options_header(self.content_type)
 
     @property
     def content_type(self):
@@ -907,8 +906,7 @@ class FileStorage(object):
         type is ``text/HTML; charset=utf-8`` the mimetype would be
         ``'text/html'``.
         """
-        self._parse_content_type()
-        return self._parsed_content_type[0].lower()
+        return self._parse_content_type()[0].lower()
 
     @property
     def mimetype_params(self):
@@ -916,8 +914,7 @@ class FileStorage(object):
         type is ``text/html; charset=utf-8`` the params would be
         ``{'charset': 'utf-8'}``.
         """
-        self._parse_content_type()
-        return self._parsed_content_type[1]
+        return self._parse_content_type()[1]
 
     def save(self, dst, buffer_size=16384):
         """Save the file to a destination path or file object.  If the
-- 
2.43.0


From 99f1cfafa29fd7441a413a745b047a3078c72387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:59 +0000
Subject: [PATCH 61/63] fix: sort routes added before one that is refused

---
 verktyg/routing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verktyg/routing.py b/verktyg/routing.py
index 766d6b6..aa3338b 100644
--- a/verktyg/routing.py
+++ b/verktyg/routing.py
@@ -1119,11 +1119,12 @@ class URLMap(object):
         for factory in factories:
             for route in factory.get_routes(self):
                 route.bind(self)
+                # Later routes may be refused.
+                self._remap = True
                 self._routes.append(route)
                 self._routes_by_endpoint.setdefault(
                     route.endpoint, []
                 ).append(route)
-        self._remap = True
 
     def bind(
         self, server_name, script_name=None, subdomain=None,
-- 
2.43.0


From f0e90b4d7398f9be3cc87cbf3e0468c3b6c9dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:15 +0000
Subject: [PATCH 62/63] fix: iterate over lines of bytes

---
 verktyg/wsgi.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index cddc00c..dc79c6a 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -711,29 +711,39 @@ def make_line_iter(stream, limit=None, buffer_size=10 * 1024):
     """
     _iter = _make_chunk_iter(stream, limit, buffer_size)
 
+    first_item = next(_iter, '')
+    if not first_item:
+        return
+    _iter = chain((first_item,), _iter)
+
+    if isinstance(first_item, str):
+        empty, cr, lf = '', '\r', '\n'
+    else:
+        empty, cr, lf = b'', b'\r', b'\n'
+
     def _iter_basic_lines():
         buffer = []
         while 1:
-            new_data = next(_iter, '')
+            new_data = next(_iter, empty)
             if not new_data:
                 break
             new_buf = []
             for item in chain(buffer, new_data.splitlines(True)):
                 new_buf.append(item)
-                if item and item[-1:] in '\r\n':
-                    yield ''.join(new_buf)
+                if item and item[-1:] in (cr, lf):
+                    yield empty.join(new_buf)
                     new_buf = []
             buffer = new_buf
         if buffer:
-            yield ''.join(buffer)
+            yield empty.join(buffer)
 
     # This hackery is necessary to merge 'foo\r' and '\n' into one item
     # of 'foo\r\n' if we were unlucky and we hit a chunk boundary.
-    previous = ''
+    previous = empty
     for item in _iter_basic_lines():
-        if item == '\n' and previous[-1:] == '\r':
+        if item == lf and previous[-1:] == cr:
             previous += item
-            item = ''
+            item = empty
         if previous:
             yield previous
         previous = item
-- 
2.43.0


From 4951de5536eb9ab6b31679e5b5c306ed15cabd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:15 +0000
Subject: [PATCH 63/63] fix: find separators that are split between buffers

---
 verktyg/wsgi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verktyg/wsgi.py b/verktyg/wsgi.py
index dc79c6a..d040ed2 100644
--- a/verktyg/wsgi.py
+++ b/verktyg/wsgi.py
@@ -786,6 +786,11 @@ def make_chunk_iter(stream, separator, limit=None, buffer_size=10 * 1024):
         new_data = next(_iter, '')
         if not new_data:
             break
+        if buffer and len(separator) > 1:
+            # The separator may begin in the data read before.
+            tail = buffer.pop()
+            buffer.append(tail[:1 - len(separator)])
+            new_data = tail[1 - len(separator):] + new_data
         chunks = _split(new_data)
         new_buf = []
         for item in chain(buffer, chunks):
-- 
2.43.0

