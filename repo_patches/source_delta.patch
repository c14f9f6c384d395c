From 32ed92bca17c0825ee545233dd488ccda330afe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 01/44] fix: a CR in the request path is not the wildcard token

---
 ombott/router/radidict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 863bc77..ba7b291 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -397,7 +397,8 @@ class RadiDict:
                 else:
                     c0 = route[i]
                     for ic, c in enumerate(idx):
-                        if c == c0:
+                        # the token itself is never matched as literal text
+                        if c == c0 and c != TOKEN:
                             kidx = ic; break  # found!
 
                 if kidx is None:  # not found
-- 
2.43.0


From 639f26c94f8d9baac2ee770b66e52c192839deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 02/44] fix: handler gets the wildcard names of its own rule,
 not of the first rule sharing the pattern

---
 ombott/router/radirouter.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 8905534..255e1a7 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -6,13 +6,15 @@ from .parser import Parser
 
 
 class RouteMethod:
-    __slots__ = ('route', 'name', 'handler', 'meta')
+    __slots__ = ('route', 'name', 'handler', 'meta', 'params')
 
-    def __init__(self, route, name, handler, meta=None):
+    def __init__(self, route, name, handler, meta=None, params=None):
         self.route = route
         self.name = name
         self.handler = handler
         self.meta = meta
+        # parameter names of the rule the handler was registered under
+        self.params = route.params if params is None else params
 
     def remove(self):
         self.route.remove_method(self.name)
@@ -110,14 +112,14 @@ class Route:
 
         return ''.join(ret)
 
-    def _set_methods(self, methods, handler, meta=None):
+    def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-            self._methods[meth] = RouteMethod(self, meth, handler, meta)
+            self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None):
+    def set_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
         registered = set(self._methods) & set(method)
@@ -133,11 +135,11 @@ class Route:
                 f'but there are already registered: `{registered_fullnames}`'
             )
 
-    def add_method(self, method, handler, meta=None):
+    def add_method(self, method, handler, meta=None, params=None):
         if isinstance(method, str):
             method = [method]
         self._raise_if_registered(method, handler)
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
         if isinstance(method, str):
@@ -316,7 +318,7 @@ class RadiRouter:
             return None, [404, 'Not Found', extra]
         try:
             meth = route[methods]
-            params = route.make_params_dict(extra['param_keys'], extra['param_values'])
+            params = route.make_params_dict(meth.params, extra['param_values'])
             return [meth, params, extra['hooks']], None
         except RouteMethodError:
             allowed = ",".join(sorted(route.methods))
@@ -373,6 +375,7 @@ class RadiRouter:
 
     def _add(self, rule, methods, handler, name=None, *, meta=None, overwrite=False):
         route = Route(rule)
+        params = route.params
         route_ = self._match(route.pattern, route.filters)
         if route_:
             route = route_
@@ -381,9 +384,9 @@ class RadiRouter:
             self.routes[route.pattern] = route
 
         if overwrite:
-            route.set_method(methods, handler, meta)
+            route.set_method(methods, handler, meta, params)
         else:
-            route.add_method(methods, handler, meta)
+            route.add_method(methods, handler, meta, params)
 
         if name:
             registered = self.named_routes.get(name)
-- 
2.43.0


From a7d67e9114be5c71a89c0a8a994e28e01de46c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 03/44] fix: reject a rule that uses one wildcard name twice
 before touching the tree

---
 ombott/router/radirouter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 255e1a7..ef7a542 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -191,6 +191,8 @@ class Route:
                 if not param:
                     param = f'{cls.anon_prefix}{anon_counter}'
                     anon_counter += 1
+                elif param in params:
+                    raise RouteBuildError(f'Duplicate wildcard name `{param}` in rule `/{rule}`')
                 params.append(param)
                 h, f_out = cls.make_filter(filter, filter_args)
                 filters.append(h)
-- 
2.43.0


From e4dc7acb8c6564f33baaaeec6db7573004f77600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 04/44] fix: int/float wildcard rejects text that cannot be
 converted instead of failing the request

---
 ombott/router/filter_factory.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index ac25aa1..a035c79 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -1,4 +1,5 @@
 import re
+from math import isfinite
 
 
 class _RouteFilterExhaust:
@@ -26,12 +27,19 @@ def _rex(conf):
     return conf, f_in, None
 
 
+def _float(s):
+    ret = float(s)
+    if not isfinite(ret):
+        raise ValueError(f'Out of float range: {s}')
+    return ret
+
+
 class FilterFactory:
     filters = {
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
         'int':   lambda conf: (r'-?\d+', int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', float, lambda x: str(float(x))),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', _float, lambda x: str(float(x))),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
@@ -67,7 +75,10 @@ class FilterFactory:
                     tmp = mask.match(param)
                     if not tmp:
                         return None, 0, None
-                    return f_in(tmp.group()), tmp.end(), None
+                    try:
+                        return f_in(tmp.group()), tmp.end(), None
+                    except ValueError:  # not convertible (e.g. too many digits)
+                        return None, 0, None
         else:
             def handler(param):
                 tmp = mask.match(param)
-- 
2.43.0


From 8a3d54b4852b751ea955ce056d12d132e0ce47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 05/44] fix: removing a route keeps the hooks of its node,
 removing a hook removes it from an inner node

---
 ombott/router/radidict.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index ba7b291..ef1b539 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -345,14 +345,16 @@ class RadiDict:
         elif mismatch:
             return
 
-        if hooks_only and node[DATA] is not None:
+        if hooks_only:
             node[HOOKS] = None
-            return
+            if node[DATA] is not None:
+                return
 
         stack.reverse()
         assert node is stack[0]
-        node[DATA] = None
-        node[PARAMS] = []
+        if not hooks_only:
+            node[DATA] = None
+            node[PARAMS] = []
         key0_to_del = None
         for node in stack:
             if key0_to_del:
@@ -364,7 +366,7 @@ class RadiDict:
                 node[IDX] = node[IDX].replace(key0_to_del, '')
                 del node[OFFSET + kidx]
                 self._try_merge(node)
-            if not (node[DATA] or node[IDX]):
+            if not (node[DATA] or node[HOOKS] or node[IDX]):
                 key0_to_del = node[KEY][0]
             else:
                 break
-- 
2.43.0


From ecbea1f3ccb94197ee25e7a5c15f48ce5ac10471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 06/44] fix: removing a route by name or object drops all its
 names

---
 ombott/router/radirouter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index ef7a542..bf84d35 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -280,12 +280,13 @@ class RadiRouter:
             else:
                 route_pattern = route.pattern
         elif name is not None:
-            route = self.named_routes.pop(name)
+            route = self.named_routes[name]
             route_pattern = route.pattern
 
         self.radidict.remove(route_pattern)
         if route:
             del self.routes[route.pattern]
+            self._remove_named_routers({route.pattern})
         else:
             if route_pattern.endswith('*'):
                 route_pattern = route_pattern[:-1]
-- 
2.43.0


From 14cb9cd01d3491a961d297dfda61f8a52a435606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 07/44] fix: a registration rejected for its name leaves no
 route behind

---
 ombott/router/radirouter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index bf84d35..31c4673 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -380,6 +380,10 @@ class RadiRouter:
         route = Route(rule)
         params = route.params
         route_ = self._match(route.pattern, route.filters)
+        if name and not overwrite:
+            registered = self.named_routes.get(name)
+            if registered and registered is not route_:
+                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
         if route_:
             route = route_
         else:
@@ -392,9 +396,6 @@ class RadiRouter:
             route.add_method(methods, handler, meta, params)
 
         if name:
-            registered = self.named_routes.get(name)
-            if not overwrite and registered and registered is not route:
-                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
             self.named_routes[name] = route
         return route
 
-- 
2.43.0


From f1321798a7fd8043e095a779c012d48881c389fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 08/44] fix: a route hook is not installed over a wildcard with
 another filter

---
 ombott/router/radirouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 31c4673..3c2a0da 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -337,7 +337,7 @@ class RadiRouter:
 
     def add_hook(self, rule, *args, **kwargs):
         route_pattern, params, filters, _, _ = self.parse_rule(rule)
-        route_hooks = self._match(route_pattern = route_pattern, get_hooks = True)
+        route_hooks = self._match(filters = filters, route_pattern = route_pattern, get_hooks = True)
         new_route_hooks = self.hook_installer(route_hooks, *args, **kwargs)
         if new_route_hooks is not None and new_route_hooks is not route_hooks:
             params = {name: [False, filter] for name, filter in zip(params, filters)}
-- 
2.43.0


From b9dc75bfde4514d9ec3cbd3b284ad7e622835f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 09/44] fix: Route method table is case-insensitive at every
 entry point

---
 ombott/router/radirouter.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 3c2a0da..0b28440 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -116,9 +116,14 @@ class Route:
         for meth in methods:
             self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None, params=None):
+    @staticmethod
+    def _norm_methods(method):
         if isinstance(method, str):
             method = [method]
+        return [m.upper() for m in method]
+
+    def set_method(self, method, handler, meta=None, params=None):
+        method = self._norm_methods(method)
         self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
@@ -136,24 +141,19 @@ class Route:
             )
 
     def add_method(self, method, handler, meta=None, params=None):
-        if isinstance(method, str):
-            method = [method]
+        method = self._norm_methods(method)
         self._raise_if_registered(method, handler)
         self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
-        if isinstance(method, str):
-            method = [method]
-        [self._methods.pop(m, None) for m in method]
+        [self._methods.pop(m, None) for m in self._norm_methods(method)]
 
     @property
     def methods(self):
         return dict(self._methods)
 
     def __getitem__(self, method):
-        if isinstance(method, str):
-            method = [method]
-        for name in method:
+        for name in self._norm_methods(method):
             meth = self._methods.get(name)
             if meth:
                 return meth
@@ -238,9 +238,7 @@ class RadiRouter:
         return cls.parse_rule(rule)[0]
 
     def add(self, rule, methods, handler, name=None, *, meta=None, overwrite=False):
-        if isinstance(methods, str):
-            methods = [methods]
-        methods = [_.upper() for _ in methods]
+        methods = Route._norm_methods(methods)
         return self._add(rule, methods, handler, name, meta=meta, overwrite=overwrite)
 
     def __getitem__(self, key):
-- 
2.43.0


From bc751e304f2fe708207a99f8c08932c6d822c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 10/44] fix: a path that looks like a URL no longer breaks (or
 replaces) Request.url

---
 ombott/request_pkg/props_mixin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index cce942c..bbbff5a 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -2,7 +2,6 @@ import base64
 from http.cookies import SimpleCookie
 from urllib.parse import (
     quote as urlquote,
-    urljoin,
     SplitResult as UrlSplitResult
 )
 
@@ -103,7 +102,7 @@ class PropsMixin:
     def fullpath(self):
         """ Request path including :attr:`script_name` (if present). """
         appname = self._env_get(self.config.app_name_header, '/')
-        return urljoin(self.script_name, self.path[len(appname):].lstrip('/'))
+        return self.script_name + self.path[len(appname):].lstrip('/')
 
     @property
     def query_string(self):
-- 
2.43.0


From 15f16a111346975e6a7fd3643701a1e9280f282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 11/44] fix: Route.url accepts values whose filter looks ahead
 or matches empty text

---
 ombott/router/radirouter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 0b28440..59b8546 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -74,6 +74,8 @@ class Route:
         pattern_out = self.pattern_out
 
         ret = []
+        ret_len = 0
+        to_check = []  # (position in the url, input filter)
         pidx = 0
         args_idx = 0
         cidx = 0
@@ -88,6 +90,7 @@ class Route:
                 end += clen
                 clen = 0
                 ret.append(pattern_out[cidx:end])
+                ret_len += end - cidx
             cidx = end + 1
 
             pname = params[pidx]
@@ -103,14 +106,19 @@ class Route:
             if f_out:
                 prt = f_out(prt)
             if f_in:
-                assert f_in(prt)[1]  # `pos` must be > 0 if match
+                to_check.append((ret_len, f_in))
             ret.append(prt)
+            ret_len += len(prt)
 
         if clen:
             end = cidx + clen
             ret.append(pattern_out[cidx:end])
 
-        return ''.join(ret)
+        url = ''.join(ret)
+        for pos, f_in in to_check:
+            # a filter may look ahead (e.g. `path`), so it needs the rest of the url
+            assert f_in(url[pos:])[0] is not None
+        return url
 
     def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-- 
2.43.0


From ec4a28cb035c1c98416a8378e8f2084a2339c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 12/44] fix: float wildcard is built without an exponent

---
 ombott/router/filter_factory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index a035c79..12c18b6 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -1,4 +1,5 @@
 import re
+from decimal import Decimal
 from math import isfinite
 
 
@@ -34,12 +35,17 @@ def _float(s):
     return ret
 
 
+def _float_out(x):
+    # positional notation, the filter does not match an exponent
+    return format(Decimal(repr(float(x))), 'f')
+
+
 class FilterFactory:
     filters = {
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
         'int':   lambda conf: (r'-?\d+', int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', _float, lambda x: str(float(x))),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', _float, _float_out),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
-- 
2.43.0


From 31be474a9c123fa87bb95dc4cfdf255a82d15e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 13/44] fix: a short read of a Content-Length body is accounted
 by its real size

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 3f8b890..b7f375c 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -26,7 +26,7 @@ def _iter_body(read, buff_size, *, content_length):
         if not part:
             break
         yield part
-        rest_len -= part_size
+        rest_len -= len(part)
 
 
 def _iter_chunked(read, buff_size):
-- 
2.43.0


From 613ea763129fd1154c773e253ce38de539752daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 14/44] fix: chunked decoding survives short reads of the
 payload and of the chunk terminator

---
 ombott/request_pkg/body_mixin.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index b7f375c..d3779e2 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -30,7 +30,7 @@ def _iter_body(read, buff_size, *, content_length):
 
 
 def _iter_chunked(read, buff_size):
-    r, n, rn, sem = b'\r', b'\n', b'\r\n', b';'
+    r, n, sem = b'\r', b'\n', b';'
     header_size_buff = []
     parsing_err = BodyParsingError()
     while True:
@@ -73,8 +73,10 @@ def _iter_chunked(read, buff_size):
             if not part:
                 raise parsing_err
             yield part
-            rest_len -= part_size
-        if read(2) != rn:
+            rest_len -= len(part)
+
+        # chunk must be followed by `\r\n` (maybe fragmented by the stream)
+        if read(1) != r or read(1) != n:
             raise parsing_err
 
 
-- 
2.43.0


From 69c90be452662de02ea4b8551955e9c654b4ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 15/44] fix: multipart markup does not depend on where the body
 is split into reads

---
 ombott/request_pkg/multipart.py | 51 ++++++++++++---------------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 29b6f4e..07dbc7b 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -60,7 +60,7 @@ CRLFx2 = CRLF * 2
 CRLFx2_LEN = len(CRLFx2)
 
 
-end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)$')
+end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)\Z')
 
 
 class HeadersEaeter:
@@ -90,13 +90,13 @@ class HeadersEaeter:
         return pos
 
     def _eat_last_hyphen(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
         if chunk_start == HYPHEN:
             self.stopped = True
             return base + 1
-        raise UnexpectedBodyEndError(f'Last hyphen was expected, got (first 2 symbols slice): {chunk_start}')
+        raise UnexpectedBodyEndError(f'Last hyphen was expected, got: {chunk_start}')
 
     def _eat_lf(self, chunk: bytes, base: int) -> Optional[int]:
         chunk_start = chunk[base: base + 1]
@@ -108,49 +108,33 @@ class HeadersEaeter:
         raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
 
     def _eat_first_crlf_or_last_hyphens(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
 
-        if chunk_start == CRLF:
-            return base + 2
-
-        if len(chunk_start) == 1:
-            self.eat_meth = self._meth_map.get(chunk_start)
-        elif chunk_start == HYPHENx2:
-            self.stopped = True
-            return base + 2
-
-        if self.eat_meth is None:
+        eat_second = self._meth_map.get(chunk_start)
+        if eat_second is None:
             raise MalformedHeadersError(f'Malformed headers, invalid section start: {chunk_start}')
 
+        # the second symbol may be in the next chunk
+        self.eat_meth = eat_second
+        return eat_second(chunk, base + 1)
+
     def _eat_headers(self, chunk: bytes, base: int):
         expected: bytes = self.headers_end_expected
         if expected is not None:
             expected_len = len(expected)
-            chunk_start = chunk[base:expected_len]
+            chunk_start = chunk[base:base + expected_len]
             if chunk_start == expected:
                 self.headers_end_expected = None
                 return base + expected_len - CRLFx2_LEN
             chunk_start_len = len(chunk_start)
             if not chunk_start_len:
                 return
-            if chunk_start_len < expected_len:
-                if expected.startswith(chunk_start):
-                    self.headers_end_expected = expected[chunk_start_len:]
-                    return
-                self.headers_end_expected = None
-
-            if expected == LF:  # we saw CRLFCR
-                invalid_sequence = CR + chunk_start[0:1]
-                # NOTE we don not catch all CRLF-malformed errors, but only obvious ones
-                # to stop doing useless work
-                raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
-            else:
-                assert expected_len >= 2  # (CR)LFCRLF or (CRLF)CRLF
-                self.headers_end_expected = None
-
-        assert self.headers_end_expected is None
+            if chunk_start_len < expected_len and expected.startswith(chunk_start):
+                self.headers_end_expected = expected[chunk_start_len:]
+                return
+            self.headers_end_expected = None
 
         s = end_headers_patt.search(chunk, base)
         if s is None:
@@ -186,7 +170,8 @@ class BodyMarkuper:
 
     def iter_markup(self, chunk: bytes) -> Iterable[Tuple[str, Tuple[int, int]]]:
         if self.stopped:
-            raise StopMarkupException()
+            # the closing delimiter has been seen, the rest is an epilogue
+            return
         cur_meth = self.cur_meth
         abs_start_section = self.abs_start_section
         start_next_sec = 0
@@ -235,7 +220,7 @@ class BodyMarkuper:
         self.abs_start_section = abs_start_section
 
     def _eat_start_boundary(self, chunk: bytes, base: int):
-        if self.trest is None:
+        if self.abspos == 0:  # only the very first symbol of the body is special
             chunk_start = chunk[base: base + 1]
             if not chunk_start:
                 return
-- 
2.43.0


From 7b7c5d9423dcc7af314a7876bf58f3faa6093c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 16/44] fix: multipart part headers keep quoted names and file
 names as sent

---
 ombott/request_pkg/multipart.py | 34 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 07dbc7b..e5d0f96 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -384,12 +384,14 @@ class BytesIOProxy:
 class Header(SimpleNamespace):
     name: str
     value: str
+    raw: str
     options: Dict[str, str]
 
 
 class FieldStorage:
 
-    _patt = re.compile('(.+?)(=(.+?))?(;|$)')
+    # `; key`, `; key=token` or `; key="anything but a double quote"`
+    _patt = re.compile(r';\s*([^=;]*?)\s*(?:=\s*(?:"([^"]*)"|([^;]*?)))?\s*(?=;|\Z)')
 
     name: str
     value: Optional[str]
@@ -417,14 +419,17 @@ class FieldStorage:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
         headers_raw = src.read(sz).decode()
-        for header_raw in headers_raw.splitlines():
+        for header_raw in headers_raw.split('\r\n'):
             header = self.parse_header(header_raw)
-            self.headers[header.name] = header
-            if header.name == 'Content-Disposition':
-                self.name = header.options['name']
+            name = header.name.title()  # header names are case-insensitive
+            if name == 'Content-Disposition':
+                header.name = name
+                self.name = header.options.get('name')
                 self.filename = header.options.get('filename')
-            elif header.name == 'Content-Type':
+            elif name == 'Content-Type':
+                header.name = name
                 self.ctype = header.value
+            self.headers[header.name] = header
 
         if self.name is None:
             raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {header_raw}')
@@ -446,17 +451,18 @@ class FieldStorage:
 
     @classmethod
     def parse_header(cls, s: str):
-        htype, rest = s.split(':', 1)
-        opt_iter = cls._patt.finditer(rest)
-        hvalue = next(opt_iter).group(1).strip()
+        htype, sep, rest = s.partition(':')
+        if not sep:
+            raise BodyParsingError(f'Malformed header, no colon found: {s}')
         dct = {}
-        for it in opt_iter:
-            k = it.group(1).strip()
-            v = it.group(3)
-            if v is not None:
+        for it in cls._patt.finditer(rest):
+            k, quoted, v = it.groups()
+            if quoted is not None:
+                v = quoted
+            elif v is not None:
                 v = v.strip('"')
             dct[k.lower()] = v
-        return Header(name=htype, value=hvalue, options=dct)
+        return Header(name=htype.strip(), value=rest.split(';', 1)[0].strip(), raw=rest.strip(), options=dct)
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From ae44318e0afd01417bdd6df9ea58d16e26f6f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 17/44] fix: BytesIOProxy.read(0) reads nothing

---
 ombott/request_pkg/multipart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index e5d0f96..ab24b4e 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -356,7 +356,7 @@ class BytesIOProxy:
         max_sz = self._end - self._pos
         if max_sz <= 0:
             return b''
-        if sz is not None and sz > 0:
+        if sz is not None and sz >= 0:
             sz = min(sz, max_sz)
         else:
             sz = max_sz
-- 
2.43.0


From 9cfb9933072d8d68c2a45d2fbcf452f6d72cd9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 18/44] fix: a name used by text fields and uploads keeps texts
 in forms and uploads in files

---
 ombott/request_pkg/body_mixin.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index d3779e2..0b53ff9 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -198,9 +198,20 @@ class BodyMixin:
             raise BodyParsingError()
         elif markup.error is not None:
             raise markup.error
-        listified = set()
+        listified = {}
+
+        def collect(dct, key, it):
+            seen = listified.setdefault(id(dct), set())
+            if key not in dct:
+                dct[key] = it
+            elif key in seen:
+                dct[key].append(it)
+            else:
+                dct[key] = [dct[key], it]
+                seen.add(key)
+
         for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
-            if item.filename:
+            if item.file is not None:
                 it = FileUpload(
                     item.file, item.name,
                     item.filename, item.headers
@@ -209,16 +220,8 @@ class BodyMixin:
             else:
                 it = item.value
                 dct = forms
-            key = item.name
-
-            if key in post:
-                el = post[key]
-                if key not in listified:
-                    el = post[key] = dct[key] = [el]
-                    listified.add(key)
-                el.append(it)
-            else:
-                post[key] = dct[key] = it
+            collect(dct, item.name, it)
+            collect(post, item.name, it)
         return post
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
-- 
2.43.0


From 1f1d6ccc83a343705edc807e8cd82c06629bd30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 19/44] fix: headers of an upload are plain strings
 (content_type, content_length)

---
 ombott/request_pkg/body_mixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 0b53ff9..778c0bf 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -214,7 +214,7 @@ class BodyMixin:
             if item.file is not None:
                 it = FileUpload(
                     item.file, item.name,
-                    item.filename, item.headers
+                    item.filename, {k: h.raw for k, h in item.headers.items()}
                 )
                 dct = files
             else:
-- 
2.43.0


From 5eb7089364759c7a50828bdfb7d11f352a6331c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 20/44] fix: multipart boundary may be quoted

---
 ombott/request_pkg/body_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 778c0bf..a4a26ab 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -15,7 +15,7 @@ from .helpers import (
 from .errors import RequestError, BodyParsingError, BodySizeError
 
 
-MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
+MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(?:"([^"]+)"|([^;]+))', re.I)
 
 
 def _iter_body(read, buff_size, *, content_length):
@@ -248,7 +248,7 @@ class BodyMixin:
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         if mp is not None:
-            markup = MultipartMarkup(mp.group(1))
+            markup = MultipartMarkup(mp.group(1) or mp.group(2).strip())
         try:
             body = _body_read(
                 self.environ['wsgi.input'].read,
-- 
2.43.0


From 47589fd4bda98e3e1ec2b235933efb0c87147c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 21/44] fix: malformed multipart fields and JSON bodies are
 client errors

---
 ombott/request_pkg/body_mixin.py | 48 +++++++++++++++++++-------------
 ombott/request_pkg/multipart.py  | 10 +++++--
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index a4a26ab..20d4252 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -4,7 +4,7 @@ from io import BytesIO
 from functools import partial
 import re
 
-from ..common_helpers import touni
+from ..common_helpers import tob, touni
 from .multipart import MultipartMarkup, FieldStorage
 
 from .helpers import (
@@ -160,7 +160,10 @@ class BodyMixin:
             b = self._get_body_string()
             if not b:
                 return None
-            return json_mod.loads(b)
+            try:
+                return json_mod.loads(b)
+            except (ValueError, RecursionError) as err:
+                self._raise(BodyParsingError(f'Malformed JSON: {err}'), RequestError)
         return None
 
     @cache_in('environ[ ombott.request.post ]', read_only=True)
@@ -179,7 +182,11 @@ class BodyMixin:
         ctype = self.content_type
         if not ctype.startswith('multipart/'):
             if ctype.startswith('application/json'):
-                post.update(self.json)
+                data = self.json
+                if isinstance(data, dict):
+                    post.update(data)
+                elif data is not None:
+                    self._raise(BodyParsingError('JSON object was expected'), RequestError)
             else:
                 parse_qsl(
                     touni(self._get_body_string(), 'latin1'),
@@ -195,9 +202,9 @@ class BodyMixin:
         if markup is None:
             # should never happen since we check content-type
             # when reading body
-            raise BodyParsingError()
+            self._raise(BodyParsingError(), RequestError)
         elif markup.error is not None:
-            raise markup.error
+            self._raise(markup.error, RequestError)
         listified = {}
 
         def collect(dct, key, it):
@@ -210,18 +217,21 @@ class BodyMixin:
                 dct[key] = [dct[key], it]
                 seen.add(key)
 
-        for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
-            if item.file is not None:
-                it = FileUpload(
-                    item.file, item.name,
-                    item.filename, {k: h.raw for k, h in item.headers.items()}
-                )
-                dct = files
-            else:
-                it = item.value
-                dct = forms
-            collect(dct, item.name, it)
-            collect(post, item.name, it)
+        try:
+            for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
+                if item.file is not None:
+                    it = FileUpload(
+                        item.file, item.name,
+                        item.filename, {k: h.raw for k, h in item.headers.items()}
+                    )
+                    dct = files
+                else:
+                    it = item.value
+                    dct = forms
+                collect(dct, item.name, it)
+                collect(post, item.name, it)
+        except RequestError as err:
+            self._raise(err, RequestError)
         return post
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
@@ -247,9 +257,9 @@ class BodyMixin:
     def _body(self):
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
-        if mp is not None:
-            markup = MultipartMarkup(mp.group(1) or mp.group(2).strip())
         try:
+            if mp is not None:
+                markup = MultipartMarkup(tob(mp.group(1) or mp.group(2).strip(), 'latin1'))
             body = _body_read(
                 self.environ['wsgi.input'].read,
                 self.config.max_memfile_size,
diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index ab24b4e..e4431cc 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -418,7 +418,10 @@ class FieldStorage:
         if has_read > max_read:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
-        headers_raw = src.read(sz).decode()
+        try:
+            headers_raw = src.read(sz).decode()
+        except UnicodeDecodeError as err:
+            raise BodyParsingError(f'Part headers are not UTF-8: {err}')
         for header_raw in headers_raw.split('\r\n'):
             header = self.parse_header(header_raw)
             name = header.name.title()  # header names are case-insensitive
@@ -444,7 +447,10 @@ class FieldStorage:
                 if has_read > max_read:
                     raise BodySizeError('Max in-memory read limit exceed')
                 src.seek(start)
-                self.value = src.read(sz).decode()
+                try:
+                    self.value = src.read(sz).decode()
+                except UnicodeDecodeError as err:
+                    raise BodyParsingError(f'Text field is not UTF-8: {err}')
             else:
                 self.value = ''
         return has_read
-- 
2.43.0


From 912d97825eec14f0a05c35d6960e5aaa5c9f67ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 22/44] fix: a multipart body that failed to parse never shows
 up as partial forms

---
 ombott/request_pkg/body_mixin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 20d4252..260a6a8 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -174,7 +174,7 @@ class BodyMixin:
 
         """
         env = self.environ
-        files = env['ombott.request.files'] = self._forms_factory()
+        files = self._forms_factory()
         post = self._forms_factory()
 
         # We default to application/x-www-form-urlencoded for everything that
@@ -192,10 +192,11 @@ class BodyMixin:
                     touni(self._get_body_string(), 'latin1'),
                     setitem=post.__setitem__
                 )
+            env['ombott.request.files'] = files
             env['ombott.request.forms'] = post
             return post
 
-        forms = env['ombott.request.forms'] = self._forms_factory()
+        forms = self._forms_factory()
 
         body = self.body
         markup: MultipartMarkup = body.ombott_markup
@@ -232,6 +233,8 @@ class BodyMixin:
                 collect(post, item.name, it)
         except RequestError as err:
             self._raise(err, RequestError)
+        env['ombott.request.files'] = files
+        env['ombott.request.forms'] = forms
         return post
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
-- 
2.43.0


From 5441620a09000ad042a17727fa28c5f797452cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 23/44] fix: a body that was rejected once is rejected on every
 access

---
 ombott/request_pkg/body_mixin.py | 5 +++++
 ombott/request_pkg/request.py    | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 260a6a8..88c8a26 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -258,6 +258,10 @@ class BodyMixin:
 
     @cache_in('environ[ ombott.request.body ]', read_only=True)
     def _body(self):
+        failed = self.environ.get('ombott.request.body_error')
+        if failed is not None:
+            # the stream is at an unknown position, never read the rest as a body
+            self._raise(failed(), RequestError)
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         try:
@@ -273,6 +277,7 @@ class BodyMixin:
             )
             body.ombott_markup = markup
         except RequestError as err:
+            self.environ['ombott.request.body_error'] = err.__class__
             self._raise(err, RequestError)
         self.environ['wsgi.input'] = body
         body.seek(0)
diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index a3afd28..68eecad 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -49,7 +49,7 @@ class BaseRequest:
     def _on_env_changed(request, key, v):
         todelete = ()
         if key == 'wsgi.input':
-            todelete = ('forms', 'files', 'params', 'post', 'json', 'body')
+            todelete = ('forms', 'files', 'params', 'post', 'json', 'body', 'body_error')
         elif key == 'QUERY_STRING':
             todelete = ('query', 'params')
         elif key.startswith('HTTP_'):
-- 
2.43.0


From 8f7102af767dbbd4e28ded9e9bae9b2f25418f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 24/44] fix: chunked form body is not cut at a Content-Length
 header

---
 ombott/request_pkg/body_mixin.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 88c8a26..fbcc0f4 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -291,13 +291,11 @@ class BodyMixin:
         self._body.seek(0)
         read = self._body.read
         max_content_length = self.config.max_memfile_size
-        content_length = self.content_length
 
-        if content_length > max_content_length:
+        # NOTE Content-Length says nothing about a chunked body
+        if not self.chunked and self.content_length > max_content_length:
             raise self._raise(BodySizeError(), RequestError)
-        if content_length < 0:
-            content_length = max_content_length + 1
-        data = read(content_length)
+        data = read(max_content_length + 1)
         if len(data) > max_content_length:  # Fail fast
             raise self._raise(BodySizeError(), RequestError)
             # raise HTTPError(413, 'Request to large')
-- 
2.43.0


From 33c4099d8538be5deedce6ae096f9806e9946dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 25/44] fix: request and response of one application do not
 show data of another one

---
 ombott/common_helpers.py |  8 +++-----
 ombott/ombott.py         | 26 ++++++++++++++++++++++++--
 ombott/static_stream.py  |  4 ++--
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 1c4c400..c39948a 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -72,11 +72,9 @@ def html_escape(string):
 # ------------------[ thread safe props] -------------------
 def ts_props(*props, store_name=None):
     def wrapper(cls):
-        local_store = None
         cls_init = cls.__init__
 
         def init_wrapper(self, *a, **kw):
-            nonlocal local_store
             local_store = getattr(self, store_name, None)
             if local_store is None:
                 local_store = threading.local()
@@ -86,13 +84,13 @@ def ts_props(*props, store_name=None):
 
         def make_prop(k):
             def fget(s):
-                return getattr(local_store, k)
+                return getattr(getattr(s, store_name), k)
 
             def fset(s, v):
-                return setattr(local_store, k, v)
+                return setattr(getattr(s, store_name), k, v)
 
             def fdel(s):
-                return delattr(local_store, k)
+                return delattr(getattr(s, store_name), k)
             doc = 'Local property: %s' % k
             return property(fget, fset, fdel, doc)
 
diff --git a/ombott/ombott.py b/ombott/ombott.py
index bb71528..b2a4f64 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -1,6 +1,7 @@
 import sys
 import json
 import functools
+import threading
 from traceback import format_exc
 import itertools
 from urllib.parse import urljoin
@@ -93,6 +94,14 @@ def with_method_shortcuts(methods):
         return cls
     return injector
 
+
+class _Serving(threading.local):
+    ''' The application that is serving a request in the current thread. '''
+    app = None
+
+
+_serving = _Serving()
+
 ###############################################################################
 # Application Object ###########################################################
 ###############################################################################
@@ -372,6 +381,13 @@ class Ombott:
             return new_iter
 
     def wsgi(self, environ, start_response):
+        outer_app, _serving.app = _serving.app, self
+        try:
+            return self._wsgi(environ, start_response)
+        finally:
+            _serving.app = outer_app
+
+    def _wsgi(self, environ, start_response):
         config: DefaultConfig = self.config
         response = self.response
 
@@ -433,8 +449,9 @@ def redirect(location, code=None):
         the HTTP protocol version.
 
     """
-    response = Globals.response
-    request = Globals.request
+    serving = serving_app()
+    response = serving.response
+    request = serving.request
     url = location
     if not code:
         code = 303 if request.get('SERVER_PROTOCOL') == "HTTP/1.1" else 302
@@ -456,3 +473,8 @@ class Globals:
 
 def default_app():
     return Globals.app
+
+
+def serving_app():
+    ''' What serves the current thread's request (the globals when nothing does). '''
+    return _serving.app or Globals
diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index a797da1..569b257 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -6,7 +6,7 @@ import email.utils
 
 from .common_helpers import parse_date
 from .response import HTTPResponse, HTTPError
-from .ombott import Globals
+from .ombott import serving_app
 
 
 def get_first_range(header, maxlen=0):
@@ -69,7 +69,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
         :param charset: The charset to use for files with a ``text/*``
             mime-type. (default: UTF-8)
     """
-    request = Globals.request
+    request = serving_app().request
     os_path = os.path
     root = os_path.abspath(root) + os.sep
     filename = os_path.abspath(os_path.join(root, filename.strip('/\\')))
-- 
2.43.0


From 94be52327024a7cf890d96dde51981d87585affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 26/44] fix: the 400 for an undecodable path carries nothing of
 the previous request

---
 ombott/ombott.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index b2a4f64..0199609 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -268,16 +268,18 @@ class Ombott:
         response = self.response
         request = self.request
 
-        path = environ['ombott.raw_path'] = environ['PATH_INFO']
+        # init thread
+        environ['ombott.app'] = self
+        request.__init__(environ)
+        response.__init__()
+
+        path = environ['ombott.raw_path'] = environ.get('PATH_INFO', '')
         try:
             path = path.encode('latin1').decode('utf8')
         except UnicodeError:
             return HTTPError(400, 'Invalid path string. Expected UTF-8')
         environ['PATH_INFO'] = path
-        try:  # init thread
-            environ['ombott.app'] = self
-            request.__init__(environ)
-            response.__init__()
+        try:
             try:  # routing
                 self.emit('before_request')
                 route, kwargs, route_hooks = (None, None, None)
-- 
2.43.0


From 6d084b5736cb1a3fb3123c7d602a87ea1e87e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 27/44] fix: copy of a response keeps multi-valued headers and
 every cookie

---
 ombott/response.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index 1edafac..301ecda 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -30,6 +30,19 @@ def http_date(value):
     return email.utils.formatdate(value, usegmt=True)
 
 
+def _copy_headers(headers):
+    return {k: (v[:] if isinstance(v, list) else v) for k, v in headers.items()}
+
+
+def _copy_cookies(cookies):
+    if not cookies:
+        return None
+    copy = SimpleCookie()
+    for name, morsel in cookies.items():
+        copy[name] = morsel.copy()
+    return copy
+
+
 _response_slots = (
     '_status_line', '_status_code', 'headers', '_headers',
     '_cookies', 'body', '_ts_props'
@@ -95,10 +108,9 @@ class BaseResponse:
         ''' Returns a copy of self. '''
         cls = cls or BaseResponse
         assert issubclass(cls, BaseResponse)
-        copy = cls(status = self.status, headers = self.headers.copy().dict)
-        if self._cookies:
-            copy._cookies = SimpleCookie()
-            copy._cookies.load(self._cookies.output(header=''))
+        copy = cls(status = self.status)
+        copy._headers.update(_copy_headers(self._headers))
+        copy._cookies = _copy_cookies(self._cookies)
         return copy
 
     def __iter__(self):
-- 
2.43.0


From ad90be7fa52b6d0a5233e1c7c253d930e8314a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 28/44] fix: configured error responses are not shared between
 requests

---
 ombott/request_pkg/request.py |  4 +++-
 ombott/response.py            | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index 68eecad..183d1a5 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -1,6 +1,7 @@
 
 from ..common_helpers import ts_props, SimpleConfig
 from ..mixable import Mixable
+from ..response import HTTPResponse
 
 from .props_mixin import PropsMixin
 from .body_mixin import BodyMixin
@@ -41,7 +42,8 @@ class BaseRequest:
         for err_cls in (err.__class__, except_class):
             out_err = errors_map.get(err_cls)
             if out_err:
-                err = out_err
+                # never raise the configured object itself, it is shared by all requests
+                err = out_err.clone() if isinstance(out_err, HTTPResponse) else out_err
                 break
         raise err
 
diff --git a/ombott/response.py b/ombott/response.py
index 301ecda..1e35cb4 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -287,11 +287,18 @@ class HTTPResponse(BaseResponse, OmbottException):
         response._status_code = self._status_code
         response._status_line = self._status_line
         response._headers.clear()
-        response._headers.update(self._headers)
+        response._headers.update(_copy_headers(self._headers))
         if self._cookies:
-            response._cookies = self._cookies
+            response._cookies = _copy_cookies(self._cookies)
         response.body = self.body
 
+    def clone(self):
+        ''' An equal response of the same class, safe to raise and to change. '''
+        clone = self.__class__.__new__(self.__class__)
+        HTTPResponse.__init__(clone)
+        self.apply(clone)
+        return clone
+
 
 class HTTPError(HTTPResponse):
     __slots__ = ('exception', 'traceback')
@@ -303,6 +310,12 @@ class HTTPError(HTTPResponse):
         self.traceback = traceback
         super().__init__(body, status, **options)
 
+    def clone(self):
+        clone = super().clone()
+        clone.exception = self.exception
+        clone.traceback = self.traceback
+        return clone
+
 
 #: A dict to map HTTP status codes (e.g. 404) to phrases (e.g. 'Not Found')
 HTTP_CODES = httplib.responses
-- 
2.43.0


From 98964a44b4022416a6b895f90ac28ab59a1b7552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 29/44] fix: no body with any 1xx status, a lower-case HEAD or
 a HEAD that ends in the critical error page

---
 ombott/ombott.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 0199609..db6aa66 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -400,12 +400,13 @@ class Ombott:
                 environ[config.app_name_header] = '/' + app_name
                 environ["PATH_INFO"] = '/' + app_name + environ["PATH_INFO"]
 
+        is_head = environ.get('REQUEST_METHOD', 'GET').upper() == 'HEAD'
         try:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
             if (
-                response._status_code in {100, 101, 204, 304}
-                or environ['REQUEST_METHOD'] == 'HEAD'
+                response._status_code < 200 or response._status_code in {204, 304}
+                or is_head
             ):
                 close = getattr(out, 'close', None)
                 if close:
@@ -430,7 +431,7 @@ class Ombott:
             environ['wsgi.errors'].write(err)
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
-            return [tob(err)]
+            return [] if is_head else [tob(err)]
 
     def __call__(self, environ, start_response):
         return self.wsgi(environ, start_response)
-- 
2.43.0


From 37eddd01b5483811ff27510f2c1e5f0b0ac00938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 30/44] fix: a response object raised again and again does not
 keep served requests alive

---
 ombott/ombott.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index db6aa66..75f3ed0 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -293,7 +293,8 @@ class Ombott:
             finally:
                 self.emit('after_request')
         except HTTPResponse as resp:
-            return resp
+            # the application may raise one object many times, don't let it collect tracebacks
+            return resp.with_traceback(None)
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
         except Exception as err500:
@@ -360,7 +361,7 @@ class Ombott:
             except StopIteration:
                 out = ''; continue                               # -----------------^
             except HTTPResponse as rs:
-                first = rs
+                first = rs.with_traceback(None)
             except (KeyboardInterrupt, SystemExit, MemoryError):
                 raise
             except Exception as err500:
-- 
2.43.0


From 49b8e265469cb72e187b500e141c203632b8efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 31/44] fix: a handler iterable is closed whenever it is not
 returned to the server, its charset is checked before the response starts

---
 ombott/ombott.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 75f3ed0..1afe314 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -57,6 +57,12 @@ class _closeiter:
         [cb() for cb in self.close_callbacks]
 
 
+def _close(out):
+    close = getattr(out, 'close', None)
+    if close:
+        close()
+
+
 def run(app=None, server='wsgiref', host='127.0.0.1', port=8080,
         quiet=False, **kwargs):
     _stderr = sys.stderr.write
@@ -358,7 +364,12 @@ class Ombott:
                 first = next(iout)
                 while not first:
                     first = next(iout)
+                if isinstance(first, str):
+                    charset = response.charset
+                    first = first.encode(charset)
+                    iout = (it.encode(charset) for it in iout)
             except StopIteration:
+                _close(out)
                 out = ''; continue                               # -----------------^
             except HTTPResponse as rs:
                 first = rs.with_traceback(None)
@@ -370,12 +381,12 @@ class Ombott:
 
             # These are the inner types allowed in iterator or generator objects.
             if isinstance(first, HTTPResponse):
+                _close(out)
                 out = first; continue                            # -----------------^
             elif isinstance(first, bytes):
                 new_iter = itertools.chain([first], iout)
-            elif isinstance(first, str):
-                new_iter = (it.encode(response.charset) for it in itertools.chain([first], iout))
             else:
+                _close(out)
                 out = HTTPError(500, f'Unsupported response type: {type(first)}')
                 continue                                         # -----------------^
             close = getattr(out, 'close', None)
@@ -402,6 +413,7 @@ class Ombott:
                 environ["PATH_INFO"] = '/' + app_name + environ["PATH_INFO"]
 
         is_head = environ.get('REQUEST_METHOD', 'GET').upper() == 'HEAD'
+        out = None
         try:
             out = self._cast(self._handle(environ))
             # rfc2616 section 4.3
@@ -409,15 +421,17 @@ class Ombott:
                 response._status_code < 200 or response._status_code in {204, 304}
                 or is_head
             ):
-                close = getattr(out, 'close', None)
-                if close:
-                    close()
-                out = []
+                unsent, out = out, []
+                _close(unsent)
             start_response(response._status_line, response.headerlist)
             return out
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
         except Exception as _e:
+            try:
+                _close(out)
+            except Exception:
+                environ['wsgi.errors'].write(format_exc())
             if not self.config.catchall:
                 raise
 
-- 
2.43.0


From 09b4fce94c6c39eecb5c1ee767cd8ca503d48be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 32/44] fix: a malformed status line is rejected where it is
 set

---
 ombott/response.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index 1e35cb4..4a030bd 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -3,6 +3,7 @@ import email.utils
 import http.client as httplib
 from http.cookies import SimpleCookie
 import calendar
+import re
 
 from .common_helpers import (
     ts_props,
@@ -30,6 +31,10 @@ def http_date(value):
     return email.utils.formatdate(value, usegmt=True)
 
 
+# three digits and a reason phrase without control characters, encodable as Latin-1
+_STATUS_LINE_PATT = re.compile(r'[0-9]{3} [\x20-\x7e\x80-\xff]+\Z')
+
+
 def _copy_headers(headers):
     return {k: (v[:] if isinstance(v, list) else v) for k, v in headers.items()}
 
@@ -147,9 +152,11 @@ class BaseResponse:
     def status(self, status):
         if isinstance(status, int):
             code, status = status, _HTTP_STATUS_LINES.get(status)
-        elif ' ' in status:
+        elif ' ' in status.strip():
             status = status.strip()
-            code = int(status.split()[0])
+            if not _STATUS_LINE_PATT.match(status):
+                raise ValueError('Malformed status line: %r' % status)
+            code = int(status[:3])
         else:
             raise ValueError('String status line without a reason phrase.')
         if not 100 <= code <= 999:
-- 
2.43.0


From d0573379d8787b60bbe335d4814fb0f42afcb0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 33/44] fix: JSON error body withholds exception and traceback
 unless debug, and is always valid

---
 ombott/ombott.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 1afe314..71f5c4d 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -9,6 +9,7 @@ from urllib.parse import urljoin
 from .common_helpers import (
     html_escape,
     tob,
+    touni,
     cached_property,
     WSGIFileWrapper,
     SimpleConfig,
@@ -236,11 +237,12 @@ class Ombott:
 
     def default_error_handler(self, res):
         if self.request.is_json_requested:
+            debug = self.config.debug
             ret = json.dumps(dict(
                 body = res.body,
-                exception = repr(res.exception),
-                traceback = res.traceback
-            ))
+                exception = repr(res.exception) if debug else None,
+                traceback = res.traceback if debug else None
+            ), default = lambda v: touni(v, err = 'replace'))
             self.response.headers['Content-Type'] = 'application/json'
         else:
             ret = error_render.render(res, self.request.url, self.config.debug)
-- 
2.43.0


From 7dca610b841bf15eb0ae18f7f9f9a6f23658556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 34/44] fix: the critical error page is JSON when JSON is
 requested

---
 ombott/ombott.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 71f5c4d..ee3c6d4 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -447,6 +447,13 @@ class Ombott:
                 )
             environ['wsgi.errors'].write(err)
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
+            if environ.get('HTTP_ACCEPT', '').startswith('application/json'):
+                headers = [('Content-Type', 'application/json')]
+                err = json.dumps(dict(
+                    body = 'Critical error while processing request',
+                    exception = repr(_e) if self.config.debug else None,
+                    traceback = format_exc() if self.config.debug else None
+                ))
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
             return [] if is_head else [tob(err)]
 
-- 
2.43.0


From fa607f2de29ff3edc7703a45832eb3701eb11379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 35/44] fix: entity headers of 204 and 304 are withheld
 whatever their case, 204 has no Content-Length

---
 ombott/response.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index 4a030bd..b9243a5 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -77,13 +77,13 @@ class BaseResponse:
     default_status = 200
     default_content_type = 'text/html; charset=UTF-8'
 
-    # Header blacklist for specific response codes
+    # Header blacklist (lower-cased names) for specific response codes
     # (rfc2616 section 10.2.3 and 10.3.5)
     bad_headers = {
-        204: {'Content-Type'},
-        304: {'Allow', 'Content-Encoding', 'Content-Language',
-              'Content-Length', 'Content-Range', 'Content-Type',
-              'Content-Md5', 'Last-Modified'}
+        204: {'content-type', 'content-length'},
+        304: {'allow', 'content-encoding', 'content-language',
+              'content-length', 'content-range', 'content-type',
+              'content-md5', 'last-modified'}
     }
 
     def __new__(cls, *a, **kw):
@@ -170,10 +170,10 @@ class BaseResponse:
         headers = self._headers.items()
         bad_headers = self.bad_headers.get(self._status_code)
         if bad_headers:
-            headers = (h for h in headers if h[0] not in bad_headers)
+            headers = (h for h in headers if h[0].lower() not in bad_headers)
             need_ctype = False
         else:
-            need_ctype = 'Content-Type' not in self._headers
+            need_ctype = all(name.lower() != 'content-type' for name in self._headers)
         out = [
             (name, val.encode('utf8').decode('latin1'))
             for (name, vals) in headers
-- 
2.43.0


From bc819e60a8e32e031b2da5a08a56204a5f46cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 36/44] fix: a cookie attribute with control characters is
 rejected

---
 ombott/response.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ombott/response.py b/ombott/response.py
index b9243a5..d48c9f4 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -11,6 +11,7 @@ from .common_helpers import (
     cookie_encode,
     parse_date,
     HeaderDict, HeaderProperty,
+    _hval,
 )
 from .errors import OmbottException
 
@@ -255,6 +256,8 @@ class BaseResponse:
                     value = value.seconds + value.days * 24 * 3600
             if key == 'expires':
                 value = http_date(value)
+            if isinstance(value, str):
+                value = _hval(value)  # SimpleCookie does not quote attributes
             self._cookies[name][key.replace('_', '-')] = value
 
     def delete_cookie(self, key, **kwargs):
-- 
2.43.0


From eb7b04494d6b804c81136aac40f5e8690c69eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 37/44] fix: empty and non-ASCII cookie values are read back as
 they were set

---
 ombott/request_pkg/props_mixin.py | 9 +++++++--
 ombott/response.py                | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index bbbff5a..448aee0 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -61,10 +61,15 @@ class PropsMixin:
             :meth:`BaseResponse.set_cookie`). If anything goes wrong (missing
             cookie or wrong signature), return a default value. """
         value = self.cookies.get(key)
-        if secret and value:
+        if value is None:
+            return default
+        if secret:
             dec = cookie_decode(value, secret)  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
-        return value or default
+        try:
+            return value.encode('latin1').decode('utf8')
+        except UnicodeError:
+            return value
 
     @cache_in('environ[ ombott.request.params ]', read_only=True)
     def params(self):
diff --git a/ombott/response.py b/ombott/response.py
index d48c9f4..58f15c7 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -248,7 +248,8 @@ class BaseResponse:
         if len(value) > 4096:
             raise ValueError('Cookie value to long.')
 
-        self._cookies[name] = value
+        # keep UTF-8 bytes as Latin-1 text, SimpleCookie quotes it as plain ASCII
+        self._cookies[name] = value.encode('utf8').decode('latin1')
 
         for key, value in options.items():
             if key == 'max_age':
-- 
2.43.0


From c79163d88b372b3140fe99370cece219273dd31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 38/44] fix: HTTP dates do not depend on the server time zone

---
 ombott/common_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index c39948a..e2bf506 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -6,7 +6,7 @@ import pickle
 import hmac
 import hashlib
 import email.utils
-import time
+import calendar
 from . import errors
 
 
@@ -14,7 +14,7 @@ def parse_date(ims):
     """ Parse rfc1123, rfc850 and asctime timestamps and return UTC epoch. """
     try:
         ts = email.utils.parsedate_tz(ims)
-        return time.mktime(ts[:8] + (0,)) - (ts[9] or 0) - time.timezone
+        return calendar.timegm(ts[:8] + (0,)) - (ts[9] or 0)
     except (TypeError, ValueError, IndexError, OverflowError):
         return None
 
-- 
2.43.0


From 3f20d1cefd640866e0214ef80f771c5cbbda9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 39/44] fix: an unsatisfiable range does not leave the file
 open

---
 ombott/static_stream.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index 569b257..068a49b 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -108,14 +108,17 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
         headers['Date'] = email.utils.formatdate(time.time(), usegmt=True)
         return HTTPResponse(status=304, **headers)
 
-    body = '' if request.method == 'HEAD' else open(filename, 'rb')
-
     headers["Accept-Ranges"] = "bytes"
     range_header = env_get('HTTP_RANGE')
+    first_range = None
     if range_header:
         first_range = get_first_range(range_header, clen)
         if not first_range:
             return HTTPError(416, "Requested Range Not Satisfiable")
+
+    body = '' if request.method == 'HEAD' else open(filename, 'rb')
+
+    if first_range:
         offset, end = first_range
         headers["Content-Range"] = f"bytes {offset}-{end-1}/{clen}"
         headers["Content-Length"] = str(end - offset)
-- 
2.43.0


From 681601e7b6b5ed6950a3cabba3ec56ce62f7173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 40/44] fix: setdefault checks every value of a list for
 control characters

---
 ombott/common_helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index e2bf506..9fd1be6 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -272,7 +272,9 @@ class HeaderDict(DictMixin):
         return ret
 
     def setdefault(self, key, value):
-        return self._ts.dict.setdefault(key, _hval(value) if not isinstance(value, list) else value)
+        return self._ts.dict.setdefault(
+            key, [_hval(v) for v in value] if isinstance(value, list) else _hval(value)
+        )
 
     def append(self, key, value):
         d = self._ts.dict
-- 
2.43.0


From 16651a502d7dbc57b15db6c113273c5c71f03dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 41/44] fix: a cookie with control characters reads as absent
 instead of failing the request

---
 ombott/request_pkg/props_mixin.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 448aee0..9fa510a 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -1,5 +1,5 @@
 import base64
-from http.cookies import SimpleCookie
+from http.cookies import SimpleCookie, CookieError
 from urllib.parse import (
     quote as urlquote,
     SplitResult as UrlSplitResult
@@ -52,8 +52,18 @@ class PropsMixin:
     def cookies(self):
         """ Cookies parsed into a :class:`CookieDict`. Signed cookies are NOT
             decoded. Use :meth:`get_cookie` if you expect signed cookies. """
-        cookies = SimpleCookie(self._env_get('HTTP_COOKIE', '')).values()
-        return self._cookie_factory((c.key, c.value) for c in cookies)
+        header = self._env_get('HTTP_COOKIE', '')
+        jar = SimpleCookie()
+        try:
+            jar.load(header)
+        except CookieError:
+            # a cookie that http.cookies refuses reads as absent, the others stay
+            for cookie in header.split(';'):
+                try:
+                    jar.load(cookie)
+                except CookieError:
+                    continue
+        return self._cookie_factory((c.key, c.value) for c in jar.values())
 
     def get_cookie(self, key, default=None, secret=None):
         """ Return the content of a cookie. To read a `Signed Cookie`, the
-- 
2.43.0


From d42cd1d87c0a474282a8c92c7b1a965ac2797607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 42/44] fix: an empty If-Modified-Since header is ignored

---
 ombott/static_stream.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index 068a49b..3a1bfae 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -102,8 +102,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
     headers['Last-Modified'] = email.utils.formatdate(stats.st_mtime, usegmt=True)
 
     ims = env_get('HTTP_IF_MODIFIED_SINCE')
-    if ims:
-        ims = parse_date(ims.split(";")[0].strip())
+    ims = parse_date(ims.split(";")[0].strip()) if ims else None
     if ims is not None and ims >= int(stats.st_mtime):
         headers['Date'] = email.utils.formatdate(time.time(), usegmt=True)
         return HTTPResponse(status=304, **headers)
-- 
2.43.0


From 78caf883c2283eaf3b59b3a9d3847f8fc7d6b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 43/44] fix: url() writes a large float without fraction, so a
 following '.<digits>' is read as part of it

---
 ombott/router/filter_factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index 12c18b6..e689fe7 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -37,7 +37,9 @@ def _float(s):
 
 def _float_out(x):
     # positional notation, the filter does not match an exponent
-    return format(Decimal(repr(float(x))), 'f')
+    ret = format(Decimal(repr(float(x))), 'f')
+    # without a fraction, a dot and digits that follow would be read as one
+    return ret if '.' in ret else ret + '.0'
 
 
 class FilterFactory:
-- 
2.43.0


From 3ac5a18f0786b39cbfdca74b90bd23dca3270998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 44/44] fix: part header options are parsed in linear time

---
 ombott/request_pkg/multipart.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index e4431cc..89e2978 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -391,7 +391,7 @@ class Header(SimpleNamespace):
 class FieldStorage:
 
     # `; key`, `; key=token` or `; key="anything but a double quote"`
-    _patt = re.compile(r';\s*([^=;]*?)\s*(?:=\s*(?:"([^"]*)"|([^;]*?)))?\s*(?=;|\Z)')
+    _patt = re.compile(r';([^=;]*)(?:=\s*(?:"([^"]*)"\s*(?=;|\Z)|([^;]*)))?')
 
     name: str
     value: Optional[str]
@@ -466,8 +466,8 @@ class FieldStorage:
             if quoted is not None:
                 v = quoted
             elif v is not None:
-                v = v.strip('"')
-            dct[k.lower()] = v
+                v = v.strip().strip('"')
+            dct[k.strip().lower()] = v
         return Header(name=htype.strip(), value=rest.split(';', 1)[0].strip(), raw=rest.strip(), options=dct)
 
     @classmethod
-- 
2.43.0

