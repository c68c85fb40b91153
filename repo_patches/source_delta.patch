From cd1e69d8fd1c9647dc0f9bc407849d44c589460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 01/26] fix: read JSON files and remote JSON resources as UTF-8

JSON text is UTF-8 (RFC 8259). Files were decoded with the platform's default
encoding, remote resources with whatever encoding requests guessed or took from
the media type's default, so non-ASCII strings could be silently altered.
---
 jschon/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/utils.py b/jschon/utils.py
index adff27b..1a9b0ea 100644
--- a/jschon/utils.py
+++ b/jschon/utils.py
@@ -45,7 +45,7 @@ def json_dumps(obj: Any) -> str:
 
 def json_loadf(path: Union[str, PathLike]) -> Any:
     """Deserialize a JSON file, returning a JSON-compatible Python object."""
-    with open(path) as f:
+    with open(path, encoding='utf-8') as f:
         return json.load(f, parse_constant=_parse_invalid_const)
 
 
@@ -55,10 +55,10 @@ def json_loadr(url: str) -> Any:
         _import_requests()
     r = requests.get(url)
     r.raise_for_status()
-    return r.json(parse_constant=_parse_invalid_const)
+    return json_loads(r.content)
 
 
-def json_loads(value: str) -> Any:
+def json_loads(value: Union[str, bytes]) -> Any:
     """Deserialize a JSON string, returning a JSON-compatible Python object."""
     return json.loads(value, parse_constant=_parse_invalid_const)
 
-- 
2.43.0


From 388cb83654527885bc4125380a6e0ad3059ee178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 02/26] fix: write JSON files as UTF-8, and only after
 serialization has succeeded

A document that could not be serialized (NaN, infinity, lone surrogates, or a
character missing from the platform's default encoding) destroyed the previous
content of the file.
---
 jschon/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jschon/utils.py b/jschon/utils.py
index 1a9b0ea..c1931e9 100644
--- a/jschon/utils.py
+++ b/jschon/utils.py
@@ -34,8 +34,9 @@ def tuplify(value: Any) -> Tuple:
 
 def json_dumpf(obj: Any, path: Union[str, PathLike]) -> None:
     """Serialize a JSON-compatible Python object to a JSON file."""
-    with open(path, 'w') as f:
-        json.dump(obj, f, ensure_ascii=False, allow_nan=False, default=_serialize_custom_obj)
+    data = json_dumps(obj).encode('utf-8')
+    with open(path, 'wb') as f:
+        f.write(data)
 
 
 def json_dumps(obj: Any) -> str:
-- 
2.43.0


From 6950b0a5009ced694ee462c5cd4d7f653422d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 03/26] fix: loading a resource must not fail when another
 thread adds a source

---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 3d6cf5e..c70700a 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -147,7 +147,7 @@ class Catalog:
         uristr = str(uri)
         candidates = [
             (prefix, source)
-            for prefix, source in self._uri_sources.items()
+            for prefix, source in tuple(self._uri_sources.items())
             if uristr.startswith(prefix)
         ]
         if candidates:
-- 
2.43.0


From 6b4afbd6087c0385bf4fe7046b9d1ee70545f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 04/26] fix: leave no trace of a failed schema construction in
 the catalog

Schemas are cached before their keywords are constructed and references
resolved. When that failed (for instance because a referenced resource could
not be loaded at the time), the half-built schema stayed in the cache and was
returned by the next lookup: it silently lacked assertions, or crashed on
evaluation. Likewise an invalid metaschema was refused on the first access only,
and a partly initialized catalog replaced the previous one of the same name.
---
 jschon/__init__.py         | 12 +++++++++--
 jschon/atomic.py           | 42 ++++++++++++++++++++++++++++++++++++++
 jschon/catalog/__init__.py | 22 +++++++++++++++++++-
 jschon/jsonschema.py       |  2 ++
 4 files changed, 75 insertions(+), 3 deletions(-)
 create mode 100644 jschon/atomic.py

diff --git a/jschon/__init__.py b/jschon/__init__.py
index 2dec870..56aac94 100644
--- a/jschon/__init__.py
+++ b/jschon/__init__.py
@@ -35,6 +35,7 @@ def create_catalog(*versions: str, name: str = 'catalog') -> Catalog:
     """
     from .catalog import _2019_09, _2020_12, _next
 
+    previous = Catalog._catalog_registry.get(name)
     catalog = Catalog(name=name)
 
     version_initializers = {
@@ -47,7 +48,14 @@ def create_catalog(*versions: str, name: str = 'catalog') -> Catalog:
             version_init = version_initializers[version]
             version_init(catalog)
 
-    except KeyError as e:
-        raise ValueError(f'Unrecognized version {e.args[0]!r}')
+    except BaseException as e:
+        # an incompletely initialized catalog must not be found by name
+        if previous is not None:
+            Catalog._catalog_registry[name] = previous
+        else:
+            Catalog._catalog_registry.pop(name, None)
+        if isinstance(e, KeyError):
+            raise ValueError(f'Unrecognized version {e.args[0]!r}')
+        raise
 
     return catalog
diff --git a/jschon/atomic.py b/jschon/atomic.py
new file mode 100644
index 0000000..9b50a48
--- /dev/null
+++ b/jschon/atomic.py
@@ -0,0 +1,42 @@
+"""All-or-nothing changes to the schema caches."""
+from functools import wraps
+from typing import Callable, List
+
+__all__ = [
+    'atomic',
+    'on_rollback',
+]
+
+_undo_log: List[Callable[[], None]] = []
+_depth = 0
+
+
+def atomic(f: Callable) -> Callable:
+    """A decorator for functions that change schema caches: if `f` raises
+    an exception, every change that was made since it was called -- by itself,
+    or by any schema construction within it -- is undone. Calls may be nested.
+    """
+
+    @wraps(f)
+    def wrapper(*args, **kwargs):
+        global _depth
+        savepoint = len(_undo_log)
+        _depth += 1
+        try:
+            return f(*args, **kwargs)
+        except BaseException:
+            while len(_undo_log) > savepoint:
+                _undo_log.pop()()
+            raise
+        finally:
+            _depth -= 1
+            if not _depth:
+                _undo_log.clear()
+
+    return wrapper
+
+
+def on_rollback(undo: Callable[[], None]) -> None:
+    """Register a function that reverses a change being made to a schema cache."""
+    if _depth:
+        _undo_log.append(undo)
diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index c70700a..422dabf 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -3,10 +3,12 @@ from __future__ import annotations
 import pathlib
 import uuid
 from contextlib import contextmanager
+from functools import partial
 from importlib import import_module
 from os import PathLike
-from typing import Any, ContextManager, Dict, Hashable, Set, Union
+from typing import Any, ContextManager, Dict, Hashable, Optional, Set, Union
 
+from jschon.atomic import atomic, on_rollback
 from jschon.exc import CatalogError, JSONPointerError, URIError
 from jschon.json import JSONCompatible
 from jschon.jsonpointer import JSONPointer
@@ -188,6 +190,7 @@ class Catalog:
         except KeyError:
             raise CatalogError(f"Unrecognized vocabulary URI '{uri}'")
 
+    @atomic
     def create_metaschema(
             self,
             uri: URI,
@@ -237,6 +240,7 @@ class Catalog:
             )
         return metaschema
 
+    @atomic
     def get_metaschema(self, uri: URI) -> Metaschema:
         """Get a metaschema identified by `uri` from the ``'__meta__'`` cache, or
         load it from configured sources if not already cached.
@@ -293,6 +297,7 @@ class Catalog:
         :param schema: the :class:`~jschon.jsonschema.JSONSchema` instance to cache
         :param cacheid: schema cache identifier
         """
+        self._on_rollback_restore(uri, cacheid)
         self._schema_cache.setdefault(cacheid, {})
         self._schema_cache[cacheid][uri] = schema
 
@@ -308,8 +313,23 @@ class Catalog:
         :param cacheid: schema cache identifier
         """
         if cacheid in self._schema_cache:
+            self._on_rollback_restore(uri, cacheid)
             self._schema_cache[cacheid].pop(uri, None)
 
+    def _on_rollback_restore(self, uri: URI, cacheid: Hashable) -> None:
+        if cacheid not in self._schema_cache:
+            on_rollback(partial(self._schema_cache.pop, cacheid, None))
+        else:
+            schema = self._schema_cache[cacheid].get(uri)
+            on_rollback(partial(self._restore_schema, uri, schema, cacheid))
+
+    def _restore_schema(self, uri: URI, schema: Optional[JSONSchema], cacheid: Hashable) -> None:
+        if schema is not None:
+            self._schema_cache.setdefault(cacheid, {})[uri] = schema
+        elif cacheid in self._schema_cache:
+            self._schema_cache[cacheid].pop(uri, None)
+
+    @atomic
     def get_schema(
             self,
             uri: URI,
diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 894d5df..a3815c9 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -6,6 +6,7 @@ from functools import cached_property
 from typing import Any, ContextManager, Dict, Hashable, Iterator, Mapping, Optional, TYPE_CHECKING, Tuple, Type, Union
 from uuid import uuid4
 
+from jschon.atomic import atomic
 from jschon.exc import JSONSchemaError
 from jschon.json import JSON, JSONCompatible
 from jschon.jsonpointer import JSONPointer
@@ -24,6 +25,7 @@ __all__ = [
 class JSONSchema(JSON):
     """JSON schema document model."""
 
+    @atomic
     def __init__(
             self,
             value: Union[bool, Mapping[str, JSONCompatible]],
-- 
2.43.0


From bacd2735b97b5e983161bc5726dba5051f016574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 05/26] fix: threads must not see schemas that are still under
 construction

Schemas are cached before they are complete, so a thread could look up -- and
evaluate -- a schema while another one was still constructing it, missing
assertions or crashing. Two threads could also load the same resource twice,
ending up with different schema objects for one URI.
---
 jschon/atomic.py           | 30 ++++++++++++++++++------------
 jschon/catalog/__init__.py |  2 ++
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/jschon/atomic.py b/jschon/atomic.py
index 9b50a48..8da1ade 100644
--- a/jschon/atomic.py
+++ b/jschon/atomic.py
@@ -1,5 +1,6 @@
 """All-or-nothing changes to the schema caches."""
 from functools import wraps
+from threading import RLock
 from typing import Callable, List
 
 __all__ = [
@@ -7,6 +8,7 @@ __all__ = [
     'on_rollback',
 ]
 
+_lock = RLock()
 _undo_log: List[Callable[[], None]] = []
 _depth = 0
 
@@ -15,23 +17,27 @@ def atomic(f: Callable) -> Callable:
     """A decorator for functions that change schema caches: if `f` raises
     an exception, every change that was made since it was called -- by itself,
     or by any schema construction within it -- is undone. Calls may be nested.
+
+    Threads take turns: none gets to see another one's schemas until they are
+    completely constructed.
     """
 
     @wraps(f)
     def wrapper(*args, **kwargs):
         global _depth
-        savepoint = len(_undo_log)
-        _depth += 1
-        try:
-            return f(*args, **kwargs)
-        except BaseException:
-            while len(_undo_log) > savepoint:
-                _undo_log.pop()()
-            raise
-        finally:
-            _depth -= 1
-            if not _depth:
-                _undo_log.clear()
+        with _lock:
+            savepoint = len(_undo_log)
+            _depth += 1
+            try:
+                return f(*args, **kwargs)
+            except BaseException:
+                while len(_undo_log) > savepoint:
+                    _undo_log.pop()()
+                raise
+            finally:
+                _depth -= 1
+                if not _depth:
+                    _undo_log.clear()
 
     return wrapper
 
diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 422dabf..af58131 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -282,6 +282,7 @@ class Catalog:
         False otherwise."""
         return format_attr in self._enabled_formats
 
+    @atomic
     def add_schema(
             self,
             uri: URI,
@@ -301,6 +302,7 @@ class Catalog:
         self._schema_cache.setdefault(cacheid, {})
         self._schema_cache[cacheid][uri] = schema
 
+    @atomic
     def del_schema(
             self,
             uri: URI,
-- 
2.43.0


From 7e34ae0d52a5199b09ba1816a773943d32338673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:50 +0000
Subject: [PATCH 06/26] fix: a cache identifier is in use as soon as its
 context has been entered

As long as nothing had been cached, the same identifier could be opened again,
and the inner context removed the schemas of the outer one on exit.
---
 jschon/catalog/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index af58131..419ca89 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -404,7 +404,8 @@ class Catalog:
         if cacheid is None:
             cacheid = uuid.uuid4()
 
-        if cacheid in self._schema_cache:
+        # setdefault, so that the identifier is in use from here on
+        if self._schema_cache.setdefault(cacheid, (cache := {})) is not cache:
             raise CatalogError("cache identifier is already in use")
 
         try:
-- 
2.43.0


From d38a48066b6fe5f68368e563fe2063a5793af446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:50 +0000
Subject: [PATCH 07/26] fix: check array indices when evaluating a JSON pointer
 on a JSON array

Operator precedence limited the check to plain sequences: on a JSON array,
'/-1' referred to the last item and '/x' raised ValueError.
---
 jschon/jsonpointer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 0104b4e..48409f3 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -207,9 +207,9 @@ class JSONPointer(Sequence[str]):
                         not isjson and isinstance(value, Mapping):
                     return resolve(value[key], keys)
 
-                if isjson and value.type == "array" or \
-                        not isjson and isinstance(value, Sequence) and \
-                        not isinstance(value, str) and \
+                if (isjson and value.type == "array" or
+                    not isjson and isinstance(value, Sequence) and
+                    not isinstance(value, str)) and \
                         JSONPointer._array_index_re.fullmatch(key):
                     return resolve(value[int(key)], keys)
 
-- 
2.43.0


From 009850a3574201aa33ef89642117301a1d910c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:50 +0000
Subject: [PATCH 08/26] fix: a failed replacement of a whole JSON document must
 not change its type

add, remove and replace with an empty path re-initialize the node; when the new
value turned out not to be JSON-compatible, the node was left with the new
type but the old data.
---
 jschon/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index 56ea542..ba1705d 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -134,18 +134,18 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
             self.data = value
 
         elif isinstance(value, Sequence):
-            self.type = "array"
             self.data = [
                 self.itemclass(v, parent=self, key=str(i), **self.itemkwargs)
                 for i, v in enumerate(value)
             ]
+            self.type = "array"
 
         elif isinstance(value, Mapping):
-            self.type = "object"
             self.data = {
                 k: self.itemclass(v, parent=self, key=k, **self.itemkwargs)
                 for k, v in value.items()
             }
+            self.type = "object"
 
         else:
             raise TypeError(f"{value=} is not JSON-compatible")
-- 
2.43.0


From d8bec054ceebde5eca9532adbe67824e947a0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 09/26] fix: negative array positions must not corrupt the keys
 of array items

del doc[-1] (and thus doc.pop()), doc[-1] = x and doc.insert(-1, x) left
array items with keys, and therefore paths, that do not match their positions.
---
 jschon/json.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index ba1705d..6ab1316 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -238,6 +238,10 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array' and index < 0:
+            index += len(self.data)
+            if index < 0:
+                raise IndexError('array index out of range')
         self.data[index] = self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
@@ -251,6 +255,10 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array' and index < 0:
+            index += len(self.data)
+            if index < 0:
+                raise IndexError('array index out of range')
         del self.data[index]
         self._invalidate_value()
         if self.type == 'array':
@@ -263,6 +271,9 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON type ``array``.
         """
+        if index < 0:
+            index += len(self.data)
+        index = min(max(index, 0), len(self.data))
         self.data.insert(index, self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
-- 
2.43.0


From b885bbbdee8189720a13ff158f16b84151a03648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 10/26] fix: clear() and pop() of JSON objects

JSON inherits these from MutableSequence, whose clear() fails on an object and
whose pop() does not accept a default.
---
 jschon/json.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index 6ab1316..2b22a16 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -285,6 +285,25 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
             item.key = str(int(item.key) + 1)
             item._invalidate_path()
 
+    def pop(self, *args: Any) -> JSON:
+        """Remove an item and return it.
+
+        Supported for JSON types ``array`` and ``object``.
+        """
+        if self.type == 'object':
+            return MutableMapping.pop(self, *args)
+        return MutableSequence.pop(self, *args)
+
+    def clear(self) -> None:
+        """Remove all items.
+
+        Supported for JSON types ``array`` and ``object``.
+        """
+        if self.type == 'object':
+            MutableMapping.clear(self)
+        else:
+            MutableSequence.clear(self)
+
     def __eq__(self, other: Union[JSON, JSONCompatible]) -> bool:
         """Return `self == other`."""
         if not isinstance(other, JSON):
-- 
2.43.0


From 065c3d31c9abc04ff03b59ed8887b7bec467b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 11/26] fix: reject malformed array indices when modifying JSON
 documents

Per RFC 6901, '01', '+1', ' 1' and '1_0' are not array indices.
---
 jschon/json.py      | 8 ++++----
 jschon/jsonpatch.py | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index 2b22a16..b9d5945 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -386,11 +386,11 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         if target_parent.type == 'array':
             try:
-                if target_key == '-' or int(target_key) == len(target_parent):
+                if target_key == '-':
                     target_index = len(target_parent)
-                elif 0 <= int(target_key) < len(target_parent):
-                    target_index = int(target_key)
-                else:
+                elif not JSONPointer._array_index_re.fullmatch(target_key):
+                    raise ValueError
+                elif (target_index := int(target_key)) > len(target_parent):
                     raise ValueError
             except ValueError:
                 raise JSONError(f'Invalid array index {target_key}')
diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 783cba8..76c9134 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -207,7 +207,9 @@ class Node:
 
         if isinstance(parent, Sequence):
             try:
-                if key == '-' or int(key) == len(parent):
+                if key != '-' and not JSONPointer._array_index_re.fullmatch(key):
+                    raise ValueError
+                elif key == '-' or int(key) == len(parent):
                     self.type = NodeType.ARRAY_ITEM_NEW
                     self.index = len(parent)
                 elif 0 <= int(key) < len(parent):
-- 
2.43.0


From 2bea90974754c82bedb23a76e3392dfe94b77df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 12/26] fix: a JSON patch targeting a child of a scalar value
 must fail with JSONPatchError

---
 jschon/jsonpatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 76c9134..f7ea4c5 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -205,7 +205,7 @@ class Node:
         except JSONPointerError as e:
             raise JSONPatchError(f'Expecting an array or object at {path[:-1]}') from e
 
-        if isinstance(parent, Sequence):
+        if isinstance(parent, Sequence) and not isinstance(parent, str):
             try:
                 if key != '-' and not JSONPointer._array_index_re.fullmatch(key):
                     raise ValueError
@@ -226,7 +226,7 @@ class Node:
             self.index = key
 
         else:
-            assert False
+            raise JSONPatchError(f'Expecting an array or object at {path[:-1]}')
 
 
 def add(
-- 
2.43.0


From ba9f4601022fd3a5dc9878d7129cc59ba3b80f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 13/26] fix: a JSON patch must not move a value into one of its
 own children

The check (RFC 6902, section 4.4) was missing, so that moving an array item
into itself actually changed the item following it.
---
 jschon/jsonpatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index f7ea4c5..14bead8 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -293,6 +293,9 @@ def move(
         from_: JSONPointer,
 ) -> JSONCompatible:
     """Move the value at `from_` in `document` to `path`."""
+    if from_ < path:
+        raise JSONPatchError(f'Cannot move {from_} to its own descendant {path}')
+
     try:
         value = from_.evaluate(document)
     except JSONPointerError as e:
-- 
2.43.0


From 4f96e0e734464b4ec65c8fb5fc01c8fb3d53b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 14/26] fix: resolve $dynamicRef without consulting the catalog
 during evaluation

Evaluating a schema could load (and keep) unrelated resources from catalog
sources, and gave different results once a schema's cache context had been
exited or a schema had been removed from or replaced in the catalog. A
$dynamicRef to a boolean schema also failed with a TypeError.
---
 jschon/jsonschema.py      |  4 ++++
 jschon/vocabulary/core.py | 20 ++++----------------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index a3815c9..e7a93a5 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -73,6 +73,10 @@ class JSONSchema(JSON):
         """A dictionary of the schema's :class:`~jschon.vocabulary.Keyword`
         objects, indexed by keyword name."""
 
+        self.dynamic_anchors: Dict[str, JSONSchema] = {}
+        """If the schema is at the root of a resource, the (sub)schemas within
+        that resource containing ``"$dynamicAnchor"``, indexed by anchor name."""
+
         # do not call super().__init__
         # all inherited attributes are initialized here:
 
diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index bd222e0..94bec6f 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -139,7 +139,8 @@ class DynamicRefKeyword(Keyword):
         self.refschema = self.parentschema.catalog.get_schema(
             uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid
         )
-        if (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
+        dynamic_anchor = self.refschema.keywords.get("$dynamicAnchor")
+        if dynamic_anchor is not None and dynamic_anchor.json.data == self.fragment:
             self.dynamic = True
 
     def evaluate(self, instance: JSON, result: Result) -> None:
@@ -147,22 +148,8 @@ class DynamicRefKeyword(Keyword):
 
         if self.dynamic:
             target = result
-            checked_uris = set()
-
             while target is not None:
-                if (base_uri := target.schema.base_uri) is not None and base_uri not in checked_uris:
-                    checked_uris |= {base_uri}
-                    target_uri = URI(f"#{self.fragment}").resolve(base_uri)
-                    try:
-                        found_schema = self.parentschema.catalog.get_schema(
-                            target_uri, cacheid=self.parentschema.cacheid
-                        )
-                        if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
-                                dynamic_anchor.data == self.fragment:
-                            refschema = found_schema
-                    except CatalogError:
-                        pass
-
+                refschema = target.schema.resource_rootschema.dynamic_anchors.get(self.fragment, refschema)
                 target = target.parent
 
         refschema.evaluate(instance, result)
@@ -182,6 +169,7 @@ class DynamicAnchorKeyword(Keyword):
             raise JSONSchemaError(f'No base URI for "$dynamicAnchor" value "{value}"')
 
         parentschema.catalog.add_schema(uri, parentschema, cacheid=parentschema.cacheid)
+        parentschema.resource_rootschema.dynamic_anchors[value] = parentschema
 
 
 class DefsKeyword(Keyword, ObjectOfSubschemas):
-- 
2.43.0


From 1a927aa6ef89b5cc6a4e936907d62bfa898b38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 15/26] fix: complete the rollback of a schema construction
 that ran out of stack space

---
 jschon/atomic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jschon/atomic.py b/jschon/atomic.py
index 8da1ade..e2bb0d8 100644
--- a/jschon/atomic.py
+++ b/jschon/atomic.py
@@ -32,7 +32,10 @@ def atomic(f: Callable) -> Callable:
                 return f(*args, **kwargs)
             except BaseException:
                 while len(_undo_log) > savepoint:
-                    _undo_log.pop()()
+                    # if this fails, for lack of stack space, it stays
+                    # in the log and is repeated by an outer call
+                    _undo_log[-1]()
+                    _undo_log.pop()
                 raise
             finally:
                 _depth -= 1
-- 
2.43.0


From d7d9fd11767767e4ab4e3f36068677d802af4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 16/26] fix: an empty fragment is not part of a schema's $id

---
 jschon/vocabulary/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index 94bec6f..dec0c8f 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -70,6 +70,7 @@ class IdKeyword(Keyword):
         super().__init__(parentschema, value)
 
         (uri := URI(value)).validate(allow_non_empty_fragment=False)
+        uri = uri.copy(fragment=False)  # an empty fragment is not part of the identifier
         if not uri.is_absolute():
             if (base_uri := parentschema.base_uri) is not None:
                 uri = uri.resolve(base_uri)
-- 
2.43.0


From 5cc4b6704c4bdd6bfe5082daa6710b5b71c173f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 17/26] fix: accept any string as the name of an unknown
 keyword

---
 jschon/vocabulary/__init__.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 98d346b..01b2539 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -99,11 +99,8 @@ class Metaschema(JSONSchema):
         try:
             return self.kwclasses[key]
         except KeyError:
-            unknown_class = type(
-                f'UnknownKeyword{key[0].upper() + key[1:]}',
-                (_UnknownKeyword,),
-                dict(key=key),
-            )
+            # the key may be any string, including one that cannot be a class name
+            unknown_class = type('UnknownKeyword', (_UnknownKeyword,), dict(key=key))
             self.kwclasses[key] = unknown_class
             return unknown_class
 
-- 
2.43.0


From 97507463eb84cfb2132e8ebd833e6862c79313a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 18/26] fix: exact arithmetic in multipleOf

---
 jschon/vocabulary/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 70b8e28..2f06dc6 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -1,5 +1,5 @@
 import re
-from decimal import Decimal, InvalidOperation
+from fractions import Fraction
 
 from jschon.json import JSON
 from jschon.jsonschema import JSONSchema, Result
@@ -69,9 +69,9 @@ class MultipleOfKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         try:
-            if Decimal(f'{instance.data}') % Decimal(f'{self.json.data}') != 0:
+            if Fraction(f'{instance.data}') % Fraction(f'{self.json.data}') != 0:
                 result.fail(f"The value must be a multiple of {self.json}")
-        except InvalidOperation:
+        except (ValueError, ZeroDivisionError):
             result.fail(f"Invalid operation: {instance} % {self.json}")
 
 
-- 
2.43.0


From 004791bad9818a9e2105ae934f8a5443aa774d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 19/26] fix: boolean items (2019-09) evaluate items like any
 other schema

---
 jschon/vocabulary/legacy.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index b6ef3c3..aaf922e 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -61,9 +61,6 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
         if len(instance) == 0:
             return
 
-        elif isinstance(self.json.data, bool):
-            self.json.evaluate(instance, result)
-
         elif isinstance(self.json, JSONSchema):
             for index, item in enumerate(instance):
                 self.json.evaluate(item, result)
-- 
2.43.0


From 4826953cc3ab55a3c91788a59b1ed3689dad8bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 20/26] fix: a failing subschema of 'not' leaves no annotations
 behind

---
 jschon/vocabulary/applicator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index b128109..9422d56 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -84,6 +84,9 @@ class NotKeyword(Keyword, Subschema):
             result.fail('The instance must not be valid against the subschema')
         else:
             result.pass_()
+            # there are no annotations to be had from a failing subschema
+            for child in result.children.values():
+                child.discard()
 
 
 class IfKeyword(Keyword, Subschema):
-- 
2.43.0


From b5bf01479a68b415ab01a3f4f591e73bb19bd067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 21/26] fix: find the root of a schema also while its parents
 are still empty

---
 jschon/jsonschema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index e7a93a5..18817d2 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -247,7 +247,7 @@ class JSONSchema(JSON):
         if '$id' in self.keywords:
             return self
         ancestor = self
-        while ancestor.parentschema:
+        while ancestor.parentschema is not None:
             ancestor = ancestor.parentschema
             if '$id' in ancestor.keywords:
                 return ancestor
@@ -262,7 +262,7 @@ class JSONSchema(JSON):
         this method returns `self`.
         """
         ancestor = self
-        while ancestor.parentschema:
+        while ancestor.parentschema is not None:
             ancestor = ancestor.parentschema
         return ancestor
 
-- 
2.43.0


From 2c6185b5e1df291669458785a72f06985b7fe31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:44 +0000
Subject: [PATCH 22/26] fix: accept metaschemas that were first loaded through
 a reference

A metaschema that another one references (say, to extend it) is put in the
'__meta__' cache as an ordinary schema; when a schema named it with $schema
afterwards, it was refused as not being a metaschema.
---
 jschon/catalog/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 419ca89..5369745 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -263,6 +263,11 @@ class Catalog:
         if not metaschema:
             metaschema = self.create_metaschema(uri)
 
+        elif not isinstance(metaschema, Metaschema) and metaschema.cacheid == '__meta__':
+            # it was loaded as an ordinary schema, being referenced
+            # by another metaschema
+            metaschema = self.create_metaschema(uri)
+
         if not isinstance(metaschema, Metaschema):
             raise CatalogError(f"The schema referenced by {uri} is not a metaschema")
 
-- 
2.43.0


From eca7f8f5fd4f454186a57bc3a83acd41bc827cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 23/26] fix: find an empty metaschema in the cache

get_metaschema() took a metaschema without keywords (which can be created
with default vocabularies) for a missing one, and tried to load it again.
---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 5369745..3d2f9ef 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -260,7 +260,7 @@ class Catalog:
         except KeyError:
             metaschema = None
 
-        if not metaschema:
+        if metaschema is None:
             metaschema = self.create_metaschema(uri)
 
         elif not isinstance(metaschema, Metaschema) and metaschema.cacheid == '__meta__':
-- 
2.43.0


From 688f3ff367b53f1a721f46db275861d53a91c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 24/26] fix: keep a local source within its directory

---
 jschon/catalog/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 3d2f9ef..36e1e7d 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -39,7 +39,8 @@ class LocalSource(Source):
         self.base_dir = base_dir
 
     def __call__(self, relative_path: str) -> JSONCompatible:
-        filepath = pathlib.Path(self.base_dir) / relative_path
+        # joining an absolute path would discard the base directory
+        filepath = pathlib.Path(self.base_dir) / relative_path.lstrip('/')
         if self.suffix:
             filepath = str(filepath)
             filepath += self.suffix
-- 
2.43.0


From d66ae761727ad3c355675eb1cd6ab0c77e0f9762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:18 +0000
Subject: [PATCH 25/26] fix: a local source served files outside its directory
 through '..' segments

---
 jschon/catalog/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 36e1e7d..878bd86 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import pathlib
+import posixpath
 import uuid
 from contextlib import contextmanager
 from functools import partial
@@ -40,7 +41,11 @@ class LocalSource(Source):
 
     def __call__(self, relative_path: str) -> JSONCompatible:
         # joining an absolute path would discard the base directory
-        filepath = pathlib.Path(self.base_dir) / relative_path.lstrip('/')
+        relative_path = relative_path.lstrip('/')
+        if posixpath.normpath(relative_path).split('/')[0] == '..':
+            raise CatalogError(f'{relative_path!r} is outside the base directory')
+
+        filepath = pathlib.Path(self.base_dir) / relative_path
         if self.suffix:
             filepath = str(filepath)
             filepath += self.suffix
-- 
2.43.0


From 825b7a87e233272b3e98546ddd543023d9463559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 26/26] fix: a remote source left its base URL for remainders
 that start with a slash

---
 jschon/catalog/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 878bd86..74900aa 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -68,6 +68,9 @@ class RemoteSource(Source):
         self.base_url = base_url
 
     def __call__(self, relative_path: str) -> JSONCompatible:
+        if relative_path.startswith('/'):
+            # relative to the base URL nevertheless
+            relative_path = './' + relative_path
         url = str(URI(relative_path).resolve(self.base_url))
         if self.suffix:
             url += self.suffix
-- 
2.43.0

