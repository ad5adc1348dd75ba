From d22368bbc7b02105f75a97c72cbd684f912be7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:08 +0000
Subject: [PATCH 01/35] fix: keep objects alive while their id is used as a
 cache key

Without references the pickler caches results by id(obj). Bytes and other
short-lived values yielded by an iterator were freed right after being
flattened, so a later value with the same id got the stale result.
---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 771db2b..1f92b47 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -345,6 +345,8 @@ class Pickler:
             try:
                 result = self._flattened[id(obj)]
             except KeyError:
+                # Keep the object alive for as long as its id() is a cache key.
+                self._seen.append(obj)
                 result = self._flattened[id(obj)] = self._flatten_impl(obj)
         return result
 
-- 
2.43.0


From 079aa86b381c6526543790589eb993bc9d2253b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:08 +0000
Subject: [PATCH 02/35] fix: serialize escaped string keys in the second key
 phase

With keys=True the decoder restores all "json://" keys last, but the encoder
wrote escaped string keys first. Reference numbers then disagreed and shared
objects came back as the wrong object.
---
 jsonpickle/pickler.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 1f92b47..87a54d3 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -809,6 +809,12 @@ class Pickler:
             self._mkref(obj)
             return self._flatten_obj_instance(obj)
 
+    def _is_escaped_key(self, k: Any) -> bool:
+        """Does this string key collide with the json:// prefix or a tag?"""
+        return isinstance(k, str) and (
+            k.startswith(tags.JSON_KEY) or k in tags.RESERVED
+        )
+
     def _escape_key(self, k: Any) -> str:
         return tags.JSON_KEY + encode(
             k,
@@ -822,7 +828,12 @@ class Pickler:
     def _flatten_non_string_key_value_pair(
         self, k: Any, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
-        """Flatten only non-string key/value pairs"""
+        """Flatten only non-string and escaped key/value pairs"""
+        if self.keys and self._is_escaped_key(k):
+            # Escape data keys colliding with the json:// prefix or a reserved
+            # wire tag; must run before _is_picklable, which drops RESERVED keys.
+            data[self._escape_key(k)] = self._flatten(v)
+            return data
         if not util._is_picklable(k, v):
             return data
         if self.keys and not isinstance(k, str):
@@ -834,14 +845,8 @@ class Pickler:
         self, k: str, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
         """Flatten string key/value pairs only."""
-        if (
-            isinstance(k, str)
-            and (k.startswith(tags.JSON_KEY) or k in tags.RESERVED)
-            and self.keys
-        ):
-            # Escape data keys colliding with the json:// prefix or a reserved
-            # wire tag; must run before _is_picklable, which drops RESERVED keys.
-            data[self._escape_key(k)] = self._flatten(v)
+        if self.keys and self._is_escaped_key(k):
+            # Serialized together with the non-string keys in the second phase.
             return data
         if not util._is_picklable(k, v):
             return data
-- 
2.43.0


From 67e1159f93a97a1d44b95dc67fd72117eb6591b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:08 +0000
Subject: [PATCH 03/35] fix: treat the base64 and base85 tags as reserved keys

A dict key named "py/b64" or "py/b85" was written as plain data, and the
whole dict was decoded as a bytes object.
---
 jsonpickle/tags.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/tags.py b/jsonpickle/tags.py
index cfede5b..36278e5 100644
--- a/jsonpickle/tags.py
+++ b/jsonpickle/tags.py
@@ -36,6 +36,8 @@ TYPE: str = "py/type"
 RESERVED: set[str] = {
     BYTES,
     BYTEARRAY,
+    B64,
+    B85,
     FUNCTION,
     ID,
     INITARGS,
-- 
2.43.0


From 469bb713d67d970c54db0b761a56c69ea46d4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:08 +0000
Subject: [PATCH 04/35] fix: replace proxies stored under string keys when
 keys=True

A dict value that refers to an object still under construction stayed a
placeholder when decoding with keys=True.
---
 jsonpickle/unpickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 76420ac..21cf7ab 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -918,7 +918,9 @@ class Unpickler:
                 else:
                     str_k = k
                 self._namestack.append(str_k)
-                data[k] = self._restore(v)
+                data[k] = result = self._restore(v)
+                if isinstance(result, _Proxy):
+                    self._proxies.append((data, k, result, _obj_setvalue))
 
                 self._namestack.pop()
 
-- 
2.43.0


From 2846a2724279c3b3b438e86d442e831b25fa24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:08 +0000
Subject: [PATCH 05/35] fix: replace proxies stored as items of dict subclasses

Items of a dict subclass that refer to an object still under construction
were replaced with setattr(), which left the placeholder in the mapping.
---
 jsonpickle/unpickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 21cf7ab..945d6fc 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -747,7 +747,10 @@ class Unpickler:
             # This instance has an instance variable named `k` that is
             # currently a proxy and must be replaced
             if isinstance(value, _Proxy):
-                self._proxies.append((instance, k, value, method))
+                if k != "__dict__" and util._is_dictionary_subclass(instance):
+                    self._proxies.append((instance, k, value, _obj_setvalue))
+                else:
+                    self._proxies.append((instance, k, value, method))
 
             # step out
             self._namestack.pop()
-- 
2.43.0


From 733ac88c0b686159c5377e7f5804a014df759f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:08 +0000
Subject: [PATCH 06/35] fix: do not hide errors raised while flattening slot
 values

An AttributeError raised anywhere below a __slots__ attribute was taken for a
missing slot: the attribute was dropped and the depth counter was left off by
one or more.
---
 jsonpickle/pickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 87a54d3..7e2937d 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -521,10 +521,10 @@ class Pickler:
                     value = getattr(obj, k)
                 else:
                     value = getattr(obj, f"_{obj.__class__.__name__}{k}")
-                flatten(k, value, data)
             except AttributeError:
                 # The attribute may have been deleted
                 continue
+            flatten(k, value, data)
             ok = True
         return ok
 
-- 
2.43.0


From 1af1980fe1946c46e7d27a5f8dbae93379d0a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:33 +0000
Subject: [PATCH 07/35] fix: restore malformed bytearray payloads as an empty
 bytearray

A "py/bytea" entry whose payload is not a base64/base85 entry raised TypeError
or KeyError, unlike the other malformed entries.
---
 jsonpickle/unpickler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 945d6fc..0b9e9a8 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -440,10 +440,12 @@ class Unpickler:
 
     def _restore_bytearray(self, obj: dict[str, Any]) -> bytearray:
         payload = obj[tags.BYTEARRAY]
-        if tags.B85 in payload:
+        if has_tag(payload, tags.B85):
             data = self._restore_base85(payload)
-        else:
+        elif has_tag(payload, tags.B64):
             data = self._restore_base64(payload)
+        else:
+            data = b""
         return bytearray(data)
 
     def _refname(self) -> str:
-- 
2.43.0


From 8fcfb823c8e01881262532571417bcd170b86487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:33 +0000
Subject: [PATCH 08/35] fix: do not return a proxy for an unresolvable
 top-level reference

Decoding a document that consists of an out-of-range "py/id" returned the
internal placeholder object. It is now None, as at every other position.
---
 jsonpickle/unpickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 0b9e9a8..98358d1 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -404,6 +404,8 @@ class Unpickler:
         value = self._restore(obj)
         if reset:
             self._swap_proxies()
+            if isinstance(value, _Proxy):
+                value = value.get()
         return value
 
     def register_classes(self, classes: ClassesType) -> None:
-- 
2.43.0


From 2f04ecca794c5e0b0b589ce8ff2b6aae6eabe9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:33 +0000
Subject: [PATCH 09/35] fix: serialize compiled bytes regular expressions

The pattern of a bytes regular expression was put into the output as raw bytes,
which no JSON backend can encode.
---
 jsonpickle/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index 3148365..f7cad2c 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -241,12 +241,13 @@ class RegexHandler(BaseHandler):
     """Flatten _sre.SRE_Pattern (compiled regex) objects"""
 
     def flatten(self, obj: re.Pattern[str], data: dict[str, Any]) -> HandlerReturn:
-        data["pattern"] = obj.pattern
+        data["pattern"] = self.context.flatten(obj.pattern, reset=False)
         data["flags"] = obj.flags
         return data
 
     def restore(self, data: dict[str, Any]) -> re.Pattern[str]:
-        return re.compile(data["pattern"], data.get("flags", 0))
+        pattern = self.context.restore(data["pattern"], reset=False)
+        return re.compile(pattern, data.get("flags", 0))
 
 
 RegexHandler.handles(type(re.compile("")))
-- 
2.43.0


From 5fb4e102df7c12bdabcd698dce1b38605d97631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:33 +0000
Subject: [PATCH 10/35] fix: unregister the numpy datetime64 handler

unregister_handlers() left the handler of numpy.datetime64 registered.
---
 jsonpickle/ext/numpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 7c895cb..3ed4f36 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -500,5 +500,6 @@ def unregister_handlers() -> None:
     unregister(np.dtype(np.float32).__class__)
     unregister(np.dtype(np.int32).__class__)
     unregister(np.dtype(np.datetime64).__class__)
+    unregister(np.datetime64)
     # other handlers
     unregister(np.ufunc)
-- 
2.43.0


From c1545b3542e7715d2e522f20bc5f7867c08d0cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:33 +0000
Subject: [PATCH 11/35] fix: do not list a backend twice when it is loaded
 again

remove_backend() removed only one of the two entries, and encoding then failed
with KeyError.
---
 jsonpickle/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/backend.py b/jsonpickle/backend.py
index b150a02..bd6f33d 100644
--- a/jsonpickle/backend.py
+++ b/jsonpickle/backend.py
@@ -193,7 +193,8 @@ class JSONBackend:
         self._decoder_options.setdefault(name, ([], {}))
 
         # Add this backend to the list of candidate backends
-        self._backend_names.append(name)
+        if name not in self._backend_names:
+            self._backend_names.append(name)
 
         # Indicate that we successfully loaded a JSON backend
         self._verified = True
-- 
2.43.0


From 7590a2b937e6a26e4728a64d8668392528574680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:33 +0000
Subject: [PATCH 12/35] fix: support PandasProcessor without compression

With compression=None a text above the size threshold raised TypeError when
flattened, and would have been restored as bytes.
---
 jsonpickle/ext/pandas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 73e695c..24c803c 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -85,11 +85,11 @@ class PandasProcessor:
         self, buf: str, data: dict[str, Any], meta: dict[str, Any] | None = None
     ) -> dict[str, Any]:
         if self.size_threshold is not None and len(buf) > self.size_threshold:
+            raw = buf.encode()
             if self.compression:
-                buf = self.compression.compress(buf.encode())
+                raw = self.compression.compress(raw)
                 data["comp"] = True
-            # we have a mypy error here, not sure what the fix is so i'm silencing it temporarily
-            data["values"] = b64encode(buf)  # type: ignore[arg-type]
+            data["values"] = b64encode(raw)
             data["txt"] = False
         else:
             data["values"] = buf
@@ -103,9 +103,10 @@ class PandasProcessor:
             # It's just text...
             buf = data["values"]
         else:
-            buf = b64decode(data["values"])
+            raw = b64decode(data["values"])
             if data.get("comp", False):
-                buf = self.compression.decompress(buf).decode()
+                raw = self.compression.decompress(raw)
+            buf = raw.decode()
         meta = data.get("meta", {})
         return (buf, meta)
 
-- 
2.43.0


From ad77bfdf0145331b0ae01be5c5fae822551b8c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:27 +0000
Subject: [PATCH 13/35] fix: keep reference ids aligned after fail_safe
 replaced an object

---
 jsonpickle/pickler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 7e2937d..8d7226d 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -418,6 +418,7 @@ class Pickler:
 
     def _flatten_obj(self, obj: Any) -> Any:
         self._seen.append(obj)
+        num_refs = len(self._objs)
 
         max_reached = self._max_reached()
 
@@ -442,6 +443,10 @@ class Pickler:
             if self.fail_safe is None:
                 raise
             else:
+                # Forget the references that were logged by the failed attempt,
+                # otherwise the IDs of all following references would be off.
+                for objid in list(self._objs)[num_refs:]:
+                    del self._objs[objid]
                 return self.fail_safe(e)
 
     def _list_recurse(self, obj: Iterable[Any]) -> list[Any]:
-- 
2.43.0


From 5d2a5658e4ffbab35809cd421c144b64f5ea8008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:12 +0000
Subject: [PATCH 14/35] fix: do not modify the document when restoring a
 default factory

---
 jsonpickle/unpickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 98358d1..a96f54b 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -827,6 +827,9 @@ class Unpickler:
 
         # An object can install itself as its own factory, so load the factory
         # after the instance is available for referencing.
+        if tags.DEFAULT_FACTORY in obj or "default_factory" in obj:
+            # Loading the factory removes its key, so leave the input alone.
+            obj = dict(obj)
         factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
-- 
2.43.0


From 92c4414d644fdba79ef2b65afb184af0424c1249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:55 +0000
Subject: [PATCH 15/35] fix: keep the fold attribute of datetime and time
 values

---
 jsonpickle/handlers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index f7cad2c..20c6784 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -215,7 +215,8 @@ class DatetimeHandler(BaseHandler):
             else:
                 result = str(obj)
             return result
-        cls, args = obj.__reduce__()  # type: ignore[str-unpack]
+        # Protocol 4 is the first one whose payload carries the "fold" attribute.
+        cls, args = obj.__reduce_ex__(4)  # type: ignore[str-unpack]
         flatten = pickler.flatten
         payload = util.b64encode(args[0])  # type: ignore[arg-type]
         args = [payload] + [flatten(i, reset=False) for i in args[1:]]
-- 
2.43.0


From b6666457854b4b1f796ae634867e88f47a51941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:13 +0000
Subject: [PATCH 16/35] fix: restore views of datetime64 and timedelta64 arrays

---
 jsonpickle/ext/numpy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 3ed4f36..3332194 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -425,7 +425,12 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
             base = self.context.restore(base, reset=False)
             buffer: Any
             if isinstance(base, np.ndarray):
-                buffer = base.data
+                if base.dtype.hasobject or not base.itemsize:
+                    buffer = base.data
+                else:
+                    # datetime64 and timedelta64 arrays do not export their
+                    # buffer, so refer to the underlying bytes instead
+                    buffer = base.reshape(-1, order="A").view(np.uint8)
             elif isinstance(base, (bytes, bytearray, memoryview)):
                 buffer = base
             else:
-- 
2.43.0


From 37fe488e365dc32d2e56babdb0c1bb4b9fe6e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:46 +0000
Subject: [PATCH 17/35] fix: keep the byte order of array views and structured
 arrays

---
 jsonpickle/ext/numpy.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 3332194..65e0189 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -32,6 +32,12 @@ def get_byteorder(arr: _HasDType) -> str:
     return native_byteorder if byteorder == "=" else byteorder
 
 
+def native_dtype(dtype: np.dtype[Any]) -> np.dtype[Any]:
+    """translate to native order, but leave structured dtypes alone because
+    the byte order of their fields is not recorded separately"""
+    return dtype if dtype.fields is not None else dtype.newbyteorder("N")
+
+
 class NumpyBaseHandler(BaseHandler):
     def flatten_dtype(self, dtype: npt.DTypeLike, data: dict[str, Any]) -> None:
         if hasattr(dtype, "tostring"):
@@ -61,7 +67,7 @@ class NumpyDTypeHandler(NumpyBaseHandler):
 
 class NumpyGenericHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_dtype(native_dtype(obj.dtype), data)
         value = obj.tolist()
         if isinstance(value, np.generic):
             # extended-precision scalars have no Python counterpart, so
@@ -112,7 +118,7 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
             arr.flags.writeable = False
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_dtype(native_dtype(obj.dtype), data)
         self.flatten_flags(obj, data)
         data["values"] = self.context.flatten(obj.tolist(), reset=False)
         if 0 in obj.shape:
@@ -202,7 +208,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                 buf = self.compression.compress(buf)
             data["values"] = b64encode(buf)
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(native_dtype(obj.dtype), data)
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
@@ -335,13 +341,16 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                 data["strides"] = obj.strides
 
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(native_dtype(obj.dtype), data)
             self.flatten_flags(obj, data)
 
             if get_byteorder(obj) != "|":
-                byteorder = "S" if get_byteorder(obj) != get_byteorder(base) else None
-                if byteorder:
-                    data["byteorder"] = byteorder
+                if get_byteorder(base) == "|":
+                    data["byteorder"] = get_byteorder(obj)
+                elif get_byteorder(obj) != get_byteorder(base):
+                    # relative to the base, whose own order is only
+                    # preserved by the binary encoding
+                    data["byteorder"] = "S"
 
             if self.size_threshold is None or self.size_threshold >= obj.size:
                 # not used in restore since base is present, but
@@ -379,7 +388,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     data["strides"] = obj.strides
 
                 data["shape"] = obj.shape
-                self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+                self.flatten_dtype(native_dtype(obj.dtype), data)
                 self.flatten_flags(obj, data)
 
                 if get_byteorder(obj) != "|":
@@ -442,9 +451,12 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     "Current implementation assumes base is C or F contiguous"
                 )
 
+            dtype = self.restore_dtype(data)
+            if isinstance(base, np.ndarray) and dtype.fields is None:
+                dtype = dtype.newbyteorder(get_byteorder(base))
             arr = np.ndarray(
                 buffer=buffer,
-                dtype=self.restore_dtype(data).newbyteorder(data.get("byteorder", "|")),
+                dtype=dtype.newbyteorder(data.get("byteorder", "|")),
                 shape=data.get("shape"),  # type: ignore[arg-type]
                 offset=data.get("offset", 0),
                 strides=data.get("strides", None),
-- 
2.43.0


From f1ede8152f216b47023b21981acefb947120436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:02 +0000
Subject: [PATCH 18/35] fix: record Fortran order only for Fortran-contiguous
 arrays

---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 65e0189..161b6d2 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -212,7 +212,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
-            if not obj.flags.c_contiguous:
+            if obj.flags.fnc:
                 data["order"] = "F"
 
         return data
-- 
2.43.0


From b6a40143907c05ff9419bb56f72d1a99b405639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:38 +0000
Subject: [PATCH 19/35] fix: keep Fortran order when restoring binary arrays

---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 161b6d2..a55b85c 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -246,7 +246,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                     dtype=dtype,
                     shape=data.get("shape"),  # type: ignore[arg-type]
                     order=data.get("order", "C"),
-                ).copy()  # make a copy, to force the result to own the data
+                ).copy(order="K")  # make a copy, to force the result to own the data
                 self.restore_byteorder(data, arr)
             self.restore_flags(data, arr)
 
-- 
2.43.0


From 14852857e5abe13d5dfb88e4ffdca96c41a38b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:00 +0000
Subject: [PATCH 20/35] fix: keep the name of a pandas index

---
 jsonpickle/ext/pandas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 24c803c..d9903af 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -378,7 +378,7 @@ class PandasIndexHandler(BaseHandler):
         buf, meta = self.pp.restore_pandas(data)
         dtype = meta.get("dtype", None)
         name_bundle = {
-            "name": (tuple if v is not None else lambda x: x)(v)  # ruff: ignore[B035]
+            "name": tuple(v) if isinstance(v, (list, tuple)) else v  # ruff: ignore[B035]
             for k, v in meta.items()
             if k in {"name", "names"}
         }
-- 
2.43.0


From ab625f55ba80d721303ab715b99b10871f0efcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:42 +0000
Subject: [PATCH 21/35] fix: encode a slot listed by several classes once

A class that repeats a slot of a base class had the attribute flattened
twice.  The second time produced a reference to the value itself, which
replaced the first, so the value was lost.
---
 jsonpickle/pickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 8d7226d..f321166 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -582,7 +582,9 @@ class Pickler:
         if self.include_properties:
             data = self._flatten_properties(obj, data, allslots)
 
-        if not self._flatten_obj_attrs(obj, chain(*allslots), data, exclude):
+        # a name can be listed by several classes but is a single attribute
+        slots = dict.fromkeys(chain(*allslots))
+        if not self._flatten_obj_attrs(obj, slots, data, exclude):
             attrs = [
                 x for x in dir(obj) if not x.startswith("__") and not x.endswith("__")
             ]
-- 
2.43.0


From c7abcf43ab1eef8a48fd7d07eaac470b9af1e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:34 +0000
Subject: [PATCH 22/35] fix: resolve references to unfinished objects in list
 subclasses

---
 jsonpickle/unpickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index a96f54b..1bafbfd 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -807,7 +807,12 @@ class Unpickler:
         if has_tag(obj, tags.SEQ):
             if hasattr(instance, "append"):
                 for v in obj[tags.SEQ]:
-                    instance.append(self._restore(v))
+                    value = self._restore(v)
+                    instance.append(value)
+                    if isinstance(value, _Proxy):
+                        self._proxies.append(
+                            (instance, len(instance) - 1, value, _obj_setvalue)
+                        )
             elif hasattr(instance, "add"):
                 for v in obj[tags.SEQ]:
                     instance.add(self._restore(v))
-- 
2.43.0


From 9b9f7b333c59809aa68bc2c54b6bb4d4e9fff57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:12 +0000
Subject: [PATCH 23/35] fix: resolve references to unfinished objects in frozen
 dataclasses

---
 jsonpickle/unpickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 1bafbfd..31b9a98 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -192,7 +192,10 @@ class _IDProxy(_Proxy):
 
 def _obj_setattr(obj: Any, attr: str, proxy: _Proxy) -> None:
     """Use setattr to update a proxy entry"""
-    setattr(obj, attr, proxy.get())
+    try:
+        setattr(obj, attr, proxy.get())
+    except dataclasses.FrozenInstanceError:
+        object.__setattr__(obj, attr, proxy.get())
 
 
 def _obj_setvalue(obj: Any, idx: Any, proxy: _Proxy) -> None:
-- 
2.43.0


From 60ddb767cdabdb3a2c516d5433a1e648e0e528f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:29 +0000
Subject: [PATCH 24/35] fix: resolve references to unfinished objects in
 private slots

---
 jsonpickle/unpickler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 31b9a98..7c8caa0 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -749,7 +749,8 @@ class Unpickler:
                             continue
                         raise
                 else:
-                    setattr(instance, f"_{instance.__class__.__name__}{k}", value)
+                    k = f"_{instance.__class__.__name__}{k}"
+                    setattr(instance, k, value)
 
             # This instance has an instance variable named `k` that is
             # currently a proxy and must be replaced
-- 
2.43.0


From 20a7bd4de2271a1242f1245b1636f4d7ee3a01c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:41 +0000
Subject: [PATCH 25/35] fix: keep the attributes of a dict subclass that equal
 its items

---
 jsonpickle/pickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index f321166..62d07c1 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -933,7 +933,7 @@ class Pickler:
             data[store_key] = value
 
         # Sub-classes of dict
-        if hasattr(obj, "__dict__") and self.unpicklable and obj != obj.__dict__:
+        if hasattr(obj, "__dict__") and self.unpicklable and obj is not obj.__dict__:
             if self._mkref(obj.__dict__):
                 dict_data = {}
                 self._flatten_dict_obj(obj.__dict__, dict_data, exclude=exclude)
-- 
2.43.0


From d6c7561aaf598bfafb14d66b539997f565799228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:07 +0000
Subject: [PATCH 26/35] fix: restore a dict-and-slots state returned by reduce
 when the object has a dict

---
 jsonpickle/unpickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 7c8caa0..68a5844 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -570,7 +570,7 @@ class Unpickler:
                     for k, v in stage1.__dict__.items():
                         state.setdefault(k, v)
                     stage1.__dict__ = state
-                except AttributeError:
+                except (AttributeError, TypeError):
                     # next prescribed default
                     try:
                         for k, v in state.items():
-- 
2.43.0


From 5a7680bc162facb48792fa75596edb48f4c30ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:37 +0000
Subject: [PATCH 27/35] fix: keep references right after an object with empty
 keyword arguments

---
 jsonpickle/unpickler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 68a5844..5e03a95 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -842,14 +842,13 @@ class Unpickler:
         factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
-            args, kwargs = obj[tags.NEWARGSEX]
+            # The pickler numbers these even when they are empty.
+            args, kwargs = map(self._restore, obj[tags.NEWARGSEX])
         else:
             args = getargs(obj, classes=self._classes)
             kwargs = {}
-        if args:
-            args = self._restore(args)
-        if kwargs:
-            kwargs = self._restore(kwargs)
+            if args:
+                args = self._restore(args)
 
         is_oldstyle = not (isinstance(cls, type) or getattr(cls, "__meta__", None))
         try:
-- 
2.43.0


From ced4d77b4c9b31829bd9cdd667f76f7897e864b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:14 +0000
Subject: [PATCH 28/35] fix: keep references right after a defaultdict with a
 function factory

---
 jsonpickle/pickler.py   | 47 +++++++++++++++++++++++------------------
 jsonpickle/unpickler.py | 14 ++++++------
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 62d07c1..1f4cc12 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -885,6 +885,31 @@ class Pickler:
         if data is None:
             data = obj.__class__()
 
+        # the collections.defaultdict protocol
+        has_factory = hasattr(obj, "default_factory") and callable(obj.default_factory)
+        if has_factory:
+            # The unpickler restores the factory before the items, so it has to
+            # be flattened first for the reference IDs to agree.
+            factory = obj.default_factory  # type: ignore[attr-defined]
+            value: Any
+            if util._is_type(factory):
+                # Reference the class/type
+                # in this case it's dict[str, str]
+                value = _mktyperef(factory)
+            else:
+                # The factory is not a type and could reference e.g. functions
+                # or even the object instance itself, which creates a cycle.
+                if self._mkref(factory):
+                    # We've never seen this object before so pickle it in-place.
+                    # Create an instance from the factory and assume that the
+                    # resulting instance is a suitable exemplar.
+                    value = self._flatten_obj_instance(handlers.CloneFactory(factory()))
+                else:
+                    # We've seen this object before.
+                    # Break the cycle by emitting a reference.
+                    # in this case it's dict[str, int]
+                    value = self._getref(factory)
+
         # If we allow non-string keys then we have to do a two-phase
         # encoding to ensure that the reference IDs are deterministic.
         if self.keys:
@@ -903,33 +928,13 @@ class Pickler:
             for k, v in util.items(obj, exclude=exclude):
                 flatten(k, v, data)
 
-        # the collections.defaultdict protocol
-        if hasattr(obj, "default_factory") and callable(obj.default_factory):
-            factory = obj.default_factory
+        if has_factory:
             # i know that this string could be moved above the hasattr to reduce
             # string duplication but mypy 1.18.2 complains and i don't want to use
             # even more type: ignores
             store_key = "default_factory"
             if store_key in data:
                 store_key = tags.DEFAULT_FACTORY
-            value: Any
-            if util._is_type(factory):
-                # Reference the class/type
-                # in this case it's dict[str, str]
-                value = _mktyperef(factory)
-            else:
-                # The factory is not a type and could reference e.g. functions
-                # or even the object instance itself, which creates a cycle.
-                if self._mkref(factory):
-                    # We've never seen this object before so pickle it in-place.
-                    # Create an instance from the factory and assume that the
-                    # resulting instance is a suitable exemplar.
-                    value = self._flatten_obj_instance(handlers.CloneFactory(factory()))
-                else:
-                    # We've seen this object before.
-                    # Break the cycle by emitting a reference.
-                    # in this case it's dict[str, int]
-                    value = self._getref(factory)
             data[store_key] = value
 
         # Sub-classes of dict
diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 5e03a95..465227a 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -834,13 +834,6 @@ class Unpickler:
         proxy = _Proxy()
         self._mkref(proxy)
 
-        # An object can install itself as its own factory, so load the factory
-        # after the instance is available for referencing.
-        if tags.DEFAULT_FACTORY in obj or "default_factory" in obj:
-            # Loading the factory removes its key, so leave the input alone.
-            obj = dict(obj)
-        factory = self._loadfactory(obj)
-
         if has_tag(obj, tags.NEWARGSEX):
             # The pickler numbers these even when they are empty.
             args, kwargs = map(self._restore, obj[tags.NEWARGSEX])
@@ -850,6 +843,13 @@ class Unpickler:
             if args:
                 args = self._restore(args)
 
+        # An object can install itself as its own factory, so load the factory
+        # after the instance is available for referencing.
+        if tags.DEFAULT_FACTORY in obj or "default_factory" in obj:
+            # Loading the factory removes its key, so leave the input alone.
+            obj = dict(obj)
+        factory = self._loadfactory(obj)
+
         is_oldstyle = not (isinstance(cls, type) or getattr(cls, "__meta__", None))
         try:
             if not is_oldstyle and hasattr(cls, "__new__"):
-- 
2.43.0


From 7a9377fa1e4aaa74ac0a9f3fdf7a69899506f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:55 +0000
Subject: [PATCH 29/35] fix: keep Series names that are tuples or NumPy numbers

The name was written as it is, so a tuple came back as a list, which pandas
does not accept as a name, and a NumPy number (the name of a row taken from a
DataFrame) could not be written at all.
---
 jsonpickle/ext/pandas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index d9903af..51f0e8b 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -346,7 +346,7 @@ class PandasSeriesHandler(BaseHandler):
 
     def flatten(self, obj: pd.Series, data: dict[str, Any]) -> dict[str, Any]:
         """Flatten the index and values for reconstruction"""
-        data["name"] = obj.name
+        data["name"] = self.context.flatten(obj.name, reset=False)
         # This relies on the numpy handlers for the inner guts.
         data["index"] = self.context.flatten(obj.index, reset=False)
         data["values"] = self.context.flatten(obj.values, reset=False)
@@ -354,7 +354,7 @@ class PandasSeriesHandler(BaseHandler):
 
     def restore(self, data: dict[str, Any]) -> pd.Series:
         """Restore the flattened data"""
-        name = data["name"]
+        name = self.context.restore(data["name"], reset=False)
         index = self.context.restore(data["index"], reset=False)
         values = self.context.restore(data["values"], reset=False)
         return pd.Series(values, index=index, name=name)
-- 
2.43.0


From f77387f0ebe2640e6f520698eda8b433dfb10f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:55 +0000
Subject: [PATCH 30/35] fix: keep tuples in the names of DataFrame indexes and
 columns

JSON turns them into lists, which pandas does not accept as names.
---
 jsonpickle/ext/pandas.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 51f0e8b..8599b5a 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -111,6 +111,13 @@ class PandasProcessor:
         return (buf, meta)
 
 
+def restore_name(name: Any) -> Any:
+    """Names are hashable, so what JSON made a list was a tuple"""
+    if isinstance(name, (list, tuple)):
+        return tuple(restore_name(n) for n in name)
+    return name
+
+
 def make_read_csv_params(
     meta: dict[str, Any],
     context: RestoreType,
@@ -259,7 +266,7 @@ class PandasDfHandler(BaseHandler):
         columns_decoded = decode(meta["columns"], keys=True)
         if meta.get("is_multicolumns", False):
             columns = pd.MultiIndex.from_tuples(
-                columns_decoded, names=meta.get("column_names")
+                columns_decoded, names=restore_name(meta.get("column_names"))
             )
         else:
             columns = columns_decoded
@@ -301,19 +308,19 @@ class PandasDfHandler(BaseHandler):
         index_values = decode(meta["index"], keys=True)
         if meta.get("is_multiindex", False):
             index = pd.MultiIndex.from_tuples(
-                index_values, names=meta.get("index_names")
+                index_values, names=restore_name(meta.get("index_names"))
             )
         else:
-            index = pd.Index(index_values, name=meta.get("index_names"))
+            index = pd.Index(index_values, name=restore_name(meta.get("index_names")))
         df.index = index
 
         # restore column names for easy readability
         if "column_names" in meta:
+            names: Any = restore_name(meta.get("column_names"))
             if meta.get("is_multicolumns", False):
-                names: Any = meta.get("column_names")
                 df.columns.names = names
             else:
-                df.columns.name = meta.get("column_names")
+                df.columns.name = names
 
         return df
 
@@ -378,7 +385,7 @@ class PandasIndexHandler(BaseHandler):
         buf, meta = self.pp.restore_pandas(data)
         dtype = meta.get("dtype", None)
         name_bundle = {
-            "name": tuple(v) if isinstance(v, (list, tuple)) else v  # ruff: ignore[B035]
+            "name": restore_name(v)  # ruff: ignore[B035]
             for k, v in meta.items()
             if k in {"name", "names"}
         }
-- 
2.43.0


From 04cf3ca5e852e32acd9afe8b044b1ef8df06d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:57 +0000
Subject: [PATCH 31/35] fix: ignore reference numbers that are negative or not
 integers

---
 jsonpickle/unpickler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 465227a..190b0ab 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -603,13 +603,14 @@ class Unpickler:
         return stage1
 
     def _restore_id(self, obj: dict[str, Any]) -> Any:
+        idx = obj[tags.ID]
+        if type(idx) is not int or idx < 0:
+            # not a reference number; a negative one would count from the end
+            return None
         try:
-            idx = obj[tags.ID]
             return self._objs[idx]
         except IndexError:
             return _IDProxy(self._objs, idx)
-        except TypeError:
-            return None
 
     def _restore_type(self, obj: dict[str, Any]) -> Any:
         typeref = util.loadclass(obj[tags.TYPE], classes=self._classes)
-- 
2.43.0


From 5c28ed0ba65acf0be937857826a3e85016297983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:03 +0000
Subject: [PATCH 32/35] fix: honour a reduce hook of a class that also has a
 state getter

A class with its own __getstate__, no __setstate__ and a __reduce__ that
returns a dict, a dict-and-slots pair or a state setter was encoded from
__getstate__ alone.  Its reduce value was dropped, so the factory was never
called on decoding.  Only a state that could not be restored without a
setter is now left to __getstate__.
---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 1f4cc12..d4e8808 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -690,6 +690,9 @@ class Pickler:
                     and has_own_getstate
                     and not hasattr(obj, "__setstate__")
                     and not isinstance(obj, dict)
+                    # without a setter only these kinds of state can be restored
+                    and not isinstance(state, (dict, tuple))
+                    and rv_as_list[5] is None
                 ):
                     # turn iterators to iterables for convenient serialization
                     if rv_as_list[3]:
-- 
2.43.0


From 3098cf3fdff6423866a2a1f468189547f2e3930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:03 +0000
Subject: [PATCH 33/35] fix: restore a submodule whose name its package uses
 for something else

Following attribute names from the package gave whatever the package keeps
under that name, for example the class unittest.main instead of the module.
---
 jsonpickle/unpickler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 190b0ab..a68161a 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -5,6 +5,7 @@
 # This software is licensed as described in the file COPYING, which
 # you should have received as part of this distribution.
 import dataclasses
+import sys
 import warnings
 from collections.abc import Callable, Iterator, Sequence
 from typing import Any, TypeAlias
@@ -297,6 +298,9 @@ def _loadmodule(module_str: str) -> Any | None:
         result = __import__(module)
     except ImportError:
         return None
+    if identifier == module:
+        # A package can use the name of its submodule for something else.
+        return sys.modules[module]
     identifier_parts = identifier.split(".")
     first_identifier = identifier_parts[0]
     if first_identifier != module and not module.startswith(f"{first_identifier}."):
-- 
2.43.0


From 36955c5168a3728bfbccb2622adef99e4c526720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:28 +0000
Subject: [PATCH 34/35] fix: keep Fortran order when an array is stored as a
 deep copy

A view on the array is stored with strides into the original memory order,
so it was restored with the wrong elements after the copy became C-ordered.
---
 jsonpickle/ext/numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index a55b85c..3b0681f 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -419,7 +419,11 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     "not know how to serialize."
                 )
                 raise ValueError(msg)
-            data = super().flatten(obj.copy(), data)
+            # views on this array rely on its memory order
+            obj = obj.copy(order="A")
+            data = super().flatten(obj, data)
+            if not obj.flags.c_contiguous:
+                data["order"] = "F"
 
         return data
 
-- 
2.43.0


From e1a513450997c64fef2934d987c1511b89c78c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:24 +0000
Subject: [PATCH 35/35] fix: keep the byte order of arrays stored as text that
 views refer to

A view with another item size than its base was restored with the wrong
elements when the base was not in native byte order and stored as text.
---
 jsonpickle/ext/numpy.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 3b0681f..25b7520 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -129,9 +129,8 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
 
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         values = self.context.restore(data["values"], reset=False)
-        arr = np.array(
-            values, dtype=self.restore_dtype(data), order=data.get("order", "C")
-        )
+        dtype = self.restore_dtype(data).newbyteorder(data.get("byteorder", "|"))
+        arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
         shape = data.get("shape", None)
         if shape is not None:
             arr = arr.reshape(shape)
@@ -318,6 +317,14 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
         context._objs = saved_objs
         context._flattened = saved_flattened
 
+    def _flatten_layout(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> None:
+        """ensure that views on arrays stored as text
+        are interpreted correctly"""
+        if not obj.flags.c_contiguous:
+            data["order"] = "F"
+        if not obj.dtype.isnative:
+            self.flatten_byteorder(obj, data)
+
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         """encode numpy to json"""
         base = obj.base
@@ -325,10 +332,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
         if base is None and obj.flags.forc:
             # store by value
             data = super().flatten(obj, data)
-            # ensure that views on arrays stored as text
-            # are interpreted correctly
-            if not obj.flags.c_contiguous:
-                data["order"] = "F"
+            self._flatten_layout(obj, data)
         elif isinstance(base, np.ndarray) and base.flags.forc:
             # store by reference
             data["base"] = self.context.flatten(base, reset=False)
@@ -419,11 +423,9 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     "not know how to serialize."
                 )
                 raise ValueError(msg)
-            # views on this array rely on its memory order
             obj = obj.copy(order="A")
             data = super().flatten(obj, data)
-            if not obj.flags.c_contiguous:
-                data["order"] = "F"
+            self._flatten_layout(obj, data)
 
         return data
 
-- 
2.43.0

