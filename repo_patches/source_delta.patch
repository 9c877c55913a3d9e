From be9b045f63ca840bb37365dfcdd110dea92d2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 01/44] fix: record regexps in the serialized object log

V8 (and this library's own decoder) assign an object ID to every RegExp, but
write_js_regexp() did not record one. Any back reference written after a
RegExp therefore pointed at the wrong object.
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 99d8331..180867d 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -386,6 +386,7 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
@@ -942,7 +943,9 @@ class TagWriter(EncodeStepObject):
     def serialize_python_regexp(
         self, value: re.Pattern[AnyStr], /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_js_regexp(JSRegExp.from_python_pattern(value))
+        ctx.stream.write_js_regexp(
+            JSRegExp.from_python_pattern(value), identity=value
+        )
 
     @encode.register(JSErrorData)
     def serialize_js_error(
-- 
2.43.0


From 162ca6a39cc6094d419561ac9783c17f1915321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 02/44] fix: record errors without a cause in the serialized
 object log

write_js_error() only recorded a reference when the error had a cause, but
decoders assign an object ID to every error. Back references written after
such an error pointed at the wrong object, and a repeated error was duplicated.
---
 src/v8serialize/encode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 180867d..2a24d78 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -409,7 +409,9 @@ class WritableTagStream:
             self.write_varint(SerializationErrorTag.Stack)
             self.write_string_utf8(stack)
         cause = error.cause
-        if cause is not None:
+        if cause is None:
+            self.objects.record_reference(identity)
+        else:
             self.write_varint(SerializationErrorTag.Cause)
             if SerializationFeature.CircularErrorCause in self.features:
                 self.objects.record_reference(identity)
-- 
2.43.0


From 32ca5f0483ab697f34089ab33f98708310f52e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 03/44] fix: record decoded SharedArrayBuffer and
 ArrayBufferTransfer references

V8 and write_js_array_buffer() assign an object ID to these buffers, but the
decoder did not, so any back reference following one resolved to the wrong
object or failed to decode.
---
 src/v8serialize/decode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 03abaa3..9e4a910 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -766,7 +766,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kSharedArrayBuffer)
         index = self.read_uint32()
-        return shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        result = shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        self.objects.record_reference(result)
+        return result
 
     def _read_js_array_buffer_transfer(
         self,
@@ -777,7 +779,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferTransfer)
         transfer_id = self.read_uint32()
-        return array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        result = array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        self.objects.record_reference(result)
+        return result
 
     def read_js_array_buffer_view(
         self,
-- 
2.43.0


From 3d1ad17da53a73614f8604c633ff18a055c29d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 04/44] fix: record host objects in the serialized object log

V8 assigns an object ID to every host object, so data written by Node.js that
contains a Buffer or typed array followed by any back reference was decoded
with the wrong object, or failed to decode.
---
 src/v8serialize/decode.py | 10 +++++++---
 src/v8serialize/encode.py |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9e4a910..b874b6f 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -822,9 +822,13 @@ class ReadableTagStream:
     ) -> T:
         if tag:
             self.read_tag(SerializationTag.kHostObject)
-        if isinstance(deserializer, HostObjectDeserializerObj):
-            return deserializer.deserialize_host_object(stream=self)
-        return deserializer(stream=self)
+        result = (
+            deserializer.deserialize_host_object(stream=self)
+            if isinstance(deserializer, HostObjectDeserializerObj)
+            else deserializer(stream=self)
+        )
+        self.objects.record_reference(result)
+        return result
 
     def read_v8_shared_object_reference(
         self, tag: bool = False
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 2a24d78..3a6fb64 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -690,6 +690,7 @@ class WritableTagStream:
     def write_host_object(
         self, value: T, *, serializer: HostObjectSerializer[T]
     ) -> None:
+        self.objects.record_reference(value)
         self.write_tag(SerializationTag.kHostObject)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
-- 
2.43.0


From 46bb126b654f09a0d13bfb9c8daa8f04fd4effb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 05/44] fix: read and write String wrapper objects as V8 does

V8 follows the kStringObject tag with a complete tagged string. The library
wrote and expected untagged UTF-8 data, so neither side could read the
other's String objects.
---
 src/v8serialize/decode.py | 9 ++++++++-
 src/v8serialize/encode.py | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index b874b6f..8759bf0 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -396,7 +396,14 @@ class ReadableTagStream:
                 self.read_bigint(tag=False), tag=SerializationTag.kBigIntObject
             )
         elif tag is SerializationTag.kStringObject:
-            result = JSPrimitiveObject(self.read_string_utf8(tag=False))
+            # V8 writes the string as a complete tagged value
+            string_tag = self.read_tag(tag=JS_STRING_TAGS)
+            if string_tag is SerializationTag.kOneByteString:
+                result = JSPrimitiveObject(self.read_string_onebyte())
+            elif string_tag is SerializationTag.kTwoByteString:
+                result = JSPrimitiveObject(self.read_string_twobyte())
+            else:
+                result = JSPrimitiveObject(self.read_string_utf8())
         else:
             raise AssertionError(f"Unreachable: {tag}")
         return self.objects.record_reference(result), result
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 3a6fb64..9925838 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -366,7 +366,8 @@ class WritableTagStream:
         self.write_tag(tag)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
-            self.write_string_utf8(value, tag=None)
+            # V8 reads a complete tagged string here
+            self.write_string_utf8(value)
         elif (
             tag is SerializationTag.kTrueObject or tag is SerializationTag.kFalseObject
         ):
-- 
2.43.0


From 1c442153bf64f36e38957a0a807dc4a8a0458e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 06/44] fix: only deduplicate values that serialize to the same
 data

deduplicate() replaced a value with any earlier value that was == to it and
of the same type. That turned -0.0 into 0.0, (True,) into (1,), and so on.
---
 src/v8serialize/encode.py | 48 +++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 9925838..92de1a6 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import math
 import re
 import struct
 from collections import abc
@@ -796,6 +797,47 @@ See Also
 """
 
 
+def _is_interchangeable(a: object, b: object) -> bool:
+    """Whether a and b are equal and also serialize to the same data.
+
+    Values that are == can differ in ways that are visible once serialized, e.g.
+    0.0 and -0.0, 1 and True, or collections that contain such values.
+    """
+    if a is b:
+        return True
+    if type(a) is not type(b) or a != b:
+        return False
+    if isinstance(a, float):
+        return math.copysign(1, a) == math.copysign(1, cast(float, b))
+    if isinstance(a, tuple):
+        return all(map(_is_interchangeable, a, cast("tuple[object, ...]", b)))
+    if isinstance(a, frozenset):
+        b = cast("frozenset[object]", b)
+        return {_Interchangeable(x) for x in a} == {_Interchangeable(x) for x in b}
+    if isinstance(a, datetime):
+        return a.fold == cast(datetime, b).fold
+    if isinstance(a, JSPrimitiveObject):
+        return _is_interchangeable(a.value, cast("JSPrimitiveObject[Any]", b).value)
+    return True
+
+
+class _Interchangeable:
+    """A key which is equal to another if their values are interchangeable."""
+
+    __slots__ = ("value",)
+
+    def __init__(self, value: object) -> None:
+        self.value = value
+
+    def __hash__(self) -> int:
+        return hash(self.value)
+
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, _Interchangeable):
+            return NotImplemented
+        return _is_interchangeable(self.value, other.value)
+
+
 @dataclass(init=False, **slots_if310())
 class DefaultEncodeContext(EncodeContext):
     encode_steps: Sequence[EncodeStep]
@@ -815,9 +857,7 @@ class DefaultEncodeContext(EncodeContext):
         )
         self.stream = WritableTagStream() if stream is None else stream
 
-        self._memoized = lru_cache(maxsize=deduplicate_max_size, typed=True)(
-            lambda x: x
-        )
+        self._memoized = lru_cache(maxsize=deduplicate_max_size)(lambda x: x)
 
     def __encode_object_with_step(self, value: object, *, i: int) -> None:
         if i < len(self.encode_steps):
@@ -846,7 +886,7 @@ class DefaultEncodeContext(EncodeContext):
     def deduplicate(self, value: T) -> T:
         if getattr(value, "__hash__", None) is not None:
             try:
-                return self._memoized(value)  # type: ignore[no-any-return]
+                return cast(T, self._memoized(_Interchangeable(value)).value)
             except Exception:  # when an object nested in value is not hashable
                 pass
         return value
-- 
2.43.0


From c9cc8977c40ce42b97bf3d9987aeeb785640b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 07/44] fix: array buffer view flags match the buffer that was
 written

V8 rejects views whose length-tracking/resizable flags do not match the
buffer they follow. A resizable buffer is downgraded to a plain one when
the feature is off, so its views' flags must be as well.
---
 src/v8serialize/encode.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 92de1a6..ccb5736 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -681,11 +681,19 @@ class WritableTagStream:
         # 0 / None when flags.IsBufferResizable
         self.write_uint32(buffer_view.byte_length or 0, tag=None)
 
+        # V8 rejects views with flags that don't match the buffer they follow.
+        # bytearray is always written as a fixed-length buffer, as are resizable
+        # buffers when ResizableArrayBuffers is not enabled.
+        is_buffer_resizable = (
+            SerializationFeature.ResizableArrayBuffers in self.features
+            and buffer_view.is_backing_buffer_resizable
+            and not isinstance(getattr(buffer_view, "backing_buffer", None), bytearray)
+        )
         flags = ArrayBufferViewFlags(0)
-        if buffer_view.is_backing_buffer_resizable:
+        if is_buffer_resizable:
             flags |= ArrayBufferViewFlags.IsBufferResizable
-        if buffer_view.is_length_tracking:
-            flags |= ArrayBufferViewFlags.IsLengthTracking
+            if buffer_view.is_length_tracking:
+                flags |= ArrayBufferViewFlags.IsLengthTracking
 
         self.write_varint(flags)
 
-- 
2.43.0


From 8c25c475f59b30f084067ff53ecabbebe57c6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 08/44] fix: only write RegExp UnicodeSets flags when the
 feature is enabled

V8 versions before RegExpUnicodeSets cannot read RegExps with the v flag.
Python patterns fall back to the u flag, which they could read.
---
 src/v8serialize/encode.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index ccb5736..e677599 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -52,6 +52,7 @@ from v8serialize.constants import (
     ArrayBufferViewTag,
     ConstantTags,
     JSErrorName,
+    JSRegExpFlag,
     SerializationErrorTag,
     SerializationFeature,
     SerializationTag,
@@ -388,6 +389,15 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        if (
+            JSRegExpFlag.UnicodeSets in regexp.flags
+            and SerializationFeature.RegExpUnicodeSets not in self.features
+        ):
+            raise FeatureNotEnabledEncodeV8SerializeError(
+                "Cannot write RegExp with the UnicodeSets flag when the "
+                "RegExpUnicodeSets SerializationFeature is not enabled.",
+                feature_required=SerializationFeature.RegExpUnicodeSets,
+            )
         self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
@@ -995,9 +1005,15 @@ class TagWriter(EncodeStepObject):
     def serialize_python_regexp(
         self, value: re.Pattern[AnyStr], /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_js_regexp(
-            JSRegExp.from_python_pattern(value), identity=value
-        )
+        regexp = JSRegExp.from_python_pattern(value)
+        if (
+            JSRegExpFlag.UnicodeSets in regexp.flags
+            and SerializationFeature.RegExpUnicodeSets not in ctx.stream.features
+        ):
+            # Both Unicode and UnicodeSets are equivalents of re.UNICODE.
+            flags = regexp.flags & ~JSRegExpFlag.UnicodeSets | JSRegExpFlag.Unicode
+            regexp = JSRegExp(regexp.source, flags)
+        ctx.stream.write_js_regexp(regexp, identity=value)
 
     @encode.register(JSErrorData)
     def serialize_js_error(
-- 
2.43.0


From 31133368380cd56d18b99be4688ef1f9a8da7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 09/44] fix: same_value_zero accepts ints too large to be a
 float

---
 src/v8serialize/jstypes/_equality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_equality.py b/src/v8serialize/jstypes/_equality.py
index c1e188b..4f513f2 100644
--- a/src/v8serialize/jstypes/_equality.py
+++ b/src/v8serialize/jstypes/_equality.py
@@ -81,7 +81,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         # bools are equal to 0 and 1 by default
         return (bool, value)  # type: ignore[return-value]
     elif isinstance(value, (int, float)):
-        if isnan(value):
+        if isinstance(value, float) and isnan(value):
             # Represent nan as a value equal to itself.
             return _nankey  # type: ignore[return-value]
         return value  # type: ignore[return-value]
-- 
2.43.0


From c8c2b1af4b15e081485d67595272e2ab13de9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 10/44] fix: property keys with very many digits are plain
 strings

int() refuses to convert strings longer than sys.get_int_max_str_digits(),
so decoding an object with such a key failed with a ValueError.
---
 src/v8serialize/jstypes/_normalise_property_key.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index f471247..667b8d6 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -2,6 +2,8 @@ from __future__ import annotations
 
 from v8serialize.jstypes.jsarrayproperties import MAX_ARRAY_LENGTH
 
+MAX_INDEX_DIGITS = len(str(MAX_ARRAY_LENGTH))
+
 
 def canonical_numeric_index_string(value: str) -> int | None:
     """Get the int representation of value or None.
@@ -53,6 +55,8 @@ def normalise_property_key(key: str | int | float) -> str | int:
     This reflects the behaviour defined in: https://tc39.es/ecma262/#integer-index
     """
     if isinstance(key, str):
+        if len(key) > MAX_INDEX_DIGITS:  # too large to be an index
+            return key
         int_value = canonical_numeric_index_string(key)
         if int_value is None:
             return key
-- 
2.43.0


From b9363700bc890e473b437c26634a3f0c8b913fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 11/44] fix: an interrupted == comparison never leaves an
 object marked as running

---
 src/v8serialize/_recursive_eq.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/v8serialize/_recursive_eq.py b/src/v8serialize/_recursive_eq.py
index 82bbcaf..9816727 100644
--- a/src/v8serialize/_recursive_eq.py
+++ b/src/v8serialize/_recursive_eq.py
@@ -54,18 +54,18 @@ def recursive_eq(cls: type[_T]) -> type[_T]:
             # different structure referencing this point.
             return self_running and other_running
 
-        # Register these objects as running so that we won't descend into them
-        # if they are referenced again.
-        _RUNNING_EQ_KEYS.add(self_key)
-        _RUNNING_EQ_KEYS.add(other_key)
-
-        # Allow the type to do its own equality check as normal, descending into
-        # children if required.
         try:
+            # Register these objects as running so that we won't descend into
+            # them if they are referenced again.
+            _RUNNING_EQ_KEYS.add(self_key)
+            _RUNNING_EQ_KEYS.add(other_key)
+
+            # Allow the type to do its own equality check as normal, descending
+            # into children if required.
             eq = wrapped_eq(self, other)
         finally:
-            _RUNNING_EQ_KEYS.remove(self_key)
-            _RUNNING_EQ_KEYS.remove(other_key)
+            _RUNNING_EQ_KEYS.discard(self_key)
+            _RUNNING_EQ_KEYS.discard(other_key)
         return eq
 
     cls.__eq__ = decorator  # type: ignore[method-assign]
-- 
2.43.0


From f6efa828bb5ec384f7b3d673433b58aa08c4e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 12/44] fix: do not merge views of different shared buffers

Views compare by content and the content of shared and transferred buffers is
not accessible, so views of different shared buffers were written as one.
---
 src/v8serialize/encode.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index e677599..21a145f 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -836,6 +836,13 @@ def _is_interchangeable(a: object, b: object) -> bool:
         return a.fold == cast(datetime, b).fold
     if isinstance(a, JSPrimitiveObject):
         return _is_interchangeable(a.value, cast("JSPrimitiveObject[Any]", b).value)
+    if isinstance(a, JSArrayBufferView):  # views are == if their contents are ==
+        b = cast("JSArrayBufferView[Any, Any]", b)
+        return (a.backing_buffer, a.item_offset, a.item_length) == (
+            b.backing_buffer,
+            b.item_offset,
+            b.item_length,
+        )
     return True
 
 
-- 
2.43.0


From 993db072fdaee2e0f62cc434a25a80efc53fa297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 13/44] fix: dates keep their exact millisecond when written
 and read

datetime.timestamp() and fromtimestamp() lose up to a microsecond for times
with a fractional second, so a time relayed between V8 peers arrived up to a
millisecond early.
---
 src/v8serialize/decode.py | 7 ++++++-
 src/v8serialize/encode.py | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 8759bf0..8a89765 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -525,7 +525,12 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
-        result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        epoch_s, ms = divmod(epoch_ms, 1000)
+        us = round(ms * 1000)
+        if us == 1_000_000:
+            epoch_s, us = epoch_s + 1, 0
+        # fromtimestamp() is only exact for whole seconds
+        result = datetime.fromtimestamp(epoch_s, tz=tz).replace(microsecond=us)
         return ReferencedObject(self.objects.record_reference(result), result)
 
     def read_jsmap(
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 21a145f..98cad37 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -438,7 +438,9 @@ class WritableTagStream:
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-        epoch_ms = value.timestamp() * 1000
+        # timestamp() is only exact for whole seconds
+        epoch_s = value.replace(microsecond=0).timestamp()
+        epoch_ms = epoch_s * 1000 + value.microsecond / 1000
         self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
         self.write_double(epoch_ms, tag=None)
-- 
2.43.0


From 275f97b41c2ba73be1545df867c6de65b1499f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 14/44] fix: regexps with conflicting flags are rejected with a
 decode error

---
 src/v8serialize/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 8a89765..3979b2b 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -416,7 +416,10 @@ class ReadableTagStream:
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
         flags = JSRegExpFlag(self.read_varint())
-        result = JSRegExp(source, flags)
+        try:
+            result = JSRegExp(source, flags)
+        except ValueError as e:
+            self.throw("RegExp flags are not valid", cause=e)
         return self.objects.record_reference(result), result
 
     def read_error_tag(self) -> SerializationErrorTag:
-- 
2.43.0


From f07f1ede12a4cb5ef1b128c37fad9ea76c0d2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 15/44] fix: truncated data after an unknown error tag is a
 decode error

---
 src/v8serialize/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 3979b2b..ef35d3e 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -428,7 +428,7 @@ class ReadableTagStream:
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
-            f"Expected an error tag but found {self.data[self.pos]} "
+            f"Expected an error tag but found {code} "
             f"(not a valid error tag)"
         )
 
-- 
2.43.0


From 8fc7210771992f8d46fe74c78f0c64ac6c117471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 16/44] fix: dates which datetime cannot represent are rejected
 with a decode error

---
 src/v8serialize/decode.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index ef35d3e..a13e900 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -528,12 +528,16 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
-        epoch_s, ms = divmod(epoch_ms, 1000)
-        us = round(ms * 1000)
-        if us == 1_000_000:
-            epoch_s, us = epoch_s + 1, 0
-        # fromtimestamp() is only exact for whole seconds
-        result = datetime.fromtimestamp(epoch_s, tz=tz).replace(microsecond=us)
+        try:
+            epoch_s, ms = divmod(epoch_ms, 1000)
+            us = round(ms * 1000)
+            if us == 1_000_000:
+                epoch_s, us = epoch_s + 1, 0
+            # fromtimestamp() is only exact for whole seconds
+            result = datetime.fromtimestamp(epoch_s, tz=tz).replace(microsecond=us)
+        except (ValueError, OverflowError, OSError) as e:
+            # JavaScript Dates can be invalid (NaN), and their range is greater
+            self.throw(f"Date cannot be represented as a datetime: {epoch_ms}", cause=e)
         return ReferencedObject(self.objects.record_reference(result), result)
 
     def read_jsmap(
-- 
2.43.0


From 6a1cf4ad51000c7460809a8dec3d1cb74f994a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 17/44] fix: out of bounds array buffer views are rejected with
 a decode error

---
 src/v8serialize/decode.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index a13e900..142f090 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -81,6 +81,7 @@ from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId
 from v8serialize.jstypes.jsarray import JSArray
 from v8serialize.jstypes.jsbuffers import (
     JSArrayBuffer,
+    JSArrayBufferError,
     JSArrayBufferTransfer,
     JSDataView,
     JSSharedArrayBuffer,
@@ -825,14 +826,19 @@ class ReadableTagStream:
         if self.version >= 14:  # flags field was added in v14
             flags = ArrayBufferViewFlags(self.read_varint())
 
-        result = array_buffer_view(
-            buffer=backing_buffer,
-            format=ArrayBufferViewTag(raw_view_tag),
-            byte_offset=byte_offset,
-            byte_length=(
-                None if ArrayBufferViewFlags.IsLengthTracking in flags else byte_length
-            ),
-        )
+        try:
+            result = array_buffer_view(
+                buffer=backing_buffer,
+                format=ArrayBufferViewTag(raw_view_tag),
+                byte_offset=byte_offset,
+                byte_length=(
+                    None
+                    if ArrayBufferViewFlags.IsLengthTracking in flags
+                    else byte_length
+                ),
+            )
+        except JSArrayBufferError as e:
+            self.throw(f"ArrayBufferView is not valid: {e.message}", cause=e)
         self.objects.record_reference(result)
         return result
 
-- 
2.43.0


From 29003a03133c64fe998553ef9c36aa0b67473e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 18/44] fix: bounds check resizable array buffers where their
 data starts

The check ignored the bytes of the max byte length field, so a message cut short
inside the buffer decoded to a shorter buffer.
---
 src/v8serialize/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 142f090..9f3d523 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -756,11 +756,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kResizableArrayBuffer)
         byte_length = self.read_uint32()
-        if self.pos + byte_length >= len(self.data):
+        max_byte_length = self.read_uint32()
+        if self.pos + byte_length > len(self.data):
             self.throw(
                 f"ArrayBuffer byte length exceeds available data: {byte_length=}"
             )
-        max_byte_length = self.read_uint32()
         if max_byte_length < byte_length:
             self.throw(
                 f"ResizableArrayBuffer max byte length is less than current "
-- 
2.43.0


From 7ab5ec3e887338394fb9b9fea8d3e3e165ae5335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 19/44] fix: data nested too deeply is rejected with a decode
 error

---
 src/v8serialize/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9f3d523..316d95e 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -1534,7 +1534,10 @@ class Decoder:
             decode_steps=self.decode_steps,
         )
         ctx.stream.read_header()
-        return ctx.decode_object()
+        try:
+            return ctx.decode_object()
+        except RecursionError as e:
+            ctx.stream.throw("Data is nested too deeply to be decoded", cause=e)
 
 
 @overload
-- 
2.43.0


From 0866741193857b93481d96e303b675564ab54be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 20/44] fix: first_v8_version of an Encoder with no optional
 features

---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 98cad37..e5e05cb 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1262,7 +1262,10 @@ class Encoder:
     @property
     def first_v8_version(self) -> Version | UnreleasedVersion:
         """The earliest version of V8 that can read data produced by this Encoder."""
-        return max(f.first_v8_version for f in self.features)
+        return max(
+            (f.first_v8_version for f in self.features),
+            default=SerializationFeature.MaxCompatibility.first_v8_version,
+        )
 
     def encode(self, value: object) -> bytearray:
         """
-- 
2.43.0


From 07a8de04681f3d008e747c0a0d503cf8f5764e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 21/44] fix: copies of JSMap and JSSet find the copies of their
 object keys

---
 src/v8serialize/jstypes/_equality.py | 10 +++++++++-
 src/v8serialize/jstypes/jsmap.py     | 11 ++++++++++-
 src/v8serialize/jstypes/jsset.py     | 11 ++++++++++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/_equality.py b/src/v8serialize/jstypes/_equality.py
index 4f513f2..abc7c43 100644
--- a/src/v8serialize/jstypes/_equality.py
+++ b/src/v8serialize/jstypes/_equality.py
@@ -1,12 +1,20 @@
 from __future__ import annotations
 
 from math import isnan
-from typing import Final, NewType
+from typing import Any, Final, NewType
 
 from v8serialize.jstypes.jsundefined import JSUndefinedEnum
 
 _nankey: Final = (float("nan"),)  # equal thanks to tuple identity
 
+
+def restore_state(obj: object, state: Any) -> None:
+    """Set the attributes saved when an object was copied or pickled."""
+    for attrs in state if isinstance(state, tuple) else (state,):
+        for name, value in (attrs or {}).items():
+            setattr(obj, name, value)
+
+
 JSSameValueZero = NewType("JSSameValueZero", object)
 """
 The type of the opaque values returned by [`same_value_zero`].
diff --git a/src/v8serialize/jstypes/jsmap.py b/src/v8serialize/jstypes/jsmap.py
index 8348460..5f833f3 100644
--- a/src/v8serialize/jstypes/jsmap.py
+++ b/src/v8serialize/jstypes/jsmap.py
@@ -9,7 +9,11 @@ from typing import TYPE_CHECKING, cast, overload
 from v8serialize._pycompat.dataclasses import slots_if310
 from v8serialize._recursive_eq import recursive_eq
 from v8serialize.jstypes import _repr
-from v8serialize.jstypes._equality import JSSameValueZero, same_value_zero
+from v8serialize.jstypes._equality import (
+    JSSameValueZero,
+    restore_state,
+    same_value_zero,
+)
 
 if TYPE_CHECKING:
     from typing_extensions import TypeGuard, TypeVar
@@ -186,6 +190,11 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         if kwargs:
             self.update(cast(dict[KT, VT], kwargs))
 
+    def __setstate__(self, state: object) -> None:
+        # Keys that are objects are copied too, so they have new identities
+        restore_state(self, state)
+        self.__dict = {same_value_zero(k): (k, v) for k, v in self.__dict.values()}
+
     def __setitem__(self, key: KT, value: VT, /) -> None:
         self.__dict[same_value_zero(key)] = key, value
 
diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index 611e3ae..1072f8f 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -8,7 +8,11 @@ from typing import TYPE_CHECKING, AbstractSet, overload
 from v8serialize._pycompat.dataclasses import slots_if310
 from v8serialize._recursive_eq import recursive_eq
 from v8serialize.jstypes import _repr
-from v8serialize.jstypes._equality import JSSameValueZero, same_value_zero
+from v8serialize.jstypes._equality import (
+    JSSameValueZero,
+    restore_state,
+    same_value_zero,
+)
 
 if TYPE_CHECKING:
     from typing_extensions import Self, TypeVar
@@ -125,6 +129,11 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         if iterable is not None:
             self |= iterable
 
+    def __setstate__(self, state: object) -> None:
+        # Members that are objects are copied too, so they have new identities
+        restore_state(self, state)
+        self.__members = {same_value_zero(x): x for x in self.__members.values()}
+
     def add(self, value: T) -> None:
         self.__members[same_value_zero(value)] = value
 
-- 
2.43.0


From c67e356256e6a124f63dbb9ee9579736cf29d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 22/44] fix: sparse arrays extend, insert, fill and look up as
 dense arrays do

---
 src/v8serialize/jstypes/jsarrayproperties.py | 22 ++++++++------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index fccee7a..14dfcc2 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -403,8 +403,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         if values is not None:
             if length is not None:  # Enforce type signature
                 raise ValueError("length cannot be used with values argument")
-            if supports_sized(values):
-                length = len(values)
+            if not supports_sized(values):
+                values = list(values)
+            length = len(values)
             entries = (
                 (i, v)
                 for i, v in enumerate(cast(Iterable[T], values))
@@ -526,11 +527,7 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
                 # Creating a hole invalidates the sorted keys, but if it's the
                 # last value we can update the sorted keys in place in O(1).
 
-                # TODO: ensure we set an empty sorted_keys when
-                #   appending/inserting from empty list
                 sorted_keys = self._sorted_keys
-                assert sorted_keys is not None if len(items) <= 1 else True
-
                 if sorted_keys is None:
                     return
                 if i == sorted_keys[-1]:
@@ -546,9 +543,6 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             # When filling a hole after the last existing element we can update
             # sorted_keys in place in O(1).
             sorted_keys = self._sorted_keys
-            # TODO: ensure we set an empty sorted_keys when appending/inserting
-            #   from empty list
-            assert sorted_keys is not None if len(items) <= 1 else True
             if sorted_keys is not None and i > (
                 -1 if len(sorted_keys) == 0 else sorted_keys[-1]
             ):
@@ -580,7 +574,8 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def insert(self, i: int, value: T | JSHoleType, /) -> None:
-        i = self._normalise_index(i)
+        # Inserting past the end appends, as with list
+        i = len(self) if i >= len(self) else self._normalise_index(i)
         if len(self) >= MAX_ARRAY_LENGTH:
             raise IndexError("Cannot insert, array is already at max allowed length")
 
@@ -598,13 +593,14 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def append(self, value: T | JSHoleType) -> None:
-        if value is JSHole:
-            return
         i = self._max_index + 1
         if i >= MAX_ARRAY_LENGTH:
             raise IndexError(
                 f"Cannot extend array beyond max length: {MAX_ARRAY_LENGTH}"
             )
+        if value is JSHole:
+            self._max_index = i
+            return
 
         items = self._items
         sorted_keys = self._sorted_keys
@@ -660,7 +656,7 @@ class ArrayPropertiesElementsView(ElementsView[T], Mapping[int, T]):
         self.order = order
 
     def __getitem__(self, key: int, /) -> T:
-        if not (0 <= key <= len(self._array_properties)):
+        if not (0 <= key < len(self._array_properties)):
             raise KeyError(key)
         value = self._array_properties[key]
         if value is not JSHole:
-- 
2.43.0


From d4cd7b6e4af0a35290a35791fad87cf64f645788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 23/44] fix: JSArrayBuffer exposes all the bytes of wrapped
 multi-byte items

---
 src/v8serialize/jstypes/jsbuffers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 16c2fcc..629a419 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -162,7 +162,10 @@ Reference/Global_Objects/ArrayBuffer
             data = b"\x00" * byte_length if readonly else bytearray(byte_length)
 
         assert isinstance(data, Sized)
-        max_byte_length = len(data) if max_byte_length is None else max_byte_length
+        with memoryview(data) as data_view:
+            data_byte_length = data_view.nbytes  # items may not be bytes
+        if max_byte_length is None:
+            max_byte_length = data_byte_length
 
         if resizable:
             if not isinstance(data, bytearray):
@@ -177,10 +180,10 @@ Reference/Global_Objects/ArrayBuffer
                 isinstance(data, memoryview) and data.readonly
             )
 
-        if len(data) > max_byte_length:
+        if data_byte_length > max_byte_length:
             raise ByteLengthJSArrayBufferError(
                 "max_byte_length cannot be less than initial byte_length",
-                byte_length=len(data),
+                byte_length=data_byte_length,
                 max_byte_length=max_byte_length,
             )
 
-- 
2.43.0


From 3834a795dc83f8467d165eb5227da10eb03d0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 24/44] fix: a length-tracking view out of range stays empty
 when sent

An out of range view is written with offset 0 and length 0, but the
IsLengthTracking flag was still set, so the receiver saw it covering the
whole buffer.
---
 src/v8serialize/encode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index e5e05cb..5b1034a 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -704,7 +704,11 @@ class WritableTagStream:
         flags = ArrayBufferViewFlags(0)
         if is_buffer_resizable:
             flags |= ArrayBufferViewFlags.IsBufferResizable
-            if buffer_view.is_length_tracking:
+            # A view that is out of range is written empty, with offset 0. It
+            # would cover the whole buffer if it was still tracking its length.
+            if buffer_view.is_length_tracking and getattr(
+                buffer_view, "is_in_range", True
+            ):
                 flags |= ArrayBufferViewFlags.IsLengthTracking
 
         self.write_varint(flags)
-- 
2.43.0


From 7ed2e3b16f849bd9c9fd74c0d1e165a5231a7bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 25/44] fix: repr of readonly array buffer views

It printed the item_length as the value of readonly.
---
 src/v8serialize/jstypes/jsbuffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 629a419..aa8d7ce 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -639,7 +639,7 @@ the itemsize when the view does not have an explicit byte_length"""
             f"{self.backing_buffer!r}",
             None if self.item_offset == 0 else f"item_offset={self.item_offset!r}",
             None if self.item_length is None else f"item_length={self.item_length!r}",
-            None if self.readonly is None else f"readonly={self.item_length!r}",
+            None if self.readonly is None else f"readonly={self.readonly!r}",
         ]
         args = ", ".join(a for a in arg_pieces if a)
         return f"{type(self).__name__}({args})"
-- 
2.43.0


From 55803692591a7d69b4d2d79115d3b7c955955130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 26/44] fix: a DataView write with a bad value changes nothing

struct.pack_into() zeroes the destination before it finds that a value is
out of range, so a refused set_*() call destroyed the existing bytes.
---
 src/v8serialize/jstypes/jsbuffers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index aa8d7ce..8ddfd45 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -940,7 +940,9 @@ data in bulk.
                 byte_length=struct.calcsize(struct_format),
                 buffer_byte_length=len(self.buffer),
             )
-        struct.pack_into(struct_format, buffer, byte_offset, *values)
+        # pack_into() leaves zeros behind when it rejects a value
+        data = struct.pack(struct_format, *values)
+        buffer[byte_offset : byte_offset + len(data)] = data
 
     def get_bigint64(self, byte_offset: int, little_endian: bool = False) -> int:
         return self.read("<q" if little_endian else ">q", byte_offset)[0]  # type: ignore[no-any-return]
-- 
2.43.0


From a5e58ca3a8281fd68907dba61129b3b0014999de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 27/44] fix: backport of Float16Array keeps its data when a
 write is refused

---
 src/v8serialize/jstypes/jsbuffers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 8ddfd45..77c588f 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -847,8 +847,8 @@ class BackportJSFloat16Array(JSFloat16Array):
             if buffer.readonly:
                 return
 
-            for i, fv in enumerate(view):
-                half_float.pack_into(buffer, i * 2, fv)
+            # Change nothing if one of the floats is too large to be a half float
+            buffer[:] = struct.pack(f"{len(view)}e", *view)
 
 
 # Use BackportJSFloat16Array in place of JSFloat16Array in Python versions that
-- 
2.43.0


From 219082689735a2fe0bba233847c2954d89e17d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 28/44] fix: constants are not written where only property keys
 are allowed

write_constant() replaced the constraint on the tags allowed for object
keys, so an object with None or a bool as key was written as data which
cannot be read back.
---
 src/v8serialize/encode.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 5b1034a..d82e645 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -240,8 +240,13 @@ class WritableTagStream:
         self.write_varint(_encode_zigzag(n))
 
     def write_constant(self, constant: ConstantTags) -> None:
-        with self.constrain_tags(JS_CONSTANT_TAGS):
-            self.write_tag(constant)
+        # Not using constrain_tags(), it'd replace the constraint of our context
+        if constant not in JS_CONSTANT_TAGS:
+            raise EncodeV8SerializeError(
+                f"Attempted to write tag {constant.name} in a context where "
+                f"allowed tags are {JS_CONSTANT_TAGS}"
+            )
+        self.write_tag(constant)
 
     def write_header(self) -> None:
         """Write the V8 serialization stream header."""
-- 
2.43.0


From ceaf2c9b5113513a82334bcb016daf69c053f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 29/44] fix: arrays changing length while they are written is
 always an error

The check was an assert, so with python -O malformed data was returned.
---
 src/v8serialize/encode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index d82e645..6cd2c33 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -554,7 +554,11 @@ class WritableTagStream:
         for el in array:
             ctx.encode_object(el)
             array_el_count += 1
-        assert array_el_count == array_length
+        if array_el_count != array_length:
+            raise EncodeV8SerializeError(
+                f"array changed length while it was being written: it had "
+                f"{array_length} elements initially, but {array_el_count} when iterated"
+            )
 
         properties_count = 0
         for key, value in [] if properties is None else properties:
-- 
2.43.0


From 458dbf84864b6160d9e059bb7b4942e1b253fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 30/44] fix: values refused as property keys are not recorded
 as written

Composite values were recorded in the object log before their tag was
refused. An encode step which catches the refusal to write something else
got a message with wrong object references.
---
 src/v8serialize/encode.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 6cd2c33..9689bfc 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -367,10 +367,10 @@ class WritableTagStream:
     def write_js_primitive_object(
         self, obj: JSPrimitiveObject, *, identity: object | None = None
     ) -> None:
-        self.objects.record_reference(obj if identity is None else identity)
         tag = obj.tag
         value = obj.value
         self.write_tag(tag)
+        self.objects.record_reference(obj if identity is None else identity)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
             # V8 reads a complete tagged string here
@@ -403,8 +403,8 @@ class WritableTagStream:
                 "RegExpUnicodeSets SerializationFeature is not enabled.",
                 feature_required=SerializationFeature.RegExpUnicodeSets,
             )
-        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
+        self.objects.record_reference(regexp if identity is None else identity)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
         self.write_varint(regexp.flags.canonical)
@@ -446,8 +446,8 @@ class WritableTagStream:
         # timestamp() is only exact for whole seconds
         epoch_s = value.replace(microsecond=0).timestamp()
         epoch_ms = epoch_s * 1000 + value.microsecond / 1000
-        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
+        self.objects.record_reference(value if identity is None else identity)
         self.write_double(epoch_ms, tag=None)
 
     def write_jsmap(
@@ -457,8 +457,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSMap)
+        self.objects.record_reference(items if identity is None else identity)
         count = 0
         for key, value in items:
             ctx.encode_object(key)
@@ -474,8 +474,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(values if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSSet)
+        self.objects.record_reference(values if identity is None else identity)
         count = 0
         for value in values:
             ctx.encode_object(value)
@@ -490,8 +490,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSObject)
+        self.objects.record_reference(items if identity is None else identity)
         self._write_js_object_properties(items, ctx)
 
     def _write_js_object_properties(
@@ -545,8 +545,8 @@ class WritableTagStream:
                     "array and properties are provided"
                 )
             identity = array
-        self.objects.record_reference(identity)
         self.write_tag(SerializationTag.kBeginDenseJSArray)
+        self.objects.record_reference(identity)
         array_length = len(array)
         self.write_varint(array_length)
         array_el_count = 0
@@ -582,8 +582,8 @@ class WritableTagStream:
             raise ValueError(
                 f"length must be >= 0 and <= ${MAX_ARRAY_LENGTH_REPR}: {length=}"
             )
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginSparseJSArray)
+        self.objects.record_reference(items if identity is None else identity)
         self.write_varint(length)
         self._write_js_object_properties(
             items, ctx, end_tag=SerializationTag.kEndSparseJSArray
@@ -643,8 +643,8 @@ class WritableTagStream:
             not buffer.resizable
             or SerializationFeature.ResizableArrayBuffers not in self.features
         )
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBuffer)
+        self.objects.record_reference(buffer if identity is None else identity)
         with memoryview(buffer.data) as buffer_data:
             self.write_uint32(len(buffer_data), tag=None)
             self.data.extend(buffer_data)
@@ -659,8 +659,8 @@ class WritableTagStream:
                     f"max_byte_length must be >= len(data): "
                     f"{buffer.max_byte_length=}, {len(buffer_data)=}"
                 )
-            self.objects.record_reference(buffer if identity is None else identity)
             self.write_tag(SerializationTag.kResizableArrayBuffer)
+            self.objects.record_reference(buffer if identity is None else identity)
             self.write_uint32(len(buffer_data), tag=None)
             self.write_uint32(buffer.max_byte_length, tag=None)
             self.data.extend(buffer_data)
@@ -670,8 +670,8 @@ class WritableTagStream:
     ) -> None:
         if buffer.buffer_id < 0:
             raise ValueError(f"buffer_id cannot be negative: {buffer.buffer_id=}")
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kSharedArrayBuffer)
+        self.objects.record_reference(buffer if identity is None else identity)
         self.write_varint(buffer.buffer_id)
 
     def _write_js_array_buffer_transfer(
@@ -679,8 +679,8 @@ class WritableTagStream:
     ) -> None:
         if buffer.transfer_id < 0:
             raise ValueError(f"transfer_id cannot be negative: {buffer.transfer_id=}")
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferTransfer)
+        self.objects.record_reference(buffer if identity is None else identity)
         self.write_varint(buffer.transfer_id)
 
     def write_js_array_buffer_view(
@@ -695,8 +695,8 @@ class WritableTagStream:
                 "SerializationFeature is not enabled.",
                 feature_required=SerializationFeature.Float16Array,
             )
-        self.objects.record_reference(buffer_view if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferView)
+        self.objects.record_reference(buffer_view if identity is None else identity)
         self.write_varint(buffer_view.view_tag.value)
         self.write_uint32(buffer_view.byte_offset, tag=None)
         # 0 / None when flags.IsBufferResizable
@@ -725,8 +725,8 @@ class WritableTagStream:
     def write_host_object(
         self, value: T, *, serializer: HostObjectSerializer[T]
     ) -> None:
-        self.objects.record_reference(value)
         self.write_tag(SerializationTag.kHostObject)
+        self.objects.record_reference(value)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
         else:
@@ -735,8 +735,8 @@ class WritableTagStream:
     def write_v8_shared_object_reference(
         self, value: V8SharedObjectReference, *, identity: object | None = None
     ) -> None:
-        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kSharedObject)
+        self.objects.record_reference(value if identity is None else identity)
         self.write_uint32(value.shared_value_id, tag=None)
 
 
-- 
2.43.0


From dc2c81538784ac6198f5b345a55fe92e991818ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 31/44] fix: objects read inside host objects get the right
 reference IDs

V8 (and write_host_object) assign the ID of a host object before those of
the objects in its data.
---
 src/v8serialize/_references.py |  5 ++++-
 src/v8serialize/decode.py      | 14 +++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/_references.py b/src/v8serialize/_references.py
index 63caeb2..1733f43 100644
--- a/src/v8serialize/_references.py
+++ b/src/v8serialize/_references.py
@@ -86,12 +86,15 @@ class SerializedObjectLog:
 
     def get_object(self, serialized_id: SerializedId) -> object:
         try:
-            return self._object_by_serialized_id[serialized_id]
+            value = self._object_by_serialized_id[serialized_id]
         except IndexError:
             raise SerializedIdOutOfRangeV8SerializeError(
                 "Serialized ID has not been recorded in the log",
                 serialized_id=serialized_id,
             ) from None
+        if isinstance(value, ForwardReference):
+            return value.get_value()  # throws if not yet set
+        return value
 
     def record_reference(self, obj: object) -> SerializedId:
         serialized_id = SerializedId(len(self._object_by_serialized_id))
diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 316d95e..1a21073 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -39,7 +39,12 @@ from v8serialize._pycompat.typing import (
     get_buffer,
     is_readable_binary,
 )
-from v8serialize._references import SerializedId, SerializedObjectLog
+from v8serialize._references import (
+    ForwardReference,
+    ForwardReferenceError,
+    SerializedId,
+    SerializedObjectLog,
+)
 from v8serialize._values import AnyJSError as AnyJSError
 from v8serialize._values import ArrayBufferConstructor as ArrayBufferConstructor
 from v8serialize._values import (
@@ -692,7 +697,7 @@ class ReadableTagStream:
 
         try:
             return serialized_id, self.objects.get_object(serialized_id)
-        except V8SerializeError as e:
+        except (V8SerializeError, ForwardReferenceError) as e:
             self.throw(
                 "ObjectReference contains serialized ID which has not been "
                 "deserialized",
@@ -847,12 +852,15 @@ class ReadableTagStream:
     ) -> T:
         if tag:
             self.read_tag(SerializationTag.kHostObject)
+        # Host objects get their ID before the objects contained in their data
+        reference = ForwardReference[T]()
+        self.objects.record_reference(reference)
         result = (
             deserializer.deserialize_host_object(stream=self)
             if isinstance(deserializer, HostObjectDeserializerObj)
             else deserializer(stream=self)
         )
-        self.objects.record_reference(result)
+        reference.set_value(result)
         return result
 
     def read_v8_shared_object_reference(
-- 
2.43.0


From 6f95753688a86399a6423e01103deca8187262fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 32/44] fix: a view never exceeds the buffer it was written
 with

---
 src/v8serialize/encode.py | 78 +++++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 9689bfc..02ce87c 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -7,7 +7,7 @@ import re
 import struct
 from collections import abc
 from collections.abc import Collection, Iterable, Mapping, Sequence
-from contextlib import AbstractContextManager
+from contextlib import AbstractContextManager, nullcontext
 from dataclasses import dataclass, field
 from datetime import datetime
 from functools import lru_cache, partial
@@ -32,6 +32,7 @@ from v8serialize._errors import V8SerializeError
 from v8serialize._pycompat.dataclasses import slots_if310
 from v8serialize._pycompat.exceptions import add_note
 from v8serialize._pycompat.types import NoneType
+from v8serialize._pycompat.typing import get_buffer
 from v8serialize._references import SerializedId, SerializedObjectLog
 from v8serialize._values import (
     AnyArrayBuffer,
@@ -79,7 +80,7 @@ from v8serialize.jstypes.jsundefined import JSUndefinedEnum, JSUndefinedType
 
 if TYPE_CHECKING:
     from functools import _lru_cache_wrapper
-    from typing_extensions import Never, TypeAlias
+    from typing_extensions import Buffer, Never, TypeAlias
 
 T = TypeVar("T")
 T_con = TypeVar("T_con", contravariant=True)
@@ -136,6 +137,14 @@ def _encode_zigzag(number: int) -> int:
     return abs(number * 2) - (number < 0)
 
 
+def _prevent_resize(buffer: object) -> AbstractContextManager[object]:
+    """Hold on to a buffer's memory so that it can't be resized, if it's accessible."""
+    try:
+        return get_buffer(cast("Buffer", buffer))
+    except (NotImplementedError, TypeError):
+        return nullcontext()
+
+
 @dataclass(**slots_if310())
 class TagConstraintRemover(AbstractContextManager[None, None]):
     """
@@ -188,6 +197,11 @@ class WritableTagStream:
         default=SerializationFeature.MaxCompatibility
     )
 
+    _array_buffer_lengths: dict[SerializedId, int] = field(
+        compare=False, repr=False, init=False, default_factory=dict
+    )
+    """The byte lengths the array buffers had when they were written."""
+
     def __post_init__(self) -> None:
         self.__tag_constraint_remover = TagConstraintRemover(self)
 
@@ -644,8 +658,11 @@ class WritableTagStream:
             or SerializationFeature.ResizableArrayBuffers not in self.features
         )
         self.write_tag(SerializationTag.kArrayBuffer)
-        self.objects.record_reference(buffer if identity is None else identity)
+        serialized_id = self.objects.record_reference(
+            buffer if identity is None else identity
+        )
         with memoryview(buffer.data) as buffer_data:
+            self._array_buffer_lengths[serialized_id] = len(buffer_data)
             self.write_uint32(len(buffer_data), tag=None)
             self.data.extend(buffer_data)
 
@@ -660,7 +677,10 @@ class WritableTagStream:
                     f"{buffer.max_byte_length=}, {len(buffer_data)=}"
                 )
             self.write_tag(SerializationTag.kResizableArrayBuffer)
-            self.objects.record_reference(buffer if identity is None else identity)
+            serialized_id = self.objects.record_reference(
+                buffer if identity is None else identity
+            )
+            self._array_buffer_lengths[serialized_id] = len(buffer_data)
             self.write_uint32(len(buffer_data), tag=None)
             self.write_uint32(buffer.max_byte_length, tag=None)
             self.data.extend(buffer_data)
@@ -695,31 +715,49 @@ class WritableTagStream:
                 "SerializationFeature is not enabled.",
                 feature_required=SerializationFeature.Float16Array,
             )
-        self.write_tag(SerializationTag.kArrayBufferView)
-        self.objects.record_reference(buffer_view if identity is None else identity)
-        self.write_varint(buffer_view.view_tag.value)
-        self.write_uint32(buffer_view.byte_offset, tag=None)
-        # 0 / None when flags.IsBufferResizable
-        self.write_uint32(buffer_view.byte_length or 0, tag=None)
-
+        backing_buffer = getattr(buffer_view, "backing_buffer", None)
         # V8 rejects views with flags that don't match the buffer they follow.
         # bytearray is always written as a fixed-length buffer, as are resizable
         # buffers when ResizableArrayBuffers is not enabled.
         is_buffer_resizable = (
             SerializationFeature.ResizableArrayBuffers in self.features
             and buffer_view.is_backing_buffer_resizable
-            and not isinstance(getattr(buffer_view, "backing_buffer", None), bytearray)
+            and not isinstance(backing_buffer, bytearray)
         )
         flags = ArrayBufferViewFlags(0)
-        if is_buffer_resizable:
-            flags |= ArrayBufferViewFlags.IsBufferResizable
-            # A view that is out of range is written empty, with offset 0. It
-            # would cover the whole buffer if it was still tracking its length.
-            if buffer_view.is_length_tracking and getattr(
-                buffer_view, "is_in_range", True
-            ):
-                flags |= ArrayBufferViewFlags.IsLengthTracking
+        with _prevent_resize(backing_buffer):
+            byte_offset = buffer_view.byte_offset
+            # 0 / None when flags.IsBufferResizable
+            byte_length = buffer_view.byte_length or 0
+            if is_buffer_resizable:
+                flags |= ArrayBufferViewFlags.IsBufferResizable
+                # A view that is out of range is written empty, with offset 0. It
+                # would cover the whole buffer if it was still tracking its length.
+                if buffer_view.is_length_tracking and getattr(
+                    buffer_view, "is_in_range", True
+                ):
+                    flags |= ArrayBufferViewFlags.IsLengthTracking
+
+        # The buffer can be resized after it's written
+        if backing_buffer in self.objects:
+            written_length = self._array_buffer_lengths.get(
+                self.objects.get_serialized_id(backing_buffer)
+            )
+            view_end = byte_offset
+            if ArrayBufferViewFlags.IsLengthTracking not in flags:
+                view_end += byte_length
+            if written_length is not None and view_end > written_length:
+                raise EncodeV8SerializeError(
+                    f"array buffer changed length while it was being written: it "
+                    f"had {written_length} bytes initially, but its view ends at "
+                    f"byte {view_end}"
+                )
 
+        self.write_tag(SerializationTag.kArrayBufferView)
+        self.objects.record_reference(buffer_view if identity is None else identity)
+        self.write_varint(buffer_view.view_tag.value)
+        self.write_uint32(byte_offset, tag=None)
+        self.write_uint32(byte_length, tag=None)
         self.write_varint(flags)
 
     def write_host_object(
-- 
2.43.0


From 6112edb6e2b421c044b0573ee7654e3ed283164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 33/44] fix: length-tracking views are written without a
 length, as V8 does

The length they had could exceed the length of the buffer when it was written,
so V8 rejected the data.
---
 src/v8serialize/encode.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 02ce87c..4a6850e 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -727,7 +727,6 @@ class WritableTagStream:
         flags = ArrayBufferViewFlags(0)
         with _prevent_resize(backing_buffer):
             byte_offset = buffer_view.byte_offset
-            # 0 / None when flags.IsBufferResizable
             byte_length = buffer_view.byte_length or 0
             if is_buffer_resizable:
                 flags |= ArrayBufferViewFlags.IsBufferResizable
@@ -737,15 +736,14 @@ class WritableTagStream:
                     buffer_view, "is_in_range", True
                 ):
                     flags |= ArrayBufferViewFlags.IsLengthTracking
+                    byte_length = 0
 
         # The buffer can be resized after it's written
         if backing_buffer in self.objects:
             written_length = self._array_buffer_lengths.get(
                 self.objects.get_serialized_id(backing_buffer)
             )
-            view_end = byte_offset
-            if ArrayBufferViewFlags.IsLengthTracking not in flags:
-                view_end += byte_length
+            view_end = byte_offset + byte_length
             if written_length is not None and view_end > written_length:
                 raise EncodeV8SerializeError(
                     f"array buffer changed length while it was being written: it "
-- 
2.43.0


From 8d7944880c28a439dd71b4bd9264f64e054975f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 34/44] fix: views of shared buffers are written with their
 offset and length

---
 src/v8serialize/encode.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 4a6850e..bbb215a 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -737,6 +737,13 @@ class WritableTagStream:
                 ):
                     flags |= ArrayBufferViewFlags.IsLengthTracking
                     byte_length = 0
+            elif isinstance(buffer_view, JSArrayBufferView) and isinstance(
+                backing_buffer, (JSSharedArrayBuffer, JSArrayBufferTransfer)
+            ):
+                # These views are always empty, as the memory isn't accessible
+                itemsize = buffer_view.data_format.byte_length
+                byte_offset = buffer_view.item_offset * itemsize
+                byte_length = (buffer_view.item_length or 0) * itemsize
 
         # The buffer can be resized after it's written
         if backing_buffer in self.objects:
-- 
2.43.0


From 8f2c9e80aefbcd77801110a7044816e389ebeaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 35/44] fix: buffers lent by Python classes are given back

---
 src/v8serialize/_pycompat/typing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/_pycompat/typing.py b/src/v8serialize/_pycompat/typing.py
index 2b6126c..4c43f33 100644
--- a/src/v8serialize/_pycompat/typing.py
+++ b/src/v8serialize/_pycompat/typing.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
 
+import sys
 from array import array
+from types import FunctionType
 from typing import TYPE_CHECKING, Sequence, Union, overload
 
 from v8serialize._pycompat.inspect import BufferFlags
@@ -71,7 +73,12 @@ def get_buffer(
         A memoryview with itemsize 1, 1 dimension and `B` (uint8) format.
     """
     # Python buffer protocol API only available from Python 3.12
-    if hasattr(buffer, "__buffer__"):
+    if sys.version_info >= (3, 12) and isinstance(
+        getattr(type(buffer), "__release_buffer__", None), FunctionType
+    ):
+        # Python doesn't call __release_buffer__() when __buffer__() is called directly
+        buf = memoryview(buffer)
+    elif hasattr(buffer, "__buffer__"):
         buf = buffer.__buffer__(flags)
     else:
         buf = memoryview(buffer)
-- 
2.43.0


From 32c39ce09e8828d8a902a773523f032b1740c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:37 +0000
Subject: [PATCH 36/44] fix: wrapper objects are not allowed as property keys

V8 refuses to read objects which have Number or String wrapper objects as
property keys. Encode steps could write them nevertheless.
---
 src/v8serialize/constants.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/v8serialize/constants.py b/src/v8serialize/constants.py
index d6a12cd..a834dbf 100644
--- a/src/v8serialize/constants.py
+++ b/src/v8serialize/constants.py
@@ -672,11 +672,9 @@ ObjectKeyTag = Literal[
     SerializationTag.kInt32,
     SerializationTag.kDouble,
     SerializationTag.kUint32,
-    SerializationTag.kNumberObject,
     SerializationTag.kOneByteString,
     SerializationTag.kTwoByteString,
     SerializationTag.kUtf8String,
-    SerializationTag.kStringObject,
 ]
 
 JS_OBJECT_KEY_TAGS: Final = TagConstraint[ObjectKeyTag](
@@ -686,11 +684,9 @@ JS_OBJECT_KEY_TAGS: Final = TagConstraint[ObjectKeyTag](
             SerializationTag.kInt32,
             SerializationTag.kDouble,
             SerializationTag.kUint32,
-            SerializationTag.kNumberObject,
             SerializationTag.kOneByteString,
             SerializationTag.kTwoByteString,
             SerializationTag.kUtf8String,
-            SerializationTag.kStringObject,
         }
     ),
 )
-- 
2.43.0


From 414028f0ba341810e8dcbd5bb70de7e0243126d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:39 +0000
Subject: [PATCH 37/44] fix: memoryviews which are not contiguous can be
 printed

repr() of an object holding one failed with a TypeError.
---
 src/v8serialize/jstypes/_repr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 2186e28..fad546b 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -355,7 +355,9 @@ class JSRepr(RecursiveReprMixin, Repr):
         try:
             byte_length = obj.nbytes
 
-            content_mv = obj.cast("B")[: self.maxstring]
+            # Only contiguous memory can be cast
+            content_mv = obj if obj.c_contiguous else memoryview(obj.tobytes())
+            content_mv = content_mv.cast("B")[: self.maxstring]
             truncated = content_mv.nbytes < byte_length
             content_repr = (
                 self.repr_bytes(bytes(content_mv), truncated=truncated)
-- 
2.43.0


From 0275a17eec9b6842ad9ce85b45831dfed6936236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:56 +0000
Subject: [PATCH 38/44] fix: sets can be deserialized as Python's set

TagReader(jsset_type=set) failed with a TypeError as soon as data contained a
Set: set's |= only accepts other sets.
---
 src/v8serialize/decode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 1a21073..d5e767a 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -1298,9 +1298,9 @@ class TagReader(DecodeStepObject):
     ) -> AbstractSet[object]:
         assert tag == SerializationTag.kBeginJSSet
         set = self.jsset_type()
-        # MutableSet's types expect AbstractSet for RHS of |= but implementations
-        # accept any iterable in practice.
-        set |= ctx.stream.read_jsset(ctx, identity=set)  # type: ignore[arg-type]
+        # Not using |=, as Python's set only accepts other sets
+        for value in ctx.stream.read_jsset(ctx, identity=set):
+            set.add(value)
         return set
 
     def deserialize_js_object(
-- 
2.43.0


From 2eb8fe3cd5e5920ebbcaa4bb3096ac30c80d043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:20 +0000
Subject: [PATCH 39/44] fix: self-referential values with different structures
 are not equal

---
 src/v8serialize/_recursive_eq.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/_recursive_eq.py b/src/v8serialize/_recursive_eq.py
index 9816727..bd8bb1a 100644
--- a/src/v8serialize/_recursive_eq.py
+++ b/src/v8serialize/_recursive_eq.py
@@ -4,7 +4,7 @@ from _thread import get_ident
 from functools import wraps
 from typing import Final, TypeVar
 
-_RUNNING_EQ_KEYS: Final[set[tuple[int, int]]] = set()
+_RUNNING_EQ_KEYS: Final[set[tuple[int, ...]]] = set()
 
 _T = TypeVar("_T")
 
@@ -45,20 +45,24 @@ def recursive_eq(cls: type[_T]) -> type[_T]:
         other_key = id(other), thread_id
         self_running = self_key in _RUNNING_EQ_KEYS
         other_running = other_key in _RUNNING_EQ_KEYS
+        pair_key = *sorted([id(self), id(other)]), thread_id
 
         # If either side already has __eq__ running in the call stack, we must
         # stop recursing, otherwise we'll infinitely loop.
         if self_running or other_running:
-            # If both sides were already seen, we might be equal (caller decides)
-            # If only one side was running, we can't be equal, as there's a
-            # different structure referencing this point.
-            return self_running and other_running
+            # If both sides were already seen, and are being compared with each
+            # other, we might be equal (caller decides).
+            # If only one side was running, or they're being compared with other
+            # objects, we can't be equal, as there's a different structure
+            # referencing this point.
+            return pair_key in _RUNNING_EQ_KEYS
 
         try:
             # Register these objects as running so that we won't descend into
             # them if they are referenced again.
             _RUNNING_EQ_KEYS.add(self_key)
             _RUNNING_EQ_KEYS.add(other_key)
+            _RUNNING_EQ_KEYS.add(pair_key)
 
             # Allow the type to do its own equality check as normal, descending
             # into children if required.
@@ -66,6 +70,7 @@ def recursive_eq(cls: type[_T]) -> type[_T]:
         finally:
             _RUNNING_EQ_KEYS.discard(self_key)
             _RUNNING_EQ_KEYS.discard(other_key)
+            _RUNNING_EQ_KEYS.discard(pair_key)
         return eq
 
     cls.__eq__ = decorator  # type: ignore[method-assign]
-- 
2.43.0


From b6c46fdd142820af5b7148797777d6269b428a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:51 +0000
Subject: [PATCH 40/44] fix: int subclasses are written without scanning ranges

---
 src/v8serialize/encode.py                    | 4 ++++
 src/v8serialize/jstypes/jsprimitiveobject.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index bbb215a..3ab585f 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -11,6 +11,7 @@ from contextlib import AbstractContextManager, nullcontext
 from dataclasses import dataclass, field
 from datetime import datetime
 from functools import lru_cache, partial
+from operator import index
 from types import TracebackType
 from typing import (
     TYPE_CHECKING,
@@ -356,6 +357,7 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kInt32] | None = SerializationTag.kInt32,
     ) -> None:
+        value = index(value)  # in range() is slow with subclasses of int
         if value not in INT32_RANGE:
             raise ValueError(
                 f"Python int is too large to represent as Int32: value must be "
@@ -370,6 +372,7 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kUint32] | None = SerializationTag.kUint32,
     ) -> None:
+        value = index(value)  # in range() is slow with subclasses of int
         if value not in UINT32_RANGE:
             raise ValueError(
                 f"Python int is too large to represent as Uint32: value must be "
@@ -1003,6 +1006,7 @@ class TagWriter(EncodeStepObject):
     def serialize_int(
         self, value: int, /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
+        value = int(value)  # in range() is slow with subclasses of int
         if value in UINT32_RANGE:
             ctx.stream.write_uint32(value)
         elif value in INT32_RANGE:
diff --git a/src/v8serialize/jstypes/jsprimitiveobject.py b/src/v8serialize/jstypes/jsprimitiveobject.py
index 17ef3d2..4c18bfc 100644
--- a/src/v8serialize/jstypes/jsprimitiveobject.py
+++ b/src/v8serialize/jstypes/jsprimitiveobject.py
@@ -70,7 +70,8 @@ class JSPrimitiveObject(Generic[T], metaclass=ABCMeta):
         elif isinstance(value, float):
             expected_tag = SerializationTag.kNumberObject
         elif isinstance(value, int):
-            if value in FLOAT64_SAFE_INT_RANGE:
+            # in range() is slow with subclasses of int
+            if int(value) in FLOAT64_SAFE_INT_RANGE:
                 expected_tag = SerializationTag.kNumberObject
                 expected_tag2 = SerializationTag.kBigIntObject
             else:
-- 
2.43.0


From 875c25c9e9332bfd3c8fc17ece7379d1c7ea5a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:43 +0000
Subject: [PATCH 41/44] fix: JSObject accepts property names of str subclasses

---
 src/v8serialize/jstypes/jsobject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/jsobject.py b/src/v8serialize/jstypes/jsobject.py
index fef44f8..d2eb3be 100644
--- a/src/v8serialize/jstypes/jsobject.py
+++ b/src/v8serialize/jstypes/jsobject.py
@@ -143,7 +143,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __getitem__(self, key: str | int, /) -> T:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             properties = self._properties
             if k in properties:
                 return properties[k]
@@ -159,7 +159,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __setitem__(self, key: str | int | float, value: T, /) -> None:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             if value is JSHole:
                 self._properties.pop(k, None)
             else:
@@ -192,7 +192,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __delitem__(self, key: str | int, /) -> None:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             if k in self._properties:
                 del self._properties[k]
                 return
-- 
2.43.0


From 4f6cd11339e0dab56c9bc4a4e6a57c0ca7f72d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:12 +0000
Subject: [PATCH 42/44] fix: equal user-defined collections are merged only if
 their contents are interchangeable

---
 src/v8serialize/encode.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 3ab585f..b9c1b72 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -888,10 +888,15 @@ def _is_interchangeable(a: object, b: object) -> bool:
         return False
     if isinstance(a, float):
         return math.copysign(1, a) == math.copysign(1, cast(float, b))
-    if isinstance(a, tuple):
-        return all(map(_is_interchangeable, a, cast("tuple[object, ...]", b)))
-    if isinstance(a, frozenset):
-        b = cast("frozenset[object]", b)
+    if isinstance(a, (str, bytes, memoryview, range)):
+        return True
+    if isinstance(a, abc.Mapping):
+        b = cast("Mapping[object, object]", b)
+        return all(map(_is_interchangeable, a.items(), b.items()))
+    if isinstance(a, abc.Sequence):  # including tuple
+        return all(map(_is_interchangeable, a, cast("Sequence[object]", b)))
+    if isinstance(a, abc.Set):  # including frozenset
+        b = cast("AbstractSet[object]", b)
         return {_Interchangeable(x) for x in a} == {_Interchangeable(x) for x in b}
     if isinstance(a, datetime):
         return a.fold == cast(datetime, b).fold
-- 
2.43.0


From c93135e01ab81fe1bbe0b74c6032db595861cc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:02 +0000
Subject: [PATCH 43/44] fix: JSMap accepts keys named self and init as keyword
 arguments

---
 src/v8serialize/jstypes/jsmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8serialize/jstypes/jsmap.py b/src/v8serialize/jstypes/jsmap.py
index 5f833f3..cc3f61c 100644
--- a/src/v8serialize/jstypes/jsmap.py
+++ b/src/v8serialize/jstypes/jsmap.py
@@ -182,6 +182,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
     def __init__(  # type: ignore[misc]  # mypy doesn't like all the overloads
         self,
         init: SupportsKeysAndGetItem[KT, VT] | Iterable[tuple[KT, VT]] | None = None,
+        /,
         **kwargs: VT,
     ) -> None:
         self.__dict = {}
-- 
2.43.0


From 702b64f442d17aee41fa71ccf459d2409629fffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:48 +0000
Subject: [PATCH 44/44] fix: two JSSets are equal when lists of their elements
 are

---
 src/v8serialize/jstypes/jsset.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index 1072f8f..51c9903 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -155,10 +155,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
             if len(self) != len(other):
                 return False
             # Two JSSets are equal if they contain equal members in the same order
-            return all(
-                x == y
-                for x, y in zip(self.__members.values(), other.__members.values())
-            )
+            return list(self.__members.values()) == list(other.__members.values())
         if isinstance(other, AbstractSet):
             if len(self) != len(other):
                 return False
-- 
2.43.0

