From 24b7c62d708451ad04bc7bda0d991f367cecddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 01/31] fix: keep the rest of the right-hand format when
 joining struct formats

fold_overlaps('I', 'I4s') returned '2I': the epilogue group of _re_start was
non-greedy and unanchored, so everything after the first specifier was lost.
---
 structured/serializers/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index bac49aa..3894b1d 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -56,7 +56,7 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
 
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
-_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)')
+_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*)$')
 
 
 def fold_overlaps(format1: str, format2: str, combine_strings: bool = False) -> str:
-- 
2.43.0


From 462ec9e9f6fa22052c4cd1ebd2e6462aebd1f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 02/31] fix: give every unpack_from the documented default
 offset of 0

StructActionSerializer used Ellipsis as its default (a TypeError when it was
relied on), and the array and tuple serializers had no default.
---
 structured/serializers/arrays.py  | 6 +++---
 structured/serializers/structs.py | 2 +-
 structured/serializers/tuples.py  | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index e840cbc..de2ea0f 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -147,7 +147,7 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size
         return (items,)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
@@ -216,7 +216,7 @@ class StaticStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         return (list(self.serializer.unpack(buffer)),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         return (list(self.serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
@@ -278,7 +278,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size + serializer.size
         return (list(items),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
         serializer = self.item_serializer * count
diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 3894b1d..b13ce4b 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -243,7 +243,7 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         )  # type: ignore
 
     def unpack_from(
-        self, buffer: ReadableBuffer, offset: int = ...
+        self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Unpack[Ts]]:
         return tuple(
             action(value)
diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index ff231bb..702faff 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -58,7 +58,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
         return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
+    def unpack_from(
+        self, buffer: ReadableBuffer, offset: int = 0
+    ) -> tuple[Iterable[Any]]:
         return (
             self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
         )
-- 
2.43.0


From b1dcf1297d4cf978ea28c27cb2946aae2d45a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:59 +0000
Subject: [PATCH 03/31] fix: pack and unpack empty and non-default-byte-order
 length-prefixed strings

An empty char[uint*], char[NET] or unicode equivalent could not be packed, nor
unpacked by unpack_from and unpack_read (the zero length string serializer
handled no values), and packing char[uint*] in a class with a byte order raised
because the string part was always built with the default byte order.
---
 structured/serializers/strings.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9073e1f..28e5d41 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -38,6 +38,9 @@ _single_char = StructSerializer[bytes]('s')
 
 def static_char_serializer(count: int) -> StructSerializer[bytes]:
     """Create a char serializer for statically sized bytes."""
+    if count == 0:
+        # NOTE: `_single_char @ 0` is a NullSerializer, which handles no values
+        return StructSerializer[bytes]('0s')
     return _single_char @ count
 
 
@@ -71,7 +74,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         raw_data = values[0]
         count = len(raw_data)
-        st = self.st + _single_char @ count
+        st = self.st + static_char_serializer(count).with_byte_order(self.st.byte_order)
         self.size = st.size
         return st, count, raw_data
 
@@ -125,7 +128,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack_from(buffer, offset)[0]
         self.size = self.st.size + count
-        st = _single_char @ count
+        st = static_char_serializer(count)
         return st.unpack_from(buffer, offset + self.st.size)
 
     def unpack_read(self, readable: BinaryIO) -> tuple:
@@ -136,7 +139,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack_read(readable)[0]
         self.size = self.st.size + count
-        st = _single_char @ count
+        st = static_char_serializer(count)
         return st.unpack_read(readable)
 
 
@@ -273,7 +276,7 @@ class NETCharSerializer(Serializer[bytes]):
         raw = values[0]
         count = len(raw)
         if count < 128:
-            st = self.short_len + _single_char @ count
+            st = self.short_len + static_char_serializer(count)
         elif count > 0x7FFF:
             raise ValueError('.NET string length too long to encode.')
         else:
-- 
2.43.0


From 4f455a46e9a172d059b32ec743bab9f570a715c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 04/31] fix: make count-prefixed arrays of basic items work
 next to other attributes

The serializer claimed to handle no values, so combined with any other attribute
packing raised IndexError and unpacking misassigned attributes. Packing also let
struct insert alignment bytes between the count and the items, which unpacking
does not skip, so such arrays did not round trip.
---
 structured/serializers/arrays.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index de2ea0f..9debda2 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -235,7 +235,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         self.count_serializer = count_serializer
         self.item_serializer = item_serializer
-        self.num_values = 0
+        self.num_values = 1
         self.size = 0
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
@@ -245,30 +245,27 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         )
 
     def _packer(self, values: tuple[list[T]]) -> tuple[Serializer, list[T]]:
+        # NOTE: The count is packed separately from the items, so that no
+        # alignment bytes are inserted between them: unpacking doesn't expect any
         items = values[0]
-        count = len(items)
-        if count == 0:
-            # Since we'll be modifying its .num_values, we want a copy
-            serializer = StructSerializer(self.count_serializer.format)
-        else:
-            serializer = self.count_serializer + (self.item_serializer * count)
-        serializer.num_values -= 1
-        self.size = serializer.size
+        serializer = self.item_serializer * len(items)
+        self.size = self.count_serializer.size + serializer.size
         return serializer, items
 
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         serializer, items = self._packer(values)
-        return serializer.pack(serializer.num_values, *items)
+        return self.count_serializer.pack(len(items)) + serializer.pack(*items)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[list[T]]]
     ) -> None:
         serializer, items = self._packer(values)
-        serializer.pack_into(buffer, offset, serializer.num_values, *items)
+        self.count_serializer.pack_into(buffer, offset, len(items))
+        serializer.pack_into(buffer, offset + self.count_serializer.size, *items)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
-        serializer, items = self._packer(values)
-        serializer.pack_write(writable, serializer.num_values, *items)
+        # TODO: Why is the typechecker flagging this?
+        writable.write(self.pack(*values))  # type: ignore
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
-- 
2.43.0


From f4b8e6f5375ac266b2c25cb74c86ced31a2afcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 05/31] fix: pack and check the data size of arrays of basic
 items

Header[count, size] dropped the documented data size when the array's items were
basic types: it was neither written nor read nor checked.
---
 structured/hint_types/arrays.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 5021869..32d9ca3 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -104,9 +104,11 @@ class array(Generic[S, T], list[T], requires_indexing):
                 f'{item_serializer.get_final()}. Final serializers cannot be used.'
             )
         # All good, check for specializations for struct.Struct unpackable
+        # NOTE: The specializations don't support a data size in the header
         if (
             isinstance(item_serializer, StructSerializer)
             and item_serializer.num_values == 1
+            and header.data_size is None
         ):
             if isinstance(header.count, int):
                 return Annotated[
-- 
2.43.0


From dffa022781365d0483b68da635c0bc42813c9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 06/31] fix: reject a wrong fixed array length before packing
 into the buffer

ArraySerializer.pack_into packed every item before raising ValueError for a list
of the wrong length, overwriting whatever followed the array in the buffer.
---
 structured/serializers/arrays.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 9debda2..5624373 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -52,16 +52,20 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
             self.static_length,
         )
 
+    def _check_length(self, items: list[T]) -> None:
+        count = len(items)
+        if self.static_length >= 0 and count != self.static_length:
+            raise ValueError(
+                f'Array length {count} does not match static length '
+                f'{self.static_length}'
+            )
+
     def _header_pack_values(self, items: list[T], data_size: int) -> tuple[int, ...]:
         """Which values need to be passed to the header serializer for packing."""
         count = len(items)
         if self.static_length >= 0:
             # Static sized
-            if count != self.static_length:
-                raise ValueError(
-                    f'Array length {count} does not match static length '
-                    f'{self.static_length}'
-                )
+            self._check_length(items)
             if self.header_serializer.num_values == 1:
                 # With a data size
                 return (data_size,)
@@ -121,6 +125,8 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[list[T]]]
     ) -> None:
         items = values[0]
+        # Check before any item is packed, the items may not fit
+        self._check_length(items)
         size = header_size = self.header_serializer.size
         item_serializer = self.item_serializer.prepack(self._partial_object)
         for item in items:
-- 
2.43.0


From 643c4528f95b960d10a741e0614310c32ddfcb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 07/31] fix: unpack tuples of complex types to tuples

A tuple attribute holding anything but basic types was unpacked to an unconsumed
generator: the attribute was not a tuple, and everything after it was read from
the wrong position.
---
 structured/serializers/tuples.py | 46 +++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 702faff..7f1cee7 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -28,42 +28,56 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
 
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
+        self.size = 0
 
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-    @property
-    def size(self) -> int:
-        return self.serializer.size
-
     def prepack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
-        return self.serializer.prepack(self._partial_obj).pack(*values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
-        self.serializer.prepack(self._partial_obj).pack_into(buffer, offset, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
-        self.serializer.prepack(self._partial_obj).pack_write(writable, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
 
     def preunpack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
-    def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
+    # NOTE: The contained serializers may return any iterable, including lazy
+    # ones: those must be consumed here, both to get the final value and for the
+    # size to be correct.
+    def unpack(self, buffer: ReadableBuffer) -> tuple[tuple[Any, ...]]:
+        serializer = self.serializer.preunpack(self._partial_obj)
+        value = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return (value,)
 
     def unpack_from(
         self, buffer: ReadableBuffer, offset: int = 0
-    ) -> tuple[Iterable[Any]]:
-        return (
-            self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
-        )
-
-    def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack_read(readable),)
+    ) -> tuple[tuple[Any, ...]]:
+        serializer = self.serializer.preunpack(self._partial_obj)
+        value = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return (value,)
+
+    def unpack_read(self, readable: BinaryIO) -> tuple[tuple[Any, ...]]:
+        serializer = self.serializer.preunpack(self._partial_obj)
+        value = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return (value,)
-- 
2.43.0


From adc72c2018e04a0b584d27d5eefc209a5f992b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 08/31] fix: apply the class's byte order inside tuples, unions
 and unicode

TupleSerializer, the union serializers and UnicodeSerializer inherited the
do-nothing with_byte_order, so everything in them was packed and unpacked in
native order whatever byte order the class asked for.
---
 structured/serializers/strings.py |  5 +++++
 structured/serializers/tuples.py  |  5 +++++
 structured/serializers/unions.py  | 19 +++++++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 28e5d41..a541430 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -372,6 +372,11 @@ class UnicodeSerializer(Serializer[str]):
         self.encoder = encoder
         self.decoder = decoder
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)(
+            self.serializer.with_byte_order(byte_order), self.encoder, self.decoder
+        )
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 7f1cee7..c108095 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -8,6 +8,7 @@ __all__ = [
 ]
 
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -16,6 +17,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     Ts,
     Unpack,
     WritableBuffer,
@@ -30,6 +32,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self.serializer = sum(serializers, NullSerializer())
         self.size = 0
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)((self.serializer.with_byte_order(byte_order),))
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 21b29cc..05b9a16 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -11,8 +11,10 @@ __all__ = [
     'LookaheadDecider',
 ]
 
+import copy
 import os
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -21,6 +23,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     WritableBuffer,
     annotated,
     get_union_args,
@@ -58,6 +61,16 @@ class AUnion(Serializer):
             if serializer.is_final():
                 return serializer.get_final()
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        union = copy.copy(self)
+        union.result_map = {
+            key: serializer.with_byte_order(byte_order)
+            for key, serializer in self.result_map.items()
+        }
+        if self.default is not None:
+            union.default = self.default.with_byte_order(byte_order)
+        return union
+
     @staticmethod
     def validate_serializer(hint) -> Serializer:
         serializer = annotated.transform(hint)
@@ -190,6 +203,12 @@ class LookaheadDecider(AUnion):
             )
         self.read_ahead_serializer = serializer
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        union = super().with_byte_order(byte_order)
+        serializer = self.read_ahead_serializer.with_byte_order(byte_order)
+        union.read_ahead_serializer = serializer
+        return union
+
     def pack(self, *values: Any) -> bytes:
         result = self.decider(self._partial_object)
         serializer = self.get_serializer(result, True)
-- 
2.43.0


From 4523b2e1ae9c018b65f99b703e0366f7247eb225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 09/31] fix: consider a union's default when detecting final
 serializers

A union whose default consumes the rest of the input was accepted in front of
other attributes, which could then never be unpacked.
---
 structured/serializers/unions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 05b9a16..c34cef6 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -60,6 +60,8 @@ class AUnion(Serializer):
         for serializer in self.result_map.values():
             if serializer.is_final():
                 return serializer.get_final()
+        if self.default is not None:
+            return self.default.get_final()
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
         union = copy.copy(self)
-- 
2.43.0


From 81376395fefe3856d406343982d8ccd36f205909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 10/31] fix: forward prepack and preunpack through Condition

A Condition on an array, tuple or union raised AttributeError, because the
wrapped serializer never received the partial object.  Conditional serializers
also had no size.
---
 structured/serializers/conditional.py | 46 +++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index fc6299f..312840b 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -16,6 +16,7 @@ from ..type_checking import (
     BinaryIO,
     Callable,
     Generic,
+    Iterable,
     Optional,
     ReadableBuffer,
     Self,
@@ -48,6 +49,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
             False: SkipSerializer(default),
         }
         self.num_values = serializer.num_values
+        self.size = 0
         if serializer.num_values != len(default):
             expected = len(default)
             raise ValueError(
@@ -64,10 +66,50 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return type(self)(serializer, self.condition, defaults)
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.serializers[self.condition(partial_object)]
+        serializer = self.serializers[bool(self.condition(partial_object))]
+        self._serializer = serializer.prepack(partial_object)
+        return self
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.prepack(partial_object)
+        serializer = self.serializers[bool(self.condition(partial_object))]
+        self._serializer = serializer.preunpack(partial_object)
+        return self
+
+    def pack(self, *values: Unpack[Ts]) -> bytes:
+        serializer = self._serializer
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
+
+    def pack_into(
+        self, buffer: WritableBuffer, offset: int, *values: Unpack[Ts]
+    ) -> None:
+        serializer = self._serializer
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
+
+    def pack_write(self, writable: BinaryIO, *values: Unpack[Ts]) -> None:
+        serializer = self._serializer
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
+
+    def unpack(self, buffer: ReadableBuffer) -> Iterable:
+        serializer = self._serializer
+        values = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return values
+
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
+        serializer = self._serializer
+        values = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return values
+
+    def unpack_read(self, readable: BinaryIO) -> Iterable:
+        serializer = self._serializer
+        values = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return values
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
-- 
2.43.0


From e9bbe673b4629d24d70abfc335e584c647235fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 11/31] fix: don't double the terminator of a terminated string

Indexing bytes gives an int, which never equals the terminator.
---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index a541430..5f22a0b 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -199,7 +199,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
     def _st_data(self, values: tuple[bytes]) -> tuple[StructSerializer, bytes]:
         """Common packing logic."""
         raw_data = values[0]
-        if not raw_data or raw_data[-1] != self.terminator:
+        if not raw_data or raw_data[-1:] != self.terminator:
             # Insert terminator if needed
             raw_data += self.terminator
         count = len(raw_data)
-- 
2.43.0


From 80bfb1c7392c77dbcdcc48fb0e91ed2b8548fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 12/31] fix: leave the stream after the terminator when reads
 come up short

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 5f22a0b..c8658f4 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -242,7 +242,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 offset = chunk.find(self.terminator)
                 if offset == -1:
                     out.write(chunk)
-                    size += READ_SIZE
+                    size += len(chunk)
                 else:
                     out.write(chunk[:offset])
                     size += offset + 1
-- 
2.43.0


From 8c20afc86a1481d8c51f13186e19eab74233f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 13/31] fix: reject truncated length-prefixed strings

Slicing and reading past the end silently gave a shorter string.
---
 structured/serializers/strings.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index c8658f4..58b08ea 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -36,6 +36,13 @@ from .structs import StructSerializer
 _single_char = StructSerializer[bytes]('s')
 
 
+def _check_length(data: bytes, count: int) -> bytes:
+    """Slicing and reading may come up short without an error."""
+    if len(data) != count:
+        raise ValueError(f'string requires {count} bytes, got {len(data)}.')
+    return data
+
+
 def static_char_serializer(count: int) -> StructSerializer[bytes]:
     """Create a char serializer for statically sized bytes."""
     if count == 0:
@@ -115,7 +122,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack(buffer)[0]
         self.size = self.st.size + count
-        return (bytes(buffer[self.st.size : self.size]),)
+        return (_check_length(bytes(buffer[self.st.size : self.size]), count),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         """Unpack a dynamically sized bytestring from a buffer supporting the
@@ -318,7 +325,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (cast(bytes, buffer[size : size + count]),)
+        return (_check_length(cast(bytes, buffer[size : size + count]), count),)
 
     def unpack_from(
         self,
@@ -346,7 +353,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (readable.read(count),)
+        return (_check_length(readable.read(count), count),)
 
 
 Encoder = Callable[[str], bytes]
-- 
2.43.0


From 23804ff4a5dac45d550087efb574ae077b55ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 14/31] fix: copy unpacked strings out of the source buffer

char[math.inf] and char[NET] gave slices of the caller's buffer, which change
with it and keep it from being resized or released.
---
 structured/serializers/strings.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 58b08ea..0a0ba7b 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -28,7 +28,6 @@ from ..type_checking import (
     Union,
     Unpack,
     WritableBuffer,
-    cast,
 )
 from .api import Serializer
 from .structs import StructSerializer
@@ -179,11 +178,11 @@ class ConsumingCharSerializer(Serializer[bytes]):
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         self.size = len(buffer)
-        return (buffer,)
+        return (bytes(buffer),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         self.size = len(buffer) - offset
-        return (buffer[offset:],)
+        return (bytes(buffer[offset:]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
         data = readable.read()
@@ -325,7 +324,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (_check_length(cast(bytes, buffer[size : size + count]), count),)
+        return (_check_length(bytes(buffer[size : size + count]), count),)
 
     def unpack_from(
         self,
-- 
2.43.0


From 608b10f6d845cc808d86ac93a40acea8a96448c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 15/31] fix: don't resize the buffer when packing
 char[math.inf] into it

---
 structured/serializers/strings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 0a0ba7b..dfe431c 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -169,7 +169,8 @@ class ConsumingCharSerializer(Serializer[bytes]):
     ) -> None:
         data = values[0]
         self.size = len(data)
-        buffer[offset : offset + self.size] = data
+        # NOTE: Assigning to a slice could resize the buffer
+        struct.pack_into(f'{self.size}s', buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
-- 
2.43.0


From 7a614aa5fa6c2a863bfe4fad0f11e89978c71cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 16/31] fix: keep the byte order of generic classes specialized
 by a type-hint

Also don't create a second specialization when two threads race to do so.
---
 structured/serializers/structured.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 0f0f520..3b6cbeb 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -96,12 +96,13 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 except KeyError:
                     pass
 
-                class _Specialized(base_type):
+                class _Specialized(base_type, byte_order=origin.byte_order):
                     pass
 
-                serializer = StructuredSerializer(_Specialized)
-                cls._specializations[key] = StructuredSerializer(_Specialized)
-                return serializer
+                # NOTE: Another thread might have gotten here first
+                return cls._specializations.setdefault(
+                    key, StructuredSerializer(_Specialized)
+                )
             else:
                 # Not fully specialized, return a StructuredAlias so it
                 # can potentially be fully speciailized by a further
-- 
2.43.0


From 4fc4d3b960aa80b58e9f5b04252cc46ee0e0650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 17/31] fix: keep the state of pack and unpack operations per
 thread

Serializers are shared between classes and objects, so operations on unrelated
objects in different threads overwrote each other's size and partial object,
which corrupted both the packed data and the unpacked values.
---
 structured/serializers/api.py         | 42 +++++++++++++++++++++++++--
 structured/serializers/arrays.py      |  4 ++-
 structured/serializers/conditional.py |  4 ++-
 structured/serializers/strings.py     |  1 -
 structured/serializers/tuples.py      |  3 +-
 structured/serializers/unions.py      |  3 +-
 6 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/structured/serializers/api.py b/structured/serializers/api.py
index da865af..ed64a08 100644
--- a/structured/serializers/api.py
+++ b/structured/serializers/api.py
@@ -29,8 +29,10 @@ __all__ = [
     'Serializer',
     'NullSerializer',
     'CompoundSerializer',
+    'PerThread',
 ]
 
+import threading
 from io import BytesIO
 
 from ..base_types import ByteOrder
@@ -51,20 +53,56 @@ from ..type_checking import (
 )
 
 
+class PerThread:
+    """Data descriptor for the state of a pack or unpack operation.  Serializers
+    are shared between classes and objects, so operations may be in progress on
+    multiple threads: each thread gets a value of its own.
+    """
+
+    def __init__(self, default: Any = None) -> None:
+        self.default = default
+
+    def __set_name__(self, owner: type, name: str) -> None:
+        self.name = name
+
+    def __get__(self, instance: Any, owner: Any = None) -> Any:
+        if instance is None:
+            return self
+        try:
+            return instance.__dict__[self.name].value
+        except (KeyError, AttributeError):
+            return self.default
+
+    def __set__(self, instance: Any, value: Any) -> None:
+        try:
+            local = instance.__dict__[self.name]
+        except KeyError:
+            local = instance.__dict__.setdefault(self.name, threading.local())
+        local.value = value
+
+
 class Serializer(Generic[Unpack[Ts]]):
-    size: int
+    size: int = PerThread(0)  # type: ignore
     """A possibly dynamic attribute indicating the size in bytes for this
     Serializer to pack or unpack.  Due to serializers dealing with possibly
     dynamic data, this is only guaranteed to be up to date with the most
     recently called `pack*` or `unpack*` method.  Also note, serializers are
     shared between classes, so you really must access `size` *immediately* after
-    one of these calls to ensure it's accurate.
+    one of these calls, on the same thread, to ensure it's accurate.
     """
     num_values: int
     """Indicates the number of variables returned from an unpack operation, and
     the number of varialbes required for a pack operation.
     """
 
+    def __getstate__(self) -> dict[str, Any]:
+        """Copies don't share the state of operations with the original."""
+        return {
+            name: value
+            for name, value in self.__dict__.items()
+            if not isinstance(value, threading.local)
+        }
+
     def prepack(self, partial_object: Any) -> Serializer:
         """Perform any state logic needed just prior to a pack operation on
         `partial_object`. The object will be a fully initialized instance
diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 5624373..97ce3b7 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -22,7 +22,7 @@ from ..type_checking import (
     Unpack,
     WritableBuffer,
 )
-from .api import NullSerializer, Serializer
+from .api import NullSerializer, PerThread, Serializer
 from .structs import StructSerializer
 
 HeaderSerializer = Union[
@@ -33,6 +33,8 @@ HeaderSerializer = Union[
 class ArraySerializer(Generic[T], Serializer[list[T]]):
     """Generic array serializer."""
 
+    _partial_object = PerThread()
+
     def __init__(
         self,
         header_serializer: HeaderSerializer,
diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index 312840b..661e310 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -25,7 +25,7 @@ from ..type_checking import (
     Unpack,
     WritableBuffer,
 )
-from .api import ByteOrder, Serializer
+from .api import ByteOrder, PerThread, Serializer
 
 if TYPE_CHECKING:
     # *Only* used for type-hinting, so ok to guard with a TYPE_CHECKING
@@ -37,6 +37,8 @@ else:
 
 
 class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
+    _serializer = PerThread()
+
     def __init__(
         self,
         serializer: Serializer[Unpack[Ts]],
diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index dfe431c..e0b0aec 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -195,7 +195,6 @@ class TerminatedCharSerializer(Serializer[bytes]):
     """Serializer for handling terminated strings (typically null-terminated)."""
 
     num_values: ClassVar[int] = 1
-    size: int
 
     def __init__(self, terminator: bytes) -> None:
         self.size = 0
diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index c108095..85eb971 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -22,11 +22,12 @@ from ..type_checking import (
     Unpack,
     WritableBuffer,
 )
-from .api import NullSerializer, Serializer
+from .api import NullSerializer, PerThread, Serializer
 
 
 class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     num_values: ClassVar[int] = 1
+    _partial_obj = PerThread()
 
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index c34cef6..1d2a81f 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -29,7 +29,7 @@ from ..type_checking import (
     get_union_args,
     isunion,
 )
-from .api import Serializer
+from .api import PerThread, Serializer
 
 
 class AUnion(Serializer):
@@ -41,6 +41,7 @@ class AUnion(Serializer):
     result_map: dict[Any, Serializer]
     default: Optional[Serializer]
     _last_serializer: Optional[Serializer]
+    _partial_object = PerThread()
 
     def __init__(self, result_map: dict[Any, Any], default: Any = None) -> None:
         """result_map should be a mapping of possible return values from `decider`
-- 
2.43.0


From e07dc831c3036bef379d153236b8998dc9581a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 18/31] fix: allow nested use of the same serializers

Deciders, conditions, codecs, initializers and streams may pack or unpack other
objects of the same class, as may the items of arrays of (unions of) Self.  Read
any state before these run, and set it afterwards.
---
 structured/serializers/arrays.py  | 29 ++++++++++++++++-------
 structured/serializers/strings.py | 28 +++++++++++++++--------
 structured/serializers/unions.py  | 38 ++++++++++++++++++++++---------
 structured/structured.py          | 16 ++++++++++---
 4 files changed, 80 insertions(+), 31 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 97ce3b7..4a9f396 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -31,7 +31,11 @@ HeaderSerializer = Union[
 
 
 class ArraySerializer(Generic[T], Serializer[list[T]]):
-    """Generic array serializer."""
+    """Generic array serializer.
+
+    NOTE: Packing or unpacking an item may use this very serializer for another
+    object, so any state is read before doing so, and set afterwards.
+    """
 
     _partial_object = PerThread()
 
@@ -114,8 +118,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         data = [b'']
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in values[0]:
+            item_serializer = self.item_serializer.prepack(partial_object)
             data.append(item_serializer.pack(item))
             size += item_serializer.size
         header_values = self._header_pack_values(values[0], size - header_size)
@@ -130,8 +135,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         # Check before any item is packed, the items may not fit
         self._check_length(items)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in items:
+            item_serializer = self.item_serializer.prepack(partial_object)
             item_serializer.pack_into(buffer, offset + size, item)
             size += item_serializer.size
         header_values = self._header_pack_values(items, size - header_size)
@@ -140,15 +146,18 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
         # TODO: Why is the typechecker flagging this?
-        writable.write(self.pack(*values))  # type: ignore
+        data = self.pack(*values)  # type: ignore
+        writable.write(data)
+        self.size = len(data)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
+        partial_object = self._partial_object
         header = self.header_serializer.unpack(buffer)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack(buffer[size:]))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -156,12 +165,13 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         return (items,)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
+        partial_object = self._partial_object
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_from(buffer, offset + size))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -169,12 +179,13 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         return (items,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
+        partial_object = self._partial_object
         header = self.header_serializer.unpack_read(readable)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_read(readable))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -273,7 +284,9 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
         # TODO: Why is the typechecker flagging this?
-        writable.write(self.pack(*values))  # type: ignore
+        data = self.pack(*values)  # type: ignore
+        writable.write(data)
+        self.size = len(data)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index e0b0aec..f5fdf3e 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -112,6 +112,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         st, count, raw = self._st_count_data(values)
         st.pack_write(writable, count, raw)
+        self.size = st.size
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         """Unpack a dynamically sized bytestring from a bytes-like object.
@@ -144,9 +145,9 @@ class DynamicCharSerializer(Serializer[bytes]):
         :return: The unpacked bytestring.
         """
         count = self.st.unpack_read(readable)[0]
+        data = _check_length(readable.read(count), count)
         self.size = self.st.size + count
-        st = static_char_serializer(count)
-        return st.unpack_read(readable)
+        return (data,)
 
 
 class ConsumingCharSerializer(Serializer[bytes]):
@@ -174,8 +175,8 @@ class ConsumingCharSerializer(Serializer[bytes]):
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
-        self.size = len(data)
         writable.write(data)
+        self.size = len(data)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         self.size = len(buffer)
@@ -225,6 +226,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         st, data = self._st_data(values)
         st.pack_write(writable, data)
+        self.size = st.size
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         return self.unpack_from(buffer)
@@ -307,6 +309,7 @@ class NETCharSerializer(Serializer[bytes]):
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         st, count_mark, raw = self._st_count_data(values)
         writable.write(st.pack(count_mark, raw))
+        self.size = st.size
 
     @staticmethod
     def _decode_length(count: int) -> int:
@@ -351,8 +354,9 @@ class NETCharSerializer(Serializer[bytes]):
             size = self.long_len.size
         else:
             size = self.short_len.size
+        data = _check_length(readable.read(count), count)
         self.size = size + count
-        return (_check_length(readable.read(count), count),)
+        return (data,)
 
 
 Encoder = Callable[[str], bytes]
@@ -390,6 +394,14 @@ class UnicodeSerializer(Serializer[str]):
     def size(self) -> int:
         return self.serializer.size
 
+    def _decode(self, data: bytes) -> str:
+        size = self.serializer.size
+        value = self.decoder(data).rstrip('\0')
+        if self.serializer.size != size:
+            # The decoder used this serializer for another object
+            self.serializer.size = size
+        return value
+
     def pack(self, *values: Unpack[tuple[str]]) -> bytes:
         return self.serializer.pack(self.encoder(values[0]))
 
@@ -402,12 +414,10 @@ class UnicodeSerializer(Serializer[str]):
         self.serializer.pack_write(writable, self.encoder(values[0]))
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[str]:
-        return (self.decoder(self.serializer.unpack(buffer)[0]).rstrip('\0'),)
+        return (self._decode(self.serializer.unpack(buffer)[0]),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[str]:
-        return (
-            self.decoder(self.serializer.unpack_from(buffer, offset)[0]).rstrip('\0'),
-        )
+        return (self._decode(self.serializer.unpack_from(buffer, offset)[0]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[str]:
-        return (self.decoder(self.serializer.unpack_read(readable)[0]).rstrip('\0'),)
+        return (self._decode(self.serializer.unpack_read(readable)[0]),)
diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 1d2a81f..b32286b 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -144,7 +144,10 @@ class LookbackDecider(AUnion):
         self.decider = decider
 
     def decide(self, packing: bool) -> Serializer:
-        result = self.decider(self._partial_object)
+        partial_object = self._partial_object
+        result = self.decider(partial_object)
+        # The decider might have used this serializer for another object
+        self._partial_object = partial_object
         return self.get_serializer(result, packing)
 
     def pack(self, *values: Any) -> bytes:
@@ -212,42 +215,55 @@ class LookaheadDecider(AUnion):
         union.read_ahead_serializer = serializer
         return union
 
+    def decide(self) -> Serializer:
+        partial_object = self._partial_object
+        result = self.decider(partial_object)
+        # The decider might have used this serializer for another object
+        self._partial_object = partial_object
+        return self.get_serializer(result, True)
+
     def pack(self, *values: Any) -> bytes:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self.decide()
         data = serializer.pack(*values)
         self.size = serializer.size
         return data
 
     def pack_into(self, buffer: WritableBuffer, offset: int, *values: Any) -> None:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self.decide()
         serializer.pack_into(buffer, offset, *values)
         self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, *values: Any) -> None:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        serializer = self.decide()
         serializer.pack_write(writable, *values)
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack(buffer))[0]
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
+        result = tuple(read_ahead.unpack(buffer))[0]
+        self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
         values = serializer.unpack(buffer)
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_from(buffer, offset))[0]
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
+        result = tuple(read_ahead.unpack_from(buffer, offset))[0]
+        self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_from(buffer, offset)
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_read(readable))[0]
-        readable.seek(-self.read_ahead_serializer.size, os.SEEK_CUR)
+        partial_object = self._partial_object
+        read_ahead = self.read_ahead_serializer.preunpack(partial_object)
+        result = tuple(read_ahead.unpack_read(readable))[0]
+        readable.seek(-read_ahead.size, os.SEEK_CUR)
+        self._partial_object = partial_object
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_read(readable)
         self.size = serializer.size
diff --git a/structured/structured.py b/structured/structured.py
index bd9038f..30945d9 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -289,6 +289,16 @@ class Structured(metaclass=StructuredMeta):
         proxy = _Proxy(cls)
         return proxy, cls.serializer.preunpack(proxy)
 
+    @classmethod
+    def _create_from_proxy(cls, proxy: _Proxy) -> Self:
+        """Create a new instance from the values of a fully unpacked proxy."""
+        size = cls.serializer.size
+        obj = cls(*proxy)
+        if cls.serializer.size != size:
+            # Initializing the object packed or unpacked others of this class
+            cls.serializer.size = size
+        return obj
+
     @classmethod
     def create_unpack(cls, buffer: ReadableBuffer) -> Self:
         """Create a new instance, initialized with values unpacked from a
@@ -299,7 +309,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack(buffer))
-        return cls(*proxy)
+        return cls._create_from_proxy(proxy)
 
     @classmethod
     def create_unpack_from(cls, buffer: ReadableBuffer, offset: int = 0) -> Self:
@@ -312,7 +322,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_from(buffer, offset))
-        return cls(*proxy)
+        return cls._create_from_proxy(proxy)
 
     @classmethod
     def create_unpack_read(cls, readable: BinaryIO) -> Self:
@@ -324,7 +334,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_read(readable))
-        return cls(*proxy)
+        return cls._create_from_proxy(proxy)
 
     def __str__(self) -> str:
         """Descriptive representation of this class."""
-- 
2.43.0


From 2487d602d14ae9fc91cc3971f423929c861db52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 19/31] fix: don't do work for more items than there are bytes

A damaged count took time proportional to the count, not to the data.
---
 structured/serializers/arrays.py  | 22 ++++++++++++++++++----
 structured/serializers/strings.py |  3 +--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 4a9f396..d805127 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -271,6 +271,16 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = self.count_serializer.size + serializer.size
         return serializer, items
 
+    def _unpacker(self, count: int, available: int) -> Serializer:
+        # NOTE: Check before creating the serializer, the work to do that depends
+        # on the count
+        required = count * self.item_serializer.size
+        if available < required:
+            raise ValueError(
+                f'Array of {count} items requires {required} bytes, got {available}'
+            )
+        return self.item_serializer * count
+
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         serializer, items = self._packer(values)
         return self.count_serializer.pack(len(items)) + serializer.pack(*items)
@@ -291,7 +301,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
+        serializer = self._unpacker(count, len(buffer) - size)
         items = serializer.unpack(buffer[size:])
         self.size = size + serializer.size
         return (list(items),)
@@ -299,7 +309,8 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
+        available = memoryview(buffer).nbytes - offset - size
+        serializer = self._unpacker(count, available)
         items = serializer.unpack_from(buffer, offset + size)
         self.size = size + serializer.size
         return (list(items),)
@@ -307,7 +318,10 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_read(readable)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
-        items = serializer.unpack_read(readable)
+        data = readable.read(count * self.item_serializer.size)
+        serializer = self._unpacker(count, len(data))
+        if padding := serializer.size - len(data):
+            data += readable.read(padding)
+        items = serializer.unpack(data)
         self.size = size + serializer.size
         return (list(items),)
diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index f5fdf3e..9c9815c 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -135,8 +135,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack_from(buffer, offset)[0]
         self.size = self.st.size + count
-        st = static_char_serializer(count)
-        return st.unpack_from(buffer, offset + self.st.size)
+        return struct.unpack_from(f'{count}s', buffer, offset + self.st.size)
 
     def unpack_read(self, readable: BinaryIO) -> tuple:
         """Unpack a dynamically sized bytestring from a file-like object.
-- 
2.43.0


From d0615971c750ee7f833285522a45eb6b745eceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 20/31] fix: don't include the offset in the size of a
 terminated string

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9c9815c..e145232 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -237,7 +237,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 end += 1
         except IndexError:
             raise ValueError('unterminated string.') from None
-        self.size = end + 1
+        self.size = end + 1 - offset
         return (bytes(buffer[offset:end]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
-- 
2.43.0


From 31e53cdff0f5e05b35c010672c12969fe374aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 21/31] fix: let classes redefine members of the generic they
 specialize

---
 structured/structured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index 30945d9..cab49b2 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -394,7 +394,8 @@ class Structured(metaclass=StructuredMeta):
             orig_base = base_to_origbase.get(base, None)
             if orig_base:
                 annotations = base._get_specialization_hints(*get_args(orig_base))
-                update_annotations(cls, annotations)
+                # NOTE: Members redefined by this class take precedence
+                update_annotations(cls, annotations | get_annotations(cls))
         # Analyze the class
         typehints = get_type_hints(cls, include_extras=True)
         applicable_typehints = filter_typehints(typehints, cls)
-- 
2.43.0


From 15f6d75bdf46330ccb738bc0170d3943d5667bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 22/31] fix: resolve partly specialized generics within
 generics

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 3b6cbeb..75ec877 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -107,7 +107,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 # Not fully specialized, return a StructuredAlias so it
                 # can potentially be fully speciailized by a further
                 # subclassing of the containing class.
-                return StructuredAlias(base_type, spec_args)
+                return StructuredAlias(origin, spec_args)
 
 
 annotated.register_transform(StructuredSerializer._transform)
-- 
2.43.0


From 978c56817117534d69d6c1e4ce935d803275ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 23/31] fix: unpack classes containing themselves onto existing
 objects

---
 structured/serializers/self.py | 4 +++-
 structured/structured.py       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/self.py b/structured/serializers/self.py
index b611367..75563ae 100644
--- a/structured/serializers/self.py
+++ b/structured/serializers/self.py
@@ -25,7 +25,9 @@ class SelfSerializer(Serializer[Structured]):
         return StructuredSerializer(type(partial_object))
 
     def preunpack(self, partial_object: _Proxy) -> Serializer:
-        return StructuredSerializer(partial_object.cls)
+        # NOTE: Unpacking an existing object doesn't use a proxy
+        proxied = getattr(partial_object, '__cls__', type(partial_object))
+        return StructuredSerializer(proxied)
 
     @classmethod
     def _transform(cls, base_type: Any, hint: Any) -> Any:
diff --git a/structured/structured.py b/structured/structured.py
index cab49b2..1925fe8 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -485,7 +485,7 @@ class _Proxy:
     # is a proxy for won't be shadowed.
     def __init__(self, cls: type[Structured]) -> None:
         self.__attrs = cls.attrs
-        self.cls = cls
+        self.__cls__ = cls
 
     def __call__(self, values: Iterable[Any]) -> None:
         for attr, value in zips(self.__attrs, values, strict=True):
-- 
2.43.0


From 82437646f43306382614d746a117c9fb0283772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 24/31] fix: unpack from buffers of other items than bytes

---
 structured/structured.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 1925fe8..0646b56 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -53,6 +53,18 @@ def ispad(annotation: Any) -> bool:
     )
 
 
+def byte_buffer(buffer: ReadableBuffer) -> ReadableBuffer:
+    """Items of the buffer may be something else than (unsigned) bytes, which
+    indexing, slicing and taking the length of it would go by.
+    """
+    if isinstance(buffer, (bytes, bytearray)):
+        return buffer
+    view = memoryview(buffer)
+    if view.format == 'B' or not view.c_contiguous:
+        return buffer
+    return view.cast('B')
+
+
 def final_transform(base_type: Any, hint: Any) -> Optional[Serializer]:
     if isinstance(hint, Serializer):
         return hint
@@ -230,6 +242,7 @@ class Structured(metaclass=StructuredMeta):
 
         :param buffer: A bytes-like object.
         """
+        buffer = byte_buffer(buffer)
         for attr, value in zips(
             self.attrs, self._serializer(False).unpack(buffer), strict=True
         ):
@@ -254,6 +267,7 @@ class Structured(metaclass=StructuredMeta):
         :param buffer: buffer to unpack from.
         :param offset: position in the buffer to start from.
         """
+        buffer = byte_buffer(buffer)
         for attr, value in zips(
             self.attrs, self._serializer(False).unpack_from(buffer, offset), strict=True
         ):
@@ -308,7 +322,7 @@ class Structured(metaclass=StructuredMeta):
         :return: A new Structured object unpacked from the buffer.
         """
         proxy, serializer = cls._create_proxy()
-        proxy(serializer.unpack(buffer))
+        proxy(serializer.unpack(byte_buffer(buffer)))
         return cls._create_from_proxy(proxy)
 
     @classmethod
@@ -321,7 +335,7 @@ class Structured(metaclass=StructuredMeta):
         :return: A new Structured object unpacked from the buffer.
         """
         proxy, serializer = cls._create_proxy()
-        proxy(serializer.unpack_from(buffer, offset))
+        proxy(serializer.unpack_from(byte_buffer(buffer), offset))
         return cls._create_from_proxy(proxy)
 
     @classmethod
-- 
2.43.0


From bfb61dc2197752dd3dfc1ee962b6e329530104d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 25/31] fix: allow copying a serializer another thread is using

---
 structured/serializers/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/api.py b/structured/serializers/api.py
index ed64a08..f5d5541 100644
--- a/structured/serializers/api.py
+++ b/structured/serializers/api.py
@@ -99,7 +99,7 @@ class Serializer(Generic[Unpack[Ts]]):
         """Copies don't share the state of operations with the original."""
         return {
             name: value
-            for name, value in self.__dict__.items()
+            for name, value in tuple(self.__dict__.items())
             if not isinstance(value, threading.local)
         }
 
-- 
2.43.0


From 141997de1363493d943f679c2b6cda37a7848b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 26/31] fix: restore the size of unicode after nested
 operations

---
 structured/serializers/strings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index e145232..6671145 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -393,6 +393,10 @@ class UnicodeSerializer(Serializer[str]):
     def size(self) -> int:
         return self.serializer.size
 
+    @size.setter
+    def size(self, value: int) -> None:
+        self.serializer.size = value
+
     def _decode(self, data: bytes) -> str:
         size = self.serializer.size
         value = self.decoder(data).rstrip('\0')
-- 
2.43.0


From 8016932277b9fabeef263680cfd1081b1de05a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:55 +0000
Subject: [PATCH 27/31] fix: don't ask a stream for more at once than it may
 have

A damaged length made buffered files allocate all of it, or fail to.
---
 structured/serializers/api.py     | 22 ++++++++++++++++++++++
 structured/serializers/arrays.py  |  4 ++--
 structured/serializers/strings.py |  6 +++---
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/api.py b/structured/serializers/api.py
index f5d5541..ba08011 100644
--- a/structured/serializers/api.py
+++ b/structured/serializers/api.py
@@ -53,6 +53,28 @@ from ..type_checking import (
 )
 
 
+# The most bytes a stream is asked for at once
+READ_LIMIT = 1 << 20
+
+
+def read_bytes(readable: BinaryIO, size: int) -> bytes:
+    """Read `size` bytes from a stream, or as many as there are.
+
+    NOTE: A stream may allocate all that it is asked for, and `size` might be
+    damaged data.
+    """
+    if size <= READ_LIMIT:
+        return readable.read(size)
+    parts = []
+    while size:
+        part = readable.read(min(size, READ_LIMIT))
+        parts.append(part)
+        if len(part) < READ_LIMIT:
+            break
+        size -= len(part)
+    return b''.join(parts)
+
+
 class PerThread:
     """Data descriptor for the state of a pack or unpack operation.  Serializers
     are shared between classes and objects, so operations may be in progress on
diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index d805127..5a9ac3e 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -22,7 +22,7 @@ from ..type_checking import (
     Unpack,
     WritableBuffer,
 )
-from .api import NullSerializer, PerThread, Serializer
+from .api import NullSerializer, PerThread, Serializer, read_bytes
 from .structs import StructSerializer
 
 HeaderSerializer = Union[
@@ -318,7 +318,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_read(readable)
         size = self.count_serializer.size
-        data = readable.read(count * self.item_serializer.size)
+        data = read_bytes(readable, count * self.item_serializer.size)
         serializer = self._unpacker(count, len(data))
         if padding := serializer.size - len(data):
             data += readable.read(padding)
diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 6671145..4bd6d0a 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -29,7 +29,7 @@ from ..type_checking import (
     Unpack,
     WritableBuffer,
 )
-from .api import Serializer
+from .api import Serializer, read_bytes
 from .structs import StructSerializer
 
 _single_char = StructSerializer[bytes]('s')
@@ -144,7 +144,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         :return: The unpacked bytestring.
         """
         count = self.st.unpack_read(readable)[0]
-        data = _check_length(readable.read(count), count)
+        data = _check_length(read_bytes(readable, count), count)
         self.size = self.st.size + count
         return (data,)
 
@@ -353,7 +353,7 @@ class NETCharSerializer(Serializer[bytes]):
             size = self.long_len.size
         else:
             size = self.short_len.size
-        data = _check_length(readable.read(count), count)
+        data = _check_length(read_bytes(readable, count), count)
         self.size = size + count
         return (data,)
 
-- 
2.43.0


From e4249b192c02b527fa47ecefee7aac090720e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 28/31] fix: don't add the terminator to the packed object's
 own bytearray

A terminated string given as a bytearray was extended in place by packing it.
---
 structured/serializers/strings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 4bd6d0a..e5cf197 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -207,7 +207,8 @@ class TerminatedCharSerializer(Serializer[bytes]):
         raw_data = values[0]
         if not raw_data or raw_data[-1:] != self.terminator:
             # Insert terminator if needed
-            raw_data += self.terminator
+            # NOTE: Not in place, a bytearray is still the object's
+            raw_data = raw_data + self.terminator
         count = len(raw_data)
         self.size = count
         return _single_char @ count, raw_data
-- 
2.43.0


From 6f14e1842d4e6bf3a9ddcb2a2e3ce186ea39b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:54 +0000
Subject: [PATCH 29/31] fix: pack char[math.inf] to bytes

A bytearray was returned as it is: the packed data and the object's value were
then one and the same.
---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index e5cf197..0b55f3a 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -162,7 +162,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
 
     def pack(self, *values: Unpack[tuple[bytes]]) -> bytes:
         self.size = len(values[0])
-        return values[0]
+        return bytes(values[0])
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[bytes]]
-- 
2.43.0


From 52f5d698e05f38113a01c8b9660bda5011973775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 30/31] fix: unpack from an offset instead of copying the rest
 of the buffer for each item

Arrays and chained serializers sliced the buffer for every item or member,
copying all of what follows: quadratic work in the size of the data.
---
 structured/serializers/api.py    |  4 ++--
 structured/serializers/arrays.py | 21 +++------------------
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/structured/serializers/api.py b/structured/serializers/api.py
index ba08011..477cc01 100644
--- a/structured/serializers/api.py
+++ b/structured/serializers/api.py
@@ -370,8 +370,8 @@ class CompoundSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self.size = size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        for serializer, size in self._iter_unpackers():
-            yield from serializer.unpack(buffer[size:])
+        # NOTE: Slicing the buffer for each serializer would copy all that follows
+        return self.unpack_from(buffer)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
         for serializer, size in self._iter_unpackers():
diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 5a9ac3e..13b8543 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -151,18 +151,8 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = len(data)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
-        partial_object = self._partial_object
-        header = self.header_serializer.unpack(buffer)
-        count, data_size = self._header_unpack_values(*header)
-        size = header_size = self.header_serializer.size
-        items = []
-        for _ in range(count):
-            item_serializer = self.item_serializer.preunpack(partial_object)
-            items.extend(item_serializer.unpack(buffer[size:]))
-            size += item_serializer.size
-        self._check_data_size(data_size, size - header_size)
-        self.size = size
-        return (items,)
+        # NOTE: Slicing the buffer for each item would copy all that follows it
+        return self.unpack_from(buffer)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         partial_object = self._partial_object
@@ -299,12 +289,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = len(data)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
-        (count,) = self.count_serializer.unpack(buffer)
-        size = self.count_serializer.size
-        serializer = self._unpacker(count, len(buffer) - size)
-        items = serializer.unpack(buffer[size:])
-        self.size = size + serializer.size
-        return (list(items),)
+        return self.unpack_from(buffer)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
-- 
2.43.0


From 5d44e9a5ea8c35f160f22ae19663d70ce51fa2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 31/31] fix: fold formats by doubling when multiplying a struct

Folding one copy at a time scans the whole format each time: unpacking an
array of strings took time quadratic in its length.
---
 structured/serializers/structs.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index b13ce4b..b09911e 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -13,7 +13,7 @@ __all__ = [
 
 import re
 import struct
-from functools import cached_property, partial, reduce
+from functools import cached_property, partial
 from itertools import chain, repeat
 from typing import overload
 
@@ -194,10 +194,16 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
         elif other == 1:
             return self
         byte_order, fmt = self._split_format
-        fmt = reduce(
-            partial(fold_overlaps, combine_strings=combine_strings), repeat(fmt, other)
-        )
-        return type(self)(fmt, byte_order)
+        # NOTE: Folding scans all of the format, so fold by doubling it instead
+        # of one copy at a time
+        fold = partial(fold_overlaps, combine_strings=combine_strings)
+        result = ''
+        while other:
+            if other & 1:
+                result = fold(result, fmt)
+            if other := other >> 1:
+                fmt = fold(fmt, fmt)
+        return type(self)(result, byte_order)
 
     def __eq__(self, other: StructSerializer) -> bool:
         if isinstance(other, StructSerializer):
-- 
2.43.0

