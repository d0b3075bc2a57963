From 03353fe7150cdabbf88aa479e33369821d3946e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 01/56] fix: a stream that ends inside padding is not accepted
 as a complete record

BytePadding ignored how many bytes it got, so a truncated stream either produced a record or
moved the fields after the padding.
---
 src/infi/instruct/padding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/padding.py b/src/infi/instruct/padding.py
index 31c4c09..f278b2d 100644
--- a/src/infi/instruct/padding.py
+++ b/src/infi/instruct/padding.py
@@ -1,4 +1,5 @@
 from .base import FixedSizer, Marshal, EMPTY_CONTEXT
+from .errors import NotEnoughDataError
 
 class BytePaddingMarshal(FixedSizer, Marshal):
     def __init__(self, size, char=b"\x00"):
@@ -11,7 +12,9 @@ class BytePaddingMarshal(FixedSizer, Marshal):
         stream.write(self.char * self.size)
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        stream.read(self.size)
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "<%d bytes padding>" % (self.size,)
-- 
2.43.0


From e13a07c4c3bd43f5169b1d7407472aadda552f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 02/56] fix: SumSizeArray reads from streams that cannot tell()
 their position

Such streams (pipes, sockets, the look-ahead stream of a struct selector) hit a NameError.
---
 src/infi/instruct/array.py                 | 10 +++++++---
 src/infi/instruct/utils/counting_stream.py | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)
 create mode 100644 src/infi/instruct/utils/counting_stream.py

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index ca176ba..0b1234a 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,6 @@
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .utils.counting_stream import CountingStream
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -54,12 +55,15 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         obj = []
         total_bytes = self.size_marshal.create_from_stream(stream, context)
-        has_tell = hasattr(stream, 'tell')
+        try:
+            stream.tell()
+        except (AttributeError, EnvironmentError):  # no tell(), or not supported by this stream (pipes, sockets)
+            stream = CountingStream(stream)
         while total_bytes > 0:
-            element_size = stream.tell() if has_tell else 0
+            element_size = stream.tell()
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(elemen)
+            element_size = stream.tell() - element_size
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
diff --git a/src/infi/instruct/utils/counting_stream.py b/src/infi/instruct/utils/counting_stream.py
new file mode 100644
index 0000000..9f4586b
--- /dev/null
+++ b/src/infi/instruct/utils/counting_stream.py
@@ -0,0 +1,18 @@
+class CountingStream(object):
+    """
+    Wraps a readable stream that cannot tell its position and counts the bytes read from it.
+    """
+    def __init__(self, stream):
+        self.stream = stream
+        self.position = 0
+
+    def read(self, size):
+        data = self.stream.read(size)
+        self.position += len(data)
+        return data
+
+    def tell(self):
+        return self.position
+
+    def __getattr__(self, name):
+        return getattr(self.stream, name)
-- 
2.43.0


From 7d9bcf0887f20b9afc2421b6b9577a2abc9f2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 03/56] fix: StructSelector uses its mapping

The constructor iterated over the (empty) attribute instead of the argument, so every key was
unmapped, and it announced the sum of the sizes instead of their range.
---
 src/infi/instruct/struct/selector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 8d913ca..4ec3b1b 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -12,14 +12,15 @@ class StructSelectorMarshal(Marshal):
         self.mapping = {}
         self.default = default
 
-        for key, struct in self.mapping:
-            if not isinstance(struct, Struct):
+        for key, struct in mapping.items():
+            if not issubclass(struct, Struct):
                 raise ValueError("mapping key %s must be a subclass of Struct" % key)
             self.mapping[key] = struct
 
         structs = values_list(mapping) + ([self.default] if self.default is not None else [])
 
-        self.min_max_size = sum([struct.min_max_sizeof() for struct in structs], ZERO_MIN_MAX)
+        sizes = [struct.min_max_sizeof() for struct in structs] or [ZERO_MIN_MAX]
+        self.min_max_size = MinMax(min(size.min for size in sizes), max(size.max for size in sizes))
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         type(obj).write_to_stream(obj, stream, context)
-- 
2.43.0


From c5b9c3fbaafa4fce2ad57404b6fac7e2b56aedab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 04/56] fix: fixed-size strings and buffers always take exactly
 their size on the wire

A value longer than the field was written whole and displaced every field after it, a shorter
FixedSizeBuffer failed with IndexError after part of it was written, and left padding was written
on the right.
---
 src/infi/instruct/string.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 21e88a5..a9e41fa 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,6 +1,5 @@
 from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
 from .errors import InstructError, InvalidValueError
-from ._compat import pad
 
 PADDING_DIRECTION_NONE  = 0
 PADDING_DIRECTION_RIGHT = 1
@@ -25,9 +24,9 @@ def _pad(obj, size, dir, padding):
         return obj
 
     if dir == PADDING_DIRECTION_RIGHT or dir == PADDING_DIRECTION_BOTH:
-        return obj + padding[0] * pad_len
+        return obj + padding[0:1] * pad_len
     elif dir == PADDING_DIRECTION_LEFT:
-        return (padding[0] * pad_len) + obj
+        return (padding[0:1] * pad_len) + obj
     else:
         # PADDING_DIRECTION_NONE
         raise InvalidValueError("no padding specified but item length %d is smaller than required length %d (item=%s)" %
@@ -69,9 +68,7 @@ class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         stripped_obj = _strip(obj, self.padding_direction, self.padding)
-        stream.write(stripped_obj)
-        if len(stripped_obj) < self.size:
-            stream.write(pad(self.padding[0], (self.size - len(stripped_obj))))
+        stream.write(_pad(stripped_obj, self.size, self.padding_direction, self.padding))
 
 class VarSizeBufferMarshal(VarSizeStringMarshal):
     def __init__(self, size_marshal):
-- 
2.43.0


From 0e432cc66e1e8aee63f07290e70a29b89cc4e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 05/56] fix: VarSizeString's default padding is bytes, as
 Python 3 requires

---
 src/infi/instruct/string_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/string_macros.py b/src/infi/instruct/string_macros.py
index 3309aca..0b68149 100644
--- a/src/infi/instruct/string_macros.py
+++ b/src/infi/instruct/string_macros.py
@@ -6,7 +6,7 @@ def PaddedString(name, size, padding=b"\x00", padding_direction=PADDING_DIRECTIO
         assert len(default) <= size
     return Field(name, PaddedStringMarshal(size, padding, padding_direction), default)
 
-def VarSizeString(name, size_marshal, padding="\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
+def VarSizeString(name, size_marshal, padding=b"\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
     return Field(name, VarSizeStringMarshal(size_marshal, padding, padding_direction), default)
 
 # Backward compatibility
-- 
2.43.0


From 94ed02151e8660dce88961e6ae42c0f50a49f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 06/56] fix: FixedSizeArray refuses to write a list of another
 length

The reader always takes the declared number of elements, so such a list displaced everything after it.
---
 src/infi/instruct/array.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 0b1234a..3bf44a5 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,6 @@
 from ._compat import range
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .errors import InvalidValueError
 from .utils.counting_stream import CountingStream
 
 class ArrayBase(object):
@@ -42,6 +43,12 @@ class FixedSizeArrayMarshal(VarSizeArrayMarshal):
         super(FixedSizeArrayMarshal, self).__init__(ConstReader(size), element_marshal)
         self.size = size
 
+    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
+        if len(obj) != self.size:
+            raise InvalidValueError("fixed-size array is expected to have %d elements but instead got %d" %
+                                    (self.size, len(obj)))
+        super(FixedSizeArrayMarshal, self).write_to_stream(obj, stream, context)
+
     def min_max_sizeof(self):
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(element_min_max.min * self.size, element_min_max.max * self.size)
-- 
2.43.0


From 0d4db8df13348ad4c21a796674d37833276c6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 07/56] fix: pointers and selectors of a nested struct refer to
 that struct

The context handed down by the containing struct overrode the nested struct's own, so a ReadPointer
or a struct selector in a nested struct looked for its field in the outermost struct.
---
 src/infi/instruct/struct/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 7e08aab..b393bf8 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -222,6 +222,8 @@ class Struct(object):
         else:
             new_context = WritableContext(dict(struct=obj))
         new_context.update(context.get_dict())
+        # A nested struct is given its container's context, but its pointers and selectors refer to itself.
+        new_context.put('struct', obj)
         return new_context
 
     def to_bytes(self):
-- 
2.43.0


From 2175693dca195716158aa282b38ce633abce2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 08/56] fix: arrays and strings sized by a ReadPointer do not
 claim to have a size of zero

---
 src/infi/instruct/array.py  | 4 +++-
 src/infi/instruct/string.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 3bf44a5..06f682a 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,5 @@
 from ._compat import range
-from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer, UNBOUNDED_MIN_MAX
 from .errors import InvalidValueError
 from .utils.counting_stream import CountingStream
 
@@ -13,6 +13,8 @@ class ArrayBase(object):
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
+        if size_min_max.max == 0:  # the size isn't read from the stream (e.g. ReadPointer)
+            return UNBOUNDED_MIN_MAX
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(size_min_max.min,
                       size_min_max.max + self._approx_max_elements_by_size_bits() * element_min_max.max)
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index a9e41fa..8ea981a 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,4 +1,4 @@
-from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
+from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax, UNBOUNDED_MIN_MAX
 from .errors import InstructError, InvalidValueError
 
 PADDING_DIRECTION_NONE  = 0
@@ -59,6 +59,8 @@ class VarSizeStringMarshal(Marshal):
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
+        if size_min_max.max == 0:  # the size isn't read from the stream (e.g. ReadPointer)
+            return UNBOUNDED_MIN_MAX
         return MinMax(size_min_max.min, size_min_max.max + (1 << (size_min_max.max * 8)) - 1)
 
 class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
-- 
2.43.0


From 5662b71f8fac663bf6fe04f4f261b5579691d44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 09/56] fix: a constant field whose value is a struct can be
 read back

The struct that was read was compared to the constant by identity, so it never matched.
---
 src/infi/instruct/struct/const.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/const.py b/src/infi/instruct/struct/const.py
index 07dbad5..a8f5f0d 100644
--- a/src/infi/instruct/struct/const.py
+++ b/src/infi/instruct/struct/const.py
@@ -1,4 +1,4 @@
-from . import Field
+from . import Field, Struct
 from ..base import EMPTY_CONTEXT
 from ..errors import InstructError
 
@@ -17,11 +17,17 @@ class ConstField(Field):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         value = self.marshal.create_from_stream(stream, context, *args, **kwargs)
-        if value != self.value:
+        if not self._is_const_value(value):
             raise InstructError("constant field %s of class %s should have the value %s but instead got %s" %
                                 (self.name, type(obj), self.marshal.to_repr(self.value, context),
                                  self.marshal.to_repr(value, context)))
 
+    def _is_const_value(self, value):
+        if isinstance(self.value, Struct):
+            # Structs compare by identity, what matters here is what they look like in the stream.
+            return self.marshal.write_to_string(value) == self.marshal.write_to_string(self.value)
+        return value == self.value
+
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "%s (const)" % super(ConstField, self).to_repr(obj, context)
 
-- 
2.43.0


From 16884fc266571fc9c291e0e342bbca12ff735241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 10/56] fix: repr of a struct with an absent optional field

---
 src/infi/instruct/struct/optional.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infi/instruct/struct/optional.py b/src/infi/instruct/struct/optional.py
index 394a23d..d4daf9f 100644
--- a/src/infi/instruct/struct/optional.py
+++ b/src/infi/instruct/struct/optional.py
@@ -15,6 +15,11 @@ class OptionalField(Field):
         if self.predicate(obj, stream, context):
             super(OptionalField, self).read_fields(obj, stream, context, *args, **kwargs)
 
+    def to_repr(self, obj, context=EMPTY_CONTEXT):
+        if self.get_value(obj) is None:
+            return "%s=None" % self.name
+        return super(OptionalField, self).to_repr(obj, context)
+
     def sizeof(self, obj):
         value = self.get_value(obj)
         if value is None:
-- 
2.43.0


From 3b2926aaf1ef66f9f946227030c465fdcbf8c10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 11/56] fix: fields in a lazy container behave like any other
 field

Bit fields and constants in a lazy container read as None or failed until another lazy field was
touched, unset fields had no default, a truncated stream was only noticed on access, and a failed,
interrupted or concurrent first access lost the data of the whole container.
---
 src/infi/instruct/struct/lazy.py | 106 ++++++++++++++++++-------------
 1 file changed, 62 insertions(+), 44 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 0a820c2..10793ba 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,69 +1,81 @@
+from threading import RLock
+
 from .._compat import StringIO
 
-from . import FieldBase, Field, FieldListContainer
+from . import Field, FieldListContainer
+from .const import ConstField
 from ..base import FixedSizer, EMPTY_CONTEXT
+from ..errors import NotEnoughDataError
 
-class LazyField(Field):
+class LazyField(object):
+    """
+    Descriptor of a field inside a lazy container: makes sure the container is deserialized before the field is used.
+    """
     def __init__(self, container, field):
-        super(LazyField, self).__init__(field.name, field.default, field.marshal)
+        super(LazyField, self).__init__()
         self.container = container
         self.field = field
-
-    def prepare_class(self, cls):
-        setattr(cls, self.field.name, self)
-
-    def prepare_instance(self, obj, args, kwargs):
-        if self.name in kwargs:
-            setattr(obj, self.name, kwargs.pop(self.name))
-
-    def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
-        self.field.write_fields(obj, stream, context)
-
-    def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        self.field.read_fields(obj, stream, context, *args, **kwargs)
+        self.name = field.name
 
     def __set__(self, instance, value):
         self.container.instantiate_if_needed(instance)
-        instance.__dict__[self.name] = value
+        if isinstance(self.field, ConstField):
+            self.field.__set__(instance, value)
+        else:
+            instance.__dict__[self.name] = value
 
     def __get__(self, instance, owner):
+        if instance is None:
+            return self
         self.container.instantiate_if_needed(instance)
+        if isinstance(self.field, ConstField):
+            return self.field.value
+        if self.name not in instance.__dict__:
+            raise AttributeError(self.name)
         return instance.__dict__[self.name]
 
-    def to_repr(self, obj, context=EMPTY_CONTEXT):
-        if self.container.is_instantiated(obj):
-            return self.field.to_repr(obj, context)
-        return "<lazy>"
-
-    def sizeof(self, obj):
-        return self.field.sizeof(obj)
-
-    def min_max_sizeof(self):
-        return self.field.min_max_sizeof()
-
 class LazyFieldListContainer(FixedSizer, FieldListContainer):
     def __init__(self, fields):
-        new_fields = []
         for field in fields:
             if not field.is_fixed_size():
                 raise ValueError("%s must be a fixed-size field inside a lazy container" % (field,))
-            if isinstance(field, Field):
-                new_fields.append(LazyField(self, field))
-            else:
-                new_fields.append(field)
 
-        super(LazyFieldListContainer, self).__init__(new_fields)
+        super(LazyFieldListContainer, self).__init__(fields)
 
         self.size = sum([field.min_max_sizeof().min for field in self.fields])
         self.lazy_key = "_lazy_container_%s" % id(self)
+        self.lock = RLock()
+
+    def prepare_class(self, cls):
+        super(LazyFieldListContainer, self).prepare_class(cls)
+        for field in self._named_fields(self.fields):
+            setattr(cls, field.name, LazyField(self, field))
+
+    def _named_fields(self, fields):
+        result = []
+        for field in fields:
+            if isinstance(field, LazyFieldListContainer):
+                continue  # a lazy container inside a lazy container takes care of its own fields
+            elif isinstance(field, FieldListContainer):
+                result.extend(self._named_fields(field.fields))
+            elif isinstance(field, Field):
+                result.append(field)
+        return result
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
-        super(LazyFieldListContainer, self).write_fields(obj, stream)
+        super(LazyFieldListContainer, self).write_fields(obj, stream, context)
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
-        setattr(obj, self.lazy_key, dict(data=data, context=context, args=args, kwargs=kwargs))
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
+        setattr(obj, self.lazy_key, dict(data=data, context=context, args=args, kwargs=kwargs, reading=False))
+
+    def to_repr(self, obj, context=EMPTY_CONTEXT):
+        if self.is_instantiated(obj):
+            return super(LazyFieldListContainer, self).to_repr(obj, context)
+        return ", ".join(["<lazy>" for field in self.fields])
 
     def is_instantiated(self, obj):
         return not hasattr(obj, self.lazy_key)
@@ -72,11 +84,17 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         if self.is_instantiated(obj):
             return
 
-        params = getattr(obj, self.lazy_key)
-        stream = StringIO(params['data'])
-
-        # We first delete the lazy key so it'll return "instantiated" when the field descriptors are called.
-        delattr(obj, self.lazy_key)
-
-        super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
-                                                        **params['kwargs'])
+        with self.lock:
+            params = getattr(obj, self.lazy_key, None)
+            if params is None or params['reading']:
+                # Either another thread has just done it, or we're called by the field descriptors while doing it.
+                return
+
+            try:
+                params['reading'] = True
+                super(LazyFieldListContainer, self).read_fields(obj, StringIO(params['data']), params['context'],
+                                                                *params['args'], **params['kwargs'])
+                # Only now, so if reading fails (or gets interrupted) the next access starts it over.
+                delattr(obj, self.lazy_key)
+            finally:
+                params['reading'] = False
-- 
2.43.0


From efec8c53d4d1757355654a6efa6a488e602719f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 12/56] fix: a negative length in the stream is refused instead
 of reading the rest of the stream

---
 src/infi/instruct/array.py  | 2 ++
 src/infi/instruct/string.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 06f682a..cf9d351 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -27,6 +27,8 @@ class VarSizeArrayMarshal(ArrayBase, Marshal):
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         size = self.size_marshal.create_from_stream(stream, context, *args, **kwargs)
+        if size < 0:
+            raise InvalidValueError("negative number of elements %d" % (size,))
         obj = []
         for i in range(size):
             obj.append(self.element_marshal.create_from_stream(stream, context, *args, **kwargs))
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 8ea981a..c76ed2e 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -41,6 +41,8 @@ class VarSizeStringMarshal(Marshal):
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         buffer_len = self.size_marshal.create_from_stream(stream, context)
+        if buffer_len < 0:
+            raise InvalidValueError("negative length %d" % (buffer_len,))
         obj = stream.read(buffer_len)
         if len(obj) < buffer_len:
             raise InstructError("Expected to read %d bytes from stream but read only %d" % (buffer_len, len(obj)))
-- 
2.43.0


From 1d766a0270a85db1bb34f9dc3905271b70232279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 13/56] fix: SumSizeArray does not loop for ever over elements
 that take no bytes

---
 src/infi/instruct/array.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index cf9d351..3ee5a9d 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -75,6 +75,9 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
             element_size = stream.tell() - element_size
+            if element_size == 0:
+                raise InvalidValueError("%d more bytes of elements are expected but the last element has no bytes" %
+                                        (total_bytes,))
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From 83219fe3ab97b8c39eb890618e3c720c4c78813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 14/56] fix: default values are copied deeply, so records do
 not share parts of them

---
 src/infi/instruct/struct/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index b393bf8..7b1eef9 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -1,13 +1,11 @@
 from array import array
+from copy import deepcopy
 from .._compat import StringIO, PY2
 from six import add_metaclass
 
 from ..base import MarshalBase, WritableContext, EMPTY_CONTEXT, ZERO_MIN_MAX
 from ..errors import StructNotWellDefinedError
 
-def copy_if_supported(obj):
-    return obj.copy() if hasattr(obj, 'copy') else obj
-
 class FieldMarshal(MarshalBase):
     def prepare_class(self, cls):
         pass
@@ -64,7 +62,7 @@ class Field(FieldBase):
         if self.name in kwargs:
             setattr(obj, self.name, kwargs.pop(self.name))
         elif not hasattr(obj, self.name):
-            setattr(obj, self.name, copy_if_supported(self.default))
+            setattr(obj, self.name, deepcopy(self.default))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "%s=%s" % (self.name, super(Field, self).to_repr(obj, context))
-- 
2.43.0


From bdf58160b3d89f1bb82b50bc7bf7fbff95bf2fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 15/56] fix: deleting bits from a BitAwareByteArray moves
 exactly the bits that follow

---
 src/infi/instruct/buffer/io_buffer.py | 33 ++++++++++++---------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index e2ce9b3..45323a5 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -189,25 +189,20 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
 
     def _del_range(self, start, stop):
         assert stop >= start
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can remove whole bytes from the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            del self.buffer[start_byte:stop_byte]
-            self.stop -= whole_byte_delta
-            stop -= whole_byte_delta
-
-        # Here we have at most 8 bits to remove, so we need to "shift" the entire array.
-        if stop > start:
-            ofs = start
-            bit_len_frac = stop - start
-            while (ofs + bit_len_frac) < self.stop:
-                self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs + bit_len_frac, 8))
-                ofs += 1
-            self.stop -= bit_len_frac
-            if int(math.ceil(self.stop)) < len(self.buffer):
-                del self.buffer[-1]
+        if int(start) == start and int(stop) == stop:
+            # We can remove whole bytes from the buffer.
+            del self.buffer[int(start):int(stop)]
+            self.stop -= stop - start
+        else:
+            # We need to move all the bits that follow.
+            tail = self._copy_tail(stop)
+            self.stop -= stop - start
+            self._copy_to_range(start, tail, tail.length())
+            del self.buffer[int(math.ceil(self.stop)):]
+
+    def _copy_tail(self, start):
+        start_byte = int(start)
+        return BitView(self.buffer[start_byte:], start - start_byte, self.stop - start_byte)
 
     def _insert_zeros(self, start, stop):
         assert start >= 0 and start <= stop, "start={0!r}, stop={1!r}".format(start, stop)
-- 
2.43.0


From c85e080f0d8e5b8dab227339a900ee523b8862f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 16/56] fix: inserting and zero-filling in a BitAwareByteArray
 keeps the other bits and really inserts zeros

---
 src/infi/instruct/buffer/io_buffer.py | 35 ++++++++++-----------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 45323a5..d8caa2e 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -207,28 +207,19 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
     def _insert_zeros(self, start, stop):
         assert start >= 0 and start <= stop, "start={0!r}, stop={1!r}".format(start, stop)
         assert start <= self.stop
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can insert whole bytes to the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            self.buffer[start_byte:start_byte] = bytearray(whole_byte_delta)
-            self.stop += whole_byte_delta
-            stop -= whole_byte_delta
-
-        if stop > start:
-            assert stop - start <= 2, "start={0}, stop={1}".format(start, stop)
-            bit_len_frac = stop - start
-            while int(math.ceil(self.stop + bit_len_frac)) > len(self.buffer):
-                self.buffer.append(0)
-
-            if start < self.stop:
-                # Inserting in the middle, so we copy from end to start.
-                ofs = self.stop + bit_len_frac - 1
-                while ofs >= start:
-                    self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs - bit_len_frac, 8))
-                    ofs -= 1
-            self.stop += bit_len_frac
+        if int(start) == start and int(stop) == stop:
+            # We can insert whole bytes to the buffer.
+            self.buffer[int(start):int(start)] = bytearray(int(stop - start))
+            self.stop += stop - start
+        else:
+            # We need to move all the bits that follow.
+            tail = self._copy_tail(start)
+            self.stop += stop - start
+            missing = int(math.ceil(self.stop)) - len(self.buffer)
+            if missing > 0:
+                self.buffer.extend(bytearray(missing))
+            self._copy_to_range(start, bytearray(int(math.ceil(stop - start))), stop - start)
+            self._copy_to_range(stop, tail, tail.length())
 
     def _set_byte_bits(self, ofs, bit_len, value):
         byte_ofs, bit_ofs = float_to_byte_bit_pair(ofs)
-- 
2.43.0


From 4bb74b53ec270b4fbc12d53add315bc5996be8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 17/56] fix: BitView.to_bytearray always returns a bytearray of
 its own with only the bits of the view

---
 src/infi/instruct/buffer/io_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index d8caa2e..256fd3d 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -62,8 +62,8 @@ class BitView(abc.Sequence):
         return "".join(str(n) for n in reversed(result))
 
     def to_bytearray(self):
-        if int(self.start) == self.start:
-            return self.buffer[int(self.start):int(math.ceil(self.stop))]
+        if int(self.start) == self.start and int(self.stop) == self.stop:
+            return bytearray(self.buffer[int(self.start):int(self.stop)])
         else:
             return bytearray(list(self))  # very inefficient.
 
-- 
2.43.0


From 1699e6d5b855e495705ed30df4ab336fcf9de748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 18/56] fix: BitAwareByteArray refuses values that are not
 bytes instead of changing neighbouring bits

---
 src/infi/instruct/buffer/io_buffer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 256fd3d..46623ec 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -237,12 +237,13 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
         value_len = 0
         if isinstance(value, BitView):
             value_len = value.length()
-        elif isinstance(value, abc.Sized):
-            value_len = len(value)
         elif isinstance(value, abc.Iterable):
+            # Fetch everything first: if the source fails or has something that's not a byte, nothing was changed yet.
             value = bytearray(value)
             value_len = len(value)
         elif isinstance(value, integer_types):
+            if value < 0:
+                raise ValueError("trying to assign negative int {0}".format(value))
             # Short circuit: make bit ranges accept int values by their bit length.
             bit_length = max(1, value.bit_length())
             if bit_length > int_value_len * 8:
-- 
2.43.0


From d6ff5544bad45c204003c429814aa09da2fa747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 19/56] fix: indexing a BitView past its end raises IndexError,
 an index near the end covers the bits that are left

---
 src/infi/instruct/buffer/io_buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 46623ec..81b7cee 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -99,7 +99,9 @@ class BitView(abc.Sequence):
             assert start <= stop and start >= 0, "start={0!r}, stop={1!r}".format(start, stop)
         elif isinstance(key, integer_types + (float,)):
             start = self._translate_offset(key)
-            stop = start + 1
+            if start >= self.stop:
+                raise IndexError("index {0!r} is out of range".format(key))
+            stop = min(start + 1, self.stop)
         else:
             raise TypeError("index must be int, float or a slice")
         return start, stop
-- 
2.43.0


From 9a9fca246dae7ad88ec406b327bb7225cc04bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 20/56] fix: assigning a small int to a range of bits clears
 the rest of the range

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 81b7cee..b56420d 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -254,7 +254,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
                 raise ValueError("trying to assign int {0} with bit length {1} to bit length {2}".format(value,
                                  bit_length, int(int_value_len * 8)))
             l = []
-            for n in range(0, bit_length, 8):
+            for n in range(0, max(bit_length, int(int_value_len * 8)), 8):
                 l.append(value % 256)
                 value //= 256
             value = l
-- 
2.43.0


From ef754546c72ea03e4e0a057144bfec9f9b3755c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 21/56] fix: a BitAwareByteArray can be extended by or assigned
 its own contents

---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index b56420d..3f1d2a5 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -141,6 +141,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
 
     def extend(self, other):
         if isinstance(other, BitView):
+            other = other[0:]  # a copy, in case it's (a view of) ourselves
             offset = self.stop
             self._insert_zeros(offset, offset + other.length())
             self._copy_to_range(offset, other, other.length())
@@ -238,6 +239,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
     def _value_to_value_and_length(self, value, int_value_len=1):
         value_len = 0
         if isinstance(value, BitView):
+            value = value[0:]  # a copy, in case it's (a view of) ourselves
             value_len = value.length()
         elif isinstance(value, abc.Iterable):
             # Fetch everything first: if the source fails or has something that's not a byte, nothing was changed yet.
-- 
2.43.0


From eb44c1069f1c0d98a6b52933421bc7385709389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 22/56] fix: unpack 8 byte floats of packets (the format
 character was an integer's)

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 0194088..d5d123f 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -165,7 +165,7 @@ def unpack_float(buffer, **kwargs):
 
 STRUCT_FLOAT_UNPACKERS = {
     4: keep_kwargs_partial(unpack_struct_float, format_char='f'),
-    8: keep_kwargs_partial(unpack_struct_float, format_char='q')
+    8: keep_kwargs_partial(unpack_struct_float, format_char='d')
 }
 
 
-- 
2.43.0


From aef5bace3e46f9ecf0d0fa2dd9eb7f4ef3ce540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 23/56] fix: byte order of packet integers that have no struct
 format (3, 5, 6, 7, 9... bytes)

---
 src/infi/instruct/buffer/serialize.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index d5d123f..750c4cc 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -52,10 +52,18 @@ ENDIAN_NAME_TO_FORMAT = {'unspecified': '@', 'native': '=', 'big': '>', 'little'
 #
 
 
+def is_big_endian_bit_int(byte_size, kwargs):
+    # Byte order has a meaning only if the integer consists of whole bytes.
+    endian = kwargs.get("endian", "native")
+    return int(byte_size) == byte_size and (byteorder if endian in ("native", "unspecified") else endian) == "big"
+
+
 def pack_bit_int(value, byte_size, **kwargs):
     assert byte_size is not None
     result = BitAwareByteArray(bytearray(int(math.ceil(byte_size))), 0, byte_size)
     result[0:] = value
+    if is_big_endian_bit_int(byte_size, kwargs):
+        result.buffer.reverse()
     return result
 
 
@@ -90,7 +98,7 @@ def pack_int(value, **kwargs):
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
     result = 0
-    l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
+    l = buffer[0:byte_size] if is_big_endian_bit_int(byte_size, kwargs) else reversed(buffer[0:byte_size])
     for b in l:
         result *= 256
         result += b
-- 
2.43.0


From 74c4bd9227136a04331ac1ad2a9707ef4dceffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 24/56] fix: refuse to unpack bit-sized integers from a buffer
 that's too short

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 750c4cc..4c658f7 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -97,6 +97,8 @@ def pack_int(value, **kwargs):
 
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
+    assert buffer.length() >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size,
+                                                                                                       buffer.length())
     result = 0
     l = buffer[0:byte_size] if is_big_endian_bit_int(byte_size, kwargs) else reversed(buffer[0:byte_size])
     for b in l:
-- 
2.43.0


From a911d74597150bae79728fb56f36935fed36fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 25/56] fix: default padding and strip characters of string
 list elements are bytes, as pack_str and unpack_str need

---
 src/infi/instruct/buffer/macros.py    | 2 +-
 src/infi/instruct/buffer/serialize.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9159fa0..04660dc 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -67,7 +67,7 @@ self_ref = SelfProxy()
 input_buffer_length = InputBufferLengthReference()
 
 
-def str_type_factory(encoding='ascii', padding=' ', strip='\x00', justify='left', byte_size=None):
+def str_type_factory(encoding='ascii', padding=b' ', strip=b'\x00', justify='left', byte_size=None):
     kwargs = dict(encoding=encoding, padding=padding, strip=strip, justify=justify)
     if byte_size:
         kwargs['byte_size'] = byte_size
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 4c658f7..d7b6659 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -186,7 +186,7 @@ JUSTIFY_OPTIONS = ('left', 'right', 'center')
 
 
 def str_args_from_kwargs(kwargs):
-    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=' ', justify='left'), kwargs)
+    args = copy_defaults_and_override_with_kwargs(dict(encoding='ascii', padding=b' ', strip=b'\x00', justify='left'), kwargs)
     assert_kwarg_enum(args, 'justify', JUSTIFY_OPTIONS)
     assert len(args['padding']) == 1, "padding must be exactly one character but instead got {0!r}".format(args['padding'])
     return args
-- 
2.43.0


From ae1996de8292213658a7617699f18e6de9b3067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 26/56] fix: size of an unpacked string is what was used, not
 the rest of the buffer

---
 src/infi/instruct/buffer/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index d7b6659..54d1f1e 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -218,6 +218,7 @@ def unpack_str(buffer, **kwargs):
         raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, len(buffer)))
 
     value = buffer[0:byte_size].to_bytes()
+    length = len(value)
     if byte_size is not None:
         if justify == 'left':
             value = value.rstrip(strip).rstrip(padding)
@@ -226,7 +227,7 @@ def unpack_str(buffer, **kwargs):
         else:  # center
             value = value.strip(strip).strip(padding)
     value = value.decode(args['encoding'])
-    return value, len(buffer)
+    return value, length
 
 
 def pack_json(value, **kwargs):
-- 
2.43.0


From 4768cacf8b007d3c8296d2797ac7487703224e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 27/56] fix: buffer_field keeps its type when byte_size is
 given

---
 src/infi/instruct/buffer/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 04660dc..9bb7803 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -276,7 +276,7 @@ def buffer_field(type,
                                     default=default)
     marshal_kwargs = dict(type=type)
     if byte_size:
-        marshal_kwargs = dict(byte_size=byte_size)
+        marshal_kwargs['byte_size'] = byte_size
     builder.set_packer(pack_buffer, **marshal_kwargs)
     unpack = unpack_selector_decorator(unpack_selector) if unpack_selector else unpack_buffer
     builder.set_unpacker(unpack, **marshal_kwargs)
-- 
2.43.0


From a4b8bfce98c302ad5eae2e60dfd17e861f3a20d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 28/56] fix: what set_after_unpack computes is assigned to the
 field, references included

---
 src/infi/instruct/buffer/field_reference_builder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 48fc8be..b2ffb06 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -227,11 +227,13 @@ class FieldReferenceBuilder(object):
         if self.set_after_unpack is not None:
             if not isinstance(self.set_after_unpack, Reference):
                 unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, field_unpack_ref)
+            else:
+                unpack_value_ref = self.set_after_unpack
         else:
-            unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref, self.field.attr_name_ref,
-                                                   field_unpack_ref)
+            unpack_value_ref = field_unpack_ref
 
-        self.field.unpack_value_ref = unpack_value_ref
+        self.field.unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
+                                                          self.field.attr_name_ref, unpack_value_ref)
 
     def set_field_unpack_after(self):
         if self.unpack_after is None:
-- 
2.43.0


From aafa31928d6aed3aff336442a353f2cefb357d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 29/56] fix: bit slices of positions made of several ranges,
 and open ended ones

---
 src/infi/instruct/buffer/reference/range.py | 43 +++++++++------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 3bf00cb..89a85bf 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -144,35 +144,30 @@ class BitSliceRangeReference(BitRangeReference):
         range_list = self.parent_range_ref.deref(ctx)
         assert len(range_list) >= 1
 
-        bit_range = SequentialRange(float(self.start.deref(ctx)) / 8, float(self.stop.deref(ctx)) / 8)
+        start, stop = self.start.deref(ctx), self.stop.deref(ctx)
+        bit_range = SequentialRange(float(start) / 8 if start is not None else 0,
+                                    float(stop) / 8 if stop is not None else None)
 
-        i, sum_length = range_list.find_relative_container_index(bit_range.start)
-        if i is None:
-            raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(
-                int(bit_range.start * 8), range_list))
+        result = []
+        offset = 0  # of the current range in the sequence
+        for r in range_list:
+            subrange_start = r.start + max(bit_range.start - offset, 0)
+            subrange_stop = r.start + bit_range.stop - offset if not bit_range.is_open() else r.stop
+            if not r.is_open():
+                subrange_stop = min(subrange_stop, r.stop)
 
-        if bit_range.is_open():
-            subrange_start = range_list[i].start + bit_range.start - sum_length
-            return SequentialRangeList([SequentialRange(subrange_start, range_list[i].stop)] + range_list[i + 1:])
+            if subrange_stop is None or subrange_start < subrange_stop:
+                result.append(SequentialRange(subrange_start, subrange_stop))
 
-        bit_range_remaining_len = bit_range.byte_length()
-        result = []
-        for i in range(i, len(range_list)):
-            r = range_list[i]
-            subrange_start = r.start + bit_range.start - sum_length
-            if r.is_open() or (r.stop - subrange_start) >= bit_range_remaining_len:
-                subrange_stop = subrange_start + bit_range_remaining_len
-            else:
-                subrange_stop = r.stop
-
-            result.append(SequentialRange(subrange_start, subrange_stop))
-
-            bit_range_remaining_len -= (subrange_stop - subrange_start)
-            if bit_range_remaining_len == 0:
+            if r.is_open():
                 break
+            offset += r.byte_length()
+        else:
+            if max(bit_range.start, bit_range.stop or 0) > offset:
+                raise ValueError("Bit range {0!r} is out of range for parent range {1!r}".format(bit_range, range_list))
 
-        if bit_range_remaining_len > 0:
-            raise ValueError("Bit range {0!r} is out of range for parent range {1!r}".format(bit_range, range_list))
+        if not result:  # no bits at all
+            result.append(SequentialRange(range_list[-1].start, range_list[-1].start))
 
         return SequentialRangeList(result)
 
-- 
2.43.0


From af4e6c204454ba15503db476fcec5f88fd968e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 30/56] fix: a bit that starts a range belongs to that range
 and not to the end of the one before it

---
 src/infi/instruct/buffer/range.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 312fe5e..2a8b177 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -182,10 +182,10 @@ class SequentialRangeList(list, SequentialRangeMixin):
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
-            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) <= 0):
+            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) < 0):
                 return i, sum_length
             sum_length += self[i].byte_length()
-        return None
+        return None, sum_length
 
     def __add__(self, other):
         return SequentialRangeList(super(SequentialRangeList, self).__add__(other))
-- 
2.43.0


From 688f178064e1395656e313cf55fb89bd8c7196c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 31/56] fix: the size of a packet whose fields end inside a
 byte is a whole number of bytes, as packed

---
 src/infi/instruct/buffer/reference/total_size.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 160d9dc..98f2282 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -1,3 +1,4 @@
+import math
 import itertools
 
 from infi.instruct.buffer.range import SequentialRangeList
@@ -13,7 +14,7 @@ class TotalSizeReference(Reference):
         # First, we'll try a shortcut - if the size is static, we'll return that since we precalculated it.
         size = getattr(type(ctx.obj), 'byte_size', None)
         if size is not None:
-            return size
+            return int(math.ceil(size))
 
         if ctx.is_pack():
             lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields]
@@ -26,7 +27,7 @@ class TotalSizeReference(Reference):
             result = max(self._unpack_position_list_for_field(ctx, field) for field in ctx.fields)
 
         assert result is not None
-        return result
+        return int(math.ceil(result))
 
     def _unpack_position_list_for_field(self, ctx, field):
         if field.unpack_if.deref(ctx):
-- 
2.43.0


From 36412463600e2f4847c65140724217713e5131a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 32/56] fix: sizes and representation of packets include
 inherited fields

---
 src/infi/instruct/buffer/buffer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 895710a..c5d8e72 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -62,8 +62,9 @@ class BufferType(type):
                 attr.init(attr_name)
                 fields.append(attr)
 
-        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs else cls.calc_byte_size(name, fields))
         setattr(new_cls, '__fields__', fields)
+        if 'byte_size' not in attrs and (fields or not hasattr(new_cls, 'byte_size')):
+            setattr(new_cls, 'byte_size', cls.calc_byte_size(name, new_cls._all_fields()))
         return new_cls
 
     @classmethod
@@ -150,20 +151,20 @@ class Buffer(object):
         Returns this instance's size. If the size has to be calculated it may require packing some of the fields.
         """
         if ctx is None:
-            ctx = PackContext(self, type(self).__fields__)
+            ctx = PackContext(self, self._all_fields())
         return TotalSizeReference().deref(ctx)
 
-    def _all_fields(self):
+    @classmethod
+    def _all_fields(cls):
         fields = []
-        for cls in type(self).mro():
-            cls_fields = getattr(cls, '__fields__', [])
-            fields.extend(cls_fields)
+        for base in cls.mro():
+            fields.extend(base.__dict__.get('__fields__', []))
         return fields
 
     def _all_field_names(self):
         return set(field.attr_name() for field in self._all_fields())
 
     def __repr__(self):
-        fields = type(self).__fields__
+        fields = self._all_fields()
         repr_fields = ["{0}={1!r}".format(field.attr_name(), getattr(self, field.attr_name())) for field in fields]
         return "{0}.{1}({2})".format(type(self).__module__, type(self).__name__, ", ".join(repr_fields))
-- 
2.43.0


From 17876516ba829c5fbad6735b49a6fe0659d6f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 33/56] fix: a packet field redefined by a derived class
 replaces the inherited one

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index c5d8e72..7e843ae 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -158,7 +158,8 @@ class Buffer(object):
     def _all_fields(cls):
         fields = []
         for base in cls.mro():
-            fields.extend(base.__dict__.get('__fields__', []))
+            names = set(field.attr_name() for field in fields)  # a field may be redefined by a derived class
+            fields.extend(field for field in base.__dict__.get('__fields__', []) if field.attr_name() not in names)
         return fields
 
     def _all_field_names(self):
-- 
2.43.0


From bbd60d6ccb3e57bac6463d753bc02024ca38eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:46 +0000
Subject: [PATCH 34/56] fix: unpack_after holds also when the field is needed
 before its turn, and for prior fields that are absent

---
 src/infi/instruct/buffer/buffer.py                  |  8 +-------
 src/infi/instruct/buffer/field_reference_builder.py | 10 ++++++++--
 src/infi/instruct/buffer/reference/field.py         | 13 +++++++++++++
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 7e843ae..b6e06c2 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -134,13 +134,7 @@ class Buffer(object):
 
         for field in fields:
             try:
-                if field.unpack_if.deref(ctx):
-                    # TODO: get rid of unpack_after once we use dependencies as we should.
-                    for prev_field in field.unpack_after:
-                        prev_field.unpack_value_ref.deref(ctx)
-                    field.unpack_value_ref.deref(ctx)
-                else:
-                    setattr(self, field.attr_name(), None)
+                field.unpack(ctx)
             except:
                 raise chain_exceptions(InstructBufferError("Unpack error occurred", ctx, type(self), field.attr_name()))
 
diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index b2ffb06..d2d42b6 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -79,9 +79,15 @@ class InputBufferPartReference(Reference):
 
 
 class UnpackerReference(FuncCallReference):
-    def __init__(self, numeric, unpacker, absolute_position_ref, *args, **kwargs):
+    def __init__(self, numeric, field, unpacker, absolute_position_ref, *args, **kwargs):
         super(UnpackerReference, self).__init__(numeric, unpacker, InputBufferPartReference(absolute_position_ref),
                                                 *args, **kwargs)
+        self.field = field
+
+    def evaluate(self, ctx):
+        # The field may get unpacked before its turn, because another field depends on it.
+        self.field.unpack_prior_fields(ctx)
+        return super(UnpackerReference, self).evaluate(ctx)
 
     def _args_repr(self):
         return ", ".join(["buffer", "position"] + [safe_repr(arg) for arg in self.arg_refs[2:]])
@@ -199,7 +205,7 @@ class FieldReferenceBuilder(object):
                              unpack_size=self.unpack_size)
         unpack_kwargs.update(kwargs)
 
-        self.field.unpack_ref = UnpackerReference(self.numeric, unpacker, self.field.unpack_absolute_position_ref,
+        self.field.unpack_ref = UnpackerReference(self.numeric, self.field, unpacker, self.field.unpack_absolute_position_ref,
                                                   **unpack_kwargs)
 
     def create(self):
diff --git a/src/infi/instruct/buffer/reference/field.py b/src/infi/instruct/buffer/reference/field.py
index 22d4110..89936d5 100644
--- a/src/infi/instruct/buffer/reference/field.py
+++ b/src/infi/instruct/buffer/reference/field.py
@@ -35,5 +35,18 @@ class FieldReference(Reference):
         else:
             return self.unpack_value_ref.deref(ctx)
 
+    def unpack(self, ctx):
+        """Unpacks the field and assigns it, or None if the field is absent."""
+        if self.unpack_if.deref(ctx):
+            self.unpack_prior_fields(ctx)
+            self.unpack_value_ref.deref(ctx)
+        else:
+            setattr(ctx.obj, self.attr_name(), None)
+
+    def unpack_prior_fields(self, ctx):
+        # TODO: get rid of unpack_after once we use dependencies as we should.
+        for prev_field in self.unpack_after:
+            prev_field.unpack(ctx)
+
     def __safe_repr__(self):
         return "field_ref({0!r})".format(self.attr_name_ref.obj)
-- 
2.43.0


From 02f1364f4326fd3132ad92c3b959eb1397d22197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 35/56] fix: size of an unpacked packet with a field in several
 ranges that are not in order

---
 src/infi/instruct/buffer/reference/total_size.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 98f2282..4f8d56f 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -32,7 +32,13 @@ class TotalSizeReference(Reference):
     def _unpack_position_list_for_field(self, ctx, field):
         if field.unpack_if.deref(ctx):
             _, size = field.unpack_ref.deref(ctx)
-            result = field.unpack_absolute_position_ref.deref(ctx).byte_offset(size)
+            result = 0
+            for r in field.unpack_absolute_position_ref.deref(ctx):
+                used_size = min(size, r.byte_length())
+                result = max(result, r.start + used_size)
+                size -= used_size
+                if size == 0:
+                    break
             return result
         else:
             return 0
-- 
2.43.0


From 4236271ed2f30b0210e6d1654c2452fab2183f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 36/56] fix: total size when packing does not include absent
 fields

---
 src/infi/instruct/buffer/reference/total_size.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 4f8d56f..9d251a4 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -17,7 +17,8 @@ class TotalSizeReference(Reference):
             return int(math.ceil(size))
 
         if ctx.is_pack():
-            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields]
+            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields
+                     if field.pack_if.deref(ctx)]
             positions = SequentialRangeList(itertools.chain(*lists))
             result = positions.max_stop()  # total_size calculation
         else:
-- 
2.43.0


From fa500f3505d33006a6bc94832bf5c283ee837a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 37/56] fix: packets can have a field named mro

---
 src/infi/instruct/buffer/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index b6e06c2..f93eb0d 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -151,7 +151,7 @@ class Buffer(object):
     @classmethod
     def _all_fields(cls):
         fields = []
-        for base in cls.mro():
+        for base in cls.__mro__:
             names = set(field.attr_name() for field in fields)  # a field may be redefined by a derived class
             fields.extend(field for field in base.__dict__.get('__fields__', []) if field.attr_name() not in names)
         return fields
-- 
2.43.0


From ac92fce5768dab2a89559435e55f0cba1259ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 38/56] fix: packets do not share their fields' mutable default
 values

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index f93eb0d..dbb616d 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -1,5 +1,6 @@
 import math
 import itertools
+from copy import deepcopy
 from six import add_metaclass
 import six
 
@@ -98,7 +99,7 @@ class Buffer(object):
         # Set to default all fields that don't have a value (we know that since they're still FieldReference objects)
         for field in self._all_fields():
             if isinstance(getattr(self, field.attr_name()), FieldReference):
-                setattr(self, field.attr_name(), field.default)
+                setattr(self, field.attr_name(), deepcopy(field.default))
 
     def pack(self):
         """Packs the object and returns a buffer representing the packed object."""
-- 
2.43.0


From e48d1242c5b4b30670a22e2eead8e3a242ce992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 39/56] fix: packets do not share a mutable value given as
 set_before_pack

---
 src/infi/instruct/buffer/field_reference_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index d2d42b6..9db0b90 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -1,4 +1,4 @@
-import itertools
+from copy import deepcopy
 
 from infi.instruct.utils.safe_repr import safe_repr
 
@@ -219,7 +219,7 @@ class FieldReferenceBuilder(object):
                 if callable(self.set_before_pack):
                     pack_value_ref = FuncCallReference(self.numeric, self.set_before_pack, self.get_obj_from_ctx_ref)
                 else:
-                    pack_value_ref = ObjectReference(self.numeric, self.set_before_pack)
+                    pack_value_ref = FuncCallReference(self.numeric, deepcopy, self.set_before_pack)
             else:
                 pack_value_ref = self.set_before_pack
             self.field.pack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
-- 
2.43.0


From 6e630b59d0d0e7f0018297fb75d1b5b86809abb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 40/56] fix: interrupts and requests to exit during packing and
 unpacking are not turned into packing errors

---
 src/infi/instruct/buffer/buffer.py              | 6 +++---
 src/infi/instruct/buffer/reference/reference.py | 2 +-
 src/infi/instruct/utils/safe_repr.py            | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index dbb616d..437a1d3 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -78,7 +78,7 @@ class BufferType(type):
                         and field.unpack_absolute_position_ref.is_static()):
                     return None
                 positions.extend(field.pack_absolute_position_ref.deref(ctx))
-            except:
+            except Exception:
                 raise chain_exceptions(InstructBufferError("Error while calculating static byte size", ctx,
                                                            class_name, field.attr_name()))
         return positions.max_stop()
@@ -110,7 +110,7 @@ class Buffer(object):
             if field.pack_if.deref(ctx):
                 try:
                     ctx.output_buffer.set(field.pack_ref.deref(ctx), field.pack_absolute_position_ref.deref(ctx))
-                except:
+                except Exception:
                     raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self),
                                                                field.attr_name()))
 
@@ -136,7 +136,7 @@ class Buffer(object):
         for field in fields:
             try:
                 field.unpack(ctx)
-            except:
+            except Exception:
                 raise chain_exceptions(InstructBufferError("Unpack error occurred", ctx, type(self), field.attr_name()))
 
         return self.calc_byte_size(ctx)
diff --git a/src/infi/instruct/buffer/reference/reference.py b/src/infi/instruct/buffer/reference/reference.py
index cee4bc7..2506459 100644
--- a/src/infi/instruct/buffer/reference/reference.py
+++ b/src/infi/instruct/buffer/reference/reference.py
@@ -109,7 +109,7 @@ class Reference(object):
     def __repr__(self):
         try:
             return self.__safe_repr__()
-        except:
+        except Exception:
             return "({0}<{1}> repr error)".format(type(self), id(self))
 
     @classmethod
diff --git a/src/infi/instruct/utils/safe_repr.py b/src/infi/instruct/utils/safe_repr.py
index 9360b92..323d4c3 100644
--- a/src/infi/instruct/utils/safe_repr.py
+++ b/src/infi/instruct/utils/safe_repr.py
@@ -8,6 +8,6 @@ def safe_repr(obj):
     """
     try:
         obj_repr = repr(obj)
-    except:
+    except Exception:
         obj_repr = "({0}<{1}> repr error)".format(type(obj), id(obj))
     return obj_repr
-- 
2.43.0


From 8c5f8f4d74af4349a732508a58c53d6132806519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 41/56] fix: a failing pack_if is reported like any other
 packing error, with the packet type and field

---
 src/infi/instruct/buffer/buffer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 437a1d3..cdfbfeb 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -107,12 +107,11 @@ class Buffer(object):
         ctx = PackContext(self, fields)
 
         for field in fields:
-            if field.pack_if.deref(ctx):
-                try:
+            try:
+                if field.pack_if.deref(ctx):
                     ctx.output_buffer.set(field.pack_ref.deref(ctx), field.pack_absolute_position_ref.deref(ctx))
-                except Exception:
-                    raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self),
-                                                               field.attr_name()))
+            except Exception:
+                raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self), field.attr_name()))
 
         result = bytearray(ctx.output_buffer.get())
 
-- 
2.43.0


From f1a622a423407036d4ec5fd0ab24952715a1864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 42/56] fix: a packing error is reported even if a value in the
 packet fails to represent itself

---
 src/infi/instruct/buffer/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index cdfbfeb..45525ea 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -26,7 +26,7 @@ class InstructBufferError(InstructError):
         context_call_stack = "\n".join(["    {0}".format(line) for line in ctx.format_exception_call_stack()])
 
         # Format a list of all resolved references, remove identity ones (e.g. 1=1, etc.) and show only uniques
-        resolved_reference_pairs = [(safe_repr(key), repr(value)) for key, value in six.iteritems(ctx.cached_results)]
+        resolved_reference_pairs = [(safe_repr(key), safe_repr(value)) for key, value in six.iteritems(ctx.cached_results)]
         resolved_reference_str_list = sorted(["    {0}={1}".format(a, b) for a, b in resolved_reference_pairs
                                               if a != b])
         resolved_references = "\n".join(s for s, _ in itertools.groupby(resolved_reference_str_list))
-- 
2.43.0


From add0fe268d4916c7edbee23404fdb78d84154416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 43/56] fix: reading a packet through the struct adapter reads
 whole bytes and refuses a stream that ends too early

---
 src/infi/instruct/buffer/compat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/compat.py b/src/infi/instruct/buffer/compat.py
index aa8ebea..f214070 100644
--- a/src/infi/instruct/buffer/compat.py
+++ b/src/infi/instruct/buffer/compat.py
@@ -1,4 +1,6 @@
+import math
 from .._compat import PY2
+from ..errors import NotEnoughDataError
 
 class StructTypeAdapter(object):
     def __init__(self, buffer_type):
@@ -18,7 +20,10 @@ class StructTypeAdapter(object):
 
     def create_from_stream(self, stream, context=None, *args, **kwargs):
         if self.buffer_type.byte_size is not None:
-            packed_data = stream.read(self.buffer_type.byte_size)
+            byte_size = int(math.ceil(self.buffer_type.byte_size))
+            packed_data = stream.read(byte_size)
+            if len(packed_data) < byte_size:
+                raise NotEnoughDataError(byte_size, len(packed_data))
             result = self.buffer_type()
             result.unpack(packed_data)
             return result
-- 
2.43.0


From 4d18b943e0f001cfe85ce71edf212eb1c9aa47a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 44/56] fix: a packet list without a length whose elements take
 no bytes was unpacked for ever

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 54d1f1e..282e0ff 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -307,6 +307,8 @@ def unpack_list(buffer, elem_unpacker, **kwargs):
     while offset < buffer.length() and (n is None or index < n):
         unpacker_kwargs = copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container'))
         item, item_len = elem_unpacker(buffer[offset:byte_size], index=index, n=n, container=result, **unpacker_kwargs)
+        if item_len == 0 and n is None:
+            raise ValueError("list has no length and its element at offset {0} has no bytes".format(offset))
         result.append(item)
         offset += item_len
         index += 1
-- 
2.43.0


From ae76d0aaebad6d14e5e25b93fd12d8deae45af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 45/56] fix: bytes of a field in several ranges are not closed
 up over a range that the buffer doesn't have

---
 src/infi/instruct/buffer/io_buffer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 3f1d2a5..ddbbe0a 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -283,7 +283,10 @@ class InputBuffer(object):
             result = BitAwareByteArray(bytearray())
             for range in range_list:
                 assert not range.is_open()
-                result += self.buffer[range.start:range.stop]
+                part = self.buffer[range.start:range.stop]
+                result += part
+                if part.length() < range.byte_length():
+                    break  # the buffer ends here, bytes of the next ranges don't belong right after these
 
         return result
 
-- 
2.43.0


From d1fdd699c72e84cce1c59db325051445bcee7c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:38 +0000
Subject: [PATCH 46/56] fix: refuse to unpack whole-byte integers and floats
 from a buffer that ends inside their last byte

---
 src/infi/instruct/buffer/serialize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 282e0ff..5f42e61 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -110,7 +110,8 @@ def unpack_bit_int(buffer, byte_size, **kwargs):
 def unpack_struct_int(buffer, format_char, **kwargs):
     format = format_from_struct_int_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    assert buffer.length() >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size,
+                                                                                                       buffer.length())
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 STRUCT_INT_UNPACKERS = {
@@ -162,7 +163,8 @@ STRUCT_FLOAT_PACKERS = {
 def unpack_struct_float(buffer, format_char, **kwargs):
     format = format_from_struct_float_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    assert buffer.length() >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size,
+                                                                                                       buffer.length())
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 
-- 
2.43.0


From 24f79ed0809fc9bca535ea74aea4ae2240a9f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 47/56] fix: an interrupt while a reference is being entered is
 not masked by an IndexError

---
 src/infi/instruct/buffer/reference/reference.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/reference.py b/src/infi/instruct/buffer/reference/reference.py
index 2506459..7ba919e 100644
--- a/src/infi/instruct/buffer/reference/reference.py
+++ b/src/infi/instruct/buffer/reference/reference.py
@@ -80,10 +80,9 @@ class Reference(object):
         if self in ctx.cached_results:
             return ctx.cached_results[self]
 
+        ctx.call_nodes.add(self)
+        ctx.call_stack.append(self)
         try:
-            ctx.call_nodes.add(self)
-            ctx.call_stack.append(self)
-
             result = self.evaluate(ctx)
             ctx.cached_results[self] = result
             return result
-- 
2.43.0


From 7b033810c6042adbeaa74502527de75a34f4e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 48/56] fix: a field reaches its open range even if it left
 nothing for it

The size of an unpacked packet and the position after such a field did not
count the start of the open range when the closed ones before it held all of
the value, unlike packing.
---
 src/infi/instruct/buffer/reference/after_field.py | 4 +++-
 src/infi/instruct/buffer/reference/total_size.py  | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 99196ff..f50bfcd 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -21,7 +21,9 @@ class AfterFieldReference(Reference):
                 _, byte_size = self.field_ref.unpack_ref.deref(ctx)
                 position_list = self.field_ref.unpack_absolute_position_ref.unpack_position_ref.deref(ctx)
                 # Since we want the "highest" byte, we need to sort the ranges.
-                offset = position_list.sorted().byte_offset(byte_size)
+                position_list = position_list.sorted()
+                # The open range is the last one, and the field reaches it even if it left nothing for it.
+                offset = max(position_list.byte_offset(byte_size), position_list[-1].start)
             else:
                 offset = self.field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
         return offset
diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 9d251a4..7271ad3 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -40,6 +40,9 @@ class TotalSizeReference(Reference):
                 size -= used_size
                 if size == 0:
                     break
+            if field.unpack_absolute_position_ref.is_open(ctx):
+                # The field reaches its open range (the last one) even if it left nothing for it.
+                result = max(result, max(r.start for r in field.unpack_absolute_position_ref.deref(ctx)))
             return result
         else:
             return 0
-- 
2.43.0


From ca7b8b298f4f96bda040a38830b38a42f81b93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 49/56] fix: strings and floats at bit positions get a whole
 number of bytes

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 5f42e61..7ae0714 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -23,7 +23,7 @@ def kwargs_int_byte_size(kwargs):
     byte_size = kwargs.get("byte_size", None)
     assert byte_size is None or ((byte_size >= 0) and (int(byte_size) == byte_size)), \
         "size can be unknown (None) or a non-negative integer but instead got {0}".format(byte_size)
-    return byte_size
+    return None if byte_size is None else int(byte_size)
 
 
 def assert_enum_argument(name, value, enum):
-- 
2.43.0


From f3a09ed4171c012e794d7afb0e44da68d8a97b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 50/56] fix: a string in a list that ends inside its last byte
 is refused

---
 src/infi/instruct/buffer/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 7ae0714..a3d73e6 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -216,8 +216,8 @@ def unpack_str(buffer, **kwargs):
     padding = args['padding']
     strip = args['strip']
     byte_size = kwargs_int_byte_size(args)
-    if byte_size and len(buffer) < byte_size:
-        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, len(buffer)))
+    if byte_size and buffer.length() < byte_size:
+        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, buffer.length()))
 
     value = buffer[0:byte_size].to_bytes()
     length = len(value)
-- 
2.43.0


From 57119db322837a469aeeb3c31411eed398c40acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 51/56] fix: constructor arguments can be given when reading
 records with numeric fields

---
 src/infi/instruct/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index c7af8e3..f0c1e11 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -17,7 +17,7 @@ class NumericMarshal(FixedSizer, Marshal):
         self.type = type
         self.size = struct.calcsize(format_string)
 
-    def create_from_stream(self, stream, context=EMPTY_CONTEXT):
+    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         packed_value = stream.read(self.size)
         if len(packed_value) < self.size:
             raise NotEnoughDataError(expected=self.size, actually_read=len(packed_value))
-- 
2.43.0


From adf2fdd037e8b4e1082a802157c1e17bde1ca372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 52/56] fix: the size of a variable-size string is computed
 from its length's own size

---
 src/infi/instruct/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index c76ed2e..abfbb3e 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -57,7 +57,8 @@ class VarSizeStringMarshal(Marshal):
         return repr(obj)
 
     def sizeof(self, obj):
-        return self.size_marshal.sizeof(obj) + len(_strip(obj, self.padding_direction, self.padding))
+        stripped_size = len(_strip(obj, self.padding_direction, self.padding))
+        return self.size_marshal.sizeof(stripped_size) + stripped_size
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-- 
2.43.0


From d0e6977acaca5656335de8d3e69921355fae0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 53/56] fix: sizes of strings and arrays are bounded below even
 if their length marshal's size is not bounded

---
 src/infi/instruct/array.py  | 2 ++
 src/infi/instruct/string.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 3ee5a9d..d421c23 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -15,6 +15,8 @@ class ArrayBase(object):
         size_min_max = self.size_marshal.min_max_sizeof()
         if size_min_max.max == 0:  # the size isn't read from the stream (e.g. ReadPointer)
             return UNBOUNDED_MIN_MAX
+        if size_min_max.is_unbounded():
+            return MinMax(size_min_max.min)
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(size_min_max.min,
                       size_min_max.max + self._approx_max_elements_by_size_bits() * element_min_max.max)
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index abfbb3e..e2804cf 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -64,6 +64,8 @@ class VarSizeStringMarshal(Marshal):
         size_min_max = self.size_marshal.min_max_sizeof()
         if size_min_max.max == 0:  # the size isn't read from the stream (e.g. ReadPointer)
             return UNBOUNDED_MIN_MAX
+        if size_min_max.is_unbounded():
+            return MinMax(size_min_max.min)
         return MinMax(size_min_max.min, size_min_max.max + (1 << (size_min_max.max * 8)) - 1)
 
 class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
-- 
2.43.0


From 9f5cb9c2693e15fa98c8987ed4bbff4ed7730952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:03 +0000
Subject: [PATCH 54/56] fix: empty parts of a field's position overlap with
 nothing

---
 src/infi/instruct/buffer/range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 2a8b177..de58219 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -138,7 +138,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
         :returns: True if one or more range in the list overlaps with another
         :rtype: bool
         """
-        sorted_list = sorted(self)
+        sorted_list = sorted(r for r in self if r.is_open() or r.start < r.stop)  # empty ranges overlap with nothing
         for i in range(0, len(sorted_list) - 1):
             if sorted_list[i].overlaps(sorted_list[i + 1]):
                 return True
-- 
2.43.0


From c1dc6218a8367b43d77d765026409fd16f0782e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:47 +0000
Subject: [PATCH 55/56] fix: size of an unpacked packet counts empty parts of a
 position, and parts that the buffer does not have

---
 src/infi/instruct/buffer/reference/total_size.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 7271ad3..94b6a0a 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -33,13 +33,20 @@ class TotalSizeReference(Reference):
     def _unpack_position_list_for_field(self, ctx, field):
         if field.unpack_if.deref(ctx):
             _, size = field.unpack_ref.deref(ctx)
+            position_list = field.unpack_absolute_position_ref.deref(ctx)
             result = 0
-            for r in field.unpack_absolute_position_ref.deref(ctx):
+            given_size = ctx.input_buffer.get(position_list).length()
+            if size >= given_size and given_size < position_list.byte_length():
+                # The buffer ends inside the field's position: there's nothing after what the field has of it.
+                result = ctx.input_buffer.length()
+            used_up = False
+            for r in position_list:
+                if used_up and r.byte_length() > 0:
+                    continue
                 used_size = min(size, r.byte_length())
                 result = max(result, r.start + used_size)
                 size -= used_size
-                if size == 0:
-                    break
+                used_up = size == 0  # empty ranges that follow still count, as they do when packing
             if field.unpack_absolute_position_ref.is_open(ctx):
                 # The field reaches its open range (the last one) even if it left nothing for it.
                 result = max(result, max(r.start for r in field.unpack_absolute_position_ref.deref(ctx)))
-- 
2.43.0


From b1972a1f6489039b087a5b52187e650897293dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:13 +0000
Subject: [PATCH 56/56] fix: fields of a lazy container inside another lazy
 container are read with the outer one

---
 src/infi/instruct/struct/lazy.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 10793ba..cb4e609 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -10,15 +10,20 @@ from ..errors import NotEnoughDataError
 class LazyField(object):
     """
     Descriptor of a field inside a lazy container: makes sure the container is deserialized before the field is used.
+    If the container is itself in a lazy container, the outer one is deserialized first.
     """
-    def __init__(self, container, field):
+    def __init__(self, containers, field):
         super(LazyField, self).__init__()
-        self.container = container
+        self.containers = containers
         self.field = field
         self.name = field.name
 
+    def instantiate_if_needed(self, instance):
+        for container in self.containers:
+            container.instantiate_if_needed(instance)
+
     def __set__(self, instance, value):
-        self.container.instantiate_if_needed(instance)
+        self.instantiate_if_needed(instance)
         if isinstance(self.field, ConstField):
             self.field.__set__(instance, value)
         else:
@@ -27,7 +32,7 @@ class LazyField(object):
     def __get__(self, instance, owner):
         if instance is None:
             return self
-        self.container.instantiate_if_needed(instance)
+        self.instantiate_if_needed(instance)
         if isinstance(self.field, ConstField):
             return self.field.value
         if self.name not in instance.__dict__:
@@ -48,18 +53,18 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def prepare_class(self, cls):
         super(LazyFieldListContainer, self).prepare_class(cls)
-        for field in self._named_fields(self.fields):
-            setattr(cls, field.name, LazyField(self, field))
+        for containers, field in self._named_fields(self.fields, (self,)):
+            setattr(cls, field.name, LazyField(containers, field))
 
-    def _named_fields(self, fields):
+    def _named_fields(self, fields, containers):
         result = []
         for field in fields:
             if isinstance(field, LazyFieldListContainer):
-                continue  # a lazy container inside a lazy container takes care of its own fields
+                result.extend(self._named_fields(field.fields, containers + (field,)))
             elif isinstance(field, FieldListContainer):
-                result.extend(self._named_fields(field.fields))
+                result.extend(self._named_fields(field.fields, containers))
             elif isinstance(field, Field):
-                result.append(field)
+                result.append((containers, field))
         return result
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
-- 
2.43.0

