From f82a32da286dfac6468a4b96a6cb256e1b4f6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:32 +0000
Subject: [PATCH 01/74] fix: align optional fields in Python codec to their
 flag

An optional field is laid out as a 4-byte flag followed by the value, so it
is aligned to at least 4. The Python codec padded it only to the alignment
of the value, and used the bare value size when computing struct sizes.
---
 prophy/composite.py  |  8 ++++++--
 prophy/generators.py | 10 +++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index bcf498d..8f9d6e3 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -10,6 +10,10 @@ def distance_to_next_multiply(number, alignment):
     return (alignment - remainer) % alignment
 
 
+def field_alignment(type_):
+    return type_._OPTIONAL_ALIGNMENT if type_._OPTIONAL else type_._ALIGNMENT
+
+
 def field_to_string(name, type_, value):
     single_indent_level = " " * 2
 
@@ -60,7 +64,7 @@ class struct(_composite_base):
         data = b""
 
         for field in self._descriptor:
-            data += (self._get_padding(len(data), field.type._ALIGNMENT))
+            data += (self._get_padding(len(data), field_alignment(field.type)))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
             if field.type._PARTIAL_ALIGNMENT:
@@ -78,7 +82,7 @@ class struct(_composite_base):
         start_pos = pos
 
         for field in self._descriptor:
-            pos += self._get_padding_size(pos, field.type._ALIGNMENT)
+            pos += self._get_padding_size(pos, field_alignment(field.type))
             try:
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
diff --git a/prophy/generators.py b/prophy/generators.py
index 0b3f72c..72be8ce 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -1,7 +1,7 @@
 import collections
 
 from .base_array import base_array
-from .composite import codec_kind, distance_to_next_multiply, struct_packed
+from .composite import codec_kind, distance_to_next_multiply, field_alignment, struct_packed
 from .descriptor import DescriptorField
 from .exception import ProphyError
 from .scalar import u32
@@ -206,20 +206,20 @@ class struct_generator(_composite_generator_base):
         if not cls._descriptor:
             cls._ALIGNMENT = 1
         else:
-            cls._ALIGNMENT = max((t._OPTIONAL_ALIGNMENT if t._OPTIONAL else t._ALIGNMENT) for t in cls._types())
+            cls._ALIGNMENT = max(field_alignment(t) for t in cls._types())
 
         alignment = 1
         for type_ in reversed(list(cls._types())):
             if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
                 type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
-            alignment = max(type_._ALIGNMENT, alignment)
+            alignment = max(field_alignment(type_), alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
 
             def get_padded_sizes():
                 types = list(cls._types())
-                sizes = [tp._SIZE for tp in types]
-                alignments = [tp._ALIGNMENT for tp in types[1:]] + [cls._ALIGNMENT]
+                sizes = [tp._OPTIONAL_SIZE if tp._OPTIONAL else tp._SIZE for tp in types]
+                alignments = [field_alignment(tp) for tp in types[1:]] + [cls._ALIGNMENT]
                 offset = 0
 
                 for size, alignment in zip(sizes, alignments):
-- 
2.43.0


From 079ccc7692f7f0e1411853c45e57e108a1c071b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:14 +0000
Subject: [PATCH 02/74] fix: align block after nested dynamic struct in Python
 codec

Fields that follow a dynamic field start a new block aligned to its largest
member. That was applied only after dynamic arrays and bytes, not after a
nested dynamic struct. The alignment is kept per field, because the nested
type may be shared by several structs.
---
 prophy/composite.py  | 8 ++++----
 prophy/descriptor.py | 4 +++-
 prophy/generators.py | 9 ++++++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 8f9d6e3..b06d9bc 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -67,8 +67,8 @@ class struct(_composite_base):
             data += (self._get_padding(len(data), field_alignment(field.type)))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
-            if field.type._PARTIAL_ALIGNMENT:
-                data += self._get_padding(len(data), field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                data += self._get_padding(len(data), field.partial_alignment)
 
         data += self._get_padding(len(data), self._ALIGNMENT)
 
@@ -87,8 +87,8 @@ class struct(_composite_base):
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
                 raise ProphyError("{}: {}".format(self.__class__.__name__, e))
-            if field.type._PARTIAL_ALIGNMENT:
-                pos += self._get_padding_size(pos, field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                pos += self._get_padding_size(pos, field.partial_alignment)
 
         pos += self._get_padding_size(pos, self._ALIGNMENT)
 
diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index 250d631..979abe4 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -11,12 +11,14 @@ FieldDescriptor.__repr__ = lambda self: "<{}, {!r}, {!r}>".format(*self)
 
 class DescriptorField(renew.Mold):
     _cls_namespace = "prophy.descriptor"
-    _extra_slots = "encode_fcn", "decode_fcn"
+    _extra_slots = "encode_fcn", "decode_fcn", "partial_alignment"
 
     def __init__(self, name, type, discriminator=None):
         self.name = name
         self.type = type
         self.discriminator = discriminator
+        # Alignment of the block following dynamic field, set later in add_attributes
+        self.partial_alignment = None
         # These two are set later in extend_descriptor
         # their value don't affect __eq__ & __ne__ result
         self.encode_fcn = None
diff --git a/prophy/generators.py b/prophy/generators.py
index 72be8ce..89b1540 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -209,9 +209,12 @@ class struct_generator(_composite_generator_base):
             cls._ALIGNMENT = max(field_alignment(t) for t in cls._types())
 
         alignment = 1
-        for type_ in reversed(list(cls._types())):
-            if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
-                type_._PARTIAL_ALIGNMENT = alignment
+        for field in reversed(cls._descriptor):
+            type_ = field.type
+            if type_._DYNAMIC:
+                field.partial_alignment = alignment
+                if issubclass(type_, (base_array, bytes)):
+                    type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
             alignment = max(field_alignment(type_), alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
-- 
2.43.0


From 28e3c8e303816fca336918842d949c191963247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:25 +0000
Subject: [PATCH 03/74] fix: encode and print bytes fields that were never set

Reading an unset bytes field gives an empty native string, which cannot be
padded with or joined to bytes on Python 3 and is printed with a quote
missing.
---
 prophy/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index b06d9bc..8ac6f18 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -25,7 +25,7 @@ def field_to_string(name, type_, value):
     elif issubclass(type_, (struct, union)):
         return "%s {\n%s}\n" % (name, indent(str(value)))
     elif issubclass(type_, bytes):
-        return "%s: %s\n" % (name, repr_bytes(value))
+        return "%s: %s\n" % (name, repr_bytes(value or b""))
     elif issubclass(type_, enum):
         return "%s: %s\n" % (name, type_._int_to_name[value])
     else:
@@ -216,7 +216,7 @@ def bytes_(**kwargs):
 
         @staticmethod
         def _encode(value):
-            return value.ljust(size, b'\x00')
+            return (value or b"").ljust(size, b'\x00')
 
         @staticmethod
         def _decode(data, pos, len_hint):
-- 
2.43.0


From f1bcfea87b2141d678cce303f7299de74342147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:57 +0000
Subject: [PATCH 04/74] fix: decode optional enum without an enumerator equal
 to one

Decoding a present optional scalar first assigned True to the field, which
an enum with no enumerator of value 1 rejects.
---
 prophy/descriptor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index 979abe4..36aa51d 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -103,8 +103,9 @@ def decode_optional(parent, name, type_, data, pos, endianness, len_hints):
     value, _ = type_._optional_type._decode(data, pos, endianness)
     opt_alignment = type_._OPTIONAL_ALIGNMENT
     if value:
-        setattr(parent, name, True)
         sub_type = type_.__bases__[0]
+        if codec_kind.is_composite(sub_type):
+            setattr(parent, name, True)
         pos += opt_alignment
         return opt_alignment + type_._decode(parent, name, sub_type, data, pos, endianness, len_hints)
     else:
-- 
2.43.0


From bffa4843ce08cc8d36f9375071a463a5f86e8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:16 +0000
Subject: [PATCH 05/74] fix: compile C++ full unions with discriminators above
 2^31 - 1

The discriminator tag was a template over int, so a large discriminator
was an ill-formed narrowing conversion.
---
 prophy_cpp/include/prophy/detail/mpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/mpl.hpp b/prophy_cpp/include/prophy/detail/mpl.hpp
index 04bbe59..e30db51 100644
--- a/prophy_cpp/include/prophy/detail/mpl.hpp
+++ b/prophy_cpp/include/prophy/detail/mpl.hpp
@@ -1,6 +1,8 @@
 #ifndef _PROPHY_DETAIL_MPL_HPP
 #define _PROPHY_DETAIL_MPL_HPP
 
+#include <stdint.h>
+
 namespace prophy
 {
 namespace detail
@@ -17,7 +19,7 @@ struct is_class_or_union
     static const bool value = sizeof(is_class_or_union_tester<T>(0)) == sizeof(char);
 };
 
-template <int I>
+template <uint32_t I>
 struct int2type
 {
     enum { value = I };
-- 
2.43.0


From 24b24174294280ce0fe04e27e830b8e6aa059757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:13 +0000
Subject: [PATCH 06/74] fix: pad dynamic struct ending in an optional to its
 alignment

An optional's size need not be a multiple of its alignment, so a struct
with a dynamic field and an optional last has to be aligned at the end
even if the optional has the alignment of the whole struct.
---
 prophyc/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 08234b8..a41ba80 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -577,7 +577,8 @@ def evaluate_sizes(nodes, warn=null_warn):
             padding = (alignment - byte_size % alignment) % alignment
             byte_size += padding
             if any(is_member_dynamic(m) for m in node_.members):
-                prev_member.padding = (node_.members[-1].alignment < alignment) and (-alignment) or 0
+                ends_aligned = prev_member.alignment == alignment and prev_member.byte_size % alignment == 0
+                prev_member.padding = 0 if ends_aligned else -alignment
             else:
                 prev_member.padding = padding
         node_.byte_size, node_.alignment = byte_size, alignment
-- 
2.43.0


From a6d7a893d282353c9713703d8aa9d8cccafbe7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:25 +0000
Subject: [PATCH 07/74] fix: count last fixed member of a dynamic struct in
 get_byte_size

Negative padding denotes dynamic alignment and must not be subtracted
from the size, else the vector encoder allocates too little.
---
 prophyc/generators/cpp_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 7462e4f..492798d 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -437,7 +437,7 @@ def generate_struct_get_byte_size(node):
             if m.is_dynamic or m.greedy:
                 elems += ['{0}.size() * {1}'.format(m.name, _get_byte_size(m))]
             else:
-                bytes_ += m.byte_size + m.padding
+                bytes_ += m.byte_size + max(m.padding, 0)
         else:
             if m.is_dynamic or m.greedy:
                 elems += [
-- 
2.43.0


From b21ab7142ea23620f2f7822271b548e54cae40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:52 +0000
Subject: [PATCH 08/74] fix: align C++ full optionals of types with limited
 arrays as on the wire

Alignment of such types is that of std::vector, which exceeds the wire
alignment, so the flag was padded too much.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 12 +++++++++---
 prophy_cpp/include/prophy/detail/encoder.hpp | 12 +++++++++---
 prophyc/generators/cpp_full.py               | 15 +++++++++++++--
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 63120de..8f3e98e 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -322,7 +322,7 @@ inline bool do_decode(T* x, size_t n, const uint8_t*& pos, const uint8_t* end)
     return decoder<E, T>::decode(x, n, pos, end);
 }
 
-template <endianness E, typename T>
+template <endianness E, size_t A, typename T>
 inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
 {
     uint32_t disc;
@@ -331,9 +331,9 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
         return false;
     }
     x = disc ? optional<T>(T()) : optional<T>();
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (A > sizeof(uint32_t))
     {
-        if (!do_decode_advance(alignment<T>::value - sizeof(uint32_t), pos, end))
+        if (!do_decode_advance(A - sizeof(uint32_t), pos, end))
         {
             return false;
         }
@@ -346,6 +346,12 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     return true;
 }
 
+template <endianness E, typename T>
+inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
+{
+    return do_decode<E, alignment<T>::value>(x, pos, end);
+}
+
 template <endianness E, typename T>
 inline bool do_decode_in_place(T& x, const uint8_t* pos, const uint8_t* end)
 {
diff --git a/prophy_cpp/include/prophy/detail/encoder.hpp b/prophy_cpp/include/prophy/detail/encoder.hpp
index 73fd7df..f295f3d 100644
--- a/prophy_cpp/include/prophy/detail/encoder.hpp
+++ b/prophy_cpp/include/prophy/detail/encoder.hpp
@@ -237,13 +237,13 @@ inline uint8_t* do_encode(uint8_t* data, const T* x, size_t n)
     return encoder<E, T>::encode(data, x, n);
 }
 
-template <endianness E, typename T>
+template <endianness E, size_t A, typename T>
 inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
 {
     data = do_encode<E>(data, uint32_t(bool(x)));
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (A > sizeof(uint32_t))
     {
-        data = data + alignment<T>::value - sizeof(uint32_t);
+        data = data + A - sizeof(uint32_t);
     }
     if (x)
     {
@@ -252,6 +252,12 @@ inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
     return data + codec_traits<T>::size;
 }
 
+template <endianness E, typename T>
+inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
+{
+    return do_encode<E, alignment<T>::value>(data, x);
+}
+
 } // namespace detail
 } // namespace prophy
 
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 492798d..6f72eb4 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -58,6 +58,17 @@ def _get_byte_size(node):
         return node.byte_size
 
 
+def _holds_vector(node):
+    """Tells if C++ type of the node has vectors in it, which align it regardless of wire alignment."""
+    return any(getattr(m, 'is_limited', False) or _holds_vector(_get_leaf(m))
+               for m in getattr(_get_leaf(node), 'members', ()))
+
+
+def _get_optional_params(m):
+    """Gets codec template params of optional, with explicit alignment if it cannot be taken from C++ type."""
+    return _holds_vector(m) and 'E, {0}'.format(m.byte_size - _get_byte_size(m)) or 'E'
+
+
 def _get_cpp_builtin_type(node):
     """Gets C++ float or int type from stdint.h, or throws miserably."""
     return BUILTIN2C[_get_leaf(node).type_name]
@@ -347,7 +358,7 @@ def generate_struct_encode(node):
         elif m.greedy:
             text += 'pos = do_encode<E>(pos, x.{0}.data(), x.{0}.size());\n'.format(m.name)
         elif m.optional:
-            text += 'pos = do_encode<E>(pos, x.{0});\n'.format(m.name)
+            text += 'pos = do_encode<{1}>(pos, x.{0});\n'.format(m.name, _get_optional_params(m))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
@@ -382,7 +393,7 @@ def generate_struct_decode(node):
         elif m.greedy:
             text.append('do_decode_greedy<E>(x.{0}, pos, end)'.format(m.name))
         elif m.optional:
-            text.append('do_decode<E>(x.{0}, pos, end)'.format(m.name))
+            text.append('do_decode<{1}>(x.{0}, pos, end)'.format(m.name, _get_optional_params(m)))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
-- 
2.43.0


From 47a733fc1bd614d7e6549f9fc2a086609693bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:41 +0000
Subject: [PATCH 09/74] fix: check bounds when C++ full decoder skips an unset
 optional

The cursor could run past the end of input, after which the remaining
length wrapped and later members were read out of bounds.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 8f3e98e..be32c1c 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -342,8 +342,7 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     {
         return decoder<E, T>::decode(*x, pos, end);
     }
-    pos = pos + codec_traits<T>::size;
-    return true;
+    return do_decode_advance(codec_traits<T>::size, pos, end);
 }
 
 template <endianness E, typename T>
-- 
2.43.0


From c084fffa51a0d596d258d71062e7d15f73cad7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:41 +0000
Subject: [PATCH 10/74] fix: bound C++ full vectors by input size before
 resizing

Counters come from the input, so a few bytes could request gigabytes of
memory or make resize throw.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index be32c1c..518a719 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -377,7 +377,13 @@ inline bool do_decode_resize(std::vector<T>& v, const uint8_t*& pos, const uint8
     {
         return false;
     }
-    if (n > max)
+    if (size_t(n) > max)
+    {
+        return false;
+    }
+    // elements have to fit in remaining input, the first one missing fails at its own decoding
+    const size_t min_size = (codec_traits<T>::size == -1) ? 1 : codec_traits<T>::size;
+    if (size_t(n) > size_t(end - pos) / min_size + 1)
     {
         return false;
     }
-- 
2.43.0


From b922e2ef00724b4f1b1f941f168770130bbc538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:41 +0000
Subject: [PATCH 11/74] fix: do not consume a broken last element of a C++ full
 greedy array

The cursor stayed in the middle of the dropped element, so an input with
a damaged tail could be accepted as if fully read.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 518a719..17a0a37 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -278,12 +278,14 @@ struct decoder_greedy<E, T, true>
         v.resize(0);
         while(true)
         {
+            const uint8_t* elem = pos;
             v.push_back(T());
-            if (!decoder<E, T>::decode(v.back(), pos, end))
+            if (!decoder<E, T>::decode(v.back(), elem, end))
             {
                 v.pop_back();
                 return true;
             }
+            pos = elem;
         }
     }
 };
-- 
2.43.0


From 6c9633f2aa7cbbd87f6139220e220aa7cd65478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:51 +0000
Subject: [PATCH 12/74] fix: print integers in decimal after escaped bytes in
 C++ full codec

Escaping a byte left the stream in hexadecimal mode.
---
 prophy_cpp/include/prophy/detail/printer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index f5aaf4e..4c00270 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -39,7 +39,7 @@ inline void print_byte(std::ostream& out, uint8_t x)
         out << "\\x";
         out.width(2);
         out.fill('0');
-        out << std::hex << unsigned(x);
+        out << std::hex << unsigned(x) << std::dec;
     }
 }
 
-- 
2.43.0


From 9361744e2dd30b42c7e01f88cd226f79e9838058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:51 +0000
Subject: [PATCH 13/74] fix: escape single quote in bytes printed by C++ full
 codec

Bytes are printed in single quotes, and Python str() escapes it too.
---
 prophy_cpp/include/prophy/detail/printer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index 4c00270..430dab6 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -28,6 +28,7 @@ inline void print_byte(std::ostream& out, uint8_t x)
         case 9: out << "\\t"; return;
         case 10: out << "\\n"; return;
         case 13: out << "\\r"; return;
+        case 39: out << "\\'"; return;
         case 92: out << "\\\\"; return;
     }
     if ((x >= 32) && (x <= 126))
-- 
2.43.0


From b7a225dd143a735bb5de0deeb136bf0f94c9fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:55 +0000
Subject: [PATCH 14/74] fix: pad raw C++ optionals of types aligned to eight
 bytes

The value of an optional starts at its own alignment on the wire, but the
packed raw struct placed it right after the four byte flag.
---
 prophyc/generators/cpp.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 7593f21..cc81bf2 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -28,6 +28,14 @@ def _to_literal(value):
         return value
 
 
+def _get_byte_size(node):
+    while getattr(node, 'definition', None):
+        node = node.definition
+    if isinstance(node, model.Enum):
+        return model.ENUM_SIZE
+    return model.BUILTIN_SIZES[node.type_name] if isinstance(node, model.Typedef) else node.byte_size
+
+
 class _Padder(object):
     PADDINGS = (
         (1, 'uint8_t'),
@@ -121,7 +129,10 @@ class _HppDefinitionsTranslator(TranslatorBase):
             else:
                 field = '{0} {1};\n'.format(typename, member.name)
             if member.optional:
-                field = 'prophy::bool_t has_{0};\n'.format(member.name) + field
+                flag = 'prophy::bool_t has_{0};\n'.format(member.name)
+                if member.byte_size - _get_byte_size(member) > model.DISC_SIZE:
+                    flag += padder.generate_padding(4)
+                field = flag + field
             if member.padding is not None and member.padding > 0:
                 field += padder.generate_padding(member.padding)
             return field
-- 
2.43.0


From 22b0703cb95b84ba56ffd5e5a7ba1064696d07cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:27 +0000
Subject: [PATCH 15/74] fix: keep struct unlimited when it also has a dynamic
 array

A struct with a dynamic array and a last member of unlimited type was
classified as dynamic, so it was accepted in the middle of other structs.
---
 prophyc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index a41ba80..9df65d2 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -334,10 +334,10 @@ class _SerializableContainer(_Container, _Serializable):
 
                 if self.members[-1].greedy:
                     self.kind = Kind.UNLIMITED
-                elif any(x.is_dynamic for x in self.members):
-                    self.kind = Kind.DYNAMIC
                 else:
                     self.kind = max(x.kind for x in self.members)
+                    if any(x.is_dynamic for x in self.members):
+                        self.kind = max(self.kind, Kind.DYNAMIC)
 
 
 class Struct(_SerializableContainer):
-- 
2.43.0


From 2063569472efd9e966552099fec53fa4a5e91a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:20 +0000
Subject: [PATCH 16/74] fix: return unaligned address of unlimited member from
 raw C++ swap

Swap of a struct ending in a greedy array or an unlimited struct returns the
address of that member. The pointer was rounded up to the alignment of the
struct, past the place where the member starts.
---
 prophyc/generators/cpp.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index cc81bf2..c0292fb 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -290,9 +290,18 @@ class _CppSwapTranslator(TranslatorBase):
                     preamble = ''
                 return preamble + 'swap({0})'.format(_member_access_statement(member))
 
-        def gen_last_member(name, last_mem, delimiters=[]):
+        def gen_cast(members, alignment, start_alignment):
+            """Unlimited last member stays where it is, cast would align pointer to it."""
+            is_unlimited = members[-1].kind == model.Kind.UNLIMITED or members[-1].greedy
+            offset = sum(mem.byte_size + mem.padding for mem in members[:-1])
+            is_aligned = start_alignment == alignment and offset % alignment == 0
+            return 'reinterpret_cast' if is_unlimited and not is_aligned else 'cast'
+
+        def gen_last_member(name, members, alignment, delimiters=[]):
+            last_mem = members[-1]
             if last_mem.kind == model.Kind.UNLIMITED or last_mem.greedy:
-                return 'return cast<{0}*>({1});\n'.format(
+                return 'return {0}<{1}*>({2});\n'.format(
+                    gen_cast(members, alignment, alignment),
                     name,
                     _member_access_statement(last_mem)
                 )
@@ -327,9 +336,10 @@ class _CppSwapTranslator(TranslatorBase):
                         i + 2,
                         'swap(part{0}{1})'.format(i + 1, gen_missing(i - 1)) if i else gen_member(main[-1])
                     )
-                members += 'return cast<{0}*>(swap(part{1}{2}));\n'.format(struct.name, i + 2, gen_missing(i))
+                members += 'return {0}<{1}*>(swap(part{2}{3}));\n'.format(
+                    gen_cast(part, struct.alignment, part[0].alignment), struct.name, i + 2, gen_missing(i))
             elif main:
-                members += gen_last_member(struct.name, main[-1])
+                members += gen_last_member(struct.name, main, struct.alignment)
             else:
                 members += 'return payload + 1;\n'
             return STRUCT_SWAP_MAIN_TEMPLATE.format(name=struct.name, members=_indent(members, 4))
@@ -338,7 +348,8 @@ class _CppSwapTranslator(TranslatorBase):
             names = [mem.name for mem in part]
             delimiters = [mem.bound for mem in part if mem.bound and mem.bound not in names]
             members = ''.join(gen_member(mem, delimiters) + ';\n' for mem in part[:-1])
-            members += gen_last_member('{0}::part{1}'.format(struct.name, part_number), part[-1], delimiters)
+            members += gen_last_member('{0}::part{1}'.format(struct.name, part_number), part,
+                                       part[0].alignment, delimiters)
             delimiters_list = ''.join(', size_t {0}'.format(x) for x in delimiters)
             return STRUCT_SWAP_PART_TEMPLATE.format(name=struct.name, number=part_number, members=_indent(members, 4),
                                                     delimiters=delimiters_list)
-- 
2.43.0


From e4fc2323f114197bb3fd200837f8117d28bb165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:58 +0000
Subject: [PATCH 17/74] fix: classify isar typedefs of dynamic and unlimited
 structs

Isar typedefs get their definition after construction, and their kind was
never evaluated again.
---
 prophyc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 9df65d2..3b62e7d 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -492,9 +492,9 @@ def to_int(x, constants):
 
 
 def evaluate_stiffness_kinds(nodes):
-    """Adds kind to all Structs and StructMembers. Requires cross referenced nodes."""
+    """Adds kind to all Typedefs, Structs and StructMembers. Requires cross referenced nodes."""
     for node in nodes:
-        if isinstance(node, Struct):
+        if isinstance(node, (Typedef, Struct)):
             node.calc_wire_stiffness()
 
 
-- 
2.43.0


From ea29a7f2b6beb0939e204018261a268b41bd67a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:01 +0000
Subject: [PATCH 18/74] fix: reject greedy tail not ending at struct boundary
 in Python codec

Decoder accepted unlimited messages without the trailing padding that
encoder adds. Such message decoded from its own encoding gained elements or
could not be decoded at all.
---
 prophy/composite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophy/composite.py b/prophy/composite.py
index 8ac6f18..8472a56 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -94,6 +94,8 @@ class struct(_composite_base):
 
         if terminal and pos < len(data):
             raise ProphyError("not all bytes of {} read".format(self.__class__.__name__))
+        if self._UNLIMITED and pos > len(data):
+            raise ProphyError("too few bytes to decode {}".format(self.__class__.__name__))
 
         return pos - start_pos
 
@@ -231,6 +233,8 @@ def bytes_(**kwargs):
                     raise ProphyError("too few bytes to decode string")
                 return data[pos:(pos + len_hint)], len_hint
             else:  # greedy
+                if len(data) < pos:
+                    raise ProphyError("too few bytes to decode string")
                 return data[pos:], (len(data) - pos)
 
     return _bytes
-- 
2.43.0


From 7a9b9961c3f82df1f627d4c6213b40af825b2d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:04 +0000
Subject: [PATCH 19/74] fix: evaluate the iterable given to array extend before
 changing the array

A bad element in the middle left the earlier ones in the array, an array
extended with itself never finished, and iterators were refused by limited
arrays because they have no length.
---
 prophy/container.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prophy/container.py b/prophy/container.py
index 8811bd4..a907faa 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -87,9 +87,10 @@ class bound_scalar_array(base_array):
     def extend(self, values):
         if not values:
             return
+        values = list(map(self._TYPE._check, values))
         if self._max_len and len(self) + len(values) > self._max_len:
             raise ProphyError("exceeded array limit")
-        self._values.extend(map(self._TYPE._check, values))
+        self._values.extend(values)
 
     def remove(self, elem):
         self._values.remove(elem)
@@ -166,14 +167,17 @@ class bound_composite_array(base_array):
         return new_element
 
     def extend(self, elem_seq):
+        elem_seq = list(elem_seq)
         if self._max_len and len(self) + len(elem_seq) > self._max_len:
             raise ProphyError("exceeded array limit")
 
         composite_cls = self._TYPE
+        new_elements = []
         for message in elem_seq:
             new_element = composite_cls()
             new_element.copy_from(message)
-            self._values.append(new_element)
+            new_elements.append(new_element)
+        self._values.extend(new_elements)
 
     def __delitem__(self, idx):
         del self._values[idx]
-- 
2.43.0


From 54ee664e35c165831ab5e3b7cc27f9988a0c14ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:23 +0000
Subject: [PATCH 20/74] fix: assign array slices with a step or from an
 iterator like a list does

The step was dropped, so x[::2] = values replaced the whole array, and a
generator was refused because it has no length.
---
 prophy/container.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/prophy/container.py b/prophy/container.py
index a907faa..879759f 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -36,6 +36,10 @@ def composite_array_eq(self, other):
     return self._values == other._values
 
 
+def list_of(values):
+    return list(values) if hasattr(values, "__iter__") else values
+
+
 class fixed_scalar_array(base_array):
     __slots__ = []
 
@@ -45,15 +49,19 @@ class fixed_scalar_array(base_array):
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            self._set_slice(idx, value)
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if len(self._values[start:stop]) != len(values):
+        self._set_slice(slice(start, stop), values)
+
+    def _set_slice(self, idx, values):
+        values = list_of(values)
+        if len(self._values[idx]) != len(values):
             raise ProphyError("setting slice with different length collection")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self._values[idx] = list(map(self._TYPE._check, values))
 
     def __eq__(self, other):
         return scalar_array_eq(self, other)
@@ -97,15 +105,19 @@ class bound_scalar_array(base_array):
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            self._set_slice(idx, value)
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if self._max_len and len(self) + len(values) - len(self._values[start:stop]) > self._max_len:
+        self._set_slice(slice(start, stop), values)
+
+    def _set_slice(self, idx, values):
+        values = list_of(values)
+        if self._max_len and len(self) + len(values) - len(self._values[idx]) > self._max_len:
             raise ProphyError("exceeded array limit")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self._values[idx] = list(map(self._TYPE._check, values))
 
     def __delitem__(self, idx):
         del self._values[idx]
-- 
2.43.0


From 2e22429e0440cdd1d2bb3e411209db22905304dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:24 +0000
Subject: [PATCH 21/74] fix: do not leave an element behind when add() refuses
 its attributes

---
 prophy/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy/container.py b/prophy/container.py
index 879759f..f47a37e 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -169,13 +169,13 @@ class bound_composite_array(base_array):
             raise ProphyError("exceeded array limit")
 
         new_element = self._TYPE()
-        self._values.append(new_element)
         for name, value in attributes.items():
             attr = getattr(new_element, name)
             if isinstance(attr, base_array):
                 attr[:] = value
             else:
                 setattr(new_element, name, value)
+        self._values.append(new_element)
         return new_element
 
     def extend(self, elem_seq):
-- 
2.43.0


From 70509e23b3b039b45c43f9f5e99e59ec4a536709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:43 +0000
Subject: [PATCH 22/74] fix: refuse numbers too large for a float field when
 they are assigned

They used to be accepted and raised OverflowError from encode().
---
 prophy/scalar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophy/scalar.py b/prophy/scalar.py
index afd157a..d74635c 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -65,6 +65,10 @@ def float_decorator(size, id_):
         def check(value):
             if not isinstance(value, (float, int, long)):
                 raise ProphyError("not a float")
+            try:
+                struct.pack('<' + id_, value)
+            except (OverflowError, struct.error):
+                raise ProphyError("value out of {}B float's bounds".format(size))
             return value
 
         cls._check = check
-- 
2.43.0


From 033580b18b1031e5fb631e734f9fb08983b2b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:30 +0000
Subject: [PATCH 23/74] fix: limit arrays and bytes to what their sizer can
 count

An array longer than the maximum of its sizer type used to be accepted and
raised struct.error from encode().
---
 prophy/composite.py  | 3 ++-
 prophy/generators.py | 3 +++
 prophy/scalar.py     | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 8472a56..6ec1e87 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -195,6 +195,7 @@ def bytes_(**kwargs):
         raise ProphyError("unknown arguments to bytes field")
 
     class _bytes(bytes):
+        _max_len = size
         _SIZE = size
         _DYNAMIC = not size
         _UNLIMITED = not size and not bound
@@ -210,7 +211,7 @@ def bytes_(**kwargs):
         def _check(value):
             if not isinstance(value, bytes):
                 raise ProphyError("not a bytes")
-            if size and len(value) > size:
+            if _bytes._max_len and len(value) > _bytes._max_len:
                 raise ProphyError("too long")
             if size and not bound:
                 return value.ljust(size, b'\x00')
diff --git a/prophy/generators.py b/prophy/generators.py
index 89b1540..42adca4 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -318,6 +318,9 @@ class struct_generator(_composite_generator_base):
             sizer_item.evaluate_codecs()
             delattr(cls, sizer_item.name)
 
+        countable = sizer_item.type._MAX - bound_shift
+        container_item.type._max_len = min(container_item.type._max_len or countable, countable)
+
     def validate_and_fix_sizer_name(cls, container_item):
         sizer_name = container_item.type._BOUND
         items_before_sizer = cls._descriptor[:cls._descriptor.index(container_item)]
diff --git a/prophy/scalar.py b/prophy/scalar.py
index d74635c..8cc4251 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -51,6 +51,7 @@ def int_decorator(size, id_, min_, max_):
         cls._check = check
 
         cls._DEFAULT = 0
+        cls._MAX = max_
 
         return cls
 
-- 
2.43.0


From 5a251222ce6a2fb95927cf4d1c91b096a5273238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:43 +0000
Subject: [PATCH 24/74] fix: copy elements of limited composite arrays in
 copy_from

---
 prophy/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 6ec1e87..ed0c713 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -107,7 +107,7 @@ class struct(_composite_base):
         lhs = getattr(self, name)
         if isinstance(rhs, base_array):
             if codec_kind.is_composite(rhs._TYPE):
-                if rhs._DYNAMIC:
+                if rhs._DYNAMIC or rhs._BOUND:
                     del lhs[:]
                     lhs.extend(rhs[:])
                 else:
-- 
2.43.0


From f0b759cd7d0ba4c385ac2b1033034be25883b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:43 +0000
Subject: [PATCH 25/74] fix: copy optional composites that are set only in the
 source of copy_from

---
 prophy/composite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prophy/composite.py b/prophy/composite.py
index ed0c713..79995c1 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -116,6 +116,9 @@ class struct(_composite_base):
             else:
                 lhs[:] = rhs[:]
         elif codec_kind.is_composite(type(rhs)):
+            if lhs is None:
+                setattr(self, name, True)
+                lhs = getattr(self, name)
             lhs.copy_from(rhs)
         else:
             self._fields[name] = rhs
-- 
2.43.0


From c2bb423b2a3f1b5d10a67911fcc37e410c18fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:44 +0000
Subject: [PATCH 26/74] fix: let copy_from fill an optional composite from a
 message of its type

---
 prophy/composite_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy/composite_base.py b/prophy/composite_base.py
index 7f129d4..717cdb5 100644
--- a/prophy/composite_base.py
+++ b/prophy/composite_base.py
@@ -14,7 +14,7 @@ class _composite_base(prophy_data_object):
 
     @classmethod
     def validate_copy_from(cls, rhs):
-        if not isinstance(rhs, cls):
+        if not isinstance(rhs, cls.__bases__[0] if cls._OPTIONAL else cls):
             raise TypeError("Parameter to copy_from must be instance of same class.")
 
     def _copy_implementation(self, other):
-- 
2.43.0


From feb1a4acf025770a7d51a31461b519088fa1d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:50 +0000
Subject: [PATCH 27/74] fix: divide integers in constant expressions

The '/' operator produced floats, which crashed the parser or ended up as
floating point constants and array sizes.
---
 prophyc/calc.py           | 2 +-
 prophyc/parsers/prophy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 5b554c6..0e03b45 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -74,7 +74,7 @@ class Calc(object):
         elif p[2] == '*':
             p[0] = p[1] * p[3]
         elif p[2] == '/':
-            p[0] = p[1] / p[3]
+            p[0] = p[1] // p[3]
         elif p[2] == '<<':
             p[0] = p[1] << p[3]
         elif p[2] == '>>':
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 0ab25ad..dbc6505 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -415,7 +415,7 @@ class Parser(object):
             elif t[2] == '*':
                 t[0] = t[1] * t[3]
             elif t[2] == '/':
-                t[0] = t[1] / t[3]
+                t[0] = t[1] // t[3]
             elif t[2] == '<<':
                 t[0] = t[1] << t[3]
             elif t[2] == '>>':
-- 
2.43.0


From 75b585dc7ed4aef2dd3466c7c555ff55e5fd785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:52 +0000
Subject: [PATCH 28/74] fix: sort definitions by all names used in their
 expressions

Constants multiplied, divided or shifted, enumerators, array sizes and
discriminators were left out, so definitions could come before the ones
they refer to.
---
 prophyc/model.py | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 3b62e7d..481b1a8 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -1,3 +1,4 @@
+import re
 from itertools import islice
 
 import renew
@@ -98,12 +99,7 @@ class Constant(ModelNode):
                 return None
 
     def dependencies(self):
-        def sub_(x, y):
-            return x.replace(y, " ")
-
-        for symbol in six.reduce(sub_, "()+-", self.value).split():
-            if not symbol.isdigit():
-                yield symbol
+        return _get_symbols(self.value)
 
 
 class EnumMember(Constant):
@@ -205,6 +201,11 @@ class StructMember(Typedef):
     def is_dynamic(self):
         return self.bound and not self.size
 
+    def dependencies(self):
+        yield self.type_name
+        for symbol in _get_symbols(self.size):
+            yield symbol
+
     def __str__(self):
         return self.schema_repr()
 
@@ -232,6 +233,11 @@ class UnionMember(Typedef):
         super(UnionMember, self).__init__(name, type_name, definition, docstring)
         self.discriminator = discriminator
 
+    def dependencies(self):
+        yield self.type_name
+        for symbol in _get_symbols(self.discriminator):
+            yield symbol
+
 
 """ Composite kinds """
 
@@ -316,8 +322,10 @@ class Enum(_Container):
     __slots__ = ()
 
     def dependencies(self):
-        for member in self.members:
-            yield member.name
+        own_names = set(member.name for member in self.members)
+        for symbol in super(Enum, self).dependencies():
+            if symbol not in own_names:
+                yield symbol
 
 
 class _SerializableContainer(_Container, _Serializable):
@@ -364,6 +372,11 @@ def _check_string(docstring, what_):
     return six.decode_string(docstring)
 
 
+def _get_symbols(expression):
+    """ Names used in an expression, which may be given as a number too. """
+    return re.findall(r"\b[a-zA-Z_]\w*", str(expression or ""))
+
+
 def split_after(nodes, predicate):
     part = []
     for x in nodes:
@@ -385,9 +398,15 @@ def null_warn(_):
 def topological_sort(nodes):
     """Sorts nodes."""
 
+    def get_defined_names(node):
+        yield node.name
+        if isinstance(node, Enum):
+            for member in node.members:
+                yield member.name
+
     def find_first_dep(dependency, start_index):
         for i, n in enumerate(islice(nodes, start_index, None), start_index):
-            if n.name == dependency:
+            if dependency in get_defined_names(n):
                 return i
 
     def model_sort_rotate():
@@ -398,10 +417,10 @@ def topological_sort(nodes):
                 if found_index:
                     nodes.insert(index, nodes.pop(found_index))
                 return True
-        known.add(node.name)
+        known.update(get_defined_names(node))
 
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
-    available = set(node.name for node in nodes)
+    available = set(name for node in nodes for name in get_defined_names(node))
     for index in range(len(nodes)):
         while model_sort_rotate():
             pass
-- 
2.43.0


From 650eadf2c883cadc7fe2763589e0ada637256b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:29 +0000
Subject: [PATCH 29/74] fix: report recursive definitions

Sorting nodes never ended when isar or sack types referred to themselves,
directly or through each other.
---
 prophyc/__init__.py |  2 ++
 prophyc/model.py    | 48 +++++++++++++++++++++++++++------------------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 56f4753..a7c3e00 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -160,3 +160,5 @@ def error_on_exception(emit):
         yield
     except model.ParseError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
+    except model.ModelError as e:
+        emit.error(str(e))
diff --git a/prophyc/model.py b/prophyc/model.py
index 481b1a8..05448ce 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -1,5 +1,4 @@
 import re
-from itertools import islice
 
 import renew
 
@@ -399,31 +398,42 @@ def topological_sort(nodes):
     """Sorts nodes."""
 
     def get_defined_names(node):
-        yield node.name
+        if not isinstance(node, Include):
+            yield node.name
         if isinstance(node, Enum):
             for member in node.members:
                 yield member.name
 
-    def find_first_dep(dependency, start_index):
-        for i, n in enumerate(islice(nodes, start_index, None), start_index):
-            if dependency in get_defined_names(n):
-                return i
-
-    def model_sort_rotate():
-        node = nodes[index]
+    def get_missing_dependency(node):
         for dep in node.dependencies():
-            if dep not in known and dep in available:
-                found_index = find_first_dep(dep, index + 1)
-                if found_index:
-                    nodes.insert(index, nodes.pop(found_index))
-                return True
-        known.update(get_defined_names(node))
+            if dep not in known and dep in definitions:
+                return definitions[dep]
+
+    def place(node):
+        pending = [node]
+        while pending:
+            missing = get_missing_dependency(pending[-1])
+            if any(missing is x for x in pending):
+                raise ModelError("'%s' is defined recursively." % missing.name)
+            if missing is not None:
+                pending.append(missing)
+            else:
+                known.update(get_defined_names(pending[-1]))
+                placed_ids.add(id(pending[-1]))
+                placed.append(pending.pop())
 
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
-    available = set(name for node in nodes for name in get_defined_names(node))
-    for index in range(len(nodes)):
-        while model_sort_rotate():
-            pass
+    definitions = {}
+    for node_ in nodes:
+        for name in get_defined_names(node_):
+            definitions.setdefault(name, node_)
+
+    placed = []
+    placed_ids = set()
+    for node_ in nodes:
+        if id(node_) not in placed_ids:
+            place(node_)
+    nodes[:] = placed
 
 
 def _make_types_index(nodes_):
-- 
2.43.0


From d351d1d6ff7bc00aa500285746537164b65bca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:06 +0000
Subject: [PATCH 30/74] fix: hand numbers instead of isar expressions to
 back-ends

Python and C++ evaluated the text by their own precedence and division
rules, or did not know names of enumerators defined in other files.
---
 prophyc/model.py | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 05448ce..aefa11e 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -105,6 +105,10 @@ class EnumMember(Constant):
     _str_pattern = "{s.name} = {s.value!r};"
     __slots__ = ()
 
+    def eval_int(self, all_constants):
+        value = super(EnumMember, self).eval_int(all_constants)
+        return value + 2 ** (8 * ENUM_SIZE) if value and value < 0 else value
+
 
 class _Serializable(ModelNode):
     _cls_make_slots = False
@@ -520,6 +524,42 @@ def to_int(x, constants):
         return val if val is not None else calc.eval(x, constants)
 
 
+def evaluate_expressions(nodes, constants):
+    """
+    Replaces expressions with numbers, because languages of back-ends would evaluate them by rules of their own.
+    Requires cross referenced nodes. Array sizes given by names of constants stay as they are.
+    """
+    constant_names = set(name for name, node in _make_types_index(nodes) if isinstance(node, Constant))
+
+    def evaluate(expression):
+        expression = str(expression)
+        try:
+            int(expression, 0)
+            return expression
+        except ValueError:
+            pass
+        try:
+            return str(to_int(expression, constants))
+        except calc.ParseError:
+            return expression
+
+    for node in nodes:
+        if isinstance(node, Constant):
+            node._value = evaluate(node.value)
+        elif isinstance(node, Enum):
+            for member in node.members:
+                member._value = evaluate(member.value)
+                if member.value.startswith("-") and member.eval_int(constants) is not None:
+                    member._value = str(member.eval_int(constants))
+        elif isinstance(node, Struct):
+            for member in node.members:
+                if member.size and member.size not in constant_names:
+                    member.size = evaluate(member.size)
+        elif isinstance(node, Union):
+            for member in node.members:
+                member.discriminator = evaluate(member.discriminator)
+
+
 def evaluate_stiffness_kinds(nodes):
     """Adds kind to all Typedefs, Structs and StructMembers. Requires cross referenced nodes."""
     for node in nodes:
@@ -666,5 +706,6 @@ class ModelParser(object):
         nodes = self.parser.parse(*parse_args)
         if self.patcher:
             self.patcher(nodes)
-        nodes, _ = evaluate_model(nodes, self.emit.warn)
+        nodes, constants = evaluate_model(nodes, self.emit.warn)
+        evaluate_expressions(nodes, constants)
         return nodes
-- 
2.43.0


From 9c3584b750f40fc8a6f8660cdef67c736708148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:40 +0000
Subject: [PATCH 31/74] fix: multiply whole expressions given as isar array
 dimensions

---
 prophyc/parsers/isar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 0567e94..1eed5a7 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -1,4 +1,5 @@
 import os
+import re
 import xml.etree.ElementTree as ElementTree
 
 from prophyc import model, six
@@ -45,6 +46,10 @@ def expand_operators(string_):
     return string_
 
 
+def bracket_expression(string_):
+    return string_ if re.match(r"\w+$", string_) else "({})".format(string_)
+
+
 primitive_types = {"8 bit integer unsigned": "u8",
                    "16 bit integer unsigned": "u16",
                    "32 bit integer unsigned": "u32",
@@ -141,7 +146,7 @@ def make_struct_members(xml_elem, dynamic_array=False):
             size = dimension.get("size", None)
             size2 = dimension.get("size2", None)
             if size2:
-                size = "{}*{}".format(size, size2)
+                size = "{}*{}".format(bracket_expression(size), bracket_expression(size2))
             if optional:
                 yield model.StructMember("has_" + xml_elem_name, "u32", docstring="implicit enabler for optional field")
 
-- 
2.43.0


From 193bd950776efa480e6c2920b3525f51cede6fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:22 +0000
Subject: [PATCH 32/74] fix: negative hexadecimal isar constants in C++

C++ takes such literals as unsigned, so the constants came out positive.
---
 prophyc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index aefa11e..9a3ceba 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -534,8 +534,8 @@ def evaluate_expressions(nodes, constants):
     def evaluate(expression):
         expression = str(expression)
         try:
-            int(expression, 0)
-            return expression
+            number = int(expression, 0)
+            return expression if number >= 0 else str(number)
         except ValueError:
             pass
         try:
-- 
2.43.0


From 727dec53abd00129c73dbef62aa18ae13743981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:31 +0000
Subject: [PATCH 33/74] fix: reject optional fields of dynamic types

The Python runtime refuses them, and C++ sources do not compile.
---
 prophyc/parsers/prophy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index dbc6505..ac796bd 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -135,6 +135,11 @@ class Parser(object):
                 line, pos
             )
             fieldnames.add(name)
+            self._parser_check(
+                not member.optional or member.kind == model.Kind.FIXED,
+                "optional field '{}' of dynamic type".format(name),
+                line, pos
+            )
             if member.bound:
                 bound, _, __ = next(six.ifilter(lambda m: m[0].name == member.bound, members[:i]), (None, None, None))
                 if bound:
-- 
2.43.0


From 6f775d71500d9955613e45eee85998fd4652558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:42 +0000
Subject: [PATCH 34/74] fix: reject arrays of types they cannot hold

Elements of static and limited arrays have to be of fixed size, elements of
any array have to be limited.
---
 prophyc/parsers/prophy.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index ac796bd..9a44782 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -140,6 +140,16 @@ class Parser(object):
                 "optional field '{}' of dynamic type".format(name),
                 line, pos
             )
+            self._parser_check(
+                not member.size or member.kind == model.Kind.FIXED,
+                "static or limited array '{}' of dynamic type".format(name),
+                line, pos
+            )
+            self._parser_check(
+                not member.is_array or member.kind != model.Kind.UNLIMITED,
+                "array '{}' of unlimited type".format(name),
+                line, pos
+            )
             if member.bound:
                 bound, _, __ = next(six.ifilter(lambda m: m[0].name == member.bound, members[:i]), (None, None, None))
                 if bound:
-- 
2.43.0


From 60f008966e7b84acf50534e285845c4b219e2a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:52 +0000
Subject: [PATCH 35/74] fix: reject optional fields and arrays as array sizers

---
 prophyc/parsers/prophy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 9a44782..9158b95 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -153,7 +153,8 @@ class Parser(object):
             if member.bound:
                 bound, _, __ = next(six.ifilter(lambda m: m[0].name == member.bound, members[:i]), (None, None, None))
                 if bound:
-                    self._parser_check(self._is_type_sizer_compatible(bound.type_name),
+                    self._parser_check(self._is_type_sizer_compatible(bound.type_name) and
+                                       not bound.optional and not bound.is_array,
                                        "Sizer of '{}' has to be of (unsigned) integer type".format(name),
                                        line, pos)
                 else:
-- 
2.43.0


From aeffb33535f6e3ef6c1f8c1c31f381dcdf009963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:20 +0000
Subject: [PATCH 36/74] fix: reject enumerators and discriminators not fitting
 32 bits

---
 prophyc/parsers/prophy.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 9158b95..89ad344 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -176,6 +176,13 @@ class Parser(object):
         else:
             return False
 
+    def _check_u32_range(self, value, what, line, pos):
+        self._parser_check(
+            0 <= value < 2 ** 32,
+            "{} value '{}' out of 32-bit unsigned range".format(what, value),
+            line, pos
+        )
+
     def p_specification(self, t):
         '''specification : definition_list'''
 
@@ -245,6 +252,7 @@ class Parser(object):
 
     def p_enum_member(self, t):
         '''enum_member : unique_id EQUALS expression'''
+        self._check_u32_range(t[3], "enumerator '{}'".format(t[1]), t.lineno(3), t.lexpos(3))
         member = model.EnumMember(t[1], str(t[3]))
         self.constdecls[t[1]] = member
         t[0] = member
@@ -368,6 +376,7 @@ class Parser(object):
 
     def p_union_member(self, t):
         '''union_member : expression COLON type_spec ID'''
+        self._check_u32_range(t[1], "discriminator of '{}'".format(t[4]), t.lineno(1), t.lexpos(1))
         t[0] = (model.UnionMember(t[4], t[3][0], str(t[1]), definition=t[3][1]), t.lineno(4), t.lexpos(4))
 
     def p_type_spec_1(self, t):
-- 
2.43.0


From 73c109f9b221cf826b65f042ca2ade2b0ce60b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:30 +0000
Subject: [PATCH 37/74] fix: reject enumerators named as their enum

---
 prophyc/parsers/prophy.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 89ad344..603307a 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -234,6 +234,11 @@ class Parser(object):
 
     def p_enum_def(self, t):
         '''enum_def : ENUM unique_id enum_body SEMI'''
+        self._parser_check(
+            t[2] not in [member.name for member in t[3]],
+            "name '{}' redefined".format(t[2]),
+            t.lineno(2), t.lexpos(2)
+        )
         node = model.Enum(t[2], t[3])
         self.typedecls[t[2]] = node
         self.nodes.append(node)
@@ -415,6 +420,8 @@ class Parser(object):
             t.lineno(1), t.lexpos(1)
         )
         t[0] = t[1]
+        t.slice[0].lineno = t.lineno(1)
+        t.slice[0].lexpos = t.lexpos(1)
 
     def p_positive_expression(self, t):
         '''positive_expression : expression'''
-- 
2.43.0


From ec9540ad92213ab645eb621f7ada009e4d7e959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:41 +0000
Subject: [PATCH 38/74] fix: reject constants and array sizes C++ cannot
 express

---
 prophyc/parsers/prophy.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 603307a..94e977f 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -228,6 +228,11 @@ class Parser(object):
 
     def p_constant_def(self, t):
         '''constant_def : CONST unique_id EQUALS expression SEMI'''
+        self._parser_check(
+            -2 ** 63 <= t[4] < 2 ** 64,
+            "constant '{}' out of 64-bit range".format(t[2]),
+            t.lineno(4), t.lexpos(4)
+        )
         node = model.Constant(t[2], str(t[4]))
         self.constdecls[t[2]] = node
         self.nodes.append(node)
@@ -430,6 +435,11 @@ class Parser(object):
             "array size '{}' non-positive".format(t[1]),
             t.lineno(1), t.lexpos(1)
         )
+        self._parser_check(
+            t[1] < 2 ** 32,
+            "array size '{}' too large".format(t[1]),
+            t.lineno(1), t.lexpos(1)
+        )
         t[0] = t[1]
 
     def p_expression_binop(self, t):
-- 
2.43.0


From a3b6bc12ceb5a4d390e8ce6a1ec596cb86735f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:14 +0000
Subject: [PATCH 39/74] fix: reject names redefined through included files

Python silently took the last definition, C++ sources did not compile.
---
 prophyc/parsers/prophy.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 94e977f..7c946fd 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -111,6 +111,7 @@ class Parser(object):
         self.nodes = []
         self.typedecls = {}
         self.constdecls = {}
+        self.included = {}
         self.errors = []
         self.parse_error_prefix = parse_error_prefix
 
@@ -183,6 +184,17 @@ class Parser(object):
             line, pos
         )
 
+    def _get_defined_names(self, nodes):
+        for node in nodes:
+            if isinstance(node, model.Include):
+                for name, included in self._get_defined_names(node.members):
+                    yield name, included
+            else:
+                yield node.name, node
+                if isinstance(node, model.Enum):
+                    for member in node.members:
+                        yield member.name, member
+
     def p_specification(self, t):
         '''specification : definition_list'''
 
@@ -214,6 +226,15 @@ class Parser(object):
             self._parser_error(str(e), t.lineno(3), t.lexpos(3))
             nodes = []
 
+        for name, node in self._get_defined_names(nodes):
+            known = self.included.get(name) or self.typedecls.get(name) or self.constdecls.get(name)
+            self._parser_check(
+                known is None or known is node,
+                "name '{}' redefined by included file".format(name),
+                t.lineno(3), t.lexpos(3)
+            )
+            self.included[name] = node
+
         for node in nodes:
             if isinstance(node, model.Constant):
                 self.constdecls[node.name] = node
@@ -420,7 +441,7 @@ class Parser(object):
     def p_unique_id(self, t):
         '''unique_id : ID'''
         self._parser_check(
-            t[1] not in self.typedecls and t[1] not in self.constdecls,
+            t[1] not in self.typedecls and t[1] not in self.constdecls and t[1] not in self.included,
             "name '{}' redefined".format(t[1]),
             t.lineno(1), t.lexpos(1)
         )
-- 
2.43.0


From 982e55be115bf2a5bed491c6fc59642c8b14ed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:52 +0000
Subject: [PATCH 40/74] fix: compile C++ full enums with repeated values

---
 prophyc/generators/cpp_full.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 6f72eb4..b06c7a3 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -81,6 +81,18 @@ def _to_literal(value):
         return value
 
 
+def _get_distinct_members(enum):
+    """ Out of enumerators having the same value only the last one, as in Python codec. """
+    def get_number(member):
+        try:
+            return int(member.value, 0)
+        except ValueError:
+            return member.value
+
+    members = dict((get_number(m), m) for m in enum.members)
+    return [m for m in enum.members if members[get_number(m)] is m]
+
+
 class _HppIncludesTranslator(TranslatorBase):
     block_template = "{content}"
 
@@ -229,7 +241,7 @@ class _CppTranslator(TranslatorBase):
                     'switch (x)\n' +
                     '{\n' +
                     _indent(
-                        ''.join('case {0}: return "{0}";\n'.format(m.name) for m in node.members) +
+                        ''.join('case {0}: return "{0}";\n'.format(m.name) for m in _get_distinct_members(node)) +
                         'default: return 0;\n'
                     ) +
                     '}\n'
-- 
2.43.0


From 7ab764fb7b76172c52f145c3d700017d38ac4fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:01 +0000
Subject: [PATCH 41/74] fix: report location of repeated enumerators and union
 arms

---
 prophyc/__init__.py       | 2 +-
 prophyc/model.py          | 3 ++-
 prophyc/parsers/prophy.py | 6 +++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index a7c3e00..b24ac7a 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -161,4 +161,4 @@ def error_on_exception(emit):
     except model.ParseError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
     except model.ModelError as e:
-        emit.error(str(e))
+        emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)) or str(e))
diff --git a/prophyc/model.py b/prophyc/model.py
index 9a3ceba..5fa91f9 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -16,7 +16,8 @@ class ParseError(Exception):
 
 class ModelError(Exception):
     """ General error for model tree construction errors. """
-    pass
+    errors = ()
+    """Collection of 2-tuples of location and message, if these are known."""
 
 
 class Kind:
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 7c946fd..044c46f 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -566,7 +566,11 @@ class ProphyParser(object):
     def parse(content, parse_error_prefix, parse_file):
         parsers_stack = []
         with allocate_parser(parsers_stack) as parser:
-            parser.parse(content, parse_error_prefix, parse_file)
+            try:
+                parser.parse(content, parse_error_prefix, parse_file)
+            except model.ModelError as e:
+                e.errors = e.errors or parser.errors
+                raise
             if parser.errors:
                 raise model.ParseError(parser.errors)
             return parser.nodes
-- 
2.43.0


From 3e4239587fa7d127ebba2567d5470c046e92de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:17 +0000
Subject: [PATCH 42/74] fix: report names that are reserved words of the output
 language

Generated Python modules could not be imported and C++ sources did not
compile.
---
 prophyc/generators/base.py     | 15 +++++++++++++++
 prophyc/generators/cpp.py      | 13 +++++++++++++
 prophyc/generators/cpp_full.py |  2 ++
 prophyc/generators/python.py   | 14 ++++++++++++++
 4 files changed, 44 insertions(+)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 3576768..c40ec11 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -35,10 +35,16 @@ class GeneratorAbc(object):
 
 
 class GeneratorBase(GeneratorAbc):
+    reserved_words = frozenset()
+    """ Words that can't name anything in given language. """
+
     def __init__(self, output_directory="."):
         self.output_dir = output_directory
 
     def serialize(self, nodes, base_name):
+        for name in self.get_used_names(nodes):
+            if name in self.reserved_words:
+                raise GenerateError("'{}' is a reserved word in output language".format(name))
         self.check_nodes(nodes)
 
         for extension, translator_type in self.top_level_translators.items():
@@ -47,6 +53,15 @@ class GeneratorBase(GeneratorAbc):
             file_content = translator(nodes, base_name)
             _write_file(file_path, file_content)
 
+    @staticmethod
+    def get_used_names(nodes):
+        """ Names of all definitions and their members. """
+        for node in nodes:
+            if not isinstance(node, model.Include):
+                yield node.name
+                for member in getattr(node, "members", ()):
+                    yield member.name
+
 
 class TranslatorAbc(object):
     """
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index c0292fb..d257ca0 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -16,6 +16,18 @@ primitive_types = {
 }
 
 
+CPP_RESERVED_WORDS = frozenset((
+    'alignas', 'alignof', 'and', 'and_eq', 'asm', 'auto', 'bitand', 'bitor', 'bool', 'break', 'case', 'catch', 'char',
+    'char16_t', 'char32_t', 'class', 'compl', 'const', 'const_cast', 'constexpr', 'continue', 'decltype', 'default',
+    'delete', 'do', 'double', 'dynamic_cast', 'else', 'enum', 'explicit', 'export', 'extern', 'false', 'float', 'for',
+    'friend', 'goto', 'if', 'inline', 'int', 'long', 'mutable', 'namespace', 'new', 'noexcept', 'not', 'not_eq',
+    'nullptr', 'operator', 'or', 'or_eq', 'private', 'protected', 'public', 'register', 'reinterpret_cast', 'return',
+    'short', 'signed', 'sizeof', 'static', 'static_assert', 'static_cast', 'struct', 'switch', 'template', 'this',
+    'thread_local', 'throw', 'true', 'try', 'typedef', 'typeid', 'typename', 'union', 'unsigned', 'using', 'virtual',
+    'void', 'volatile', 'wchar_t', 'while', 'xor', 'xor_eq'
+))
+
+
 def _indent(string_, spaces):
     indentation = spaces * ' '
     return '\n'.join(indentation + x if x else x for x in string_.split('\n'))
@@ -387,6 +399,7 @@ class _HppTranslator(TranslatorBase):
 
 
 class CppGenerator(GeneratorBase):
+    reserved_words = CPP_RESERVED_WORDS
     top_level_translators = {
         ".pp.hpp": _HppTranslator,
         ".pp.cpp": _CppSwapTranslator
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index b06c7a3..af22c16 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,6 +1,7 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
 from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.cpp import CPP_RESERVED_WORDS
 
 BUILTIN2C = {
     'i8': 'int8_t',
@@ -630,6 +631,7 @@ def generate_union_constructor(node):
 
 
 class CppFullGenerator(GeneratorBase):
+    reserved_words = CPP_RESERVED_WORDS
     top_level_translators = {
         ".ppf.hpp": _HppTranslator,
         ".ppf.cpp": _CppTranslator
diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 01d596f..55c80b7 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -1,3 +1,6 @@
+import keyword
+
+from prophyc import model
 from prophyc.generators import word_wrap
 from prophyc.generators.base import GeneratorBase, TranslatorBase
 
@@ -159,6 +162,17 @@ class {union_name}({libname}.with_metaclass({libname}.union_generator, {libname}
 
 
 class PythonGenerator(GeneratorBase):
+    reserved_words = frozenset(keyword.kwlist) | frozenset(("None", "True", "False"))
     top_level_translators = {
         ".py": _PythonTranslator
     }
+
+    @staticmethod
+    def get_used_names(nodes):
+        """ Fields are given as strings, so these are not affected. """
+        for node in nodes:
+            if not isinstance(node, model.Include):
+                yield node.name
+            if isinstance(node, model.Enum):
+                for member in node.members:
+                    yield member.name
-- 
2.43.0


From f3c7a3cac55e7be2783b4802254e3d51aff96afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:09 +0000
Subject: [PATCH 43/74] fix: compile C++ full sources of schemas without
 definitions

These had no namespace the generated source refers to.
---
 prophyc/generators/cpp_full.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index af22c16..8f74dc9 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -233,6 +233,12 @@ namespace detail
 class _CppTranslator(TranslatorBase):
     block_template = CPP_SOURCE_TEMPLATE
 
+    @classmethod
+    def _block_post_process(cls, content, base_name, nodes):
+        if not nodes:
+            return '#include "{}.ppf.hpp"\n'.format(base_name)
+        return super(_CppTranslator, cls)._block_post_process(content, base_name, nodes)
+
     def translate_enum(self, node):
         return (
                 'template <>\n' +
-- 
2.43.0


From 56bb9da34ecc8f80fc0b68411ddf578fe3283ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:21 +0000
Subject: [PATCH 44/74] fix: do not take types named r8 and r16 for built-in
 ones

These were sorted as if they depended on nothing and Python modules
referred to names prophy does not have.
---
 prophyc/generators/python.py | 2 +-
 prophyc/model.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 55c80b7..f541630 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -5,7 +5,7 @@ from prophyc.generators import word_wrap
 from prophyc.generators.base import GeneratorBase, TranslatorBase
 
 libname = u"prophy"
-primitive_types = {x + y: u"%s.%s" % (libname, x + y) for x in u"uir" for y in ["8", "16", "32", "64"]}
+primitive_types = {name: u"%s.%s" % (libname, name) for name in model.BUILTIN_SIZES}
 primitive_types['byte'] = u'%s.u8' % libname
 
 
diff --git a/prophyc/model.py b/prophyc/model.py
index 5fa91f9..d67260d 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -427,7 +427,7 @@ def topological_sort(nodes):
                 placed_ids.add(id(pending[-1]))
                 placed.append(pending.pop())
 
-    known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
+    known = set(BUILTIN_SIZES)
     definitions = {}
     for node_ in nodes:
         for name in get_defined_names(node_):
-- 
2.43.0


From 64a66f8254c8dae3210fcca1af4ac113b2aa3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:34 +0000
Subject: [PATCH 45/74] fix: refuse input files whose outputs overwrite each
 other

Inputs of the same name from different directories gave one output, and
their order decided which.
---
 prophyc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index b24ac7a..09dfa3c 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -62,7 +62,8 @@ def main(args):
         with error_on_exception(emit):
             nodes = file_processor_(input_file)
             basename = get_basename(input_file)
-            model_nodes[basename] = nodes
+            if model_nodes.setdefault(basename, nodes) is not nodes:
+                emit.error("outputs of '{}' would overwrite ones of another input file".format(input_file))
 
     generate_target_files(emit, serializers, model_nodes)
 
-- 
2.43.0


From 9004dc6892722cace709d4e4a3e1d6d0397d1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:52 +0000
Subject: [PATCH 46/74] fix: include C++ headers of files in other directories
 by their output names

---
 prophyc/generators/cpp.py      | 2 +-
 prophyc/generators/cpp_full.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index d257ca0..ba8ff0c 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -71,7 +71,7 @@ class _Padder(object):
 class _HppIncludesTranslator(TranslatorBase):
 
     def translate_include(self, include):
-        return '#include "{}.pp.hpp"'.format(include.name)
+        return '#include "{}.pp.hpp"'.format(include.name.split("/")[-1])
 
 
 STRUCT_DEF_TEMPLATE = """\
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 8f74dc9..112b81b 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -98,7 +98,7 @@ class _HppIncludesTranslator(TranslatorBase):
     block_template = "{content}"
 
     def translate_include(self, include):
-        return '#include "{}.ppf.hpp"'.format(include.name)
+        return '#include "{}.ppf.hpp"'.format(include.name.split("/")[-1])
 
 
 class _HppDefinitionsTranslator(TranslatorBase):
-- 
2.43.0


From e85f35e739460e32ac394b4954b6d6d617d7fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:21 +0000
Subject: [PATCH 47/74] fix: walk each included file once in layered includes

---
 prophyc/model.py          | 39 +++++++++++++++++++++++----------------
 prophyc/parsers/prophy.py | 22 +++++++++-------------
 2 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index d67260d..756e922 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -310,12 +310,20 @@ class Include(_Container):
         """ No need to provide any dependencies to include. """
         return []
 
-    def defined_symbols(self):
+    def is_visited(self, visited):
+        """ Tells if the included file was met before. Many includes may share members of one file. """
+        known = id(self.members) in visited
+        visited.add(id(self.members))
+        return known
+
+    def defined_symbols(self, visited=None):
         """ Generate collection of symbols delivered by this include. """
+        visited = set() if visited is None else visited
         for member in self.members:
             if isinstance(member, Include):
-                for symbol in member.defined_symbols():
-                    yield symbol
+                if not member.is_visited(visited):
+                    for symbol in member.defined_symbols(visited):
+                        yield symbol
             else:
                 yield member
 
@@ -441,26 +449,24 @@ def topological_sort(nodes):
     nodes[:] = placed
 
 
-def _make_types_index(nodes_):
+def _make_types_index(nodes_, included=None):
     """ Creates flat dictionary that maps model objects to its name. """
-    included = set()
+    included = set() if included is None else included
     for node_ in nodes_:
         if isinstance(node_, Include):
-            if node_.name not in included:
-                included.add(node_.name)
-                for included_name, included_type in _make_types_index(node_.members):
+            if not node_.is_visited(included):
+                for included_name, included_type in _make_types_index(node_.members, included):
                     yield included_name, included_type
         else:
             yield node_.name, node_
 
 
-def _collect_constants(nodes_, constants=None):
+def _collect_constants(nodes_, constants=None, included=None):
     constants = constants or {}
-    included = set()
+    included = set() if included is None else included
     for node_ in nodes_:
-        if isinstance(node_, Include) and node_.name not in included:
-            included.add(node_.name)
-            constants.update(_collect_constants(node_.members, constants))
+        if isinstance(node_, Include) and not node_.is_visited(included):
+            constants.update(_collect_constants(node_.members, constants, included))
 
         elif isinstance(node_, Constant):
             constants[node_.name] = node_.eval_int(constants)
@@ -568,11 +574,12 @@ def evaluate_stiffness_kinds(nodes):
             node.calc_wire_stiffness()
 
 
-def evaluate_sizes(nodes, warn=null_warn):
+def evaluate_sizes(nodes, warn=null_warn, included=None):
     """
     Adds byte_size and alignment to Struct, StructMember, Union, UnionMember.
     Requires cross referenced nodes and evaluated kinds.
     """
+    included = set() if included is None else included
 
     def evaluate_node_size(node_, parent, member):
         while isinstance(node_, Typedef) and node_.definition:
@@ -667,8 +674,8 @@ def evaluate_sizes(nodes, warn=null_warn):
         elif isinstance(node, Union):
             if evaluate_members_sizes(node):
                 evaluate_union_size(node)
-        elif isinstance(node, Include):
-            evaluate_sizes(node.members, warn)
+        elif isinstance(node, Include) and not node.is_visited(included):
+            evaluate_sizes(node.members, warn, included)
 
 
 def partition(members):
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 044c46f..e03aaa0 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -184,16 +184,12 @@ class Parser(object):
             line, pos
         )
 
-    def _get_defined_names(self, nodes):
-        for node in nodes:
-            if isinstance(node, model.Include):
-                for name, included in self._get_defined_names(node.members):
-                    yield name, included
-            else:
-                yield node.name, node
-                if isinstance(node, model.Enum):
-                    for member in node.members:
-                        yield member.name, member
+    def _get_defined_names(self, include):
+        for node in include.defined_symbols():
+            yield node.name, node
+            if isinstance(node, model.Enum):
+                for member in node.members:
+                    yield member.name, member
 
     def p_specification(self, t):
         '''specification : definition_list'''
@@ -226,7 +222,8 @@ class Parser(object):
             self._parser_error(str(e), t.lineno(3), t.lexpos(3))
             nodes = []
 
-        for name, node in self._get_defined_names(nodes):
+        include = model.Include(stem, nodes)
+        for name, node in self._get_defined_names(include):
             known = self.included.get(name) or self.typedecls.get(name) or self.constdecls.get(name)
             self._parser_check(
                 known is None or known is node,
@@ -244,8 +241,7 @@ class Parser(object):
             if isinstance(node, (model.Typedef, model.Enum, model.Struct, model.Union)):
                 self.typedecls[node.name] = node
 
-        node = model.Include(stem, nodes)
-        self.nodes.append(node)
+        self.nodes.append(include)
 
     def p_constant_def(self, t):
         '''constant_def : CONST unique_id EQUALS expression SEMI'''
-- 
2.43.0


From 0bff3557e2b3e7436160d0bdf33fc2251149bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:21 +0000
Subject: [PATCH 48/74] fix: fail when patch rules leave a struct with
 duplicated, unbound or misplaced members

---
 prophyc/patch.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index e6ae894..4cd3f00 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -31,9 +31,24 @@ def _apply(node, patches):
         if not action:
             raise Exception("Unknown action: %s %s" % (node.name, patch_))
         node = action(node, patch_)
+    _check_members(node)
     return node
 
 
+def _check_members(node):
+    names = [member.name for member in node.members] if isinstance(node, (model.Struct, model.Union)) else []
+    for i, name in enumerate(names):
+        if name in names[:i]:
+            raise Exception("Duplicated member: %s %s" % (node.name, name))
+
+        if isinstance(node, model.Struct):
+            member = node.members[i]
+            if member.bound and member.bound not in names[:i]:
+                raise Exception("Array len member not found: %s %s" % (node.name, name))
+            if member.greedy and i + 1 < len(names):
+                raise Exception("Greedy member is not the last one: %s %s" % (node.name, name))
+
+
 def _type(node, patch_):
     if not isinstance(node, model.Struct):
         raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
-- 
2.43.0


From 570e2e2038c647b27104cf1eb0de1f989a8af9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:31 +0000
Subject: [PATCH 49/74] fix: fail when the limited patch rule is not given a
 fixed array

---
 prophyc/patch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index 4cd3f00..0cd4f09 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -175,6 +175,9 @@ def _limited(node, patch_):
     if not sizer_found:
         raise Exception("Array len member not found: %s %s" % (node.name, patch_))
 
+    if not member.size:
+        raise Exception("Member is not a fixed array: %s %s" % (node.name, patch_))
+
     mem = node.members[i]
     mem.bound = len_array
     mem.optional = False
-- 
2.43.0


From d85cbd203a929e437ece559c8946ef3aa042b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:13 +0000
Subject: [PATCH 50/74] fix: let dynamic and static patch rules replace a
 greedy array

---
 prophyc/patch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index 0cd4f09..f468b0b 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -111,6 +111,7 @@ def _dynamic(node, patch_):
         raise Exception("Member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
+    mem.greedy = False
     mem.bound = len_name
     mem.size = None
     mem.optional = False
@@ -153,6 +154,7 @@ def _static(node, patch_):
     node.members[i].size = None
 
     mem = node.members[i]
+    mem.greedy = False
     mem.bound = None
     mem.size = size
     mem.optional = False
-- 
2.43.0


From 047f952637b442c996980034d87d502082ed1356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:00 +0000
Subject: [PATCH 51/74] fix: report patch problems as errors of prophyc

---
 prophyc/__init__.py | 22 ++++++++++++++++++----
 prophyc/patch.py    |  2 ++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 09dfa3c..bbce352 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -49,7 +49,7 @@ def main(args):
     if not serializers and not opts.void_out:
         emit.error("missing output directives")
 
-    patcher = get_patcher(opts.patch)
+    patcher = get_patcher(emit, opts.patch)
     supplementary_nodes = create_supplements(emit, opts.isar_includes, opts.include_dirs, patcher)
 
     model_nodes = dict(flatten_included_defs(supplementary_nodes))
@@ -123,11 +123,17 @@ def get_serializers(opts):
     return serializers
 
 
-def get_patcher(patch_file_path):
+def get_patcher(emit, patch_file_path):
     if patch_file_path:
         from prophyc import patch
-        patches = patch.parse(patch_file_path)
-        return lambda nodes: patch.patch(nodes, patches)
+        with error_on_bad_patch(emit):
+            patches = patch.parse(patch_file_path)
+
+        def patcher(nodes):
+            with error_on_bad_patch(emit):
+                patch.patch(nodes, patches)
+
+        return patcher
 
 
 def get_basename(path):
@@ -155,6 +161,14 @@ def generate_target_files(emit, serializers, model_nodes):
                 emit.error(str(e))
 
 
+@contextmanager
+def error_on_bad_patch(emit):
+    try:
+        yield
+    except Exception as e:
+        emit.error("patch: " + str(e))
+
+
 @contextmanager
 def error_on_exception(emit):
     try:
diff --git a/prophyc/patch.py b/prophyc/patch.py
index f468b0b..9456c6e 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -12,6 +12,8 @@ def parse(filename):
         for line in f.readlines():
             if line.strip():
                 words = line.split()
+                if len(words) < 2:
+                    raise Exception("Missing action: %s" % line.strip())
                 name, action = words[:2]
                 params = words[2:]
                 patches[name].append(Action(action, params))
-- 
2.43.0


From a9438b2ceb134a8532ae4d47c519fdfdbf429ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:49 +0000
Subject: [PATCH 52/74] fix: refuse isar expressions that cannot be evaluated

---
 prophyc/calc.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 0e03b45..b185077 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -2,10 +2,22 @@ import ply.lex as lex
 import ply.yacc as yacc
 
 
+MAX_BITS = 128
+"""Numbers met in expressions are limited, so that these can always be evaluated and printed."""
+
+
 class ParseError(Exception):
     pass
 
 
+def is_in_range(number):
+    return abs(number) < 2 ** MAX_BITS
+
+
+def is_shift_in_range(number):
+    return 0 <= number <= MAX_BITS
+
+
 class Calc(object):
     tokens = ('NAME', 'CONST16', 'CONST10', 'LSHIFT', 'RSHIFT')
     precedence = (
@@ -39,6 +51,8 @@ class Calc(object):
     @staticmethod
     def t_CONST10(t):
         r"""\d+"""
+        if len(t.value) > MAX_BITS:
+            raise ParseError('number %s... out of range' % t.value[:10])
         t.value = int(t.value)
         return t
 
@@ -67,6 +81,11 @@ class Calc(object):
                       | expression '|' expression
                       | expression LSHIFT expression
                       | expression RSHIFT expression"""
+        if p[2] == '/' and p[3] == 0:
+            raise ParseError('division by zero')
+        if p[2] in ('<<', '>>') and not is_shift_in_range(p[3]):
+            raise ParseError('shift by %s out of range' % p[3])
+
         if p[2] == '+':
             p[0] = p[1] + p[3]
         elif p[2] == '-':
@@ -82,6 +101,9 @@ class Calc(object):
         elif p[2] == '|':
             p[0] = p[1] | p[3]
 
+        if not is_in_range(p[0]):
+            raise ParseError('number out of range')
+
     @staticmethod
     def p_expression_uminus(p):
         """expression : '-' expression %prec UMINUS"""
@@ -97,6 +119,8 @@ class Calc(object):
         """expression : CONST10
                       | CONST16"""
         p[0] = p[1]
+        if not is_in_range(p[0]):
+            raise ParseError('number out of range')
 
     def p_expression_name(self, p):
         """expression : NAME"""
@@ -108,6 +132,8 @@ class Calc(object):
             raise ParseError("numeric constant '%s' not found" % p[1])
 
     def p_error(self, p):
+        if not p:
+            raise ParseError("unexpected end of expression")
         raise ParseError("syntax error at '%s'" % p.value)
 
 
-- 
2.43.0


From bd870b71873d354c9686668eae4c8385ed3f7aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:58 +0000
Subject: [PATCH 53/74] fix: refuse shifts by negative numbers and numbers of
 unlimited length

---
 prophyc/parsers/prophy.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index e03aaa0..41d0172 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -4,7 +4,7 @@ from contextlib import contextmanager
 import ply.lex as lex
 import ply.yacc as yacc
 
-from prophyc import file_processor, model, six
+from prophyc import calc, file_processor, model, six
 
 
 def get_column(input_, pos):
@@ -52,7 +52,7 @@ class Parser(object):
 
     def t_CONST10(self, t):
         r'(([1-9]\d*)|0)'
-        t.value = int(t.value)
+        t.value = int(t.value[:calc.MAX_BITS])
         return t
 
     t_LBRACKET = r'\['
@@ -177,6 +177,12 @@ class Parser(object):
         else:
             return False
 
+    def _limit_number(self, number, line, pos):
+        if calc.is_in_range(number):
+            return number
+        self._parser_error("number out of range", line, pos)
+        return 0
+
     def _check_u32_range(self, value, what, line, pos):
         self._parser_check(
             0 <= value < 2 ** 32,
@@ -466,6 +472,9 @@ class Parser(object):
                       | expression '/' expression
                       | expression LSHIFT expression
                       | expression RSHIFT expression'''
+        if t[2] in ('<<', '>>') and not calc.is_shift_in_range(t[3]):
+            self._parser_error("shift by '{}' out of range".format(t[3]), t.lineno(3), t.lexpos(3))
+            t[3] = 0
         try:
             if t[2] == '+':
                 t[0] = t[1] + t[3]
@@ -485,6 +494,7 @@ class Parser(object):
                 t.lineno(1), t.lexpos(1)
             )
             t[0] = 0
+        t[0] = self._limit_number(t[0], t.lineno(1), t.lexpos(1))
         t.slice[0].lineno = t.lineno(1)
         t.slice[0].lexpos = t.lexpos(1)
 
@@ -522,7 +532,7 @@ class Parser(object):
         '''constant : CONST10
                     | CONST8
                     | CONST16'''
-        t[0] = t[1]
+        t[0] = self._limit_number(t[1], t.lineno(1), t.lexpos(1))
         t.slice[0].lineno = t.lineno(1)
         t.slice[0].lexpos = t.lexpos(1)
 
-- 
2.43.0


From fbe864c90f53e2a24629fc1526cf9303302fecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:18 +0000
Subject: [PATCH 54/74] fix: do not take directories for included files

---
 prophyc/file_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index 1ab3f99..524934b 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -16,7 +16,7 @@ class FileNotFoundError(Exception):
 def _get_first_existing_path(leaf, dirs):
     for directory in dirs:
         path = os.path.join(directory, leaf)
-        if os.path.exists(path):
+        if os.path.exists(path) and not os.path.isdir(path):
             return path
 
 
-- 
2.43.0


From 3682d4d7cd784ab703c1af46017b6e73b9a6e405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:26 +0000
Subject: [PATCH 55/74] fix: report files that are not encoded in utf-8

---
 prophyc/__init__.py       |  4 +++-
 prophyc/file_processor.py | 10 +++++++++-
 prophyc/parsers/prophy.py |  3 ++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index bbce352..97cb7ce 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -6,7 +6,7 @@ from contextlib import contextmanager
 
 from . import model
 from . import options
-from .file_processor import FileProcessor
+from .file_processor import FileEncodingError, FileProcessor
 from .generators.base import GenerateError
 
 __version__ = '1.2.5'
@@ -177,3 +177,5 @@ def error_on_exception(emit):
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
     except model.ModelError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)) or str(e))
+    except FileEncodingError as e:
+        emit.error(str(e))
diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index 524934b..f16d505 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -13,6 +13,11 @@ class FileNotFoundError(Exception):
         Exception.__init__(self, "file %s not found" % path)
 
 
+class FileEncodingError(Exception):
+    def __init__(self, path):
+        Exception.__init__(self, "file %s is not encoded in utf-8" % path)
+
+
 def _get_first_existing_path(leaf, dirs):
     for directory in dirs:
         path = os.path.join(directory, leaf)
@@ -81,7 +86,10 @@ class FileProcessor(object):
         self.files[abspath] = None
 
         with codecs.open(path, 'r', encoding='utf-8') as f:
-            content = f.read()
+            try:
+                content = f.read()
+            except UnicodeDecodeError:
+                raise FileEncodingError(path)
         result = self.process_content(content, path, lambda leaf: self.process_leaf(leaf))
         self.files[abspath] = result
         return result
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 41d0172..410cef0 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -224,7 +224,8 @@ class Parser(object):
 
         try:
             nodes = self.parse_file(path)
-        except (file_processor.CyclicIncludeError, file_processor.FileNotFoundError) as e:
+        except (file_processor.CyclicIncludeError, file_processor.FileNotFoundError,
+                file_processor.FileEncodingError) as e:
             self._parser_error(str(e), t.lineno(3), t.lexpos(3))
             nodes = []
 
-- 
2.43.0


From ba52ef91856ea7311b3047c935034dd208821f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:43 +0000
Subject: [PATCH 56/74] fix: report malformed isar xml

---
 prophyc/parsers/isar.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 1eed5a7..16d913d 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -198,14 +198,18 @@ class IsarParser(object):
     def __init__(self, warn=None):
         self.warn = warn
 
-    def parse(self, content, _, process_file):
+    def parse(self, content, path, process_file):
         # by default FileProcessor decodes files while opening in _process_file method,
         # but ElementTree doesn't like it. ElementTree handles the encoding on its own,
         # so it's OK to encode the data back into utf-8 before parsing
         content = content.encode('utf-8')
 
-        def collect():
+        try:
             root = ElementTree.fromstring(content)
+        except ElementTree.ParseError as e:
+            raise model.ParseError([("{}:{}:{}".format(path, *e.position), str(e))])
+
+        def collect():
             for xml_elem in root.iterfind('.//*[@href]'):
                 yield make_include(xml_elem, process_file, self.warn)
 
-- 
2.43.0


From 099851803fe879a4340e9af8aed307e040619c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:22 +0000
Subject: [PATCH 57/74] fix: report isar elements without attributes they need

---
 prophyc/parsers/isar.py | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 16d913d..c972551 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -62,6 +62,43 @@ primitive_types = {"8 bit integer unsigned": "u8",
                    "64 bit float": "r64"}
 
 
+definition_attributes = {
+    # tag: (attributes of element, attributes of its children)
+    'constant': (('name', 'value'), ()),
+    'typedef': (('name',), ()),
+    'enum': (('name',), ('name', 'value')),
+    'struct': (('name',), ('name', 'type')),
+    'message': (('name',), ('name', 'type')),
+    'union': (('name',), ('name', 'type', 'discriminatorValue')),
+}
+
+
+def check_attributes(root):
+    """ Yields problems with elements, which definitions can't be made of. """
+
+    def get_missing(xml_elem, attributes):
+        for attribute in attributes:
+            if not xml_elem.get(attribute):
+                yield "missing '{}' attribute of '{}' element".format(attribute, xml_elem.tag)
+
+    for tag, (attributes, child_attributes) in sorted(definition_attributes.items()):
+        for xml_elem in root.iterfind('.//' + tag):
+            if child_attributes and not len(xml_elem):
+                continue
+            for message in get_missing(xml_elem, attributes):
+                yield message
+            for child in xml_elem if child_attributes else ():
+                for message in get_missing(child, child_attributes):
+                    yield message
+                for dimension in child.findall('dimension'):
+                    for message in get_missing(dimension, ('size',) if dimension.get('size2') else ()):
+                        yield message
+
+    for xml_elem in root.iterfind('.//typedef[@primitiveType]'):
+        if "type" not in xml_elem.attrib and xml_elem.get("primitiveType") not in primitive_types:
+            yield "unknown primitive type '{}'".format(xml_elem.get("primitiveType"))
+
+
 def make_include(xml_elem, process_file, warn):
     if "include" in xml_elem.tag:
         path = xml_elem.get("href")
@@ -209,6 +246,10 @@ class IsarParser(object):
         except ElementTree.ParseError as e:
             raise model.ParseError([("{}:{}:{}".format(path, *e.position), str(e))])
 
+        errors = [(path, message) for message in check_attributes(root)]
+        if errors:
+            raise model.ParseError(errors)
+
         def collect():
             for xml_elem in root.iterfind('.//*[@href]'):
                 yield make_include(xml_elem, process_file, self.warn)
-- 
2.43.0


From bab2ce0a1d82c6ec40538b9ad10c329f41e6f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:32 +0000
Subject: [PATCH 58/74] fix: report duplicate enumerator values of isar as
 errors of prophyc

---
 prophyc/parsers/isar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index c972551..85289dc 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -6,6 +6,10 @@ from prophyc import model, six
 from prophyc.file_processor import CyclicIncludeError, FileNotFoundError
 
 
+class DuplicateValueError(model.ModelError, ValueError):
+    pass
+
+
 def extract_operator_args(string_, pos):
     brackets = 0
     open_pos = pos
@@ -144,7 +148,7 @@ def make_enum(xml_elem):
         values = set()
         for m in enum_obj.members:
             if m.value in values:
-                raise ValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
+                raise DuplicateValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
             values.add(m.value)
 
     if len(xml_elem):
-- 
2.43.0


From ff98fc05fe262054057ffd1cd050011f66d77cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:41 +0000
Subject: [PATCH 59/74] fix: do not take constants for types

---
 prophyc/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 756e922..23c0c35 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -499,7 +499,8 @@ def cross_reference(nodes, warn=null_warn):
             node_.definition = None
             return
         found = types_index.get(node_.type_name)
-        if not found:
+        if not found or isinstance(found, Constant):
+            found = None
             warn("type '%s' not found" % node_.type_name)
         node_.definition = found
 
-- 
2.43.0


From 490b6b6dd9e60c229aa645655a7fdee549c126b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:47 +0000
Subject: [PATCH 60/74] fix: generate C++ full optionals of deeply nested
 structs

---
 prophyc/generators/cpp_full.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 112b81b..7e49a00 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -61,8 +61,17 @@ def _get_byte_size(node):
 
 def _holds_vector(node):
     """Tells if C++ type of the node has vectors in it, which align it regardless of wire alignment."""
-    return any(getattr(m, 'is_limited', False) or _holds_vector(_get_leaf(m))
-               for m in getattr(_get_leaf(node), 'members', ()))
+    pending = [_get_leaf(node)]
+    visited = set()
+    while pending:
+        type_ = pending.pop()
+        if id(type_) not in visited:
+            visited.add(id(type_))
+            members = getattr(type_, 'members', ())
+            if any(getattr(m, 'is_limited', False) for m in members):
+                return True
+            pending.extend(map(_get_leaf, members))
+    return False
 
 
 def _get_optional_params(m):
-- 
2.43.0


From cf14a393b73e06b759ca56cf83073d8f342dcdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:58 +0000
Subject: [PATCH 61/74] fix: report includes nested too deeply

---
 prophyc/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 97cb7ce..e11251e 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -179,3 +179,7 @@ def error_on_exception(emit):
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)) or str(e))
     except FileEncodingError as e:
         emit.error(str(e))
+    except RuntimeError as e:
+        if "recursion" not in str(e):
+            raise
+        emit.error("included files are nested too deeply")
-- 
2.43.0


From b4b5dfd924be87e7cbe10e16345731c2808da0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:42 +0000
Subject: [PATCH 62/74] fix: report arrays of isar structs without sizers

---
 prophyc/model.py | 13 +++++++++++++
 prophyc/patch.py | 15 ---------------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 23c0c35..4adebc1 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -697,6 +697,18 @@ def partition(members):
     return main, parts
 
 
+def check_members(nodes):
+    """ Finds members, which parsers and patches put together in a wrong way. """
+    for node in nodes:
+        if isinstance(node, (Struct, Union)):
+            node._check_members_duplication(node.members)
+        for i, member in enumerate(node.members if isinstance(node, Struct) else ()):
+            if member.bound and not any(m.name == member.bound for m in node.members[:i]):
+                raise ModelError("Sizer of '%s' array not found in struct %s." % (member.name, node.name))
+            if member.greedy and member is not node.members[-1]:
+                raise ModelError("Greedy array '%s' is not the last member of struct %s." % (member.name, node.name))
+
+
 def evaluate_model(nodes, warn_emitter=lambda x: None):
     topological_sort(nodes)
     constants = cross_reference(nodes, warn_emitter)
@@ -715,6 +727,7 @@ class ModelParser(object):
         nodes = self.parser.parse(*parse_args)
         if self.patcher:
             self.patcher(nodes)
+        check_members(nodes)
         nodes, constants = evaluate_model(nodes, self.emit.warn)
         evaluate_expressions(nodes, constants)
         return nodes
diff --git a/prophyc/patch.py b/prophyc/patch.py
index 9456c6e..4d87985 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -33,24 +33,9 @@ def _apply(node, patches):
         if not action:
             raise Exception("Unknown action: %s %s" % (node.name, patch_))
         node = action(node, patch_)
-    _check_members(node)
     return node
 
 
-def _check_members(node):
-    names = [member.name for member in node.members] if isinstance(node, (model.Struct, model.Union)) else []
-    for i, name in enumerate(names):
-        if name in names[:i]:
-            raise Exception("Duplicated member: %s %s" % (node.name, name))
-
-        if isinstance(node, model.Struct):
-            member = node.members[i]
-            if member.bound and member.bound not in names[:i]:
-                raise Exception("Array len member not found: %s %s" % (node.name, name))
-            if member.greedy and i + 1 < len(names):
-                raise Exception("Greedy member is not the last one: %s %s" % (node.name, name))
-
-
 def _type(node, patch_):
     if not isinstance(node, model.Struct):
         raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
-- 
2.43.0


From 8e70d2900f197185f60c27c8b532b97115181f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:05 +0000
Subject: [PATCH 63/74] fix: do not take type names for array sizes

---
 prophyc/calc.py  | 4 ++++
 prophyc/model.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index b185077..17edf90 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -126,7 +126,11 @@ class Calc(object):
         """expression : NAME"""
         try:
             p[0] = p[1]
+            names = set()
             while not isinstance(p[0], int):
+                if p[0] in names:
+                    raise LookupError
+                names.add(p[0])
                 p[0] = self.vars[p[0]]
         except LookupError:
             raise ParseError("numeric constant '%s' not found" % p[1])
diff --git a/prophyc/model.py b/prophyc/model.py
index 4adebc1..159e215 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -529,7 +529,7 @@ def to_int(x, constants):
         return int(x)
     except ValueError:
         val = constants.get(x)
-        return val if val is not None else calc.eval(x, constants)
+        return val if isinstance(val, int) else calc.eval(x, constants)
 
 
 def evaluate_expressions(nodes, constants):
-- 
2.43.0


From 393314730abae30c24ca737566a8ad99f753dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:16 +0000
Subject: [PATCH 64/74] fix: report isar xml in unknown encodings

---
 prophyc/parsers/isar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 85289dc..a11e8d1 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -249,6 +249,8 @@ class IsarParser(object):
             root = ElementTree.fromstring(content)
         except ElementTree.ParseError as e:
             raise model.ParseError([("{}:{}:{}".format(path, *e.position), str(e))])
+        except (LookupError, ValueError) as e:
+            raise model.ParseError([(path, str(e))])
 
         errors = [(path, message) for message in check_attributes(root)]
         if errors:
-- 
2.43.0


From 35df589954ce228c431faf6f077fce9e6a3a978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:43 +0000
Subject: [PATCH 65/74] fix: report arrays bound to members of other types than
 integers

---
 prophyc/model.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index 159e215..bfbe366 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -709,6 +709,20 @@ def check_members(nodes):
                 raise ModelError("Greedy array '%s' is not the last member of struct %s." % (member.name, node.name))
 
 
+def check_sizers(nodes):
+    """ Finds arrays bound to members, which hold no integers. """
+    for node in nodes:
+        for i, member in enumerate(node.members if isinstance(node, Struct) else ()):
+            sizer = member.bound and next(m for m in node.members[:i] if m.name == member.bound)
+            if not sizer:
+                continue
+            type_ = sizer
+            while getattr(type_, 'definition', None):
+                type_ = type_.definition
+            if sizer.optional or sizer.is_array or getattr(type_, 'type_name', 'r32') in ('r32', 'r64', 'byte'):
+                raise ModelError("Sizer of '%s' array in struct %s has to be of integer type." % (member.name, node.name))
+
+
 def evaluate_model(nodes, warn_emitter=lambda x: None):
     topological_sort(nodes)
     constants = cross_reference(nodes, warn_emitter)
@@ -729,5 +743,6 @@ class ModelParser(object):
             self.patcher(nodes)
         check_members(nodes)
         nodes, constants = evaluate_model(nodes, self.emit.warn)
+        check_sizers(nodes)
         evaluate_expressions(nodes, constants)
         return nodes
-- 
2.43.0


From 9b79e19bf9f24861a7406664c89eb090bec8775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:53 +0000
Subject: [PATCH 66/74] fix: report syntax errors at very long numbers

---
 prophyc/parsers/prophy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 410cef0..a8c2cbb 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -542,7 +542,7 @@ class Parser(object):
 
     def p_error(self, t):
         if t:
-            message = "syntax error at '{}'".format(t.value)
+            message = "syntax error at '{}'".format(self.lexer.lexdata[t.lexpos:self.lexer.lexpos])
             line = t.lexer.lineno
             pos = t.lexpos
         else:
-- 
2.43.0


From 25f70ff3b34e4bf0532d0a39ce1d0893ba10c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:18 +0000
Subject: [PATCH 67/74] fix: escape comments of isar constants in Python
 modules

Comments with quotes at the end or with backslashes made the module
impossible to import.
---
 prophyc/generators/python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index f541630..6a019cb 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -99,6 +99,7 @@ else:
         content = u"%s = %s" % (constant.name, constant.value)
         doc = constant.docstring
         if doc:
+            doc = doc.replace(u"\\", u"\\\\").replace(u"'", u"\\'")
             content = u"\'\'\'{}\'\'\'\n{}".format(doc, content)
         return content
 
-- 
2.43.0


From 7ce5c0d3298e681e1efc555077fa9cb82af8431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:40 +0000
Subject: [PATCH 68/74] fix: report isar and patch names that are not
 identifiers

Generated Python modules could not be imported and C++ sources did not
compile.
---
 prophyc/generators/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index c40ec11..22c8d35 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -1,5 +1,6 @@
 import codecs
 import os
+import re
 
 from prophyc import model
 
@@ -45,6 +46,8 @@ class GeneratorBase(GeneratorAbc):
         for name in self.get_used_names(nodes):
             if name in self.reserved_words:
                 raise GenerateError("'{}' is a reserved word in output language".format(name))
+            if not re.match(r"[^\W\d]\w*\Z", name, re.UNICODE):
+                raise GenerateError("'{}' is not an identifier".format(name))
         self.check_nodes(nodes)
 
         for extension, translator_type in self.top_level_translators.items():
-- 
2.43.0


From 6cbaccd0a263b0f83a8ec7bc58067c37c95609b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:53:47 +0000
Subject: [PATCH 69/74] fix: check types of isar and patched members as in
 prophy language

Dynamic and unlimited types were accepted as union arms, optionals,
elements of sized arrays and in the middle of structs.
---
 prophyc/model.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index bfbe366..2c4a1a1 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -723,6 +723,21 @@ def check_sizers(nodes):
                 raise ModelError("Sizer of '%s' array in struct %s has to be of integer type." % (member.name, node.name))
 
 
+def check_composability(nodes):
+    """ Finds members of types, which their place can't hold. Requires evaluated kinds. """
+    for node in nodes:
+        for member in node.members if isinstance(node, (Struct, Union)) else ():
+            member.calc_wire_stiffness()
+            if isinstance(node, Union):
+                allowed = member.kind == Kind.FIXED
+            elif member.optional or member.size:
+                allowed = member.kind == Kind.FIXED
+            else:
+                allowed = member.kind != Kind.UNLIMITED or (member is node.members[-1] and not member.is_array)
+            if not allowed:
+                raise ModelError("Type of '%s' is not allowed there in %s." % (member.name, node.name))
+
+
 def evaluate_model(nodes, warn_emitter=lambda x: None):
     topological_sort(nodes)
     constants = cross_reference(nodes, warn_emitter)
@@ -744,5 +759,6 @@ class ModelParser(object):
         check_members(nodes)
         nodes, constants = evaluate_model(nodes, self.emit.warn)
         check_sizers(nodes)
+        check_composability(nodes)
         evaluate_expressions(nodes, constants)
         return nodes
-- 
2.43.0


From 9bca36843772bf473898e19df97be95bfb8a32fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:08 +0000
Subject: [PATCH 70/74] fix: report names defined more than once in isar and
 patches

Back-ends generated sources which redefined these names.
---
 prophyc/model.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index 2c4a1a1..923de05 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -709,6 +709,20 @@ def check_members(nodes):
                 raise ModelError("Greedy array '%s' is not the last member of struct %s." % (member.name, node.name))
 
 
+def check_names(nodes):
+    """ Finds definitions and enumerators, which share a name. """
+    known = {}
+    visited = set()
+    for node in nodes:
+        is_include = isinstance(node, Include)
+        if is_include and node.is_visited(visited):
+            continue
+        for definition in node.defined_symbols(visited) if is_include else [node]:
+            for named in [definition] + (list(definition.members) if isinstance(definition, Enum) else []):
+                if known.setdefault(named.name, named) is not named:
+                    raise ModelError("Name '%s' is defined more than once." % named.name)
+
+
 def check_sizers(nodes):
     """ Finds arrays bound to members, which hold no integers. """
     for node in nodes:
@@ -756,6 +770,7 @@ class ModelParser(object):
         nodes = self.parser.parse(*parse_args)
         if self.patcher:
             self.patcher(nodes)
+        check_names(nodes)
         check_members(nodes)
         nodes, constants = evaluate_model(nodes, self.emit.warn)
         check_sizers(nodes)
-- 
2.43.0


From a40937ed95c4d034deed376661b8f190a5cd4e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:43 +0000
Subject: [PATCH 71/74] fix: check values of isar enumerators, discriminators,
 sizes and constants

These were accepted although back-ends could not express them or took
them for other values.
---
 prophyc/model.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index 923de05..c1ca26c 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -752,6 +752,38 @@ def check_composability(nodes):
                 raise ModelError("Type of '%s' is not allowed there in %s." % (member.name, node.name))
 
 
+def check_values(nodes, constants):
+    """ Finds numbers, which exceed their ranges, and repeated discriminators. Unknown numbers are not judged. """
+
+    def check(number, lowest, limit, name, node):
+        if number is not None and not lowest <= number < limit:
+            raise ModelError("Value %s of '%s' in %s is out of range." % (number, name, node.name))
+
+    def get_discriminator(member):
+        try:
+            return to_int(member.discriminator, constants)
+        except calc.ParseError:
+            return None
+
+    for node in nodes:
+        if isinstance(node, Constant):
+            check(constants.get(node.name), -2 ** 63, 2 ** 64, node.name, node)
+        elif isinstance(node, Enum):
+            for member in node.members:
+                check(Constant.eval_int(member, constants), -2 ** 31, 2 ** 32, member.name, node)
+        elif isinstance(node, Struct):
+            for member in node.members:
+                check(member.numeric_size, 1, 2 ** 32, member.name, node)
+        elif isinstance(node, Union):
+            discriminators = set()
+            for member in node.members:
+                discriminator = get_discriminator(member)
+                check(discriminator, 0, 2 ** 32, member.name, node)
+                if discriminator in discriminators:
+                    raise ModelError("Discriminator of '%s' in %s is repeated." % (member.name, node.name))
+                discriminators.update(() if discriminator is None else (discriminator,))
+
+
 def evaluate_model(nodes, warn_emitter=lambda x: None):
     topological_sort(nodes)
     constants = cross_reference(nodes, warn_emitter)
@@ -775,5 +807,6 @@ class ModelParser(object):
         nodes, constants = evaluate_model(nodes, self.emit.warn)
         check_sizers(nodes)
         check_composability(nodes)
+        check_values(nodes, constants)
         evaluate_expressions(nodes, constants)
         return nodes
-- 
2.43.0


From d87bd32d52c8a2ae2888891adbb8c2ba28395f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:43 +0000
Subject: [PATCH 72/74] fix: report field names that are not identifiers for
 Python as well

Names with quotes or backslashes broke string literals of descriptors.
---
 prophyc/generators/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 22c8d35..b273630 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -46,6 +46,7 @@ class GeneratorBase(GeneratorAbc):
         for name in self.get_used_names(nodes):
             if name in self.reserved_words:
                 raise GenerateError("'{}' is a reserved word in output language".format(name))
+        for name in GeneratorBase.get_used_names(nodes):
             if not re.match(r"[^\W\d]\w*\Z", name, re.UNICODE):
                 raise GenerateError("'{}' is not an identifier".format(name))
         self.check_nodes(nodes)
-- 
2.43.0


From 18605d4d53c197fc724473bbefc4ad16017c0558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:51 +0000
Subject: [PATCH 73/74] fix: swap last limited array with sizer in an earlier
 part

Generated raw C++ source looked for the sizer in the part of the array, so it did not compile.
---
 prophyc/generators/cpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index ba8ff0c..16de633 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -323,7 +323,7 @@ class _CppSwapTranslator(TranslatorBase):
                     gen_member(last_mem, delimiters)
                 )
             else:
-                return gen_member(last_mem) + ';\n' + 'return payload + 1;\n'
+                return gen_member(last_mem, delimiters) + ';\n' + 'return payload + 1;\n'
 
         def gen_main(main, parts):
             all_names = {mem.name: 'payload' for mem in main}
-- 
2.43.0


From 06339480785b48a72da8435032bd37bded2dfc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:33:07 +0000
Subject: [PATCH 74/74] fix: pass sizer shared by arrays of a part to its swap
 once

Two parameters of the same name made generated raw C++ source uncompilable.
---
 prophyc/generators/cpp.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 16de633..28a2422 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -325,17 +325,18 @@ class _CppSwapTranslator(TranslatorBase):
             else:
                 return gen_member(last_mem, delimiters) + ';\n' + 'return payload + 1;\n'
 
+        def get_delimiters(part):
+            names = [mem.name for mem in part]
+            bounds = [mem.bound for mem in part if mem.bound and mem.bound not in names]
+            return sorted(set(bounds), key=bounds.index)
+
         def gen_main(main, parts):
             all_names = {mem.name: 'payload' for mem in main}
             for i, part in enumerate(parts):
                 all_names.update({mem.name: 'part{0}'.format(i + 2) for mem in part})
 
             def get_missing(part_number):
-                part = parts[part_number]
-                names = [mem.name for mem in part]
-                return [(all_names[mem.bound], mem.bound)
-                        for mem in part
-                        if mem.bound and mem.bound not in names]
+                return [(all_names[bound], bound) for bound in get_delimiters(parts[part_number])]
 
             def gen_missing(part_number):
                 return ''.join(', {0}->{1}'.format(x[0], x[1]) for x in get_missing(part_number))
@@ -357,8 +358,7 @@ class _CppSwapTranslator(TranslatorBase):
             return STRUCT_SWAP_MAIN_TEMPLATE.format(name=struct.name, members=_indent(members, 4))
 
         def gen_part(part_number, part):
-            names = [mem.name for mem in part]
-            delimiters = [mem.bound for mem in part if mem.bound and mem.bound not in names]
+            delimiters = get_delimiters(part)
             members = ''.join(gen_member(mem, delimiters) + ';\n' for mem in part[:-1])
             members += gen_last_member('{0}::part{1}'.format(struct.name, part_number), part,
                                        part[0].alignment, delimiters)
-- 
2.43.0

