From 9cc190ba990ffdcd3c91803cc57c906e48c0a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 01/27] fix: mask unaligned 64-bit fields when reading values
 in Python

A 64-bit field that does not start at a byte boundary picked up the bits
following it in its last byte.
---
 flatdata-py/flatdata/lib/data_access.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 359dfc6..ba791a9 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -20,8 +20,7 @@ def read_value(data, offset_bits, num_bits, is_signed):
         remainder = data[offset_bytes + total_bytes]
         result |= remainder << (total_bytes * 8 - offset_extra_bits)
 
-    if num_bits < 64:
-        result = result & ((1 << num_bits) - 1)
+    result = result & ((1 << num_bits) - 1)
 
     if not is_signed:
         return result
-- 
2.43.0


From a2040163d3c51bafc6c909f378ba941bbdc70d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 02/27] fix: keep bits around a field intact when writing
 values in Python

The masks for the surrounding bits were computed from the absolute bit
offset, so writing a field changed its neighbours (and lost its own bits)
unless fields were written in order into a zeroed buffer.
---
 flatdata-py/flatdata/lib/data_access.py | 27 ++++++++-----------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index ba791a9..0296141 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -32,7 +32,6 @@ def write_value(data, offset_bits, num_bits, is_signed, value):
     assert num_bits <= 64, f'Number of bits to write is greater than 64'
 
     offset_bytes, offset_extra_bits = divmod(offset_bits, 8)
-    total_bytes = (num_bits + 7) // 8
 
     if num_bits == 1:
         if value == 1:
@@ -41,23 +40,13 @@ def write_value(data, offset_bits, num_bits, is_signed, value):
             data[offset_bytes] &= ~(1 << offset_extra_bits)
         return
 
-    mask = (1 << num_bits) - 1
-    value <<= offset_extra_bits
-    value &= mask << offset_extra_bits
-    value_in_little_endian = value.to_bytes(total_bytes + 1, byteorder="little", signed=is_signed)
-    surrounding_bits = data[offset_bytes] & ((1 << offset_bits) - 1)
-
-    byte_idx = 0
-    data[offset_bytes] = value_in_little_endian[byte_idx]
-    data[offset_bytes] |= surrounding_bits
+    mask = ((1 << num_bits) - 1) << offset_extra_bits
+    value = (value << offset_extra_bits) & mask
 
-    byte_idx += 1
-    while byte_idx < total_bytes:
+    # update only the bits of the field, bits around it belong to other fields
+    field_bytes = (offset_extra_bits + num_bits + 7) // 8
+    surrounding_bits = int.from_bytes(
+        data[offset_bytes: offset_bytes + field_bytes], byteorder="little") & ~mask
+    value_in_little_endian = (value | surrounding_bits).to_bytes(field_bytes, byteorder="little")
+    for byte_idx in range(field_bytes):
         data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx]
-        byte_idx += 1
-
-    bits_written = total_bytes * 8 - offset_extra_bits
-    if bits_written < num_bits:
-        surrounding_bits = data[offset_bytes + byte_idx] & ~((1 << offset_bits) - 1)
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx] & ((1 << (8 - (bits_written % 8))) - 1)
-        data[offset_bytes + byte_idx] |= surrounding_bits
-- 
2.43.0


From d2be6af49a55aae77950e660fd3dc99c5b475369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 03/27] fix: iterate Python structures in field order

_FIELD_KEYS is a set in generated code, so the order of the values was
different from run to run and did not match as_list()/as_tuple().
---
 flatdata-py/flatdata/lib/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/structure.py b/flatdata-py/flatdata/lib/structure.py
index fec73c0..2251e90 100644
--- a/flatdata-py/flatdata/lib/structure.py
+++ b/flatdata-py/flatdata/lib/structure.py
@@ -27,7 +27,7 @@ class Structure:
         return self._FIELD_KEYS
 
     def __iter__(self):
-        for name in self._FIELD_KEYS:
+        for name in self._FIELDS:
             yield getattr(self, name)
 
     def as_dict(self):
-- 
2.43.0


From eebace5ee8a908b4bb13b56258049da292b0bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 04/27] fix: empty resources are present resources

An empty vector, multivector or raw data resource is falsy, so truth tests
made a present but empty resource read as None.
---
 flatdata-py/flatdata/lib/archive.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index 34e27aa..87df13c 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -56,8 +56,8 @@ class Archive:
         for name, signature in self._RESOURCES.items():
             resource = self.__getattr__(name)
             result.append([name, signature.container.__name__, signature.is_optional,
-                           resource.size_in_bytes() if resource else None,
-                           len(resource) if resource else None])
+                           resource.size_in_bytes() if resource is not None else None,
+                           len(resource) if resource is not None else None])
         return pd.DataFrame(data=result,
                             columns=["Name", "Type", "Optional", "SizeInBytes", "Size"])
 
@@ -84,7 +84,7 @@ class Archive:
     def size_in_bytes(self):
         return sum(resource_value.size_in_bytes() for resource_value in
                    (self.__getattr__(resource) for resource in self._RESOURCES.keys())
-                   if resource_value)
+                   if resource_value is not None)
 
     def __len__(self):
         return len(self._RESOURCES)
@@ -95,7 +95,7 @@ class Archive:
         # when it is initialized.
         if not _is_archive_signature(resource_signature):
             storage = self._resource_storage.get(name + _SCHEMA_EXT, resource_signature.is_optional)
-            if storage:
+            if storage is not None:
                 Archive._check_non_subarchive_schema(name, resource_signature, storage)
             elif not resource_signature.is_optional:
                 raise MissingResourceError(name)
@@ -110,7 +110,7 @@ class Archive:
                                                          name=name,
                                                          initializer=resource_signature.initializer,
                                                          is_optional=resource_signature.is_optional)
-            if resource:
+            if resource is not None:
                 resource.__doc__ = resource_signature.doc
                 return resource
         return None
-- 
2.43.0


From dd5c89205b422f92fe0546f9df42b84169175d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 05/27] fix: limited numpy export of a vector slice

to_numpy(limit) raised IndexError when the slice had more than limit records and
returned uninitialised rows when it had fewer; so did repr() of a slice.
---
 flatdata-py/flatdata/lib/resources.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index f371a7d..72dceda 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -4,6 +4,7 @@
 '''
 
 import json
+from itertools import islice
 
 import pandas as pd
 import numpy as np
@@ -61,12 +62,14 @@ class _VectorSlice:
 
     def to_numpy(self, limit=None):
         indices = self._slice.indices(len(self._sequence))
-        num_items = len(range(*indices)) if not limit else limit
+        num_items = len(range(*indices))
+        if limit:
+            num_items = min(num_items, limit)
         result = np.empty(
             shape=num_items,
             dtype=self._sequence._element_type.dtype()
         )
-        for index, item in enumerate(self):
+        for index, item in enumerate(islice(self, num_items)):
             result[index] = item.as_tuple()
         return result
 
-- 
2.43.0


From 5f4122836aa9beaa4f06853f552c5b588daab542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 06/27] fix: negative multivector indices

An index of -1 yielded no elements and -k the item before the right one, because
the sentinel entry of the index was counted as an item.
---
 flatdata-py/flatdata/lib/resources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 72dceda..5ac8b52 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -156,6 +156,10 @@ class Multivector(ResourceBase):
         if isinstance(index, slice):
             return _MultivectorSlice(index, self)
 
+        if index < 0:
+            index += len(self)
+        if index >= len(self) or index < 0:
+            raise IndexError("Multivector access out of bounds: " + str(index))
         offset = self._bucket_offset(index)
         next_offset = self._bucket_offset(index + 1)
         elements = []
-- 
2.43.0


From c38087022ba6125b439c1986f863fd8cab1c95c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 07/27] fix: Multivector reader accepted missing or truncated
 data

---
 flatdata-py/flatdata/lib/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 5ac8b52..b72ea6e 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -134,8 +134,8 @@ class _MultivectorSlice:
 
 class Multivector(ResourceBase):
     def __init__(self, index_mem, mem, index_type, *element_types):
+        super().__init__(mem, None)
         self._index = Vector(index_mem, index_type)
-        self._mem = mem
         self._element_types = element_types
         self._index_type = index_type
 
-- 
2.43.0


From 27991ad1bd1247c46b435e59463bbfad05fc53ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 08/27] fix: TAR storage served wrong bytes for PAX sparse
 files

---
 flatdata-py/flatdata/lib/tar_archive_resource_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
index cb5dd55..6b2cdb1 100644
--- a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
+++ b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
@@ -31,7 +31,7 @@ class TarArchiveResourceStorage:
                 name = file.name
                 if name.startswith("./"):
                     name = name[2:]
-                if file.type == tarfile.GNUTYPE_SPARSE:
+                if file.issparse():
                     raise CorruptResourceError("Sparse files are not supported")
                 if file.isreg():
                     file_entries[name] = (file.offset_data, file.size)
-- 
2.43.0


From 22788169183a3c501e4fb9a4f4b317e664b440a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 09/27] fix: reject a field stating width 0 for an enumeration
 of another width

---
 flatdata-generator/flatdata/generator/tree/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index bc53a9d..ac1129d 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -142,7 +142,7 @@ def _update_field_type_references(root):
         if isinstance(reference, EnumerationReference):
             field.type = EnumType(name=reference.name, basic_type=BasicType(
                 name=reference.node.type.name, width=reference.node.type.width))
-            if reference.width and reference.width != reference.node.type.width:
+            if reference.width is not None and reference.width != reference.node.type.width:
                 raise InvalidEnumWidthError(enumeration_name=reference.name,
                                             width=reference.node.type.width, provided_width=reference.width)
 
-- 
2.43.0


From cded0620ed77fa20b89991de38c76be05cdf6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 10/27] fix: mask negative values of signed enumerations when
 writing a bit field

std::is_signed is false for enumerations, so the sign bits of a negative
enumeration value overwrote the neighbouring fields.
---
 flatdata-cpp/include/flatdata/internal/Writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 230e861..0f54578 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -53,7 +53,7 @@ struct Writer
         static const int BIT_OFFSET = offset % 8;
 
         auto value_to_store = static_cast< UnsignedType >( t );
-        if ( std::is_signed< T >::value )
+        if ( IsSigned< T >::value )
         {
             // negative numbers are stored as 2-complement, and we need to remove upper bits
             value_to_store = masked< num_bits >( value_to_store );
-- 
2.43.0


From 7b50e92c943b23615c28e7e1dff13cd7f708d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 11/27] fix: make assigning a boost::optional to an optional
 field compile and return

The operator assigned the optional itself to a field of the value type,
which does not compile, and had no return statement.
---
 flatdata-cpp/include/flatdata/internal/Writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 0f54578..7ed7c3c 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -137,12 +137,13 @@ struct Writer< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
     {
         if ( t )
         {
-            Writer< T, offset, num_bits >{ data } = t;
+            Writer< T, offset, num_bits >{ data } = *t;
         }
         else
         {
             Writer< T, offset, num_bits >{ data } = INVALID_VALUE;
         }
+        return *this;
     }
 };
 
-- 
2.43.0


From 0790941436e82b8baef49e0e048fbfa746378861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 12/27] fix: compile reading a signed enumeration field of its
 full width

The minimum and maximum of the field were computed as if the enumeration
were unsigned, which does not fit its underlying type.
---
 flatdata-cpp/include/flatdata/internal/Reader.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 74c3514..2881038 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -42,13 +42,13 @@ struct Reader
     enum : typename UnderlyingType< T >::type
     {
         max = bit_width == 0 ? 0
-                             : ( bit_width - std::is_signed< T >::value
+                             : ( bit_width - std::is_signed< typename UnderlyingType< T >::type >::value
                                          == sizeof( typename BitsToUnsigned< num_bits >::type ) * 8
                                      ? typename BitsToUnsigned< num_bits >::type( -1 )
                                      : ( typename BitsToUnsigned< num_bits >::type( 1 )
-                                         << ( bit_width - std::is_signed< T >::value ) )
+                                         << ( bit_width - std::is_signed< typename UnderlyingType< T >::type >::value ) )
                                            - 1 ),
-        min = bit_width == 0 || !std::is_signed< T >::value
+        min = bit_width == 0 || !std::is_signed< typename UnderlyingType< T >::type >::value
                   ? static_cast< typename UnderlyingType< T >::type >( 0 )
                   : static_cast< typename UnderlyingType< T >::type >( -max - 1 )
     };
-- 
2.43.0


From c355157af52d7eb46e19da1715f1e67f9954e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 13/27] fix: negative differences and offsets of array view
 iterators

Dividing the byte distance by the unsigned element size turned a negative
distance between iterators into a huge positive one, and negative offsets
were applied as huge unsigned ones.
---
 .../include/flatdata/internal/ArrayViewIterator.inl       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
index 7862702..bdb80c5 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
@@ -64,7 +64,7 @@ template < typename T >
 ArrayViewIterator< T >&
 ArrayViewIterator< T >::operator+=( difference_type offset )
 {
-    m_ptr += T::size_in_bytes( ) * offset;
+    m_ptr += static_cast< difference_type >( T::size_in_bytes( ) ) * offset;
     return *this;
 }
 
@@ -72,7 +72,7 @@ template < typename T >
 ArrayViewIterator< T >&
 ArrayViewIterator< T >::operator-=( difference_type offset )
 {
-    m_ptr -= T::size_in_bytes( ) * offset;
+    m_ptr -= static_cast< difference_type >( T::size_in_bytes( ) ) * offset;
     return *this;
 }
 
@@ -98,7 +98,7 @@ template < typename T >
 typename ArrayViewIterator< T >::difference_type
 ArrayViewIterator< T >::operator-( const ArrayViewIterator& other ) const
 {
-    return ( m_ptr - other.m_ptr ) / T::size_in_bytes( );
+    return ( m_ptr - other.m_ptr ) / static_cast< difference_type >( T::size_in_bytes( ) );
 }
 
 template < typename T >
@@ -154,7 +154,7 @@ template < typename T >
 typename ArrayViewIterator< T >::ConstValueType
 ArrayViewIterator< T >::operator[]( difference_type index ) const
 {
-    return ConstValueType{ m_ptr + T::size_in_bytes( ) * index };
+    return ConstValueType{ m_ptr + static_cast< difference_type >( T::size_in_bytes( ) ) * index };
 }
 
 template < typename T >
-- 
2.43.0


From 3c60fd9a0eb9afbe7ef78882c5f3b71f72701eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 14/27] fix: elements added to a Vector after removing others
 contained leftovers of the removed ones

---
 flatdata-cpp/include/flatdata/Vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/Vector.h b/flatdata-cpp/include/flatdata/Vector.h
index 20579bd..17f7e97 100644
--- a/flatdata-cpp/include/flatdata/Vector.h
+++ b/flatdata-cpp/include/flatdata/Vector.h
@@ -134,6 +134,9 @@ template < typename T >
 void
 Vector< T >::resize( size_t size )
 {
+    // drop removed elements before appending the padding, so that they do not show up in elements
+    // added later
+    m_data.resize( size * T::size_in_bytes( ) );
     m_data.resize( size * T::size_in_bytes( ) + PADDING_SIZE );
 }
 
@@ -157,7 +160,7 @@ template < typename T >
 void
 Vector< T >::pop_back( )
 {
-    m_data.resize( m_data.size( ) - T::size_in_bytes( ) );
+    resize( size( ) - 1 );
 }
 
 template < typename T >
-- 
2.43.0


From c86a66698eea89c8710b1b57ce1c77a259bf6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:00 +0000
Subject: [PATCH 15/27] fix: keep the limits of narrow enumeration fields

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 2881038..d380259 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -39,16 +39,22 @@ struct Reader
     {
         bit_width = num_bits
     };
+    enum
+    {
+        // limits of an enumeration are unsigned, unless the field has its full width
+        has_sign = std::is_signed< T >::value
+                   || ( IsSigned< T >::value && bit_width == sizeof( T ) * 8 )
+    };
     enum : typename UnderlyingType< T >::type
     {
         max = bit_width == 0 ? 0
-                             : ( bit_width - std::is_signed< typename UnderlyingType< T >::type >::value
+                             : ( bit_width - has_sign
                                          == sizeof( typename BitsToUnsigned< num_bits >::type ) * 8
                                      ? typename BitsToUnsigned< num_bits >::type( -1 )
                                      : ( typename BitsToUnsigned< num_bits >::type( 1 )
-                                         << ( bit_width - std::is_signed< typename UnderlyingType< T >::type >::value ) )
+                                         << ( bit_width - has_sign ) )
                                            - 1 ),
-        min = bit_width == 0 || !std::is_signed< typename UnderlyingType< T >::type >::value
+        min = bit_width == 0 || !has_sign
                   ? static_cast< typename UnderlyingType< T >::type >( 0 )
                   : static_cast< typename UnderlyingType< T >::type >( -max - 1 )
     };
-- 
2.43.0


From 38e5ed74e75e4752d59c155ca8a3d045b5e5d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 16/27] fix: writing behind the line mask when describing a
 schema mismatch

create_context marked line i instead of line i - 1 in its first pass. With a
multiple of 64 lines in the difference it wrote behind the mask.
---
 flatdata-cpp/src/Archive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 4fb7a83..a98cfd2 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -99,7 +99,7 @@ create_context( const std::vector< std::string >& diff )
             lines_to_go = context_lines;
         }
 
-        result_mask[ i ] = lines_to_go >= 0;
+        result_mask[ i - 1 ] = lines_to_go >= 0;
     }
     lines_to_go = -1;
     for ( size_t i = 0; i < diff.size( ); i++, lines_to_go-- )
-- 
2.43.0


From bfa212989cb1c7aa9f5adecf45daaf806f85e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:38 +0000
Subject: [PATCH 17/27] fix: describing a schema mismatch read behind the
 stored schema

Stored schemas are not terminated: compute_diff read on until it met a zero
byte, behind the mapped file if its size is a multiple of the page size.
---
 flatdata-cpp/src/Archive.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index a98cfd2..946bee9 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -61,23 +61,20 @@ Archive::storage( ) const
 namespace
 {
 std::vector< std::string >
-to_lines( const char* string )
+to_lines( const char* string, const char* end )
 {
     std::vector< std::string > result;
-    if ( string )
+    while ( string != end )
     {
-        while ( *string )
+        auto begin = string;
+        while ( string != end && *string != '\n' )
         {
-            auto begin = string;
-            while ( *string && *string != '\n' )
-            {
-                string++;
-            }
-            result.emplace_back( begin, string );
-            if ( *string )
-            {
-                string++;
-            }
+            string++;
+        }
+        result.emplace_back( begin, string );
+        if ( string != end )
+        {
+            string++;
         }
     }
 
@@ -129,14 +126,17 @@ create_context( const std::vector< std::string >& diff )
 }
 
 std::string
-compute_diff( const char* expected, const char* found )
+compute_diff( const char* expected, MemoryDescriptor found )
 {
     if ( !found )
     {
         return { };
     }
-    std::vector< std::string > lines_expected = to_lines( expected );
-    std::vector< std::string > lines_found = to_lines( found );
+    std::vector< std::string > lines_expected
+        = to_lines( expected, expected + std::strlen( expected ) );
+    // stored schemas are not terminated
+    std::vector< std::string > lines_found
+        = to_lines( found.char_ptr( ), found.char_ptr( ) + found.size_in_bytes( ) );
     size_t expected_length = lines_expected.size( ) + 1;
     size_t found_length = lines_found.size( ) + 1;
 
@@ -259,7 +259,7 @@ Archive::describe( size_t nest_level ) const
                << ( is_root_node ? newl : empty ) << hline;
         result << compute_diff(
             schema( ),
-            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ).char_ptr( ) );
+            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ) );
         return result.str( );
     }
 
-- 
2.43.0


From 75e32b6581a50ad14bc0e78f97196d1b5d76bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:31 +0000
Subject: [PATCH 18/27] fix: keep the context lines of the schema diff, and end
 it at a terminator

Amends the two previous commits: the mask needs one more line, not other
lines, and a stored schema may still contain a terminator.
---
 flatdata-cpp/src/Archive.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 946bee9..90e6e1f 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -6,6 +6,7 @@
 #include <flatdata/Archive.h>
 #include <flatdata/internal/ArchiveUtils.h>
 
+#include <algorithm>
 #include <cstring>
 
 namespace flatdata
@@ -85,7 +86,7 @@ std::string
 create_context( const std::vector< std::string >& diff )
 {
     std::string result;
-    std::vector< bool > result_mask( diff.size( ) );
+    std::vector< bool > result_mask( diff.size( ) + 1 );
     size_t context_lines = 3;
 
     int lines_to_go = -1;
@@ -96,7 +97,7 @@ create_context( const std::vector< std::string >& diff )
             lines_to_go = context_lines;
         }
 
-        result_mask[ i - 1 ] = lines_to_go >= 0;
+        result_mask[ i ] = lines_to_go >= 0;
     }
     lines_to_go = -1;
     for ( size_t i = 0; i < diff.size( ); i++, lines_to_go-- )
@@ -134,9 +135,10 @@ compute_diff( const char* expected, MemoryDescriptor found )
     }
     std::vector< std::string > lines_expected
         = to_lines( expected, expected + std::strlen( expected ) );
-    // stored schemas are not terminated
-    std::vector< std::string > lines_found
-        = to_lines( found.char_ptr( ), found.char_ptr( ) + found.size_in_bytes( ) );
+    // stored schemas are not necessarily terminated
+    const char* found_end
+        = std::find( found.char_ptr( ), found.char_ptr( ) + found.size_in_bytes( ), '\0' );
+    std::vector< std::string > lines_found = to_lines( found.char_ptr( ), found_end );
     size_t expected_length = lines_expected.size( ) + 1;
     size_t found_length = lines_found.size( ) + 1;
 
-- 
2.43.0


From d8483e235816d9f18d68c517906d6504cc652650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:02 +0000
Subject: [PATCH 19/27] fix: stop parsing at a TAR entry that reaches behind
 the end of the file

A size field may hold any 64-bit number, with which the offset of the next
header wrapped around: headers were read again, forever in the worst case.
---
 flatdata-cpp/src/TarReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 6a35034..2caeaea 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -151,6 +151,12 @@ read_tar_file_entries( MemoryDescriptor data )
             file.size = file_size;
             file_entries.emplace_back( file );
 
+            if ( file_size > data.size( ) - offset )
+            {
+                // The TAR file ends within this file
+                break;
+            }
+
             const size_t padding = ( BLOCK_SIZE - ( file_size % BLOCK_SIZE ) ) % BLOCK_SIZE;
             offset += file_size + padding;
         }
-- 
2.43.0


From 236557ef437d0ff8e2c08c856b12900d4cd94c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:02 +0000
Subject: [PATCH 20/27] fix: do not apply the long name of a TAR directory to
 the next file

---
 flatdata-cpp/src/TarReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 2caeaea..00793a3 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -162,7 +162,8 @@ read_tar_file_entries( MemoryDescriptor data )
         }
         else if ( header.typeflag == DIRTYPE )
         {
-            // Skip directories
+            // Skip directories; a preceding long name belongs to the directory
+            long_name.clear( );
         }
         else if ( header.typeflag == GNUTYPE_LONGNAME )
         {
-- 
2.43.0


From 3fd2f449b3a72ae99b236d657e1badb84dc76bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:02 +0000
Subject: [PATCH 21/27] fix: read the prefix of file names in POSIX TAR
 archives

---
 flatdata-cpp/src/TarReader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 00793a3..6612a02 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -137,6 +137,14 @@ read_tar_file_entries( MemoryDescriptor data )
         if ( header.typeflag == REGTYPE || header.typeflag == AREGTYPE )
         {
             std::string file_name( header.name, strnlen( header.name, sizeof( header.name ) ) );
+            // POSIX archives (but not GNU ones, which have "ustar " here) split long names
+            if ( std::memcmp( header.magic, "ustar", sizeof( header.magic ) ) == 0
+                 && header.prefix[ 0 ] != '\0' )
+            {
+                file_name = std::string( header.prefix,
+                                         strnlen( header.prefix, sizeof( header.prefix ) ) )
+                            + '/' + file_name;
+            }
             if ( !long_name.empty( ) )
             {
                 file_name = std::move( long_name );
-- 
2.43.0


From 5e9b24228bd659f58043648ac0761f8d41ef1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:00 +0000
Subject: [PATCH 22/27] fix: read the ninth byte of a Rust bit field relative
 to the field

---
 flatdata-rs/lib/src/bytereader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/bytereader.rs b/flatdata-rs/lib/src/bytereader.rs
index 99376c5..5c39332 100644
--- a/flatdata-rs/lib/src/bytereader.rs
+++ b/flatdata-rs/lib/src/bytereader.rs
@@ -63,7 +63,7 @@ macro_rules! flatdata_read_bytes {
 
             let read_bits = num_bytes * 8 - bit_offset;
             if read_bits < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << read_bits % (num_bytes * 8);
             }
             result = flatdata_read_bytes!(@mask, result, $num_bits);
-- 
2.43.0


From fc4effda5c5b286fb005ae0089ce520ce1cf4401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:00 +0000
Subject: [PATCH 23/27] fix: write the ninth byte of a Rust bit field relative
 to the field

---
 flatdata-rs/lib/src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/bytewriter.rs b/flatdata-rs/lib/src/bytewriter.rs
index 2275e14..c931880 100644
--- a/flatdata-rs/lib/src/bytewriter.rs
+++ b/flatdata-rs/lib/src/bytewriter.rs
@@ -65,7 +65,7 @@ macro_rules! flatdata_write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes * 8);
             value_mask >>= batched_bits_written % (num_bytes * 8);
             unsafe {
-- 
2.43.0


From 08a7121a16c58508b356e2168c29f0488006b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:27 +0000
Subject: [PATCH 24/27] fix: sign-extend Go fields that end in their first byte

---
 flatdata-go/flatdata/reader.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flatdata-go/flatdata/reader.go b/flatdata-go/flatdata/reader.go
index a48d20e..ca0722b 100644
--- a/flatdata-go/flatdata/reader.go
+++ b/flatdata-go/flatdata/reader.go
@@ -28,11 +28,12 @@ func Read(descriptor MemoryDescriptor, offset, size uint, signed bool) int {
 		result = currentByte >> localOffset
 		if bitsLeft <= (8 - localOffset) {
 			result &= (1 << bitsLeft) - 1
-			return int(result)
+			bitsLeft = 0
+		} else {
+			bitsLeft -= 8 - localOffset
+			currentIndex++
+			currentByte = uint(descriptor.At(int(currentIndex)))
 		}
-		bitsLeft -= 8 - localOffset
-		currentIndex++
-		currentByte = uint(descriptor.At(int(currentIndex)))
 	}
 
 	for bitsLeft >= 8 {
@@ -51,7 +52,7 @@ func Read(descriptor MemoryDescriptor, offset, size uint, signed bool) int {
 		result |= temp
 	}
 
-	if signed {
+	if signed && size > 1 {
 		return int((result & (signBits[size-1] - 1)) - (result & signBits[size-1]))
 	}
 
-- 
2.43.0


From 2227024b878278df86e99230d485cf48d568e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:27 +0000
Subject: [PATCH 25/27] fix: do not read the byte behind a Go field that ends
 at a byte boundary

---
 flatdata-go/flatdata/reader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatdata-go/flatdata/reader.go b/flatdata-go/flatdata/reader.go
index ca0722b..6853434 100644
--- a/flatdata-go/flatdata/reader.go
+++ b/flatdata-go/flatdata/reader.go
@@ -42,8 +42,10 @@ func Read(descriptor MemoryDescriptor, offset, size uint, signed bool) int {
 		result |= temp
 
 		bitsLeft -= 8
-		currentIndex++
-		currentByte = uint(descriptor.At(int(currentIndex)))
+		if bitsLeft != 0 {
+			currentIndex++
+			currentByte = uint(descriptor.At(int(currentIndex)))
+		}
 	}
 
 	if bitsLeft != 0 {
-- 
2.43.0


From 890536d6d2d262191cdc4153ee6bc63b67b9e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:52 +0000
Subject: [PATCH 26/27] fix: do not dereference a missing output stream when
 writing (C++)

---
 flatdata-cpp/include/flatdata/ExternalVector.h             | 7 +++++--
 flatdata-cpp/include/flatdata/MultiVector.h                | 7 +++++--
 flatdata-cpp/include/flatdata/internal/ResourceStorage.inl | 4 ++++
 flatdata-cpp/src/ResourceStorage.cpp                       | 4 ++++
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/ExternalVector.h b/flatdata-cpp/include/flatdata/ExternalVector.h
index 6dd7c14..fe0febb 100644
--- a/flatdata-cpp/include/flatdata/ExternalVector.h
+++ b/flatdata-cpp/include/flatdata/ExternalVector.h
@@ -97,7 +97,10 @@ template < typename T >
 void
 ExternalVector< T >::flush( )
 {
-    m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_array )
+    {
+        m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
 }
@@ -107,7 +110,7 @@ ArrayView< T >
 ExternalVector< T >::close( )
 {
     flush( );
-    MemoryDescriptor data = m_array->close( );
+    MemoryDescriptor data = m_array ? m_array->close( ) : MemoryDescriptor( );
     return data ? ArrayView< T >{ data.data( ), data.data( ) + data.size_in_bytes( ) }
                 : ArrayView< T >{ };
 }
diff --git a/flatdata-cpp/include/flatdata/MultiVector.h b/flatdata-cpp/include/flatdata/MultiVector.h
index 62ae109..3d1ded1 100644
--- a/flatdata-cpp/include/flatdata/MultiVector.h
+++ b/flatdata-cpp/include/flatdata/MultiVector.h
@@ -142,7 +142,7 @@ MultiVector< IndexType, Args... >::close( )
     add_to_index( );  // sentinel for last item
     flush( );
 
-    MemoryDescriptor data = m_handle->close( );
+    MemoryDescriptor data = m_handle ? m_handle->close( ) : MemoryDescriptor( );
     ArrayView< IndexType > index_view = m_index.close( );
     if ( !data || !index_view )
     {
@@ -163,7 +163,10 @@ template < typename IndexType, typename... Args >
 void
 MultiVector< IndexType, Args... >::flush( )
 {
-    m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_handle )
+    {
+        m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_size_flushed += m_data.size( ) - PADDING_SIZE;
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 0520da2..566668a 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -134,6 +134,10 @@ ResourceStorage::write_schema( const char* resource_name, const char* schema )
 {
     auto schema_stream
         = create_output_stream( ( std::string( resource_name ) + ".schema" ).c_str( ) );
+    if ( !schema_stream )
+    {
+        return false;
+    }
     *schema_stream << schema;
     schema_stream->flush( );
     return static_cast< bool >( *schema_stream );
diff --git a/flatdata-cpp/src/ResourceStorage.cpp b/flatdata-cpp/src/ResourceStorage.cpp
index d14192e..631a750 100644
--- a/flatdata-cpp/src/ResourceStorage.cpp
+++ b/flatdata-cpp/src/ResourceStorage.cpp
@@ -17,6 +17,10 @@ ResourceStorage::write_to_stream( const char* resource_name,
                                   size_t size_in_bytes )
 {
     auto stream = create_output_stream( resource_name );
+    if ( !stream )
+    {
+        return false;
+    }
     resource_storage::write_to_stream( *stream, size_in_bytes );
     stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     resource_storage::write_padding( *stream );
-- 
2.43.0


From 0d96700e982e3a8b14b9d3346a04800d2c87b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:47 +0000
Subject: [PATCH 27/27] fix: an array view over no data of range structures
 covers no bytes (C++)

---
 flatdata-cpp/include/flatdata/ArrayView.h            | 1 +
 flatdata-cpp/include/flatdata/internal/ArrayView.inl | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/ArrayView.h b/flatdata-cpp/include/flatdata/ArrayView.h
index f24d2f7..e29a4d0 100644
--- a/flatdata-cpp/include/flatdata/ArrayView.h
+++ b/flatdata-cpp/include/flatdata/ArrayView.h
@@ -53,6 +53,7 @@ private:
 
     ConstStreamType m_data;
     size_t m_size;
+    bool m_has_sentinel = false;  // the last stored element only ends the range of the one before
 };
 
 }  // namespace flatdata
diff --git a/flatdata-cpp/include/flatdata/internal/ArrayView.inl b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
index 76c5a8f..0d4bfc9 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayView.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
@@ -15,6 +15,7 @@ ArrayView< T >::ArrayView( ConstStreamType data_begin, ConstStreamType data_end
     if ( T::IS_OVERLAPPING_WITH_NEXT && m_size != 0 )
     {
         m_size--;
+        m_has_sentinel = true;
     }
 }
 
@@ -22,6 +23,7 @@ template < typename T >
 ArrayView< T >::ArrayView( ConstStreamType data, size_t size )
     : m_data( data )
     , m_size( size )
+    , m_has_sentinel( T::IS_OVERLAPPING_WITH_NEXT )
 {
 }
 
@@ -50,7 +52,7 @@ template < typename T >
 size_t
 ArrayView< T >::size_in_bytes( ) const
 {
-    return ( m_size + ( T::IS_OVERLAPPING_WITH_NEXT ? 1 : 0 ) ) * T::size_in_bytes( );
+    return ( m_size + ( m_has_sentinel ? 1 : 0 ) ) * T::size_in_bytes( );
 }
 
 template < typename T >
-- 
2.43.0

