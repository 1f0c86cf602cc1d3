From 9dfd4ffe23c64e8b6dcc54acb011cd90050a5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 01/46] fix: alignment to more than 64 bits in bit stream
 reader and writer

The number of bits to skip was narrowed to 8 bits and skipped by a single
read/write of at most 64 bits, so larger alignments either failed or
silently misaligned the stream.
---
 runtime/src/zserio/BitStreamReader.cpp | 3 +--
 runtime/src/zserio/BitStreamWriter.cpp | 9 +++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index b80d608..2913eba 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -865,8 +865,7 @@ void BitStreamReader::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        (void)readUnsignedBits64(skip);
+        setBitPosition(getBitPosition() + (alignment - offset));
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 78a8357..cc5da29 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -533,8 +533,13 @@ void BitStreamWriter::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        writeUnsignedBits64(0, skip);
+        size_t skip = alignment - offset;
+        while (skip > 64)
+        {
+            writeUnsignedBits64(0, 64);
+            skip -= 64;
+        }
+        writeUnsignedBits64(0, static_cast<uint8_t>(skip));
     }
 }
 
-- 
2.43.0


From f59f2164168142e4f4758eaa24a214281c88f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 02/46] fix: reject out of range varsize encodings instead of
 truncating them

Five byte encodings carry 36 bits, which were accumulated in 32 bits, so
that the range check was done on a truncated value.
---
 runtime/src/zserio/BitStreamReader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 2913eba..1a3b5d6 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -782,31 +782,31 @@ VarUInt BitStreamReader::readVarUInt()
 VarSize BitStreamReader::readVarSize()
 {
     uint8_t byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 1
-    uint32_t result = byte & VARUINT_BYTE;
+    uint64_t result = byte & VARUINT_BYTE;
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 2
     result = result << 7U | static_cast<uint8_t>(byte & VARUINT_BYTE);
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 3
     result = result << 7U | static_cast<uint8_t>(byte & VARUINT_BYTE);
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 4
     result = result << 7U | static_cast<uint8_t>(byte & VARUINT_BYTE);
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     result = result << 8U | static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
@@ -816,7 +816,7 @@ VarSize BitStreamReader::readVarSize()
                 << result << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(result);
 }
 
 Float16 BitStreamReader::readFloat16()
-- 
2.43.0


From a0b795db9df827a2f614a2a660f74b9c56cba7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 03/46] fix: bit size check of buffers must not overflow for
 huge bit sizes

(bitSize + 7) / 8 wraps to zero for bit sizes close to the maximum, so that
a bit size of nearly 2^64 was accepted for any (even empty) buffer.
---
 runtime/src/zserio/BitBuffer.h         | 8 +++-----
 runtime/src/zserio/BitStreamReader.cpp | 4 ++--
 runtime/src/zserio/BitStreamWriter.cpp | 4 ++--
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 10c2ae2..2a3571a 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -278,7 +278,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(const ALLOC& allocator) :
 
 template <typename ALLOC>
 BasicBitBuffer<ALLOC>::BasicBitBuffer(size_t bitSize, const ALLOC& allocator) :
-        m_buffer((bitSize + 7) / 8, 0, allocator),
+        m_buffer(bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0), 0, allocator),
         m_bitSize(bitSize)
 {}
 
@@ -293,8 +293,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(Span<const uint8_t> buffer, size_t bitSize
         m_buffer(buffer.begin(), buffer.end(), allocator),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
-    if (buffer.size() < byteSize)
+    if (bitSize > buffer.size() * 8)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
                 << bitSize << " out of range for given span byte size " << buffer.size() << "!";
@@ -312,8 +311,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(std::vector<uint8_t, ALLOC>&& buffer, size
         m_buffer(std::move(buffer)),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
-    if (m_buffer.size() < byteSize)
+    if (bitSize > m_buffer.size() * 8)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
                 << bitSize << " out of range for given vector byte size " << m_buffer.size() << "!";
diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 1a3b5d6..7052a0a 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -384,10 +384,10 @@ BitStreamReader::BitStreamReader(
         Span<const uint8_t> buffer, size_t bufferBitSize, ArrayPreallocation maxArrayPrealloc) :
         m_context(buffer, bufferBitSize, maxArrayPrealloc)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    if (bufferBitSize > buffer.size() * 8)
     {
         throw CppRuntimeException("BitStreamReader: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() * 8 << "' < '" << bufferBitSize << "')!";
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index cc5da29..309bc3c 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -339,10 +339,10 @@ BitStreamWriter::BitStreamWriter(Span<uint8_t> buffer, size_t bufferBitSize) :
         m_bitIndex(0),
         m_bufferBitSize(bufferBitSize)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    if (bufferBitSize > buffer.size() * 8)
     {
         throw CppRuntimeException("BitStreamWriter: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() * 8 << "' < '" << bufferBitSize << "')!";
     }
 }
 
-- 
2.43.0


From e9e576fe8c65aa106e92d7958d34f75043f5a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 04/46] fix: undefined negation of minimum values in bitSizeOf
 of variable integers

---
 runtime/src/zserio/Types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Types.cpp b/runtime/src/zserio/Types.cpp
index 573783d..707e5b6 100644
--- a/runtime/src/zserio/Types.cpp
+++ b/runtime/src/zserio/Types.cpp
@@ -112,7 +112,7 @@ static BitSize bitSizeOfVarIntImpl(
 template <typename T>
 static uint64_t convertToAbsValue(typename T::ValueType value)
 {
-    return static_cast<uint64_t>((value < 0) ? -value : value);
+    return (value < 0) ? (0 - static_cast<uint64_t>(value)) : static_cast<uint64_t>(value);
 }
 
 BitSize bitSizeOf(VarInt16 value, BitSize)
-- 
2.43.0


From b9f76cda7abd4cad2ef1ff5040237b9473af152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 05/46] fix: conversion of float32 to float16 for overflow, NaN
 and small subnormals

Finite values above the float16 range became NaN (or even negative zero due to
the rounding carry) instead of infinity, NaN with payload only in the truncated
bits became infinity and values above the half of the smallest subnormal were
flushed to zero.
---
 runtime/src/zserio/FloatUtil.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/FloatUtil.cpp b/runtime/src/zserio/FloatUtil.cpp
index 116cbed..6dd1805 100644
--- a/runtime/src/zserio/FloatUtil.cpp
+++ b/runtime/src/zserio/FloatUtil.cpp
@@ -108,23 +108,31 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            // NaN must not become infinity if its payload is stored in the truncated bits only
+            significand16 = static_cast<uint16_t>(1U << (FLOAT16_SIGNIFICAND_NUM_BITS - 1U));
+        }
     }
     else
     {
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= static_cast<int16_t>(FLOAT16_EXPONENT_INFINITY_NAN))
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
             // exponent underflow
-            if (signedExponent16 <= static_cast<int16_t>(-FLOAT16_SIGNIFICAND_NUM_BITS))
+            if (signedExponent16 < static_cast<int16_t>(-FLOAT16_SIGNIFICAND_NUM_BITS) ||
+                    (signedExponent16 == static_cast<int16_t>(-FLOAT16_SIGNIFICAND_NUM_BITS) &&
+                            significand32 == 0))
             {
-                // too big underflow, set to zero
+                // too big underflow (not above the half of the smallest subnormal number), set to zero
                 significand16 = 0;
             }
             else
-- 
2.43.0


From e03e337496a8a5d7c4f0910ff8683390906acdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 06/46] fix: ordering of bit buffers which differ only in the
 number of bits

---
 runtime/src/zserio/BitBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 2a3571a..6187595 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -405,7 +405,8 @@ bool BasicBitBuffer<ALLOC>::operator<(const BasicBitBuffer& other) const
         return false;
     }
 
-    return (first1 == last1) && (first2 != last2);
+    // all common bytes are the same, so that the buffer with less bits is a prefix of the other one
+    return m_bitSize < other.m_bitSize;
 }
 
 template <typename ALLOC>
-- 
2.43.0


From 6be77ddcf5fa6bea9497ea4960a6dcd2a9d71eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 07/46] fix: offsets initialization of arrays of dynamic bit
 fields

---
 runtime/src/zserio/ArrayView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/ArrayView.h b/runtime/src/zserio/ArrayView.h
index a0b0405..9b3e603 100644
--- a/runtime/src/zserio/ArrayView.h
+++ b/runtime/src/zserio/ArrayView.h
@@ -563,7 +563,7 @@ BitSize initializeOffsets(const ArrayView<T, ARRAY_TRAITS>& array, BitSize bitPo
         }
 
         using AtResult = decltype(std::declval<const ArrayView<T, ARRAY_TRAITS>&>().at(std::declval<size_t>()));
-        if constexpr (std::is_same_v<View<ValueType>, AtResult>)
+        if constexpr (std::is_same_v<View<ValueType>, AtResult> && !is_dyn_int_wrapper_v<ValueType>)
         {
             endBitPosition += initializeOffsets(array[i], endBitPosition);
         }
@@ -752,7 +752,7 @@ BitSize initializeOffsetsPacked(const ArrayView<T, ARRAY_TRAITS>& array, BitSize
 
                 using AtResult =
                         decltype(std::declval<const ArrayView<T, ARRAY_TRAITS>&>().at(std::declval<size_t>()));
-                if constexpr (std::is_same_v<View<ValueType>, AtResult>)
+                if constexpr (std::is_same_v<View<ValueType>, AtResult> && !is_dyn_int_wrapper_v<ValueType>)
                 {
                     endBitPosition += initializeOffsets(context, array[i], endBitPosition);
                 }
-- 
2.43.0


From ee4040eab5d2ab8cf66f9b0a98acd6506f6fd100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 08/46] fix: writing of float fields within packed objects

---
 runtime/src/zserio/DeltaContext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 130c222..d06e763 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -490,7 +490,7 @@ BitSize bitSizeOf(DeltaContext&, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value, Bit
 }
 
 template <typename VALUE_TYPE, FloatType FLOAT_TYPE>
-void write(DeltaContext&, BitStreamReader& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
+void write(DeltaContext&, BitStreamWriter& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
 {
     write(writer, value);
 }
-- 
2.43.0


From f74b8009d8a1d6b4bba77174b565e0cd1665b325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 09/46] fix: offsets initialization of bit buffers

---
 runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 6187595..4e62fbc 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -590,7 +590,7 @@ BitSize bitSizeOf(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize = 0)
 template <typename ALLOC>
 BitSize initializeOffsets(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize bitPosition)
 {
-    return bitSizeof(bitBufferView, bitPosition);
+    return bitSizeOf(bitBufferView, bitPosition);
 }
 
 } // namespace detail
-- 
2.43.0


From 795928667d132bcb8479e23078110af7a8babc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 10/46] fix: reading past the end must not reuse stale bits of
 the reader cache

---
 runtime/src/zserio/BitStreamReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 7052a0a..8e4fca3 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -301,6 +301,7 @@ inline BaseType readUnsignedBitsImpl(ReaderContext& ctx, uint8_t numBits)
         value = ctx.cache & MASK_TABLE[ctx.cacheNumBits];
         ctx.bitIndex += ctx.cacheNumBits;
         numBits = static_cast<uint8_t>(numBits - ctx.cacheNumBits);
+        ctx.cacheNumBits = 0; // already consumed, it must not be used again if the end is reached below
 
         // load next piece of buffer into cache
         loadCacheNext(ctx, numBits);
-- 
2.43.0


From 195675666fb8bc49a5a93ab35caf1924c587283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 11/46] fix: array length checks must not overflow for huge
 array lengths

---
 runtime/src/zserio/ArrayView.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/ArrayView.h b/runtime/src/zserio/ArrayView.h
index 9b3e603..2bf2360 100644
--- a/runtime/src/zserio/ArrayView.h
+++ b/runtime/src/zserio/ArrayView.h
@@ -603,15 +603,14 @@ void read(BitStreamReader& reader, Vector<T, ALLOC>& rawArray, detail::array_own
     if constexpr (std::is_base_of_v<NumericArrayTraits<T>, ARRAY_TRAITS>)
     {
         const size_t elementSize = ARRAY_TRAITS::bitSizeOf();
-        if (reader.getBitPosition() + readLength * static_cast<uint64_t>(elementSize) >
-                reader.getBufferBitSize())
+        if (readLength > (reader.getBufferBitSize() - reader.getBitPosition()) / elementSize)
         {
             throw CppRuntimeException("ArrayView: Array size exceeds available buffer!");
         }
     }
 
     size_t reserve = readLength;
-    if (reserve * static_cast<uint64_t>(sizeof(T)) > reader.getMaxArrayPreallocation())
+    if (reserve > reader.getMaxArrayPreallocation() / sizeof(T))
     {
         reserve = reader.getMaxArrayPreallocation() / sizeof(T);
     }
@@ -824,7 +823,7 @@ void readPacked(BitStreamReader& reader, Vector<T, ALLOC>& rawArray,
         rawArray.clear();
 
         size_t reserve = readLength;
-        if (reserve * static_cast<uint64_t>(sizeof(T)) > reader.getMaxArrayPreallocation())
+        if (reserve > reader.getMaxArrayPreallocation() / sizeof(T))
         {
             reserve = reader.getMaxArrayPreallocation() / sizeof(T);
         }
-- 
2.43.0


From ba04037eb5aaa347f590124252a415dd9156b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 12/46] fix: equal floats must have the same hash code also for
 negative zero

---
 runtime/src/zserio/HashCodeUtil.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/HashCodeUtil.h b/runtime/src/zserio/HashCodeUtil.h
index 54726af..81ede80 100644
--- a/runtime/src/zserio/HashCodeUtil.h
+++ b/runtime/src/zserio/HashCodeUtil.h
@@ -75,7 +75,8 @@ inline typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 4), ui
  */
 inline uint32_t calcHashCode(uint32_t seedValue, float value)
 {
-    return calcHashCode(seedValue, convertFloatToUInt32(value));
+    // negative zero is equal to zero, so it must have the same hash code
+    return calcHashCode(seedValue, convertFloatToUInt32(value == 0.0F ? 0.0F : value));
 }
 
 /**
@@ -88,7 +89,8 @@ inline uint32_t calcHashCode(uint32_t seedValue, float value)
  */
 inline uint32_t calcHashCode(uint32_t seedValue, double value)
 {
-    return calcHashCode(seedValue, convertDoubleToUInt64(value));
+    // negative zero is equal to zero, so it must have the same hash code
+    return calcHashCode(seedValue, convertDoubleToUInt64(value == 0.0 ? 0.0 : value));
 }
 
 /**
-- 
2.43.0


From d835d202eadbd8265dd637d1b0f15d23b44f9a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 13/46] fix: valueless variants must be equal to each other

---
 runtime/src/zserio/Variant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index cca5caf..eb6c6d4 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -424,7 +424,8 @@ public:
             return false;
         }
 
-        bool ret = false;
+        // valueless variants are equal
+        bool ret = valueless_by_exception();
         detail::for_active_item_2<sizeof...(T)>(*this, other, [&ret](auto& elem1, auto& elem2) {
             ret = elem1 == elem2;
         });
-- 
2.43.0


From a0918cd08abddf988fcc596ca7a7e3f3f50a3a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 14/46] fix: exceptions while storing or copying a value must
 leave Any without a dangling holder

---
 runtime/src/zserio/Any.h | 64 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 6 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 4dbafd6..1e4ff1a 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -127,6 +127,11 @@ public:
         m_typedHolder = std::move(value);
     }
 
+    bool hasValue() const noexcept
+    {
+        return m_typedHolder.has_value();
+    }
+
     T& get()
     {
         return m_typedHolder.value();
@@ -186,7 +191,15 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -198,7 +211,15 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -486,7 +507,19 @@ public:
     template <typename T>
     void set(T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(std::forward<T>(value));
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            holder->set(std::forward<T>(value));
+        }
+        catch (...)
+        {
+            if (!holder->hasValue())
+            {
+                clearHolder(); // do not keep a holder without the value
+            }
+            throw;
+        }
     }
 
     /**
@@ -497,8 +530,19 @@ public:
     template <typename T, typename... ARGS>
     T& emplace(ARGS&&... args)
     {
-        return createHolder<typename std::decay<T>::type>()->construct(
-                get_allocator_ref(), std::forward<ARGS>(args)...);
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            return holder->construct(get_allocator_ref(), std::forward<ARGS>(args)...);
+        }
+        catch (...)
+        {
+            if (!holder->hasValue())
+            {
+                clearHolder(); // do not keep a holder without the value
+            }
+            throw;
+        }
     }
 
     /**
@@ -601,7 +645,15 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                m_untypedHolder.heap = nullptr;
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
-- 
2.43.0


From 47e83468c0c64b6b5bbe98b660424e20cb4580ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 15/46] fix: values stored in place in Optional must use the
 allocator of the Optional

---
 runtime/src/zserio/Optional.h | 45 +++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index fca44f8..029eedb 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -168,9 +168,10 @@ public:
     template <typename... ARGS, typename TT = T,
             std::enable_if_t<!detail::is_optional_heap_allocated_v<TT>>* = nullptr,
             std::enable_if_t<!is_first_allocator<ARGS...>::value>* = nullptr>
-    explicit constexpr BasicOptional(std::in_place_t, ARGS&&... args) :
-            m_data(std::in_place, std::forward<ARGS>(args)...)
-    {}
+    explicit constexpr BasicOptional(std::in_place_t, ARGS&&... args)
+    {
+        emplaceInPlace(std::forward<ARGS>(args)...);
+    }
 
     /**
      * Constructor which constructs the value.
@@ -184,9 +185,10 @@ public:
     template <typename... ARGS, typename TT = T,
             std::enable_if_t<!detail::is_optional_heap_allocated_v<TT>>* = nullptr>
     constexpr BasicOptional(std::in_place_t, const ALLOC& allocator, ARGS&&... args) :
-            AllocatorHolder<ALLOC>(allocator),
-            m_data(std::in_place, std::forward<ARGS>(args)...)
-    {}
+            AllocatorHolder<ALLOC>(allocator)
+    {
+        emplaceInPlace(std::forward<ARGS>(args)...);
+    }
 
     /**
      * Constructor which constructs the value.
@@ -522,7 +524,7 @@ public:
         }
         else
         {
-            return m_data.emplace(std::forward<ARGS>(args)...);
+            return emplaceInPlace(std::forward<ARGS>(args)...);
         }
     }
 
@@ -726,6 +728,29 @@ private:
         return ptr;
     }
 
+    template <typename... ARGS>
+    T& emplaceInPlace(ARGS&&... args)
+    {
+        // in case T is allocator-aware we need to construct it with parent allocator but because std::optional
+        // doesn't support allocators we emulate uses_allocator construction here
+        if constexpr (!std::uses_allocator_v<T, ALLOC>)
+        {
+            return m_data.emplace(std::forward<ARGS>(args)...);
+        }
+        else if constexpr (std::is_constructible_v<T, std::allocator_arg_t, const ALLOC&, ARGS...>)
+        {
+            return m_data.emplace(std::allocator_arg, get_allocator_ref(), std::forward<ARGS>(args)...);
+        }
+        else if constexpr (std::is_constructible_v<T, ARGS..., const ALLOC&>)
+        {
+            return m_data.emplace(std::forward<ARGS>(args)..., get_allocator_ref());
+        }
+        else
+        {
+            return m_data.emplace(std::forward<ARGS>(args)...);
+        }
+    }
+
     // same as for std::Optional throwing dtors are not supported see
     // https://stackoverflow.com/questions/78602733/should-stdOptional-be-nothrow-destructible-when-its-alternative-has-potentially
     void destroyValue(T* ptr)
@@ -785,7 +810,7 @@ private:
             else // not on heap
             {
                 auto& value = other.m_data.value();
-                m_data.emplace(std::move(value));
+                emplaceInPlace(std::move(value));
             }
         }
     }
@@ -817,12 +842,12 @@ private:
             else if constexpr (detail::is_optional_heap_allocated_v<U>) // only U is on heap
             {
                 auto& value = *other.m_data.value();
-                m_data.emplace(std::move(value));
+                emplaceInPlace(std::move(value));
             }
             else // both not on heap
             {
                 auto& value = other.m_data.value();
-                m_data.emplace(std::move(value));
+                emplaceInPlace(std::move(value));
             }
         }
     }
-- 
2.43.0


From 0791bc720de0c6a9a523b7e48592c91e47bb1249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 16/46] fix: assignment of its own value to Optional must not
 use the destroyed value

---
 runtime/src/zserio/Optional.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index 029eedb..0977191 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -1,6 +1,7 @@
 #ifndef ZSERIO_OPTIONAL_H_INC
 #define ZSERIO_OPTIONAL_H_INC
 
+#include <memory>
 #include <optional>
 
 #include "zserio/AllocatorHolder.h"
@@ -352,6 +353,13 @@ public:
                     !(std::is_same_v<T, std::decay_t<U>> && std::is_scalar_v<U>)>* = nullptr>
     BasicOptional& operator=(U&& value)
     {
+        if constexpr (std::is_same_v<T, std::decay_t<U>>)
+        {
+            if (has_value() && std::addressof(value) == std::addressof(this->value()))
+            {
+                return *this; // self assignment, the contained value must not be destroyed
+            }
+        }
         emplace(std::forward<U>(value));
         return *this;
     }
-- 
2.43.0


From 1ad298a21ded80aafddfc43f5d4bba20f5719e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 17/46] fix: swap of Optional with different allocators must
 not exchange storage

---
 runtime/src/zserio/Optional.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index 0977191..6baf400 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -496,6 +496,20 @@ public:
      */
     void swap(BasicOptional& other)
     {
+        if constexpr (!AllocTraits::propagate_on_container_swap::value)
+        {
+            if (get_allocator_ref() != other.get_allocator_ref())
+            {
+                // allocators stay in place, so the storage cannot be exchanged
+                BasicOptional tmp(std::move(other), get_allocator_ref());
+                other.clear();
+                other.move(std::move(*this));
+                clear();
+                move(std::move(tmp));
+                return;
+            }
+        }
+
         m_data.swap(other.m_data);
         if constexpr (AllocTraits::propagate_on_container_swap::value)
         {
-- 
2.43.0


From 9af6c905ef4769f487a494a36f319e0c282f606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 18/46] fix: values stored, copied and moved in Any must use
 the allocator of the Any

---
 runtime/src/zserio/Any.h | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 1e4ff1a..4dc68c7 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -86,9 +86,16 @@ class HolderBase : public IHolder<ALLOC>
 {
 public:
     template <typename U>
-    void set(U&& value)
+    void set(const ALLOC& allocator, U&& value)
     {
-        m_typedHolder = std::forward<U>(value);
+        if (m_typedHolder.has_value())
+        {
+            *m_typedHolder = std::forward<U>(value);
+        }
+        else
+        {
+            construct(allocator, std::forward<U>(value));
+        }
     }
 
     template <typename... ARGS>
@@ -127,6 +134,22 @@ public:
         m_typedHolder = std::move(value);
     }
 
+    void setHolder(const ALLOC& allocator, const std::optional<T>& value)
+    {
+        if (value.has_value())
+        {
+            construct(allocator, *value);
+        }
+    }
+
+    void setHolder(const ALLOC& allocator, std::optional<T>&& value)
+    {
+        if (value.has_value())
+        {
+            construct(allocator, std::move(*value));
+        }
+    }
+
     bool hasValue() const noexcept
     {
         return m_typedHolder.has_value();
@@ -193,7 +216,7 @@ public:
         this_type* holder = create(allocator);
         try
         {
-            holder->setHolder(this->getHolder());
+            holder->setHolder(allocator, this->getHolder());
         }
         catch (...)
         {
@@ -213,7 +236,7 @@ public:
         this_type* holder = create(allocator);
         try
         {
-            holder->setHolder(std::move(this->getHolder()));
+            holder->setHolder(allocator, std::move(this->getHolder()));
         }
         catch (...)
         {
@@ -510,7 +533,7 @@ public:
         auto* holder = createHolder<typename std::decay<T>::type>();
         try
         {
-            holder->set(std::forward<T>(value));
+            holder->set(get_allocator_ref(), std::forward<T>(value));
         }
         catch (...)
         {
-- 
2.43.0


From 5f87154ebbcd22cd6a37f54153c24b9a0ecaaf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 19/46] fix: swap of Any with propagating allocators must keep
 storage together with its allocator

---
 runtime/src/zserio/Any.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 4dc68c7..64517ad 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -503,14 +503,17 @@ public:
         else
         {
             BasicAny tmp(std::move(*this), get_allocator_ref());
+            if constexpr (AllocTraits::propagate_on_container_swap::value)
+            {
+                // storage must stay together with the allocator used for its allocation
+                set_allocator(other.get_allocator_ref());
+            }
             move(std::move(other));
-            other.move(std::move(tmp));
-
             if constexpr (AllocTraits::propagate_on_container_swap::value)
             {
-                using std::swap;
-                swap(get_allocator_ref(), other.get_allocator_ref());
+                other.set_allocator(tmp.get_allocator_ref());
             }
+            other.move(std::move(tmp));
         }
     }
 
-- 
2.43.0


From 7d00bdc8bf3fd48ca1c77426f0fae508e4a16224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 20/46] fix: throwing move in swap of Any must not leave a
 value in the wrong holder

---
 runtime/src/zserio/Any.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 64517ad..8f68ab5 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -495,6 +495,11 @@ public:
      */
     void swap(BasicAny& other)
     {
+        if (this == &other)
+        {
+            return;
+        }
+
         if (!m_isInPlace && m_untypedHolder.heap != nullptr && !other.m_isInPlace &&
                 other.m_untypedHolder.heap != nullptr && get_allocator_ref() == other.get_allocator_ref())
         {
@@ -502,18 +507,18 @@ public:
         }
         else
         {
-            BasicAny tmp(std::move(*this), get_allocator_ref());
-            if constexpr (AllocTraits::propagate_on_container_swap::value)
+            // prepare both values first, a throwing move must not leave a value in the wrong holder
+            constexpr bool propagate = AllocTraits::propagate_on_container_swap::value;
+            BasicAny newThis(std::move(other), propagate ? other.get_allocator() : get_allocator());
+            BasicAny newOther(std::move(*this), propagate ? get_allocator() : other.get_allocator());
+            if constexpr (propagate)
             {
                 // storage must stay together with the allocator used for its allocation
-                set_allocator(other.get_allocator_ref());
-            }
-            move(std::move(other));
-            if constexpr (AllocTraits::propagate_on_container_swap::value)
-            {
-                other.set_allocator(tmp.get_allocator_ref());
+                set_allocator(newThis.get_allocator_ref());
+                other.set_allocator(newOther.get_allocator_ref());
             }
-            other.move(std::move(tmp));
+            move(std::move(newThis));
+            other.move(std::move(newOther));
         }
     }
 
-- 
2.43.0


From b1e5835fb32ca23fad311007b2caaf57e4f433a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 21/46] fix: toJsonString must not return incomplete text when
 the stream fails

---
 runtime/src/zserio/DebugStringUtil.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 72b6c1e..e7bd6c0 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -50,6 +50,7 @@ BasicString<RebindAlloc<ALLOC, char>> toJsonString(
 {
     auto stream = std::basic_ostringstream<char, std::char_traits<char>, RebindAlloc<ALLOC, char>>(
             BasicString<RebindAlloc<ALLOC, char>>(allocator));
+    stream.exceptions(std::ios_base::badbit); // don't hide e.g. std::bad_alloc, the text would be incomplete
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
     return stream.str();
 }
-- 
2.43.0


From cdd033a386354fcc05b2c84277e6da53421baec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 22/46] fix: createInstance must construct the object with the
 supplied allocator

---
 runtime/src/zserio/ReflectableData.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/zserio/ReflectableData.h b/runtime/src/zserio/ReflectableData.h
index 9d915cc..49094a9 100644
--- a/runtime/src/zserio/ReflectableData.h
+++ b/runtime/src/zserio/ReflectableData.h
@@ -965,6 +965,8 @@ template <typename T, typename ALLOC = typename T::allocator_type>
 class ReflectableDataOwner : public IBasicReflectableData<ALLOC>
 {
 public:
+    using allocator_type = ALLOC; // enables uses-allocator construction in allocate_shared
+
     ReflectableDataOwner() :
             ReflectableDataOwner(ALLOC())
     {}
-- 
2.43.0


From 10be0f2344aa26303ec6896ae167a43bf0f04f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 23/46] fix: float values must be encoded to JSON without loss
 of precision

---
 runtime/src/zserio/JsonEncoder.cpp | 39 +++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonEncoder.cpp b/runtime/src/zserio/JsonEncoder.cpp
index 033230d..5bc3674 100644
--- a/runtime/src/zserio/JsonEncoder.cpp
+++ b/runtime/src/zserio/JsonEncoder.cpp
@@ -1,12 +1,39 @@
 #include <array>
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
 #include <iomanip>
+#include <limits>
 
 #include "zserio/JsonEncoder.h"
 
 namespace zserio
 {
 
+namespace
+{
+
+constexpr int MIN_PRECISION = std::numeric_limits<double>::digits10;
+constexpr int MAX_PRECISION = std::numeric_limits<double>::max_digits10;
+
+// gets the lowest precision (at least MIN_PRECISION) which preserves the given finite value
+int getPrecision(double value)
+{
+    for (int precision = MIN_PRECISION; precision < MAX_PRECISION; ++precision)
+    {
+        std::array<char, 32> buffer = {};
+        (void)std::snprintf(buffer.data(), buffer.size(), "%.*g", precision, value);
+        if (std::strtod(buffer.data(), nullptr) == value)
+        {
+            return precision;
+        }
+    }
+
+    return MAX_PRECISION;
+}
+
+} // namespace
+
 void JsonEncoder::encodeNull(std::ostream& stream)
 {
     stream << "null";
@@ -42,7 +69,17 @@ void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
         }
         else
         {
-            stream << std::setprecision(15) << value << std::defaultfloat;
+            // 15 digits are readable but not always sufficient to get the same value back
+            const int precision = getPrecision(value);
+            if (fractPart == 0.0 && precision == MAX_PRECISION && intPart > -1e17 && intPart < 1e17)
+            {
+                // avoid text which would look like an integer
+                stream << std::fixed << std::setprecision(1) << value << std::defaultfloat;
+            }
+            else
+            {
+                stream << std::setprecision(precision) << value << std::defaultfloat;
+            }
         }
     }
 }
-- 
2.43.0


From fb8482af6d834698f74801ffd37faf4e8bc6d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 24/46] fix: JSON tokenizer must not keep the previous token at
 the end of an input chunk

---
 runtime/src/zserio/JsonTokenizer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 7152934..7b0ee96 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -234,6 +234,7 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         m_decoderResult = m_decoder.decodeValue(std::string_view(m_content.data()).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
+            setToken(JsonToken::UNKNOWN); // something is there, it's not the end of file
             return false; // we are at the end of chunk => read more
         }
 
-- 
2.43.0


From 8cd24a0ea5a1c228ed0929eebe1187e6e5ea5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 25/46] fix: JSON number decoding must not read behind the end
 of the given text

---
 runtime/src/zserio/JsonDecoder.h | 47 ++++++++++++++++----------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index 9b543a1..e5d5daa 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -1,10 +1,11 @@
 #ifndef ZSERIO_JSON_DECODER_H_INC
 #define ZSERIO_JSON_DECODER_H_INC
 
-#include <cerrno>
+#include <charconv>
 #include <cmath>
 #include <cstdlib>
 #include <string_view>
+#include <system_error>
 #include <utility>
 
 #include "zserio/AllocatorHolder.h"
@@ -149,8 +150,8 @@ private:
     static int32_t decodeHex(char character);
     size_t checkNumber(std::string_view input, bool& isDouble, bool& isSigned);
     DecoderResult decodeNumber(std::string_view input);
-    DecoderResult decodeSigned(std::string_view input);
-    DecoderResult decodeUnsigned(std::string_view input);
+    DecoderResult decodeSigned(std::string_view input, size_t numChars);
+    DecoderResult decodeUnsigned(std::string_view input, size_t numChars);
     DecoderResult decodeDouble(std::string_view input, size_t numChars);
 };
 
@@ -404,47 +405,45 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeN
     }
     else if (isSigned)
     {
-        return decodeSigned(input);
+        return decodeSigned(input, numChars);
     }
     else
     {
-        return decodeUnsigned(input);
+        return decodeUnsigned(input, numChars);
     }
 }
 
 template <typename ALLOC>
-typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(std::string_view input)
+typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(
+        std::string_view input, size_t numChars)
 {
-    const char* pBegin = &input.front();
-    char* pEnd = nullptr;
-    errno = 0; // no library function sets its value back to zero once changed
-    const int64_t value = std::strtoll(pBegin, &pEnd, 10);
-
-    const bool overflow = (errno == ERANGE);
-    const size_t numRead = static_cast<size_t>(pEnd - pBegin);
+    const char* pBegin = input.data(); // note that input doesn't have to be null-terminated
+    int64_t value = 0;
+    const std::from_chars_result result = std::from_chars(pBegin, pBegin + numChars, value);
+    const bool overflow = (result.ec == std::errc::result_out_of_range);
 
-    return DecoderResult(numRead, value, overflow, get_allocator());
+    return DecoderResult(numChars, value, overflow, get_allocator());
 }
 
 template <typename ALLOC>
-typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(std::string_view input)
+typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(
+        std::string_view input, size_t numChars)
 {
-    const char* pBegin = &input.front();
-    char* pEnd = nullptr;
-    errno = 0; // no library function sets its value back to zero once changed
-    const uint64_t value = std::strtoull(pBegin, &pEnd, 10);
-
-    const bool overflow = (errno == ERANGE);
-    const size_t numRead = static_cast<size_t>(pEnd - pBegin);
+    const char* pBegin = input.data(); // note that input doesn't have to be null-terminated
+    uint64_t value = 0;
+    const std::from_chars_result result = std::from_chars(pBegin, pBegin + numChars, value);
+    const bool overflow = (result.ec == std::errc::result_out_of_range);
 
-    return DecoderResult(numRead, value, overflow, get_allocator());
+    return DecoderResult(numChars, value, overflow, get_allocator());
 }
 
 template <typename ALLOC>
 typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeDouble(
         std::string_view input, size_t numChars)
 {
-    const char* pBegin = &input.front();
+    // note that input doesn't have to be null-terminated
+    const BasicString<RebindAlloc<ALLOC, char>> number(input.data(), numChars, get_allocator());
+    const char* pBegin = number.c_str();
     char* pEnd = nullptr;
     const double value = std::strtod(pBegin, &pEnd);
     if (static_cast<size_t>(pEnd - pBegin) != numChars)
-- 
2.43.0


From 3b27925459afc2c8abe0d63dac581babba172a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 26/46] fix: JSON escapes u0080 to u00ff must be decoded to
 UTF-8

---
 runtime/src/zserio/JsonDecoder.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index e5d5daa..74df91b 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -297,8 +297,16 @@ bool BasicJsonDecoder<ALLOC>::decodeUnicodeEscape(std::string_view input,
 
     const uint32_t characterInt = (static_cast<uint32_t>(hex1) << 4U) | static_cast<uint32_t>(hex2);
     using char_traits = std::char_traits<char>;
-    const char character = char_traits::to_char_type(static_cast<char_traits::int_type>(characterInt));
-    value.push_back(character);
+    if (characterInt <= 0x7FU)
+    {
+        value.push_back(char_traits::to_char_type(static_cast<char_traits::int_type>(characterInt)));
+    }
+    else
+    {
+        // strings are encoded in UTF-8
+        value.push_back(char_traits::to_char_type(static_cast<char_traits::int_type>(0xC0U | (characterInt >> 6U))));
+        value.push_back(char_traits::to_char_type(static_cast<char_traits::int_type>(0x80U | (characterInt & 0x3FU))));
+    }
 
     return true;
 }
-- 
2.43.0


From 62c8ff1c61e172eaef01579d9696d9feda036a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 27/46] fix: deep comparison must tell huge floating point
 values apart

---
 runtime/src/zserio/ReflectableUtil.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ReflectableUtil.h b/runtime/src/zserio/ReflectableUtil.h
index eeecce0..c6560a7 100644
--- a/runtime/src/zserio/ReflectableUtil.h
+++ b/runtime/src/zserio/ReflectableUtil.h
@@ -306,7 +306,9 @@ inline bool ReflectableUtil::doubleValuesAlmostEqual(double lhs, double rhs)
     }
 
     // see: https://en.cppreference.com/w/cpp/types/numeric_limits/epsilon
-    return std::fabs(lhs - rhs) <= std::numeric_limits<double>::epsilon() * std::fabs(lhs + rhs) ||
+    // (the relative comparison is halved on both sides, the sum of huge values would overflow to infinity)
+    return std::fabs(lhs - rhs) / 2.0 <=
+                    std::numeric_limits<double>::epsilon() * std::fabs(lhs / 2.0 + rhs / 2.0) ||
             std::fabs(lhs - rhs) < std::numeric_limits<double>::min();
 }
 
-- 
2.43.0


From c40d733636869c4fef2b5e1d88a1d99289784b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 28/46] fix: regex walk filter must admit array elements
 matched by their own path

---
 runtime/src/zserio/Walker.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Walker.h b/runtime/src/zserio/Walker.h
index 073baac..7f79f73 100644
--- a/runtime/src/zserio/Walker.h
+++ b/runtime/src/zserio/Walker.h
@@ -786,7 +786,8 @@ bool BasicRegexWalkFilter<ALLOC>::beforeArray(
         m_currentPath.back() =
                 toString(fieldInfo.schemaName, m_allocator) + "[" + toString(i, m_allocator) + "]";
 
-        if (matchSubtree(array->at(i), fieldInfo))
+        // note that a not null compound element itself is not part of its subtree
+        if (std::regex_match(getCurrentPath(), m_pathRegex) || matchSubtree(array->at(i), fieldInfo))
         {
             return true;
         }
-- 
2.43.0


From 51ae13e0c0a1ff58eed289dcd3dd9feaf550293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 29/46] fix: tree creator must accept the zserio Bool wrapper
 as a bool

---
 runtime/src/zserio/ZserioTreeCreator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index 9384d00..d9dbe0b 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -16,6 +16,7 @@
 #include "zserio/Span.h"
 #include "zserio/Traits.h"
 #include "zserio/TypeInfoUtil.h"
+#include "zserio/Types.h"
 #include "zserio/Vector.h"
 
 namespace zserio
@@ -397,6 +398,13 @@ BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>&, BasicAny<ALLOC>&& any
     return std::move(anyValue);
 }
 
+// overload for zserio bool wrapper, it behaves in the same way as the native bool
+template <typename ALLOC>
+BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>& typeInfo, Bool value, const ALLOC& allocator)
+{
+    return makeAnyValue(typeInfo, static_cast<bool>(value), allocator);
+}
+
 enum class CreatorState : uint8_t
 {
     BEFORE_ROOT,
-- 
2.43.0


From 65c9e712b92c21e72b803f8ceec753bccf64c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 30/46] fix: bitmask text needs a separator between identifiers

---
 runtime/src/zserio/ZserioTreeCreator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index d9dbe0b..c65ceec 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -264,8 +264,12 @@ BasicAny<ALLOC> parseBitmaskStringValue(
             ++pos;
         }
 
-        if (pos < stringValue.size() && stringValue[pos] == '|')
+        if (pos < stringValue.size())
         {
+            if (stringValue[pos] != '|')
+            {
+                break; // identifiers must be separated
+            }
             ++pos;
         }
 
-- 
2.43.0


From ac90c4f1837e0d31f6328e6840f916c3523ce71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 31/46] fix: ZserioTreeCreator: null array element is refused
 instead of dereferenced

---
 runtime/src/zserio/ZserioTreeCreator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index c65ceec..487ca8a 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -409,6 +409,14 @@ BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>& typeInfo, Bool value,
     return makeAnyValue(typeInfo, static_cast<bool>(value), allocator);
 }
 
+// overload for null, it can be never converted to a value
+template <typename ALLOC>
+BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>& typeInfo, std::nullptr_t, const ALLOC&)
+{
+    throw CppRuntimeException("ZserioTreeCreator: Null cannot be converted to '")
+            << typeInfo.getSchemaName() << "' value!";
+}
+
 enum class CreatorState : uint8_t
 {
     BEFORE_ROOT,
-- 
2.43.0


From 34b73dde0e4a7bf51bff5c002e6936aacc7c6c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 32/46] fix: keep sign and leading zeros when converting float
 to text, handle NaN

---
 runtime/src/zserio/StringConvertUtil.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/StringConvertUtil.h b/runtime/src/zserio/StringConvertUtil.h
index 221b0ef..8b73669 100644
--- a/runtime/src/zserio/StringConvertUtil.h
+++ b/runtime/src/zserio/StringConvertUtil.h
@@ -2,6 +2,7 @@
 #define ZSERIO_STRING_CONVERT_UTIL_H_INC
 
 #include <array>
+#include <cmath>
 #include <limits>
 #include <sstream>
 #include <string_view>
@@ -120,7 +121,12 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         std::array<char, 24>& floatingPartBuffer, float value, const char*& integerPartString,
         const char*& floatingPartString)
 {
-    if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
+    if (std::isnan(value))
+    {
+        integerPartString = "NaN";
+        floatingPartString = nullptr;
+    }
+    else if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
     {
         integerPartString = "+Inf";
         floatingPartString = nullptr;
@@ -136,8 +142,12 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         const int64_t floatingPart =
                 static_cast<int64_t>((value - static_cast<float>(integerPart)) * 1e3F); // 3 digits
         const int64_t floatingPartAbs = (floatingPart < 0) ? 0 - floatingPart : floatingPart;
-        integerPartString = convertIntToString(integerPartBuffer, integerPart);
-        floatingPartString = convertIntToString(floatingPartBuffer, floatingPartAbs);
+        integerPartString = (integerPart == 0 && value < 0.0F)
+                ? "-0" // don't lose the sign
+                : convertIntToString(integerPartBuffer, integerPart);
+        floatingPartString = (floatingPartAbs == 0)
+                ? "0"
+                : convertIntToString(floatingPartBuffer, floatingPartAbs + 1000) + 1; // keep leading zeros
     }
 }
 
-- 
2.43.0


From da6fea21df4a7c4e2136956d4c1b624df6b49d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:12 +0000
Subject: [PATCH 33/46] fix: JsonReader: read at end of input doesn't return
 previously read object

---
 runtime/src/zserio/JsonReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/JsonReader.h b/runtime/src/zserio/JsonReader.h
index b5114d8..da9f35b 100644
--- a/runtime/src/zserio/JsonReader.h
+++ b/runtime/src/zserio/JsonReader.h
@@ -497,6 +497,7 @@ template <typename ALLOC>
 void CreatorAdapter<ALLOC>::setType(const IBasicTypeInfo<ALLOC>& typeInfo)
 {
     m_creator = BasicZserioTreeCreator<ALLOC>(typeInfo, get_allocator());
+    m_object.reset(); // don't keep the object created by a previous read
 }
 
 template <typename ALLOC>
-- 
2.43.0


From d54750cbfd41ffd5db813dc834316e5704ab7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 34/46] fix: doubles in exception texts were rounded to float

---
 runtime/src/zserio/CppRuntimeException.cpp | 37 ++++++++++++++--------
 runtime/src/zserio/StringConvertUtil.h     | 27 +++++++++-------
 2 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/runtime/src/zserio/CppRuntimeException.cpp b/runtime/src/zserio/CppRuntimeException.cpp
index 4354bc1..fbf08f0 100644
--- a/runtime/src/zserio/CppRuntimeException.cpp
+++ b/runtime/src/zserio/CppRuntimeException.cpp
@@ -6,6 +6,28 @@
 namespace zserio
 {
 
+namespace
+{
+
+template <typename T>
+CppRuntimeException& appendFloat(CppRuntimeException& exception, T value)
+{
+    std::array<char, 24> integerPartBuffer = {};
+    std::array<char, 24> floatingPartBuffer = {};
+    const char* integerPartString = nullptr;
+    const char* floatingPartString = nullptr;
+    convertFloatToString(integerPartBuffer, floatingPartBuffer, value, integerPartString, floatingPartString);
+    CppRuntimeException& result = exception << integerPartString;
+    if (floatingPartString != nullptr)
+    {
+        result = result << "." << floatingPartString;
+    }
+
+    return result;
+}
+
+} // namespace
+
 CppRuntimeException::CppRuntimeException(const char* message) :
         m_buffer()
 {
@@ -56,23 +78,12 @@ CppRuntimeException& operator<<(CppRuntimeException& exception, bool value)
 
 CppRuntimeException& operator<<(CppRuntimeException& exception, float value)
 {
-    std::array<char, 24> integerPartBuffer = {};
-    std::array<char, 24> floatingPartBuffer = {};
-    const char* integerPartString = nullptr;
-    const char* floatingPartString = nullptr;
-    convertFloatToString(integerPartBuffer, floatingPartBuffer, value, integerPartString, floatingPartString);
-    CppRuntimeException& result = exception << integerPartString;
-    if (floatingPartString != nullptr)
-    {
-        result = result << "." << floatingPartString;
-    }
-
-    return result;
+    return appendFloat(exception, value);
 }
 
 CppRuntimeException& operator<<(CppRuntimeException& exception, double value)
 {
-    return exception << (static_cast<float>(value));
+    return appendFloat(exception, value);
 }
 
 CppRuntimeException& operator<<(CppRuntimeException& exception, std::string_view value)
diff --git a/runtime/src/zserio/StringConvertUtil.h b/runtime/src/zserio/StringConvertUtil.h
index 8b73669..eff1340 100644
--- a/runtime/src/zserio/StringConvertUtil.h
+++ b/runtime/src/zserio/StringConvertUtil.h
@@ -107,7 +107,7 @@ const char* convertIntToString(std::array<char, 24>& buffer, T value)
 }
 
 /**
- * Converts float to string and writes the result to the given buffer.
+ * Converts float or double to string and writes the result to the given buffer.
  *
  * Note that only five three digits after point are used and that the buffers are filled from behind.
  *
@@ -117,21 +117,21 @@ const char* convertIntToString(std::array<char, 24>& buffer, T value)
  * \param floatingPartString Reference where to fill pointer to the beginning of the floating part in string.
  * \param integerPartString Reference where to fill pointer to the beginning of the integer part in string.
  */
-inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
-        std::array<char, 24>& floatingPartBuffer, float value, const char*& integerPartString,
-        const char*& floatingPartString)
+template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
+void convertFloatToString(std::array<char, 24>& integerPartBuffer, std::array<char, 24>& floatingPartBuffer,
+        T value, const char*& integerPartString, const char*& floatingPartString)
 {
     if (std::isnan(value))
     {
         integerPartString = "NaN";
         floatingPartString = nullptr;
     }
-    else if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
+    else if (value >= static_cast<T>(std::numeric_limits<int64_t>::max()))
     {
         integerPartString = "+Inf";
         floatingPartString = nullptr;
     }
-    else if (value <= static_cast<float>(std::numeric_limits<int64_t>::min()))
+    else if (value <= static_cast<T>(std::numeric_limits<int64_t>::min()))
     {
         integerPartString = "-Inf";
         floatingPartString = nullptr;
@@ -139,15 +139,18 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
     else
     {
         const int64_t integerPart = static_cast<int64_t>(value);
-        const int64_t floatingPart =
-                static_cast<int64_t>((value - static_cast<float>(integerPart)) * 1e3F); // 3 digits
-        const int64_t floatingPartAbs = (floatingPart < 0) ? 0 - floatingPart : floatingPart;
-        integerPartString = (integerPart == 0 && value < 0.0F)
+        const T fraction = std::abs(value - static_cast<T>(integerPart));
+        int64_t floatingPart = static_cast<int64_t>(fraction * static_cast<T>(1000)); // 3 digits
+        if (std::fma(fraction, static_cast<T>(1000), -static_cast<T>(floatingPart)) < static_cast<T>(0))
+        {
+            --floatingPart; // the product was rounded up
+        }
+        integerPartString = (integerPart == 0 && value < static_cast<T>(0))
                 ? "-0" // don't lose the sign
                 : convertIntToString(integerPartBuffer, integerPart);
-        floatingPartString = (floatingPartAbs == 0)
+        floatingPartString = (floatingPart == 0)
                 ? "0"
-                : convertIntToString(floatingPartBuffer, floatingPartAbs + 1000) + 1; // keep leading zeros
+                : convertIntToString(floatingPartBuffer, floatingPart + 1000) + 1; // keep leading zeros
     }
 }
 
-- 
2.43.0


From 43431e8c1903f3d444e7e1dbc021052adf22e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:46 +0000
Subject: [PATCH 35/46] fix: columns of dynamic bit fields did not compile

---
 runtime/src/zserio/SqliteUtil.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 542f94f..2967571 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -25,7 +25,7 @@ template <typename T, typename = void>
 struct ColumnTraits;
 
 template <typename T>
-struct ColumnTraits<T, std::enable_if_t<is_complete_v<View<T>>>>
+struct ColumnTraits<T, std::enable_if_t<is_complete_v<View<T>> && !is_numeric_wrapper_v<T>>>
 {
     static constexpr std::string_view TYPE_NAME = "BLOB";
     static constexpr int TYPE = SQLITE_BLOB;
@@ -61,7 +61,7 @@ struct ColumnTraits<BasicString<ALLOC>>
 };
 
 template <typename ALLOC, typename T, typename... ARGS>
-std::enable_if_t<is_complete_v<View<T>>> readColumn(
+std::enable_if_t<is_complete_v<View<T>> && !is_numeric_wrapper_v<T>> readColumn(
         BasicOptional<ALLOC, T>& column, sqlite3_stmt& stmt, int index, const ARGS&... args)
 {
     // blob
@@ -181,11 +181,17 @@ int bindColumn(sqlite3_stmt& stmt, int index, FixedIntWrapper<BIT_SIZE, IS_SIGNE
 }
 
 template <typename ALLOC, typename T>
-int bindColumn(sqlite3_stmt& stmt, DynIntWrapper<T> value, BitSize, int index, const ALLOC&)
+int bindColumn(sqlite3_stmt& stmt, int index, DynIntWrapper<T> value, BitSize, const ALLOC&)
 {
     return sqlite3_bind_int64(&stmt, index, static_cast<int64_t>(value));
 }
 
+template <typename ALLOC, typename T>
+int bindColumn(sqlite3_stmt& stmt, int index, const View<DynIntWrapper<T>>& view, BitSize, const ALLOC&)
+{
+    return sqlite3_bind_int64(&stmt, index, static_cast<int64_t>(view.value()));
+}
+
 template <typename ALLOC, typename VALUE_TYPE, VarIntType VAR_TYPE>
 int bindColumn(sqlite3_stmt& stmt, int index, VarIntWrapper<VALUE_TYPE, VAR_TYPE> value, BitSize, const ALLOC&)
 {
-- 
2.43.0


From 2cda8e8ae479bec6c7eec6db6a329f946096d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 36/46] fix: an object with an empty encoding was stored as SQL
 NULL

---
 runtime/src/zserio/SqliteUtil.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 2967571..b503029 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -151,6 +151,10 @@ int bindColumn(sqlite3_stmt& stmt, int index, const View<T>& view, BitSize bitSi
     BasicBitBuffer<ALLOC> bitBuffer(bitSize, allocator);
     BitStreamWriter writer(bitBuffer);
     write(writer, view);
+    if (bitBuffer.getByteSize() == 0)
+    {
+        return sqlite3_bind_zeroblob(&stmt, index, 0); // sqlite3_bind_blob would bind NULL
+    }
     return sqlite3_bind_blob(
             &stmt, index, bitBuffer.getBuffer(), static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
 }
-- 
2.43.0


From 1f3b7c714dbbeb3db9b0178c72212bf17b95b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:49 +0000
Subject: [PATCH 37/46] fix: SQLite text columns were cut at the first NUL
 character

---
 runtime/src/zserio/SqliteUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index b503029..a286a93 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -129,7 +129,8 @@ void readColumn(
         BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>& column, sqlite3_stmt& stmt, int index)
 {
     const unsigned char* textValue = sqlite3_column_text(&stmt, index);
-    column.emplace(reinterpret_cast<const char*>(textValue));
+    const int textLength = sqlite3_column_bytes(&stmt, index); // the text can contain '\0' characters
+    column.emplace(reinterpret_cast<const char*>(textValue), static_cast<size_t>(textLength));
 }
 
 template <typename T>
-- 
2.43.0


From df29ae8de6fea03408ffe2dbd554655c2c132323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:25 +0000
Subject: [PATCH 38/46] fix: file names given as string views were read up to a
 NUL behind the view

---
 runtime/src/zserio/DebugStringUtil.h | 6 ++++--
 runtime/src/zserio/FileUtil.cpp      | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index e7bd6c0..7525e92 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -15,6 +15,8 @@
 
 #include <fstream>
 #include <sstream>
+#include <string>
+#include <string_view>
 #include <utility>
 
 #include "zserio/JsonReader.h"
@@ -59,7 +61,7 @@ template <typename T, typename WALK_FILTER, typename ALLOC>
 void toJsonFile(const T& object, std::string_view fileName, uint8_t indent, WALK_FILTER&& walkFilter,
         const ALLOC& allocator)
 {
-    std::ofstream stream = std::ofstream(fileName.data(), std::ios::out | std::ios::trunc);
+    std::ofstream stream = std::ofstream(std::string(fileName), std::ios::out | std::ios::trunc);
     if (!stream)
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to open '") << fileName << "'!";
@@ -583,7 +585,7 @@ template <typename ALLOC = std::allocator<uint8_t>>
 typename detail::DebugStringTraits<ALLOC>::ReflectableDataPtr fromJsonFile(
         const IBasicTypeInfo<ALLOC>& typeInfo, std::string_view fileName, const ALLOC& allocator = ALLOC())
 {
-    std::ifstream is = std::ifstream(fileName.data());
+    std::ifstream is = std::ifstream(std::string(fileName));
     if (!is)
     {
         throw CppRuntimeException("DebugStringUtil.fromJsonFile: Failed to open '") << fileName << "'!";
diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 9bbc5f6..040f6a6 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <string>
 #include <string_view>
 
 #include "zserio/CppRuntimeException.h"
@@ -9,7 +10,7 @@ namespace zserio
 
 void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::string_view fileName)
 {
-    std::ofstream stream(fileName.data(), std::ofstream::binary | std::ofstream::trunc);
+    std::ofstream stream(std::string(fileName), std::ofstream::binary | std::ofstream::trunc);
     if (!stream)
     {
         throw CppRuntimeException("writeBufferToFile: Failed to open '") << fileName << "' for writing!";
@@ -24,7 +25,7 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::stri
 
 BitBuffer readBufferFromFile(std::string_view fileName)
 {
-    std::ifstream stream(fileName.data(), std::ifstream::binary);
+    std::ifstream stream(std::string(fileName), std::ifstream::binary);
     if (!stream)
     {
         throw CppRuntimeException("readBufferFromFile: Cannot open '") << fileName << "' for reading!";
-- 
2.43.0


From d91eed3ddbbc9a81b8a5ed84527ade44e4da5227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 39/46] fix: failures to write the buffered end of a file were
 not reported

---
 runtime/src/zserio/DebugStringUtil.h | 1 +
 runtime/src/zserio/FileUtil.cpp      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 7525e92..5da5d80 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -69,6 +69,7 @@ void toJsonFile(const T& object, std::string_view fileName, uint8_t indent, WALK
 
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
 
+    stream.close(); // sets failbit when the buffered data cannot be written
     if (!stream)
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to write '") << fileName << "'!";
diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 040f6a6..ed1d9dd 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -17,7 +17,9 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::stri
     }
 
     const size_t byteSize = (bitSize + 7) / 8;
-    if (!stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize)))
+    (void)stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize));
+    stream.close(); // sets failbit when the buffered data cannot be written
+    if (!stream)
     {
         throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
     }
-- 
2.43.0


From dc43c32e3acccabac4d65ba7edf409dcefb0b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:46 +0000
Subject: [PATCH 40/46] fix: files whose size modulo 2^32 is 2^32 - 1 could not
 be read

---
 runtime/src/zserio/FileUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index ed1d9dd..c5f60a1 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -37,7 +37,7 @@ BitBuffer readBufferFromFile(std::string_view fileName)
     const std::streampos fileSize = stream.tellg();
     (void)stream.seekg(0);
 
-    if (static_cast<int>(fileSize) == -1)
+    if (fileSize == std::streampos(-1))
     {
         throw CppRuntimeException("readBufferFromFile: Failed to get file size of '") << fileName << "'!";
     }
-- 
2.43.0


From c144700b8bd24a27bcbc1709e24235a2d164047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:30 +0000
Subject: [PATCH 41/46] fix: JSON input which cannot be read ended in
 std::ios_base::failure

---
 runtime/src/zserio/JsonTokenizer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 7b0ee96..447ceb7 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -188,7 +188,15 @@ JsonToken BasicJsonTokenizer<ALLOC>::next()
 template <typename ALLOC>
 BasicString<RebindAlloc<ALLOC, char>> BasicJsonTokenizer<ALLOC>::readContent(const ALLOC& allocator)
 {
-    const size_t count = static_cast<size_t>(m_in.rdbuf()->sgetn(m_buffer.data(), BUFFER_SIZE));
+    size_t count = 0;
+    try
+    {
+        count = static_cast<size_t>(m_in.rdbuf()->sgetn(m_buffer.data(), BUFFER_SIZE));
+    }
+    catch (const std::ios_base::failure& e) // the stream buffer may throw, e.g. when reading of a file fails
+    {
+        throw CppRuntimeException("JsonTokenizer: Failed to read input! ") << e.what();
+    }
 
     return BasicString<RebindAlloc<ALLOC, char>>(m_buffer.data(), count, allocator);
 }
-- 
2.43.0


From ceae75d2587d37c8832d9bf6abf9eaa2b9e70ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:54 +0000
Subject: [PATCH 42/46] fix: moved-from bit buffers and ones whose assignment
 failed must not declare bits they do not store

---
 runtime/src/zserio/BitBuffer.h | 63 +++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 4e62fbc..48763ae 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -125,14 +125,26 @@ public:
     ~BasicBitBuffer() = default;
 
     BasicBitBuffer(const BasicBitBuffer&) = default;
-    BasicBitBuffer& operator=(const BasicBitBuffer&) = default;
-
-    BasicBitBuffer(BasicBitBuffer&&) = default;
-    BasicBitBuffer& operator=(BasicBitBuffer&&) = default;
     /**
      * \}
      */
 
+    /**
+     * Copy assignment operator.
+     */
+    BasicBitBuffer& operator=(const BasicBitBuffer& other);
+
+    /**
+     * Move constructor. The other bit buffer is left empty.
+     */
+    BasicBitBuffer(BasicBitBuffer&& other) noexcept;
+
+    /**
+     * Move assignment operator. The other bit buffer is left empty.
+     */
+    BasicBitBuffer& operator=(BasicBitBuffer&& other) noexcept(
+            std::is_nothrow_move_assignable<std::vector<uint8_t, ALLOC>>::value);
+
     /**
      * Equal operator.
      *
@@ -328,7 +340,48 @@ template <typename ALLOC>
 inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other, const ALLOC& allocator) :
         m_buffer(std::move(other.m_buffer), allocator),
         m_bitSize(other.m_bitSize)
-{}
+{
+    other.m_buffer.clear();
+    other.m_bitSize = 0; // the number of bits must always fit to the storage
+}
+
+template <typename ALLOC>
+inline BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(const BasicBitBuffer& other)
+{
+    if (this != &other)
+    {
+        m_bitSize = 0; // the storage can be lost when the assignment throws
+        m_buffer = other.m_buffer;
+        m_bitSize = other.m_bitSize;
+    }
+
+    return *this;
+}
+
+template <typename ALLOC>
+inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other) noexcept :
+        m_buffer(std::move(other.m_buffer)),
+        m_bitSize(other.m_bitSize)
+{
+    other.m_buffer.clear();
+    other.m_bitSize = 0; // the number of bits must always fit to the storage
+}
+
+template <typename ALLOC>
+inline BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(BasicBitBuffer&& other) noexcept(
+        std::is_nothrow_move_assignable<std::vector<uint8_t, ALLOC>>::value)
+{
+    if (this != &other)
+    {
+        m_bitSize = 0; // the storage can be lost when the assignment throws
+        m_buffer = std::move(other.m_buffer);
+        m_bitSize = other.m_bitSize;
+        other.m_buffer.clear();
+        other.m_bitSize = 0; // the number of bits must always fit to the storage
+    }
+
+    return *this;
+}
 
 template <typename ALLOC>
 bool BasicBitBuffer<ALLOC>::operator==(const BasicBitBuffer& other) const
-- 
2.43.0


From 9b396395fbc402fa65876b76c034cc830e1794b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:18 +0000
Subject: [PATCH 43/46] fix: optionals can be assigned from a part of their own
 value

---
 runtime/src/zserio/Optional.h | 59 +++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index 6baf400..e8d3f93 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -297,12 +297,27 @@ public:
     {
         if (this != &other)
         {
-            clear();
-            if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
+            constexpr bool propagate = AllocTraits::propagate_on_container_copy_assignment::value;
+            if constexpr (detail::is_optional_heap_allocated_v<T>)
+            {
+                // other can be a part of the value stored here (e.g. list = list->next), copy it before clearing
+                BasicOptional copied(other, propagate ? other.get_allocator_ref() : get_allocator_ref());
+                clear();
+                if constexpr (propagate)
+                {
+                    set_allocator(copied.get_allocator_ref());
+                }
+                move(std::move(copied));
+            }
+            else
             {
-                set_allocator(other.get_allocator_ref());
+                clear();
+                if constexpr (propagate)
+                {
+                    set_allocator(other.get_allocator_ref());
+                }
+                copy(other);
             }
-            copy(other);
         }
 
         return *this;
@@ -360,7 +375,17 @@ public:
                 return *this; // self assignment, the contained value must not be destroyed
             }
         }
-        emplace(std::forward<U>(value));
+        if constexpr (detail::is_optional_heap_allocated_v<T>)
+        {
+            // value can be a part of the value stored here (e.g. list = *list->next), use it before clearing
+            T* ptr = allocateValue(std::forward<U>(value));
+            clear();
+            m_data.emplace(ptr);
+        }
+        else
+        {
+            emplace(std::forward<U>(value));
+        }
         return *this;
     }
 
@@ -402,12 +427,28 @@ public:
     {
         if (this != &other)
         {
-            clear();
-            if constexpr (AllocTraits::propagate_on_container_move_assignment::value)
+            constexpr bool propagate = AllocTraits::propagate_on_container_move_assignment::value;
+            if constexpr (detail::is_optional_heap_allocated_v<T>)
             {
-                set_allocator(std::move(other.get_allocator_ref()));
+                // other can be a part of the value stored here (e.g. list = std::move(list->next))
+                BasicOptional moved(
+                        std::move(other), propagate ? other.get_allocator_ref() : get_allocator_ref());
+                clear();
+                if constexpr (propagate)
+                {
+                    set_allocator(moved.get_allocator_ref());
+                }
+                move(std::move(moved));
+            }
+            else
+            {
+                clear();
+                if constexpr (propagate)
+                {
+                    set_allocator(std::move(other.get_allocator_ref()));
+                }
+                move(std::move(other));
             }
-            move(std::move(other));
         }
 
         return *this;
-- 
2.43.0


From 36302319f27b9b12d9eda32ae357ae28da885ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:29 +0000
Subject: [PATCH 44/46] fix: any holders can be assigned from a part of their
 own value

---
 runtime/src/zserio/Any.h | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 8f68ab5..9e2f698 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -415,12 +415,15 @@ public:
         if (this != &other)
         {
             // TODO: do not dealloc unless necessary
+            // other can be a part of the value stored here, copy it before clearing
+            constexpr bool propagate = AllocTraits::propagate_on_container_copy_assignment::value;
+            BasicAny copied(other, propagate ? other.get_allocator_ref() : get_allocator_ref());
             clearHolder();
-            if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
+            if constexpr (propagate)
             {
-                set_allocator(other.get_allocator_ref());
+                set_allocator(copied.get_allocator_ref());
             }
-            copy(other);
+            move(std::move(copied));
         }
 
         return *this;
@@ -460,12 +463,15 @@ public:
     {
         if (this != &other)
         {
+            // other can be a part of the value stored here, take its value over before clearing
+            constexpr bool propagate = AllocTraits::propagate_on_container_move_assignment::value;
+            BasicAny moved(std::move(other), propagate ? other.get_allocator_ref() : get_allocator_ref());
             clearHolder();
-            if constexpr (AllocTraits::propagate_on_container_move_assignment::value)
+            if constexpr (propagate)
             {
-                set_allocator(std::move(other.get_allocator_ref()));
+                set_allocator(moved.get_allocator_ref());
             }
-            move(std::move(other));
+            move(std::move(moved));
         }
 
         return *this;
@@ -538,6 +544,16 @@ public:
     template <typename T>
     void set(T&& value)
     {
+        if (hasHolder() && !isType<typename std::decay<T>::type>())
+        {
+            // value can be a part of the value stored here, use it before clearing
+            BasicAny created(get_allocator_ref());
+            created.set(std::forward<T>(value));
+            clearHolder();
+            move(std::move(created));
+            return;
+        }
+
         auto* holder = createHolder<typename std::decay<T>::type>();
         try
         {
-- 
2.43.0


From cb5d47e6f00de6d12cdb222cd9a873b1b47df029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:24 +0000
Subject: [PATCH 45/46] fix: variants can be assigned from a part of their own
 value

---
 runtime/src/zserio/Variant.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index eb6c6d4..a079401 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -191,8 +191,9 @@ public:
      */
     BasicVariant& operator=(const BasicVariant& other)
     {
+        const INDEX otherIndex = other.m_index; // other can be a part of the value stored here
         m_data = other.m_data;
-        m_index = other.m_index;
+        m_index = otherIndex;
         return *this;
     }
 
@@ -237,8 +238,9 @@ public:
     {
         if (this != &other)
         {
+            const INDEX otherIndex = other.m_index; // other can be a part of the value stored here
             m_data = std::move(other.m_data);
-            m_index = other.m_index;
+            m_index = otherIndex;
         }
 
         return *this;
-- 
2.43.0


From 281691aa4a12f91392550d2e868ff7a1a11c16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:31 +0000
Subject: [PATCH 46/46] fix: copies of introspectable service data must refer
 to their own object

---
 runtime/src/zserio/IService.h | 47 +++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/runtime/src/zserio/IService.h b/runtime/src/zserio/IService.h
index ca7130a..c084bbe 100644
--- a/runtime/src/zserio/IService.h
+++ b/runtime/src/zserio/IService.h
@@ -1,6 +1,7 @@
 #ifndef ZSERIO_ISERVICE_H_INC
 #define ZSERIO_ISERVICE_H_INC
 
+#include <memory>
 #include <string_view>
 
 #include "zserio/IIntrospectableView.h"
@@ -78,6 +79,52 @@ public:
             m_data(allocator)
     {}
 
+    /**
+     * Method generated by default.
+     */
+    ~BasicIntrospectableServiceData() override = default;
+
+    /**
+     * Copying and moving, the introspectable always refers to the own object.
+     * \{
+     */
+    BasicIntrospectableServiceData(const BasicIntrospectableServiceData& other) :
+            BasicIntrospectableServiceData(other.m_object,
+                    std::allocator_traits<ALLOC>::select_on_container_copy_construction(
+                            other.m_data.get_allocator()))
+    {}
+
+    BasicIntrospectableServiceData& operator=(const BasicIntrospectableServiceData& other)
+    {
+        if (this != &other)
+        {
+            m_data = BasicBitBuffer<ALLOC>(m_data.get_allocator());
+            m_object = other.m_object;
+            m_introspectable = introspectable(View(m_object), m_data.get_allocator());
+        }
+
+        return *this;
+    }
+
+    BasicIntrospectableServiceData(BasicIntrospectableServiceData&& other) :
+            BasicIntrospectableServiceData(std::move(other.m_object), other.m_data.get_allocator())
+    {}
+
+    BasicIntrospectableServiceData& operator=(BasicIntrospectableServiceData&& other)
+    {
+        if (this != &other)
+        {
+            m_data = BasicBitBuffer<ALLOC>(m_data.get_allocator());
+            m_object = std::move(other.m_object);
+            m_introspectable = introspectable(View(m_object), m_data.get_allocator());
+        }
+
+        return *this;
+    }
+    /**
+     * \}
+     */
+
     IBasicIntrospectableViewConstPtr<ALLOC> getIntrospectable() const override
     {
         return m_introspectable;
-- 
2.43.0

