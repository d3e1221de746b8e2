From a77971883b7383de41923c411b8c10eeb971f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:32 +0000
Subject: [PATCH 01/30] fix: keep the multi-byte encoders from reading (and
 encoding) bytes behind the end of the input

---
 src/rle128_extreme_cpu.h               |  7 ++---
 src/rle24_extreme_cpu_encode.h         | 18 ++++++++-----
 src/rle48_extreme_cpu_encode.h         | 18 ++++++++-----
 src/rleX_Xsl_multibyte_encoder.h       | 30 ++++++++-------------
 src/rleX_Xsl_short.h                   | 37 +++++++++-----------------
 src/rleX_Xsl_short_multibyte_encoder.h | 26 +++++++-----------
 src/rleX_extreme_cpu_encode.h          |  7 +++--
 7 files changed, 64 insertions(+), 79 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 006952d..f812860 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -47,7 +47,7 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 	const size_t symbolSize = sizeof(symbol_t);
 
 	int64_t count = 0;
-	symbol_t symbol = _mm_xor_si128(_mm_setzero_si128(), _mm_loadu_si128((const symbol_t *)pIn));
+	symbol_t symbol = inSize >= symbolSize ? _mm_loadu_si128((const symbol_t *)pIn) : _mm_setzero_si128();
 
 #ifdef PACKED
 	symbol_t lastSymbol = _mm_setzero_si128();
@@ -265,9 +265,10 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 				}
 			}
 
-			symbol = _mm_loadu_si128((const symbol_t *)&pIn[i]);
+			if (i + symbolSize <= inSize)
+				symbol = _mm_loadu_si128((const symbol_t *)&pIn[i]);
 
-			if (i + symbolSize <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
+			if (i + symbolSize * 2 <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
 			{
 				count = symbolSize * 2;
 				i += symbolSize * 2;
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index 5fac1a6..e241903 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -34,7 +34,13 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
   const size_t symbolSize = 3;
 
   int64_t count = 0;
-  symbol_t symbol = (~(*((symbol_t *)(pIn)))) & symbolMask;
+  symbol_t symbol = 0;
+
+  if (inSize >= symbolSize)
+  {
+    memcpy(&symbol, pIn, symbolSize);
+    symbol = ~symbol & symbolMask;
+  }
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, SIMD_TYPE_SIZE)(symbol);
@@ -131,7 +137,8 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
     {
       if (i + symbolSize <= inSize)
       {
-        const symbol_t next = ((*(symbol_t *)&pIn[i]) & symbolMask);
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], symbolSize); // the full `symbol_t` may reach past the end of the input.
 
         if (next == symbol)
         {
@@ -142,7 +149,7 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 #ifdef UNBOUND
         else
         {
-          const symbol_t diff = symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -352,10 +359,9 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
       }
 #endif
 
-      symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
-
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && memcmp(&pIn[i], &pIn[i + symbolSize], symbolSize) == 0)
       {
+        symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
         count = symbolSize * 2;
         i += symbolSize * 2;
       }
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 82321b6..7845b4a 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -34,7 +34,13 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
   const size_t symbolSize = 6;
 
   int64_t count = 0;
-  symbol_t symbol = (~(*((symbol_t *)(pIn)))) & symbolMask;
+  symbol_t symbol = 0;
+
+  if (inSize >= symbolSize)
+  {
+    memcpy(&symbol, pIn, symbolSize);
+    symbol = ~symbol & symbolMask;
+  }
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, SIMD_TYPE_SIZE)(symbol);
@@ -129,7 +135,8 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
     {
       if (i + symbolSize <= inSize)
       {
-        const symbol_t next = ((*(symbol_t *)&pIn[i]) & symbolMask);
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], symbolSize); // the full `symbol_t` may reach past the end of the input.
 
         if (next == symbol)
         {
@@ -140,7 +147,7 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 #ifdef UNBOUND
         else
         {
-          const symbol_t diff = symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -351,10 +358,9 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
       }
 #endif
 
-      symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
-
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && memcmp(&pIn[i], &pIn[i + symbolSize], symbolSize) == 0)
       {
+        symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
         count = symbolSize * 2;
         i += symbolSize * 2;
       }
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 2792827..500f9df 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -38,7 +38,11 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
   state.lastSymbols[6] = 0xFE * VALUE_BROADCAST;
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  if (inSize >= TYPE_SIZE / 8)
+  {
+    memcpy(&state.symbol, pIn, TYPE_SIZE / 8);
+    state.symbol = (symbol_t)~state.symbol;
+  }
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -177,11 +181,8 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], TYPE_SIZE / 8); // the full `symbol_t` may reach past the end of the input.
 
         if (next == state.symbol)
         {
@@ -202,7 +203,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
             i++;
           }
 #elif TYPE_SIZE == 32 || TYPE_SIZE == 24
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -214,7 +215,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
           i += (offset / 8);
           state.count += (offset / 8);
 #elif TYPE_SIZE == 64 || TYPE_SIZE == 48
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -315,18 +316,9 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
       }
 #endif
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
-
-#ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], TYPE_SIZE / 8) == 0)
       {
+        memcpy(&state.symbol, &pIn[i], TYPE_SIZE / 8);
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
       }
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 1553dc0..7839fcd 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -772,7 +772,11 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
 #endif
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  if (inSize >= TYPE_SIZE / 8)
+  {
+    memcpy(&state.symbol, pIn, TYPE_SIZE / 8);
+    state.symbol = (symbol_t)~state.symbol;
+  }
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -786,11 +790,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], TYPE_SIZE / 8); // the full `symbol_t` may reach past the end of the input.
 
         if (next == state.symbol)
         {
@@ -811,7 +812,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
             i++;
           }
 #elif TYPE_SIZE == 32 || TYPE_SIZE == 24
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -823,7 +824,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
           i += (offset / 8);
           state.count += (offset / 8);
 #elif TYPE_SIZE == 64 || TYPE_SIZE == 48
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -858,20 +859,11 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
     {
       CONCAT3(_rle, TYPE_SIZE, CONCAT3(_, CODEC, process_symbol))(pIn, pOut, i, &state);
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
-
       const bool symbolWouldFit = i + (TYPE_SIZE / 8) <= inSize;
 
-#ifndef SYMBOL_MASK
-      if (symbolWouldFit && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (symbolWouldFit && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], TYPE_SIZE / 8) == 0)
       {
+        memcpy(&state.symbol, &pIn[i], TYPE_SIZE / 8);
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
       }
@@ -879,11 +871,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
       {
         if (symbolWouldFit)
         {
-#ifndef SYMBOL_MASK
-          const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-          const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+          symbol_t next = 0;
+          memcpy(&next, &pIn[i], TYPE_SIZE / 8);
 
           size_t possibleCount = 0;
 
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index e971f8f..e1f0a7b 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -44,7 +44,11 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
 #endif
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  if (inSize >= TYPE_SIZE / 8)
+  {
+    memcpy(&state.symbol, pIn, TYPE_SIZE / 8);
+    state.symbol = (symbol_t)~state.symbol;
+  }
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -183,11 +187,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], TYPE_SIZE / 8); // the full `symbol_t` may reach past the end of the input.
 
         if (next == state.symbol)
         {
@@ -321,18 +322,9 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
       }
 #endif
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
-
-#ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], TYPE_SIZE / 8) == 0)
       {
+        memcpy(&state.symbol, &pIn[i], TYPE_SIZE / 8);
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
       }
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index bab39a5..6fba7b1 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -29,7 +29,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
   typedef CONCAT3(uint, TYPE_SIZE, _t) symbol_t;
 
   int64_t count = 0;
-  symbol_t symbol = ~(*((symbol_t *)(pIn)));
+  symbol_t symbol = inSize >= sizeof(symbol_t) ? (symbol_t)~(*((symbol_t *)(pIn))) : 0;
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, TYPE_SIZE)(symbol);
@@ -366,10 +366,9 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
       }
 #endif
 
-      symbol = *(symbol_t *)(&pIn[i]);
-
-      if (i + sizeof(symbol_t) <= inSize && ((symbol_t *)(&pIn[i]))[1] == symbol)
+      if (i + sizeof(symbol_t) * 2 <= inSize && ((symbol_t *)(&pIn[i]))[1] == *(symbol_t *)(&pIn[i]))
       {
+        symbol = *(symbol_t *)(&pIn[i]);
         count = sizeof(symbol_t) * 2;
         i += sizeof(symbol_t) * 2;
       }
-- 
2.43.0


From 0c3bf3bb1fcdf3add694c2f9e332705f9282ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:32 +0000
Subject: [PATCH 02/30] fix: low entropy decoders treated streams with 256 rle
 symbols as uncompressed

---
 src/rle8_low_entropy_cpu.c       | 2 +-
 src/rle8_low_entropy_short_cpu.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index d5ee063..311e361 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -937,7 +937,7 @@ uint32_t rle8_low_entropy_decompress_with_info(IN const uint8_t *pIn, IN const u
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0; // can be 256, so it has to be larger than a `uint8_t`.
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index d02033c..94e6ba4 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -447,7 +447,7 @@ uint32_t rle8_low_entropy_short_decompress_with_info(IN const uint8_t *pIn, IN c
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0; // can be 256, so it has to be larger than a `uint8_t`.
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
-- 
2.43.0


From 7fac45e53fcc15cbea56af257cca2ff8148b8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:32 +0000
Subject: [PATCH 03/30] fix: rle8m_decompress decoded bytes behind the end of
 the compressed stream

---
 src/rle8_low_entropy_cpu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 311e361..bdddc81 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -238,7 +238,7 @@ uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
   // Decode last section.
   {
-    const uint8_t *pEnd = pIn + inSize;
+    const uint8_t *pEnd = pIn + expectedInSize;
 
     const uint32_t size = rle8_low_entropy_decompress_with_info(pCIn, pEnd, &decompressInfo, pOut, (uint32_t)remainingSize);
 
-- 
2.43.0


From c4bc3cca7f10969131a015867d23a135d5af2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:32 +0000
Subject: [PATCH 04/30] fix: rle8_mmtf128_compress_bounds was too small for
 incompressible data

---
 src/rle8_mmtf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index c5cb7ca..786e5ed 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -28,7 +28,8 @@ uint32_t rle8_mmtf128_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint32_t) + 1;
+  // header, first copy block header, final empty rle block.
+  return inSize + sizeof(uint32_t) * 2 + sizeof(uint32_t) + sizeof(uint8_t);
 }
 
 uint32_t rle8_mmtf256_compress_bounds(const uint32_t inSize)
-- 
2.43.0


From 96819f028256479baca9cc712835d1fc8458a635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:32 +0000
Subject: [PATCH 05/30] fix: rle8_mmtf128_compress output depended on an
 uninitialized register

---
 src/rle8_mmtf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index 786e5ed..13d7833 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -180,7 +180,7 @@ uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT
     const __m128i hi5BitMask = _mm_set1_epi8((uint8_t)0b11111000);
     const __m128i hi6BitMask = _mm_set1_epi8((uint8_t)0b11111100);
 
-    __m128i currentBitMask = _mm_undefined_si128();
+    __m128i currentBitMask = _mm_setzero_si128();
     //__m128i lastOut = _mm_xor_si128(_mm_set1_epi8((int8_t)-1), _mm_loadu_si128((const __m128i *)pIn));
 
     uint8_t *pLastHeader = pOut;
-- 
2.43.0


From 58f85da8042ea422b06291b6ac3d46c1346e3d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:32 +0000
Subject: [PATCH 06/30] fix: rle8_sh_bounds was too small, so that the two
 streams of the encoder could overwrite each other

---
 src/rle_sh.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rle_sh.c b/src/rle_sh.c
index f113437..65460e9 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -92,7 +92,11 @@ inline void rle8_sh_consume_bits(rle8_sh_read_header *pHeader, const int8_t bits
 
 uint32_t rle8_sh_bounds(const uint32_t size)
 {
-  return size + sizeof(uint32_t) * 2 + 1 + sizeof(uint32_t);
+  if (size > (1 << 30))
+    return 0;
+
+  // Every pair of copy & rle blocks can add less than 15 bits per 416 bytes, the file header, the last copy block and the terminator add up to less than 32 bytes.
+  return size + size / 128 + 32;
 }
 
 inline void rle8_sh_encoded_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, const size_t copyCount, rle8_sh_header_state *pHeader, const uint8_t lastRleSymbol, uint8_t *pSecondMostImportant, uint8_t *pThirdMostImportant, uint8_t *pLastOccuredSymbol)
@@ -268,7 +272,7 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_sh_bounds(inSize))
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0


From 6de8222da3d8ffd2be845caef5dc16d8876ddb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:00 +0000
Subject: [PATCH 07/30] fix: low entropy compress bounds did not cover split
 runs and misjudged the last run

---
 src/rle8_low_entropy_cpu.c       | 12 ++++++++----
 src/rle8_low_entropy_short_cpu.c |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index bdddc81..5fbf8f9 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -5,7 +5,9 @@
 
 uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2 + 2; // the last run can be split in two.
+
+  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -125,7 +127,9 @@ uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSiz
 
 uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1);
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + (uint64_t)subSections - 1 + 1) + 4 * (uint64_t)subSections; // runs can be split at the end of every sub section.
+
+  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -293,7 +297,7 @@ bool rle8_low_entropy_get_compress_info(IN const uint8_t *pIn, const uint32_t in
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -380,7 +384,7 @@ bool rle8_low_entropy_get_compress_info_only_max_frequency(IN const uint8_t * pI
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 94e6ba4..988ebcf 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -15,7 +15,7 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
 
 uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  return rle8_low_entropy_compress_bounds(inSize);
 }
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -575,7 +575,7 @@ bool rle8_low_entropy_short_get_compress_info(IN const uint8_t *pIn, const uint3
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -662,7 +662,7 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
-- 
2.43.0


From 793e430180b1b34a2fe37067d054e3204a258760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:00 +0000
Subject: [PATCH 08/30] fix: reject inputs that exceed the maximum supported
 size (compress bounds of 0) instead of writing past the output buffer

---
 src/rle128_extreme_cpu.h               | 2 +-
 src/rle24_extreme_cpu.h                | 2 +-
 src/rle24_extreme_cpu_encode.h         | 2 +-
 src/rle48_extreme_cpu.h                | 2 +-
 src/rle48_extreme_cpu_encode.h         | 2 +-
 src/rle8_extreme_cpu.h                 | 4 ++--
 src/rle8_low_entropy_cpu.c             | 6 +++---
 src/rle8_low_entropy_short_cpu.c       | 4 ++--
 src/rle8_mmtf.c                        | 2 +-
 src/rleX_Xsl.h                         | 4 ++--
 src/rleX_Xsl_multibyte_encoder.h       | 2 +-
 src/rleX_Xsl_short.h                   | 6 +++---
 src/rleX_Xsl_short_multibyte_encoder.h | 2 +-
 src/rleX_extreme_cpu.h                 | 2 +-
 src/rleX_extreme_cpu_encode.h          | 2 +-
 src/rle_sh.c                           | 2 +-
 16 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index f812860..32e501c 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -31,7 +31,7 @@
 
 uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-	if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+	if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
 		return 0;
 
 	size_t index = 0;
diff --git a/src/rle24_extreme_cpu.h b/src/rle24_extreme_cpu.h
index a453a1b..6e99e45 100644
--- a/src/rle24_extreme_cpu.h
+++ b/src/rle24_extreme_cpu.h
@@ -54,7 +54,7 @@
 
 uint32_t CONCAT3(rle24_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index e241903..a275803 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -17,7 +17,7 @@
 #endif
 uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
diff --git a/src/rle48_extreme_cpu.h b/src/rle48_extreme_cpu.h
index 17d79a2..ad8c6a5 100644
--- a/src/rle48_extreme_cpu.h
+++ b/src/rle48_extreme_cpu.h
@@ -54,7 +54,7 @@
 
 uint32_t CONCAT3(rle48_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 7845b4a..80ca34c 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -17,7 +17,7 @@
 #endif
 uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 097b5f2..3e32979 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -85,7 +85,7 @@ static void CONCAT3(rle8, CODEC, decompress_single_avx512f)(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   rle_extreme_t header;
@@ -345,7 +345,7 @@ uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint3
 
 uint32_t CONCAT3(rle8, CODEC, single_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   rle_extreme_t header;
diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 5fbf8f9..654859f 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -12,7 +12,7 @@ uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -53,7 +53,7 @@ uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize,
 
 uint32_t rle8_low_entropy_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -134,7 +134,7 @@ uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0)
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8m_compress_bounds(subSections, inSize) == 0 || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0)
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 988ebcf..b712a69 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -20,7 +20,7 @@ uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -61,7 +61,7 @@ uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t i
 
 uint32_t rle8_low_entropy_short_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index 13d7833..79c8443 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -153,7 +153,7 @@ inline static uint8_t *bitpack_encode3_simple_sse2_unaligned_m128i(const __m128i
 
 uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_mmtf128_compress_bounds(inSize) == 0 || outSize < rle8_mmtf128_compress_bounds(inSize))
     return 0;
 
   uint32_t *pHeader = (uint32_t *)pOut;
diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index 217936e..aa7f7ff 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -268,7 +268,7 @@ bool CONCAT3(CONCAT3(_rle, TYPE_SIZE, _), CODEC, process_symbol)(IN const uint8_
 #if TYPE_SIZE == 8
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
@@ -507,7 +507,7 @@ static int64_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress_avx2)(IN cons
 
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 500f9df..9036c35 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -17,7 +17,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 7839fcd..c6dbd99 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -380,7 +380,7 @@ uint8_t rle8_single_compress_get_approx_optimal_symbol_avx2(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8_, CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
@@ -684,7 +684,7 @@ static int64_t CONCAT3(rle8_, CODEC, compress_avx2)(IN const uint8_t *pIn, const
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
@@ -745,7 +745,7 @@ size_t CONCAT3(rleX_Xsl_short_get_match_length, CODEC, TYPE_SIZE)(const uintXX_t
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index e1f0a7b..72c7730 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -17,7 +17,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_extreme_cpu.h b/src/rleX_extreme_cpu.h
index 49b5125..3815a7b 100644
--- a/src/rleX_extreme_cpu.h
+++ b/src/rleX_extreme_cpu.h
@@ -46,7 +46,7 @@
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index 6fba7b1..13be502 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -13,7 +13,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
diff --git a/src/rle_sh.c b/src/rle_sh.c
index 65460e9..e819492 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -272,7 +272,7 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_sh_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_sh_bounds(inSize) == 0 || outSize < rle8_sh_bounds(inSize))
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0


From e6a6545ab066a90f2cb2669232b2af3050d72dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:00 +0000
Subject: [PATCH 09/30] fix: mmtf128 / mmtf256 dereferenced NULL buffers

---
 src/mmtf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mmtf.c b/src/mmtf.c
index a29bd7d..b86bdf8 100644
--- a/src/mmtf.c
+++ b/src/mmtf.c
@@ -34,7 +34,7 @@ uint32_t mmtf_bounds(const uint32_t inSize)
 
 uint32_t mmtf128_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -50,7 +50,7 @@ uint32_t mmtf128_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf128_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -68,7 +68,7 @@ uint32_t mmtf128_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf256_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -87,7 +87,7 @@ uint32_t mmtf256_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf256_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
-- 
2.43.0


From 5d196db62d56a3b7e3b4b752ff498503e33e553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:00 +0000
Subject: [PATCH 10/30] fix: concurrent first use of the codecs raced on the
 CPU feature flags

---
 src/simd_platform.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/simd_platform.c b/src/simd_platform.c
index eef735e..b36ab28 100644
--- a/src/simd_platform.c
+++ b/src/simd_platform.c
@@ -26,6 +26,21 @@ void cpuid(int info[4], int infoType)
 #endif
 
 bool _CpuFeaturesDetected = false;
+
+#ifdef _MSC_VER
+static volatile long _CpuFeatureDetectionLock = 0;
+#define CPU_FEATURES_DETECTED() (_CpuFeaturesDetected)
+#define CPU_FEATURES_SET_DETECTED() do { _ReadWriteBarrier(); _CpuFeaturesDetected = true; } while (0)
+#define CPU_FEATURES_LOCK() while (_InterlockedExchange(&_CpuFeatureDetectionLock, 1)) _mm_pause()
+#define CPU_FEATURES_UNLOCK() _InterlockedExchange(&_CpuFeatureDetectionLock, 0)
+#else
+static char _CpuFeatureDetectionLock = 0;
+#define CPU_FEATURES_DETECTED() __atomic_load_n(&_CpuFeaturesDetected, __ATOMIC_ACQUIRE)
+#define CPU_FEATURES_SET_DETECTED() __atomic_store_n(&_CpuFeaturesDetected, true, __ATOMIC_RELEASE)
+#define CPU_FEATURES_LOCK() while (__atomic_test_and_set(&_CpuFeatureDetectionLock, __ATOMIC_ACQUIRE)) __builtin_ia32_pause()
+#define CPU_FEATURES_UNLOCK() __atomic_clear(&_CpuFeatureDetectionLock, __ATOMIC_RELEASE)
+#endif
+
 bool sseSupported = false;
 bool sse2Supported = false;
 bool sse3Supported = false;
@@ -54,9 +69,18 @@ bool aesNiSupported = false;
 
 void _DetectCPUFeatures()
 {
-  if (_CpuFeaturesDetected)
+  if (CPU_FEATURES_DETECTED())
     return;
 
+  // Only one thread may detect the features, as all others could already be using the flags.
+  CPU_FEATURES_LOCK();
+
+  if (CPU_FEATURES_DETECTED())
+  {
+    CPU_FEATURES_UNLOCK();
+    return;
+  }
+
   int32_t info[4];
   cpuid(info, 0);
   int32_t idCount = info[0];
@@ -108,5 +132,6 @@ void _DetectCPUFeatures()
     avx5124FMAPSSupported = (cpuInfo[3] & 1 << 3) != 0;
   }
 
-  _CpuFeaturesDetected = true;
+  CPU_FEATURES_SET_DETECTED();
+  CPU_FEATURES_UNLOCK();
 }
-- 
2.43.0


From c50fbd8377ea07e3c6c14ab84e404c61725a1b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:55 +0000
Subject: [PATCH 11/30] fix: --test accepted decoders that wrote too little,
 because stale output of the previous codec was left in the buffer and the
 decompressed size was never checked

---
 src/main.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 89de070..bd28c65 100644
--- a/src/main.c
+++ b/src/main.c
@@ -944,7 +944,7 @@ int main(int argc, char **pArgv)
         for (size_t i = compressedSize; i < compressedBufferSize; i++)
           pCompressedData[i] = ~pCompressedData[i];
 
-        memset(pDecompressedData, 0, decompressedSize);
+        memset(pDecompressedData, 0, fileSize);
       }
 
       if (noDelays)
@@ -1068,6 +1068,14 @@ int main(int argc, char **pArgv)
 
       puts("");
 
+      if (decompressedSize != fileSize32)
+      {
+        printf("Invalid decompressed size (%" PRIu32 " != %" PRIu32 ").\n", decompressedSize, fileSize32);
+
+        if (isTestRun)
+          return -1;
+      }
+
       if (!Validate(pUncompressedData, pDecompressedData, fileSize))
       {
         if (isTestRun)
-- 
2.43.0


From ba6a0635b3db1a15177c115226f5e18c41a48a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:07 +0000
Subject: [PATCH 12/30] fix: exit with an error if the file can't be read,
 rather than passing --test without having tested anything

---
 src/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index bd28c65..44ad811 100644
--- a/src/main.c
+++ b/src/main.c
@@ -698,6 +698,8 @@ int main(int argc, char **pArgv)
 
   FILE *pFile = NULL;
 
+  int exitCode = 0;
+
   if (!fuzzing)
   {
     pFile = fopen(pArgv[1], "rb");
@@ -705,6 +707,7 @@ int main(int argc, char **pArgv)
     if (!pFile)
     {
       puts("Failed to read file.");
+      exitCode = 1;
       goto epilogue;
     }
 
@@ -714,6 +717,7 @@ int main(int argc, char **pArgv)
     if (fileSize <= 0)
     {
       puts("Invalid File size / failed to read file.");
+      exitCode = 1;
       goto epilogue;
     }
 
@@ -735,12 +739,14 @@ int main(int argc, char **pArgv)
     if (!pUncompressedData || !pDecompressedData || !pCompressedData)
     {
       puts("Failed to allocate memory.");
+      exitCode = 1;
       goto epilogue;
     }
 
     if (fileSize != fread(pUncompressedData, 1, (size_t)fileSize, pFile))
     {
       puts("Failed to read file.");
+      exitCode = 1;
       goto epilogue;
     }
 
@@ -1096,7 +1102,7 @@ epilogue:
   ALIGNED_FREE(pDecompressedData);
   ALIGNED_FREE(pCompressedData);
 
-  return 0;
+  return exitCode;
 }
 
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 78ac5f97edc77e83d60a7a5ac156344dfcfd2cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 13/30] fix: rle8m_opencl_decompress filled in the sub-section
 offsets before allocating them

---
 src/rle8_ocl.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 0ae3045..61c1aec 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -290,6 +290,12 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
 
   const uint32_t subSectionSize = (uint32_t)(expectedOutSize / subSections);
 
+  // This (re-)allocates `pSubSectionOffsets`, so it has to happen before the offsets are filled in.
+  bool success = rle8m_opencl_init(expectedInSize - index, expectedOutSize, subSections);
+
+  if (!success)
+    return 0;
+
   pSubSectionOffsets[0] = 0;
 
   for (size_t i = 1; i < subSections; i++)
@@ -321,11 +327,6 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
   clock_t time;
 #endif
   
-  bool success = rle8m_opencl_init(expectedInSize - index, expectedOutSize, subSections);
-
-  if (!success)
-    goto epilogue;
-
   success = false;
 
 #ifdef ENABLE_LOGGING
-- 
2.43.0


From 8a47c66a61603d2ff7605adb4be003ee992d2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 14/30] fix: rle8m_opencl_init freed the platform list twice
 when a re-initialization failed

---
 src/rle8_ocl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 61c1aec..b7116cb 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -178,6 +178,7 @@ epilogue:
     rle8m_opencl_destroy();
 
   free(pPlatforms);
+  pPlatforms = NULL;
 
   return success;
 }
-- 
2.43.0


From e1696335390ff427c4200002ea678a8909ba70e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:41 +0000
Subject: [PATCH 15/30] fix: the low entropy encoders with pre-computed info
 rejected sub-sections that grow, and wrote past output buffers that weren't
 large enough

---
 src/rle8_low_entropy_cpu.c       | 8 +++++++-
 src/rle8_low_entropy_short_cpu.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 654859f..165a8db 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -477,7 +477,7 @@ uint32_t rle8_low_entropy_write_compress_info(IN rle8_low_entropy_compress_info_
 
 uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize < inSize)
+  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL)
     return 0;
 
   size_t index = 0;
@@ -493,6 +493,9 @@ uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32
   {
     const uint8_t b = pIn[i];
 
+    if (index + (pCompressInfo->rle[b] ? 2 : 1) > outSize) // single symbols without a run take up twice their size.
+      return 0;
+
     pOut[index] = b;
     index++;
 
@@ -520,6 +523,9 @@ uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32
   {
     const uint8_t b = pIn[i];
 
+    if (index + (pCompressInfo->rle[b] ? 2 : 1) > outSize) // single symbols without a run take up twice their size.
+      return 0;
+
     pOut[index] = b;
     index++;
 
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index b712a69..51043be 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -127,7 +127,7 @@ uint32_t rle8_low_entropy_short_decompress(IN const uint8_t *pIn, const uint32_t
 
 uint32_t rle8_low_entropy_short_compress_with_info(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize < inSize)
+  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL)
     return 0;
 
   size_t index = 0;
@@ -143,6 +143,9 @@ uint32_t rle8_low_entropy_short_compress_with_info(IN const uint8_t *pIn, const
   {
     const uint8_t b = pIn[i];
 
+    if (index + (pCompressInfo->rle[b] ? 2 : 1) > outSize) // single symbols without a run take up twice their size.
+      return 0;
+
     pOut[index] = b;
     index++;
 
@@ -170,6 +173,9 @@ uint32_t rle8_low_entropy_short_compress_with_info(IN const uint8_t *pIn, const
   {
     const uint8_t b = pIn[i];
 
+    if (index + (pCompressInfo->rle[b] ? 2 : 1) > outSize) // single symbols without a run take up twice their size.
+      return 0;
+
     pOut[index] = b;
     index++;
 
-- 
2.43.0


From 293a2a371870bb4f034688038777241c7f99ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:40 +0000
Subject: [PATCH 16/30] fix: AVX2 and AVX-512 were reported as supported even
 if the operating system doesn't save the corresponding registers

---
 src/simd_platform.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/simd_platform.c b/src/simd_platform.c
index b36ab28..3c93c4a 100644
--- a/src/simd_platform.c
+++ b/src/simd_platform.c
@@ -85,6 +85,10 @@ void _DetectCPUFeatures()
   cpuid(info, 0);
   int32_t idCount = info[0];
 
+  // Whether the operating system saves the corresponding registers.
+  bool osSupportsAVX = false;
+  bool osSupportsAVX512 = false;
+
   if (idCount >= 0x1)
   {
     int32_t cpuInfo[4];
@@ -96,7 +100,9 @@ void _DetectCPUFeatures()
     if (osUsesXSAVE_XRSTORE && cpuAVXSuport)
     {
       uint64_t xcrFeatureMask = _xgetbv(_XCR_XFEATURE_ENABLED_MASK);
-      avxSupported = (xcrFeatureMask & 0x6) != 0;
+      osSupportsAVX = (xcrFeatureMask & 0x6) == 0x6;
+      osSupportsAVX512 = (xcrFeatureMask & 0xE6) == 0xE6;
+      avxSupported = osSupportsAVX;
     }
 
     sseSupported = (cpuInfo[3] & (1 << 25)) != 0;
@@ -105,7 +111,7 @@ void _DetectCPUFeatures()
     ssse3Supported = (cpuInfo[2] & (1 << 9)) != 0;
     sse41Supported = (cpuInfo[2] & (1 << 19)) != 0;
     sse42Supported = (cpuInfo[2] & (1 << 20)) != 0;
-    fma3Supported = (cpuInfo[2] & (1 << 12)) != 0;
+    fma3Supported = osSupportsAVX && (cpuInfo[2] & (1 << 12)) != 0;
     aesNiSupported = (cpuInfo[2] & (1 << 25)) != 0;
   }
 
@@ -114,22 +120,22 @@ void _DetectCPUFeatures()
     int32_t cpuInfo[4];
     cpuid(cpuInfo, 7);
 
-    avx2Supported = (cpuInfo[1] & (1 << 5)) != 0;
-    avx512FSupported = (cpuInfo[1] & 1 << 16) != 0;
-    avx512PFSupported = (cpuInfo[1] & 1 << 26) != 0;
-    avx512ERSupported = (cpuInfo[1] & 1 << 27) != 0;
-    avx512CDSupported = (cpuInfo[1] & 1 << 28) != 0;
-    avx512BWSupported = (cpuInfo[1] & 1 << 30) != 0;
-    avx512DQSupported = (cpuInfo[1] & 1 << 17) != 0;
-    avx512VLSupported = (cpuInfo[1] & 1 << 31) != 0;
-    avx512IFMASupported = (cpuInfo[1] & 1 << 21) != 0;
-    avx512VBMISupported = (cpuInfo[2] & 1 << 1) != 0;
-    avx512VNNISupported = (cpuInfo[2] & 1 << 11) != 0;
-    avx512VBMI2Supported = (cpuInfo[2] & 1 << 6) != 0;
-    avx512POPCNTDQSupported = (cpuInfo[2] & 1 << 14) != 0;
-    avx512BITALGSupported = (cpuInfo[2] & 1 << 12) != 0;
-    avx5124VNNIWSupported = (cpuInfo[3] & 1 << 2) != 0;
-    avx5124FMAPSSupported = (cpuInfo[3] & 1 << 3) != 0;
+    avx2Supported = osSupportsAVX && (cpuInfo[1] & (1 << 5)) != 0;
+    avx512FSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 16) != 0;
+    avx512PFSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 26) != 0;
+    avx512ERSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 27) != 0;
+    avx512CDSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 28) != 0;
+    avx512BWSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 30) != 0;
+    avx512DQSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 17) != 0;
+    avx512VLSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 31) != 0;
+    avx512IFMASupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 21) != 0;
+    avx512VBMISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 1) != 0;
+    avx512VNNISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 11) != 0;
+    avx512VBMI2Supported = osSupportsAVX512 && (cpuInfo[2] & 1 << 6) != 0;
+    avx512POPCNTDQSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 14) != 0;
+    avx512BITALGSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 12) != 0;
+    avx5124VNNIWSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 2) != 0;
+    avx5124FMAPSSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 3) != 0;
   }
 
   CPU_FEATURES_SET_DETECTED();
-- 
2.43.0


From 99980d9a1b469de4b8270086a65cf02f528314ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 17/30] fix: --analyze compared up to 15 bytes behind the end
 of the file contents

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 44ad811..ae06e38 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1303,7 +1303,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
     
     for (size_t j = 1; j <= 16; j++)
     {
-      if (i < j)
+      if (i < j || i + j > size)
         continue;
 
       const bool match = memcmp(pData + i, pData + i - j, j) == 0;
-- 
2.43.0


From 43df4ea666736f4a0510f58b2c000be5f75e2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 18/30] fix: --analyze counted lengths 32 bits too high and
 scanned zero for bits

---
 src/main.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/main.c b/src/main.c
index ae06e38..7536233 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1340,7 +1340,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long index;
             _BitScanReverse64(&index, pRLE->currentNonLength);
 #else
-            const uint32_t index = 63 - __builtin_clz(pRLE->currentNonLength);
+            const uint32_t index = 63 - __builtin_clzll(pRLE->currentNonLength);
 #endif
 
             pRLE->emptyLengthByBits[index]++;
@@ -1370,7 +1370,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
           unsigned long index;
           _BitScanReverse64(&index, pRLE->currentLength);
 #else
-          const uint32_t index = 63 - __builtin_clz(pRLE->currentLength);
+          const uint32_t index = 63 - __builtin_clzll(pRLE->currentLength);
 #endif
 
           pRLE->rleLengthByBits[index]++;
@@ -1383,9 +1383,9 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
 
 #ifdef _MSC_VER
           unsigned long lastNonLengthBits;
-          _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength);
+          _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength | 1);
 #else
-          const uint32_t lastNonLengthBits = 63 - __builtin_clz(pRLE->lastNonLength);
+          const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->lastNonLength | 1);
 #endif
 
           pRLE->copyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1431,7 +1431,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
               unsigned long index;
               _BitScanReverse64(&index, pRLE->alignedCurrentNonLength);
 #else
-              const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentNonLength);
+              const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentNonLength);
 #endif
 
               pRLE->alignedEmptyLengthByBits[index]++;
@@ -1461,7 +1461,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long index;
             _BitScanReverse64(&index, pRLE->alignedCurrentLength);
 #else
-            const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentLength);
+            const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentLength);
 #endif
 
             pRLE->alignedRleLengthByBits[index]++;
@@ -1474,9 +1474,9 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
 
 #ifdef _MSC_VER
             unsigned long lastNonLengthBits;
-            _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength);
+            _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength | 1);
 #else
-            const uint32_t lastNonLengthBits = 63 - __builtin_clz(pRLE->alignedLastNonLength);
+            const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->alignedLastNonLength | 1);
 #endif
 
             pRLE->alignedCopyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1515,7 +1515,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->currentNonLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->currentNonLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->currentNonLength);
 #endif
 
       pRLE->emptyLengthByBits[index]++;
@@ -1531,7 +1531,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->currentLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->currentLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->currentLength);
 #endif
 
       pRLE->rleLengthByBits[index]++;
@@ -1549,7 +1549,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->alignedCurrentNonLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentNonLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentNonLength);
 #endif
 
       pRLE->alignedEmptyLengthByBits[index]++;
@@ -1565,7 +1565,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->alignedCurrentLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentLength);
 #endif
 
       pRLE->alignedRleLengthByBits[index]++;
-- 
2.43.0


From 750c778afa174bfec4b7d95dcb1c1b1d9386dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 19/30] fix: files of 4 GiB and above overflowed the
 compression buffer

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 7536233..e9d613f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -714,7 +714,7 @@ int main(int argc, char **pArgv)
     fseek(pFile, 0, SEEK_END);
     fileSize = ftell(pFile);
 
-    if (fileSize <= 0)
+    if (fileSize <= 0 || fileSize > UINT32_MAX)
     {
       puts("Invalid File size / failed to read file.");
       exitCode = 1;
-- 
2.43.0


From 046436097b6b46f67c2e3e03519c255618ac99cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:12 +0000
Subject: [PATCH 20/30] fix: --sd leaked the list of measured run times

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index e9d613f..d560f22 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1088,6 +1088,8 @@ int main(int argc, char **pArgv)
           return -1;
       }
     }
+
+    free(pIndividualRuns);
   }
 
   //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 8fda3aa6af6175f46520ebb47f7cf1f1dee47ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:55 +0000
Subject: [PATCH 21/30] fix: the fuzzers only compared the most significant bit
 of most bytes

---
 src/rle_fuzz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle_fuzz.c b/src/rle_fuzz.c
index d786f95..3a80a01 100644
--- a/src/rle_fuzz.c
+++ b/src/rle_fuzz.c
@@ -481,7 +481,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_load_si256((__m256i *)(pBufferA + offset)), _mm256_load_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
     else
@@ -507,7 +507,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_loadu_si256((__m256i *)(pBufferA + offset)), _mm256_loadu_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
   }
-- 
2.43.0


From cd1ba8c72fce5be161e74873d55afc6c33c29bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:31 +0000
Subject: [PATCH 22/30] fix: --analyze reported the aligned lengths in symbols
 as bytes

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index d560f22..1158717 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1581,7 +1581,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
 
     printf("RLE Length %2" PRIu64 "\n=============\n", i + 1);
     printf("Non-Aligned: Repeating: %10" PRIu64 " (%15" PRIu64 " Bytes, %5.2f %%, %15" PRIu64 " Bytes Distinct)\n", pRLE->totalRleCount, pRLE->totalRleLength, pRLE->totalRleLength * 100.0 / size, pRLE->totalEmptyLength);
-    printf("Aligned:     Repeating: %10" PRIu64 " (%15" PRIu64 " Bytes, %5.2f %%, %15" PRIu64 " Bytes Distinct)\n", pRLE->alignedTotalRleCount, pRLE->alignedTotalRleLength, pRLE->alignedTotalRleLength * 100.0 / size, pRLE->alignedTotalEmptyLength);
+    printf("Aligned:     Repeating: %10" PRIu64 " (%15" PRIu64 " Bytes, %5.2f %%, %15" PRIu64 " Bytes Distinct)\n", pRLE->alignedTotalRleCount, pRLE->alignedTotalRleLength * (i + 1), pRLE->alignedTotalRleLength * (i + 1) * 100.0 / size, pRLE->alignedTotalEmptyLength * (i + 1));
     puts("");
     
     printf("AprxLen | Repeating    | Distinct     || ExactLen  | Repeating    | Distinct     || AprxCnt | AlgnRepeat   | AlgnDistinct || Exact Count | AlgnRepeat   | AlgnDistinct\n");
-- 
2.43.0


From 68f67a46a864effc1d384ca3ff6f1bcb8e9f8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:04 +0000
Subject: [PATCH 23/30] fix: rle8m_opencl_init queried the devices of an
 uninitialized platform if retrieving the platforms failed

---
 src/rle8_ocl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index b7116cb..53ee485 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -81,10 +81,10 @@ bool rle8m_opencl_init(const size_t inputDataSize, const size_t outputDataSize,
   if (pPlatforms == NULL)
     goto epilogue;
 
-  ret = clGetPlatformIDs(platformCount, pPlatforms, NULL);
-  ret |= clGetDeviceIDs(pPlatforms[0], CL_DEVICE_TYPE_GPU, 1, &deviceID, &platformCount);
+  if (CL_SUCCESS != (ret = clGetPlatformIDs(platformCount, pPlatforms, NULL)))
+    goto epilogue;
 
-  if (ret != CL_SUCCESS)
+  if (CL_SUCCESS != (ret = clGetDeviceIDs(pPlatforms[0], CL_DEVICE_TYPE_GPU, 1, &deviceID, &platformCount)))
     goto epilogue;
 
   context = clCreateContext(NULL, 1, &deviceID, NULL, NULL, &ret);
-- 
2.43.0


From fa3ca208e07a996c5eeaeb6be13b867be2b0a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:35 +0000
Subject: [PATCH 24/30] fix: rle8m_opencl_decompress left writes that read from
 the stack and the caller's buffer in the queue when it failed

---
 src/rle8_ocl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rle8_ocl.c b/src/rle8_ocl.c
index 53ee485..33ded9b 100644
--- a/src/rle8_ocl.c
+++ b/src/rle8_ocl.c
@@ -411,6 +411,9 @@ uint32_t rle8m_opencl_decompress(IN const uint8_t *pIn, const uint32_t inSize, O
   success = true;
 
 epilogue:
+  if (!success)
+    clFinish(commandQueue); // the writes that have already been enqueued still read from `pIn`, `decompressInfo` & `pSubSectionOffsets`.
+
   return success ? (uint32_t)expectedOutSize : 0;
 }
 
-- 
2.43.0


From 333746b4224df6529c0a632704d1434a03b24a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:36 +0000
Subject: [PATCH 25/30] fix: bitpack_encode3_sse2_unaligned_m128i packed the
 wrong symbols after a block of three vectors

---
 src/bitpack.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bitpack.h b/src/bitpack.h
index 7f7e5cd..97feb35 100644
--- a/src/bitpack.h
+++ b/src/bitpack.h
@@ -425,6 +425,8 @@ inline uint8_t * bitpack_encode3_sse2_unaligned_m128i(const __m128i *pIn, uint8_
     const __m128i p1 = _mm_loadu_si128(pIn + 1);
     const __m128i p2 = _mm_loadu_si128(pIn + 2);
 
+    pIn += 3;
+
     const __m128i p01p = _mm_or_si128(p0, _mm_slli_epi16(p1, 3));
     const __m128i p2p = _mm_slli_epi16(_mm_and_si128(p2, patternLow2), 6);
 
-- 
2.43.0


From 772c4977b2f1aff1cadec7c9063d2e60263d7c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:04 +0000
Subject: [PATCH 26/30] fix: rle_compress_bounds was too small for inputs with
 many runs that barely aren't worth encoding

---
 src/rle8_extreme_cpu.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rle8_extreme_cpu.c b/src/rle8_extreme_cpu.c
index 5c17905..f366632 100644
--- a/src/rle8_extreme_cpu.c
+++ b/src/rle8_extreme_cpu.c
@@ -24,7 +24,8 @@ uint32_t rle_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + (16 + 4 + 1 + 4 + 1 + 64) * 2 + (3 * 4) + 1;
+  // Some codecs encode runs that take one or two bytes more than the original if they're separated by long literals: up to one byte every 68 bytes (24 bit 7 symbol LUT).
+  return inSize + inSize / 64 + (16 + 4 + 1 + 4 + 1 + 64) * 2 + (3 * 4) + 1;
 }
 
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c69fc6f79a4444f5f121ba8639d92635f7f6237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:48 +0000
Subject: [PATCH 27/30] fix: 8 Bit Single never chose a symbol 0 that only has
 one run in data that doesn't start with it

The symbol histogram was seeded with (uint32_t)-1 for symbol 0 whenever the
data starts with something else, although no run of 0 is counted at the start
(lastSymbol is ~pIn[0] by then). A single long run of 0 was therefore skipped
in favour of any tiny run of another symbol and stored verbatim.
---
 src/rle8_extreme_cpu.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/rle8_extreme_cpu.c b/src/rle8_extreme_cpu.c
index f366632..e74100c 100644
--- a/src/rle8_extreme_cpu.c
+++ b/src/rle8_extreme_cpu.c
@@ -64,9 +64,6 @@ uint8_t rle8_single_compress_get_approx_optimal_symbol_sse2(IN const uint8_t *pI
   uint8_t lastSymbol = 0;
   uint32_t count = 0;
 
-  if (pIn[0] != lastSymbol)
-    pcount[lastSymbol] = (uint32_t)-1;
-
   int64_t inIndex = 0;
   lastSymbol = ~pIn[0];
   __m128i lastSymbol128 = _mm_set1_epi8(lastSymbol);
@@ -170,9 +167,6 @@ uint8_t rle8_single_compress_get_approx_optimal_symbol_avx2(IN const uint8_t *pI
   uint8_t lastSymbol = 0;
   uint32_t count = 0;
 
-  if (pIn[0] != lastSymbol)
-    pcount[lastSymbol] = (uint32_t)-1;
-
   int64_t inIndex = 0;
   lastSymbol = ~pIn[0];
   __m256i lastSymbol256 = _mm256_set1_epi8(lastSymbol);
-- 
2.43.0


From 7d9d0615bd617f0e18d14f3c282c12a71194e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:48 +0000
Subject: [PATCH 28/30] fix: fuzz_read_rand re-seeded its generator from the
 clock on every call

'initialized' was never set, so that consecutive blocks of 'random' fuzz data
were almost identical instead of being the generator's sequence.
---
 src/rle_fuzz.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rle_fuzz.c b/src/rle_fuzz.c
index 3a80a01..60eba63 100644
--- a/src/rle_fuzz.c
+++ b/src/rle_fuzz.c
@@ -102,6 +102,7 @@ void fuzz_read_rand(__m128i *pOut)
   {
     last[0] = _mm_set_epi64x(GetCurrentTimeTicks(), __rdtsc());
     last[1] = _mm_set_epi64x(~__rdtsc(), ~GetCurrentTimeTicks());
+    initialized = true;
   }
 
   const __m128i r = _mm_aesdec_si128(last[0], last[1]);
-- 
2.43.0


From 33224dd4691fcc9d1aa35f9d88fb53205b98eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:53 +0000
Subject: [PATCH 29/30] fix: give back the input copy and the failure file when
 fuzzing ends

A completed iterative fuzzing run leaked its copy of the input buffer and left
fuzz-failure.bin open.
---
 src/rle_fuzz.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rle_fuzz.c b/src/rle_fuzz.c
index 60eba63..e5a4085 100644
--- a/src/rle_fuzz.c
+++ b/src/rle_fuzz.c
@@ -539,6 +539,7 @@ bool fuzz(const size_t sectionCount, const bool iterative)
   uint8_t *pInputBufferCopy = NULL;
   uint8_t *pCompressed = NULL;
   uint8_t *pDecompressed = NULL;
+  FILE *pFile = NULL;
   
   if (!fuzz_create(&pState, sectionCount, iterative))
     goto epilogue;
@@ -580,7 +581,7 @@ bool fuzz(const size_t sectionCount, const bool iterative)
   size_t fuzzedBytesSinceLastStep = 0;
 
   // Let's have the file already open, in case we crash and may be able to use it in the debugger.
-  FILE *pFile = fopen("fuzz-failure.bin", "wb");
+  pFile = fopen("fuzz-failure.bin", "wb");
   _pFuzzInputBufferFile = pFile;
   
   do
@@ -660,6 +661,7 @@ bool fuzz(const size_t sectionCount, const bool iterative)
           {
             fwrite(pInputBuffer, 1, inputSize, pFile);
             fclose(pFile);
+            pFile = NULL;
           }
         }
 
@@ -749,7 +751,11 @@ bool fuzz(const size_t sectionCount, const bool iterative)
   result = true;
 
 epilogue:
+  if (pFile != NULL)
+    fclose(pFile);
+
   free(pInputBuffer);
+  free(pInputBufferCopy);
   free(pCompressed);
   free(pDecompressed);
   fuzz_destroy(&pState);
-- 
2.43.0


From 530f5bbbba6598b879b8816694a8acb3013e102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:09 +0000
Subject: [PATCH 30/30] fix: relate the aligned difference table of the
 analysis to the number of aligned runs

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 1158717..f5effd4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1659,7 +1659,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
         printf("%3" PRIi8 " | ", (int8_t)j - 15);
 
       for (size_t k = 0; k < 32; k++)
-        printf("%4.1f ", pRLE->alignedCopyDiffVsCountDiff[j * 32 + k] / (double)pRLE->totalRleCount * 100.0);
+        printf("%4.1f ", pRLE->alignedCopyDiffVsCountDiff[j * 32 + k] / (double)pRLE->alignedTotalRleCount * 100.0);
 
       puts("");
     }
-- 
2.43.0

