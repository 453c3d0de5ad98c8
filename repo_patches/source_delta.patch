From 51b7b9d1405ce0ebd844481adeb92d2ec12f7db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 1/9] fix: t1ha0 AES: do not truncate lengths of 4 GiB and more
 on LLP64

~15ul is 32 bits wide on LLP64 targets (Windows x64), so masking a size_t
length with it dropped the high half and the bulk of the data.
---
 src/t1ha0_ia32aes_b.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha0_ia32aes_b.h b/src/t1ha0_ia32aes_b.h
index f8759dd..3411e5b 100644
--- a/src/t1ha0_ia32aes_b.h
+++ b/src/t1ha0_ia32aes_b.h
@@ -56,7 +56,7 @@ uint64_t T1HA_IA32AES_NAME(const void *data, size_t len, uint64_t seed) {
 
     const __m128i *v = (const __m128i *)data;
     const __m128i *const detent =
-        (const __m128i *)((const uint8_t *)data + (len & ~15ul));
+        (const __m128i *)((const uint8_t *)data + (len & ~(size_t)15));
     data = detent;
 
     if (len & 16) {
-- 
2.43.0


From 89a35a55db2fa3b4a89757ff3be186a4aae456f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 2/9] fix: tail64_be_unaligned() referred to the undefined
 fetch32_be()

Big-endian builds with efficient unaligned access and without one-shot
reads did not compile.
---
 src/t1ha_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 93b6b51..5c2eb0c 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -935,7 +935,7 @@ tail64_be_unaligned(const void *v, size_t tail) {
   case 3:
     return (uint32_t)fetch16_be_unaligned(p) << 8 | p[2];
   case 4:
-    return fetch32_be(p);
+    return fetch32_be_unaligned(p);
   case 5:
     return (uint64_t)fetch32_be_unaligned(p) << 8 | p[4];
   case 6:
-- 
2.43.0


From 88aadeab854032fbccc5b29609680ed3bd875cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 3/9] fix: t1ha0() called through a NULL pointer before its
 constructor ran

Without indirect functions t1ha0_funcptr was NULL until t1ha0_init(), so a
call of t1ha0() from an earlier constructor crashed.
---
 src/t1ha0.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 635f19d..aab8bf8 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -440,7 +440,14 @@ __asm("\t.globl\tt1ha0\n\t.type\tt1ha0, "
 
 #elif __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
 
-uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t);
+/* Makes t1ha0() usable before the constructor below has run,
+ * for example from another constructor. */
+static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
+                                   uint64_t seed) {
+  return t1ha0_resolve()(data, len, seed);
+}
+
+uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t) = t1ha0_proxy;
 
 static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
   t1ha0_funcptr = t1ha0_resolve();
-- 
2.43.0


From 1f3b513d05d7cced3130c3718d70836d6bcfe42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 4/9] fix: t1ha0: require that the OS has enabled the AVX state

The AVX variants were selected by the OSXSAVE and AVX processor bits alone.
When the OS leaves the YMM state disabled in XCR0 they fault.
---
 src/t1ha0.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index aab8bf8..839ddbb 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -382,6 +382,22 @@ __cold uint64_t t1ha_ia32cpu_features(void) {
     }
   }
 #endif
+
+  /* AVX is usable only if the OS has enabled the XMM and YMM state in XCR0 */
+  uint64_t xcr0 = 0;
+  if (features & UINT32_C(0x08000000) /* OSXSAVE */) {
+#ifdef __GNUC__
+    uint32_t xcr0_lo, xcr0_hi;
+    __asm__ __volatile__("xgetbv" : "=a"(xcr0_lo), "=d"(xcr0_hi) : "c"(0));
+    xcr0 = xcr0_lo | (uint64_t)xcr0_hi << 32;
+#elif defined(_MSC_VER)
+    xcr0 = _xgetbv(0);
+#endif
+  }
+  if ((xcr0 & 6) != 6) {
+    features &= ~UINT32_C(0x10000000) /* AVX */;
+    extended &= ~UINT32_C(0x00000020) /* AVX2 */;
+  }
   return features | (uint64_t)extended << 32;
 }
 #endif /* T1HA0_AESNI_AVAILABLE && __ia32__ */
-- 
2.43.0


From ff84e0880a3d8be9ed97158816e72026121134f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 5/9] fix: t1ha2_update(): do not pass NULL to memcpy() on an
 empty update

---
 src/t1ha2.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/t1ha2.c b/src/t1ha2.c
index 009f922..f93b061 100644
--- a/src/t1ha2.c
+++ b/src/t1ha2.c
@@ -311,6 +311,9 @@ void t1ha2_init(t1ha_context_t *ctx, uint64_t seed_x, uint64_t seed_y) {
 
 void t1ha2_update(t1ha_context_t *__restrict ctx, const void *__restrict data,
                   size_t length) {
+  if (unlikely(!length))
+    return /* data may be NULL, which must not be passed to memcpy() */;
+
   ctx->total += length;
 
   if (ctx->partial) {
-- 
2.43.0


From 443a4be3610b2e9983802fdba9bba894c1adc56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 6/9] fix: aligned 64-bit tails must not read across a page on
 32-bit strict-alignment targets

With ALIGNMENT_64 == 4 the 'oneshot' read of tail64_{le,be}_aligned() takes
8 bytes from an address which is only 4-byte aligned, i.e. it may touch the
page after the one where the data ends.
---
 src/t1ha_bits.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 5c2eb0c..e4a8211 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -604,8 +604,10 @@ fetch64_le_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
-  /* We can perform a 'oneshot' read, which is little bit faster. */
+#if T1HA_USE_FAST_ONESHOT_READ && ALIGNMENT_64 >= 8 &&                         \
+    !defined(__SANITIZE_ADDRESS__)
+  /* We can perform a 'oneshot' read, which is little bit faster.
+   * But only if the aligned 64-bit word can't cross a page boundary. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_le_aligned(p) & ((~UINT64_C(0)) >> shift);
 #else
@@ -847,8 +849,10 @@ fetch64_be_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
-  /* We can perform a 'oneshot' read, which is little bit faster. */
+#if T1HA_USE_FAST_ONESHOT_READ && ALIGNMENT_64 >= 8 &&                         \
+    !defined(__SANITIZE_ADDRESS__)
+  /* We can perform a 'oneshot' read, which is little bit faster.
+   * But only if the aligned 64-bit word can't cross a page boundary. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_be_aligned(p) >> shift;
 #else
-- 
2.43.0


From 64a8b8050323d6ef1c6f5d5354d8086f637fd19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 7/9] fix: do not promise natural alignment for 64-bit words
 aligned to 4 bytes

On 32-bit targets ALIGNMENT_64 is 4, but read_aligned(ptr, 64) dereferences a
plain uint64_t pointer, so the compiler may use an instruction which traps on
such an address (ldrd of ARMv5, ldd of SPARC V8).
---
 src/t1ha_bits.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index e4a8211..9bd5090 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -446,8 +446,12 @@ typedef struct {
 
 #ifndef read_aligned
 #if __GNUC_PREREQ(4, 8) || __has_builtin(__builtin_assume_aligned)
+typedef uint16_t t1ha_aligned_16 __attribute__((__aligned__(ALIGNMENT_16)));
+typedef uint32_t t1ha_aligned_32 __attribute__((__aligned__(ALIGNMENT_32)));
+typedef uint64_t t1ha_aligned_64 __attribute__((__aligned__(ALIGNMENT_64)));
 #define read_aligned(ptr, bits)                                                \
-  (*(const uint##bits##_t *)__builtin_assume_aligned(ptr, ALIGNMENT_##bits))
+  (*(const t1ha_aligned_##bits *)__builtin_assume_aligned(ptr,                 \
+                                                          ALIGNMENT_##bits))
 #elif (__GNUC_PREREQ(3, 3) || __has_attribute(__aligned__)) &&                 \
     !defined(__clang__)
 #define read_aligned(ptr, bits)                                                \
-- 
2.43.0


From 40c0f61d0dac5da3438068b281cc3e0485b9ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 8/9] fix: t1ha0_32le() and t1ha0_32be() were not exported from
 the shared library

The inline t1ha0() of builds without run-time selection calls them on
32-bit targets (or with t1ha1 and t1ha2 disabled), so programs using the
shared library failed to link.
---
 t1ha.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t1ha.h b/t1ha.h
index 498f0dd..8ea3b46 100644
--- a/t1ha.h
+++ b/t1ha.h
@@ -585,9 +585,9 @@ T1HA_API uint64_t t1ha1_be(const void *data, size_t length, uint64_t seed);
 #ifndef T1HA0_DISABLED
 
 /* The little-endian variant for 32-bit CPU. */
-uint64_t t1ha0_32le(const void *data, size_t length, uint64_t seed);
+T1HA_API uint64_t t1ha0_32le(const void *data, size_t length, uint64_t seed);
 /* The big-endian variant for 32-bit CPU. */
-uint64_t t1ha0_32be(const void *data, size_t length, uint64_t seed);
+T1HA_API uint64_t t1ha0_32be(const void *data, size_t length, uint64_t seed);
 
 /* Define T1HA0_AESNI_AVAILABLE to 0 for disable AES-NI support. */
 #ifndef T1HA0_AESNI_AVAILABLE
-- 
2.43.0


From 9cc6b14b245aa5f356acb3134e8a5091037f166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 9/9] fix: rot128() shifted by 128 bits when the rotation count
 is zero

---
 src/t1ha_bits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 9bd5090..3a70328 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -1204,7 +1204,8 @@ static __maybe_unused __always_inline t1ha_uint128_t rot128(t1ha_uint128_t v,
   s &= 127;
 #if defined(__SIZEOF_INT128__) ||                                              \
     (defined(_INTEGRAL_MAX_BITS) && _INTEGRAL_MAX_BITS >= 128)
-  v.v = (v.v << (128 - s)) | (v.v >> s);
+  if (s)
+    v.v = (v.v << (128 - s)) | (v.v >> s);
   return v;
 #else
   return s ? or128(left128(v, 128 - s), right128(v, s)) : v;
-- 
2.43.0

