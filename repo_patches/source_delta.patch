From a79abf43b45b2a1588f9be89e1f69c00e9ffc454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:21 +0000
Subject: [PATCH 01/78] fix: unbalanced parentheses in little-endian
 __constant_ntohl/htons/ntohs

---
 inc/fast/little-endian.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/fast/little-endian.h b/inc/fast/little-endian.h
index 83b93ff..e1eb4c2 100644
--- a/inc/fast/little-endian.h
+++ b/inc/fast/little-endian.h
@@ -31,9 +31,9 @@ extern "C" {
 #define __constant_htonll(x) (__swab64((uint64_t)(x)))
 #define __constant_htonl(x)  (__swab32((uint32_t)(x)))
 #define __constant_ntohll(x) (__swab64((uint64_t)(x)))
-#define __constant_ntohl(x)  (__swab32(((uint32_t)(x)))
-#define __constant_htons(x)  (__swab16(((uint16_t)(x)))
-#define __constant_ntohs(x)  (__swab16(((uint16_t)(x)))
+#define __constant_ntohl(x)  (__swab32((uint32_t)(x)))
+#define __constant_htons(x)  (__swab16((uint16_t)(x)))
+#define __constant_ntohs(x)  (__swab16((uint16_t)(x)))
 
 #define __cpu_to_le16(x)     ((uint16_t)(x))
 #define __cpu_to_le32(x)     ((uint32_t)(x))
-- 
2.43.0


From 1381c31118cd24b5a009f74487e08023f8aca3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:10 +0000
Subject: [PATCH 02/78] fix: base64_encode_buf size test let short inputs
 overflow the destination

---
 src/b64_encode.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/b64_encode.c b/src/b64_encode.c
index 891f309..6e8083e 100644
--- a/src/b64_encode.c
+++ b/src/b64_encode.c
@@ -7,6 +7,7 @@
  */
 
 #include <errno.h>
+#include <stdint.h>
 #include <assert.h>
 #include "utils/base64.h"
 
@@ -125,7 +126,14 @@ base64_encode_buf(char* dest, int destlen, void* src, int srclen)
     base64_encode_state state;
     int n;
 
-    if (destlen < (2*srclen))
+    /*
+     * 4 chars for every 3 bytes (padded), a newline for every full line,
+     * the final newline and the NUL.
+     */
+    const int64_t full = srclen / 3;
+    const int64_t need = 4 * (full + (srclen % 3 ? 1 : 0)) + full / (CHARS_PER_LINE/4) + 2;
+
+    if (srclen < 0 || destlen < need)
         return -ENOMEM;
 
     base64_encode_init(&state);
-- 
2.43.0


From 20df9cf6082986b0510d42447b63bebfc460fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:10 +0000
Subject: [PATCH 03/78] fix: base64 decoder read past its table for '{' and
 past the destination buffer

---
 src/b64_decode.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 0abcc94..2fa8a21 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -7,6 +7,7 @@
  */
 
 #include <errno.h>
+#include <stdint.h>
 #include "utils/base64.h"
 
 static int
@@ -22,7 +23,7 @@ base64_decode_value(int value_in)
     };
 	static const int decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[value_in];
 }
 
@@ -39,10 +40,9 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
 {
     const char* codechar = code_in;
     char* plainchar      = plaintext_out;
+    char partial         = state_in->plainchar;  // bits of the next, incomplete byte
     char fragment;
 
-    *plainchar = state_in->plainchar;
-
     switch (state_in->step)
     {
         while (1)
@@ -52,47 +52,48 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_a;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = partial;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar    = (fragment & 0x03f) << 2; // fallthrough
+                partial       = (fragment & 0x03f) << 2; // fallthrough
             case step_b:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_b;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = partial;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++ |= (fragment & 0x030) >> 4;
-                *plainchar    = (fragment & 0x00f) << 4; // fallthrough
+                *plainchar++  = partial | ((fragment & 0x030) >> 4);
+                partial       = (fragment & 0x00f) << 4; // fallthrough
             case step_c:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_c;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = partial;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++ |= (fragment & 0x03c) >> 2;
-                *plainchar    = (fragment & 0x003) << 6; // fallthrough
+                *plainchar++  = partial | ((fragment & 0x03c) >> 2);
+                partial       = (fragment & 0x003) << 6; // fallthrough
             case step_d:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_d;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = partial;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++   |= (fragment & 0x03f);
+                *plainchar++  = partial | (fragment & 0x03f);
+                partial       = 0;
         }
     }
     /* control should not reach here */
@@ -106,7 +107,15 @@ base64_decode_buf(void* buf, int destlen, char* src, int srclen)
     char* dest = (char*)buf;
     base64_decode_state state;
 
-    if (destlen < (srclen/2)) return -ENOMEM;
+    int64_t n = 0;
+    int i;
+
+    // every 4 valid chars yield 3 bytes
+    for (i = 0; i < srclen; i++) {
+        if (base64_decode_value(src[i]) >= 0) n++;
+    }
+
+    if (destlen < (n * 3) / 4) return -ENOMEM;
 
     base64_decode_init(&state);
 
-- 
2.43.0


From f716ec9eca7a39db297b4b4d4fd5a53a23d30f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 04/78] fix: ulid_generate stored 0/1 instead of the timestamp
 bytes

---
 src/ulid.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ulid.c b/src/ulid.c
index f1d91d9..8fb0904 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -46,12 +46,12 @@ ulid_generate(uint8_t *buf, size_t bsiz)
 
     ms &= ~(((uint64_t)0xffff) << 48);   // clear top 16 bits;
 
-    *buf++ = 0xff && (ms >> 40);
-    *buf++ = 0xff && (ms >> 32);
-    *buf++ = 0xff && (ms >> 24);
-    *buf++ = 0xff && (ms >> 16);
-    *buf++ = 0xff && (ms >>  8);
-    *buf++ = 0xff && ms;
+    *buf++ = 0xff & (ms >> 40);
+    *buf++ = 0xff & (ms >> 32);
+    *buf++ = 0xff & (ms >> 24);
+    *buf++ = 0xff & (ms >> 16);
+    *buf++ = 0xff & (ms >>  8);
+    *buf++ = 0xff & ms;
 
     getentropy(buf, 10);
     return 16;
-- 
2.43.0


From 003aa36ef6c95e8af0b6256557014e1876e0d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 05/78] fix: ulid_tostring took one timestamp bit from the
 wrong byte

---
 src/ulid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ulid.c b/src/ulid.c
index 8fb0904..89ccd34 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -146,7 +146,7 @@ ulid_tostring(char *s, size_t bsiz, const uint8_t *id)
     *p++ = b32[ ((id[ 1] &   7) << 2) | ((id[ 2] & 192) >> 6)];
 
     *p++ = b32[ ( id[ 2] &  62) >> 1];
-    *p++ = b32[ ((id[ 3] &   1) << 4) | ((id[ 3] & 240) >> 4)];
+    *p++ = b32[ ((id[ 2] &   1) << 4) | ((id[ 3] & 240) >> 4)];
     *p++ = b32[ ((id[ 3] &  15) << 1) | ((id[ 4] & 128) >> 7)];
     *p++ = b32[ ( id[ 4] & 124) >> 2];
 
-- 
2.43.0


From d12c4b22a3581fdc0cf83daa4b8a5d28f82c1249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 06/78] fix: ulid_fromstring silently truncated values beyond
 128 bits

---
 src/ulid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ulid.c b/src/ulid.c
index 89ccd34..d485be4 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -104,6 +104,9 @@ ulid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
         if (0xff == z) return -EINVAL;  \
         z; })
 
+    // 26 digits carry 130 bits; the value must fit 128
+    if (v(0) > 7) return -EINVAL;
+
 	*buf++   = ((v(0) << 5) |  v(1));
 	*buf++   = ((v(2) << 3) | (v(3) >> 2));
 	*buf++   = ((v(3) << 6) | (v(4) << 1) | (v(5) >> 4));
-- 
2.43.0


From 1898e0ae426cb978fd34a45c423190aafb99e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 07/78] fix: uuid_fromstring wrote past 16 bytes for strings
 with too few dashes

---
 src/uuid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uuid.c b/src/uuid.c
index 514f48f..b7f1033 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -70,6 +70,7 @@ uuid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
                 byte |= (c - 'A' + 10) << shift;
                 break;
         }
+        if (bsiz == 0) return -EINVAL;  // more than 32 digits
         if ((shift -= 4) < 0) {
             *buf++ = byte;
             byte   = 0;
-- 
2.43.0


From eb3f3eb35081400e4e53824ca5b94141f7e263d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 08/78] fix: strsplit_quick with no slots reallocated the
 caller's array

---
 src/strsplit.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 3cd3137..d59e10a 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -32,7 +32,8 @@ struct stra
 {
     unsigned char ** arr;
     int size;
-    int cap; /* setting to -1 indicates that this is not growable */
+    int cap; /* negative: fixed size of -cap slots, not growable */
+    int fixed; /* set if the array belongs to the caller */
 };
 typedef struct stra stra;
 
@@ -51,6 +52,7 @@ _stra_init(stra * a)
 {
     a->size = 0;
     a->cap  = 16;
+    a->fixed = 0;
     a->arr  = (unsigned char **) calloc(a->cap, sizeof (unsigned char *));
 }
 
@@ -65,6 +67,7 @@ _stra_init_from(stra* a, char**v, int n)
 {
     a->size = 0;
     a->cap  = -n;
+    a->fixed = 1;
     a->arr  = (unsigned char**)v;
 }
 
@@ -104,14 +107,14 @@ _stra_resize(stra * a)
  * Return True if 'a' can hold 'n' more elements
  *
  * Don't resize if one of two conditions hold:
- *  - capacity is pinned (a->cap < 0)
+ *  - capacity is pinned (a->fixed)
  *  - the size is big enough to accommodate the new request
  */
 static inline int
 _stra_resize_if(stra* a, int n)
 {
     int want = a->size + n;
-    if (a->cap < 0)
+    if (a->fixed)
         return want <= -a->cap;
 
     if (want >= a->cap)
-- 
2.43.0


From 93494d9552c3aa2a68215f821e720c630f95c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 09/78] fix: strsplit_csv indexed its separator bits with
 negative characters

---
 src/strsplit_csv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strsplit_csv.c b/src/strsplit_csv.c
index 78c5e24..4a473cb 100644
--- a/src/strsplit_csv.c
+++ b/src/strsplit_csv.c
@@ -75,12 +75,12 @@ strsplit_csv(char *sv[], int sv_size, char *str, const char *sep)
      */
 
     if (!sep) sep = ",";
-    for (; (c = *sep); sep++) {
+    for (; (c = 0xff & *sep); sep++) {
         __add_delim(&v, c);
         assert(__is_delim(&v, c));
     }
 
-    while ((c = *str)) {
+    while ((c = 0xff & *str)) {
         switch (c) {
             case '\'': case '"':
                 if (q == c) {
-- 
2.43.0


From 58ba9af9603d9870d9365930f274b447491d7676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 10/78] fix: strsplit_csv accepted an unterminated quote that
 is the last character

---
 src/strsplit_csv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strsplit_csv.c b/src/strsplit_csv.c
index 4a473cb..bc98d3f 100644
--- a/src/strsplit_csv.c
+++ b/src/strsplit_csv.c
@@ -126,8 +126,8 @@ strsplit_csv(char *sv[], int sv_size, char *str, const char *sep)
         }
     }
 
+    if (q)                return -EINVAL;
     if (sub != p) {
-        if (q)            return -EINVAL;
         if (k == sv_size) return -ENOSPC;
 
         *p++ = 0;
-- 
2.43.0


From 6299025530fe04f90544eae75dd40242b18274a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 11/78] fix: strsplitargs lost the characters before a quote in
 the middle of a word

---
 src/splitargs.c | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/splitargs.c b/src/splitargs.c
index 8449d1f..4f12b09 100644
--- a/src/splitargs.c
+++ b/src/splitargs.c
@@ -56,9 +56,10 @@ strsplitargs(char **args, size_t n, char *s)
     int i = 0;
     int k = n;
     int inquote = 0;
-    int eow = 0;
+    int inword  = 0;
 
-    char *p = s;    // start of substring
+    char *p    = s,    // where the next char of the word goes
+         *word = s;    // start of current word
 
 #define ADDARG(z)   do {\
                         if (k == 0) return -ENOSPC;\
@@ -68,39 +69,42 @@ strsplitargs(char **args, size_t n, char *s)
 
     for (; (c = *s); s++) {
         if (inquote) {
-            if (c == inquote) { // quote ended
-                *s = 0;
-                ADDARG(p+1);    // +1 to skip the starting quote.
-                p       = s+1;  // +1 to skip the ending quote
+            // we consume everything inside the quotes.
+            if (c == inquote)
                 inquote = 0;
-            }
-
-            // regardless, we consume everything inside the quotes.
+            else
+                *p++ = c;
             continue;
         }
 
-        if (isspace(c)) {
-            *s  = 0;
-            eow = 1;
+        if (isspace((unsigned char)c)) {
+            if (inword) {
+                *p++ = 0;
+                ADDARG(word);
+                inword = 0;
+            }
             continue;
         }
 
-        if (c == '"' || c == '\'') {
-            inquote = c;
-        }
-
         // either c is a quote-char or a non-ws char. In either
-        // case, we terminate the previous word (if there is one).
-        if (eow) {
-            if (*p) ADDARG(p);
-            p   = s;
-            eow = 0;
+        // case, we are in a word.
+        if (!inword) {
+            word   = p;
+            inword = 1;
         }
+
+        if (c == '"' || c == '\'')
+            inquote = c;
+        else
+            *p++ = c;
     }
 
     if (inquote) return -EINVAL;    // no ending quote
 
-    if (*p) ADDARG(p);
+    if (inword) {
+        *p = 0;
+        ADDARG(word);
+    }
 
     return i;   // total number of arguments
 }
-- 
2.43.0


From 28224fde94b4de999af5cc8b4ab0347c9a11834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:35 +0000
Subject: [PATCH 12/78] fix: strtosize missed most overflows of the unit
 multiplication

---
 src/strtosize.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index baa6d0c..06a5432 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -180,11 +180,9 @@ strtosize(const char* str, int base, uint64_t* ret)
         }
     }
 
-    uint64_t res = v * mult;
+    if (v > _u(~0) / mult) return -ERANGE;
 
-    if (v > 0 && (res < v || res < mult)) return -ERANGE;
-
-    if (ret) *ret = res;
+    if (ret) *ret = v * mult;
     return 0;
 }
 
-- 
2.43.0


From 1de72c970364d3d6fd7b44ab682f8cfdf86e95cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:35 +0000
Subject: [PATCH 13/78] fix: strtosize refused the documented B suffix and
 ignored garbage after a suffix

---
 src/strtosize.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index 06a5432..ce2c07f 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -140,6 +140,10 @@ strtosize(const char* str, int base, uint64_t* ret)
             case ' ':
                 break;
 
+            case 'B':       // plain bytes
+                endptr--;
+                break;
+
             case 'k': case 'K':
                 mult = KB_;
                 break;
@@ -169,15 +173,16 @@ strtosize(const char* str, int base, uint64_t* ret)
         }
 
         switch (*endptr) {
-            case 0:
             case 'B':
+                endptr++;
                 break;
             case 'b':
                 mult /= 8;
+                endptr++;
                 break;
-            default:
-                if (!isspace(*endptr)) return -EINVAL;
         }
+
+        if (*endptr && !isspace(*endptr)) return -EINVAL;
     }
 
     if (v > _u(~0) / mult) return -ERANGE;
-- 
2.43.0


From cbb7cadea95bf7970889d8fb9428aab5ed0a018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:35 +0000
Subject: [PATCH 14/78] fix: humanize_size printed the first digits of the
 remainder as the fraction

---
 src/humanize.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/humanize.c b/src/humanize.c
index d2eebd0..288fd2b 100644
--- a/src/humanize.c
+++ b/src/humanize.c
@@ -70,9 +70,9 @@ humanize_size(char * buf, size_t bufsize, uint64_t nbytes)
             uint64_t m = (nbytes % p->sz);
 
             if (m > 0) {
-                char frac[64];
-                snprintf(frac, sizeof frac, "%" PRIu64, m);
-                snprintf(buf, bufsize, "%" PRIu64 ".%2.2s %s", n, frac, p->suffix);
+                uint64_t d1 = (m * 10) / p->sz;
+                uint64_t d2 = ((m * 10) % p->sz) * 10 / p->sz;
+                snprintf(buf, bufsize, "%" PRIu64 ".%" PRIu64 "%" PRIu64 " %s", n, d1, d2, p->suffix);
             } else {
                 snprintf(buf, bufsize, "%" PRIu64 " %s", n, p->suffix);
             }
-- 
2.43.0


From 1a708202530cb38a7a43201dbd3a3aee3cee22d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:32 +0000
Subject: [PATCH 15/78] fix: dirname of an empty path wrote past a one byte
 buffer

---
 src/dirname.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dirname.c b/src/dirname.c
index 09a8695..3cfbea5 100644
--- a/src/dirname.c
+++ b/src/dirname.c
@@ -20,11 +20,13 @@ const char *
 dirname(char *buf, size_t bsize, const char *p)
 {
     size_t n = strlen(p);
-    if (bsize < (n+1)) return 0;
+    if (bsize < 2 || bsize < (n+1)) return 0;
 
     memcpy(buf, p, n);
     buf[n] = 0;
 
+    if (n == 0) goto slash;
+
     char *s = buf + n - 1;
 
     // skip trailing '/'
-- 
2.43.0


From 836e579a591b897e47ae029021fc2c60a24aaa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:32 +0000
Subject: [PATCH 16/78] fix: dirname kept all but one of several consecutive
 slashes

---
 src/dirname.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dirname.c b/src/dirname.c
index 3cfbea5..0090eaf 100644
--- a/src/dirname.c
+++ b/src/dirname.c
@@ -39,7 +39,8 @@ found:
     s[1] = 0;   // remove the last slash.
     for (; s > buf; s--) {
         if (*s == '/') {
-            *s = 0;
+            for (; s > buf && *s == '/'; s--) ;
+            s[1] = 0;   // remove the whole run of slashes
             return buf;
         }
     }
-- 
2.43.0


From 7dde06492ea6ce523aa71b065ce483ae0b84f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:32 +0000
Subject: [PATCH 17/78] fix: strunquote looked for the closing quote one
 character too early

---
 src/strunquote.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strunquote.c b/src/strunquote.c
index 86759df..96d38da 100644
--- a/src/strunquote.c
+++ b/src/strunquote.c
@@ -42,9 +42,9 @@ strunquote(char* s, char** p_ret)
     if (q != '"' && q != '\'') return 0;
 
     int n = strlen(s+1);
-    if (s[n-1] != q) return -1;
+    if (n == 0 || s[n] != q) return -1;
 
-    s[--n] = 0;
+    s[n] = 0;
     if (p_ret)  *p_ret = s + 1;
     return q;
 }
-- 
2.43.0


From 520415cb679211c054da8ef449af2bb9160c2a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:32 +0000
Subject: [PATCH 18/78] fix: freadline stored the terminator one byte past the
 buffer

---
 src/freadline.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index bd74ac3..de55182 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -30,7 +30,10 @@
 int
 freadline(FILE* fp, unsigned char * str, int n)
 {
-    unsigned char * end = str + n;
+    unsigned char * start = str;
+    unsigned char * end   = str + n - 1;    // room for the NUL
+
+    if (n <= 0) return -ENOSPC;
 
     while (1)
     {
@@ -59,6 +62,6 @@ freadline(FILE* fp, unsigned char * str, int n)
     }
 
     *str = 0;
-    return str - (end - n);
+    return str - start;
 }
 
-- 
2.43.0


From 747921900960a6f1e3987478f30b7c3f5239415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:32 +0000
Subject: [PATCH 19/78] fix: freadline dropped a last line without newline and
 reported errors as end of file

---
 src/freadline.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index de55182..db90e9e 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -38,11 +38,11 @@ freadline(FILE* fp, unsigned char * str, int n)
     while (1)
     {
         int c = fgetc(fp);
-        if (c == EOF)
-            return 0;
-
-        if (ferror(fp))
-            return -errno;
+        if (c == EOF) {
+            if (ferror(fp))
+                return -errno;
+            break;
+        }
 
         if (c == '\r')
         {
-- 
2.43.0


From a0a201da6dc6710a7540f398420ed04d79d98241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:51 +0000
Subject: [PATCH 20/78] fix: appending a gstr to itself read freed memory and
 lost the terminator

---
 src/gstring.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index 123a43c..7b05125 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -121,8 +121,9 @@ static size_t
 __append(gstr* g, const char* str, size_t len)
 {
     g = grow_if(g, len+1);
-    memcpy(g->str + g->len, str, len+1);
+    memcpy(g->str + g->len, str, len);
     g->len += len;
+    g->str[g->len] = 0;
     return g->len;
 }
 
@@ -152,7 +153,11 @@ gstr_append(gstr * g, const gstr * that)
 {
     assert(g);
 
-    return that ? __append(g, that->str, that->len) : g->len;
+    if (!that) return g->len;
+
+    // grow first: 'that' may be 'g' itself
+    grow_if(g, that->len+1);
+    return __append(g, that->str, that->len);
 }
 
 
-- 
2.43.0


From 4f75ee829248199ad5429e837095e525dfe12e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:51 +0000
Subject: [PATCH 21/78] fix: gstr_copy left the destination's length at 0

---
 src/gstring.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 7b05125..d4c2089 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -262,7 +262,8 @@ gstr_copy(gstr * dest, const gstr* src)
     dest->len = 0;
 
     dest = grow_if(dest, len+1);
-    memcpy(dest->str, src->str, len+1);
+    memmove(dest->str, src->str, len+1);
+    dest->len = len;
     return dest;
 }
 
-- 
2.43.0


From 813be900f074213360fe4078c3cd7dec3fcff5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:51 +0000
Subject: [PATCH 22/78] fix: gstr_chop reported characters it did not chop

---
 src/gstring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index d4c2089..9606704 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -203,8 +203,10 @@ gstr_chop(gstr * g)
     int c = 0;
     if ( g->len > 0 )
     {
-        c = g->str[g->len-1];
-        if (c == '\n') g->str[--g->len] = 0;
+        if (g->str[g->len-1] == '\n') {
+            c = '\n';
+            g->str[--g->len] = 0;
+        }
         if (g->len > 0) {
             int cr = g->str[g->len-1];
             if (cr == '\r') {
-- 
2.43.0


From 588d217defbe90b0a46f58480255091c0b8dfeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:51 +0000
Subject: [PATCH 23/78] fix: gstr_unquote left a wrong length and took a lone
 quote for a pair

---
 src/gstring.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index 9606704..441d387 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -357,10 +357,11 @@ gstr_unquote(gstr* g)
     int q = g->str[0];
     if (q != '"' && q != '\'')  return 0;
 
-    if (g->str[g->len-1] != q) return -1;
+    if (g->len < 2 || g->str[g->len-1] != q) return -1;
 
-    g->str[--g->len] = 0;
+    g->len -= 2;
     memmove(g->str, g->str+1, g->len);
+    g->str[g->len] = 0;
     return q;
 }
 
-- 
2.43.0


From d9922b173575db840850279791f30786f8c6fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:51 +0000
Subject: [PATCH 24/78] fix: gstr_readline indexed its delimiter bits with
 negative characters

---
 src/gstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 441d387..1425c1d 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -389,7 +389,7 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
     assert(tok);
 
     __init_delim(&d);
-    for (; (c = *tok); tok++)
+    for (; (c = (unsigned char)*tok); tok++)
         __add_delim(&d, c);
 
     str = g->str;
-- 
2.43.0


From 5ff149a6184f5ded0c6ebb614aab0d64006cfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:51 +0000
Subject: [PATCH 25/78] fix: gstr_readline wrote the terminator past a full
 buffer

---
 src/gstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 1425c1d..781fe56 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -395,7 +395,7 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
     str = g->str;
     len = g->len = 0;
     while ((c = fgetc(fp)) != EOF) {
-        if (len >= g->cap) {
+        if (len + 1 >= g->cap) {      // room for the NUL
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
             if (!str)
-- 
2.43.0


From cc04e92e07c3a0234e2bb882fc0e24bb775b668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:51 +0000
Subject: [PATCH 26/78] fix: gstr_readline did not report read errors

---
 src/gstring.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 781fe56..a88f8c3 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -412,8 +412,9 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
         str[len++] = c;
     }
     str[len] = 0;
+    g->len   = len;
 
-    return g->len = len;
+    return ferror(fp) ? -1 : (int)len;
 }
 
 
-- 
2.43.0


From 20690633b0360565308041ba57bbdd0cd8b4d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:51 +0000
Subject: [PATCH 27/78] fix: gstr_escape indexed its delimiter bits with
 negative characters

---
 src/escape.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/escape.c b/src/escape.c
index ebc2993..e0b9e2f 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -35,7 +35,7 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
     int c;
 
     __init_delim(&d);
-    for (; (c = *escset); escset++) {
+    for (; (c = (unsigned char)*escset); escset++) {
         __add_delim(&d, c);
     }
 
@@ -51,7 +51,7 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
 
     assert(g->str);
 
-    while ((c = *ptr++)) {
+    while ((c = (unsigned char)*ptr++)) {
         if (c == esc_char) {
             gstr_append_ch(g, c);
             gstr_append_ch(g, c);
-- 
2.43.0


From 3b58d902593abb4b7e57a6eb258e2cf5b0a3bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:51 +0000
Subject: [PATCH 28/78] fix: gstr_escape doubled the escape character of octal
 escapes

---
 src/escape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape.c b/src/escape.c
index e0b9e2f..ad503d6 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -80,7 +80,7 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
                     gstr_append_ch(g, 'v');
                     break;
                 default:
-                    snprintf(buf, sizeof buf, "%c0%3.3o", esc_char, c);
+                    snprintf(buf, sizeof buf, "0%3.3o", c);
                     gstr_append_str(g, buf);
             }
         } else {
-- 
2.43.0


From f654d3ed64a6e9761985e55babaa8fc782d79aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:51 +0000
Subject: [PATCH 29/78] fix: hexadecimal escapes decoded a-f as 0-5

---
 src/unescape.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unescape.c b/src/unescape.c
index 1262574..2d9508e 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -234,12 +234,12 @@ extract_hex(int *p_val, const char *ptr)
 
             case 'a': case 'b': case 'c':
             case 'd': case 'e': case 'f':
-                z = c - 'a';
+                z = c - 'a' + 10;
                 break;
 
             case 'A': case 'B': case 'C':
             case 'D': case 'E': case 'F':
-                z = c - 'A';
+                z = c - 'A' + 10;
                 break;
 
             case 0:
-- 
2.43.0


From f5ba954d73b4ee1c0265132eec9b004eecde10f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:19 +0000
Subject: [PATCH 30/78] fix: arena_alloc: refuse requests whose size
 computation overflows

---
 src/arena.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index 3d9bbff..53e048c 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -128,6 +128,9 @@ arena_alloc(arena_t a, size_t nbytes)
 
     if (!a) return 0;
 
+    /* Anything this large overflows the size computations below */
+    if (nbytes > (SIZE_MAX / 16) - sizeof(arena_node)) return 0;
+
     /* Account for system alignment */
     nbytes = _ALIGN_UP(nbytes, SYS_ALIGNMENT);
 
@@ -143,6 +146,8 @@ arena_alloc(arena_t a, size_t nbytes)
     /* allocate a new node; but, try to allocate a few more bytes
      * to satisfy atleast few more such allocations.  */
     chunk = nbytes < a->chunk_size ? a->chunk_size : nbytes * 16;
+    if (chunk > SIZE_MAX - sizeof(arena_node)) goto _end;
+
     n     = (arena_node *) malloc(sizeof(arena_node) + chunk);
     if (!n) goto _end;
 
-- 
2.43.0


From d6e1d813a991a6d5ae38b20e9c152ea998d56c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 31/78] fix: mempool: a pool of exactly one block is not an
 arithmetic overflow

---
 src/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index 54c4331..c490f46 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -230,7 +230,7 @@ new_chunk(mempool* a)
     uint64_t alloc_size = sizeof(memchunk) + chunk_size + MINALIGNMENT;
 
     /* Guard against arithmetic overflow */
-    assert(chunk_size > a->block_size && chunk_size > a->min_units);
+    assert(chunk_size >= a->block_size && chunk_size >= a->min_units);
     assert(alloc_size > chunk_size);
 
     memchunk *ch = (memchunk *) (*a->traits.alloc)(a->traits.context, alloc_size);
-- 
2.43.0


From 06ec8a30cab40eb01ccd03c614dbdd021869b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 32/78] fix: mempool: refuse a block size that wraps when
 rounded up

---
 src/mempool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mempool.c b/src/mempool.c
index c490f46..678e473 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -22,6 +22,7 @@
 #include <stddef.h>
 #include <inttypes.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <assert.h>
 
@@ -327,6 +328,7 @@ __real_init(mempool *a, const memmgr *tr, uint_t block_size, uint_t max, uint_t
      */
     if (block_size < MIN_OBJ_SIZE) block_size = MIN_OBJ_SIZE;
 
+    if (block_size > UINT_MAX - (MINALIGNMENT - 1)) return -EINVAL;
 
     block_size = _Align(uint_t, block_size);
 
-- 
2.43.0


From 5e8966ef3d28e0f82db15f3423bedcee79c043f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 33/78] fix: mempool_new: release the state when its first
 chunk cannot be had

---
 src/mempool.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index 678e473..f204637 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -399,8 +399,14 @@ mempool_new(mempool** p_a, const memmgr* tr, uint_t block_size,
     a = (mempool* )tr->alloc(tr->context, sizeof *a);
     if (!a) return -ENOMEM;
 
+    int r = __real_init(a, tr, block_size, max, min_alloc_units);
+    if (r < 0) {
+        (*tr->free)(tr->context, a);
+        return r;
+    }
+
     *p_a = a;
-    return __real_init(a, tr, block_size, max, min_alloc_units);
+    return 0;
 }
 
 
-- 
2.43.0


From 6fe54d8ec0f4c8722cddfaf7fb7634ac3b715894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 34/78] fix: mempool from memory: refuse memory that is too
 small

---
 src/mempool.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index f204637..e46a588 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -429,6 +429,8 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
 
     if (block_size < MIN_OBJ_SIZE) block_size = MIN_OBJ_SIZE;
 
+    if (block_size > UINT_MAX - (MINALIGNMENT - 1)) return -ENOMEM;
+
     block_size = _Align(uint_t, block_size);
 
 
@@ -437,6 +439,7 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (uint64_t)(ptr - pUCHAR(pool))) return -ENOMEM;
     poolsize -= (ptr - pUCHAR(pool));
 
     /*
@@ -492,13 +495,17 @@ mempool_new_from_mem(mempool** p_a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (ptr - pUCHAR(pool)) + sizeof *a) return -ENOMEM;
     poolsize -= ptr - pUCHAR(pool);
     a         = (mempool* )ptr;
     ptr      += sizeof *a;
     poolsize -= sizeof *a;
 
+    int r = mempool_init_from_mem(a, block_size, ptr, poolsize);
+    if (r < 0) return r;
+
     *p_a = a;
-    return mempool_init_from_mem(a, block_size, ptr, poolsize);
+    return 0;
 }
 
 
-- 
2.43.0


From bef46608c5105a24637689098e2e5bc3009e8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 35/78] fix: vect: growing a vector without capacity terminates

---
 inc/fast/vect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 87e3ae8..86d10f0 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -111,7 +111,7 @@ extern "C" {
 // vars are "unique" in their scope).
 #define __vect_RESERVE(v_, want_)                                   \
                         do {                                        \
-                            size_t n_ = v_->cap;                    \
+                            size_t n_ = v_->cap ? v_->cap : 1;      \
                             if  (want_ >= n_) {                     \
                                 do { n_ *= 2; } while (n_ < want_); \
                                 v_->arr = RENEWA(typeof(v_->arr[0]), v_->arr, n_);\
-- 
2.43.0


From cb60caa1396102fab104ea0b6ed997f04952d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 36/78] fix: VECT_PUSH_FRONT moves elements of the vector's
 type, not the argument's

---
 inc/fast/vect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 86d10f0..bb7d9ab 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -177,8 +177,8 @@ extern "C" {
 #define VECT_PUSH_FRONT(v,e)         do {                             \
                                             typeof(v) v_ = v;         \
                                             __vect_RESERVE(v_, v_->size+1);         \
-                                            typeof(e) * start_ = v_->arr;         \
-                                            typeof(e) * p_     = start_ + v_->size; \
+                                            typeof(v_->arr) start_ = v_->arr;       \
+                                            typeof(v_->arr) p_     = start_ + v_->size; \
                                             for (; p_ > start_; p_--)   \
                                                 *p_ = *(p_ - 1);         \
                                             *p_ = (e);                   \
-- 
2.43.0


From 17b3a69a5a188f4906b172cab62716cf4baf605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 37/78] fix: VECT_SAMPLE uses the storage the reservation
 returned

---
 inc/fast/vect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index bb7d9ab..0595b4d 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -283,10 +283,10 @@ extern "C" {
                                         typeof(s) b_ = (s);                     \
                                         if (k_ <  b_->size) {                   \
                                             typeof(d) a_ = (d);                 \
-                                            typeof(a_->arr) x_ = a_->arr;       \
                                             typeof(a_->arr) y_ = b_->arr;       \
                                             size_t i_;                          \
                                             __vect_RESERVE(a_, k_);             \
+                                            typeof(a_->arr) x_ = a_->arr;       \
                                             a_->size = k_;                      \
                                             for (i_=0; i_ < k_; i_++)           \
                                                 x_[i_] = y_[i_];                \
-- 
2.43.0


From 849a8596446992831ddc5d5bf8fb863cb73ac782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:24 +0000
Subject: [PATCH 38/78] fix: llist: use list_init, the initialiser that exists

---
 inc/fast/llist.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inc/fast/llist.h b/inc/fast/llist.h
index 2027868..ae2c5aa 100644
--- a/inc/fast/llist.h
+++ b/inc/fast/llist.h
@@ -164,7 +164,7 @@ static inline void list_replace_init(struct list_head *old,
                      struct list_head *newl)
 {
     list_replace(old, newl);
-    INIT_LIST_HEAD(old);
+    list_init(old);
 }
 
 /**
@@ -174,7 +174,7 @@ static inline void list_replace_init(struct list_head *old,
 static inline void list_del_init(struct list_head *entry)
 {
     __list_del_entry(entry);
-    INIT_LIST_HEAD(entry);
+    list_init(entry);
 }
 
 /**
@@ -297,7 +297,7 @@ static inline void list_cut_position(struct list_head *list,
         (head->next != entry && head != entry))
         return;
     if (entry == head)
-        INIT_LIST_HEAD(list);
+        list_init(list);
     else
         __list_cut_position(list, head, entry);
 }
@@ -352,7 +352,7 @@ static inline void list_splice_init(struct list_head *list,
 {
     if (!list_empty(list)) {
         __list_splice(list, head, head->next);
-        INIT_LIST_HEAD(list);
+        list_init(list);
     }
 }
 
@@ -369,7 +369,7 @@ static inline void list_splice_tail_init(struct list_head *list,
 {
     if (!list_empty(list)) {
         __list_splice(list, head->prev, head);
-        INIT_LIST_HEAD(list);
+        list_init(list);
     }
 }
 
-- 
2.43.0


From b57692ddb50edba25474f5cd3037cdbf4755fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:46 +0000
Subject: [PATCH 39/78] fix: queue: FQ_DYN_INIT names the element type helper
 that exists

---
 inc/fast/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/queue.h b/inc/fast/queue.h
index 0c33251..68a6a05 100644
--- a/inc/fast/queue.h
+++ b/inc/fast/queue.h
@@ -122,7 +122,7 @@ typedef struct __fast_queue __fast_queue;
                                 __fast_queue * _q = &(q_)->q;  \
                                 _q->rd = _q->wr = 0;    \
                                 _q->sz = sz_;               \
-                                (q_)->elem = NEWZA(__qetype(q_), sz_);\
+                                (q_)->elem = NEWZA(__qetyp(q_), sz_);\
                             } while (0)
 
 
-- 
2.43.0


From 1abf6a1a0c8aa7bf0f21f9ceabaa492dfe4d8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 40/78] fix: utils: an hour has 60 minutes

---
 inc/utils/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/utils.h b/inc/utils/utils.h
index c0bf241..43a90ed 100644
--- a/inc/utils/utils.h
+++ b/inc/utils/utils.h
@@ -116,7 +116,7 @@ typedef uint64_t duration_t;
 #define __Duration       ((duration_t)1000000000)
 #define __dur(a)         ((duration_t)(a))
 
-#define _Hour(n)         (_Minute(n) * 24)
+#define _Hour(n)         (_Minute(n) * 60)
 #define _Minute(n)       (_Second(n) * 60)
 #define _Second(n)       (__dur(n) * __Duration)
 #define _Millisecond(n)  (_Second(n) / 1000)
-- 
2.43.0


From 341cb6236a27f923a1027d294d7160e814a53680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 41/78] fix: fast_buf: use the reallocation helper that exists

---
 inc/fast/buf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/buf.h b/inc/fast/buf.h
index d55a019..02b40fc 100644
--- a/inc/fast/buf.h
+++ b/inc/fast/buf.h
@@ -76,7 +76,7 @@ fast_buf_reserve(fast_buf *b, size_t want)
     if (want >= b->cap) {
         do { b->cap *= 2; } while (b->cap < want);
 
-        b->buf = RENEW(uint8_t, b->buf, b->cap);
+        b->buf = RENEWA(uint8_t, b->buf, b->cap);
     }
 }
 
-- 
2.43.0


From f4f1a8e589ede1caeb2ab000b2e1716270cb4cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 42/78] fix: fast_buf: growing a buffer without capacity
 terminates

---
 inc/fast/buf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/fast/buf.h b/inc/fast/buf.h
index 02b40fc..71bc237 100644
--- a/inc/fast/buf.h
+++ b/inc/fast/buf.h
@@ -74,6 +74,7 @@ static inline void
 fast_buf_reserve(fast_buf *b, size_t want)
 {
     if (want >= b->cap) {
+        if (b->cap == 0) b->cap = 1;
         do { b->cap *= 2; } while (b->cap < want);
 
         b->buf = RENEWA(uint8_t, b->buf, b->cap);
-- 
2.43.0


From 8326ab37304a3a7bf499d2293e3d61cbc54ea24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 43/78] fix: parse_ipv4: reject empty and overlong octets

---
 src/parse-ip.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index ab304b3..90567f6 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -99,6 +99,8 @@ parse_ipv4(uint32_t* p_z, const char* sx)
             continue;
         }
 
+        if (m == 0) return 0;
+
         x[m] = 0;
         z    = 0;
         r    = dtoi(&z, x);
@@ -110,6 +112,8 @@ parse_ipv4(uint32_t* p_z, const char* sx)
         m      = 0;
     }
 
+    if (m == 0 || m > 3) return 0;
+
     if (m > 0) {
         x[m] = 0;
         z    = 0;
-- 
2.43.0


From bd9eaa3e216d20b232bb797526e8ca0ae760fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 44/78] fix: parse_ipv4_and_mask: a prefix length of 0 is the
 empty mask

---
 src/parse-ip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index 90567f6..3c5aa2c 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -173,7 +173,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
             if (z > 32)               return 0;
         }
 
-        *p_m = 0xffffffff << (32 - (uint32_t)z);
+        *p_m = z ? 0xffffffff << (32 - (uint32_t)z) : 0;
     }
 
     return 1;
-- 
2.43.0


From 6dc6999ea0abcef2c884958e5530dd95bbdf472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 45/78] fix: parse_ipv4_and_mask: reject masks that overflow or
 are too long

---
 src/parse-ip.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index 3c5aa2c..8d3a247 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -57,6 +57,7 @@ dtoi(size_t* pn, const char* s)
         if (!isdigit(c)) return 0;
 
         n = n * 10 + (c - '0');
+        if (n > 0xffff) return 0;
     }
 
     *pn = n;
@@ -156,7 +157,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
         memcpy(as, str, n);
         as[n] = 0;
 
-        safe_strcpy(ms, sizeof ms, sl+1);
+        if (safe_strcpy(ms, sizeof ms, sl+1) < 0)    return 0;
     }
 
     // Now, as has the address part, ms has the mask part.
-- 
2.43.0


From 2325f34e77a4d81c45058464a99383e462ad338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 46/78] fix: Pack/Unpack: read repeat counts of more than one
 digit

---
 src/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index c7ced90..1b16f6f 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -165,7 +165,7 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
 #define __len_prefix(c, fmt) ({\
                                 const size_t max = ~((size_t)0) / 10;       \
                                       size_t nn  = c - '0';                 \
-                                for (++fmt, c = *fmt; c; ++fmt) {           \
+                                for (++fmt; (c = *fmt); ++fmt) {            \
                                     if (!isdigit(c)) break;                 \
                                     const size_t v = c - '0';               \
                                     if (nn > max ||                         \
-- 
2.43.0


From 46eb06f94c1b7e5bfa2deb234cab0384f2256308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 47/78] fix: Pack/Unpack: never look up a type outside the
 table

---
 src/pack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index 1b16f6f..f9b29ea 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -859,6 +859,9 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
 static const packer*
 getpacker(int c, const packer* pp)
 {
+    // 'z' is the last entry; and 0 ends the table.
+    if (c <= 0 || c > 'z') return 0;
+
     const packer *p = &pp[c];
 
     return p->typ == c ? p : 0;
-- 
2.43.0


From d39661794a354c4f6b77d7508fde0b5b6dbbacc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 48/78] fix: Pack/Unpack: huge repeat counts no longer wrap the
 room check

---
 src/pack.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index f9b29ea..fdaee5c 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -222,7 +222,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
              * actual entity.
              */
 
-            if ((pd->ptr + p->size) > pd->end)
+            if (p->size > (pd->end - pd->ptr))
                return -ENOSPC;
 
             c = p->pack(p, pd, 1, (void *)(ptrdiff_t)vnum);
@@ -290,7 +290,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (p->size > 0 && num > (size_t)(pd->end - pd->ptr) / p->size)
            return -ENOSPC;
 
         c = p->pack(p, pd, num, arg);
@@ -341,7 +341,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
             uint32_t *pv = va_arg(ap, uint32_t*);
 
             if (!pv) return -EINVAL;
-            if ((pd->ptr + p->size) > pd->end) return -ENOSPC;
+            if (p->size > (pd->end - pd->ptr)) return -ENOSPC;
 
 
             c = p->unpack(p, pd, 1, pv, 0);
@@ -389,7 +389,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (p->size > 0 && num > (size_t)(pd->end - pd->ptr) / p->size)
            return -ENOSPC;
 
         c = p->unpack(p, pd, num, arg, have_vnum == 1);
@@ -731,7 +731,7 @@ x_pack(const packer *p, pdata *pd, size_t num, void *arg)
     USEARG(p);
     USEARG(arg);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (num > (size_t)(pd->end - pd->ptr)) return -EINVAL;
 
     memset(pd->ptr, 0, num);
     pd->ptr += num;
@@ -745,7 +745,7 @@ x_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     USEARG(arg);
     USEARG(alloc);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (num > (size_t)(pd->end - pd->ptr)) return -EINVAL;
 
     pd->ptr += num;
     return num;
@@ -769,7 +769,7 @@ z_pack(const packer *p, pdata *pd, size_t n, void *arg)
     // we are _never_ sent zero sized requests
     assert(n > 0);
 
-    if ((pd->ptr + n) > pd->end) return -ENOSPC;
+    if (n > (size_t)(pd->end - pd->ptr)) return -ENOSPC;
 
     if (s) {
         size_t m = strlen(s);
-- 
2.43.0


From 49336cd44aeb105add2bf79484151f8e63ebc07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 49/78] fix: Unpack: do not look for a string past the end of
 the buffer

---
 src/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index fdaee5c..25cfc36 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -819,9 +819,9 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     if (num == 0) {
         // We encode the trailing '\0' for 'Z'
         // And it's an error to _not_ have a trailing '\0'
-        while (*s++) {
+        do {
             if (s == pd->end) return -EINVAL;
-        }
+        } while (*s++);
     } else {
         // Exact length for either "*" or "nnZ" formats
         const size_t max = pd->end - s;
-- 
2.43.0


From 4abad74befb70e41dbfa4aba05fb2be84b4128c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 50/78] fix: Pack: a null string is packed as an empty one

---
 src/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index 25cfc36..701f8a1 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -271,7 +271,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
                     if (0 == num) goto next;
                 } else {
                     // default is to copy everything include trailing '\0'
-                    if (num == 0 && arg) num = 1+strlen((const char*)arg);
+                    if (num == 0) num = 1 + (arg ? strlen((const char*)arg) : 0);
                 }
                 break;
 
-- 
2.43.0


From f109c065f09376de1747406b1a89adc7d4dc16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 51/78] fix: Pack: a trailing * is an error, as it is for
 Unpack

---
 src/pack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index 701f8a1..bf8392c 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -301,6 +301,9 @@ next:
         vnum = 0;
     }
 
+    // missing type descriptor after '*'
+    if (have_vnum) return -EINVAL;
+
     return 0;
 }
 
-- 
2.43.0


From b87e3c466c695d7d238b7879694a2b44d12e4bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 52/78] fix: Unpack: check the allocation of big-endian 32-bit
 arrays

---
 src/pack.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pack.c b/src/pack.c
index bf8392c..caec36d 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -624,6 +624,7 @@ be_i_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
         uint32_t **p_x = arg;
 
         x = NEWZA(uint32_t, num);
+        if (!x) return -ENOMEM;
         *p_x = x;
     }
 
-- 
2.43.0


From dc1c70bb4e20c0576b63d5fec3db1fc411fd5f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 53/78] fix: Pack: a counted array of one element packs the
 element, not its address

---
 src/pack.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index caec36d..a461064 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -179,6 +179,26 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
                             })
 
 
+// load one element of 'size' bytes the way the packers take a scalar
+static void *
+load1(const void *arg, size_t size)
+{
+    uint8_t  b;
+    uint16_t s;
+    uint32_t i;
+    uint64_t l;
+
+    switch (size) {
+        case 1: memcpy(&b, arg, sizeof b); return (void *)(uintptr_t)b;
+        case 2: memcpy(&s, arg, sizeof s); return (void *)(uintptr_t)s;
+        case 4: memcpy(&i, arg, sizeof i); return (void *)(uintptr_t)i;
+        default:
+            memcpy(&l, arg, sizeof l);
+            return (void *)(uintptr_t)l;
+    }
+}
+
+
 // internal pack function that operates on va_list
 static int
 pack(const char *fmt, pdata *pd, va_list ap)
@@ -280,6 +300,8 @@ pack(const char *fmt, pdata *pd, va_list ap)
                 if (have_vnum) {
                     num = vnum;
                     if (0 == num) goto next;
+                    // packers take a single element by value
+                    if (1 == num) arg = load1(arg, p->size);
                 } else {
                     // All other types need _atleast_ one arg.
                     // zero-length strings with no VLA will get an
-- 
2.43.0


From 28aad799614825c075583411bd5ecf9056c1930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 54/78] fix: Pack: take floating point scalars as such

---
 src/pack.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index a461064..fdd7848 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -283,6 +283,24 @@ pack(const char *fmt, pdata *pd, va_list ap)
             case 'x':
                 break;  // do NOT consume an arg!
 
+            case 'f':   // fallthrough
+            case 'd':   // fallthrough
+            case 'D':
+                // floating point scalars are not passed like integers
+                if (!have_vnum && num <= 1) {
+                    double dv = va_arg(ap, double);
+                    float  fv = (float)dv;
+
+                    num = 1;
+                    arg = c == 'f' ? load1(&fv, sizeof fv) : load1(&dv, sizeof dv);
+                    break;
+                }
+                arg = va_arg(ap, void *);
+                num = have_vnum ? vnum : num;
+                if (0 == num) goto next;
+                if (1 == num) arg = load1(arg, p->size);
+                break;
+
             case 'z':   // fallthrough
             case 'Z':
                 arg = va_arg(ap, void *);
-- 
2.43.0


From 11519a5fed9383189fb8056a0899c6c0a6642ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 55/78] fix: Pack/Unpack: support the documented type d

---
 src/pack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index fdd7848..976a855 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -31,7 +31,7 @@
  *       i, I:    signed, unsigned 32-bit integer
  *       l, L:    signed, unsigned 64-bit integer
  *       f:       32-bit IEEE float
- *       D:       64-bit IEEE float
+ *       d, D:    64-bit IEEE float
  *       x:       padding (adds/consumes 0x0 bytes) without
  *                consuming input args.
  *       z, Z:    null-terminated string
@@ -949,6 +949,7 @@ static const packer le_packers[] = {
     _x('L', 8, le_l_pack, le_l_unpack),
 
     _x('f', 4, le_i_pack, le_i_unpack),
+    _x('d', 8, le_l_pack, le_l_unpack),
     _x('D', 8, le_l_pack, le_l_unpack),
 
     _x(0, 0, 0, 0)  // always in the end
@@ -973,6 +974,7 @@ static const packer be_packers[] = {
     _x('L', 8, be_l_pack, be_l_unpack),
 
     _x('f', 4, be_i_pack, be_i_unpack),
+    _x('d', 8, be_l_pack, be_l_unpack),
     _x('D', 8, be_l_pack, be_l_unpack),
 
     _x(0, 0, 0, 0)  // always in the end
-- 
2.43.0


From 62a133cd8d1cb6139ecc79da08e8f25eea05abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 56/78] fix: Pack/Unpack: an x without a count is one pad byte

---
 src/pack.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index 976a855..b9c242a 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -280,8 +280,9 @@ pack(const char *fmt, pdata *pd, va_list ap)
         void *arg = 0;
 
         switch (c) {
-            case 'x':
-                break;  // do NOT consume an arg!
+            case 'x':   // do NOT consume an arg!
+                num = have_vnum ? vnum : num > 0 ? num : 1;
+                break;
 
             case 'f':   // fallthrough
             case 'd':   // fallthrough
@@ -412,6 +413,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
         // '\0'
         switch (c) {
             case 'x':   // we don't consume an arg!
+                num = have_vnum ? vnum : num > 0 ? num : 1;
                 break;
 
             default:
-- 
2.43.0


From 4a82097f9c5be6513ef20238b25c915c02204754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:02 +0000
Subject: [PATCH 57/78] fix: xorshift64*: the third shift is to the right (12,
 25, 27 as published)

---
 src/prng/xorshift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prng/xorshift.c b/src/prng/xorshift.c
index 952891a..96fc13e 100644
--- a/src/prng/xorshift.c
+++ b/src/prng/xorshift.c
@@ -37,7 +37,7 @@ xs64star_u64(xs64star* s)
 {
     s->v ^= s->v >> 12;
     s->v ^= s->v << 25;
-    s->v ^= s->v << 27;
+    s->v ^= s->v >> 27;
     return s->v * 2685821657736338717uLL;
 }
 
-- 
2.43.0


From f0af2401de3209216814964782c6171f51e363e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:02 +0000
Subject: [PATCH 58/78] fix: splitmix64: multiply the mixed word, not its
 shifted half

---
 inc/utils/splitmix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/utils/splitmix.h b/inc/utils/splitmix.h
index abca409..dad3497 100644
--- a/inc/utils/splitmix.h
+++ b/inc/utils/splitmix.h
@@ -36,8 +36,8 @@ splitmix64(uint64_t *x)
     *x += 0x9E3779B97F4A7C15;
 
     uint64_t z = *x;
-    z = (z ^ (z >> 30) * 0xBF58476D1CE4E5B9);
-    z = (z ^ (z >> 27) * 0x94D049BB133111EB);
+    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9;
+    z = (z ^ (z >> 27)) * 0x94D049BB133111EB;
 
     return z ^ (z >> 31);
 }
-- 
2.43.0


From 391cd31a6d0dcc649d34875df3585648e2a4f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:22 +0000
Subject: [PATCH 59/78] fix: murmur3: start the tail from zero, not from the
 last block

---
 src/hashfunc/murmur3_hash.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index 3d6e225..14d4ae7 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -158,6 +158,7 @@ murmur3_hash_32(const void* key, size_t len, uint32_t seed)
 
   /* tail */
 
+  k1 = 0;
 
   switch(len & 3)
   {
@@ -231,6 +232,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = k3 = k4 = 0;
 
     switch(len & 15)
     {
@@ -323,6 +325,7 @@ murmur3_hash64_128(const void* key, size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = 0;
     switch(len & 15)
     {
         case 15: k2 ^= ((uint64_t)(tail[14])) << 48; // fallthrough
-- 
2.43.0


From b7ea5491f666d99a0323c9dec789d9a883fa1589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:22 +0000
Subject: [PATCH 60/78] fix: murmur3_hash_128: return all four words

---
 src/hashfunc/murmur3_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index 14d4ae7..156bfbe 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -279,7 +279,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
         uint_128_t r;
 
         r.v[0] = h1; r.v[0] <<= 32; r.v[0] |= h2;
-        r.v[1] = h1; r.v[1] <<= 32; r.v[1] |= h2;
+        r.v[1] = h3; r.v[1] <<= 32; r.v[1] |= h4;
         return r;
     }
 }
-- 
2.43.0


From 0df01b78f374b41cd405f740e4094cb933a257ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:19 +0000
Subject: [PATCH 61/78] fix: fhexdump: report a write error as -errno

---
 src/hexdump.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hexdump.c b/src/hexdump.c
index c39354f..1c92b9e 100644
--- a/src/hexdump.c
+++ b/src/hexdump.c
@@ -62,9 +62,11 @@ static int
 __fp_writer(void *ctx, const char *buf, size_t n)
 {
     FILE *fp = ctx;
+    errno = 0;
+
     size_t m = fwrite(buf, n, 1, fp);
     if (m != 1) {
-        return feof(fp) ? -EOF : ferror(fp);
+        return errno ? -errno : -EIO;
     }
     return 0;
 }
-- 
2.43.0


From 51644d95f4fb67b6b5726b28c733143712b0c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:38 +0000
Subject: [PATCH 62/78] fix: arc4random: a request longer than the reseed
 interval must not wrap its count

---
 src/arc4random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc4random.c b/src/arc4random.c
index 7a17ae2..c4e2cd5 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -143,7 +143,7 @@ _rs_stir_if_needed(rand_state* st, size_t len)
     if (st->rs_count <= len)
         _rs_stir(st);
 
-    st->rs_count -= len;
+    st->rs_count = st->rs_count <= len ? 0 : st->rs_count - len;
 }
 
 // consume 'n' random btyes from the entropy buffer. Return total
-- 
2.43.0


From 48225a8e60cc277dc9072f921886fb9e4d35cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:05 +0000
Subject: [PATCH 63/78] fix: rotate_filename: a generation name that is cut
 short is another file

---
 src/rotatefile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index d4e0af1..eaa1c73 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -43,7 +43,8 @@ rotate_filename(const char *filename, int nsaved, unsigned int flags)
 
     while (--nsaved > 0) {
         snprintf(f1, sizeof f1, "%s.%d", filename, nsaved-1);
-        snprintf(f2, sizeof f2, "%s.%d", filename, nsaved);
+        r = snprintf(f2, sizeof f2, "%s.%d", filename, nsaved);
+        if (r < 0 || r >= (int)sizeof f2) return -ENAMETOOLONG;
 
         //printf("%s -> %s\n", f1, f2);
         r = __exists(f1);
@@ -58,7 +59,8 @@ rotate_filename(const char *filename, int nsaved, unsigned int flags)
     if (r < 0) return r;
 
     if (r > 0) {
-        snprintf(f1, sizeof f1, "%s.0", filename);
+        r = snprintf(f1, sizeof f1, "%s.0", filename);
+        if (r < 0 || r >= (int)sizeof f1) return -ENAMETOOLONG;
         if (rename(filename, f1) < 0) return -errno;
     }
 
@@ -117,7 +119,8 @@ delete_old(const char *fn, int start, int end)
     char x[PATH_MAX];
 
     for (; start < end; ++start) {
-        snprintf(x, sizeof x, "%s.%d", fn, start);
+        int n = snprintf(x, sizeof x, "%s.%d", fn, start);
+        if (n < 0 || n >= (int)sizeof x) break;
         unlink(x);
     }
 }
-- 
2.43.0


From 7e47f0d3edc2e5207d8db8f7f566d7fcc628e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:01 +0000
Subject: [PATCH 64/78] fix: mkdirhier: a path that ends in a slash is no error

---
 src/mkdirhier.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mkdirhier.c b/src/mkdirhier.c
index 6085679..9414096 100644
--- a/src/mkdirhier.c
+++ b/src/mkdirhier.c
@@ -76,6 +76,10 @@ mkdirhier(const char* path, mode_t mode)
         prev = next+1;
     }
 
+    // A trailing '/': the last part is already made
+    if (prev > path && !*prev)
+        return 0;
+
     // Make the last and final part
     if (mkdir(path, mode) < 0)
         return -errno;
-- 
2.43.0


From 6be9f157549161e9325ac9466f30a78a47639a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:46 +0000
Subject: [PATCH 65/78] fix: progressbar: the bar and percentage stay in range
 whatever the count

---
 src/progbar.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/progbar.c b/src/progbar.c
index 9545c45..424c4d1 100644
--- a/src/progbar.c
+++ b/src/progbar.c
@@ -45,11 +45,10 @@ update_total_progress(char *buf, size_t bsize, progress *p)
     char tot[32];
     char pref[64];
 
-    uint64_t pct = (100 * p->cur) / p->total;
-
-    if (pct > 100) pct = 100;
-
-    uint64_t done = pct / p->step;
+    // drop low bits of a total so large that 100 times it won't fit
+    unsigned sh   = p->total > UINT64_MAX / 100 ? 7 : 0;
+    uint64_t pct  = p->cur < p->total ? (100 * (p->cur >> sh)) / (p->total >> sh) : 100;
+    uint64_t done = (pct * p->width) / 100;
     uint64_t rem  = p->width - done;
 
     assert(done < (sizeof fill)-1);
@@ -127,7 +126,7 @@ progressbar_update(progress *p, uint64_t incr)
 
     if (p->fd < 0) return;
 
-    p->cur += incr;
+    p->cur = incr > UINT64_MAX - p->cur ? UINT64_MAX : p->cur + incr;
 
     if (p->total > 0) {
         update_total_progress(buf, sizeof buf, p);
-- 
2.43.0


From bd9176feef439622a9b62da621c8f3873ebce455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:46 +0000
Subject: [PATCH 66/78] fix: progressbar_init: a terminal less than four
 columns wide aborted

---
 src/progbar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/progbar.c b/src/progbar.c
index 424c4d1..11d690a 100644
--- a/src/progbar.c
+++ b/src/progbar.c
@@ -112,6 +112,7 @@ progressbar_init(progress *p, int fd, uint64_t total, uint32_t flags)
     p->cur   = 0;
     p->flags = flags;
     p->width = w.ws_col > 50 ? 50 : w.ws_col / 2;
+    if (p->width < 2) p->width = 2;
     p->step  = 100 / p->width;
 
     return 0;
-- 
2.43.0


From 48c85720b80bc178fecd3b755a7d6bd96eac0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:04 +0000
Subject: [PATCH 67/78] fix: getopt_long: a full option name is not ambiguous
 with the ones it abbreviates

---
 src/getopt_long.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 36386d2..f430f2e 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -355,10 +355,11 @@ getopt_long(int nargc, char * const *nargv, const char *options,
     if ((retval = getopt_internal(nargc, nargv, options)) == -2) {
         char *current_argv, *has_equal;
         size_t current_argv_len;
-        int i, match;
+        int i, match, nmatch;
 
         current_argv = place;
         match = -1;
+        nmatch = 0;
 
         optind++;
         place = EMSG;
@@ -393,18 +394,20 @@ getopt_long(int nargc, char * const *nargv, const char *options,
                 (unsigned)current_argv_len) {
                 /* exact match */
                 match = i;
+                nmatch = 1;
                 break;
             }
-            if (match == -1)        /* partial match */
-                match = i;
-            else {
-                /* ambiguous abbreviation */
-                if (PRINT_ERROR)
-                    warnx(ambig, (int)current_argv_len,
-                         current_argv);
-                optopt = 0;
-                return BADCH;
-            }
+            /* partial match */
+            match = i;
+            nmatch++;
+        }
+        if (nmatch > 1) {
+            /* ambiguous abbreviation */
+            if (PRINT_ERROR)
+                warnx(ambig, (int)current_argv_len,
+                     current_argv);
+            optopt = 0;
+            return BADCH;
         }
         if (match != -1) {          /* option found */
                 if (long_options[match].has_arg == no_argument
-- 
2.43.0


From fa7688e9efcff1c9f058cc30d27175e17b7b6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:37 +0000
Subject: [PATCH 68/78] fix: mpmc queue: MPMC_QUEUE_RESET and MPMC_QUEUE_CAP
 did not compile

---
 inc/fast/mpmc_bounded_queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index 2a4ce03..54db710 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -225,12 +225,12 @@ __alloc(size_t n)
 // multi-threaded context.
 #define MPMC_QUEUE_RESET(q_)    do {                                \
         typeof(q_) _qc = (q_);                                      \
-        __mpmc_slot_ty(qc) *_p   = &qc->slot[0],                    \
-                           *_end = p + qc->q.sz;                    \
+        __mpmc_slot_ty(_qc) *_p   = &_qc->slot[0],                  \
+                            *_end = _p + _qc->q.sz;                 \
                                                                     \
         for (; _p < _end; _p++) {                                   \
             atomic_store(&_p->turn, 0);                             \
-            memset(_p->data, 0, sizeof _p->data);                   \
+            memset(&_p->data, 0, sizeof _p->data);                  \
         }                                                           \
         __mpmc_q_reset(&_qc->q);                                    \
 } while (0)
@@ -345,7 +345,7 @@ __alloc(size_t n)
 #define MPMC_QUEUE_SIZE(q_)     ((size_t)__mpmc_q_len(&(q_)->q))
 
 // Return the capacity of the mpmc queue
-#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->sz))
+#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->q.sz))
 
 // Return true if the queue is full, false otherwise. Note that this
 // is best effort when we have concurrent readers/writers.
-- 
2.43.0


From 07de58e2ab6c66ddc894673cf5ba961ad45a6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 69/78] fix: hashtab: insert, replace and probe left the bucket
 locked when the key existed or memory ran out

---
 src/hashtable/hashtab.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 6ec93b6..3fa913b 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -412,6 +412,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
                 break;
         }
 
+        lockmgr_unlock(&b->lock);
         goto _done;
     }
 
@@ -422,7 +423,10 @@ insert_internal(hash_table * tab, void ** p_data, int op)
      */
 
     e = tNEW(hash_node, tab);
-    if (!e) goto _done;
+    if (!e) {
+        lockmgr_unlock(&b->lock);
+        goto _done;
+    }
 
     retval  = 0;
     e->data = data;
-- 
2.43.0


From 14cb2321af456232d9cf1d5d3b44c66a0942e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 70/78] fix: hashtab: insert updated the bucket's count after
 releasing its lock

---
 src/hashtable/hashtab.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 3fa913b..1711f7e 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -376,6 +376,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
 {
     void * data = *p_data;
     int retval  = -ENOMEM;
+    size_t count;
     hash_node* e;
     int (*cmp)(const void*, const void*) = tab->cmp;
 
@@ -432,6 +433,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     e->data = data;
     e->hash = hash;
     SL_INSERT_HEAD(&b->head, e, link);
+    count   = ++b->count;
     lockmgr_unlock(&b->lock);
 
 
@@ -442,9 +444,8 @@ insert_internal(hash_table * tab, void ** p_data, int op)
 
     ++tab->stats.inserts;
     ++tab->stats.nodes;
-    ++b->count;
-    if (b->count > tab->stats.maxchainlen)
-        tab->stats.maxchainlen = b->count;
+    if (count > tab->stats.maxchainlen)
+        tab->stats.maxchainlen = count;
 
 
     /*
@@ -452,7 +453,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
      * filled buckets and determine if we need to grow the hash
      * table.
      */
-    if (b->count == 1) {
+    if (count == 1) {
         ++tab->stats.fill;
         if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
             retval = resize(tab);
-- 
2.43.0


From 766d18ed6970e638b73a1c9234abe0b9098a1997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 71/78] fix: hashtab: an insert that succeeded was reported as
 failed when the table could not grow

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 1711f7e..930deef 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -456,7 +456,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     if (count == 1) {
         ++tab->stats.fill;
         if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
-            retval = resize(tab);
+            resize(tab);    // not fatal: the table just stays dense
     }
 
     lockmgr_unlock(&tab->lock);
-- 
2.43.0


From 134350993db257c91ec9602df1cf54dd2e2cdbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 72/78] fix: hash_table_remove_if: pass the item to the
 predicate, not its address in the node

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 930deef..7ce55c4 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -303,7 +303,7 @@ hash_table_remove_if(hash_table * tab,
         lockmgr_lock(&b->lock);
         p_next = &SL_FIRST(&b->head);
         while ((p = *p_next)) {
-            if ((*pred)(cookie, &p->data)) {
+            if ((*pred)(cookie, p->data)) {
                 ++retval;
                 *p_next = SL_NEXT(p, link);
                 remove_node(tab, b, p);
-- 
2.43.0


From 730f77acd0b0fdd66dd72f0cad51f389918823de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 73/78] fix: hash_table_new: a large logsize overflowed the
 table size

---
 src/hashtable/hashtab.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 7ce55c4..18b4391 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -62,10 +62,10 @@ hash_table_new(hash_table_t * ptab, const hash_table_policy * tr)
 
     memset(tab, 0, sizeof(*tab));
 
-    i = tr->logsize <= 0 || (tr->logsize >= (8*sizeof(size_t))) ? 10 : tr->logsize;
+    i = tr->logsize <= 0 || (tr->logsize >= 32) ? 10 : tr->logsize;
 
     tab->fillmax = tr->fillmax <= 0 || tr->fillmax >= 100 ? 80 : tr->fillmax;
-    tab->size    = 1 << i;
+    tab->size    = ((size_t)1) << i;
     tab->random  = arc4random();
     tab->hash    = tr->hash;
     tab->cmp     = tr->cmp;
-- 
2.43.0


From 0d72ab542f2fbe367fd1fd02d661967af5ad3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 74/78] fix: hash table bucket iterator looked in the wrong
 bucket

---
 src/hashtable/hashtab_iter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 71900be..a8bc569 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -443,7 +443,7 @@ static int
 bucket_iter_init(hash_table_iter * it, const void * key)
 {
     hash_table * tab = it->table;
-    uint32_t  hash  = (*tab->hash)(key);
+    uint32_t  hash  = tab->random ^ (*tab->hash)(key);
     hash_bucket * b  = &tab->buckets[hash & (tab->size -1)];
 
     it->un.bucket.bucket = b;
-- 
2.43.0


From eb3f2959ec1c31df2810950a3152985645b88da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 75/78] fix: hash table bucket iterator: stepping past the end
 crashed

---
 src/hashtable/hashtab_iter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index a8bc569..4438307 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -479,7 +479,7 @@ bucket_iter_end(hash_table_iter * it)
 static int
 bucket_iter_next(hash_table_iter * it)
 {
-    it->cur = SL_NEXT(it->cur, link);
+    if (it->cur) it->cur = SL_NEXT(it->cur, link);
     return it->cur ? 0 : EOF;
 }
 
-- 
2.43.0


From 491992d45b15f1105616fd3608f702185417a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 76/78] fix: sorted hash table iterator compared addresses
 instead of items

---
 src/hashtable/hashtab_iter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 4438307..993ed26 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -315,7 +315,7 @@ qsort_cmp(const void * a, const void * b)
     indir_node * p = (indir_node *)a,
                * q = (indir_node *)b;
 
-    return (*p->cmp)(&p->node->data, &q->node->data);
+    return (*p->cmp)(p->node->data, q->node->data);
 }
 
 
-- 
2.43.0


From 23625c06a1d4dbf603fdf1e7cf7b25576b3aefdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:22 +0000
Subject: [PATCH 77/78] fix: sorted hash table iterator took the table lock
 twice

---
 src/hashtable/hashtab_iter.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 993ed26..5af7d3c 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -334,7 +334,7 @@ sorted_iter_init(hash_table_iter * it, const void * param)
 
     USEARG(param);
 
-    lockmgr_lock(&tab->lock);
+    // the caller holds tab->lock
     sorted->max = tab->stats.nodes;
     if (sorted->max == 0) goto _done;
 
@@ -366,7 +366,6 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     ok = 0;
 
 _done:
-    lockmgr_unlock(&tab->lock);
     return ok;
 }
 
-- 
2.43.0


From 3d1601c73aeb075827add39821fc52f41327c792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:00 +0000
Subject: [PATCH 78/78] fix: sorted hash table iterator crashed when memory ran
 out

---
 src/hashtable/hashtab_iter.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 5af7d3c..e955825 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -234,8 +234,11 @@ _mk_iter(hash_table_iter_t* p_ret,
     it->table = tab;
     it->op    = Iter_tab[type];
 
-    if (it->op->init)
-        (*it->op->init)(it, param);
+    if (it->op->init && (*it->op->init)(it, param) == -ENOMEM) {
+        tFREE(tab, it);
+        it     = 0;
+        retval = -ENOMEM;
+    }
 
 _done:
     lockmgr_unlock(&tab->lock);
@@ -340,6 +343,10 @@ sorted_iter_init(hash_table_iter * it, const void * param)
 
     cmp         = tab->cmp;
     sorted->nodes = tNEWA(indir_node, tab, sorted->max);
+    if (!sorted->nodes) {
+        sorted->max = 0;
+        return -ENOMEM;
+    }
 
     nodes = sorted->nodes;
     n     = tab->size;
-- 
2.43.0

