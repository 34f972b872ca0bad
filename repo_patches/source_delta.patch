From e471f5886c7cab7bb0da9015a4091ca85f691514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 01/23] fix: base64: add the missing comma in the decoding
 table

The comma missing at the end of the eighth row made -1 -1 a single
entry, so that DEL (0x7f) was taken for whitespace, every later entry
moved down by one and the byte 0xff decoded as 'A'.
---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index c93d3e2..eb07454 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -24,7 +24,7 @@ const int8_t base64_bitfield_decoding[256] = {
     -1,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14,
     15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, -1, -1, -1, -1, -1,
     -1, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
-    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1
+    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-- 
2.43.0


From 0ecb355140e454930ecbde80140d9e8772f9cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 02/23] fix: avltree: putting the value already stored at the
 key has no effect

The header promises that avl_tree_put() has no effect and returns NULL
if value is already stored at key, but the element was replaced and the
old one returned, leaking it for callers relying on the promise.
---
 src/avltree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avltree.c b/src/avltree.c
index c2c4489..fc8af3d 100644
--- a/src/avltree.c
+++ b/src/avltree.c
@@ -316,8 +316,10 @@ static int put(avl_tree_t *tree, avl_elem_t **ploc, avl_elem_t *element,
         return put_left(tree, ploc, element, premoved_element);
     if (cmp > 0)
         return put_right(tree, ploc, element, premoved_element);
-    if (loc == element)
+    if (loc->value == element->value) {
+        destroy_avl_element(element);
         return 0;
+    }
     element->parent = loc->parent;
     element->left = loc->left;
     element->right = loc->right;
-- 
2.43.0


From 13397d419ffce1b5c5d03887fcad07ae75abb4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 03/23] fix: charstr: reject overlong UTF-8 encodings

Overlong encodings such as C0 80 (NUL) or C0 AE ('.') are illegal in
UTF-8 but were decoded, accepted as valid and left in place when
sanitizing.
---
 src/charstr.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 8033007..2968f35 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -465,15 +465,19 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
     else if (!(*s & 0x40))
         return NULL;
     else {
-        if (!(*s & 0x20))
+        int min_cp;
+        if (!(*s & 0x20)) {
             cp = *s++ & 0x1f;
-        else {
-            if (!(*s & 0x10))
+            min_cp = 0x80;
+        } else {
+            if (!(*s & 0x10)) {
                 cp = *s++ & 0x0f;
-            else {
+                min_cp = 0x800;
+            } else {
                 if (*s & 0x08)
                     return NULL;
                 cp = *s++ & 0x07;
+                min_cp = 0x10000;
                 if (s == end || (*s & 0xc0) != 0x80)
                     return NULL;
                 cp = cp << 6 | *s++ & 0x3f;
@@ -485,7 +489,7 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
         if (s == end || (*s & 0xc0) != 0x80)
             return NULL;
         cp = cp << 6 | *s++ & 0x3f;
-        if (!valid_unicode(cp))
+        if (cp < min_cp || !valid_unicode(cp))
             return NULL;
     }
     if (codepoint)
-- 
2.43.0


From 89d67cecc47ab2d7bfc0938e181ffcb412d7bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 04/23] fix: charstr: classify '\n', '\f' and '\r' correctly

The character class table had its LF, FF and CR entries at 8, 10 and 11
instead of 10, 12 and 13. As a result, charstr_strip() and
charstr_split_atoms() did not treat '\f' and '\r' as whitespace but did
so for '\b' and '\v'.
---
 src/charstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 2968f35..3578f36 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -119,12 +119,12 @@ static const uint64_t char_class[256] = {
     CHARSTR_CONTROL,                                             /* '\005' */
     CHARSTR_CONTROL,                                             /* '\006' */
     CHARSTR_CONTROL,                                             /* '\007' */
-    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\010' */
     CHARSTR_CONTROL | CHARSTR_HT,                                /* '\t' */
+    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\013' */
     CHARSTR_CONTROL | CHARSTR_FF,                                /* '\f' */
     CHARSTR_CONTROL | CHARSTR_CR,                                /* '\r' */
-    CHARSTR_CONTROL,                                             /* '\014' */
-    CHARSTR_CONTROL,                                             /* '\015' */
     CHARSTR_CONTROL,                                             /* '\016' */
     CHARSTR_CONTROL,                                             /* '\017' */
     CHARSTR_CONTROL,                                             /* '\020' */
-- 
2.43.0


From 3d4baa3268bf33f69f45e8b572709282f619a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 05/23] fix: charstr: report EOVERFLOW when a decomposed Hangul
 syllable does not fit

A Hangul syllable whose decomposition did not fit in the output buffer
was silently copied as is, so charstr_unicode_decompose() reported
success for output that was not in NFD.
---
 src/charstr_decompose.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/charstr_decompose.c b/src/charstr_decompose.c
index bbd8e5b..138cd87 100644
--- a/src/charstr_decompose.c
+++ b/src/charstr_decompose.c
@@ -3,22 +3,28 @@
 #include "charstr.h"
 #include "fsdyn_version.h"
 
+enum {
+    S_BASE = 0xAC00,
+    L_COUNT = 19,
+    V_COUNT = 21,
+    T_COUNT = 28,
+    N_COUNT = V_COUNT * T_COUNT,
+    S_COUNT = L_COUNT * N_COUNT
+};
+
+static bool is_hangul_syllable(int codepoint)
+{
+    return codepoint >= S_BASE && codepoint < S_BASE + S_COUNT;
+}
+
 static char *decompose_hangul(int codepoint, char *s, const char *end)
 {
     enum {
-        S_BASE = 0xAC00,
         L_BASE = 0x1100,
         V_BASE = 0x1161,
-        T_BASE = 0x11A7,
-        L_COUNT = 19,
-        V_COUNT = 21,
-        T_COUNT = 28,
-        N_COUNT = V_COUNT * T_COUNT,
-        S_COUNT = L_COUNT * N_COUNT
+        T_BASE = 0x11A7
     };
     int i = codepoint - S_BASE;
-    if (i < 0 || i >= S_COUNT)
-        return NULL;
     s = charstr_encode_utf8_codepoint(L_BASE + i / N_COUNT, s, end);
     s = charstr_encode_utf8_codepoint(V_BASE + i % N_COUNT / T_COUNT, s, end);
     if (i % T_COUNT)
@@ -31,9 +37,8 @@ static char *decompose_fully(int codepoint, char *s, const char *end)
     extern const int *_charstr_unicode_decomposition(int codepoint);
     const int *dp = _charstr_unicode_decomposition(codepoint);
     if (!dp) {
-        char *hangul_end = decompose_hangul(codepoint, s, end);
-        if (hangul_end)
-            return hangul_end;
+        if (is_hangul_syllable(codepoint))
+            return decompose_hangul(codepoint, s, end);
         return charstr_encode_utf8_codepoint(codepoint, s, end);
     }
     while (s && *dp)
-- 
2.43.0


From 09118043562e99cc616e10e42c77581ba3047930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 06/23] fix: charstr: check the length of ASCII labels in
 charstr_idna_encode()

An overlong ASCII label next to a non-ASCII label skipped the label
length check and crashed the process with a failed assertion.
---
 src/charstr_puny.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index d73fee0..2c6536c 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -167,12 +167,12 @@ static const char *punycode_encode(const char *input, const char *end,
     }
     for (size_t i = 0; i < ascii_count; i++)
         o = emit(o, end_output, output_size, ascii[i]);
-    if (!nonascii_count)
-        return next;
-    if (ascii_count)
-        o = emit(o, end_output, output_size, '-');
-    o = punycode_encode_pass2(input, end, o, end_output, output_size,
-                              ascii_count, nonascii, nonascii_count);
+    if (nonascii_count) {
+        if (ascii_count)
+            o = emit(o, end_output, output_size, '-');
+        o = punycode_encode_pass2(input, end, o, end_output, output_size,
+                                  ascii_count, nonascii, nonascii_count);
+    }
     if (*output_size > MAX_DNS_LABEL_LENGTH)
         return fail("label too long");
     return next;
-- 
2.43.0


From e1725d15314e31b0c787661147fe7a7bb638602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 07/23] fix: charstr: do not create zero-length arrays in
 charstr_idna_encode()

A hostname that maps to nothing (for example, a lone soft hyphen) led to
the undefined behavior of zero-length variable-length arrays before the
empty label was rejected.
---
 src/charstr_puny.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 2c6536c..a1d76bd 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -54,8 +54,6 @@ static const char *punycode_encode_pass1(const char *p, const char *end,
                                          int nonascii[],
                                          size_t *nonascii_count)
 {
-    if (p == end)
-        return fail("label is empty");
     if (p[0] == '-')
         return fail("label begins with hyphen");
     if (end[-1] == '-')
@@ -146,6 +144,8 @@ static char *punycode_encode_pass2(const char *input, const char *end,
 static const char *punycode_encode(const char *input, const char *end,
                                    char *output, size_t *output_size)
 {
+    if (input == end)
+        return fail("label is empty");
     char ascii[end - input]; /* nonunique characters in order of appearance */
     size_t ascii_count;
     int nonascii[end - input];  /* unique codepoints in ascending order */
-- 
2.43.0


From dd485284877cf85af1007daf035154c886176fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 08/23] fix: charstr: leave room for the NUL in
 charstr_idna_encode()

The buffer had room for the NUL terminator of the decomposition but the
limit given to charstr_unicode_decompose() did not include it, so a
hostname whose encoding trebles in the decomposition was rejected.
---
 src/charstr_puny.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index a1d76bd..4fbe6d2 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -278,7 +278,8 @@ char *charstr_idna_encode(const char *hostname)
     size_t worklen = 3 * length; /* should be enough for decomposing */
     char *workarea = fsalloc(worklen + 1);
     char *workend = workarea + worklen;
-    workend = charstr_unicode_decompose(hostname, end, workarea, workend);
+    workend =
+        charstr_unicode_decompose(hostname, end, workarea, workend + 1);
     if (!workend) {
         fsfree(workarea);
         return fail("failed to decompose");
-- 
2.43.0


From 4c59800bdbca2305f2d3993570a96537a56135fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:49 +0000
Subject: [PATCH 09/23] fix: charstr: include the last code points in the IDNA
 status tables

The last valid (U+3134A) and the last mapped (U+2FA1D) code point were
left out of their sets, and the last range of disallowed code points
(U+E01F0..U+10FFFF) was never emitted.
---
 src/gen_idna_table.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 8793f92..2327abe 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -33,6 +33,9 @@ static void generate_test(const char *status)
         } else if (prev_cp < 0)
             prev_cp = cp;
     }
+    if (prev_cp >= 0)
+        printf("    if (codepoint < %d) return codepoint >= %d;\n",
+               N_CP, prev_cp);
     printf("    return false;\n"
            "}\n");
 }
@@ -43,12 +46,12 @@ static void generate_set(const char *status)
     for (int cp = 0; cp < N_CP; cp++)
         if (!strcmp(table[cp].status, status))
             max_on = cp;
-    int set_size = (max_on + 63) / 64;
+    int set_size = max_on / 64 + 1;
     printf("\n"
            "static const uint64_t set_%s[%d] = {",
            status, set_size);
     uint64_t *set = fscalloc(set_size, sizeof set[0]);
-    for (int cp = 0; cp < max_on; cp++)
+    for (int cp = 0; cp <= max_on; cp++)
         if (!strcmp(table[cp].status, status))
             set[cp / 64] |= (uint64_t) 1 << cp % 64;
     for (int i = 0; i < set_size - 1; i++) {
-- 
2.43.0


From fbacf4ee4dcdad8c135356d95d9a3a5a7fbb50d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 10/23] fix: charstr: accept DNS names of 253 characters in
 charstr_idna_encode()

MAX_DNS_NAME_LENGTH is 254 because it includes the final '.', which
output_size counts as well. Subtracting one more for it made names of
the maximum length of 253 characters (254 with the final '.') fail.
---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 4fbe6d2..40f15f2 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -201,7 +201,7 @@ static char *encode_filtered(const char *hostname, const char *end)
             return NULL;
         assert(output_label_size <= MAX_DNS_LABEL_LENGTH);
         output_size += output_label_size + 1;
-        if (output_size > MAX_DNS_NAME_LENGTH - 1) /* -1 for the final '.' */
+        if (output_size > MAX_DNS_NAME_LENGTH) /* includes the final '.' */
             return fail("hostname encoding too long");
         q += output_label_size;
         *q++ = '.';
-- 
2.43.0


From 1b8da2f7d55b7413fa110a1c15a48678660e857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 11/23] fix: charstr: apply the DNS name length limit to the
 encoding only

The punycode encoding can be shorter than the UTF-8 encoding it is
generated from. charstr_idna_encode() rejected hostnames whose UTF-8
encoding is longer than 254 bytes even if the encoded name fits.
---
 src/charstr_puny.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 40f15f2..1cb3a75 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -188,8 +188,8 @@ static bool is_all_ascii(const char *s)
 
 static char *encode_filtered(const char *hostname, const char *end)
 {
-    if (end - hostname > MAX_DNS_NAME_LENGTH) /* encoding won't shorten it */
-        return fail("hostname too long");
+    if (end - hostname > 4 * MAX_DNS_NAME_LENGTH)
+        return fail("hostname too long"); /* 4 bytes may encode into one */
     const char *p = hostname;
     size_t output_size = 0;
     char encoding[MAX_DNS_NAME_LENGTH + 1];
@@ -224,9 +224,10 @@ static char *safecopy(const char *src, char *dest, char *end)
 static char *encode_nfc(const char *hostname, const char *end)
 {
     const char *p = hostname;
-    char workarea[MAX_DNS_NAME_LENGTH + 1];
+    /* 12 bytes of unnormalized UTF-8 may encode into a single byte */
+    char workarea[12 * MAX_DNS_NAME_LENGTH + 1];
     char *q = workarea;
-    char *workend = workarea + MAX_DNS_NAME_LENGTH;
+    char *workend = workarea + 12 * MAX_DNS_NAME_LENGTH;
     while (p != end) {
         int codepoint;
         p = charstr_decode_utf8_codepoint(p, end, &codepoint);
-- 
2.43.0


From 994622a5e23540642d927dd420ed1986ec0eb291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 12/23] fix: charstr: normalize the hostname after the IDNA
 mapping

UTS #46 calls for the NFC normalization to be performed on the mapped
string. The mapping can make characters combine that did not combine
before (for example, fullwidth A followed by U+0301, or A and U+0301
with an ignored soft hyphen between), and the wrong name was generated.
---
 src/charstr_puny.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 1cb3a75..7bbe1ed 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -248,7 +248,16 @@ static char *encode_nfc(const char *hostname, const char *end)
     }
     /* TODO: https://unicode.org/reports/tr46/#Processing
      * CheckBidi & CheckJoiners */
-    return encode_filtered(workarea, q);
+    if (charstr_unicode_canonically_composed(workarea, q))
+        return encode_filtered(workarea, q);
+    /* the mapping may have broken the normal form */
+    char nfd[3 * sizeof workarea], nfc[sizeof nfd];
+    q = charstr_unicode_decompose(workarea, q, nfd, nfd + sizeof nfd);
+    if (q)
+        q = charstr_unicode_recompose(nfd, q, nfc, nfc + sizeof nfc);
+    if (!q)
+        return fail("failed to normalize");
+    return encode_filtered(nfc, q);
 }
 
 static char *encode_nfd(const char *hostname, const char *end)
-- 
2.43.0


From c62570b540338c82aaeabf715242a3636359902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 13/23] fix: charstr: report Cn for unassigned code points
 before single-point ranges

The generated range tests left out the lower bound of ranges of a single
code point, so the unassigned code points before such a range (U+0378,
for example) were given its category.
---
 src/categorize.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/categorize.py b/src/categorize.py
index dd3e684..017377a 100755
--- a/src/categorize.py
+++ b/src/categorize.py
@@ -53,14 +53,8 @@ def emit_binary(ranges, indentation):
     I = indentation * "    "
     if length < 5:
         for start, end, category in ranges:
-            if end == start + 1:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
-%s    return UNICODE_CATEGORY_%s;
-""" % (I, end, I, category))
-            else:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
+            sys.stdout.write(
+                r"""%sif (codepoint < %d)
 %s    return codepoint >= %d ? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 """ % (I, end, I, start, category))
         return
@@ -70,15 +64,9 @@ def emit_binary(ranges, indentation):
         r"""%sif (codepoint < %d) {
 """ % (I, end))
     emit_binary(ranges[0:middle], indentation + 1)
-    if end == start + 1:
-        sys.stdout.write(
-            r"""%s    return UNICODE_CATEGORY_%s;
-%s}
-""" % (I, category, I))
-    else:
-        sys.stdout.write(
-                    r"""%s    return codepoint >= %d """
-                    r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
+    sys.stdout.write(
+        r"""%s    return codepoint >= %d """
+        r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 %s}
 """ % (I, start, category, I))
     emit_binary(ranges[middle + 1:], indentation)
-- 
2.43.0


From 63d80ce8f502c9ba0047ff042b72b7c35da04c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 14/23] fix: date: break down epochs before 1970 and beyond the
 int range of days

Like gmtime_r(3), epoch_to_utc() should generate normalized components
for negative epochs. Also, the day number does not fit in an int for
every epoch whose year does.
---
 src/date.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/date.c b/src/date.c
index 633b10b..0e33106 100644
--- a/src/date.c
+++ b/src/date.c
@@ -20,18 +20,27 @@ struct tm *epoch_to_utc(time_t epoch, struct tm *tm)
         _4_YEARS = 4 * YEAR + 1,
         FEBRUARY = 1            /* sic */
     };
+    time_t day_number = epoch / SECONDS_PER_DAY;
     tm->tm_sec = epoch % SECONDS_PER_DAY;
+    if (tm->tm_sec < 0) {
+        tm->tm_sec += SECONDS_PER_DAY;
+        day_number--;
+    }
     tm->tm_min = tm->tm_sec / 60;
     tm->tm_sec %= 60;
     tm->tm_hour = tm->tm_min / 60;
     tm->tm_min %= 60;
     tm->tm_yday = -1;           /* not supported */
     tm->tm_isdst = 0;
-    int days = epoch / SECONDS_PER_DAY;
-    tm->tm_wday = (days + 4) % 7;
-    days += FROM_1600_03_01;
-    tm->tm_year = 1600 + days / _400_YEARS * 400 - 1900;
-    days %= _400_YEARS;
+    day_number += FROM_1600_03_01;
+    time_t eras = day_number / _400_YEARS;
+    int days = day_number % _400_YEARS;
+    if (days < 0) {
+        days += _400_YEARS;
+        eras--;
+    }
+    tm->tm_wday = (days + 3) % 7; /* 1600-03-01 was a Wednesday */
+    tm->tm_year = 1600 + eras * 400 - 1900;
     int centuries = days / CENTURY;
     tm->tm_year += centuries * 100;
     if (centuries == 4) {
-- 
2.43.0


From 089a716d624552be188192942435caf692b845fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 15/23] fix: bytearray: restore the trailing NUL after a failed
 stream read

A read callback may scribble on the buffer before it fails or reports
the end of the stream. byte_array_append_stream() then left the array
without its trailing NUL byte.
---
 src/bytearray.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bytearray.c b/src/bytearray.c
index 8e2e34c..20bd6e8 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -127,10 +127,9 @@ ssize_t byte_array_append_stream(byte_array_t *array,
         return -1;
 
     ssize_t count = read_cb(obj, array->data + array->cursor, len);
-    if (count > 0) {
+    if (count > 0)
         array->cursor += count;
-        array->data[array->cursor] = 0;
-    }
+    array->data[array->cursor] = 0;
     return count;
 }
 
-- 
2.43.0


From 808bafd939e91d050b80c1982159d9edc2d3484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 16/23] fix: bytearray: do not write in an empty block if
 max_size is zero

make_byte_array(0) allocated a block of zero bytes and stored the
trailing NUL byte in it.
---
 src/bytearray.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bytearray.c b/src/bytearray.c
index 20bd6e8..b39ddad 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -21,6 +21,8 @@ byte_array_t *make_byte_array(size_t max_size)
     array->size = 128;
     if (array->size > max_size)
         array->size = max_size;
+    if (array->size == 0)
+        array->size = 1;        /* for the NUL byte */
     array->data = fsalloc(array->size);
     array->data[0] = 0;
     array->ref_count = 1;
-- 
2.43.0


From 43a188b71a7dfb6ddcaa79f1b2742aa523e662a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 17/23] fix: bytearray: allow the contents of an array to be
 stored in itself

byte_array_copy() supports overlapping source and destination areas,
but when the array had to be expanded for the copy, the source was read
after it was freed. The same goes for byte_array_append().
---
 src/bytearray.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/bytearray.c b/src/bytearray.c
index b39ddad..03aa6cd 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -70,6 +70,20 @@ static bool ensure_space(byte_array_t *array, size_t len)
     return true;
 }
 
+/* Like ensure_space() but the data to be stored may be part of the
+ * array itself, in which case *data is made to follow its contents. */
+static bool ensure_space_for(byte_array_t *array, size_t len,
+                             const void **data)
+{
+    uintptr_t offset = (uintptr_t) *data - (uintptr_t) array->data;
+    bool internal = offset <= array->cursor;
+    if (!ensure_space(array, len))
+        return false;
+    if (internal)
+        *data = array->data + offset;
+    return true;
+}
+
 bool byte_array_copy(byte_array_t *array,
                      size_t pos,
                      const void *data,
@@ -79,7 +93,7 @@ bool byte_array_copy(byte_array_t *array,
         return false;
 
     if (len > array->cursor - pos) {
-        if (!ensure_space(array, pos + len - array->cursor))
+        if (!ensure_space_for(array, pos + len - array->cursor, &data))
             return false;
     }
 
@@ -98,10 +112,10 @@ bool byte_array_copy_string(byte_array_t *array, size_t pos, const char *str)
 
 bool byte_array_append(byte_array_t *array, const void *data, size_t len)
 {
-    if (!ensure_space(array, len))
+    if (!ensure_space_for(array, len, &data))
         return false;
 
-    memcpy(array->data + array->cursor, data, len);
+    memmove(array->data + array->cursor, data, len);
     array->cursor += len;
     array->data[array->cursor] = 0;
     return true;
-- 
2.43.0


From 9d8807937fb9c9a005a7d0a006a418b06ae5b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 18/23] fix: fsalloc: do not let the size calculation of
 fscalloc() overflow

If nmemb * size does not fit in a size_t, fscalloc() returned a block
that was too small. Request the largest possible block instead so the
reallocator gets to deal with the failure.
---
 src/fsalloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fsalloc.c b/src/fsalloc.c
index 76bd6bf..d1c10d0 100644
--- a/src/fsalloc.c
+++ b/src/fsalloc.c
@@ -1,3 +1,4 @@
+#include <stdint.h>
 #include <string.h>
 #include "fsalloc.h"
 #include "fsdyn_version.h"
@@ -69,7 +70,9 @@ void *fsrealloc(void *ptr, size_t size)
 
 void *fscalloc(size_t nmemb, size_t size)
 {
-    size *= nmemb;
+    if (size && nmemb > SIZE_MAX / size)
+        size = SIZE_MAX;        /* cannot be satisfied */
+    else size *= nmemb;
     void *obj = fsalloc(size);
     if (obj != NULL)
         memset(obj, 0, size);
-- 
2.43.0


From 660f7b8a78f4ffbc123dd8ec38d00391d7383a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 19/23] fix: base64: ignore whitespace between padding
 characters

With whitespace ignored, "QQ ==" and "QQ== " were accepted but "QQ= ="
was not, so an encoding with a line break between the padding characters
could not be decoded.
---
 src/base64.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index eb07454..d6b1b6e 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -1,6 +1,5 @@
 #include <errno.h>
 #include <assert.h>
-#include <string.h>
 #include "fsalloc.h"
 #include "base64.h"
 #include "fsdyn_version.h"
@@ -162,11 +161,16 @@ static bool good_base64_tail(const char *tail, size_t tail_size,
         default:
             assert(false);
     }
-    size_t padding_len = strlen(padding);
-    return tail_size >= padding_len &&
-        !strncmp(tail, padding, padding_len) &&
-        good_termination(tail + padding_len, tail_size - padding_len,
-                         ignore_wsp);
+    for (; *padding; padding++, tail++, tail_size--) {
+        for (; ignore_wsp && tail_size &&
+                 base64_bitfield_decoding[*tail & 0xff] ==
+                 BASE64_ILLEGAL_WHITESPACE;
+             tail++, tail_size--)
+            ;
+        if (!tail_size || *tail != *padding)
+            return false;
+    }
+    return good_termination(tail, tail_size, ignore_wsp);
 }
 
 static int8_t get_bits(char c, char pos62, char pos63, bool ignore_wsp)
-- 
2.43.0


From e7eb8853a1d304998832363468c0ed957713d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:43 +0000
Subject: [PATCH 20/23] fix: reject disallowed code points before IDNA
 normalization

UTS #46 maps first and normalizes then. Normalizing first replaced the
disallowed U+2F868, U+2F874, U+2F91F, U+2F95F and U+2F9BF with their
canonical equivalents, so hostnames containing them were encoded.
---
 src/charstr_puny.c | 39 +++------------------------------------
 1 file changed, 3 insertions(+), 36 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 7bbe1ed..dc6c75b 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -221,7 +221,7 @@ static char *safecopy(const char *src, char *dest, char *end)
     return dest + size;
 }
 
-static char *encode_nfc(const char *hostname, const char *end)
+static char *encode_mapped(const char *hostname, const char *end)
 {
     const char *p = hostname;
     /* 12 bytes of unnormalized UTF-8 may encode into a single byte */
@@ -232,7 +232,7 @@ static char *encode_nfc(const char *hostname, const char *end)
         int codepoint;
         p = charstr_decode_utf8_codepoint(p, end, &codepoint);
         if (!p)
-            return fail("bad UTF-8 in NFC");
+            return fail("bad UTF-8");
         if (charstr_idna_status_is_valid(codepoint) ||
             charstr_idna_status_is_deviation(codepoint))
             q = charstr_encode_utf8_codepoint(codepoint, q, workend);
@@ -250,7 +250,6 @@ static char *encode_nfc(const char *hostname, const char *end)
      * CheckBidi & CheckJoiners */
     if (charstr_unicode_canonically_composed(workarea, q))
         return encode_filtered(workarea, q);
-    /* the mapping may have broken the normal form */
     char nfd[3 * sizeof workarea], nfc[sizeof nfd];
     q = charstr_unicode_decompose(workarea, q, nfd, nfd + sizeof nfd);
     if (q)
@@ -260,43 +259,11 @@ static char *encode_nfc(const char *hostname, const char *end)
     return encode_filtered(nfc, q);
 }
 
-static char *encode_nfd(const char *hostname, const char *end)
-{
-    size_t worklen = end - hostname; /* recomposing won't grow it */
-    char *workarea = fsalloc(worklen + 1);
-    char *workend = workarea + worklen;
-    workend = charstr_unicode_recompose(hostname, end, workarea, workend + 1);
-    if (!workend) {
-        fsfree(workarea);
-        return fail("failed to recompose");
-    }
-    char *encoding = encode_nfc(workarea, workend);
-    fsfree(workarea);
-    return encoding;
-}
-
 char *charstr_idna_encode(const char *hostname)
 {
     if (is_all_ascii(hostname))
         return charstr_lcase_str(charstr_dupstr(hostname));
-    size_t length = strlen(hostname);
-    const char *end = hostname + length;
-    if (charstr_unicode_canonically_composed(hostname, end))
-        return encode_nfc(hostname, end);
-    if (charstr_unicode_canonically_decomposed(hostname, end))
-        return encode_nfd(hostname, end);
-    size_t worklen = 3 * length; /* should be enough for decomposing */
-    char *workarea = fsalloc(worklen + 1);
-    char *workend = workarea + worklen;
-    workend =
-        charstr_unicode_decompose(hostname, end, workarea, workend + 1);
-    if (!workend) {
-        fsfree(workarea);
-        return fail("failed to decompose");
-    }
-    char *encoding = encode_nfd(workarea, workend);
-    fsfree(workarea);
-    return encoding;
+    return encode_mapped(hostname, hostname + strlen(hostname));
 }
 
 const char *charstr_idna_status(int codepoint)
-- 
2.43.0


From 199b3cff1ae079e40255e91c4d51ab44dc405b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:50 +0000
Subject: [PATCH 21/23] fix: charstr_vprintf: format "%m" the same way in both
 passes

The reallocator may change errno between the pass that measures the
result and the one that writes it, making a format with "%m" overrun
the buffer.
---
 src/charstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/charstr.c b/src/charstr.c
index 3578f36..4eb454c 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -717,6 +717,7 @@ char *charstr_url_decode(const char *encoding, bool plus_is_space, size_t *size)
 
 char *charstr_vprintf(const char *format, va_list ap)
 {
+    int err = errno;
     va_list copy;
     va_copy(copy, ap);
     ssize_t length = vsnprintf(NULL, 0, format, copy);
@@ -726,8 +727,10 @@ char *charstr_vprintf(const char *format, va_list ap)
         return NULL;
     }
     char *buffer = fsalloc(length + 1);
-    if (buffer)
+    if (buffer) {
+        errno = err;            /* both passes must agree on "%m" */
         vsprintf(buffer, format, ap);
+    }
     return buffer;
 }
 
-- 
2.43.0


From 85c313188728ca56454884574d5324eca168a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:36 +0000
Subject: [PATCH 22/23] fix: charstr: do not split at the terminating NUL

A delimiter of '\0' was found at the end of the string, and the search
went on behind it.
---
 src/charstr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 4eb454c..7ee8bce 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -380,7 +380,7 @@ list_t *charstr_split(const char *s, char delim, unsigned max_split)
     list_t *list = make_list();
     while (max_split--) {
         const char *p = strchr(s, delim);
-        if (!p)
+        if (!p || !*p)          /* NUL cannot be a delimiter */
             break;
         list_append(list, charstr_dupsubstr(s, p));
         s = p + 1;
@@ -395,7 +395,7 @@ unsigned charstr_split_into_array(const char *s, char delim, char **array,
     unsigned i = 0;
     while (i < max_split) {
         const char *p = strchr(s, delim);
-        if (!p)
+        if (!p || !*p)          /* NUL cannot be a delimiter */
             break;
         array[i++] = charstr_dupsubstr(s, p);
         s = p + 1;
-- 
2.43.0


From b019c855d258c46f8155d8d8a67584b5d7ab0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:01 +0000
Subject: [PATCH 23/23] fix: base64: recognise the default code characters
 where char is unsigned

---
 src/base64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index d6b1b6e..8e2c939 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -69,9 +69,9 @@ size_t base64_encode_buffer(const void *source, size_t source_size,
     const uint8_t *q = source;
     const uint8_t *tail = q + source_size - source_size % 3;
     uint32_t bits;
-    if (pos62 == -1)
+    if (pos62 == (char) -1)
         pos62 = '+';
-    if (pos63 == -1)
+    if (pos63 == (char) -1)
         pos63 = '/';
     size_t dest_body_counter = dest_size / 4;
     while (dest_body_counter-- && q < tail) {
@@ -202,9 +202,9 @@ ssize_t base64_decode_buffer(const char *source, size_t source_size,
     size_t pi = 0;
     unsigned bits = 0;
     unsigned bit_count = 0;
-    if (pos62 == -1)
+    if (pos62 == (char) -1)
         pos62 = '+';
-    if (pos63 == -1)
+    if (pos63 == (char) -1)
         pos63 = '/';
     while (pi < dest_size && si < source_size &&
            source[si] && source[si] != '=') {
-- 
2.43.0

