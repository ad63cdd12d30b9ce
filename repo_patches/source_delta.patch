From befd26ed037ab18452b34ff461752025f76e81d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 01/16] fix: base64 decoding table accepted 0xff and treated
 0x7f as whitespace

A missing comma at the end of the eighth row merged two initializers
into the expression "-1 -1". Entry 127 became BASE64_ILLEGAL_WHITESPACE
and entry 255 was left zero, so the byte 0xff decoded like 'A'.
---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index c93d3e2..eb07454 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -24,7 +24,7 @@ const int8_t base64_bitfield_decoding[256] = {
     -1,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14,
     15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, -1, -1, -1, -1, -1,
     -1, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
-    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1
+    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-- 
2.43.0


From 9950baf7ce51d6b8160cb60e0df6d8fb1d4166b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 02/16] fix: avl_tree_put() has no effect if value is already
 stored at key

The header promises that putting the value that is already stored at key
has no effect and returns NULL (as hash_table_put() does). The element
was replaced regardless.
---
 src/avltree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avltree.c b/src/avltree.c
index c2c4489..fc8af3d 100644
--- a/src/avltree.c
+++ b/src/avltree.c
@@ -316,8 +316,10 @@ static int put(avl_tree_t *tree, avl_elem_t **ploc, avl_elem_t *element,
         return put_left(tree, ploc, element, premoved_element);
     if (cmp > 0)
         return put_right(tree, ploc, element, premoved_element);
-    if (loc == element)
+    if (loc->value == element->value) {
+        destroy_avl_element(element);
         return 0;
+    }
     element->parent = loc->parent;
     element->left = loc->left;
     element->right = loc->right;
-- 
2.43.0


From 67e44394b3f1221cbf28cb8d9252e6dc69bef8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 03/16] fix: epoch_to_utc() broke down times before 1970
 incorrectly

Integer division truncates toward zero, so negative epochs produced
negative seconds, minutes, hours and weekdays (and, before 1600-03-01,
an out-of-bounds table lookup).
---
 src/date.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/date.c b/src/date.c
index 633b10b..de66b43 100644
--- a/src/date.c
+++ b/src/date.c
@@ -21,17 +21,25 @@ struct tm *epoch_to_utc(time_t epoch, struct tm *tm)
         FEBRUARY = 1            /* sic */
     };
     tm->tm_sec = epoch % SECONDS_PER_DAY;
+    int days = epoch / SECONDS_PER_DAY;
+    if (tm->tm_sec < 0) {
+        tm->tm_sec += SECONDS_PER_DAY;
+        days--;
+    }
     tm->tm_min = tm->tm_sec / 60;
     tm->tm_sec %= 60;
     tm->tm_hour = tm->tm_min / 60;
     tm->tm_min %= 60;
     tm->tm_yday = -1;           /* not supported */
     tm->tm_isdst = 0;
-    int days = epoch / SECONDS_PER_DAY;
-    tm->tm_wday = (days + 4) % 7;
+    tm->tm_wday = (days % 7 + 11) % 7;
     days += FROM_1600_03_01;
     tm->tm_year = 1600 + days / _400_YEARS * 400 - 1900;
     days %= _400_YEARS;
+    if (days < 0) {
+        days += _400_YEARS;
+        tm->tm_year -= 400;
+    }
     int centuries = days / CENTURY;
     tm->tm_year += centuries * 100;
     if (centuries == 4) {
-- 
2.43.0


From 293b0687e7278a0e2600f8a35c8085828cb302c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 04/16] fix: UTF-8 decoder accepted overlong encodings

Overlong forms such as C0 AF or E0 80 AF are illegal UTF-8 (RFC 3629),
but they were decoded, and charstr_valid_utf8() considered them valid.
---
 src/charstr.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 8033007..eeb5e3c 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -457,7 +457,7 @@ static bool valid_unicode(int codepoint)
 const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
                                           int *codepoint)
 {
-    int cp;
+    int cp, min;
     if (!s || s == end)
         return NULL;
     if (!(*s & 0x80))
@@ -465,15 +465,18 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
     else if (!(*s & 0x40))
         return NULL;
     else {
-        if (!(*s & 0x20))
+        if (!(*s & 0x20)) {
             cp = *s++ & 0x1f;
-        else {
-            if (!(*s & 0x10))
+            min = 0x80;
+        } else {
+            if (!(*s & 0x10)) {
                 cp = *s++ & 0x0f;
-            else {
+                min = 0x800;
+            } else {
                 if (*s & 0x08)
                     return NULL;
                 cp = *s++ & 0x07;
+                min = 0x10000;
                 if (s == end || (*s & 0xc0) != 0x80)
                     return NULL;
                 cp = cp << 6 | *s++ & 0x3f;
@@ -485,7 +488,7 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
         if (s == end || (*s & 0xc0) != 0x80)
             return NULL;
         cp = cp << 6 | *s++ & 0x3f;
-        if (!valid_unicode(cp))
+        if (cp < min || !valid_unicode(cp))
             return NULL;
     }
     if (codepoint)
-- 
2.43.0


From 071c6f66264596f7ba14bd9357a907f0bdc297a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 05/16] fix: charstr_unicode_decompose() left Hangul composed
 in a tight buffer

If the decomposition of a Hangul syllable did not fit in the output
buffer but the syllable itself did, the syllable was copied as is and
success was reported. Report EOVERFLOW instead.
---
 src/charstr_decompose.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/charstr_decompose.c b/src/charstr_decompose.c
index bbd8e5b..59f03b5 100644
--- a/src/charstr_decompose.c
+++ b/src/charstr_decompose.c
@@ -3,7 +3,7 @@
 #include "charstr.h"
 #include "fsdyn_version.h"
 
-static char *decompose_hangul(int codepoint, char *s, const char *end)
+static bool decompose_hangul(int codepoint, char **sp, const char *end)
 {
     enum {
         S_BASE = 0xAC00,
@@ -18,12 +18,14 @@ static char *decompose_hangul(int codepoint, char *s, const char *end)
     };
     int i = codepoint - S_BASE;
     if (i < 0 || i >= S_COUNT)
-        return NULL;
+        return false;
+    char *s = *sp;
     s = charstr_encode_utf8_codepoint(L_BASE + i / N_COUNT, s, end);
     s = charstr_encode_utf8_codepoint(V_BASE + i % N_COUNT / T_COUNT, s, end);
     if (i % T_COUNT)
         s = charstr_encode_utf8_codepoint(T_BASE + i % T_COUNT, s, end);
-    return s;
+    *sp = s;
+    return true;
 }
 
 static char *decompose_fully(int codepoint, char *s, const char *end)
@@ -31,9 +33,8 @@ static char *decompose_fully(int codepoint, char *s, const char *end)
     extern const int *_charstr_unicode_decomposition(int codepoint);
     const int *dp = _charstr_unicode_decomposition(codepoint);
     if (!dp) {
-        char *hangul_end = decompose_hangul(codepoint, s, end);
-        if (hangul_end)
-            return hangul_end;
+        if (decompose_hangul(codepoint, &s, end))
+            return s;
         return charstr_encode_utf8_codepoint(codepoint, s, end);
     }
     while (s && *dp)
-- 
2.43.0


From d0e816b3286863102e5a6c10d0677e9bef783077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 06/16] fix: charstr_unicode_category() mislabeled unassigned
 codepoints

An unassigned codepoint followed by a range consisting of a single
codepoint was given the category of that codepoint instead of Cn.
---
 src/categorize.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/categorize.py b/src/categorize.py
index dd3e684..017377a 100755
--- a/src/categorize.py
+++ b/src/categorize.py
@@ -53,14 +53,8 @@ def emit_binary(ranges, indentation):
     I = indentation * "    "
     if length < 5:
         for start, end, category in ranges:
-            if end == start + 1:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
-%s    return UNICODE_CATEGORY_%s;
-""" % (I, end, I, category))
-            else:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
+            sys.stdout.write(
+                r"""%sif (codepoint < %d)
 %s    return codepoint >= %d ? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 """ % (I, end, I, start, category))
         return
@@ -70,15 +64,9 @@ def emit_binary(ranges, indentation):
         r"""%sif (codepoint < %d) {
 """ % (I, end))
     emit_binary(ranges[0:middle], indentation + 1)
-    if end == start + 1:
-        sys.stdout.write(
-            r"""%s    return UNICODE_CATEGORY_%s;
-%s}
-""" % (I, category, I))
-    else:
-        sys.stdout.write(
-                    r"""%s    return codepoint >= %d """
-                    r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
+    sys.stdout.write(
+        r"""%s    return codepoint >= %d """
+        r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 %s}
 """ % (I, start, category, I))
     emit_binary(ranges[middle + 1:], indentation)
-- 
2.43.0


From d3fc80610ee45c2e452ef8f06105b2f95df95935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 07/16] fix: the IDNA status tables lost the last codepoint or
 range of a status

The last mapped and the last valid codepoint were not in their sets, and
the final range of disallowed codepoints (up to U+10FFFF) was dropped,
leaving the codepoints without any status.
---
 src/gen_idna_table.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 8793f92..2327abe 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -33,6 +33,9 @@ static void generate_test(const char *status)
         } else if (prev_cp < 0)
             prev_cp = cp;
     }
+    if (prev_cp >= 0)
+        printf("    if (codepoint < %d) return codepoint >= %d;\n",
+               N_CP, prev_cp);
     printf("    return false;\n"
            "}\n");
 }
@@ -43,12 +46,12 @@ static void generate_set(const char *status)
     for (int cp = 0; cp < N_CP; cp++)
         if (!strcmp(table[cp].status, status))
             max_on = cp;
-    int set_size = (max_on + 63) / 64;
+    int set_size = max_on / 64 + 1;
     printf("\n"
            "static const uint64_t set_%s[%d] = {",
            status, set_size);
     uint64_t *set = fscalloc(set_size, sizeof set[0]);
-    for (int cp = 0; cp < max_on; cp++)
+    for (int cp = 0; cp <= max_on; cp++)
         if (!strcmp(table[cp].status, status))
             set[cp / 64] |= (uint64_t) 1 << cp % 64;
     for (int i = 0; i < set_size - 1; i++) {
-- 
2.43.0


From 5539cac452663cc2e5cebf4913e7ca2f1bb52ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 08/16] fix: charstr_idna_encode() did not use all of its
 decomposition buffer

A hostname whose decomposition is exactly three times its length was
rejected because the byte reserved for NUL termination was left out.
---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index d73fee0..c25dd46 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -278,7 +278,7 @@ char *charstr_idna_encode(const char *hostname)
     size_t worklen = 3 * length; /* should be enough for decomposing */
     char *workarea = fsalloc(worklen + 1);
     char *workend = workarea + worklen;
-    workend = charstr_unicode_decompose(hostname, end, workarea, workend);
+    workend = charstr_unicode_decompose(hostname, end, workarea, workend + 1);
     if (!workend) {
         fsfree(workarea);
         return fail("failed to decompose");
-- 
2.43.0


From 5ba39a6fffc11382424ce2d0785cb3d74ed63ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 09/16] fix: charstr_idna_encode() aborted on an overlong ASCII
 label

The length of a label was not checked if the label was all-ASCII, so a
hostname with such a label and a non-ASCII label triggered an assertion
failure instead of returning NULL.
---
 src/charstr_puny.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index c25dd46..ccc6c0e 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -167,12 +167,12 @@ static const char *punycode_encode(const char *input, const char *end,
     }
     for (size_t i = 0; i < ascii_count; i++)
         o = emit(o, end_output, output_size, ascii[i]);
-    if (!nonascii_count)
-        return next;
-    if (ascii_count)
-        o = emit(o, end_output, output_size, '-');
-    o = punycode_encode_pass2(input, end, o, end_output, output_size,
-                              ascii_count, nonascii, nonascii_count);
+    if (nonascii_count) {
+        if (ascii_count)
+            o = emit(o, end_output, output_size, '-');
+        o = punycode_encode_pass2(input, end, o, end_output, output_size,
+                                  ascii_count, nonascii, nonascii_count);
+    }
     if (*output_size > MAX_DNS_LABEL_LENGTH)
         return fail("label too long");
     return next;
-- 
2.43.0


From 26b717db77f5a3c8724d1ec9234d021809007205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 10/16] fix: charstr_idna_encode() did not normalize the mapped
 hostname

UTS #46 requires that the string be normalized to NFC after the mapping
step. For example, U+FF76 U+FF9E was encoded as U+30AB U+3099 and not as
U+30AC.
---
 src/charstr_puny.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index ccc6c0e..ab67d64 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -247,6 +247,16 @@ static char *encode_nfc(const char *hostname, const char *end)
     }
     /* TODO: https://unicode.org/reports/tr46/#Processing
      * CheckBidi & CheckJoiners */
+    char decomposition[3 * sizeof workarea];
+    char *dend = charstr_unicode_decompose(workarea, q, decomposition,
+                                           decomposition +
+                                           sizeof decomposition);
+    if (!dend)
+        return fail("failed to decompose mapping");
+    q = charstr_unicode_recompose(decomposition, dend, workarea,
+                                  workarea + sizeof workarea);
+    if (!q)
+        return fail("failed to recompose mapping");
     return encode_filtered(workarea, q);
 }
 
-- 
2.43.0


From d207a6d2b71db60f2483dfca7120ed9ae62a2a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 11/16] fix: fscalloc() returned a short block if the size
 computation overflowed

Request an unsatisfiable size from the reallocator instead.
---
 src/fsalloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fsalloc.c b/src/fsalloc.c
index 76bd6bf..d1c10d0 100644
--- a/src/fsalloc.c
+++ b/src/fsalloc.c
@@ -1,3 +1,4 @@
+#include <stdint.h>
 #include <string.h>
 #include "fsalloc.h"
 #include "fsdyn_version.h"
@@ -69,7 +70,9 @@ void *fsrealloc(void *ptr, size_t size)
 
 void *fscalloc(size_t nmemb, size_t size)
 {
-    size *= nmemb;
+    if (size && nmemb > SIZE_MAX / size)
+        size = SIZE_MAX;        /* cannot be satisfied */
+    else size *= nmemb;
     void *obj = fsalloc(size);
     if (obj != NULL)
         memset(obj, 0, size);
-- 
2.43.0


From 9fe7b55cf97c035598725695980a06559514de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 12/16] fix: byte_array_append_stream() lost the NUL terminator
 if the reader failed

A reader may use the buffer it is offered and then deliver nothing or
fail. The byte after the content was then whatever the reader had left
there.
---
 src/bytearray.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bytearray.c b/src/bytearray.c
index 8e2e34c..20bd6e8 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -127,10 +127,9 @@ ssize_t byte_array_append_stream(byte_array_t *array,
         return -1;
 
     ssize_t count = read_cb(obj, array->data + array->cursor, len);
-    if (count > 0) {
+    if (count > 0)
         array->cursor += count;
-        array->data[array->cursor] = 0;
-    }
+    array->data[array->cursor] = 0;
     return count;
 }
 
-- 
2.43.0


From 3d2e9b9b677dd9c84696fda02f394d0b11de77af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:59 +0000
Subject: [PATCH 13/16] fix: charstr_char_class() misclassified LF, VT, FF, CR
 and BS

The table entries for '\n', '\f' and '\r' were not at the positions of
those characters, so form feed and carriage return were not whitespace,
and backspace and vertical tab were.
---
 src/charstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index eeb5e3c..80f40e1 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -119,12 +119,12 @@ static const uint64_t char_class[256] = {
     CHARSTR_CONTROL,                                             /* '\005' */
     CHARSTR_CONTROL,                                             /* '\006' */
     CHARSTR_CONTROL,                                             /* '\007' */
-    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\010' */
     CHARSTR_CONTROL | CHARSTR_HT,                                /* '\t' */
+    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\013' */
     CHARSTR_CONTROL | CHARSTR_FF,                                /* '\f' */
     CHARSTR_CONTROL | CHARSTR_CR,                                /* '\r' */
-    CHARSTR_CONTROL,                                             /* '\014' */
-    CHARSTR_CONTROL,                                             /* '\015' */
     CHARSTR_CONTROL,                                             /* '\016' */
     CHARSTR_CONTROL,                                             /* '\017' */
     CHARSTR_CONTROL,                                             /* '\020' */
-- 
2.43.0


From b6af917d1e7703ca8a0fc4403e44e68de625197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:31 +0000
Subject: [PATCH 14/16] fix: accept IDNA hostnames of the maximum length

A 253-character hostname (254 with the final '.') is legal but
charstr_idna_encode() refused it since the count already includes the
final '.'.
---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index ab67d64..27fe72f 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -201,7 +201,7 @@ static char *encode_filtered(const char *hostname, const char *end)
             return NULL;
         assert(output_label_size <= MAX_DNS_LABEL_LENGTH);
         output_size += output_label_size + 1;
-        if (output_size > MAX_DNS_NAME_LENGTH - 1) /* -1 for the final '.' */
+        if (output_size > MAX_DNS_NAME_LENGTH) /* incl. a final '.' */
             return fail("hostname encoding too long");
         q += output_label_size;
         *q++ = '.';
-- 
2.43.0


From d41826d724aa2254f3876b132b1d7b12980a61e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 15/16] fix: do not refuse IDNA hostnames that are long only in
 UTF-8

Punycode is often shorter than the UTF-8 encoding, so a hostname of more
than 254 bytes may well have a legal encoding.
---
 src/charstr_puny.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 27fe72f..a34e0a7 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -6,6 +6,8 @@
 
 enum {
     MAX_DNS_NAME_LENGTH = 254,
+    /* every codepoint yields at least one character */
+    MAX_UTF8_NAME_LENGTH = 4 * MAX_DNS_NAME_LENGTH,
     MAX_DNS_LABEL_LENGTH = 63,
     BASE = 36,
     TMIN = 1,
@@ -188,7 +190,7 @@ static bool is_all_ascii(const char *s)
 
 static char *encode_filtered(const char *hostname, const char *end)
 {
-    if (end - hostname > MAX_DNS_NAME_LENGTH) /* encoding won't shorten it */
+    if (end - hostname > MAX_UTF8_NAME_LENGTH)
         return fail("hostname too long");
     const char *p = hostname;
     size_t output_size = 0;
@@ -224,9 +226,9 @@ static char *safecopy(const char *src, char *dest, char *end)
 static char *encode_nfc(const char *hostname, const char *end)
 {
     const char *p = hostname;
-    char workarea[MAX_DNS_NAME_LENGTH + 1];
+    char workarea[MAX_UTF8_NAME_LENGTH + 1];
     char *q = workarea;
-    char *workend = workarea + MAX_DNS_NAME_LENGTH;
+    char *workend = workarea + MAX_UTF8_NAME_LENGTH;
     while (p != end) {
         int codepoint;
         p = charstr_decode_utf8_codepoint(p, end, &codepoint);
-- 
2.43.0


From 7b110bd7f26f3e520ae7dbf5eb54209dc813c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:28 +0000
Subject: [PATCH 16/16] fix: do not refuse IDNA hostnames that are long only
 before composition

The UTS #46 mapping of a hostname may consist of sequences that are yet to be
composed, such as halfwidth katakana with voicing marks, and so may be
several times as long as the hostname it is composed into. The work area was
only large enough for the latter.
---
 src/charstr_puny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index a34e0a7..e53df6c 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -226,9 +226,10 @@ static char *safecopy(const char *src, char *dest, char *end)
 static char *encode_nfc(const char *hostname, const char *end)
 {
     const char *p = hostname;
-    char workarea[MAX_UTF8_NAME_LENGTH + 1];
+    /* the mapping may have to be composed yet */
+    char workarea[3 * MAX_UTF8_NAME_LENGTH + 1];
     char *q = workarea;
-    char *workend = workarea + MAX_UTF8_NAME_LENGTH;
+    char *workend = workarea + 3 * MAX_UTF8_NAME_LENGTH;
     while (p != end) {
         int codepoint;
         p = charstr_decode_utf8_codepoint(p, end, &codepoint);
-- 
2.43.0

