/* Drives the codecs, string functions, numbers and the allocation primitives
 * from a script and logs inputs and results. */
#include "common.h"
#include <locale.h>
#include <wchar.h>
#include <time.h>
#include "base64.h"
#include "charstr.h"
#include "date.h"
#include "float.h"
#include "hashtable.h"
#include "integer.h"

static const char *errname(int e)
{
    switch (e) {
        case 0: return "0";
        case ENOSPC: return "ENOSPC";
        case EILSEQ: return "EILSEQ";
        case EOVERFLOW: return "EOVERFLOW";
        default: return "other";
    }
}

/* numbers too large for TLC: limbs of 15 bits, least significant first */
static void out_limbs(unsigned long long n)
{
    out("[%llu,%llu,%llu,%llu,%llu]", n & 32767, n >> 15 & 32767,
        n >> 30 & 32767, n >> 45 & 32767, n >> 60);
}

static void out_opt(const char *s)      /* [] or [bytes] */
{
    if (!s)
        out("[]");
    else {
        out("[");
        out_cstr(s);
        out("]");
    }
}

/* ------------------------------------------------------------------ base64 */

static int pos(char c)
{
    return c == -1 ? -1 : (uint8_t) c;
}

static void do_base64(void)
{
    char *op = tok();
    if (strcmp(op, "enc") == 0) {
        size_t n;
        uint8_t *p = hexbytes(&n, 0);
        size_t size = unum();
        char p62 = num(), p63 = num();
        char *dest = malloc(size ? size : 1);
        memset(dest, 0xa5, size ? size : 1);
        size_t r = base64_encode_buffer(p, n, dest, size, p62, p63);
        out("{\"op\":\"enc\",\"p\":%d,\"q\":%d,\"size\":%zu,\"r\":%ld,\"d\":",
            pos(p62), pos(p63), size, r > 1000000000 ? -2 : (long) r);
        out_bytes(p, n);
        out(",\"buf\":");
        out_bytes(dest, size ? size : 1);
        ev_end();
        free(p);
        free(dest);
    } else if (strcmp(op, "simple") == 0) {
        size_t n;
        uint8_t *p = hexbytes(&n, 0);
        char *r = base64_encode_simple(p, n);
        out("{\"op\":\"simple\",\"d\":");
        out_bytes(p, n);
        out(",\"r\":");
        out_opt(r);
        ev_end();
        free(p);
        fsfree(r);
    } else if (strcmp(op, "size") == 0) {
        size_t n = unum();
        size_t r = base64_encoding_size(n);
        out("{\"op\":\"size\",\"n\":");
        out_limbs(n);
        out(",\"r\":");
        out_limbs(r);
        out(",\"over\":%s", r == (size_t) -1 ? "true" : "false");
        ev_end();
    } else if (strcmp(op, "dec") == 0) {
        /* source (ending in NUL if there is no limit), limit, size */
        char *peek = cursor_;
        size_t n;
        (void) peek;
        uint8_t *p = hexbytes(&n, 1);
        long limit = num();
        size_t size = unum();
        char p62 = num(), p63 = num();
        int wsp = num();
        uint8_t *src = p;
        if (limit >= 0) {               /* exact, no terminator */
            size_t k = limit < n ? limit : n;
            src = malloc(k ? k : 1);
            memcpy(src, p, k);
            if (limit > n && memchr(src, 0, n) == NULL)
                bad_script("limit");
        }
        uint8_t *dest = malloc(size ? size : 1);
        memset(dest, 0xa5, size ? size : 1);
        errno = 0;
        ssize_t r = base64_decode_buffer((char *) src, limit, dest, size,
                                         p62, p63, wsp);
        int e = errno;
        out("{\"op\":\"dec\",\"p\":%d,\"q\":%d,\"wsp\":%s,\"limit\":%ld,"
            "\"size\":%zu,\"r\":%zd,\"err\":\"%s\",\"d\":", pos(p62), pos(p63),
            wsp ? "true" : "false", limit, size, r, errname(e));
        out_bytes(p, n);
        out(",\"buf\":");
        out_bytes(dest, size);
        ev_end();
        if (src != p)
            free(src);
        free(p);
        free(dest);
    } else if (strcmp(op, "dsimple") == 0) {
        char *s = hexstr();
        size_t n = 77;
        errno = 0;
        uint8_t *r = base64_decode_simple(s, &n);
        int e = errno;
        out("{\"op\":\"dsimple\",\"d\":");
        out_cstr(s);
        out(",\"ok\":%s,\"err\":\"%s\",\"r\":", r ? "true" : "false",
            errname(e));
        if (r)
            out_bytes(r, n + 1);
        else
            out("[]");
        ev_end();
        fsfree(r);
        free(s);
    } else if (strcmp(op, "tables") == 0) {
        out("{\"op\":\"tables\",\"e\":");
        out_bytes(base64_bitfield_encoding, 64);
        out(",\"d\":[");
        for (int i = 0; i < 256; i++)
            out(i ? ",%d" : "%d", base64_bitfield_decoding[i]);
        out("]");
        ev_end();
    } else
        bad_script(op);
}

/* -------------------------------------------------------------------- date */

static void out_tm(long long epoch, bool first, bool all)
{
    struct tm tm;
    memset(&tm, 0x55, sizeof tm);
    struct tm *r = epoch_to_utc((time_t) epoch, &tm);
    if (!first)
        out(",");
    if (r != &tm)
        out("[0]");
    else if (all)
        out("[%d,%d,%d,%d,%d,%d,%d,%d]", tm.tm_year, tm.tm_mon, tm.tm_mday,
            tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_wday, tm.tm_isdst);
}

static void do_date(void)
{
    char *op = tok();
    long long day = strtoll(tok(), NULL, 10);
    long sec = num(), count = num();
    bool days = strcmp(op, "days") == 0;
    if (!days && strcmp(op, "secs"))
        bad_script(op);
    out("{\"op\":\"%s\",\"day\":%lld,\"sec\":%ld,\"t\":[", op, day, sec);
    for (long i = 0; i < count; i++)
        out_tm(days ? (day + i) * 86400 + sec : day * 86400 + sec + i, i == 0,
               true);
    out("]");
    ev_end();
}

/* ------------------------------------------------------------------- float */

static void out_bits(uint64_t v)
{
    out("[%llu,%llu,%llu,%llu]", (unsigned long long) (v & 0xffff),
        (unsigned long long) (v >> 16 & 0xffff),
        (unsigned long long) (v >> 32 & 0xffff),
        (unsigned long long) (v >> 48));
}

static void do_float(void)
{
    /* several patterns in one event */
    out("{\"op\":\"flt\",\"x\":[");
    bool first = true;
    while (more()) {
        uint64_t v = unum();
        long long n = 0x5555;
        unsigned long long u = 0x5555;
        bool a = binary64_to_integer(v, &n);
        bool b = binary64_to_unsigned(v, &u);
        out("%s{\"v\":", first ? "" : ",");
        first = false;
        out_bits(v);
        out(",\"i\":%s,\"u\":%s,\"neg\":%s,\"n\":", a ? "true" : "false",
            b ? "true" : "false", a && n < 0 ? "true" : "false");
        out_bits(!a ? 0 : n < 0 ? 0 - (uint64_t) n : (uint64_t) n);
        out(",\"m\":");
        out_bits(b ? u : 0);
        out("}");
    }
    out("]");
    ev_end();
}

/* ------------------------------------------------------------------- utf-8 */

static void do_utf8(void)
{
    char *op = tok();
    if (strcmp(op, "dec") == 0) {
        size_t n;
        uint8_t *p = hexbytes(&n, 1);
        long bound = num();
        char *s = (char *) p;
        if (bound >= 0) {
            s = malloc(bound ? bound : 1);
            memcpy(s, p, bound);
        }
        int cp = -5;
        const char *r = charstr_decode_utf8_codepoint(
            s, bound >= 0 ? s + bound : NULL, &cp);
        const char *r2 = charstr_decode_utf8_codepoint(
            s, bound >= 0 ? s + bound : NULL, NULL);
        out("{\"op\":\"udec\",\"bound\":%ld,\"n\":%ld,\"n2\":%ld,\"cp\":%d,"
            "\"d\":", bound, r ? (long) (r - s) : -1,
            r2 ? (long) (r2 - s) : -1, cp);
        out_bytes(p, n);
        ev_end();
        if (s != (char *) p)
            free(s);
        free(p);
    } else if (strcmp(op, "runs") == 0) {
        /* prefix, suffix: results for every byte in between, as runs in which
         * the length is the same and the codepoint grows in equal steps */
        size_t n, m;
        uint8_t *p = hexbytes(&n, 0), *t = hexbytes(&m, 0);
        uint8_t *s = malloc(n + 1 + m);
        memcpy(s, p, n);
        memcpy(s + n + 1, t, m);
        out("{\"op\":\"uruns\",\"p\":");
        out_bytes(p, n);
        out(",\"t\":");
        out_bytes(t, m);
        out(",\"r\":[");
        static int len[256], cp[256];
        for (int b = 0; b < 256; b++) {
            s[n] = b;
            cp[b] = 0;
            const char *r = charstr_decode_utf8_codepoint(
                (char *) s, (char *) s + n + 1 + m, &cp[b]);
            len[b] = r ? r - (char *) s : -1;
            if (!r)
                cp[b] = 0;
        }
        for (int b = 0, e; b < 256; b = e) {
            int step = b < 255 && len[b + 1] == len[b] ? cp[b + 1] - cp[b] : 0;
            for (e = b + 1; e < 256; e++)
                if (len[e] != len[b] || cp[e] != cp[e - 1] + step)
                    break;
            out("%s[%d,%d,%d,%d,%d]", b ? "," : "", b, e - 1, len[b], cp[b],
                step);
        }
        out("]");
        ev_end();
        free(p);
        free(t);
        free(s);
    } else if (strcmp(op, "valid") == 0) {
        size_t n;
        uint8_t *p = hexbytes(&n, 0);
        bool r = charstr_valid_utf8_bounded((char *) p, (char *) p + n);
        out("{\"op\":\"uvalid\",\"r\":%s,\"d\":", r ? "true" : "false");
        out_bytes(p, n);
        ev_end();
        free(p);
    } else if (strcmp(op, "validz") == 0) {
        char *s = hexstr();
        bool r = charstr_valid_utf8(s);
        out("{\"op\":\"uvalid\",\"r\":%s,\"d\":", r ? "true" : "false");
        out_cstr(s);
        ev_end();
        free(s);
    } else if (strcmp(op, "block") == 0) {
        /* n codepoints encoded and decoded again, as runs in which only the
         * last byte of the encoding grows, in step with the codepoint */
        int lo = num(), n = num();
        out("{\"op\":\"ublock\",\"lo\":%d,\"hi\":%d,\"r\":[", lo, lo + n - 1);
        static struct {
            uint8_t b[8];
            int len, cp, used;
        } x[4096];
        for (int i = 0; i < n; i++) {
            char b[8] = { 0 };
            char *r = charstr_encode_utf8_codepoint(lo + i, b, b + 8);
            x[i].len = r ? r - b : -1;
            x[i].cp = -1;
            memcpy(x[i].b, b, 8);
            const char *q = r ? charstr_decode_utf8_codepoint(b, r, &x[i].cp)
                              : NULL;
            x[i].used = q ? q - b : -1;
        }
        for (int i = 0, e; i < n; i = e) {
            int len = x[i].len;
            for (e = i + 1; e < n; e++)
                if (len < 1 || x[e].len != len || x[e].used != x[i].used ||
                    x[e].cp - x[i].cp != e - i ||
                    memcmp(x[e].b, x[i].b, len - 1) != 0 ||
                    x[e].b[len - 1] - x[i].b[len - 1] != e - i)
                    break;
            out("%s[%d,%d,%d,%d,", i ? "," : "", lo + i, lo + e - 1, x[i].used,
                x[i].cp);
            out_bytes(x[i].b, len > 0 ? len : 0);
            out("]");
        }
        out("]");
        ev_end();
    } else if (strcmp(op, "null") == 0) {
        static char buf[8];
        int cp;
        out("{\"op\":\"unulls\",\"r\":[%d,%d,%d,%d,%d]",
            charstr_decode_utf8_codepoint(NULL, NULL, &cp) == NULL,
            charstr_decode_utf8_codepoint(NULL, buf, &cp) == NULL,
            charstr_decode_utf8_codepoint(NULL, buf, NULL) == NULL,
            charstr_encode_utf8_codepoint(65, NULL, NULL) == NULL,
            charstr_encode_utf8_codepoint(0x1f600, NULL, buf) == NULL);
        ev_end();
    } else if (strcmp(op, "enc") == 0) {
        int cp = num();
        long bound = num();
        size_t size = bound >= 0 ? bound : 8;
        char *s = malloc(size ? size : 1);
        memset(s, 0xa5, size ? size : 1);
        char *r = charstr_encode_utf8_codepoint(cp, s,
                                                bound >= 0 ? s + bound : NULL);
        out("{\"op\":\"uenc\",\"cp\":%d,\"bound\":%ld,\"n\":%ld,\"buf\":", cp,
            bound, r ? (long) (r - s) : -1);
        out_bytes(s, size);
        ev_end();
        free(s);
    } else if (strcmp(op, "san") == 0) {
        char *s = hexstr();
        char *r = charstr_sanitize_utf8(s);
        char *r2 = charstr_sanitize_utf8(r);
        out("{\"op\":\"usan\",\"v\":%s,\"d\":",
            charstr_valid_utf8(r) ? "true" : "false");
        out_cstr(s);
        out(",\"r\":");
        out_cstr(r);
        out(",\"r2\":");
        out_cstr(r2);
        ev_end();
        fsfree(r2);
        fsfree(r);
        free(s);
    } else
        bad_script(op);
}

/* --------------------------------------------------------------------- url */

#define ENCODERS 6
static charstr_url_encoder_t *encoders_[ENCODERS];

static void do_url(void)
{
    char *op = tok();
    if (strcmp(op, "new") == 0) {
        int t = num();
        char *a = hexstr(), *b = hexstr();
        encoders_[t] = charstr_create_url_encoder(a, b);
        out("{\"op\":\"wnew\",\"t\":%d,\"a\":", t);
        out_cstr(a);
        out(",\"b\":");
        out_cstr(b);
        ev_end();
        free(b);
        free(a);
    } else if (strcmp(op, "del") == 0) {
        int t = num();
        charstr_destroy_url_encoder(encoders_[t]);
        encoders_[t] = NULL;
        out("{\"op\":\"wdel\",\"t\":%d", t);
        ev_end();
    } else if (strcmp(op, "enc") == 0) {
        int t = num();
        char *s = hexstr();
        if (t >= 0 && !encoders_[t])
            bad_script("no encoder");
        char *r = t < 0 ? charstr_url_encode(s)
                        : charstr_url_custom_encode(encoders_[t], s);
        char *back = charstr_url_decode(r, true, NULL);
        out("{\"op\":\"wenc\",\"t\":%d,\"d\":", t);
        out_cstr(s);
        out(",\"r\":");
        out_cstr(r);
        out(",\"back\":");
        out_opt(back);
        ev_end();
        fsfree(r);
        fsfree(back);
        free(s);
    } else if (strcmp(op, "bytes") == 0) {
        int t = num();
        out("{\"op\":\"wbytes\",\"t\":%d,\"r\":[", t);
        for (int b = 0; b < 256; b++) {
            if (b)
                out(",");
            const char *r = t < 0 ? charstr_url_encode_byte(b)
                : charstr_url_custom_encode_byte(encoders_[t], b);
            out_cstr(r);
        }
        out("]");
        ev_end();
    } else if (strcmp(op, "dec") == 0) {
        char *s = hexstr();
        int plus = num();
        int sized = num();
        size_t n = 77;
        errno = 0;
        char *r = charstr_url_decode(s, plus, sized ? &n : NULL);
        int e = errno;
        out("{\"op\":\"wdec\",\"plus\":%s,\"sized\":%s,\"ok\":%s,"
            "\"err\":\"%s\",\"d\":",
            plus ? "true" : "false", sized ? "true" : "false",
            r ? "true" : "false", errname(e));
        out_cstr(s);
        out(",\"r\":");
        if (r)
            out_bytes(r, sized ? n + 1 : strlen(r) + 1);
        else
            out("[]");
        ev_end();
        fsfree(r);
        free(s);
    } else
        bad_script(op);
}

/* ----------------------------------------------------------------- strings */

static void out_strings(list_t *list)
{
    out("[");
    bool first = true;
    for (list_elem_t *e = list_get_first(list); e; e = list_next(e)) {
        if (!first)
            out(",");
        first = false;
        out_cstr(list_elem_get_value(e));
    }
    out("],\"cnt\":%zu", list_size(list));
}

static void drop_strings(list_t *list)
{
    while (!list_empty(list))
        fsfree((void *) list_pop_first(list));
    destroy_list(list);
}

static int sign(int n)
{
    return n < 0 ? -1 : n > 0;
}

/* case conversion between two pointers; NULs are bytes like any other */
static void case_range(void)
{
    size_t n;
    uint8_t *p = hexbytes(&n, 0), *t[2];
    long a = num(), b = num();
    bool same = true;
    for (int i = 0; i < 2; i++) {
        t[i] = malloc(n ? n : 1);
        memcpy(t[i], p, n);
        char *s = (char *) t[i] + a;
        same = (i ? charstr_ucase_substr(s, (char *) t[i] + b)
                  : charstr_lcase_substr(s, (char *) t[i] + b)) == s && same;
    }
    out("{\"op\":\"ranges\",\"a\":%ld,\"b\":%ld,\"same\":%s,\"d\":", a, b,
        same ? "true" : "false");
    out_bytes(p, n);
    for (int i = 0; i < 2; i++) {
        out(",\"r%d\":", i);
        out_bytes(t[i], n);
        free(t[i]);
    }
    ev_end();
    free(p);
}

static void do_string(void)
{
    char *op = tok();
    if (strcmp(op, "range") == 0) {
        case_range();
        return;
    }
    char *s = hexstr();
    if (strcmp(op, "split") == 0) {
        int delim = num();
        unsigned max = unum();
        list_t *list = charstr_split(s, delim, max);
        out("{\"op\":\"split\",\"max\":%u,\"delim\":[%d],\"d\":",
            max > 1000000000 ? 1000000000 : max, delim);
        out_cstr(s);
        out(",\"r\":");
        out_strings(list);
        ev_end();
        drop_strings(list);
    } else if (strcmp(op, "array") == 0) {
        int delim = num();
        unsigned max = unum();
        /* no larger than promised */
        size_t n = max > 1000 ? strlen(s) + 1 : max + 1;
        char **array = malloc(n * sizeof *array);
        unsigned r = charstr_split_into_array(s, delim, array, max);
        out("{\"op\":\"split\",\"max\":%u,\"delim\":[%d],\"d\":",
            max > 1000000000 ? 1000000000 : max, delim);
        out_cstr(s);
        out(",\"r\":[");
        for (unsigned i = 0; i <= r && i < n; i++) {
            if (i)
                out(",");
            out_cstr(array[i]);
            fsfree(array[i]);
        }
        out("],\"cnt\":%u", r + 1);
        ev_end();
        free(array);
    } else if (strcmp(op, "str") == 0) {
        char *delim = hexstr();
        unsigned max = unum();
        list_t *list = charstr_split_str(s, delim, max);
        out("{\"op\":\"split\",\"max\":%u,\"delim\":",
            max > 1000000000 ? 1000000000 : max);
        out_cstr(delim);
        out(",\"d\":");
        out_cstr(s);
        out(",\"r\":");
        out_strings(list);
        ev_end();
        drop_strings(list);
        free(delim);
    } else if (strcmp(op, "atoms") == 0) {
        list_t *list = charstr_split_atoms(s);
        out("{\"op\":\"atoms\",\"d\":");
        out_cstr(s);
        out(",\"r\":");
        out_strings(list);
        ev_end();
        drop_strings(list);
    } else if (strcmp(op, "strip") == 0) {
        char *r = charstr_strip(s);
        out("{\"op\":\"strip\",\"d\":");
        out_cstr(s);
        out(",\"r\":");
        out_cstr(r);
        ev_end();
        fsfree(r);
    } else if (strcmp(op, "null") == 0) {
        out("{\"op\":\"nulls\",\"r\":[%d,%d,%d]", charstr_strip(NULL) == NULL,
            charstr_dupstr(NULL) == NULL,
            charstr_dupsubstr(NULL, NULL) == NULL);
        ev_end();
    } else if (strcmp(op, "dup") == 0) {
        char *r = charstr_dupstr(s);
        char *r2 = charstr_dupsubstr(s, NULL);
        out("{\"op\":\"dup\",\"fresh\":%s,\"d\":",
            r != s && r2 != s && r != r2 ? "true" : "false");
        out_cstr(s);
        out(",\"r\":");
        out_cstr(r);
        out(",\"r2\":");
        out_cstr(r2);
        ev_end();
        fsfree(r);
        fsfree(r2);
    } else if (strcmp(op, "sub") == 0) {
        /* the original need not be terminated, may contain NULs after it */
        long a = num(), b = num();
        size_t n = strlen(s);
        char *t = malloc(b > 0 ? b : 1);
        memcpy(t, s, b);
        char *r = charstr_dupsubstr(t + a, t + b);
        out("{\"op\":\"sub\",\"a\":%ld,\"b\":%ld,\"d\":", a, b);
        out_cstr(s);
        out(",\"r\":");
        out_cstr(r);
        ev_end();
        fsfree(r);
        free(t);
        (void) n;
    } else if (strcmp(op, "cmp") == 0) {
        char *t = hexstr();
        out("{\"op\":\"cmp\",\"r\":%d,\"a\":", sign(charstr_case_cmp(s, t)));
        out_cstr(s);
        out(",\"b\":");
        out_cstr(t);
        ev_end();
        free(t);
    } else if (strcmp(op, "ncmp") == 0) {
        char *t = hexstr();
        size_t n = unum();
        out("{\"op\":\"ncmp\",\"n\":%zu,\"r\":%d,\"a\":",
            n > 1000000000 ? 1000000000 : n,
            sign(charstr_ncase_cmp(s, t, n)));
        out_cstr(s);
        out(",\"b\":");
        out_cstr(t);
        ev_end();
        free(t);
    } else if (strcmp(op, "ends") == 0) {
        char *t = hexstr();
        out("{\"op\":\"ends\",\"r\":%s,\"a\":",
            charstr_ends_with(s, t) ? "true" : "false");
        out_cstr(s);
        out(",\"b\":");
        out_cstr(t);
        ev_end();
        free(t);
    } else if (strcmp(op, "skip") == 0) {
        char *t = hexstr();
        const char *r[4] = {
            charstr_skip_prefix(s, t), charstr_case_starts_with(s, t),
            charstr_case_skip_prefix(s, t), charstr_ncase_starts_with(s, t)
        };
        out("{\"op\":\"skip\",\"r\":[");
        for (int i = 0; i < 4; i++)
            out("%s%ld", i ? "," : "", r[i] ? (long) (r[i] - s) : -1);
        out("],\"a\":");
        out_cstr(s);
        out(",\"b\":");
        out_cstr(t);
        ev_end();
        free(t);
    } else if (strcmp(op, "case") == 0) {
        size_t n = strlen(s);
        long b = num();         /* substring end */
        char *t[4];
        bool same = true;
        for (int i = 0; i < 4; i++) {
            t[i] = malloc(n + 1);
            strcpy(t[i], s);
        }
        same = charstr_lcase_str(t[0]) == t[0] && same;
        same = charstr_ucase_str(t[1]) == t[1] && same;
        same = charstr_lcase_substr(t[2], t[2] + b) == t[2] && same;
        same = charstr_ucase_substr(t[3], t[3] + b) == t[3] && same;
        out("{\"op\":\"cases\",\"b\":%ld,\"same\":%s,\"d\":", b,
            same ? "true" : "false");
        out_cstr(s);
        for (int i = 0; i < 4; i++) {
            out(",\"r%d\":", i);
            out_bytes(t[i], n + 1);
            free(t[i]);
        }
        ev_end();
    } else if (strcmp(op, "class") == 0) {
        out("{\"op\":\"class\",\"c\":[");
        for (int i = 0; i < 256; i++)
            out("%s%lu", i ? "," : "",
                (unsigned long) charstr_char_class((char) i));
        out("],\"lo\":[");
        for (int i = 0; i < 256; i++)
            out("%s%d", i ? "," : "", (uint8_t) charstr_lcase_char((char) i));
        out("],\"up\":[");
        for (int i = 0; i < 256; i++)
            out("%s%d", i ? "," : "", (uint8_t) charstr_ucase_char((char) i));
        out("],\"dv\":[");
        for (int i = 0; i < 256; i++)
            out("%s%u", i ? "," : "", charstr_digit_value((char) i));
        out("]");
        ev_end();
    } else
        bad_script(op);
    free(s);
}

/* ------------------------------------------------------------------ printf */

static char *via_v(const char *format, ...)
{
    va_list ap;
    va_start(ap, format);
    char *r = charstr_vprintf(format, ap);
    va_end(ap);
    return r;
}

static void do_printf(void)
{
    int kind = num();
    char *s = hexstr();
    int n = num(), w = num();
    char *r = NULL, *r2 = NULL;
    errno = 0;
#define BOTH(...) (r = charstr_printf(__VA_ARGS__), r2 = via_v(__VA_ARGS__))
    switch (kind) {
        case 0: BOTH("%s", s); break;
        case 1: BOTH("%d", n); break;
        case 2: BOTH("<%s|%d|%s>", s, n, s); break;
        case 3: BOTH("%*s", w, s); break;
        case 4: BOTH("%-*d|", w, n); break;
        case 5: BOTH("%0*d", w, n); break;
        case 6: BOTH("%c%c%%", n & 0x7f | 1, 'z'); break;
        case 7: BOTH("%.*s.", w, s); break;
        case 8: BOTH("%x %u", (unsigned) (n & 0x7fffffff),
                     (unsigned) (n & 0x7fffffff)); break;
        case 9: BOTH("plain"); break;
        case 10: BOTH("%s%s%s%s%s%s%s%s", s, s, s, s, s, s, s, s); break;
        case 11: BOTH("%d%d%d%d%d%d%d%d", n, w, n, w, n, w, n, w); break;
        case 12: BOTH("%lc", (wint_t) 0xd800); break;
        default: bad_script("kind");
    }
    int e = errno;
    out("{\"op\":\"pf\",\"k\":%d,\"s\":", kind);
    out_cstr(s);
    out(",\"n\":%d,\"w\":%d,\"err\":\"%s\",\"r\":", n, w, errname(e));
    out_opt(r);
    out(",\"r2\":");
    out_opt(r2);
    ev_end();
    fsfree(r);
    fsfree(r2);
    free(s);
}

/* ------------------------------------------------------------ long strings */

/* a list of strings as one stretch of memory, each with its terminator */
static char *flat(list_t *list, size_t *n)
{
    *n = 0;
    for (list_elem_t *e = list_get_first(list); e; e = list_next(e))
        *n += strlen(list_elem_get_value(e)) + 1;
    char *r = malloc(*n ? *n : 1), *q = r;
    for (list_elem_t *e = list_get_first(list); e; e = list_next(e)) {
        strcpy(q, list_elem_get_value(e));
        q += strlen(q) + 1;
    }
    return r;
}

static void do_long(void)
{
    char *op = tok();
    long a = num(), b = num();
    pieces_t ps, qs;
    units_t us;
    read_pieces(&ps);
    out("{\"op\":\"long\",\"f\":\"%s\",\"a\":%ld,\"b\":%ld", op, a, b);
    out_pieces("in", &ps);
    char *s = (char *) join_pieces(&ps, 1);     /* ends in a NUL */
    uint8_t *x = join_pieces(&ps, 0);           /* does not */
    if (strcmp(op, "cmp") == 0 || strcmp(op, "ends") == 0 ||
        strcmp(op, "skip") == 0) {
        read_pieces(&qs);
        out_pieces("in2", &qs);
        char *t = (char *) join_pieces(&qs, 1);
        if (*op == 'c')
            /* b: how many more or fewer than the first a pieces */
            out(",\"r\":[%d,%d]", sign(charstr_case_cmp(s, t)),
                sign(charstr_ncase_cmp(s, t, length_of(&ps, a) + b)));
        else if (*op == 'e')
            out(",\"r\":[%d]", charstr_ends_with(s, t));
        else {
            const char *r[4] = {
                charstr_skip_prefix(s, t), charstr_case_starts_with(s, t),
                charstr_case_skip_prefix(s, t), charstr_ncase_starts_with(s, t)
            };
            /* where in s: past all of t, or nowhere */
            out(",\"r\":[");
            for (int i = 0; i < 4; i++)
                out("%s%d", i ? "," : "",
                    !r[i] ? 0 : r[i] == s + qs.total ? 1 : 2);
            out("]");
        }
        ev_end();
        free(t);
        drop_pieces(&qs);
    } else if (strcmp(op, "valid") == 0) {
        out(",\"r\":[%d,%d]", charstr_valid_utf8(s),
            charstr_valid_utf8_bounded((char *) x, (char *) x + ps.total));
        ev_end();
    } else if (strcmp(op, "hash") == 0) {
        bool same = true, seen = true;
        uint64_t h = a ? hash_string(s) : hash_blob(x, ps.total);
        for (int i = 1; i < 10; i++) {
            char *q = malloc(ps.total + 16);
            memset(q, 'x', ps.total + 16);
            memcpy(q + i, s, ps.total + 1);
            same = same && h == (a ? hash_string(q + i)
                                   : hash_blob(q + i, ps.total));
            free(q);
        }
        for (int i = 0; i < 40 && ps.total > 0; i++) {
            /* both ends, the powers of two, and here and there */
            size_t k = i < 4 ? i : i < 8 ? ps.total - (i - 3) :
                i < 27 ? (size_t) 1 << i - 7 : ps.total / 13 * (i - 27);
            if (k >= ps.total)
                continue;
            bool differs = false;
            for (int d = 1; d <= 3; d++) {
                char old = s[k];
                s[k] ^= d << d;
                if (!s[k])
                    s[k] = (char) 0x91;
                differs = differs ||
                    h != (a ? hash_string(s) : hash_blob(s, ps.total));
                s[k] = old;
            }
            seen = seen && differs;
        }
        out(",\"r\":[%d,%d]", same, seen);
        ev_end();
    } else {
        char *r = NULL, *r2 = NULL;
        size_t n = 0, n2 = 0, given = 0;
        bool two = false;
        read_units(&us);
        if (strcmp(op, "enc") == 0) {
            /* b: how much more room than needed */
            size_t need = base64_encoding_size(ps.total);
            r = malloc(need + 1 + b);
            memset(r, 0xa5, need + 1 + b);
            given = base64_encode_buffer(x, ps.total, r, need + 1 + b,
                                         a ? '-' : -1, a ? '_' : -1);
            n = strnlen(r, need + 1 + b);
        } else if (strcmp(op, "simple") == 0) {
            r = base64_encode_simple(x, ps.total);
            given = n = r ? strlen(r) : 0;
        } else if (strcmp(op, "dec") == 0) {
            r = malloc(ps.total + 1);
            given = base64_decode_buffer(b ? (char *) x : s, b ? ps.total : -1,
                                         r, ps.total + 1, a ? '-' : -1,
                                         a ? '_' : -1, 1);
            n = given <= ps.total ? given : 0;
        } else if (strcmp(op, "dsimple") == 0) {
            n = 0;
            r = base64_decode_simple(s, &n);
            given = n;
        } else if (strcmp(op, "san") == 0) {
            r = charstr_sanitize_utf8(s);
            given = n = r ? strlen(r) : 0;
        } else if (strcmp(op, "url") == 0) {
            charstr_url_encoder_t *e =
                a ? charstr_create_url_encoder("xyz", " ") : NULL;
            r = a ? charstr_url_custom_encode(e, s) : charstr_url_encode(s);
            given = n = r ? strlen(r) : 0;
            if (a)
                charstr_destroy_url_encoder(e);
        } else if (strcmp(op, "unurl") == 0) {
            r = charstr_url_decode(s, a, b ? &n : NULL);
            if (!b)
                n = r ? strlen(r) : 0;
            given = n;
        } else if (strcmp(op, "split") == 0) {
            /* b: once for each of so many pieces, or without limit */
            size_t max = b ? times_of(&ps, b) : UINT_MAX;
            list_t *list = charstr_split(s, a, max);
            r = flat(list, &n);
            given = n;
            drop_strings(list);
            two = true;
            size_t m = max > ps.total ? ps.total + 1 : max + 1;
            char **array = malloc(m * sizeof *array);
            unsigned k = charstr_split_into_array(s, a, array, max);
            for (unsigned i = 0; i <= k && i < m; i++)
                n2 += strlen(array[i]) + 1;
            char *q = r2 = malloc(n2 ? n2 : 1);
            for (unsigned i = 0; i <= k && i < m; i++) {
                strcpy(q, array[i]);
                q += strlen(q) + 1;
                fsfree(array[i]);
            }
            free(array);
        } else if (strcmp(op, "str") == 0) {
            /* a: the delimiter, the first two bytes of that piece */
            char d[3] = { ps.at[a].p[0], ps.at[a].p[1] };
            list_t *list = charstr_split_str(s, d, b ? times_of(&ps, b)
                                                     : UINT_MAX);
            r = flat(list, &n);
            given = n;
            drop_strings(list);
        } else if (strcmp(op, "atoms") == 0) {
            list_t *list = charstr_split_atoms(s);
            r = flat(list, &n);
            given = n;
            drop_strings(list);
        } else if (strcmp(op, "strip") == 0) {
            r = charstr_strip(s);
            given = n = strlen(r);
        } else if (strcmp(op, "dup") == 0) {
            r = charstr_dupstr(s);
            given = n = strlen(r);
            two = true;
            r2 = charstr_dupsubstr((char *) x, (char *) x + ps.total);
            n2 = strlen(r2);
        } else if (strcmp(op, "sub") == 0) {
            r = charstr_dupsubstr((char *) x + length_of(&ps, a),
                                  (char *) x + length_of(&ps, b));
            given = n = strlen(r);
        } else if (strcmp(op, "lower") == 0 || strcmp(op, "upper") == 0) {
            bool up = *op == 'u';
            two = true;
            r = malloc(ps.total + 1);
            r2 = malloc(ps.total ? ps.total : 1);
            memcpy(r, s, ps.total + 1);
            memcpy(r2, s, ps.total);
            if (up) {
                charstr_ucase_str(r);
                charstr_ucase_substr(r2, r2 + ps.total);
            } else {
                charstr_lcase_str(r);
                charstr_lcase_substr(r2, r2 + ps.total);
            }
            given = n = strlen(r);
            n2 = ps.total;
        } else if (strcmp(op, "printf") == 0) {
            two = true;
            switch (a) {
                case 0:
                    r = charstr_printf("%s", s);
                    r2 = via_v("%s", s);
                    break;
                case 1:
                    r = charstr_printf("<%s|%d>", s, 7);
                    r2 = via_v("<%s|%d>", s, 7);
                    break;
                default:
                    r = charstr_printf("%.*s", (int) length_of(&ps, b), s);
                    r2 = via_v("%.*s", (int) length_of(&ps, b), s);
            }
            given = n = r ? strlen(r) : 0;
            n2 = r2 ? strlen(r2) : 0;
        } else
            bad_script(op);
        out_units("out", &ps, &us, r, n);
        out(",\"two\":%s", two ? "true" : "false");
        out_units("out2", &ps, &us, r2, n2);
        out(",\"whole\":%s", given == n ? "true" : "false");
        ev_end();
        /* which of these came from the library */
        bool own = strcmp(op, "enc") == 0 || strcmp(op, "dec") == 0 ||
            strcmp(op, "split") == 0 || strcmp(op, "str") == 0 ||
            strcmp(op, "atoms") == 0 || strcmp(op, "lower") == 0 ||
            strcmp(op, "upper") == 0;
        if (own) {
            free(r);
            free(r2);
        } else {
            fsfree(r);
            fsfree(r2);
        }
    }
    free(s);
    free(x);
    drop_pieces(&ps);
}

/* --------------------------------------------------------- integers, hashes */

static void do_int(void)
{
    char *op = tok();
    if (strcmp(op, "box") == 0) {
        unsigned long long a = unum(), b = unum();
        const integer_t *ia = as_integer((intptr_t) a);
        const integer_t *ib = as_integer((intptr_t) b);
        const unsigned_t *ua = as_unsigned(a), *ub = as_unsigned(b);
        out("{\"op\":\"box\",\"a\":");
        out_limbs(a);
        out(",\"b\":");
        out_limbs(b);
        out(",\"ia\":");
        out_limbs((unsigned long long) as_intptr(ia));
        out(",\"ua\":");
        out_limbs(as_uintptr(ua));
        out(",\"neg\":%s", as_intptr(ia) < 0 ? "true" : "false");
        out(",\"ic\":%d,\"uc\":%d,\"hi\":", sign(integer_cmp(ia, ib)),
            sign(unsigned_cmp(ua, ub)));
        out("[%d,%d],\"hu\":[%d,%d]",
            hash_integer((integer_t *) ia) == hash_integer((integer_t *) ib),
            hash_integer((integer_t *) ia) == hash_integer((integer_t *) ia),
            hash_unsigned((unsigned_t *) ua) == hash_unsigned((unsigned_t *) ub),
            hash_unsigned((unsigned_t *) ua) == hash_unsigned((unsigned_t *) ua));
        ev_end();
    } else if (strcmp(op, "hash") == 0) {
        /* the same content at different places and surroundings; then with
         * each byte changed in turn, and one byte shorter and longer */
        size_t n;
        uint8_t *p = hexbytes(&n, 0);
        int str = num();
        uint64_t h[4];
        for (int i = 0; i < 4; i++) {
            uint8_t *q = malloc(n + 16);
            memset(q, i == 1 ? 0xff : i == 2 ? 0 : 'x', n + 16);
            memcpy(q + i, p, n);
            if (str)
                q[i + n] = 0;
            h[i] = str ? hash_string((char *) q + i) : hash_blob(q + i, n);
            free(q);
        }
        out("{\"op\":\"hash\",\"str\":%s,\"d\":", str ? "true" : "false");
        out_bytes(p, n);
        out(",\"same\":%s,\"seen\":[", h[0] == h[1] && h[0] == h[2] &&
            h[0] == h[3] ? "true" : "false");
        uint8_t *q = malloc(n + 1);
        memcpy(q, p, n);
        q[n] = 0;
        for (size_t i = 0; i < n; i++) {
            bool differs = false;
            for (int k = 1; k <= 3; k++) {
                q[i] = p[i] ^ k << k;
                if (str && q[i] == 0)
                    q[i] = 0x91;
                uint64_t g = str ? hash_string((char *) q) : hash_blob(q, n);
                if (g != h[0])
                    differs = true;
            }
            q[i] = p[i];
            out("%s%d", i ? "," : "", differs);
        }
        out("],\"shorter\":%s", n == 0 ? "true" :
            (str ? (q[n - 1] = 0, hash_string((char *) q)) : hash_blob(q, n - 1))
            != h[0] ? "true" : "false");
        ev_end();
        free(p);
        free(q);
    } else
        bad_script(op);
}

/* ------------------------------------------------------------------- alloc */

static int inner_n_;
static struct {
    int who;
    void *ptr, *result;
    size_t size;
} inner_[16];
static bool refuse_;
#define LARGEST 200000
static char arena_[1 << 20];
static size_t arena_used_;

static void *mock(int who, void *ptr, size_t size)
{
    void *r = NULL;
    if (size > 0 && !refuse_ && size <= LARGEST) {
        if (arena_used_ + size + 16 > sizeof arena_)
            arena_used_ = 0;
        r = arena_ + arena_used_;
        memset(r, 0xa5, size + 8);
        arena_used_ += (size + 31) / 16 * 16;
    } else if (size == 0 && who == 2 && !ptr)
        r = arena_ + sizeof arena_ - 8; /* some allocators do this */
    if (inner_n_ < 16) {
        inner_[inner_n_].who = who;
        inner_[inner_n_].ptr = ptr;
        inner_[inner_n_].size = size;
        inner_[inner_n_].result = r;
        inner_n_++;
    }
    return r;
}

static void *mock0(void *p, size_t n) { return mock(0, p, n); }
static void *mock1(void *p, size_t n) { return mock(1, p, n); }
static void *mock2(void *p, size_t n) { return mock(2, p, n); }
static fs_realloc_t mocks_[3] = { mock0, mock1, mock2 };

static int skews_[16][2], nskews_;
static void skew(int who, int n)
{
    if (nskews_ < 16) {
        skews_[nskews_][0] = who;
        skews_[nskews_++][1] = n;
    }
}
static void counter0(int n) { skew(0, n); }
static void counter1(int n) { skew(1, n); }
static fs_reallocator_counter_t counters_[2] = { counter0, counter1 };

static int whose(fs_realloc_t f)
{
    for (int i = 0; i < 3; i++)
        if (mocks_[i] == f)
            return i;
    return -1;
}

static long place(void *p)      /* pointers as small numbers */
{
    return !p ? -1 : (char *) p >= arena_ && (char *) p <= arena_ + sizeof arena_
        ? (char *) p - arena_ : -2;
}

static void out_inner(void *r)
{
    out(",\"who\":%d,\"calls\":[", whose(fs_get_reallocator()));
    for (int i = 0; i < inner_n_; i++) {
        out("%s{\"who\":%d,\"ptr\":%ld,\"res\":%ld,\"size\":", i ? "," : "",
            inner_[i].who, place(inner_[i].ptr), place(inner_[i].result));
        out_limbs(inner_[i].size);
        out("}");
    }
    out("],\"r\":%ld", place(r));
    inner_n_ = 0;
}

static void do_alloc(void)
{
    char *op = tok();
    inner_n_ = 0;
    nskews_ = 0;
    if (strcmp(op, "set") == 0) {
        int i = num();
        fs_set_reallocator(mocks_[i]);
        out("{\"op\":\"mset\",\"i\":%d", i);
        out_inner(NULL);
        ev_end();
    } else if (strcmp(op, "cset") == 0) {
        int i = num();
        fs_set_reallocator_counter(counters_[i]);
        out("{\"op\":\"cset\",\"i\":%d,\"got\":%d", i,
            fs_get_reallocator_counter() == counters_[0] ? 0 :
            fs_get_reallocator_counter() == counters_[1] ? 1 : -1);
        ev_end();
    } else if (strcmp(op, "skew") == 0) {
        int n = num();
        fs_reallocator_skew(n);
        out("{\"op\":\"skew\",\"n\":%d,\"got\":%d,\"calls\":[", n,
            fs_get_reallocator_counter() == counters_[0] ? 0 :
            fs_get_reallocator_counter() == counters_[1] ? 1 : -1);
        for (int i = 0; i < nskews_; i++)
            out("%s[%d,%d]", i ? "," : "", skews_[i][0], skews_[i][1]);
        out("]");
        ev_end();
    } else if (strcmp(op, "alloc") == 0) {
        refuse_ = num();
        size_t n = unum();
        void *r = fsalloc(n);
        out("{\"op\":\"malloc\",\"n\":");
        out_limbs(n);
        out_inner(r);
        ev_end();
    } else if (strcmp(op, "realloc") == 0) {
        refuse_ = num();
        long at = num();
        size_t n = unum();
        void *p = at < 0 ? NULL : arena_ + at;
        void *r = fsrealloc(p, n);
        out("{\"op\":\"mrealloc\",\"at\":%ld,\"n\":", at);
        out_limbs(n);
        out_inner(r);
        ev_end();
    } else if (strcmp(op, "free") == 0) {
        long at = num();
        fsfree(at < 0 ? NULL : arena_ + at);
        out("{\"op\":\"mfree\",\"at\":%ld", at);
        out_inner(NULL);
        ev_end();
    } else if (strcmp(op, "calloc") == 0) {
        refuse_ = num();
        size_t n = unum(), m = unum();
        uint8_t *r = fscalloc(n, m);
        out("{\"op\":\"mcalloc\",\"n\":");
        out_limbs(n);
        out(",\"m\":");
        out_limbs(m);
        out(",\"d\":");
        /* the block, and the bytes just after it */
        size_t got = inner_n_ ? inner_[inner_n_ - 1].size : 0;
        out("[");
        if (r && got <= LARGEST)
            for (size_t i = 0, k, runs = 0; i < got + 8; i = k) {
                for (k = i + 1; k < got + 8 && r[k] == r[i]; k++)
                    ;
                if (runs++ < 20 || k == got + 8)
                    out("%s[%d,%zu]", i ? "," : "", r[i], k - i);
            }
        out("]");
        out_inner(r);
        ev_end();
    } else if (strcmp(op, "default") == 0) {
        /* the reallocator in place before any other is installed */
        extern fs_realloc_t default_;
        fs_set_reallocator(default_);
        bool ok = true;
        for (int i = 0; i < 200; i++) {
            size_t n = i * 37 % 301 + 1;
            uint8_t *p = fsalloc(n);
            memset(p, i, n);
            p = fsrealloc(p, n * 3);
            for (size_t k = 0; k < n; k++)
                ok = ok && p[k] == (uint8_t) i;
            memset(p, 0xee, n * 3);
            p = fsrealloc(p, n);
            ok = ok && p[0] == 0xee && p[n - 1] == 0xee;
            uint8_t *q = fscalloc(n, 3);
            for (size_t k = 0; k < 3 * n; k++)
                ok = ok && q[k] == 0;
            if (i % 2)
                fsfree(p);
            else
                ok = fsrealloc(p, 0) == NULL && ok;
            fsfree(q);
            fsfree(NULL);
        }
        ok = ok && fs_get_reallocator() == default_;
        out("{\"op\":\"mdefault\",\"ok\":%s", ok ? "true" : "false");
        ev_end();
        fs_set_reallocator(mocks_[0]);
    } else
        bad_script(op);
}
fs_realloc_t default_;

/* -------------------------------------------------------------------- main */

static void end_case(void)
{
    for (int i = 0; i < ENCODERS; i++) {
        if (encoders_[i])
            charstr_destroy_url_encoder(encoders_[i]);
        encoders_[i] = NULL;
    }
    quiet();
}

int main(int argc, char **argv)
{
    default_ = fs_get_reallocator();
    start(argc, argv);
    for (int i = 2; i < argc; i++) {
        if (strcmp(argv[i], "locale") == 0 &&
            !setlocale(LC_ALL, argv[i + 1]))
            bad_script("locale");
        if (strcmp(argv[i], "mock") == 0) {
            fs_set_reallocator(mocks_[0]);
            fs_set_reallocator_counter(counters_[0]);
        }
    }
    bool started = false;
    while (next_line()) {
        if (!more())
            continue;
        char *what = tok();
        if (strcmp(what, "case") == 0) {
            if (started)
                end_case();
            started = true;
            case_begins();
            continue;
        }
        if (!started)
            bad_script("no case");
        switch (*what) {
            case 'B': do_base64(); break;
            case 'D': do_date(); break;
            case 'F': do_float(); break;
            case 'U': do_utf8(); break;
            case 'W': do_url(); break;
            case 'S': do_string(); break;
            case 'P': do_printf(); break;
            case 'N': do_int(); break;
            case 'M': do_alloc(); break;
            case 'Z': do_long(); break;
            default: bad_script(what);
        }
    }
    if (started)
        end_case();
    fclose(logf_);
    return 0;
}
