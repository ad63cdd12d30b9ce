/* Unicode properties, normalization and IDNA. */
#include "common.h"
#include "charstr.h"

static const char *errname(int e)
{
    switch (e) {
        case 0: return "0";
        case EILSEQ: return "EILSEQ";
        case EOVERFLOW: return "EOVERFLOW";
        default: return "other";
    }
}

static int category(int c) { return charstr_unicode_category(c); }

static int mask(int c)
{
    return charstr_idna_status_is_valid(c) |
        charstr_idna_status_is_mapped(c) << 1 |
        charstr_idna_status_is_ignored(c) << 2 |
        charstr_idna_status_is_deviation(c) << 3 |
        charstr_idna_status_is_disallowed(c) << 4 |
        charstr_idna_status_is_disallowed_STD3_valid(c) << 5 |
        charstr_idna_status_is_disallowed_STD3_mapped(c) << 6;
}

/* a page asked about in between, whose answers are not looked at, or -1 */
static int between_;

static int ask(int (*f)(int), int c)
{
    if (between_ >= 0)
        (void) f(between_ * 256 + c % 256);
    return f(c);
}

static const char *ask_text(const char *(*f)(int), int c)
{
    if (between_ >= 0)
        (void) f(between_ * 256 + c % 256);
    return f(c);
}

static void runs(const char *name, int page, int (*f)(int))
{
    int c = page * 256, end = c + 256;
    out(",\"%s\":[", name);
    while (c < end) {
        int v = ask(f, c), d = c + 1;
        while (d < end && ask(f, d) == v)
            d++;
        out("%s[%d,%d,%d]", c == page * 256 ? "" : ",", c, d - 1, v);
        c = d;
    }
    out("]");
}

static void changes(const char *name, int page, int (*f)(int))
{
    bool any = false;
    out(",\"%s\":[", name);
    for (int c = page * 256; c < page * 256 + 256; c++)
        if (ask(f, c) != c) {
            out("%s[%d,%d]", any ? "," : "", c, ask(f, c));
            any = true;
        }
    out("]");
}

static void do_table(void)
{
    char *op = tok();
    int p = num();
    between_ = num();
    if (strcmp(op, "ucd") == 0) {
        out("{\"op\":\"ucd\",\"p\":%d", p);
        runs("cat", p, category);
        runs("ccc", p, charstr_unicode_canonical_combining_class);
        runs("flags", p, charstr_allowed_unicode_normal_forms);
        changes("lower", p, charstr_naive_lcase_unicode);
        changes("upper", p, charstr_naive_ucase_unicode);
        ev_end();
    } else {
        out("{\"op\":\"idnatab\",\"p\":%d", p);
        runs("mask", p, mask);
        out(",\"name\":[");
        int c = p * 256, end = c + 256;
        while (c < end) {
            const char *v = ask_text(charstr_idna_status, c);
            int d = c + 1;
            while (d < end && strcmp(ask_text(charstr_idna_status, d), v) == 0)
                d++;
            out("%s[%d,%d,\"%s\"]", c == p * 256 ? "" : ",", c, d - 1, v);
            c = d;
        }
        out("],\"maps\":[");
        bool any = false;
        for (c = p * 256; c < end; c++) {
            const char *m = ask_text(charstr_idna_mapping, c);
            if (m && *m) {
                out("%s[%d,", any ? "," : "", c);
                out_cstr(m);
                out("]");
                any = true;
            }
        }
        out("]");
        ev_end();
    }
}

static void convert(const char *name,
                    char *(*f)(const char *, const char *, char *, const char *))
{
    size_t n;
    uint8_t *p = hexbytes(&n, 0);
    int bounded = num();
    size_t size = unum();
    char *s = (char *) p;
    const char *end = (char *) p + n;
    if (!bounded) {
        s = (char *) malloc(n + 1);
        memcpy(s, p, n);
        s[n] = 0;
        end = NULL;
    }
    char *buf = (char *) malloc(size ? size : 1);
    memset(buf, 0xa5, size ? size : 1);
    errno = 0;
    char *r = f(s, end, size ? buf : buf + 1, size ? buf + size : buf + 1);
    int e = errno;
    if (!size && r)             /* nothing there to be written or shown */
        buf[0] = 0;
    out("{\"op\":\"%s\",\"size\":%zu,\"ok\":%s,\"err\":\"%s\",\"n\":%ld,"
        "\"d\":", name, size, r ? "true" : "false", r ? "0" : errname(e),
        r ? (long) (r - (size ? buf : buf + 1)) : -1L);
    out_bytes(p, n);
    out(",\"r\":");
    if (r && size && r >= buf && r < buf + size)
        out_bytes(buf, r - buf + 1);
    else
        out("[]");
    ev_end();
    if (s != (char *) p)
        free(s);
    free(p);
    free(buf);
}

static const int flags_[4][2] = {
    { UNICODE_NFC_DISALLOWED, UNICODE_NFC_MAYBE },
    { UNICODE_NFD_DISALLOWED, UNICODE_NFD_MAYBE },
    { UNICODE_NFKC_DISALLOWED, UNICODE_NFKC_MAYBE },
    { UNICODE_NFKD_DISALLOWED, UNICODE_NFKD_MAYBE },
};

/* long strings: name, room for the result, bounded */
static void do_long(void)
{
    char *op = tok();
    size_t size = unum();
    int bounded = num();
    pieces_t ps;
    read_pieces(&ps);
    char *s = (char *) join_pieces(&ps, !bounded);
    const char *end = bounded ? s + ps.total : NULL;
    out("{\"op\":\"long\",\"f\":\"%s\"", op);
    out_pieces("in", &ps);
    if (strcmp(op, "detect") == 0) {
        out(",\"r\":[");
        for (int i = 0; i < 4; i++)
            out("%s%d", i ? "," : "",
                charstr_detect_unicode_normal_form(s, end, flags_[i][0],
                                                   flags_[i][1]));
        out("],\"c\":%s,\"dc\":%s",
            charstr_unicode_canonically_composed(s, end) ? "true" : "false",
            charstr_unicode_canonically_decomposed(s, end) ? "true" : "false");
    } else {
        units_t us;
        read_units(&us);
        char *r = (char *) malloc(size);
        memset(r, 0xa5, size);
        errno = 0;
        char *q = *op == 'd' ? charstr_unicode_decompose(s, end, r, r + size)
            : charstr_unicode_recompose(s, end, r, r + size);
        int e = errno;
        size_t n = q ? q - r : 0;
        out_units("out", &ps, &us, q ? r : NULL, n);
        out(",\"two\":false,\"whole\":%s,\"err\":\"%s\"",
            q && n < size && *q == 0 ? "true" : "false", errname(e));
        free(r);
    }
    ev_end();
    free(s);
    drop_pieces(&ps);
}

static void do_text(void)
{
    char *op = tok();
    if (strcmp(op, "nfd") == 0)
        convert("nfd", charstr_unicode_decompose);
    else if (strcmp(op, "nfc") == 0)
        convert("nfc", charstr_unicode_recompose);
    else if (strcmp(op, "detect") == 0) {
        size_t n;
        uint8_t *p = hexbytes(&n, 0);
        int bounded = num();
        char *s = (char *) p;
        const char *end = (char *) p + n;
        if (!bounded) {
            s = (char *) malloc(n + 1);
            memcpy(s, p, n);
            s[n] = 0;
            end = NULL;
        }
        int r[4], e[4];
        for (int i = 0; i < 4; i++) {
            errno = 0;
            r[i] = charstr_detect_unicode_normal_form(s, end, flags_[i][0],
                                                      flags_[i][1]);
            e[i] = errno;
        }
        out("{\"op\":\"detect\",\"r\":[%d,%d,%d,%d],"
            "\"errs\":[\"%s\",\"%s\",\"%s\",\"%s\"],\"c\":%s,\"dc\":%s,\"d\":",
            r[0], r[1], r[2], r[3], errname(e[0]), errname(e[1]),
            errname(e[2]), errname(e[3]),
            charstr_unicode_canonically_composed(s, end) ? "true" : "false",
            charstr_unicode_canonically_decomposed(s, end) ? "true" : "false");
        out_bytes(p, n);
        ev_end();
        if (s != (char *) p)
            free(s);
        free(p);
    } else if (strcmp(op, "idna") == 0) {
        char *s = hexstr();
        char *r = charstr_idna_encode(s);
        out("{\"op\":\"idna\",\"d\":");
        out_cstr(s);
        out(",\"r\":");
        if (r) {
            out("[");
            out_cstr(r);
            out("]");
        } else
            out("[]");
        ev_end();
        fsfree(r);
        free(s);
    } else
        bad_script(op);
}

int main(int argc, char **argv)
{
    start(argc, argv);
    bool started = false;
    while (next_line()) {
        if (!more())
            continue;
        char *what = tok();
        if (strcmp(what, "case") == 0) {
            if (started)
                quiet();
            started = true;
            case_begins();
            continue;
        }
        if (!started)
            bad_script("no case");
        switch (*what) {
            case 'T': do_table(); break;
            case 'X': do_text(); break;
            case 'Z': do_long(); break;
            default: bad_script(what);
        }
    }
    if (started)
        quiet();
    fclose(logf_);
    return 0;
}
