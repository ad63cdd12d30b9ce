/* Shared by all drivers: log file, script reader, tracking reallocator. */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#include "fsalloc.h"

#ifdef VERIF_THREADS
/* Several drivers in one process, each in a thread of its own (threads.c): the
 * reallocator one of them installs serves all. */
#define OWN extern _Thread_local
extern _Thread_local FILE *script_;
void barrier_(void);
#else
#define OWN static
#define script_ stdin
#define barrier_()
#endif

static FILE *logf_;
static FILE *memf_;             /* where reallocator calls go, if anywhere */

#ifdef VERIF_WRAP
/* With -Wl,--wrap=malloc etc. every direct use of the C library's allocator by
 * the library under test ends up in __wrap_*; the driver's own use goes
 * straight to __real_*. */
#ifdef __cplusplus
extern "C" {
#endif
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
#ifdef __cplusplus
}
#endif
#define malloc __real_malloc
#define free __real_free
#endif
static long bypass_;            /* direct uses of the C library's allocator */

static bool in_event_;          /* one is being written */

static void out(const char *fmt, ...)
{
    in_event_ = true;
    va_list ap;
    va_start(ap, fmt);
    vfprintf(logf_, fmt, ap);
    va_end(ap);
}

static void ev_end(void)
{
    in_event_ = false;
    fputs("}\n", logf_);
    fflush(logf_);
}

static void case_begins(void)
{
    barrier_();
    fputs("{\"op\":\"case\"}\n", logf_);
    fflush(logf_);
    if (memf_) {
        fputs("{\"op\":\"case\"}\n", memf_);
        fflush(memf_);
    }
}

static void quiet(void)
{
    if (memf_) {
        fprintf(memf_, "{\"op\":\"quiet\",\"bypass\":%ld}\n", bypass_);
        fflush(memf_);
    }
}

static void bad_script(const char *why)
{
    fprintf(stderr, "bad script: %s\n", why);
    fflush(NULL);
    _exit(99);
}

/* ------------------------------------------------------------------ script */

static char *line_;
static size_t line_cap_;
static char *cursor_;

static bool next_line(void)
{
    ssize_t n = getline(&line_, &line_cap_, script_);
    if (n < 0)
        return false;
    while (n > 0 && (line_[n - 1] == '\n' || line_[n - 1] == '\r'))
        line_[--n] = 0;
    cursor_ = line_;
    return true;
}

static char *tok(void)
{
    while (*cursor_ == ' ')
        cursor_++;
    if (!*cursor_)
        bad_script(line_);
    char *s = cursor_;
    while (*cursor_ && *cursor_ != ' ')
        cursor_++;
    if (*cursor_)
        *cursor_++ = 0;
    return s;
}

static bool more(void)
{
    while (*cursor_ == ' ')
        cursor_++;
    return *cursor_ != 0;
}

static long num(void)
{
    return strtol(tok(), NULL, 0);
}

static unsigned long long unum(void)
{
    return strtoull(tok(), NULL, 0);
}

/* hex bytes, "-" for none; exact-size malloc so that ASAN sees overreads */
static uint8_t *hexbytes(size_t *len, size_t slack)
{
    char *s = tok();
    size_t n = strcmp(s, "-") == 0 ? 0 : strlen(s) / 2;
    uint8_t *p = (uint8_t *) malloc(n + slack ? n + slack : 1);
    for (size_t i = 0; i < n; i++) {
        unsigned x;
        sscanf(s + 2 * i, "%2x", &x);
        p[i] = x;
    }
    if (slack)
        memset(p + n, 0, slack);
    *len = n;
    return p;
}

static char *hexstr(void)
{
    size_t n;
    return (char *) hexbytes(&n, 1);
}

static void out_bytes(const void *p, size_t n)
{
    const uint8_t *q = (const uint8_t *) p;
    fputc('[', logf_);
    for (size_t i = 0; i < n; i++)
        fprintf(logf_, i ? ",%u" : "%u", q[i]);
    fputc(']', logf_);
}

static void out_cstr(const char *s)
{
    out_bytes(s, strlen(s));
}

/* ------------------------------------------- long strings, told in few words
 *
 * A long string is a sequence of pieces, each a short string repeated many
 * times.  Results are logged in the same way: the script says how long the
 * repeated units of the result are and to which piece of the input each
 * corresponds (0: to none, it occurs once); the log says what units there
 * were, how many times in a row, and how much was left over. */
#define PIECES 8
typedef struct {
    int n;
    struct {
        uint8_t *p;
        size_t len;
        long times;
    } at[PIECES];
    size_t total;
} pieces_t;

static void read_pieces(pieces_t *ps)
{
    ps->n = num();
    ps->total = 0;
    if (ps->n < 0 || ps->n > PIECES)
        bad_script("pieces");
    for (int i = 0; i < ps->n; i++) {
        ps->at[i].p = hexbytes(&ps->at[i].len, 0);
        ps->at[i].times = num();
        ps->total += ps->at[i].len * ps->at[i].times;
    }
}

static uint8_t *join_pieces(const pieces_t *ps, size_t slack)
{
    size_t n = ps->total + slack;
    uint8_t *r = (uint8_t *) malloc(n ? n : 1), *q = r;
    for (int i = 0; i < ps->n; i++)
        for (long k = 0; k < ps->at[i].times; k++) {
            memcpy(q, ps->at[i].p, ps->at[i].len);
            q += ps->at[i].len;
        }
    memset(q, 0, slack);
    return r;
}

/* how long the first j pieces are, and how many */
static size_t length_of(const pieces_t *ps, int j)
{
    size_t n = 0;
    for (int i = 0; i < j; i++)
        n += ps->at[i].len * ps->at[i].times;
    return n;
}

static size_t times_of(const pieces_t *ps, int j)
{
    size_t n = 0;
    for (int i = 0; i < j; i++)
        n += ps->at[i].times;
    return n;
}

static void out_pieces(const char *name, const pieces_t *ps)
{
    out(",\"%s\":[", name);
    for (int i = 0; i < ps->n; i++) {
        out(i ? ",[" : "[");
        out_bytes(ps->at[i].p, ps->at[i].len);
        out(",%ld]", ps->at[i].times);
    }
    out("]");
}

static void drop_pieces(pieces_t *ps)
{
    for (int i = 0; i < ps->n; i++)
        free(ps->at[i].p);
}

typedef struct {
    int n, len[PIECES], of[PIECES];
} units_t;

static void read_units(units_t *us)
{
    us->n = num();
    if (us->n < 0 || us->n > PIECES)
        bad_script("units");
    for (int i = 0; i < us->n; i++) {
        us->len[i] = num();
        us->of[i] = num();
    }
}

static void out_units(const char *name, const pieces_t *ps, const units_t *us,
                      const void *result, size_t n)
{
    const uint8_t *r = (const uint8_t *) result;
    if (!r)
        n = 0;
    out(",\"%s\":{\"ok\":%s,\"u\":[", name, r ? "true" : "false");
    for (int i = 0; i < us->n; i++) {
        size_t len = us->len[i];
        const uint8_t *u = r;
        long times = us->of[i] ? ps->at[us->of[i] - 1].times : 1, seen = 0;
        if (len > n)
            len = n;
        while (seen < times && len > 0 && n >= len && memcmp(u, r, len) == 0) {
            r += len;
            n -= len;
            seen++;
        }
        out(i ? ",[" : "[");
        out_bytes(u, len);
        out(",%ld,%d]", seen, us->of[i]);
    }
    out("],\"left\":%zu}", n);
}

/* ------------------------------------------------------------- reallocator */

#define NBUCKETS 65536
typedef struct blk {
    struct blk *next;
    void *ptr;
    size_t size;
    long id;
} blk_t;
OWN blk_t *blocks_[NBUCKETS];
OWN long blocks_live_;
OWN long blocks_total_;
OWN long realloc_calls_;

static blk_t **blk_find(void *p)
{
    uintptr_t h = ((uintptr_t) p >> 4) * 2654435761u;
    blk_t **q = &blocks_[(h >> 8) % NBUCKETS];
    while (*q && (*q)->ptr != p)
        q = &(*q)->next;
    return q;
}

static void log_mem(long from, long to, bool release)
{
    if (memf_) {
        fprintf(memf_, "{\"op\":\"mem\",\"from\":%ld,\"to\":%ld,"
                "\"release\":%s}\n", from, to, release ? "true" : "false");
        fflush(memf_);
    }
}

/* Always moves, so that stale pointers are noticed; fresh memory is filled
 * with garbage, so that nobody relies on it being zero. */
static void *tracking_realloc(void *ptr, size_t size)
{
    realloc_calls_++;
    blk_t **q = NULL;
    long from = 0;
    if (ptr) {
        q = blk_find(ptr);
        if (!*q) {
            log_mem(-1, 0, size == 0);
            fprintf(stderr, "resize or release of a block that is not live\n");
            fflush(NULL);
            abort();
        }
        from = (*q)->id;
    }
    if (size == 0) {
        if (ptr) {
            blk_t *b = *q;
            *q = b->next;
            free(b);
            free(ptr);
            blocks_live_--;
        }
        log_mem(from, 0, true);
        return NULL;
    }
    void *fresh = malloc(size);
    if (!fresh) {
        log_mem(0, 0, false);
        return NULL;
    }
    memset(fresh, 0xa5, size < 1 << 21 ? size : 1 << 21);
    if (ptr) {
        q = blk_find(ptr);
        blk_t *b = *q;
        memcpy(fresh, ptr, b->size < size ? b->size : size);
        *q = b->next;
        free(b);
        free(ptr);
        blocks_live_--;
    }
    blk_t *b = (blk_t *) malloc(sizeof *b);
    b->ptr = fresh;
    b->size = size;
    q = blk_find(fresh);
    b->next = *q;
    *q = b;
    blocks_live_++;
    b->id = ++blocks_total_;
    log_mem(from, b->id, false);
    return fresh;
}

#ifdef VERIF_WRAP
#ifdef __cplusplus
extern "C" {
#endif
void *__wrap_malloc(size_t n)
{
    bypass_++;
    return __real_malloc(n);
}
void __wrap_free(void *p)
{
    bypass_++;
    __real_free(p);
}
void *__wrap_realloc(void *p, size_t n)
{
    bypass_++;
    return __real_realloc(p, n);
}
void *__wrap_calloc(size_t n, size_t m)
{
    bypass_++;
    return __real_calloc(n, m);
}
char *__wrap_strdup(const char *s)
{
    bypass_++;
    return strcpy((char *) __real_malloc(strlen(s) + 1), s);
}
char *__wrap_strndup(const char *s, size_t n)
{
    bypass_++;
    n = strnlen(s, n);
    char *p = (char *) __real_malloc(n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
int __real_vasprintf(char **p, const char *f, va_list ap);
int __wrap_vasprintf(char **p, const char *f, va_list ap)
{
    bypass_++;
    return __real_vasprintf(p, f, ap);
}
void *__wrap_aligned_alloc(size_t a, size_t n)
{
    bypass_++;
    return __real_malloc(n);
}
int __wrap_posix_memalign(void **p, size_t a, size_t n)
{
    bypass_++;
    *p = __real_malloc(n);
    return *p ? 0 : ENOMEM;
}
void *__wrap_reallocarray(void *p, size_t n, size_t m)
{
    bypass_++;
    return __real_realloc(p, n * m);
}
#ifdef __cplusplus
}
#endif
#endif

static void start(int argc, char **argv)
{
    if (argc < 2)
        bad_script("usage");
    logf_ = fopen(argv[1], "w");
    if (!logf_)
        bad_script("log file");
    if (argc > 2 && strcmp(argv[2], "mem") == 0) {
        memf_ = logf_;
        logf_ = fopen("/dev/null", "w");
        setvbuf(memf_, NULL, _IOFBF, 1 << 20);
    }
    setvbuf(logf_, NULL, _IOFBF, 1 << 20);
    fs_set_reallocator(tracking_realloc);
}
#endif
