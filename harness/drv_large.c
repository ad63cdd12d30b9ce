/* Containers with very many members; the log is in bulk operations. */
#include "common.h"
#include "avltree.h"
#include "bytearray.h"
#include "hashtable.h"
#include "integer.h"
#include "intset.h"
#include "list.h"
#include "priority_queue.h"

static avl_tree_t *tree_;
static hash_table_t *table_;
static list_t *list_;
static priorq_t *queue_;
static intset_t *set_;
static byte_array_t *array_;
static long owners_, base_;

static const void *value_of(long k)
{
    return as_integer(2 * k + 3);
}

static long key_of(const void *value)
{
    return value ? (as_intptr(value) - 3) / 2 : -1;
}

static uint64_t spread(const void *key)
{
    return (uint64_t) as_intptr(key) * 0x9e3779b97f4a7c15ull;
}

static uint64_t clumped(const void *key)
{
    return ((uint64_t) as_intptr(key) / 64) << 40 | 7;
}

static void yes(const char *name, bool b)
{
    out(",\"%s\":%s", name, b ? "true" : "false");
}

static int n_;
static void item(long x)
{
    out(n_++ ? ",%ld" : "%ld", x);
}
#define LIMIT 400000

/* where each number came, as a witness that none came twice */
static int at_[LIMIT];
static long universe_;
static void clear(long universe)
{
    n_ = 0;
    universe_ = universe;
    if (universe > LIMIT)
        bad_script("universe");
    memset(at_, 0, universe * sizeof at_[0]);
}
static void came(long x)
{
    item(x);
    if (x >= 0 && x < universe_)
        at_[x] = n_;
}
static void out_at(void)
{
    out(",\"at\":[");
    for (long i = 0; i < universe_; i++)
        out(i ? ",%d" : "%d", at_[i]);
    out("]");
}
static long keys_;              /* keys are less than this */

/* ------------------------------------------------------------------- maps */

static void do_map(void)
{
    char *op = tok();
    if (strcmp(op, "tree") == 0) {
        tree_ = make_avl_tree(integer_cmp);
        keys_ = num();
        out("{\"op\":\"mnew\",\"keys\":%ld", keys_);
        ev_end();
    } else if (strcmp(op, "hash") == 0) {
        size_t capacity = unum();
        table_ = make_hash_table(capacity, num() ? clumped : spread,
                                 integer_cmp);
        keys_ = num();
        out("{\"op\":\"mnew\",\"keys\":%ld", keys_);
        ev_end();
    } else if (strcmp(op, "load") == 0 || strcmp(op, "drop") == 0) {
        bool load = *op == 'l';
        long a = num(), n = num(), s = num(), count = 0, wrong = 0;
        for (long i = 0; i < n; i++) {
            long k = a + i * s;
            const void *key = as_integer(k);
            if (tree_) {
                avl_elem_t *e = load ? avl_tree_put(tree_, key, value_of(k))
                    : avl_tree_pop(tree_, key);
                if (e) {
                    count++;
                    wrong += key_of(avl_elem_get_value(e)) != k;
                    destroy_avl_element(e);
                }
            } else {
                hash_elem_t *e = load ? hash_table_put(table_, key, value_of(k))
                    : hash_table_pop(table_, key);
                if (e) {
                    count++;
                    wrong += key_of(hash_elem_get_value(e)) != k;
                    destroy_hash_element(e);
                }
            }
        }
        out("{\"op\":\"m%s\",\"a\":%ld,\"n\":%ld,\"s\":%ld,\"count\":%ld,"
            "\"wrong\":%ld", op, a, n, s, count, wrong);
        ev_end();
    } else if (strcmp(op, "any") == 0) {
        long n = num();
        clear(keys_);
        out("{\"op\":\"many\",\"n\":%ld,\"r\":[", n);
        for (long i = 0; i < n; i++) {
            if (tree_) {
                avl_elem_t *e = avl_tree_pop_first(tree_);
                came(e ? key_of(avl_elem_get_value(e)) : -1);
                if (e)
                    destroy_avl_element(e);
            } else {
                hash_elem_t *e = hash_table_pop_any(table_);
                came(e ? key_of(hash_elem_get_value(e)) : -1);
                if (e)
                    destroy_hash_element(e);
            }
        }
        out("]");
        out_at();
        yes("first", tree_);
        ev_end();
    } else if (strcmp(op, "obs") == 0) {
        /* size, traversal, and some lookups */
        out("{\"op\":\"mobs\",\"n\":%zu",
            tree_ ? avl_tree_size(tree_) : hash_table_size(table_));
        yes("e", tree_ ? avl_tree_empty(tree_) : hash_table_empty(table_));
        yes("sorted", tree_);
        out(",\"w\":[");
        clear(keys_);
        if (tree_)
            for (avl_elem_t *e = avl_tree_get_first(tree_); e && n_ < LIMIT;
                 e = avl_tree_next(e))
                came(as_intptr(avl_elem_get_key(e)));
        else
            for (hash_elem_t *e = hash_table_get_any(table_); e && n_ < LIMIT;
                 e = hash_table_get_other(e))
                came(as_intptr(hash_elem_get_key(e)));
        out("]");
        out_at();
        out(",\"g\":[");
        long a = num(), n = num(), s = num();
        for (long i = 0; i < n; i++) {
            const void *key = as_integer(a + i * s);
            const void *v = NULL;
            if (tree_) {
                avl_elem_t *e = avl_tree_get(tree_, key);
                if (e)
                    v = avl_elem_get_value(e);
            } else {
                hash_elem_t *e = hash_table_get(table_, key);
                if (e)
                    v = hash_elem_get_value(e);
            }
            out("%s[%ld,%ld]", i ? "," : "", a + i * s, key_of(v));
        }
        out("]");
        ev_end();
    } else
        bad_script(op);
}

/* ------------------------------------------------------------------- list */

static void each(const void *value, void *arg)
{
    if (n_ < LIMIT)
        item(key_of(value));
}

static void do_list(void)
{
    char *op = tok();
    if (strcmp(op, "new") == 0) {
        list_ = make_list();
        out("{\"op\":\"lnew\"");
        ev_end();
    } else if (strcmp(op, "app") == 0 || strcmp(op, "pre") == 0) {
        long a = num(), n = num();
        for (long i = 0; i < n; i++)
            if (*op == 'a')
                list_append(list_, value_of(a + i));
            else list_prepend(list_, value_of(a + i));
        out("{\"op\":\"l%s\",\"a\":%ld,\"n\":%ld", op, a, n);
        ev_end();
    } else if (strcmp(op, "popf") == 0 || strcmp(op, "popl") == 0) {
        long n = num();
        out("{\"op\":\"l%s\",\"n\":%ld,\"r\":[", op, n);
        n_ = 0;
        for (long i = 0; i < n; i++)
            item(key_of(op[3] == 'f' ? list_pop_first(list_)
                        : list_pop_last(list_)));
        out("]");
        ev_end();
    } else if (strcmp(op, "copy") == 0) {
        list_t *copy = list_copy(list_);
        destroy_list(list_);
        list_ = copy;
        out("{\"op\":\"lcopy\"");
        ev_end();
    } else if (strcmp(op, "obs") == 0) {
        out("{\"op\":\"lobs\",\"n\":%zu", list_size(list_));
        yes("e", list_empty(list_));
        out(",\"f\":[");
        n_ = 0;
        for (list_elem_t *e = list_get_first(list_); e && n_ < LIMIT;
             e = list_next(e))
            item(key_of(list_elem_get_value(e)));
        out("],\"b\":[");
        n_ = 0;
        for (list_elem_t *e = list_get_last(list_); e && n_ < LIMIT;
             e = list_previous(e))
            item(key_of(list_elem_get_value(e)));
        out("],\"each\":[");
        n_ = 0;
        list_foreach(list_, each, NULL);
        out("],\"x\":[");
        bool first = true;
        while (more()) {
            long i = num();
            list_elem_t *e = list_get_by_index(list_, i);
            out("%s[%ld,%ld]", first ? "" : ",", i,
                e ? key_of(list_elem_get_value(e)) : -1);
            first = false;
        }
        out("]");
        ev_end();
    } else
        bad_script(op);
}

/* ------------------------------------------------------------------ queue */

typedef struct {
    long prio;
    void *loc;
} qitem_t;
#define QITEMS 300000
static qitem_t qitems_[QITEMS];
static long nq_;

static int qcmp(const void *a, const void *b)
{
    long x = ((const qitem_t *) a)->prio, y = ((const qitem_t *) b)->prio;
    return x < y ? -1 : x > y;
}

static void qreloc(const void *p, void *loc)
{
    ((qitem_t *) p)->loc = loc;
}

static long qid(const void *p)
{
    return p ? (const qitem_t *) p - qitems_ : -1;
}

static void do_queue(void)
{
    char *op = tok();
    if (strcmp(op, "new") == 0) {
        queue_ = make_priority_queue(qcmp, qreloc);
        nq_ = 0;
        out("{\"op\":\"qnew\"");
        ev_end();
    } else if (strcmp(op, "load") == 0) {
        /* new items with priorities i * mult % mod */
        long n = num(), mult = num(), mod = num();
        long a = nq_;
        for (long i = 0; i < n; i++) {
            if (nq_ >= QITEMS)
                bad_script("too many items");
            qitems_[nq_].prio = nq_ % mod * mult % mod;
            priorq_enqueue(queue_, &qitems_[nq_++]);
        }
        out("{\"op\":\"qload\",\"a\":%ld,\"p\":[", a);
        n_ = 0;
        for (long i = a; i < nq_; i++)
            item(qitems_[i].prio);
        out("]");
        ev_end();
    } else if (strcmp(op, "take") == 0) {
        long n = num();
        bool agree = true;
        out("{\"op\":\"qtake\",\"n\":%ld,\"r\":[", n);
        clear(nq_);
        for (long i = 0; i < n; i++) {
            const void *p = priorq_peek(queue_);
            const void *q = priorq_dequeue(queue_);
            agree = agree && p == q;
            came(qid(q));
        }
        out("]");
        out_at();
        yes("agree", agree);
        ev_end();
    } else if (strcmp(op, "rem") == 0) {
        /* by locator; all of them must be queued */
        long a = num(), n = num(), s = num();
        out("{\"op\":\"qrem\",\"a\":%ld,\"n\":%ld,\"s\":%ld,\"r\":[", a, n, s);
        n_ = 0;
        for (long i = 0; i < n; i++)
            item(qid(priorq_remove(queue_, qitems_[a + i * s].loc)));
        out("]");
        ev_end();
    } else if (strcmp(op, "size") == 0) {
        out("{\"op\":\"qsize\",\"n\":%zu", priorq_size(queue_));
        yes("e", priorq_empty(queue_));
        ev_end();
    } else
        bad_script(op);
}

/* ----------------------------------------------------------------- intset */

static void do_intset(void)
{
    char *op = tok();
    if (strcmp(op, "new") == 0) {
        size_t cap = unum();
        set_ = make_intset(cap);
        out("{\"op\":\"inew\",\"cap\":%zu", cap);
        ev_end();
    } else if (strcmp(op, "add") == 0 || strcmp(op, "rem") == 0) {
        long a = num(), n = num(), s = num();
        for (long i = 0; i < n; i++)
            if (*op == 'a')
                intset_add(set_, a + i * s);
            else intset_remove(set_, a + i * s);
        out("{\"op\":\"i%s\",\"a\":%ld,\"n\":%ld,\"s\":%ld", op, a, n, s);
        ev_end();
    } else if (strcmp(op, "obs") == 0) {
        out("{\"op\":\"iobs\"");
        yes("e", intset_empty(set_));
        out(",\"x\":[");
        bool first = true;
        while (more()) {
            long i = num();
            out("%s[%ld,%d,%d,%d]", first ? "" : ",", i,
                intset_has(set_, i) ? 1 : 0, intset_find_next_hit(set_, i),
                intset_find_next_miss(set_, i));
            first = false;
        }
        out("]");
        ev_end();
    } else
        bad_script(op);
}

/* ------------------------------------------------------------- byte array */

/* the byte at each place is always the same */
static void pattern(uint8_t *p, size_t at, size_t n)
{
    for (size_t i = 0; i < n; i++)
        p[i] = (at + i) % 251;
}

static size_t reader_at_;
static ssize_t reader(void *obj, void *buf, size_t count)
{
    pattern(buf, reader_at_, count);
    return count;
}

static void do_bytes(void)
{
    char *op = tok();
    if (strcmp(op, "new") == 0) {
        size_t max = unum();
        base_ = blocks_live_;
        array_ = make_byte_array(max);
        owners_ = 1;
        out("{\"op\":\"bnew\",\"max\":%zu", max);
        ev_end();
    } else if (strcmp(op, "app") == 0 || strcmp(op, "cop") == 0) {
        size_t pos = *op == 'c' ? unum() : byte_array_size(array_);
        size_t n = unum();
        uint8_t *p = malloc(n ? n : 1);
        pattern(p, pos, n);
        bool r = *op == 'a' ? byte_array_append(array_, p, n)
            : byte_array_copy(array_, pos, p, n);
        free(p);
        out("{\"op\":\"b%s\",\"pos\":%zu,\"n\":%zu", op, pos, n);
        yes("r", r);
        ev_end();
    } else if (strcmp(op, "str") == 0) {
        size_t n = unum();
        reader_at_ = byte_array_size(array_);
        ssize_t r = byte_array_append_stream(array_, reader, NULL, n);
        out("{\"op\":\"bstr\",\"n\":%zu,\"r\":%zd", n, r);
        ev_end();
    } else if (strcmp(op, "cut") == 0) {
        size_t n = unum();
        bool r = byte_array_resize(array_, n, 0);
        out("{\"op\":\"bcut\",\"n\":%zu", n);
        yes("r", r);
        ev_end();
    } else if (strcmp(op, "share") == 0) {
        long n = num();
        bool same = true;
        for (long i = 0; i < n; i++)
            same = same && share_byte_array(array_) == array_;
        owners_ += n;
        out("{\"op\":\"bshare\",\"n\":%ld", n);
        yes("same", same);
        ev_end();
    } else if (strcmp(op, "del") == 0) {
        long n = num(), live = blocks_live_, done = 0;
        /* stop as soon as memory is released */
        while (done < n && done < owners_) {
            destroy_byte_array(array_);
            done++;
            if (blocks_live_ < live)
                break;
        }
        owners_ -= done;
        out("{\"op\":\"bdel\",\"n\":%ld", done);
        yes("gone", blocks_live_ < live);
        out(",\"left\":%ld", blocks_live_ - base_);
        ev_end();
        if (blocks_live_ < live)
            array_ = NULL;
    } else if (strcmp(op, "obs") == 0) {
        size_t n = byte_array_size(array_);
        const uint8_t *p = byte_array_data(array_);
        out("{\"op\":\"bobs\",\"n\":%zu,\"nul\":%d,\"x\":[", n, p[n]);
        bool first = true;
        for (size_t i = 0; i < n; i += i < 1000 ? 1 : 97) {
            out("%s[%zu,%d]", first ? "" : ",", i, p[i]);
            first = false;
        }
        for (size_t k = 1024; k <= n; k *= 2)
            for (size_t i = k - 2; i < k + 2 && i < n; i++)
                out(",[%zu,%d]", i, p[i]);
        if (n)
            out(",[%zu,%d]", n - 1, p[n - 1]);
        out("]");
        ev_end();
    } else
        bad_script(op);
}

static void end_case(void)
{
    if (tree_)
        destroy_avl_tree(tree_);
    tree_ = NULL;
    if (table_)
        destroy_hash_table(table_);
    table_ = NULL;
    if (list_)
        destroy_list(list_);
    list_ = NULL;
    if (queue_)
        destroy_priority_queue(queue_);
    queue_ = NULL;
    if (set_)
        destroy_intset(set_);
    set_ = NULL;
    while (array_ && owners_-- > 0)
        destroy_byte_array(array_);
    array_ = NULL;
    quiet();
}

int main(int argc, char **argv)
{
    start(argc, argv);
    bool started = false;
    while (next_line()) {
        if (!more())
            continue;
        char *what = tok();
        if (strcmp(what, "case") == 0) {
            if (started)
                end_case();
            started = true;
            case_begins();
            continue;
        }
        if (!started)
            bad_script("no case");
        switch (*what) {
            case 'M': do_map(); break;
            case 'L': do_list(); break;
            case 'Q': do_queue(); break;
            case 'I': do_intset(); break;
            case 'B': do_bytes(); break;
            default: bad_script(what);
        }
    }
    if (started)
        end_case();
    fclose(logf_);
    return 0;
}
