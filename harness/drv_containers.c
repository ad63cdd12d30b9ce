/* Drives the containers of fsdyn from a script and logs what the public API
 * shows.  First word of a line selects the container. */
#include "common.h"
#include "avltree.h"
#include "bytearray.h"
#include "hashtable.h"
#include "integer.h"
#include "intset.h"
#include "list.h"
#include "priority_queue.h"

#define TRAVERSE_MAX 100000

/* ------------------------------------------------------------ keys, values */

typedef struct {
    int ord, kid;
    uint64_t hash;
} vkey_t;

#define MAXKEYS 2000000
static vkey_t **keys_;
static int nkeys_;
static int vals_[1 << 16];

static const void *val(long v)
{
    return v == 0 ? NULL : &vals_[v];
}

static long val_id(const void *p)
{
    if (p == NULL)
        return 0;
    const int *q = p;
    if (q > vals_ && q < vals_ + (sizeof vals_ / sizeof *vals_))
        return q - vals_;
    return -1;
}

static int key_mode_;           /* 4: integer keys */
static int hash_mode_;

static uint64_t hash_of(int ord)
{
    switch (hash_mode_) {
        case 0: return 0;
        case 1: return ord % 2;
        case 2: return ord;
        case 3: return (uint64_t) ord << 32;
        case 4: return UINT64_MAX - ord;
        case 5: return (uint64_t) ord * 0x9E3779B97F4A7C15ull;
        case 6: return (uint64_t) ord * 53;
        case 7: return ord % 3 + 50;
        case 8: return UINT64_MAX;
        case 9: return 52 - ord % 53;
        default: return (uint64_t) ord * 97 + (ord % 2);
    }
}

static const void *new_key(int ord)
{
    if (key_mode_ == 4)
        return as_integer(ord);
    vkey_t *k = malloc(sizeof *k);
    k->ord = ord;
    k->kid = nkeys_ + 1;
    k->hash = hash_of(ord);
    if (nkeys_ >= MAXKEYS)
        bad_script("too many keys");
    keys_[nkeys_++] = k;
    return k;
}

static int key_ord(const void *p)
{
    if (key_mode_ == 4)
        return as_intptr(p);
    return ((const vkey_t *) p)->ord;
}

static int key_kid(const void *p)
{
    if (key_mode_ == 4)
        return as_intptr(p) + 1;
    return ((const vkey_t *) p)->kid;
}

static vkey_t probe_;

static const void *probe(int ord)
{
    if (key_mode_ == 4)
        return as_integer(ord);
    probe_.ord = ord;
    probe_.kid = 0;
    probe_.hash = hash_of(ord);
    return &probe_;
}

/* --------------------------------------------------------------------- AVL */

static int ctx_object_;
static bool ctx_bad_;
static bool path_on_;
static int path_[4096], path_len_;
static long cmp_calls_;
static int cmp_flavor_;

/* What a comparison of the user's may well do: use containers of its own. */

#define OWN 11
static struct {
    bool open, inside, wrong;
    unsigned n;
    bool in[OWN];
    int count, item[OWN], other[OWN];
    const int *at[OWN];         /* the value in the tree and the table */
    avl_tree_t *tree;
    hash_table_t *table;
    list_t *list;
    intset_t *set;
    priorq_t *queue;
    byte_array_t *bytes;
} own_;

static int own_cmp(const void *a, const void *b, void *obj)
{
    if (obj != &own_)
        own_.wrong = true;
    return *(const int *) a - *(const int *) b;
}

static void own_reloc(const void *value, void *loc, void *obj)
{
    if (obj != &own_ || (intptr_t) loc < 0 || (intptr_t) loc > 10)
        own_.wrong = true;
}

static ssize_t own_read(void *obj, void *buf, size_t count)
{
    if (obj != &own_ || count != 2)
        own_.wrong = true;
    memset(buf, 'a' + own_.n % 26, 2);
    return 2;
}

static void called_back(void);

static void use_own_containers(void)
{
    if (own_.inside || (memf_ && own_.open && own_.n > 150))
        return;                 /* where blocks are counted, not too many */
    long live = blocks_live_;
    own_.inside = true;
    if (!own_.open) {
        memset(&own_, 0, sizeof own_);
        own_.open = own_.inside = true;
        own_.tree = make_avl_tree(integer_cmp);
        own_.table = make_hash_table(7, (void *) hash_integer, integer_cmp);
        own_.list = make_list();
        own_.set = make_intset(OWN);
        own_.queue = make_priority_queue_2(own_cmp, own_reloc, &own_);
        own_.bytes = make_byte_array(100);
    }
    int k = (own_.n * own_.n + own_.n / 5) % OWN, least = OWN, sum = 0;
    own_.n++;
    own_.item[k] = own_.other[k] = k;
    const void *key = as_integer(k), *value = &own_.item[k];
    bool ok;
    if (own_.in[k] && own_.n % 3 == 0) {
        /* another value for the key */
        const int *was = own_.at[k];
        own_.at[k] = was == value ? &own_.other[k] : value;
        avl_elem_t *a = avl_tree_put(own_.tree, key, own_.at[k]);
        hash_elem_t *h = hash_table_put(own_.table, key, own_.at[k]);
        ok = a && h && avl_elem_get_value(a) == was &&
            hash_elem_get_value(h) == was;
        if (a)
            destroy_avl_element(a);
        if (h)
            destroy_hash_element(h);
    } else if (own_.in[k]) {
        own_.in[k] = false;
        own_.count--;
        avl_elem_t *a = avl_tree_pop(own_.tree, key);
        hash_elem_t *h = hash_table_pop(own_.table, key);
        ok = a && h && avl_elem_get_value(a) == own_.at[k] &&
            hash_elem_get_value(h) == own_.at[k];
        if (a)
            destroy_avl_element(a);
        if (h)
            destroy_hash_element(h);
        list_elem_t *e = list_get(own_.list, value);
        ok = ok && e;
        if (e)
            list_remove(own_.list, e);
        intset_remove(own_.set, k);
    } else {
        own_.in[k] = true;
        own_.at[k] = value;
        own_.count++;
        ok = !avl_tree_put(own_.tree, key, value) &&
            !hash_table_put(own_.table, key, value);
        if (own_.n % 2)
            list_append(own_.list, value);
        else
            list_prepend(own_.list, value);
        intset_add(own_.set, k);
    }
    priorq_enqueue(own_.queue, value);
    if (priorq_size(own_.queue) > 6) {
        const int *x = priorq_dequeue(own_.queue);
        const int *y = priorq_dequeue(own_.queue);
        ok = ok && x && y && *x <= *y;
    }
    uint8_t c = k;
    if (!byte_array_append(own_.bytes, &c, 1))
        byte_array_clear(own_.bytes);
    else
        ok = ok && ((const uint8_t *) byte_array_data(own_.bytes))
            [byte_array_size(own_.bytes) - 1] == c;
    if (byte_array_append_stream(own_.bytes, own_read, &own_, 2) == 2)
        ok = ok && ((const uint8_t *) byte_array_data(own_.bytes))
            [byte_array_size(own_.bytes) - 1] == 'a' + own_.n % 26;
    else
        byte_array_clear(own_.bytes);
    for (int i = OWN - 1; i >= 0; i--)
        if (own_.in[i])
            least = i;
    avl_elem_t *first = avl_tree_get_first(own_.tree);
    ok = ok && avl_tree_size(own_.tree) == own_.count &&
        hash_table_size(own_.table) == own_.count &&
        list_size(own_.list) == own_.count &&
        (first ? as_intptr(avl_elem_get_key(first)) == least
               : own_.count == 0) &&
        intset_find_next_hit(own_.set, 0) == (least == OWN ? -1 : least);
    for (hash_elem_t *h = hash_table_get_any(own_.table); h && sum < 100;
         h = hash_table_get_other(h))
        sum++;
    if (!ok || sum != own_.count)
        own_.wrong = true;
    own_.inside = false;
    blocks_live_ = live;        /* not the blocks being accounted for */
}

static void close_own_containers(void)
{
    if (!own_.open)
        return;
    long live = blocks_live_;
    destroy_avl_tree(own_.tree);
    destroy_hash_table(own_.table);
    destroy_list(own_.list);
    destroy_intset(own_.set);
    destroy_priority_queue(own_.queue);
    destroy_byte_array(own_.bytes);
    blocks_live_ = live;
    own_.open = false;
}

static int flavored(int a, int b)
{
    called_back();
    if (cmp_flavor_ == 4)
        use_own_containers();
    if (a == b)
        return 0;
    switch (cmp_flavor_) {
        case 0:
        case 4: return a < b ? -1 : 1;
        case 1: return a < b ? INT_MIN : INT_MAX;
        case 2: return a < b ? -256 : 256;
        default: return a < b ? -65536 * 3 : 65536 * 5;
    }
}

static int cmp_keys(const void *a, const void *b)
{
    cmp_calls_++;
    if (path_on_) {
        const vkey_t *o = a == &probe_ ? b : a;
        if (path_len_ < 4096 &&
            (path_len_ == 0 || path_[path_len_ - 1] != o->ord))
            path_[path_len_++] = o->ord;
    }
    return flavored(((const vkey_t *) a)->ord, ((const vkey_t *) b)->ord);
}

#define SLOTS 8
static char tree_context_[SLOTS];
static int context_of_[SLOTS], tree_; /* the tree in use */

static int cmp_keys_ctx(const void *a, const void *b, void *obj)
{
    if (obj != &tree_context_[context_of_[tree_]])
        ctx_bad_ = true;
    return cmp_keys(a, b);
}

static avl_tree_t *trees_[SLOTS];

typedef struct {
    avl_elem_t *a;
    hash_elem_t *h;
} loose_t;
#define MAXLOOSE 200000
static loose_t loose_[MAXLOOSE];
static int nloose_;

static const void *loose_key(int i)
{
    return loose_[i].a ? avl_elem_get_key(loose_[i].a)
                       : hash_elem_get_key(loose_[i].h);
}

static const void *loose_value(int i)
{
    return loose_[i].a ? avl_elem_get_value(loose_[i].a)
                       : hash_elem_get_value(loose_[i].h);
}

static void out_loose(avl_elem_t *a, hash_elem_t *h)
{
    if (!a && !h) {
        out(",\"r\":[]");
        return;
    }
    if (nloose_ >= MAXLOOSE)
        bad_script("too many loose elements");
    int i = nloose_++;
    loose_[i].a = a;
    loose_[i].h = h;
    const void *k = loose_key(i);
    out(",\"r\":[%d,%d,%ld,%d]", key_ord(k), key_kid(k),
        val_id(loose_value(i)), i + 1);
}

static void drop_loose(int i)
{
    if (loose_[i].a)
        destroy_avl_element(loose_[i].a);
    else if (loose_[i].h)
        destroy_hash_element(loose_[i].h);
    loose_[i].a = NULL;
    loose_[i].h = NULL;
}

static void log_loose(void)
{
    out("{\"op\":\"loose\",\"l\":[");
    bool first = true;
    for (int i = 0; i < nloose_; i++)
        if (loose_[i].a || loose_[i].h) {
            const void *k = loose_key(i);
            out("%s[%d,%d,%ld,%d]", first ? "" : ",", key_ord(k), key_kid(k),
                val_id(loose_value(i)), i + 1);
            first = false;
        }
    out("]");
    ev_end();
}

static void out_avl(avl_elem_t *e)
{
    const void *k = avl_elem_get_key(e);
    out("[%d,%d,%ld]", key_ord(k), key_kid(k), val_id(avl_elem_get_value(e)));
}

static int avl_kid(avl_elem_t *e)
{
    return e ? key_kid(avl_elem_get_key(e)) : 0;
}

static void avl_obs(int t, int level)
{
    avl_tree_t *tree = trees_[t];
    out("{\"op\":\"aobs\",\"t\":%d,\"n\":%zu,\"e\":%s,\"f\":[", t,
        avl_tree_size(tree), avl_tree_empty(tree) ? "true" : "false");
    int n = 0;
    for (avl_elem_t *e = avl_tree_get_first(tree); e && n < TRAVERSE_MAX;
         e = avl_tree_next(e)) {
        if (n++)
            out(",");
        out_avl(e);
    }
    out("],\"b\":[");
    if (level >= 2) {
        n = 0;
        for (avl_elem_t *e = avl_tree_get_last(tree); e && n < TRAVERSE_MAX;
             e = avl_tree_previous(e)) {
            if (n++)
                out(",");
            out_avl(e);
        }
    }
    out("],\"q\":[");
    if (level >= 2) {
        bool first = true;
        int lo = num(), hi = num(), step = num();
        for (int k = lo; k <= hi; k += step) {
            const void *p = probe(k);
            out("%s[%d,%d,%d,%d,%d,%d]", first ? "" : ",", k,
                avl_kid(avl_tree_get(tree, p)),
                avl_kid(avl_tree_get_before(tree, p)),
                avl_kid(avl_tree_get_on_or_before(tree, p)),
                avl_kid(avl_tree_get_after(tree, p)),
                avl_kid(avl_tree_get_on_or_after(tree, p)));
            first = false;
        }
    }
    out("],\"two\":%s,\"bad\":%s", level >= 2 ? "true" : "false",
        ctx_bad_ ? "true" : "false");
    ev_end();
}

/* search paths of all keys the traversal shows */
static void avl_paths(int t)
{
    avl_tree_t *tree = trees_[t];
    out("{\"op\":\"paths\",\"n\":%zu,\"p\":[", avl_tree_size(tree));
    int n = 0;
    static long counts[TRAVERSE_MAX];
    for (avl_elem_t *e = avl_tree_get_first(tree); e && n < TRAVERSE_MAX;
         e = avl_tree_next(e)) {
        probe(key_ord(avl_elem_get_key(e)));
        path_on_ = true;
        path_len_ = 0;
        cmp_calls_ = 0;
        avl_tree_get(tree, &probe_);
        path_on_ = false;
        counts[n] = cmp_calls_;
        out(n++ ? ",[" : "[");
        for (int i = 0; i < path_len_; i++)
            out(i ? ",%d" : "%d", path_[i]);
        out("]");
    }
    out("],\"c\":[");
    for (int i = 0; i < n; i++)
        out(i ? ",%ld" : "%ld", counts[i]);
    out("]");
    ev_end();
}

/* only the comparator counts of lookups of all keys from lo to hi */
static void avl_counts(int t)
{
    avl_tree_t *tree = trees_[t];
    long lo = num(), hi = num(), step = num(), most = 0;
    for (long k = lo; k <= hi; k += step) {
        probe(k);
        cmp_calls_ = 0;
        avl_tree_get(tree, &probe_);
        if (cmp_calls_ > most)
            most = cmp_calls_;
    }
    out("{\"op\":\"counts\",\"n\":%zu,\"most\":%ld", avl_tree_size(tree), most);
    ev_end();
}

/* two traversals at once */
static void avl_two(int t, int u)
{
    enum { MOST = 2000 };
    avl_elem_t *seen[2][MOST];  /* not static: commands may be nested */
    int tt[2] = { t, u }, n[2] = { 0, 0 };
    avl_elem_t *e[2];
    for (int i = 0; i < 2; i++)
        e[i] = avl_tree_get_first(trees_[tt[i]]);
    while (e[0] || e[1])
        for (int i = 0; i < 2; i++)
            if (e[i] && n[i] < MOST) {
                seen[i][n[i]++] = e[i];
                tree_ = tt[1 - i];
                avl_tree_get_after(trees_[tree_],
                                   probe(key_ord(avl_elem_get_key(e[i]))));
                e[i] = avl_tree_next(e[i]);
            } else
                e[i] = NULL;
    for (int i = 0; i < 2; i++) {
        out("{\"op\":\"aobs\",\"t\":%d,\"n\":%zu,\"e\":%s,\"f\":[", tt[i],
            avl_tree_size(trees_[tt[i]]),
            avl_tree_empty(trees_[tt[i]]) ? "true" : "false");
        for (int j = 0; j < n[i]; j++) {
            if (j)
                out(",");
            out_avl(seen[i][j]);
        }
        out("],\"b\":[],\"q\":[],\"two\":false,\"bad\":%s",
            ctx_bad_ ? "true" : "false");
        ev_end();
    }
}

static void do_avl(void)
{
    char *op = tok();
    int t = num();
    if (t < 0 || t >= SLOTS)
        bad_script("slot");
    tree_ = t;
    if (strcmp(op, "new") == 0) {
        int mode = num();
        cmp_flavor_ = num();
        key_mode_ = mode;
        context_of_[t] = t;
        trees_[t] = mode == 4 ? make_avl_tree(integer_cmp)
            : mode == 2 ? make_avl_tree_2(cmp_keys_ctx, &tree_context_[t])
                        : make_avl_tree(cmp_keys);
        out("{\"op\":\"anew\",\"t\":%d", t);
        ev_end();
        return;
    }
    avl_tree_t *tree = trees_[t];
    if (!tree)
        bad_script("no tree");
    if (strcmp(op, "put") == 0) {
        int ord = num();
        long v = num();
        const void *k = new_key(ord);
        avl_elem_t *e = avl_tree_put(tree, k, val(v));
        out("{\"op\":\"aput\",\"t\":%d,\"k\":%d,\"id\":%d,\"v\":%ld", t, ord,
            key_kid(k), v);
        out_loose(e, NULL);
        ev_end();
    } else if (strcmp(op, "pop") == 0) {
        int ord = num();
        avl_elem_t *e = avl_tree_pop(tree, probe(ord));
        out("{\"op\":\"apop\",\"t\":%d,\"k\":%d", t, ord);
        out_loose(e, NULL);
        ev_end();
    } else if (strcmp(op, "det") == 0) {
        int ord = num();
        avl_elem_t *e = avl_tree_get(tree, probe(ord));
        if (e)
            avl_tree_detach(tree, e);
        out("{\"op\":\"apop\",\"t\":%d,\"k\":%d", t, ord);
        out_loose(e, NULL);
        ev_end();
    } else if (strcmp(op, "rem") == 0) {
        int ord = num();
        avl_elem_t *e = avl_tree_get(tree, probe(ord));
        bool had = e != NULL;
        if (e)
            avl_tree_remove(tree, e);
        out("{\"op\":\"arem\",\"t\":%d,\"k\":%d,\"had\":%s", t, ord,
            had ? "true" : "false");
        ev_end();
    } else if (strcmp(op, "popf") == 0 || strcmp(op, "popl") == 0) {
        avl_elem_t *e = op[3] == 'f' ? avl_tree_pop_first(tree)
                                     : avl_tree_pop_last(tree);
        out("{\"op\":\"a%s\",\"t\":%d", op, t);
        out_loose(e, NULL);
        ev_end();
    } else if (strcmp(op, "copy") == 0) {
        int u = num();
        if (trees_[u])
            bad_script("slot taken");
        trees_[u] = avl_tree_copy(tree);
        context_of_[u] = context_of_[t];
        out("{\"op\":\"acopy\",\"t\":%d,\"u\":%d", t, u);
        ev_end();
    } else if (strcmp(op, "del") == 0) {
        destroy_avl_tree(tree);
        trees_[t] = NULL;
        out("{\"op\":\"adel\",\"t\":%d", t);
        ev_end();
    } else if (strcmp(op, "obs") == 0)
        avl_obs(t, num());
    else if (strcmp(op, "paths") == 0)
        avl_paths(t);
    else if (strcmp(op, "counts") == 0)
        avl_counts(t);
    else if (strcmp(op, "two") == 0) {
        int u = num();
        if (!trees_[u])
            bad_script("no tree");
        avl_two(t, u);
    } else if (strcmp(op, "bulk") == 0) {
        /* many silent insertions (+) or removals (-) */
        int sign = *tok() == '+';
        long lo = num(), hi = num(), step = num();
        long n = (hi - lo) / step + 1;
        for (long i = 0; i < n; i++) {
            long k = lo + i * step;
            avl_elem_t *e = sign ? avl_tree_put(tree, new_key(k), val(1))
                                 : avl_tree_pop(tree, probe(k));
            if (e)
                destroy_avl_element(e);
        }
    } else
        bad_script(op);
}

/* -------------------------------------------------------------------- hash */

static hash_table_t *tables_[SLOTS];

static uint64_t hash_key(const void *p)
{
    called_back();
    if (key_mode_ == 4)
        return hash_of(as_intptr(p));
    return ((const vkey_t *) p)->hash;
}

/* tables of one case may have different hash functions */
static uint64_t hash_key_b(const void *p)
{
    if (cmp_flavor_ == 4)
        use_own_containers();
    return ~hash_key(p);
}

static uint64_t hash_key_c(const void *p)
{
    return hash_key(p) * 3 + 1;
}

static uint64_t (*const hash_keys_[])(const void *) = {
    hash_key, hash_key_b, hash_key_c };

static int hcmp(const void *a, const void *b)
{
    return flavored(key_ord(a), key_ord(b));
}

static void out_hash(hash_elem_t *e)
{
    if (!e) {
        out("[]");
        return;
    }
    const void *k = hash_elem_get_key(e);
    out("[%d,%d,%ld]", key_ord(k), key_kid(k), val_id(hash_elem_get_value(e)));
}

/* two traversals at once */
static void hash_two(int t, int u)
{
    enum { MOST = 2000 };
    static hash_elem_t *seen[2][MOST];
    int tt[2] = { t, u }, n[2] = { 0, 0 };
    hash_elem_t *e[2];
    for (int i = 0; i < 2; i++)
        e[i] = hash_table_get_any(tables_[tt[i]]);
    while (e[0] || e[1])
        for (int i = 0; i < 2; i++)
            if (e[i] && n[i] < MOST) {
                seen[i][n[i]++] = e[i];
                int ord = key_ord(hash_elem_get_key(e[i]));
                hash_table_get(tables_[t], probe(ord));
                hash_table_get(tables_[u], probe(ord + 1));
                hash_table_get_any(tables_[u]);
                e[i] = hash_table_get_other(e[i]);
            } else
                e[i] = NULL;
    for (int i = 0; i < 2; i++) {
        out("{\"op\":\"hwalk\",\"t\":%d,\"n\":%zu,\"e\":%s,\"any\":", tt[i],
            hash_table_size(tables_[tt[i]]),
            hash_table_empty(tables_[tt[i]]) ? "true" : "false");
        out_hash(hash_table_get_any(tables_[tt[i]]));
        out(",\"w\":[");
        for (int j = 0; j < n[i]; j++) {
            if (j)
                out(",");
            out_hash(seen[i][j]);
        }
        out("]");
        ev_end();
    }
}

static void do_hash(void)
{
    char *op = tok();
    int t = num();
    if (t < 0 || t >= SLOTS)
        bad_script("slot");
    if (strcmp(op, "new") == 0) {
        size_t capacity = unum();
        hash_mode_ = num();
        cmp_flavor_ = num();
        key_mode_ = num();
        int which = more() ? num() : 0;
        tables_[t] = hash_mode_ == 20
            ? make_hash_table(capacity, (void *) hash_integer, integer_cmp)
            : make_hash_table(capacity, hash_keys_[which], hcmp);
        out("{\"op\":\"hnew\",\"t\":%d", t);
        ev_end();
        return;
    }
    hash_table_t *table = tables_[t];
    if (!table)
        bad_script("no table");
    if (strcmp(op, "put") == 0) {
        int ord = num();
        long v = num();
        const void *k = new_key(ord);
        hash_elem_t *e = hash_table_put(table, k, val(v));
        out("{\"op\":\"hput\",\"t\":%d,\"k\":%d,\"id\":%d,\"v\":%ld", t, ord,
            key_kid(k), v);
        out_loose(NULL, e);
        ev_end();
    } else if (strcmp(op, "pop") == 0) {
        int ord = num();
        hash_elem_t *e = hash_table_pop(table, probe(ord));
        out("{\"op\":\"hpop\",\"t\":%d,\"k\":%d", t, ord);
        out_loose(NULL, e);
        ev_end();
    } else if (strcmp(op, "det") == 0) {
        int ord = num();
        hash_elem_t *e = hash_table_get(table, probe(ord));
        if (e)
            hash_table_detach(table, e);
        out("{\"op\":\"hpop\",\"t\":%d,\"k\":%d", t, ord);
        out_loose(NULL, e);
        ev_end();
    } else if (strcmp(op, "rem") == 0) {
        int ord = num();
        hash_elem_t *e = hash_table_get(table, probe(ord));
        bool had = e != NULL;
        if (e)
            hash_table_remove(table, e);
        out("{\"op\":\"hrem\",\"t\":%d,\"k\":%d,\"had\":%s", t, ord,
            had ? "true" : "false");
        ev_end();
    } else if (strcmp(op, "popany") == 0) {
        hash_elem_t *e = hash_table_pop_any(table);
        out("{\"op\":\"hany\",\"t\":%d", t);
        out_loose(NULL, e);
        ev_end();
    } else if (strcmp(op, "del") == 0) {
        destroy_hash_table(table);
        tables_[t] = NULL;
        out("{\"op\":\"hdel\",\"t\":%d", t);
        ev_end();
    } else if (strcmp(op, "obs") == 0) {
        int hi = num();
        out("{\"op\":\"hobs\",\"t\":%d,\"n\":%zu,\"e\":%s,\"g\":[", t,
            hash_table_size(table),
            hash_table_empty(table) ? "true" : "false");
        for (int k = 0; k <= hi; k++) {
            if (k)
                out(",");
            out_hash(hash_table_get(table, probe(k)));
        }
        out("]");
        ev_end();
    } else if (strcmp(op, "two") == 0) {
        int u = num();
        if (!tables_[u])
            bad_script("no table");
        hash_two(t, u);
    } else if (strcmp(op, "walk") == 0) {
        out("{\"op\":\"hwalk\",\"t\":%d,\"n\":%zu,\"e\":%s,\"any\":", t,
            hash_table_size(table), hash_table_empty(table) ? "true" : "false");
        out_hash(hash_table_get_any(table));
        out(",\"w\":[");
        int n = 0;
        for (hash_elem_t *e = hash_table_get_any(table);
             e && n < TRAVERSE_MAX; e = hash_table_get_other(e)) {
            if (n++)
                out(",");
            out_hash(e);
        }
        out("]");
        ev_end();
    } else
        bad_script(op);
}

/* -------------------------------------------------------------------- list */

static list_t *lists_[SLOTS];
#define MAXHANDLES 1000000
static list_elem_t *handles_[MAXHANDLES];
static int handle_list_[MAXHANDLES];
static int nhandles_;

static int new_handle(list_elem_t *e, int l)
{
    if (nhandles_ + 1 >= MAXHANDLES)
        bad_script("too many handles");
    handles_[++nhandles_] = e;
    handle_list_[nhandles_] = l;
    return nhandles_;
}

static int handle_of(list_elem_t *e, int l)
{
    if (!e)
        return 0;
    for (int i = nhandles_; i > 0; i--)
        if (handles_[i] == e && handle_list_[i] == l)
            return i;
    return -1;
}

static void forget(int h)
{
    handles_[h] = NULL;
}

static int foreach_n_;
static bool foreach_bad_;

static void each(const void *value, void *arg)
{
    if (arg != &ctx_object_)
        foreach_bad_ = true;
    if (foreach_n_ < TRAVERSE_MAX)
        out(foreach_n_ ? ",%ld" : "%ld", val_id(value));
    foreach_n_++;
}

/* two traversals at once, and one foreach inside another */
static long nest_[2][TRAVERSE_MAX];
static int nested_[2];
static list_t *inner_;
static char inner_arg_, outer_arg_;

static void each_inner(const void *value, void *arg)
{
    if (arg != &inner_arg_)
        foreach_bad_ = true;
    if (nested_[1] < TRAVERSE_MAX)
        nest_[1][nested_[1]++] = val_id(value);
}

static void each_outer(const void *value, void *arg)
{
    if (arg != &outer_arg_)
        foreach_bad_ = true;
    if (nested_[0] < TRAVERSE_MAX)
        nest_[0][nested_[0]++] = val_id(value);
    nested_[1] = 0;
    list_foreach(inner_, each_inner, &inner_arg_);
}

static void list_two(int t, int u)
{
    enum { MOST = 2000 };
    static list_elem_t *seen[2][MOST];
    int tt[2] = { t, u }, n[2] = { 0, 0 };
    list_elem_t *e[2];
    for (int i = 0; i < 2; i++)
        e[i] = list_get_first(lists_[tt[i]]);
    while (e[0] || e[1])
        for (int i = 0; i < 2; i++)
            if (e[i] && n[i] < MOST) {
                seen[i][n[i]++] = e[i];
                list_get_by_index(lists_[tt[1 - i]], n[i]);
                e[i] = list_next(e[i]);
            } else
                e[i] = NULL;
    inner_ = lists_[u];
    foreach_bad_ = false;
    nested_[0] = nested_[1] = 0;
    list_foreach(lists_[t], each_outer, &outer_arg_);
    if (nested_[0] == 0)
        list_foreach(lists_[u], each_inner, &inner_arg_);
    for (int i = 0; i < 2; i++) {
        out("{\"op\":\"lwalk\",\"t\":%d,\"f\":[", tt[i]);
        for (int j = 0; j < n[i]; j++)
            out("%s[%d,%ld]", j ? "," : "", handle_of(seen[i][j], tt[i]),
                val_id(list_elem_get_value(seen[i][j])));
        out("],\"each\":[");
        for (int j = 0; j < nested_[i]; j++)
            out(j ? ",%ld" : "%ld", nest_[i][j]);
        out("],\"bad\":%s", foreach_bad_ ? "true" : "false");
        ev_end();
    }
}

static void do_list(void)
{
    char *op = tok();
    int l = num();
    if (l < 0 || l >= SLOTS)
        bad_script("slot");
    if (strcmp(op, "new") == 0) {
        lists_[l] = make_list();
        out("{\"op\":\"lnew\",\"t\":%d", l);
        ev_end();
        return;
    }
    list_t *list = lists_[l];
    if (!list)
        bad_script("no list");
    if (strcmp(op, "app") == 0 || strcmp(op, "pre") == 0) {
        long v = num();
        list_elem_t *e = *op == 'a' ? list_append(list, val(v))
                                    : list_prepend(list, val(v));
        out("{\"op\":\"l%s\",\"t\":%d,\"v\":%ld,\"h\":%d", op, l, v,
            new_handle(e, l));
        ev_end();
    } else if (strcmp(op, "ins") == 0) {
        long v = num();
        int h = num();
        list_elem_t *e = list_insert_before(list, val(v), handles_[h]);
        out("{\"op\":\"lins\",\"t\":%d,\"v\":%ld,\"b\":%d,\"h\":%d", l, v, h,
            new_handle(e, l));
        ev_end();
    } else if (strcmp(op, "rem") == 0) {
        int h = num();
        list_elem_t *e = handles_[h];
        forget(h);
        list_remove(list, e);
        out("{\"op\":\"lrem\",\"t\":%d,\"h\":%d", l, h);
        ev_end();
    } else if (strcmp(op, "popf") == 0 || strcmp(op, "popl") == 0) {
        list_elem_t *e = op[3] == 'f' ? list_get_first(list)
                                      : list_get_last(list);
        int h = handle_of(e, l);
        if (h > 0)
            forget(h);
        const void *v = op[3] == 'f' ? list_pop_first(list)
                                     : list_pop_last(list);
        out("{\"op\":\"l%s\",\"t\":%d,\"h\":%d,\"r\":%ld", op, l, h, val_id(v));
        ev_end();
    } else if (strcmp(op, "copy") == 0) {
        int u = num();
        if (lists_[u])
            bad_script("slot taken");
        lists_[u] = list_copy(list);
        out("{\"op\":\"lcopy\",\"t\":%d,\"u\":%d,\"c\":[", l, u);
        int n = 0;
        for (list_elem_t *e = list_get_first(lists_[u]); e && n < TRAVERSE_MAX;
             e = list_next(e)) {
            out("%s[%d,%ld]", n ? "," : "", new_handle(e, u),
                val_id(list_elem_get_value(e)));
            n++;
        }
        out("]");
        ev_end();
    } else if (strcmp(op, "del") == 0) {
        for (int i = 1; i <= nhandles_; i++)
            if (handle_list_[i] == l)
                forget(i);
        destroy_list(list);
        lists_[l] = NULL;
        out("{\"op\":\"ldel\",\"t\":%d", l);
        ev_end();
    } else if (strcmp(op, "two") == 0) {
        int u = num();
        if (!lists_[u])
            bad_script("no list");
        list_two(l, u);
    } else if (strcmp(op, "obs") == 0) {
        int maxv = num();
        out("{\"op\":\"lobs\",\"t\":%d,\"n\":%zu,\"e\":%s,\"first\":%d,"
            "\"last\":%d,\"f\":[", l, list_size(list),
            list_empty(list) ? "true" : "false",
            handle_of(list_get_first(list), l),
            handle_of(list_get_last(list), l));
        int n = 0;
        for (list_elem_t *e = list_get_first(list); e && n < TRAVERSE_MAX;
             e = list_next(e)) {
            out("%s[%d,%ld]", n ? "," : "", handle_of(e, l),
                val_id(list_elem_get_value(e)));
            n++;
        }
        out("],\"b\":[");
        n = 0;
        for (list_elem_t *e = list_get_last(list); e && n < TRAVERSE_MAX;
             e = list_previous(e)) {
            out("%s%d", n ? "," : "", handle_of(e, l));
            n++;
        }
        out("],\"x\":[");
        int size = list_size(list);
        if (size > 2000)
            size = 2000;
        for (int i = -2; i <= size + 1; i++)
            out("%s[%d,%d]", i > -2 ? "," : "", i,
                handle_of(list_get_by_index(list, i), l));
        out(",[-1000000000,%d],[1000000000,%d]],\"s\":[",
            handle_of(list_get_by_index(list, INT_MIN), l),
            handle_of(list_get_by_index(list, INT_MAX), l));
        for (int v = 0; v <= maxv; v++)
            out(v ? ",%d" : "%d", handle_of(list_get(list, val(v)), l));
        out("],\"each\":[");
        foreach_n_ = 0;
        foreach_bad_ = false;
        list_foreach(list, each, &ctx_object_);
        out("],\"bad\":%s", foreach_bad_ ? "true" : "false");
        ev_end();
    } else
        bad_script(op);
}

/* ---------------------------------------------------------- priority queue */

typedef struct {
    int id, prio;
    void *loc;
    bool has_loc;
} item_t;

#define MAXITEMS 100000
static item_t items_[MAXITEMS];
static int nitems_;
static priorq_t *queues_[SLOTS];
static int q_;                  /* the queue in use */
static char q_context_[SLOTS];
static int q_flavor_[SLOTS];
#define MAXSEEN 4096
static int seen_[MAXSEEN], nseen_;
static bool q_bad_;
static int in_queue_[SLOTS][MAXITEMS]; /* by what was entered and returned */

static void see(const void *p)
{
    const item_t *it = p;
    int id = -1;
    if (it > items_ && it <= items_ + nitems_)
        id = it - items_;
    for (int i = 0; i < nseen_; i++)
        if (seen_[i] == id)
            return;
    if (nseen_ < MAXSEEN)
        seen_[nseen_++] = id;
}

static int q_cmp(const void *a, const void *b)
{
    see(a);
    see(b);
    return flavored(((const item_t *) a)->prio, ((const item_t *) b)->prio);
}

static int q_cmp_ctx(const void *a, const void *b, void *obj)
{
    if (obj != &q_context_[q_])
        q_bad_ = true;
    return q_cmp(a, b);
}

static int q_back(const void *a, const void *b)
{
    return q_cmp(b, a);         /* the lowest goes last */
}

static int q_back_ctx(const void *a, const void *b, void *obj)
{
    return q_cmp_ctx(b, a, obj);
}

static void q_reloc(const void *p, void *loc)
{
    see(p);
    item_t *it = (item_t *) p;
    it->loc = loc;
    it->has_loc = true;
    called_back();
    if (cmp_flavor_ == 4)
        use_own_containers();
}

static void q_reloc_ctx(const void *p, void *loc, void *obj)
{
    if (obj != &q_context_[q_])
        q_bad_ = true;
    q_reloc(p, loc);
}

static int item_id(const void *p)
{
    if (!p)
        return 0;
    const item_t *it = p;
    if (it > items_ && it <= items_ + nitems_)
        return it - items_;
    return -1;
}

/* locators are opaque: number them by equality */
#define MAXLOCS 100000
static void *locs_[MAXLOCS];
static int nlocs_;

static int loc_id(item_t *it)
{
    if (!it->has_loc)
        return 0;
    for (int i = 0; i < nlocs_; i++)
        if (locs_[i] == it->loc)
            return i + 1;
    if (nlocs_ >= MAXLOCS)
        bad_script("too many locators");
    locs_[nlocs_++] = it->loc;
    return nlocs_;
}

static void q_end(void)
{
    out(",\"bad\":%s,\"seen\":[", q_bad_ ? "true" : "false");
    for (int i = 0; i < nseen_; i++)
        out(i ? ",%d" : "%d", seen_[i]);
    out("]");
    ev_end();
}

static void do_queue(void)
{
    char *op = tok();
    nseen_ = 0;
    q_bad_ = false;
    if (strcmp(op, "use") == 0) {
        q_ = num();
        if (q_ < 0 || q_ >= SLOTS)
            bad_script("queue");
        return;
    }
    cmp_flavor_ = q_flavor_[q_];
    if (strcmp(op, "new") == 0) {
        /* mode: 1 for locators, 2 for a context, 4 for the order reversed */
        int mode = num();
        q_flavor_[q_] = num();
        if (queues_[q_])
            bad_script("queue exists");
        if (mode & 2)
            queues_[q_] = make_priority_queue_2(
                mode & 4 ? q_back_ctx : q_cmp_ctx,
                mode & 1 ? q_reloc_ctx : NULL, &q_context_[q_]);
        else
            queues_[q_] = make_priority_queue(mode & 4 ? q_back : q_cmp,
                                              mode & 1 ? q_reloc : NULL);
        memset(in_queue_[q_], 0, (nitems_ + 1) * sizeof in_queue_[q_][0]);
        out("{\"op\":\"qnew\",\"q\":%d,\"dir\":%d", q_, mode & 4 ? -1 : 1);
        ev_end();
        return;
    }
    if (strcmp(op, "item") == 0) {
        /* a new element of the given priority */
        int prio = num();
        if (nitems_ + 1 >= MAXITEMS)
            bad_script("too many items");
        item_t *it = &items_[++nitems_];
        it->id = nitems_;
        it->prio = prio;
        it->has_loc = false;
        for (int i = 0; i < SLOTS; i++)
            in_queue_[i][nitems_] = 0;
        out("{\"op\":\"qitem\",\"id\":%d,\"p\":%d", nitems_, prio);
        ev_end();
        return;
    }
    priorq_t *queue = queues_[q_];
    if (!queue)
        bad_script("no queue");
    if (strcmp(op, "enq") == 0 || strcmp(op, "tenq") == 0) {
        int id = num();
        if (*op == 't')
            for (int i = 0; i < SLOTS; i++)
                if (queues_[i] && in_queue_[i][id])
                    return;     /* "try": only if queued nowhere */
        if (id < 1 || id > nitems_)
            bad_script("item");
        in_queue_[q_][id]++;
        priorq_enqueue(queue, &items_[id]);
        out("{\"op\":\"qenq\",\"q\":%d,\"id\":%d", q_, id);
        q_end();
    } else if (strcmp(op, "deq") == 0 || strcmp(op, "peek") == 0 ||
               strcmp(op, "pop") == 0) {
        const void *r = *op == 'd' ? priorq_dequeue(queue)
            : op[1] == 'e' ? priorq_peek(queue) : priorq_pop(queue);
        if (op[1] != 'e' || *op == 'd')
            if (item_id(r) > 0)
                in_queue_[q_][item_id(r)]--;
        out("{\"op\":\"q%s\",\"q\":%d,\"r\":%d", op, q_, item_id(r));
        q_end();
    } else if (strcmp(op, "trem") == 0) {
        int id = num();
        if (id < 1 || id > nitems_ || in_queue_[q_][id] != 1)
            return;
        in_queue_[q_][id]--;
        const void *r = priorq_remove(queue, items_[id].loc);
        out("{\"op\":\"qrem\",\"q\":%d,\"id\":%d,\"r\":%d", q_, id, item_id(r));
        q_end();
    } else if (strcmp(op, "obs") == 0) {
        out("{\"op\":\"qobs\",\"q\":%d,\"n\":%zu,\"e\":%s,\"l\":[",
            q_, priorq_size(queue), priorq_empty(queue) ? "true" : "false");
        for (int i = 1; i <= nitems_; i++)
            out(i > 1 ? ",%d" : "%d", loc_id(&items_[i]));
        out("]");
        ev_end();
    } else if (strcmp(op, "size") == 0) {
        out("{\"op\":\"qsize\",\"q\":%d,\"n\":%zu,\"e\":%s",
            q_, priorq_size(queue), priorq_empty(queue) ? "true" : "false");
        ev_end();
    } else if (strcmp(op, "del") == 0) {
        destroy_priority_queue(queue);
        queues_[q_] = NULL;
        out("{\"op\":\"qdel\",\"q\":%d", q_);
        ev_end();
    } else
        bad_script(op);
}

/* ------------------------------------------------------------------ intset */

static intset_t *sets_[SLOTS];

static void do_intset(void)
{
    char *op = tok();
    int t = num();
    if (strcmp(op, "new") == 0) {
        size_t size = unum();
        sets_[t] = make_intset(size);
        out("{\"op\":\"inew\",\"t\":%d,\"cap\":%zu", t, size);
        ev_end();
        return;
    }
    intset_t *s = sets_[t];
    if (!s)
        bad_script("no set");
    if (strcmp(op, "add") == 0 || strcmp(op, "rem") == 0) {
        unsigned e = unum();
        if (*op == 'a')
            intset_add(s, e);
        else intset_remove(s, e);
        out("{\"op\":\"i%s\",\"t\":%d,\"x\":%u", op, t,
            e > 2000000000u ? 2000000000u : e);
        ev_end();
    } else if (strcmp(op, "fill") == 0) {
        intset_fill(s);
        out("{\"op\":\"ifill\",\"t\":%d", t);
        ev_end();
    } else if (strcmp(op, "del") == 0) {
        destroy_intset(s);
        sets_[t] = NULL;
        out("{\"op\":\"idel\",\"t\":%d", t);
        ev_end();
    } else if (strcmp(op, "obs") == 0) {
        /* probes from lo to hi, then far ones */
        unsigned lo = unum(), hi = unum();
        out("{\"op\":\"iobs\",\"t\":%d,\"lo\":%u,\"e\":%s,\"has\":[", t, lo,
            intset_empty(s) ? "true" : "false");
        for (unsigned i = lo; i <= hi; i++)
            out(i > lo ? ",%d" : "%d", intset_has(s, i) ? 1 : 0);
        out("],\"hit\":[");
        for (unsigned i = lo; i <= hi; i++)
            out(i > lo ? ",%d" : "%d", intset_find_next_hit(s, i));
        out("],\"miss\":[");
        for (unsigned i = lo; i <= hi; i++)
            out(i > lo ? ",%d" : "%d", intset_find_next_miss(s, i));
        out("],\"far\":[");
        static const unsigned far[] = {
            0x7fffffffu, 0x80000000u, 0xffffffc0u, 0xfffffffeu, 0xffffffffu };
        for (int i = 0; i < 5; i++)
            out("%s[%d,%d,%d]", i ? "," : "", intset_has(s, far[i]) ? 1 : 0,
                intset_find_next_hit(s, far[i]),
                intset_find_next_miss(s, far[i]));
        out("]");
        ev_end();
    } else
        bad_script(op);
}

/* -------------------------------------------------------------- byte array */

static byte_array_t *arrays_[SLOTS];
static int owners_[SLOTS];
static long held_[SLOTS];     /* blocks obtained on behalf of the array */

static unsigned long cap(size_t n)
{
    return n > 1000000000 ? 1000000000 : n;
}

static const char *errname(int e)
{
    switch (e) {
        case 0: return "0";
        case ENOSPC: return "ENOSPC";
        case EILSEQ: return "EILSEQ";
        case EOVERFLOW: return "EOVERFLOW";
        case EIO: return "EIO";
        default: return "other";
    }
}

typedef struct {
    long give;                  /* bytes to deliver, or <= 0 */
    int scribble; /* 1: write beyond what is delivered, 2: use containers */
    int calls;
    size_t offered;
    const uint8_t *data;
} reader_t;

static ssize_t reader(void *obj, void *buf, size_t count)
{
    reader_t *r = obj;
    r->calls++;
    r->offered = count;
    size_t n = r->give > 0 ? r->give : 0;
    if (n > count)
        n = count;
    if (r->scribble & 1)
        memset(buf, 0xee, count);
    memcpy(buf, r->data, n);
    called_back();
    if (r->scribble & 2)
        use_own_containers();
    if (r->give < 0) {
        errno = EIO;
        return r->give;
    }
    return n;
}

static void do_bytes(void)
{
    char *op = tok();
    int t = num();
    if (strcmp(op, "new") == 0) {
        size_t max = unum();
        long before = blocks_live_;
        arrays_[t] = make_byte_array(max);
        held_[t] = blocks_live_ - before;
        owners_[t] = 1;
        out("{\"op\":\"bnew\",\"t\":%d,\"max\":%lu", t, cap(max));
        ev_end();
        return;
    }
    byte_array_t *a = arrays_[t];
    if (!a)
        bad_script("no array");
    errno = 0;
    long before = blocks_live_;
    if (strcmp(op, "app") == 0) {
        size_t n;
        uint8_t *p = hexbytes(&n, 0);
        size_t len = more() ? unum() : n;
        errno = 0;
        bool r = byte_array_append(a, p, len);
        int e = errno;
        out("{\"op\":\"bapp\",\"t\":%d,\"len\":%lu,\"r\":%s,\"err\":\"%s\","
            "\"d\":", t, cap(len), r ? "true" : "false", errname(e));
        out_bytes(p, len < n ? len : n);
        ev_end();
        free(p);
    } else if (strcmp(op, "apps") == 0) {
        char *s = hexstr();
        errno = 0;
        bool r = byte_array_append_string(a, s);
        int e = errno;
        out("{\"op\":\"bapp\",\"t\":%d,\"len\":%zu,\"r\":%s,\"err\":\"%s\","
            "\"d\":", t, strlen(s), r ? "true" : "false", errname(e));
        out_cstr(s);
        ev_end();
        free(s);
    } else if (strcmp(op, "cop") == 0) {
        size_t pos = unum();
        size_t n;
        uint8_t *p = hexbytes(&n, 0);
        size_t len = more() ? unum() : n;
        errno = 0;
        bool r = byte_array_copy(a, pos, p, len);
        int e = errno;
        out("{\"op\":\"bcop\",\"t\":%d,\"pos\":%lu,\"len\":%lu,\"r\":%s,"
            "\"err\":\"%s\",\"d\":", t, cap(pos), cap(len),
            r ? "true" : "false", errname(e));
        out_bytes(p, len < n ? len : n);
        ev_end();
        free(p);
    } else if (strcmp(op, "cops") == 0) {
        size_t pos = unum();
        char *s = hexstr();
        errno = 0;
        bool r = byte_array_copy_string(a, pos, s);
        int e = errno;
        out("{\"op\":\"bcop\",\"t\":%d,\"pos\":%lu,\"len\":%zu,\"r\":%s,"
            "\"err\":\"%s\",\"d\":", t, cap(pos), strlen(s),
            r ? "true" : "false", errname(e));
        out_cstr(s);
        ev_end();
        free(s);
    } else if (strcmp(op, "self") == 0) {
        /* overlapping copy within the content */
        size_t pos = unum(), off = unum(), len = unum();
        bool ok = off + len <= byte_array_size(a) &&
            pos + len <= byte_array_size(a);
        if (ok) {
            bool r = byte_array_copy(a, pos,
                                     (uint8_t *) byte_array_data(a) + off, len);
            out("{\"op\":\"bself\",\"t\":%d,\"pos\":%zu,\"off\":%zu,"
                "\"len\":%zu,\"r\":%s", t, pos, off, len,
                r ? "true" : "false");
            ev_end();
        }
    } else if (strcmp(op, "clr") == 0) {
        byte_array_clear(a);
        out("{\"op\":\"bclr\",\"t\":%d", t);
        ev_end();
    } else if (strcmp(op, "rsz") == 0) {
        size_t n = unum();
        int c = num();
        bool r = byte_array_resize(a, n, c);
        int e = errno;
        out("{\"op\":\"brsz\",\"t\":%d,\"len\":%lu,\"c\":%d,\"r\":%s,"
            "\"err\":\"%s\"", t, cap(n), c, r ? "true" : "false", errname(e));
        ev_end();
    } else if (strcmp(op, "str") == 0) {
        size_t len = unum();
        long give = num();
        int scribble = num();
        size_t n;
        uint8_t *p = hexbytes(&n, 0);
        reader_t rd = { give > (long) n ? (long) n : give, scribble, 0, 0, p };
        errno = 0;
        ssize_t r = byte_array_append_stream(a, reader, &rd, len);
        int e = errno;
        out("{\"op\":\"bstr\",\"t\":%d,\"len\":%lu,\"calls\":%d,"
            "\"offered\":%lu,\"give\":%ld,\"r\":%zd,\"err\":\"%s\",\"d\":", t,
            cap(len), rd.calls, cap(rd.offered), rd.give, r, errname(e));
        out_bytes(p, n);
        ev_end();
        free(p);
    } else if (strcmp(op, "share") == 0) {
        byte_array_t *b = share_byte_array(a);
        owners_[t]++;
        out("{\"op\":\"bshare\",\"t\":%d,\"same\":%s", t,
            b == a ? "true" : "false");
        ev_end();
    } else if (strcmp(op, "del") == 0) {
        destroy_byte_array(a);
        if (--owners_[t] == 0)
            arrays_[t] = NULL;
        out("{\"op\":\"bdel\",\"t\":%d,\"held\":%ld", t,
            held_[t] + (blocks_live_ - before));
        ev_end();
    } else if (strcmp(op, "obs") == 0) {
        size_t n = byte_array_size(a);
        const uint8_t *p = byte_array_data(a);
        out("{\"op\":\"bobs\",\"t\":%d,\"n\":%lu,\"nul\":%d,\"d\":", t, cap(n),
            p[n]);
        out_bytes(p, n < 60000 ? n : 60000);
        ev_end();
    } else
        bad_script(op);
    held_[t] += blocks_live_ - before;
}

/* -------------------------------------------------------------------- main */

static void end_case(void)
{
    for (int i = 0; i < SLOTS; i++) {
        if (trees_[i])
            destroy_avl_tree(trees_[i]);
        trees_[i] = NULL;
        if (tables_[i])
            destroy_hash_table(tables_[i]);
        tables_[i] = NULL;
        if (lists_[i])
            destroy_list(lists_[i]);
        lists_[i] = NULL;
        if (sets_[i])
            destroy_intset(sets_[i]);
        sets_[i] = NULL;
        if (queues_[i])
            destroy_priority_queue(queues_[i]);
        queues_[i] = NULL;
        while (arrays_[i]) {
            destroy_byte_array(arrays_[i]);
            if (--owners_[i] == 0)
                arrays_[i] = NULL;
        }
    }
    nitems_ = 0;
    nlocs_ = 0;
    q_ = 0;
    close_own_containers();
    for (int i = 0; i < nloose_; i++)
        drop_loose(i);
    nloose_ = 0;
    nhandles_ = 0;
    for (int i = 0; i < nkeys_; i++)
        free(keys_[i]);
    nkeys_ = 0;
    ctx_bad_ = false;
    key_mode_ = 1;
    quiet();
}

static void command(const char *what)
{
    switch (*what) {
        case 'A': do_avl(); break;
        case 'H': do_hash(); break;
        case 'L': do_list(); break;
        case 'Q': do_queue(); break;
        case 'I': do_intset(); break;
        case 'B': do_bytes(); break;
        case 'X': log_loose(); break;
        case 'D': {
            int i = num();
            if (i >= 1 && i <= nloose_ &&
                (loose_[i - 1].a || loose_[i - 1].h)) {
                drop_loose(i - 1);
                out("{\"op\":\"drop\",\"i\":%d", i);
                ev_end();
            }
            break;
        }
        default: bad_script(what);
    }
    if (own_.wrong) {
        out("{\"op\":\"own containers of the comparison went wrong\"");
        ev_end();
        own_.wrong = false;
    }
}

/* Commands to be executed from within another one, by the functions that it
 * calls back: "N <level> <k> <command>" goes into the next command of the level
 * above, when that calls back for the kth time; or after it, if it does not call back so
 * often. */

struct within {
    int at;
    char *line;
    struct within *todo, *next;
};
static struct {
    struct within *first, *last;
} put_by_[8];

static void put_by(void)
{
    int level = num();
    if (level < 1 || level > 7)
        bad_script("level");
    struct within *w = malloc(sizeof *w);
    w->at = num();
    w->line = strdup(cursor_);
    w->todo = put_by_[level].first;
    w->next = NULL;
    put_by_[level].first = put_by_[level].last = NULL;
    if (put_by_[level - 1].last)
        put_by_[level - 1].last->next = w;
    else
        put_by_[level - 1].first = w;
    put_by_[level - 1].last = w;
}

static struct active {
    int calls;
    struct within *todo;
    struct active *outer;
    char *late;         /* what was logged while its own event was written */
    size_t nlate;
} *active_;

static void execute(const char *what, struct within *todo);

static void execute_within(struct within *w)
{
    int tree = tree_, flavor = cmp_flavor_, e = errno;
    vkey_t probe = probe_;
    bool bad = ctx_bad_;
    long live = blocks_live_;
    char *cursor = cursor_, *text;
    size_t size;
    FILE *log = logf_;
    bool in_event = in_event_;
    if (in_event)
        logf_ = open_memstream(&text, &size);
    in_event_ = false;
    cursor_ = w->line;
    ctx_bad_ = false;
    execute(tok(), w->todo);
    if (in_event) {
        fclose(logf_);
        logf_ = log;
        in_event_ = true;
        active_->late = realloc(active_->late, active_->nlate + size + 1);
        memcpy(active_->late + active_->nlate, text, size);
        active_->nlate += size;
        free(text);
    }
    tree_ = tree;
    cmp_flavor_ = flavor;
    probe_ = probe;
    ctx_bad_ = bad;
    blocks_live_ = live;
    cursor_ = cursor;
    free(w->line);
    free(w);
    errno = e;
}

static void execute(const char *what, struct within *todo)
{
    struct active a = { 0, todo, active_ };
    active_ = &a;
    command(what);
    if (a.late) {
        fwrite(a.late, 1, a.nlate, logf_);
        fflush(logf_);
        free(a.late);
    }
    active_ = a.outer;
    while (a.todo) {
        struct within *w = a.todo;
        a.todo = w->next;
        execute_within(w);
    }
}

static void called_back(void)
{
    struct active *a = active_;
    if (!a || !a->todo || ++a->calls < a->todo->at)
        return;
    while (a->todo && a->todo->at <= a->calls) {
        struct within *w = a->todo;
        a->todo = w->next;
        execute_within(w);
    }
}

int main(int argc, char **argv)
{
    start(argc, argv);
    keys_ = malloc(MAXKEYS * sizeof *keys_);
    bool started = false;
    while (next_line()) {
        if (!more())
            continue;
        char *what = tok();
        if (strcmp(what, "case") == 0) {
            if (started)
                end_case();
            started = true;
            case_begins();
            continue;
        }
        if (!started)
            bad_script("no case");
        if (*what == 'N') {
            put_by();
            continue;
        }
        struct within *todo = put_by_[0].first;
        put_by_[0].first = put_by_[0].last = NULL;
        execute(what, todo);
    }
    if (started)
        end_case();
    fclose(logf_);
    return 0;
}
