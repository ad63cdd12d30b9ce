#!/usr/bin/env python3
"""Development tool: edits that keep the behaviour (refactorings, other choices
the documentation leaves open); every check has to stay quiet on them.

    neutral.py [-j N] [ID...]

Works on scratch copies of /repo; nothing here is run by a check.
"""
import argparse, concurrent.futures as cf, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = []


def edit(ident, props, path, *pairs):
    E.append((ident, props.split(), path, pairs))


H = "src/hashtable.c"
edit("hash-find-helper", "C03 C04 C05 C13", H,
     ("hash_elem_t *hash_table_get(hash_table_t *table, const void *key)\n{",
      """static hash_elem_t *find(hash_table_t *table, list_t *bucket, const void *key)
{
    if (!bucket || list_empty(bucket))
        return NULL;
    list_elem_t *at = list_get_last(bucket);
    do {
        hash_elem_t *candidate = (hash_elem_t *) list_elem_get_value(at);
        if (!table->cmp(candidate->key, key))
            return candidate;
    } while ((at = list_previous(at)));
    return NULL;
}

hash_elem_t *hash_table_get(hash_table_t *table, const void *key)
{
    return find(table, table->table[table->hash(key) % table->capacity], key);
}

static hash_elem_t *unused(hash_table_t *table, const void *key)
    __attribute__((unused));
static hash_elem_t *unused(hash_table_t *table, const void *key)
{"""))
edit("hash-prepend", "C03 C04 C05 C13", H,
     ("element->loc = list_append(", "element->loc = list_prepend("))
edit("hash-pop-any-last", "C03 C04 C05 C13", H,
     ("    size_t i;\n    for (i = 0; i < table->capacity; i++) {\n        list_t *list = table->table[i];\n        if (list != NULL && !list_empty(list)) {\n            table->size--;\n            return (hash_elem_t *) list_pop_first(list);",
      "    size_t i = table->capacity;\n    while (table->size && i--) {\n        list_t *list = table->table[i];\n        if (list != NULL && !list_empty(list)) {\n            table->size--;\n            return (hash_elem_t *) list_pop_last(list);"))
edit("hash-frees-empty-bucket", "C03 C04 C05 C13", H,
     ("    table->size--;\n}", """    table->size--;
    list_t **bucket = &table->table[element->list_index];
    if (list_empty(*bucket)) {
        destroy_list(*bucket);
        *bucket = NULL;
    }
}"""))
edit("hash-more-buckets", "C03 C04 C05 C13", H,
     ("goodp[1] && goodp[0] < capacity;", "goodp[1] && goodp[0] < capacity + capacity / 2;"))
Q = "src/priority_queue.c"
edit("queue-remove-last-early", "C07 C08 C13", Q,
     ("    const void *other = prq->storage[--prq->capacity];\n    lower(",
      "    if (slot == --prq->capacity)\n        return value;\n    const void *other = prq->storage[prq->capacity];\n    lower("))
edit("queue-ties-left", "C07 C08 C13", Q,
     ("prq->storage[right], obj) < 0)", "prq->storage[right], obj) <= 0)"))
edit("queue-ties-raise", "C07 C08 C13", Q,
     # (without the first half this would be a bug: the last one is removed)
     ("    const void *other = prq->storage[--prq->capacity];\n    lower(",
      "    if (slot == --prq->capacity)\n        return value;\n    const void *other = prq->storage[prq->capacity];\n    lower("),
     ("prq->storage[parent], obj) >= 0)", "prq->storage[parent], obj) > 0)"))
edit("queue-more-relocs", "C07 C08 C13", Q,
     ("        assign(prq, slot, prq->storage[parent]);\n        slot = parent;",
      "        assign(prq, slot, prq->storage[parent]);\n        assign(prq, parent, value);\n        slot = parent;"),
     ("        assign(prq, slot, prq->storage[branch]);\n        slot = branch;",
      "        assign(prq, slot, prq->storage[branch]);\n        assign(prq, branch, value);\n        slot = branch;"))
edit("queue-grows-by-half", "C07 C08 C13", Q,
     ("        prq->max_capacity = n;\n", "        n = prq->capacity + prq->capacity / 2 + 16;\n        prq->max_capacity = n;\n"))
edit("queue-shrinks", "C07 C08 C13", Q,
     ("    const void *value = prq->storage[0];\n    lower(prq, 0, prq->storage[--prq->capacity]);\n",
      """    const void *value = prq->storage[0];
    lower(prq, 0, prq->storage[--prq->capacity]);
    if (prq->capacity < prq->max_capacity / 8) {
        prq->max_capacity /= 4;
        prq->storage =
            fsrealloc(prq->storage, prq->max_capacity * sizeof *prq->storage);
    }
"""))
L = "src/list.c"
edit("list-remove-links", "C03 C04 C05 C06 C13", L,
     ("""    if (list->first == element)
        if (list->last == element)
            list->first = list->last = NULL;
        else {
            list->first = element->next;
            element->next->previous = NULL;
        }
    else if (list->last == element) {
        list->last = element->previous;
        element->previous->next = NULL;
    } else {
        element->next->previous = element->previous;
        element->previous->next = element->next;
    }
    fsfree(element);
    list->size--;
""", """    list->size--;
    list_elem_t **from = element->previous ? &element->previous->next : &list->first;
    list_elem_t **to = element->next ? &element->next->previous : &list->last;
    *from = element->next;
    *to = element->previous;
    fsfree(element);
"""))
edit("list-index-shortcut", "C06 C13", L,
     ("    int i;\n    list_elem_t *element;\n    for (element = list->first, i = 0;",
      """    int i;
    list_elem_t *element;
    if (idx < 0 || (size_t) idx >= list->size)
        return NULL;
    if ((size_t) idx > list->size / 2) {
        for (element = list->last, i = (int) list->size - 1; i != idx; i--)
            element = element->previous;
        return element;
    }
    for (element = list->first, i = 0;"""))
edit("list-copy-backwards", "C03 C06 C13", L,
     ("    list_foreach(list, append_it, copy);\n",
      "    if (list->size == (size_t) -1)\n        list_foreach(list, append_it, copy);\n    for (list_elem_t *e = list->last; e; e = e->previous)\n        list_prepend(copy, e->value);\n"))
B = "src/bytearray.c"
edit("bytes-grow-capped", "C10 C11 C12 C13", B,
     ("        array->size = n;\n", "        if (n > array->max_size)\n            n = array->max_size;\n        array->size = n;\n"))
edit("bytes-grow-exactly", "C10 C11 C12 C13", B,
     ("        array->size = n;\n", "        n = array->cursor + len + 1;\n        array->size = n;\n"))
edit("bytes-clear-shrinks", "C10 C11 C12 C13", B,
     ("    array->cursor = 0;\n    array->data[0] = 0;\n}\n\nbool",
      """    array->cursor = 0;
    if (array->size > 4096) {
        fsfree(array->data);
        array->size = 64;
        array->data = fsalloc(array->size);
    }
    array->data[0] = 0;
}

bool"""))
edit("bytes-small-start", "C10 C11 C12 C13", B,
     ("    array->size = 128;\n", "    array->size = 16;\n"))
edit("bytes-append-as-copy", "C10 C11 C12 C13", B,
     ("""    if (!ensure_space(array, len))
        return false;

    memcpy(array->data + array->cursor, data, len);
    array->cursor += len;
    array->data[array->cursor] = 0;
    return true;
""", "    return byte_array_copy(array, array->cursor, data, len);\n"))
I = "src/intset.c"
edit("intset-bit-by-bit", "C09 C13", I,
     ("    unsigned long x = s->data[elem / LONG_BIT];\n    if (!hit)\n        x = ~x;\n    int r",
      "    for (;; elem++) {\n        if (elem >= s->size)\n            return -1;\n        if (intset_has(s, elem) == hit)\n            return elem;\n    }\n    unsigned long x = s->data[elem / LONG_BIT];\n    if (!hit)\n        x = ~x;\n    int r"))
edit("intset-fill-adds", "C09 C13", I,
     ("    for (i = 0; i < BITS_TO_LONGS(s->size); i++)\n        s->data[i] = ~0;",
      "    for (i = 0; i < s->size; i++)\n        intset_add(s, i);"))
A = "src/avltree.c"
edit("avl-detach-successor", "C01 C02 C03 C13", A,
     ("previous_descendant(element);\n    if (adj != NULL)\n        return adj;\n    while (element->parent != NULL && element->parent->left == element)",
      "previous_descendant(element);\n    if (adj)\n        return adj;\n    while (element->parent && element == element->parent->left)"))
edit("avl-get-by-bounds", "C01 C02 C03 C13", A,
     ("    avl_elem_t *element = tree->root;\n    void *obj = tree->obj;\n    while (element) {\n        int cmp = tree->cmp(key, element->key, obj);\n        if (cmp == 0)\n            return element;\n        if (cmp > 0)\n            element = element->right;\n        else element = element->left;\n    }\n    return NULL;",
      "    avl_elem_t *element;\n    int cmp;\n    for (element = tree->root;\n         element && (cmp = tree->cmp(key, element->key, tree->obj)) != 0;\n         element = cmp < 0 ? element->left : element->right)\n        ;\n    return element;"))
edit("avl-pop-ends", "C01 C02 C03 C13", A,
     ("    avl_elem_t *element = avl_tree_get_last(tree);\n    if (element != NULL)\n        avl_tree_detach(tree, element);\n    return element;",
      "    avl_elem_t *element = avl_tree_get_last(tree);\n    return element ? avl_tree_pop(tree, element->key) : NULL;"))
edit("avl-copy-by-puts", "C01 C02 C03 C13", A,
     ("        copy->root = copy_tree(tree->root);\n        copy->size = tree->size;\n",
      "        if (!tree->size)\n            copy->root = copy_tree(tree->root);\n        for (avl_elem_t *e = avl_tree_get_first(tree); e; e = avl_tree_next(e))\n            (void) avl_tree_put(copy, e->key, e->value);\n"))
F = "src/fsalloc.c"
edit("calloc-builtin", "C14 C13", F,
     ("    if (size && nmemb > SIZE_MAX / size)\n        size = SIZE_MAX;        /* cannot be satisfied */\n    else size *= nmemb;",
      "    if (__builtin_mul_overflow(size, nmemb, &size))\n        size = SIZE_MAX;"))
edit("calloc-null", "C14 C13", F,
     ("        size = SIZE_MAX;        /* cannot be satisfied */\n", "        return NULL;\n"))
S = "src/base64.c"
edit("base64-encode-simple-loop", "C15 C16 C13", S,
     ("    while (dest_body_counter-- && q < tail) {", "    for (; dest_body_counter && q < tail; dest_body_counter--) {"),
     ("    i += (tail - q) / 3 * 4;\n    q = tail;\n", "    for (; q < tail; q += 3)\n        i += 4;\n"))
edit("base64-decode-one-loop", "C15 C16 C13", S,
     ("    while (pi < dest_size && si < source_size &&\n           source[si] && source[si] != '=') {",
      "    while (si < source_size && source[si] && source[si] != '=') {"),
     ("            buffer[pi++] = bits >> bit_count & 0xff;", "            if (pi < dest_size)\n                buffer[pi] = bits >> bit_count & 0xff;\n            pi++;"))
edit("base64-size-careful", "C15", S,
     ("    size_t encoding_size = (binary_size + 2) / 3 * 4;\n    if (encoding_size < binary_size)\n        return -1;\n    return encoding_size;",
      "    size_t quartets = binary_size / 3 + (binary_size % 3 != 0);\n    if (quartets > (size_t) -1 / 4)\n        return -1;\n    return quartets * 4;"))
D = "src/charstr_decompose.c"
edit("sort-by-insertion", "C24 C25 C29", D,
     ("            char *t = begin;\n            for (;;) {", "            char *t = begin;\n            while (t < s) {"))
R = "src/charstr_recompose.c"
edit("recompose-last-mark", "C25 C29", R,
     ("    int j;\n    for (j = 0; j < count; j++)\n        if (charstr_unicode_canonical_combining_class(seq[j]) >= ccc)\n            return true;\n    return false;",
      "    return count > 0 &&\n        charstr_unicode_canonical_combining_class(seq[count - 1]) >= ccc;"))
edit("detect-no-early", "C26 C29", "src/charstr_unicode.c",
     ("        if (ccc && last_canonical_class > ccc)\n            return disallowed_flag;\n        int check = charstr_allowed_unicode_normal_forms(codepoint);\n        if (check & disallowed_flag)\n            return disallowed_flag;",
      "        int check = charstr_allowed_unicode_normal_forms(codepoint);\n        if ((check & disallowed_flag) || (ccc && last_canonical_class > ccc)) {\n            result = disallowed_flag;\n            break;\n        }"))
P = "src/charstr_puny.c"
edit("puny-threshold", "C29 C13", P,
     ("                else if (k >= bias + TMAX)", "                else if (k > bias + TMAX)"))
edit("puny-sorted-bsearch", "C29 C13", P,
     ("    for (i = 0; i < c && nonascii[i] <= codepoint; i++)\n        if (nonascii[i] == codepoint)\n            return;",
      "    for (i = c; i && nonascii[i - 1] >= codepoint; i--)\n        if (nonascii[i - 1] == codepoint)\n            return;"))
edit("idna-always-decompose", "C29 C13", P,
     ("    if (charstr_unicode_canonically_decomposed(hostname, end))\n        return encode_nfd(hostname, end);\n", ""))
C = "src/charstr.c"
edit("case-cmp-shared", "C23", C,
     ("    while (*a) {\n        unsigned char ac = case_table[*(unsigned char *) a++].lower;\n        unsigned char bc = case_table[*(unsigned char *) b++].lower;\n        if (ac < bc)\n            return -1;\n        if (ac > bc)\n            return 1;\n    }\n    if (*b)\n        return -1;\n    return 0;",
      "    for (;; a++, b++) {\n        int d = (unsigned char) case_table[(uint8_t) *a].lower -\n            (unsigned char) case_table[(uint8_t) *b].lower;\n        if (d || !*a)\n            return d;\n    }"))
edit("printf-asprintf", "C31 C13", C,
     ("    char *buffer = fsalloc(length + 1);\n    if (buffer)\n        vsprintf(buffer, format, ap);\n    return buffer;",
      "    size_t room = length + 1;\n    char *buffer = fsalloc(room);\n    if (!buffer)\n        return NULL;\n    vsnprintf(buffer, room, format, ap);\n    return buffer;"))
edit("url-decode-while", "C21 C13", C,
     ("            case '+':\n                *dp++ = plus_is_space ? ' ' : '+';\n                ep++;\n                break;\n",
      "            case '+':\n                *dp++ = *ep++;\n                if (plus_is_space)\n                    dp[-1] = ' ';\n                break;\n"))
T = "src/date.c"
edit("date-wide-days", "C17", T,
     ("    tm->tm_sec = epoch % SECONDS_PER_DAY;\n    int days = epoch / SECONDS_PER_DAY;\n    if (tm->tm_sec < 0) {\n        tm->tm_sec += SECONDS_PER_DAY;\n        days--;\n    }\n    tm->tm_min = tm->tm_sec / 60;\n    tm->tm_sec %= 60;\n    tm->tm_hour = tm->tm_min / 60;\n    tm->tm_min %= 60;",
      "    int sec = (int) (epoch % SECONDS_PER_DAY);\n    int days = (int) (epoch / SECONDS_PER_DAY);\n    if (sec < 0) {\n        sec += SECONDS_PER_DAY;\n        --days;\n    }\n    tm->tm_hour = sec / 3600;\n    tm->tm_min = sec / 60 % 60;\n    tm->tm_sec = sec % 60;"))
edit("float-shared", "C18", "src/float.c",
     ("    if (exp < 0 || exp >= bits)\n        return false;\n", "    if (exp < 0 || exp > 63)\n        return false;\n"))
# larger rewritings, other algorithms, other choices left open
edit("lcase-branches", "C23 C29 C32", C,
     ("    return case_table[(unsigned char) c].lower;", "    return c >= 'A' && c <= 'Z' ? c + ('a' - 'A') : c;"),
     ("    return case_table[(unsigned char) c].upper;", "    return c >= 'a' && c <= 'z' ? c - ('a' - 'A') : c;"))
edit("ends-with-backwards", "C23 C32", C,
     ("    return !strcmp(s + len - suffix_len, suffix);",
      "    while (suffix_len)\n        if (s[--len] != suffix[--suffix_len])\n            return false;\n    return true;"))
edit("digit-value-computed", "C23 C21 C32", C,
     ("    return digit_value[(unsigned char) c];",
      "    (void) digit_value;\n    if (c >= '0' && c <= '9')\n        return c - '0';\n    c |= 0x20;\n    return c >= 'a' && c <= 'f' ? c - 'a' + 10 : 0;"))
edit("split-shared", "C22 C13 C32", C,
     ("""    list_t *list = make_list();
    while (max_split--) {
        const char *p = strchr(s, delim);
        if (!p)
            break;
        list_append(list, charstr_dupsubstr(s, p));
        s = p + 1;
    }
    list_append(list, charstr_dupstr(s));
    return list;
}

unsigned""", """    const char d[2] = { delim, '\\0' };
    return charstr_split_str(s, d, max_split);
}

unsigned"""))
edit("atoms-state-machine", "C22 C13 C32", C,
     ("""    for (;;) {
        for (;; s++)
            if (!*s)
                return list;
            else if (!(charstr_char_class(*s) & CHARSTR_WHITESPACE))
                break;
        const char *p = s + 1;
        while (*p && !(charstr_char_class(*p) & CHARSTR_WHITESPACE))
            p++;
        list_append(list, charstr_dupsubstr(s, p));
        s = p;
    }
""", """    const char *start = NULL;
    for (;; s++) {
        bool in = *s && !(charstr_char_class(*s) & CHARSTR_WHITESPACE);
        if (in && !start)
            start = s;
        if (!in && start) {
            list_append(list, charstr_dupsubstr(start, s));
            start = NULL;
        }
        if (!*s)
            return list;
    }
"""))
edit("dup-with-room", "C22 C23 C13 C29 C32", C,
     ("    char *dup = fsalloc(length + 1);\n    memcpy(dup, s, length);",
      "    char *dup = fsalloc((length + 16) / 16 * 16);\n    memmove(dup, s, length);"))
edit("strip-in-place", "C22 C13 C32", C,
     ("""    const char *end = s + strlen(s);
    while (end > s && charstr_char_class(end[-1]) & CHARSTR_WHITESPACE)
        end--;
    return charstr_dupsubstr(s, end);
}

static bool valid""", """    const char *end = s, *p;
    for (p = s; *p; p++)
        if (!(charstr_char_class(*p) & CHARSTR_WHITESPACE))
            end = p + 1;
    return charstr_dupsubstr(s, end);
}

static bool valid"""))
edit("utf8-decode-by-length", "C19 C20 C24 C26 C29 C32", C,
     ("""    int cp, min;
    if (!s || s == end)
        return NULL;
    if (!(*s & 0x80))
""", """    int cp, min;
    if (!s || s == end)
        return NULL;
    const uint8_t lead = *s;
    if (lead >= 0x80) {
        unsigned more = lead >= 0xf0 ? 3 : lead >= 0xe0 ? 2 : 1, i;
        static const int least[] = { 0, 0x80, 0x800, 0x10000 };
        if (lead < 0xc2 || lead > 0xf4)
            return NULL;
        cp = lead & (0x3f >> more);
        for (i = 1; i <= more; i++) {
            if (s + i == end || ((uint8_t) s[i] >> 6) != 2)
                return NULL;
            cp = cp * 64 + ((uint8_t) s[i] - 0x80);
        }
        if (cp < least[more] || !valid_unicode(cp))
            return NULL;
        if (codepoint)
            *codepoint = cp;
        return s + more + 1;
    }
    if (!(*s & 0x80))
"""))
edit("utf8-encode-all-or-nothing", "C19 C24 C25 C29 C32", C,
     ("""    if (!s || s == end)
        return NULL;
    if (codepoint >= 0x80) {""", """    if (!s || s == end)
        return NULL;
    if (end) {
        size_t need = codepoint < 0x80 ? 1 : codepoint < 0x800 ? 2 :
            codepoint < 0x10000 ? 3 : 4;
        if (end - s < need)
            return NULL;
    }
    if (codepoint >= 0x80) {"""))
edit("sanitize-worst-case", "C20 C13 C32", C,
     ("    size_t sane_length =\n        t - s + bad_bytes * (sizeof REPLACEMENT_CHARACTER - 1);\n    char *sane = fsalloc(sane_length + 1);",
      "    char *sane = fsalloc(3 * (size_t) (t - s) + 1);\n    (void) bad_bytes;"))
edit("url-encoder-computed", "C21 C13 C32", C,
     ("        snprintf(encoder->table[i], sizeof encoder->table[i], \"%%%02X\", i);",
      "        encoder->table[i][0] = '%';\n        encoder->table[i][1] = \"0123456789ABCDEF\"[i >> 4];\n        encoder->table[i][2] = \"0123456789ABCDEF\"[i & 15];\n        encoder->table[i][3] = '\\0';"))
edit("url-encode-worst-case", "C21 C13 C32", C,
     ("    for (sp = string; *sp; sp++)\n        length += url_encoding_width(encoder, *sp);\n    char *encoding = fsalloc(length + 1);",
      "    (void) url_encoding_width;\n    length = 3 * strlen(string);\n    char *encoding = fsalloc(length + 1);"))
edit("url-decode-one-pass", "C21 C13 C32", C,
     ("""    char *decoding = fsalloc(length + 1);
    if (!decoding)
        return NULL;
    char *dp = decoding;
    ep = encoding;
""", """    char *decoding = fsalloc((ep - encoding) + 1);
    if (!decoding)
        return NULL;
    char *dp = decoding;
    ep = encoding;
"""))
edit("printf-small-buffer", "C31 C13 C32", C,
     ("    ssize_t length = vsnprintf(NULL, 0, format, copy);\n    va_end(copy);",
      "    char small[64];\n    ssize_t length = vsnprintf(small, sizeof small, format, copy);\n    va_end(copy);\n    if (length >= 0 && length < (ssize_t) sizeof small)\n        return charstr_dupsubstr(small, small + length);"))
edit("list-size-counted", "C06 C03 C04 C13 C32", L,
     ("size_t list_size(list_t *list)\n{\n    return list->size;",
      "size_t list_size(list_t *list)\n{\n    size_t n = 0;\n    list_elem_t *e;\n    for (e = list->first; e; e = e->next)\n        n++;\n    return n;"))
edit("list-foreach-reads-ahead", "C06 C03 C04 C13 C32", L,
     ("    for (e = list_get_first(list); e; e = list_next(e))\n        f(list_elem_get_value(e), arg);",
      "    for (e = list_get_first(list); e;) {\n        list_elem_t *next = list_next(e);\n        f(list_elem_get_value(e), arg);\n        e = next;\n    }"))
edit("stream-bounce", "C11 C13 C32", B,
     ("    ssize_t count = read_cb(obj, array->data + array->cursor, len);\n    if (count > 0)\n        array->cursor += count;",
      "    uint8_t *bounce = fsalloc(len + 1);\n    ssize_t count = read_cb(obj, bounce, len);\n    int err = errno;\n    if (count > 0) {\n        memcpy(array->data + array->cursor, bounce, count);\n        array->cursor += count;\n    }\n    fsfree(bounce);\n    errno = err;"))
edit("bytes-resize-shrinks", "C10 C11 C12 C13 C32", B,
     ("        memset(array->data + array->cursor, c, n - array->cursor);\n    }\n    array->cursor = n;",
      "        memset(array->data + array->cursor, c, n - array->cursor);\n    } else {\n        array->size = n + 1;\n        array->data = fsrealloc(array->data, array->size);\n    }\n    array->cursor = n;"))
edit("bytes-copy-in-parts", "C10 C12 C13 C32", B,
     ("    memmove(array->data + pos, data, len);\n    if (len > array->cursor - pos) {",
      "    size_t here = array->cursor - pos;\n    if (len <= here)\n        memmove(array->data + pos, data, len);\n    else {\n        memmove(array->data + pos, data, here);\n        memcpy(array->data + pos + here, (const uint8_t *) data + here,\n               len - here);\n    }\n    if (len > here) {"))
edit("intset-extra-word", "C09 C13 C32", I,
     ("    s->data = fscalloc(BITS_TO_LONGS(size), sizeof *s->data);",
      "    s->data = fscalloc(BITS_TO_LONGS(size) + 1, sizeof *s->data);"))
edit("intset-miss-by-has", "C09 C13 C32", I,
     ("    return intset_find_next(s, elem, false);",
      "    for (; elem < s->size; elem++)\n        if (!intset_has(s, elem))\n            return elem;\n    return -1;"))
edit("cmp-other-values", "C30 C01 C04 C32", "src/integer.c",
     ("    if (as_intptr(a) < as_intptr(b))\n        return -1;\n    if (as_intptr(a) > as_intptr(b))\n        return 1;\n    return 0;",
      "    return 7 * ((as_intptr(a) > as_intptr(b)) - (as_intptr(a) < as_intptr(b)));"))
edit("queue-one-based-locators", "C07 C08 C13 C32", Q,
     ("    prq->reloc(value, (void *) (intptr_t) slot, prq->obj);",
      "    prq->reloc(value, (void *) (intptr_t) (slot + 1), prq->obj);"),
     ("    size_t slot = (intptr_t) loc;", "    size_t slot = (intptr_t) loc - 1;"))
edit("queue-relocs-raised-first", "C07 C08 C13 C32", Q,
     ("    size_t slot = prq->capacity++;\n    assign(prq, raise(prq, slot, value), value);",
      "    size_t slot = prq->capacity++;\n    assign(prq, slot, value);\n    while (slot) {\n        size_t parent = (slot - 1) / 2;\n        const void *above = prq->storage[parent];\n        if (prq->cmp(value, above, prq->obj) >= 0)\n            break;\n        assign(prq, slot, above);\n        assign(prq, parent, value);\n        slot = parent;\n    }"))
edit("hash-fixed-capacity", "C03 C04 C05 C13 C32", H,
     ("    capacity = *goodp;", "    capacity = 7;"))
edit("hash-caches-hash", "C03 C04 C05 C13 C32", H,
     ("    element->list_index = list_index;", "    element->list_index = list_index;\n    (void) hash_table->hash(key);"))
edit("calloc-by-bytes", "C14 C13 C09", F,
     ("        memset(obj, 0, size);", "        for (uint8_t *p = obj; size--; p++)\n            *p = 0;"))
edit("realloc-zero-frees", "C14 C13", F,
     ("    return reallocator(ptr, size);", "    if (ptr && !size)\n        return reallocator(ptr, 0);\n    return reallocator(ptr, size);"))
edit("date-civil", "C17 C32", T,
     ("    days += FROM_1600_03_01;\n", """    {
        /* days from 0000-03-01 */
        long z = (long) days + 719468;
        long era = (z >= 0 ? z : z - 146096) / 146097;
        long doe = z - era * 146097;
        long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        long mp = (5 * doy + 2) / 153;
        tm->tm_mday = doy - (153 * mp + 2) / 5 + 1;
        tm->tm_mon = mp < 10 ? mp + 2 : mp - 10;
        tm->tm_year = yoe + era * 400 + (tm->tm_mon <= 1) - 1900;
        if (tm->tm_mday)
            return tm;
    }
    days += FROM_1600_03_01;
"""))
edit("date-no-yday", "C17 C32", T,
     ("    tm->tm_yday = -1;           /* not supported */\n", "    tm->tm_yday = 0;\n"))
edit("float-by-shifts", "C18 C32", "src/float.c",
     ("    bool negative = value >> 63;\n    uint64_t mask = ~0ULL >> 12;\n", "    bool negative = (value & 1ULL << 63) != 0;\n    uint64_t mask = (1ULL << 52) - 1;\n"))
edit("base64-decode-table", "C16 C13 C32", S,
     ("    if (c == pos62)\n        return 62;\n    if (c == pos63)\n        return 63;\n    int8_t",
      "    if (c == pos62 || c == pos63)\n        return c == pos62 ? 62 : 63;\n    int8_t"))
edit("base64-encode-bytewise", "C15 C13 C32", S,
     ("    size_t dest_body_counter = dest_size / 4;\n    while (dest_body_counter-- && q < tail) {",
      "    while (dest_size - i >= 4 && q < tail) {"))
edit("base64-decode-sized-twice", "C16 C13 C32", S,
     ("    uint8_t *result = fsalloc(count + 1);\n    (void) base64_decode_buffer(encoding, -1, result, count, -1, -1, true);",
      "    size_t most = strlen(encoding);\n    uint8_t *result = fsalloc(most + 1);\n    (void) base64_decode_buffer(encoding, most, result, most, -1, -1, true);"))
edit("decompose-bubble", "C24 C25 C29 C32", D,
     ("    if (q == output_end) {\n        errno = EOVERFLOW;\n        return NULL;\n    }\n    *q = '\\0';\n    sort_combining_characters(output, q);",
      "    sort_combining_characters(output, q);\n    if (q == output_end) {\n        errno = EOVERFLOW;\n        return NULL;\n    }\n    *q = '\\0';"))
edit("recompose-hangul-direct", "C25 C29 C32", R,
     ("                if (ti > 0&& ti < T_COUNT) {", "                if (codepoint > T_BASE && codepoint < T_BASE + T_COUNT) {"))
edit("recompose-more-marks", "C25 C29 C32", R,
     ("    MAX_CC_SEQ_LENGTH = 100\n", "    MAX_CC_SEQ_LENGTH = 1000\n"))
edit("detect-flags-first", "C26 C29 C32", "src/charstr_unicode.c",
     ("        if (ccc && last_canonical_class > ccc)\n            return disallowed_flag;\n        int check = charstr_allowed_unicode_normal_forms(codepoint);\n        if (check & disallowed_flag)\n            return disallowed_flag;",
      "        int check = charstr_allowed_unicode_normal_forms(codepoint);\n        if (check & disallowed_flag || (ccc && last_canonical_class > ccc))\n            return disallowed_flag;"))
edit("idna-decomposes-late", "C29 C13 C32", P,
     ("    if (charstr_unicode_canonically_composed(hostname, end))\n        return encode_nfc(hostname, end);\n", ""))
edit("idna-long-long-delta", "C29 C32", P,
     ("    int n = INITIAL_N;\n    int delta = 0;", "    int n = INITIAL_N;\n    long long delta = 0;"),
     ("            int q = delta;", "            long long q = delta;"))
A2 = "src/avltree.c"
edit("avl-destroy-iterative", "C01 C02 C03 C13 C32", A2,
     ("    if (element != NULL) {\n        destroy_subtree(element->left);\n        destroy_subtree(element->right);\n        fsfree(element);\n    }",
      "    avl_elem_t *top = element ? element->parent : NULL;\n    while (element != top) {\n        if (element->left) {\n            avl_elem_t *l = element->left;\n            element->left = NULL;\n            element = l;\n        } else if (element->right) {\n            avl_elem_t *r = element->right;\n            element->right = NULL;\n            element = r;\n        } else {\n            avl_elem_t *up = element->parent;\n            fsfree(element);\n            element = up;\n        }\n    }"))


def one(e):
    ident, props, path, pairs = e
    work = tempfile.mkdtemp(prefix="neutral-")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True,
                        ignore=shutil.ignore_patterns("stage"))
        p = os.path.join(repo, path)
        text = open(p).read()
        for old, new in pairs:
            if text.count(old) != 1:
                return ident + ": does not apply (%d)" % text.count(old)
            text = text.replace(old, new)
        open(p, "w").write(text)
        bad = []
        env = dict(os.environ, VERIF_REPO=repo)
        for prop in props:
            r = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "check.py"), prop],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                bad.append(prop + " " + str(r.returncode) + " " +
                           r.stdout.decode(errors="replace")[-600:])
        return ident + (": quiet (%s)" % " ".join(props) if not bad else
                        ": ALARM " + " | ".join(bad))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    todo = [e for e in E if not a.ids or e[0] in a.ids]
    with cf.ThreadPoolExecutor(a.j) as ex:
        for line in ex.map(one, todo):
            print(line, flush=True)


if __name__ == "__main__":
    main()
