#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "The AVL tree behaves as an ordered map for every history of operations",
 "After any sequence of insertions, replacements, removals and pops, every lookup (exact, strictly/weakly before, strictly/weakly after, first, last, successor, predecessor), the size and the emptiness test agree with a mathematical map ordered by the caller's comparator. Inserting under a present key returns the displaced association and keeps the size, except that re-inserting the value already stored at that key has no effect and returns nothing; popping or detaching returns exactly the association that was there.",
 ["histories", "inputs"], "all sequences of tree operations over any keys and values",
 "avltest inserts a million random distinct keys and pops them in insertion order; it never replaces a key, never calls the before/after lookups, and checks the tree at five points only.",
 ["src/avltree.c", "include/avltree.h"],
 [("insertion with rebalancing", "src/avltree.c: put, put_left, put_right, rotate_left, rotate_right"), ("removal", "src/avltree.c: avl_tree_detach, exchange, lighten_*"), ("neighbour search", "src/avltree.c: avl_tree_get_before ... avl_tree_next")],
 ["return values of the avl_tree_* calls"],
 [{"name": "tree", "meaning": "map from comparator-equivalence classes of keys to (key object, value)", "where": "struct avl_tree"}])

prop("C02", "The AVL tree stays height-balanced, so every lookup is logarithmic",
 "After any history of insertions and removals, the search structure is height-balanced: at every entry, the longest search path into its smaller keys and into its larger keys differ by at most one. Hence looking up a key in a tree of n entries never invokes the comparator more often than the AVL height bound for n (about 1.44 log2(n+2)).",
 ["histories"], "all histories of insertions and removals; the search structure is observed through the comparator calls that lookups make",
 "avltest checks a loose height limit for three big trees after bulk loading and after removing half; no interleaving of insertions and removals, no per-entry balance.",
 ["src/avltree.c"],
 [("rotations and balance factors", "src/avltree.c: rotate_left, rotate_right, put_*, lighten_*")],
 ["comparator callback sequence during avl_tree_get"])

prop("C03", "Copies are independent snapshots and detached entries stay intact",
 "Copying a tree or a list yields a container with the same entries in the same order, and no later operation on either one, including destroying it, is observable through the other. An association that was popped, detached or displaced from a tree or hash table keeps its key and value, whatever happens to the container, until the caller destroys it.",
 ["histories"], "all interleavings of operations on a container, its copies, and the entries taken out of them",
 "avltest drains one copy per tree without ever modifying original and copy in turn; list copies and detached entries are not tested at all.",
 ["src/avltree.c", "src/list.c", "src/hashtable.c"],
 [("deep copy of nodes", "src/avltree.c: copy_tree; src/list.c: list_copy"), ("unlinking on removal", "avl_tree_detach, hash_table_detach, list_remove")],
 ["avl_tree_copy, list_copy, *_elem_get_key, *_elem_get_value"])

prop("C04", "The hash table behaves as a map for every history, hash and capacity",
 "For every key hash function, comparator, capacity hint and sequence of insertions, replacements, lookups, detachments, removals and pops, the hash table agrees with a mathematical map, and the reported size is the number of associations. Inserting under a present key returns the displaced association and keeps the size, except that re-inserting the value already stored there has no effect and returns nothing.",
 ["histories", "inputs", "configurations"], "all operation sequences, hash functions (including constant ones) and capacity hints",
 "the hash table has no test in the repository.",
 ["src/hashtable.c", "include/hashtable.h"],
 [("bucket chains", "src/hashtable.c: hash_table_put, hash_table_get, hash_table_detach, add_element"), ("bucket count choice", "src/hashtable.c: make_hash_table, GOOD_SIZES")],
 ["return values of the hash_table_* calls"],
 [{"name": "table", "meaning": "map from comparator-equivalence classes of keys to (key object, value)", "where": "struct hash_table"}])

prop("C05", "Hash table traversal visits every entry exactly once; popping any drains it",
 "In any state, starting from the get-any element and repeatedly asking for another element enumerates every association exactly once and then ends. Popping arbitrary elements returns each association exactly once until the table is empty and reports nothing afterwards, and get-any/pop-any report nothing exactly when the table is empty.",
 ["histories", "configurations"], "all reachable table states, hash functions and capacities",
 "the hash table has no test in the repository.",
 ["src/hashtable.c"],
 [("bucket scan", "src/hashtable.c: get_next, hash_table_get_any, hash_table_get_other, hash_table_pop_any")],
 ["hash_table_get_any, hash_table_get_other, hash_table_pop_any"])

prop("C06", "The list behaves as a sequence for every history of operations",
 "After any mix of appending, prepending, inserting before an element, removing by element, popping at either end and copying, forward traversal, backward traversal, first/last, index lookup, search by value, foreach, size and emptiness all agree with one mathematical sequence. An element handle keeps denoting the same member at its current place until that member is removed; index lookups outside the list and pops of an empty list report nothing.",
 ["histories", "inputs"], "all operation sequences and all element handles",
 "the list has no test of its own; other tests use append, pop_first and foreach only.",
 ["src/list.c", "include/list.h"],
 [("link surgery", "src/list.c: list_append, list_prepend, list_insert_before, list_remove")],
 ["return values of the list_* calls, list_foreach callback order"],
 [{"name": "list", "meaning": "sequence of members", "where": "struct list"}])

prop("C07", "The priority queue always serves a highest-priority element and loses none",
 "After any sequence of enqueue, dequeue, peek, pop and locator-based removals, dequeue and peek return an element that no queued element precedes in priority, and peek agrees with the next dequeue. Elements leave the queue exactly as often as they entered it (equal priorities and the same element enqueued twice included), size and emptiness always agree with that multiset, and an empty queue yields nothing.",
 ["histories", "inputs"], "all operation sequences and priority assignments, including ties and duplicates",
 "priorq_test enqueues a million distinct random elements and dequeues them all; it never interleaves, never uses ties, pop, peek or remove.",
 ["src/priority_queue.c", "include/priority_queue.h"],
 [("heap sift-up and sift-down", "src/priority_queue.c: raise, lower"), ("array growth", "src/priority_queue.c: priorq_enqueue")],
 ["return values of the priorq_* calls"])

prop("C08", "Priority queue locators stay valid: removal takes out exactly that element",
 "At any point of any history, the locator most recently reported through the relocation callback for each queued element is unique among the queued elements, and removing by that locator takes out and returns exactly that element, leaving all the others queued in correct priority order. The callback and comparator receive the context object they were registered with, and only ever see elements that are in, entering or leaving the queue.",
 ["histories"], "all histories of enqueue, dequeue, pop and remove with a relocation callback",
 "no test ever calls the removal function or reads a locator.",
 ["src/priority_queue.c"],
 [("relocation on every placement", "src/priority_queue.c: assign"), ("removal from the middle", "src/priority_queue.c: priorq_remove")],
 ["reloc callback, priorq_remove"])

prop("C09", "The integer set behaves as a bounded set of small integers",
 "For every capacity and every history of add, remove and fill, membership, emptiness, and next-member/next-non-member search from any starting point agree with a mathematical subset of 0..capacity-1. Integers outside the capacity are never members, adding or removing them has no effect, and searches never report them.",
 ["histories", "inputs", "configurations"], "all capacities, operation sequences and probe values",
 "intset_test adds random elements to one 256-element set and never calls fill, uses a capacity that is not a multiple of the word size, or probes outside the capacity.",
 ["src/intset.c", "include/intset.h"],
 [("bit words", "src/intset.c: intset_add, intset_remove, intset_fill, intset_find_next")],
 ["intset_has, intset_find_next_hit, intset_find_next_miss, intset_empty"])

prop("C10", "A byte array holds exactly the bytes written to it, NUL-terminated and bounded",
 "For every history of append, copy-at-position, clear and resize, the content and size equal those of a mathematical byte sequence, and the byte after the content is NUL. The sequence never exceeds the maximum size less one: an operation that would exceed it, or that copies to a position beyond the end, reports failure (ENOSPC for lack of space) and leaves content and size unchanged; every other operation succeeds.",
 ["histories", "inputs", "configurations"], "all maximum sizes (at least 1), operation sequences, positions, lengths and contents, including a source inside the array when no growth is needed",
 "bytearray_test runs one 20-step script on an array of maximum size 8; buffer growth and most boundaries are never reached.",
 ["src/bytearray.c", "include/bytearray.h"],
 [("bounds and growth", "src/bytearray.c: ensure_space"), ("writers", "src/bytearray.c: byte_array_copy, byte_array_append, byte_array_resize, byte_array_clear")],
 ["byte_array_data, byte_array_size, return values, errno"])

prop("C11", "Appending from a stream adds exactly what the reader delivered",
 "For every array state, requested length and reader behaviour, the reader is offered exactly the smaller of the requested length and the room left (maximum size less one less content), and is called exactly once unless there is no room at all for a nonempty request, in which case the call fails with ENOSPC. If the reader delivers n > 0 bytes, the content grows by exactly those bytes and stays NUL-terminated; if it delivers none or fails, its result is passed on and the content and size are unchanged.",
 ["histories", "inputs", "fault_sequences"], "all array states, lengths and reader results (full, partial, zero, error)",
 "bytearray_test calls it twice with a reader that never fails or delivers nothing.",
 ["src/bytearray.c"],
 [("stream append", "src/bytearray.c: byte_array_append_stream")],
 ["reader callback arguments, return value, errno, byte_array_data"])

prop("C12", "A shared byte array lives until its last owner destroys it",
 "Sharing an array yields the same array: every change made through one owner is visible to all, and the content stays valid until the number of destructions equals the number of shares plus one, at which point (and not before) its memory is released. The C++ owning wrappers release the wrapped object exactly once.",
 ["histories"], "all interleavings of share, destroy and content operations, with any number of owners",
 "no test ever shares an array or uses the C++ wrappers.",
 ["src/bytearray.c", "include/bytearray.h", "include/fsalloc.h", "include/charstr.h"],
 [("reference count", "src/bytearray.c: share_byte_array, destroy_byte_array"), ("unique_ptr deleters", "include/bytearray.h, include/fsalloc.h, include/charstr.h")],
 ["reallocator calls, byte_array_data"])

prop("C13", "All memory flows through the installed reallocator and is returned to it",
 "Every block the library obtains comes from the reallocator installed at the time, and only live blocks obtained there are resized or released, each at most once. After any history, once the caller has destroyed the containers, encoders, elements and strings it was handed, no block obtained by the library is outstanding.",
 ["histories", "inputs"], "all histories over all modules that allocate, including their failure paths",
 "the tests run under valgrind, but leaks and frees are judged only on the few paths those tests take (no replacement, no removal, no failing encodings).",
 ["src/fsalloc.c", "src/avltree.c", "src/hashtable.c", "src/list.c", "src/priority_queue.c", "src/intset.c", "src/bytearray.c", "src/base64.c", "src/charstr.c", "src/charstr_puny.c"],
 [("single allocation gateway", "src/fsalloc.c: fsalloc, fsrealloc, fsfree, fscalloc"), ("destructors", "destroy_* functions")],
 ["calls received by the installed reallocator; calls to malloc/free made outside it"])

prop("C14", "Allocation primitives honour their contract for every size and reallocator",
 "With any reallocator installed, allocation, reallocation and release pass exactly the requested size and block on (releasing means size zero, and releasing nothing does nothing), the getters return what was last installed, and the counter hook receives exactly the skew values reported. Zeroed allocation of n items returns a block all of whose n times size bytes are zero, and never one shorter than that product even when it overflows.",
 ["inputs", "configurations", "histories"], "all sizes, item counts and sequences of installing reallocators and counters",
 "no test covers the allocator; custom reallocators, the counter and overflow are never exercised.",
 ["src/fsalloc.c", "include/fsalloc.h"],
 [("delegation", "src/fsalloc.c")],
 ["reallocator and counter callbacks, returned blocks"])

prop("C15", "Base64 encoding is RFC 4648 exact and safe for every buffer size",
 "For every binary input, output buffer size and choice of the two variable characters, the encoder returns the full RFC 4648 encoding length, writes the longest prefix of that encoding which fits together with its NUL terminator, and touches nothing beyond the given buffer (nor anything if its size is zero). The size function predicts that length for every input size or reports overflow, and the allocating variant returns the complete NUL-terminated encoding.",
 ["inputs"], "all inputs, buffer sizes and alphabet choices",
 "base64_test encodes five fixed strings with the default alphabet.",
 ["src/base64.c", "include/base64.h"],
 [("encoder", "src/base64.c: base64_encode_buffer, put4, base64_char"), ("size computation", "src/base64.c: base64_encoding_size")],
 ["return value and buffer contents"])

prop("C16", "Base64 decoding accepts exactly valid encodings and inverts encoding",
 "For every input text, length limit, output size, alphabet choice and whitespace mode, decoding succeeds exactly when the text (up to its length limit or NUL) is a canonical, correctly padded encoding in that alphabet, with whitespace allowed only if asked for (then anywhere except between two padding characters); otherwise it fails with EILSEQ. On success it returns the full decoded length and writes exactly the prefix that fits in the given buffer, so decoding an encoding gives back the original bytes.",
 ["inputs"], "all byte strings, limits, buffer sizes, alphabets and whitespace modes",
 "base64_test decodes five valid strings and no invalid one.",
 ["src/base64.c", "include/base64.h"],
 [("decoder", "src/base64.c: base64_decode_buffer, get_bits, good_base64_tail, good_termination"), ("decoding table", "src/base64.c: base64_bitfield_decoding")],
 ["return value, errno and buffer contents"])

prop("C17", "Epoch seconds break down to the correct UTC date, time and weekday",
 "For every time in seconds before or after the epoch (years up to hundreds of thousands away), the year, month, day of month, hour, minute, second and weekday are those of the proleptic Gregorian calendar in UTC, and daylight saving is reported as off.",
 ["inputs"], "all epoch values whose day number fits comfortably in an int",
 "date_test samples every 17113th second between 1970 and 2038.",
 ["src/date.c", "include/date.h"],
 [("400/100/4/1-year cycles from 1600-03-01", "src/date.c: epoch_to_utc"), ("day-of-year table", "src/date.c: YDAY_INFO")],
 ["struct tm fields"])

prop("C18", "Floating-point to integer conversion is exact or refused",
 "For each of the 2^64 bit patterns of IEEE 754 binary64, conversion to a signed or unsigned 64-bit integer succeeds exactly when the pattern denotes an integer (either zero included) representable in the target type, and then yields exactly that integer; NaNs, infinities, fractions and out-of-range values are refused.",
 ["inputs"], "all 2^64 bit patterns",
 "float_test tries a dozen values each.",
 ["src/float.c", "include/float.h"],
 [("exponent and significand arithmetic", "src/float.c: binary64_to_integer, binary64_to_unsigned")],
 ["return value and result"])

prop("C19", "UTF-8 decoding, validation and encoding follow RFC 3629 exactly",
 "For every byte string and bound, decoding one codepoint succeeds exactly when a shortest-form encoding of a Unicode scalar value lies at the start and within the bound, and then yields that value and the position just after it without reading past the bound; a string is valid exactly when it is a concatenation of such encodings. Encoding any scalar value writes exactly its RFC 3629 encoding if it fits the bound and reports failure otherwise without writing past the bound, so decoding inverts encoding.",
 ["inputs"], "all byte strings, bounds and codepoints",
 "charstr_test decodes one valid four-character string.",
 ["src/charstr.c", "include/charstr.h"],
 [("decoder", "src/charstr.c: charstr_decode_utf8_codepoint, valid_unicode"), ("encoder", "src/charstr.c: charstr_encode_utf8_codepoint"), ("validation", "src/charstr.c: charstr_valid_utf8, charstr_valid_utf8_bounded")],
 ["return values and buffers"])

prop("C20", "Sanitizing always yields valid UTF-8 and preserves valid text",
 "For every NUL-terminated byte string, the sanitized copy is valid UTF-8 in which every maximal valid encoding of the input is kept verbatim and in order and each other byte is replaced by one U+FFFD. Valid input is returned unchanged, so sanitizing twice is the same as sanitizing once.",
 ["inputs"], "all NUL-terminated byte strings",
 "charstr_test sanitizes one string.",
 ["src/charstr.c"],
 [("two-pass copy", "src/charstr.c: charstr_sanitize_utf8")],
 ["returned string"])

prop("C21", "URL encoding is reversible and URL decoding accepts exactly legal input",
 "For every string, URL-decoding its URL-encoding (with plus meaning space) gives the string back; letters and digits encode as themselves, space as plus, control, non-ASCII and reserved bytes as %XX in upper case, and a custom encoder percent-encodes exactly its reserved extras and leaves its unreserved extras alone, without affecting other encoders. Decoding fails with EILSEQ exactly when a percent sign is not followed by two hexadecimal digits, and otherwise yields the exact bytes and length, embedded NULs included, with plus treated as asked.",
 ["inputs", "configurations"], "all strings, reserve/unreserve sets and plus modes",
 "charstr_test encodes and decodes one string with two encoders; no illegal input.",
 ["src/charstr.c", "include/charstr.h"],
 [("encoding tables", "src/charstr.c: url_encoder, charstr_create_url_encoder"), ("decoder", "src/charstr.c: charstr_url_decode")],
 ["returned strings, sizes, errno"])

prop("C22", "Splitting and stripping strings neither lose, invent nor reorder characters",
 "For every string, delimiter and split limit, splitting happens at the leftmost occurrences of the delimiter: the pieces joined with the delimiter give back the string, there are at most limit+1 pieces, no piece before the last contains the delimiter, and the last contains it only if the limit was reached; list, array and string-delimiter variants agree with one another. Splitting into atoms yields exactly the maximal runs of non-whitespace in order, stripping removes exactly the leading and trailing whitespace, and duplicating a string or a substring copies exactly it.",
 ["inputs"], "all strings, nonempty delimiters and limits",
 "used by other tests as a helper on well-formed data files; limits and edge cases are not asserted.",
 ["src/charstr.c", "include/charstr.h"],
 [("splitters", "src/charstr.c: charstr_split, charstr_split_into_array, charstr_split_str, charstr_split_atoms"), ("strip and dup", "src/charstr.c: charstr_strip, charstr_dupsubstr")],
 ["returned lists, arrays and strings"])

prop("C23", "ASCII case, comparison, prefix/suffix and classification are exact",
 "For all bytes and strings, character classes, digit values and case conversions are those of ASCII regardless of locale, leaving non-ASCII bytes alone. Case-insensitive comparison orders strings as byte-wise comparison of their lower-cased forms (limited to the first n characters where a limit is given), and prefix skipping (exact or case-insensitive) and suffix tests succeed exactly when the prefix or suffix is there, pointing just past the prefix.",
 ["inputs"], "all bytes, string pairs and limits",
 "charstr_test covers the suffix test on one string; comparison, classes and prefixes are untested.",
 ["src/charstr.c", "include/charstr.h"],
 [("lookup tables", "src/charstr.c: case_table, char_class, digit_value"), ("comparators", "src/charstr.c: charstr_case_cmp, charstr_ncase_cmp, charstr_skip_prefix, charstr_ends_with")],
 ["return values, in-place results"])

prop("C24", "Canonical decomposition produces NFD for every valid string or fails cleanly",
 "For every valid UTF-8 string that fits, the output is its Unicode 13 NFD form (full canonical decomposition including Hangul, combining marks stably sorted by combining class), NUL-terminated, with the returned position at its end; it always fits in three times the input plus one. If the NFD form with its terminator does not fit, the call fails with EOVERFLOW, and on invalid UTF-8 with EILSEQ; nothing is ever written beyond the output bound or read beyond the input bound.",
 ["inputs"], "all strings, input bounds and output buffer sizes",
 "the normalization test replays NormalizationTest.txt with 1000-byte buffers and no bounds; long mark sequences, tight buffers and invalid inputs are not covered.",
 ["src/charstr_decompose.c", "src/decomposition.py", "src/canonical_combining_classes.py"],
 [("recursive decomposition", "src/charstr_decompose.c: decompose_fully, decompose_hangul"), ("canonical ordering", "src/charstr_decompose.c: sort_combining_characters")],
 ["output buffer, return value, errno"])

prop("C25", "Canonical recomposition produces NFC for every canonical string or fails cleanly",
 "For every valid UTF-8 string in canonical (NFD) form with at most 100 combining marks on any starter, the output is its Unicode 13 NFC form, NUL-terminated, with the returned position at its end, never longer than the input; longer mark sequences give the right result or fail. If the result with its terminator does not fit, the call fails with EOVERFLOW, and on invalid UTF-8 with EILSEQ; nothing is written beyond the output bound or read beyond the input bound.",
 ["inputs"], "all NFD strings, input bounds and output buffer sizes",
 "the normalization test replays NormalizationTest.txt with 1000-byte buffers and no bounds; blocking across long mark sequences, tight buffers and invalid inputs are not covered.",
 ["src/charstr_recompose.c", "src/recomposition.py"],
 [("recomposer state machine", "src/charstr_recompose.c: recomposer_feed, recomposer_read, recomposer_terminate"), ("Hangul recomposer", "src/charstr_recompose.c: hangul_recomposer_feed")],
 ["output buffer, return value, errno"])

prop("C26", "Normal form detection is sound and follows the Unicode quick check",
 "For every string and bound, detection returns exactly the Unicode 13 quick-check answer (allowed, disallowed or maybe, from combining-class order and per-codepoint flags) for the requested form up to the first violation, or -1 with EILSEQ if it meets invalid UTF-8 first. Whenever a string is reported as canonically composed (decomposed), it is valid UTF-8 and equal to its own NFC (NFD) form.",
 ["inputs"], "all strings, bounds and flag pairs",
 "charstr_test checks three fixed strings.",
 ["src/charstr_unicode.c", "src/allowed_in_normal_form.py"],
 [("quick check loop", "src/charstr_unicode.c: charstr_detect_unicode_normal_form")],
 ["return value, errno"])

prop("C27", "Unicode character properties equal the Unicode 13 database for all codepoints",
 "For every codepoint 0..10FFFF, the general category (Cn if unassigned), canonical combining class, and normal-form flags equal those of the Unicode 13 Character Database. The naive case mappings send uppercase (Lu) letters to their simple lowercase and lowercase (Ll) letters to their simple uppercase mapping and every other codepoint to itself.",
 ["inputs"], "all 1,114,112 codepoints, every table",
 "charstr_test maps 24 letters; categories, flags and combining classes are tested only indirectly.",
 ["src/categorize.py", "src/canonical_combining_classes.py", "src/allowed_in_normal_form.py", "src/lower_case.py", "src/upper_case.py"],
 [("table generators", "src/*.py run by src/SConscript")],
 ["charstr_unicode_category, charstr_unicode_canonical_combining_class, charstr_allowed_unicode_normal_forms, charstr_naive_lcase_unicode, charstr_naive_ucase_unicode"])

prop("C28", "Every codepoint has exactly one IDNA status and the right mapping",
 "For every codepoint 0..10FFFF, exactly one of the seven IDNA statuses holds, it and the status name are the ones the UTS #46 (version 13) mapping table gives, and the mapping is the table's UTF-8 mapping, or nothing where the table gives none.",
 ["inputs"], "all 1,114,112 codepoints",
 "the IDNA test exercises a few hundred codepoints indirectly and accepts any refusal.",
 ["src/gen_idna_table.c", "src/charstr_puny.c"],
 [("table generator", "src/gen_idna_table.c: generate_test, generate_set, generate_mappings"), ("status name", "src/charstr_puny.c: charstr_idna_status")],
 ["charstr_idna_status_is_*, charstr_idna_status, charstr_idna_mapping"])

prop("C29", "IDNA encoding yields the correct ASCII hostname or refuses, and never crashes",
 "For every byte string, an all-ASCII hostname yields its lower-cased copy, and any other yields either nothing or the hostname in which each label of its normalized, UTS #46-mapped form (non-transitional, STD3 rules) is lower-case ASCII or xn-- followed by its RFC 3492 punycode, with every label at most 63 and the whole at most 253 characters (254 with a final dot). Invalid UTF-8, disallowed codepoints and overlong results are always refused, and hostnames that are valid and short enough are never refused.",
 ["inputs"], "all byte strings as hostnames",
 "charstr_idna_test replays IdnaTestV2.txt but treats every refusal as a pass, and that file has no overlong or mark-heavy names beyond a few.",
 ["src/charstr_puny.c", "src/charstr_unicode.c", "src/charstr_recompose.c", "src/charstr_decompose.c"],
 [("pipeline", "src/charstr_puny.c: charstr_idna_encode, encode_nfd, encode_nfc, encode_filtered"), ("punycode", "src/charstr_puny.c: punycode_encode_pass1, punycode_encode_pass2, adapt")],
 ["returned string"])

prop("C30", "Integer keys, their comparators and the hash functions are consistent",
 "Boxing and unboxing any signed or unsigned pointer-sized integer gives the integer back, and the signed and unsigned comparators are the numeric total orders over the whole range. The hash functions depend only on the value, string or bytes hashed, so equal keys hash equally: string hashing sees exactly the characters before the NUL, blob hashing exactly the given bytes.",
 ["inputs"], "all pointer-sized integers, strings and blobs",
 "no test covers these.",
 ["src/integer.c", "include/integer.h", "src/hashtable.c"],
 [("casts and comparisons", "include/integer.h, src/integer.c"), ("polynomial hashes", "src/hashtable.c: hash_string, hash_blob, hash_integer, hash_unsigned")],
 ["return values"])

prop("C31", "Formatted strings are complete and exact however long they are",
 "For every format and arguments, the formatting functions return a fresh NUL-terminated string equal to what the C formatter produces for them, of any length, and the argument-list variant behaves identically. Where the C formatter refuses (a wide character that cannot be represented), nothing is returned and errno is EILSEQ.",
 ["inputs"], "all formats, arguments and result lengths",
 "no test covers these.",
 ["src/charstr.c"],
 [("measure then print", "src/charstr.c: charstr_vprintf")],
 ["returned string"])

prop("C32", "Containers and calls are independent of each other",
 "Every container answers according to the operations on that container alone, whatever is done in between to other containers of the same or another kind, also when a comparison, hash, relocation or reading function that one of them calls makes, changes or destroys others (never the one being operated on). Every text, number, date and encoding function answers according to the contents of its arguments alone, whatever was called before, with whatever result, and wherever the arguments lie in memory.",
 ["histories", "inputs"], "all interleavings and nestings of operations on any number of containers; all sequences of calls",
 "the tests use one container at a time, with callbacks that only compare, and call each function on unrelated arguments kept at fresh addresses.",
 ["src/avltree.c", "src/hashtable.c", "src/list.c", "src/priority_queue.c", "src/intset.c", "src/bytearray.c", "src/base64.c", "src/date.c", "src/float.c", "src/charstr.c", "src/charstr_puny.c", "src/charstr_unicode.c"],
 [("callbacks in the midst of an operation", "src/avltree.c: avl_tree_put, avl_tree_pop; src/hashtable.c: hash_table_put, hash_table_get; src/priority_queue.c: priorq_enqueue; src/bytearray.c: byte_array_append_stream"), ("no state kept between calls", "all of src/*.c")],
 ["return values and traversals of each container by itself; return values of the functions"])

prop("C33", "Threads that share nothing do not disturb each other",
 "When several threads each work on containers, encoders, buffers and strings of their own at the same time, every call in each of them gives, however their steps interleave, the results it would give if its thread ran alone. Only the installation of the reallocator and of its counter concerns all threads.",
 ["schedules"], "all interleavings of calls that have no arguments in common",
 "the tests are single-threaded; which steps of two calls coincide cannot be sampled from outside.",
 ["src/avltree.c", "src/hashtable.c", "src/list.c", "src/priority_queue.c", "src/intset.c", "src/bytearray.c", "src/base64.c", "src/date.c", "src/float.c", "src/charstr.c", "src/charstr_puny.c", "src/charstr_unicode.c", "src/charstr_decompose.c", "src/charstr_recompose.c"],
 [("what a call works with is on its stack or in its container", "all of src/*.c; src/charstr_puny.c: encode_nfc, punycode_encode; src/charstr_recompose.c: charstr_unicode_recompose")],
 ["return values, buffers written and traversals, thread by thread"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
