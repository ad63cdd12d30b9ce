import fam_avl, fam_bytes, fam_codec, fam_indep, fam_intset, fam_hash, fam_list, fam_priorq, fam_unicode, fam_mem, core

MC = "model_checking"


def c03(ctx):
    exe = core.build_driver(ctx, "drv_containers.c")
    core.model_check(ctx, "AvlCopies", ctx.pick("AvlCopies", "AvlCopies3"))
    n = ctx.pick(1, 8)
    core.conform(ctx, exe, fam_avl.copied_walks(ctx, fam_avl.model_walks(ctx)),
                 "avl-copied", "TraceAvl")
    core.conform(ctx, exe, fam_avl.copy_script(ctx, 12 * n, 150, 12),
                 "avl-copies", "TraceAvl")
    core.conform(ctx, exe, fam_avl.copy_script(ctx, 4 * n, 200, 60),
                 "avl-copies-big", "TraceAvl")
    core.conform(ctx, exe, fam_list.random_script(ctx, 25 * n, 120, True, 1),
                 "list-copies", "TraceList")
    core.conform(ctx, exe, fam_hash.loose_script(ctx, 24 * n, 120, 12),
                 "hash-loose", "TraceHash", reuse=True)


CHECKS = {
    "C01": (fam_avl.c01, MC),
    "C02": (fam_avl.c02, MC),
    "C03": (c03, MC),
    "C04": (fam_hash.c04, MC),
    "C05": (fam_hash.c05, MC),
    "C06": (fam_list.c06, MC),
    "C07": (fam_priorq.c07, MC),
    "C08": (fam_priorq.c08, MC),
    "C09": (fam_intset.c09, MC),
    "C10": (fam_bytes.c10, MC),
    "C11": (fam_bytes.c11, MC),
    "C12": (fam_bytes.c12, MC),
    "C13": (fam_mem.c13, MC),
    "C14": (fam_codec.c14, MC),
    "C15": (fam_codec.c15, MC),
    "C16": (fam_codec.c16, MC),
    "C17": (fam_codec.c17, MC),
    "C18": (fam_codec.c18, MC),
    "C19": (fam_codec.c19, MC),
    "C20": (fam_codec.c20, MC),
    "C21": (fam_codec.c21, MC),
    "C22": (fam_codec.c22, MC),
    "C23": (fam_codec.c23, MC),
    "C24": (fam_unicode.c24, MC),
    "C25": (fam_unicode.c25, MC),
    "C26": (fam_unicode.c26, MC),
    "C27": (fam_unicode.c27, MC),
    "C28": (fam_unicode.c28, MC),
    "C29": (fam_unicode.c29, MC),
    "C30": (fam_codec.c30, MC),
    "C31": (fam_codec.c31, MC),
    "C32": (fam_indep.c32, MC),
    "C33": (fam_indep.c33, MC),
}

DEFAULT_TECHNIQUE = ("TLA+ specification checked with TLC; logs of the real "
                     "code validated against it with TLC")
MODULES = {
    "C01": ("AvlTree", "AvlMap, Large", "TraceAvl, TraceLarge"),
    "C02": ('AvlTree', 'its AVL invariant', 'TraceAvlShape'),
    "C03": ('AvlCopies', 'AvlMap, ListSeq, HashMap', 'TraceAvl, TraceList, TraceHash'),
    "C04": ('HashTable', 'HashMap', 'TraceHash, TraceLarge'),
    "C05": ('HashTable', 'HashMap', 'TraceHash, TraceLarge'),
    "C06": ('ListPtr', 'ListSeq', 'TraceList, TraceLarge'),
    "C07": ('Heap', 'PriorQ', 'TracePriorQ, TraceLarge'),
    "C08": ('Heap', 'PriorQ', 'TracePriorQ, TraceLarge'),
    "C09": ('IntSetWords', 'IntSet', 'TraceIntSet, TraceLarge'),
    "C10": ('ByteArrayBuf', 'ByteArray', 'TraceBytes, TraceLarge'),
    "C11": ('ByteArrayBuf', 'ByteArray', 'TraceBytes, TraceLarge'),
    "C12": ('Owners', 'ByteArray, Owners', 'TraceBytes, TraceOwners, TraceLarge'),
    "C13": ('MemoryMC', 'Memory', 'TraceMem'),
    "C14": ('AllocMC', 'Alloc, BigNat', 'TraceAlloc'),
    "C15": ('Base64Round', 'Base64', 'TraceBase64'),
    "C16": ('Base64Machine', 'Base64', 'TraceBase64'),
    "C17": ('CalendarSteps', 'Calendar', 'TraceDate'),
    "C18": ('BinarySmall', 'Binary64', 'TraceFloat'),
    "C19": ('Utf8Dfa', 'Utf8', 'TraceUtf8'),
    "C20": ('Utf8Dfa', 'Utf8', 'TraceUtf8'),
    "C21": ('UrlMachine', 'Url', 'TraceUrl'),
    "C22": ('StringsMachine', 'Strings', 'TraceStrings'),
    "C23": ('AsciiMC', 'Strings', 'TraceStrings'),
    "C24": ('NormalizeMachine', 'Normalize, Ucd', 'TraceNormalize'),
    "C25": ('NormalizeMachine', 'Normalize, Ucd', 'TraceNormalize'),
    "C26": ('NormalizeMachine', 'Normalize, Ucd', 'TraceNormalize'),
    "C27": ('UcdMC', 'Ucd', 'TraceUcd'),
    "C28": ('IdnaTableMC', 'Ucd', 'TraceUcd'),
    "C29": ('PunycodeMC', 'Idna, Normalize, Ucd', 'TraceIdna'),
    "C30": ('KeysMC', 'Keys', 'TraceKeys'),
    "C31": ('FormatMC', 'Format', 'TraceFormat'),
    "C32": ('Nested', 'its atomicity invariant, each container by itself', 'TraceAvl, '
            'TraceHash, TraceList, TracePriorQ, TraceIntSet, TraceBytes and those '
            'of the functions'),
    "C33": ('Threads', 'its invariant, each thread by itself', 'TraceAvl, '
            'TraceHash, TraceList, TracePriorQ, TraceIntSet, TraceBytes and those '
            'of the functions'),
}
TECHNIQUE = {k: "TLA+/TLC: model %s checked against %s; model behaviours replayed "
             "into the real code and its logs validated by TLC (%s)" % v
             for k, v in MODULES.items()}
DEFAULT_NOTE = ("The TLA+ model is checked exhaustively within small bounds and "
                "its transitions are replayed into the real code, whose logs "
                "(these and seeded random and boundary scripts) TLC validates "
                "against the specification; the code is explored, not proved.")
NOTES = {k: "The model is checked over the tables' %s and the real code over all "
         "1,114,112 codepoints, exhaustively." % v
         for k, v in {"C27": "laws, page by page,", "C28": "laws, page by page,"}.items()}
NOT_APPLICABLE = {}
