"""C13: where memory comes from and goes."""
import core
import fam_avl, fam_bytes, fam_codec, fam_hash, fam_intset, fam_list, fam_priorq
import fam_unicode

WRAPPED = ("malloc free realloc calloc strdup strndup vasprintf aligned_alloc "
           "posix_memalign reallocarray").split()
WRAP = ["-DVERIF_WRAP", "-Wl," + ",".join("--wrap=" + f for f in WRAPPED)]
SOURCES = {"drv_containers-asan": "drv_containers.c", "drv_codec-asan": "drv_codec.c",
           "drv_unicode-asan": "drv_unicode.c"}
# checks whose scripts make the library allocate
FAMILIES = [fam_avl.c01, fam_hash.c04, fam_list.c06, fam_priorq.c08, fam_intset.c09,
            fam_bytes.c10, fam_bytes.c11, fam_codec.c15, fam_codec.c16,
            fam_codec.c20, fam_codec.c21, fam_codec.c22, fam_codec.c31,
            fam_unicode.c29]


def split_cases(script):
    cases = []
    for line in script.split("\n"):
        if line == "case":
            cases.append([])
        elif line:
            cases[-1].append(line)
    return cases


def c13(ctx):
    core.model_check(ctx, "MemoryMC", ctx.pick("MemoryMC", "MemoryMC5"))
    ctx.capture = []
    for f in FAMILIES:
        f(ctx)
    ctx.capture.append(("avl-copies", "drv_containers-asan",
                        fam_avl.copy_script(ctx, 20, 150, 12), []))
    ctx.capture.append(("list-copies", "drv_containers-asan",
                        fam_list.random_script(ctx, 25, 120, True, 9), []))
    ctx.capture.append(("hash-loose", "drv_containers-asan",
                        fam_hash.loose_script(ctx, 24, 120, 12), []))
    ctx.capture.append(("bytes-share", "drv_containers-asan",
                        fam_bytes.share_script(ctx, 60), []))
    got, ctx.capture = ctx.capture, None
    budget = ctx.pick(6000, 60000)
    per = {}
    for name, exe, script, args, *_ in got:
        if args or exe not in SOURCES:
            continue
        cases = [c for c in split_cases(script)
                 # a long list: too many blocks
                 if c[0].split()[:2] not in (["Z", "split"], ["Z", "str"],
                                             ["Z", "atoms"])]
        ctx.rng.shuffle(cases)
        n = 0
        for c in cases:
            if n + len(c) > budget and n:
                continue
            per.setdefault(exe, []).append("case\n" + "\n".join(c) + "\n")
            n += len(c)
    for exe in sorted(per):
        drv = core.build_driver(ctx, SOURCES[exe], extra=WRAP, tag="-mem")
        core.conform(ctx, drv, "".join(per[exe]), "mem-" + SOURCES[exe], "TraceMem",
                     args=["mem"])
