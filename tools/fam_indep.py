"""C32: containers of all kinds used in turn and from each other's callbacks;
functions called with arguments like those before.  C33: threads."""
import concurrent.futures, re
import core, walks
import fam_avl, fam_bytes, fam_codec, fam_hash, fam_intset, fam_list
import fam_priorq, fam_unicode

PARTS = [("tree", r"a", "TraceAvl", None),
         ("table", r"h", "TraceHash", None),
         ("list", r"l(?!oose)", "TraceList", None),
         ("queue", r"q", "TracePriorQ", "TracePriorQLoc"),
         ("set", r"i", "TraceIntSet", None),
         ("array", r"b", "TraceBytes", None)]
# the functions, and whose calls there are that differ little
CODEC = ("drv_codec.c", [
    fam_codec.c15, fam_codec.c16, fam_codec.c17, fam_codec.c18, fam_codec.c19,
    fam_codec.c20, fam_codec.c21, fam_codec.c22, fam_codec.c23, fam_codec.c30,
    fam_codec.c31], [
    ("base64", r"(enc|simple|size|dec|dsimple|tables)\"", "TraceBase64", None),
    ("date", r"(days|secs)\"", "TraceDate", None),
    ("float", r"flt\"", "TraceFloat", None),
    ("utf8", r"u(dec|runs|valid|enc|block|nulls|san)\"", "TraceUtf8", None),
    ("url", r"w(new|del|enc|bytes|dec)\"", "TraceUrl", None),
    ("string", r"(split|atoms|strip|nulls|dup|sub|n?cmp|ends|skip|cases|ranges|"
     r"class)\"", "TraceStrings", None),
    ("key", r"(box|hash)\"", "TraceKeys", None),
    ("format", r"pf\"", "TraceFormat", None)])
UNICODE = ("drv_unicode.c", [
    fam_unicode.c24, fam_unicode.c25, fam_unicode.c26, fam_unicode.c29], [
    ("normalization", r"(nfd|nfc|detect)\"", "TraceNormalize", None),
    ("idna", r"idna\"", "TraceIdna", None)])
# commands during which the user's functions are called
CALLING = (r"A (put|pop |det|rem|obs|two)|H (put|pop|det|rem|obs|two)|"
           r"Q (t?enq|trem|deq|pop|obs)|B (str|cop|app)")


def stream(script):
    """The commands of a script of one case, those that belong together in
    one piece."""
    units, held = [], []
    for line in script.split("\n"):
        if line in ("", "case"):
            continue
        held.append(line)
        if not line.startswith("Q use"):
            units.append(held)
            held = []
    return units


def streams(ctx, c):
    """What is done with each of five containers (groups of them): two trees,
    or a table and a list; a queue; an array; a list or set."""
    n = 60
    if c % 2:
        # the same kind of keys in both: every fourth case of the script
        mode = c // 2 % 4
        one, two = (fam_avl.crowd_script(ctx, 4, n, 12, s).split("case\n")[mode + 1]
                    for s in (range(0, 4), range(4, 8)))
    else:
        one = fam_hash.crowd_script(ctx, 1, n, 12, c // 2 % 2)
        two = fam_list.random_script(ctx, 1, n, True, 3)
    return [stream(s) for s in (
        one, two, fam_priorq.crowd_script(ctx, 1, n, True),
        fam_bytes.crowd_script(ctx, 1, True),
        fam_list.random_script(ctx, 1, n, True, 3) if c % 4 == 3 else
        fam_intset.crowd_script(ctx, 1))]


def nested_script(ctx, cases, ws):
    """The schedules of the model: which container is next, and from within
    which call back."""
    rng, out = ctx.rng, []

    def emit(unit, inner, level, k):
        pre = "N %d %d " % (level, k) if level else ""
        *first, last = [pre + l for l in unit]
        out.extend(first)
        for kk, u, i in inner:
            emit(u, i, level + 1, kk)
        out.append(last)

    for c in range(cases):
        src = streams(ctx, c)
        at = [0] * len(src)
        out.append("case")
        done = 0
        while done < 360 and any(a < len(s) for a, s in zip(at, src)):
            # activations: container, calls so far, commands within
            stack = [[None, 0, []]]
            for _, op in rng.choice(ws) + [(0, ["return"])] * 8:
                if op[0] == "begin":
                    stack.append([op[1] - 1, 0, []])
                elif op[0] == "back":
                    stack[-1][1] += rng.choice([1, 1, 1, 1, 2, 4])
                elif op[0] == "return" and len(stack) > 1:
                    o, _, inner = stack.pop()
                    k = max(stack[-1][1], 1)
                    # what does not call back comes before it
                    while inner and at[o] < len(src[o]) and \
                            not re.match(CALLING, src[o][at[o]][-1]):
                        stack[-1][2].append((k, src[o][at[o]], []))
                        at[o] += 1
                        done += 1
                    if at[o] < len(src[o]):
                        stack[-1][2].append((k, src[o][at[o]], inner))
                        at[o] += 1
                        done += 1
                    else:
                        stack[-1][2] += [(k, u, i) for _, u, i in inner]
            for _, unit, inner in stack[0][2]:
                emit(unit, inner, 0, 0)
    return "\n".join(out) + "\n"


def calls(ctx, source, functions):
    """The calls that the checks of these functions make, case by case; those
    that differ little where there are such."""
    core.build_driver(ctx, source)

    def of(f):
        child = core.Ctx("%s/%s" % (ctx.prop, f.__name__))
        child.close()
        child.scratch, child.tier, child.capture = ctx.scratch, "quick", []
        f(child)
        return [list(filter(None, case.split("\n")))
                for _, _, script, args, again in child.capture if not args
                for case in (again or script).split("case\n")[1:]]
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        return list(pool.map(of, functions))


def mixed_script(ctx, sources, cases):
    """Calls of several functions in turn."""
    rng, out = ctx.rng, []
    sources = [[c for c in s if max(map(len, c)) < 3000 and len(c) < 60]
               for s in sources]
    for _ in range(cases):
        pieces = [list(rng.choice(s)) for s in
                  rng.sample(sources, min(len(sources), rng.choice([3, 4, 6])))]
        out.append("case")
        while pieces:
            p = rng.choice(pieces)
            for _ in range(rng.choice([1, 1, 2, 4])):
                if p:
                    out.append(p.pop(0))
            pieces = [p for p in pieces if p]
    return "\n".join(out) + "\n"


def c32(ctx):
    res = core.model_check(ctx, "Nested")
    core.model_refute(ctx, "Nested", "NestedShared")
    edges = walks.parse_edges(res.out)
    if len(set(edges)) < 900:
        raise core.CheckError("too few edges")
    ctx.notes["model_edges"] = len(set(edges))
    ws = walks.cover(edges, "<<>>", ctx.rng, maxlen=60)
    exe = core.build_driver(ctx, "drv_containers.c")
    script = nested_script(ctx, ctx.pick(60, 900), ws)
    core.conform_parts(ctx, exe, script, "nested", PARTS)
    core.conform_parts(ctx, exe, nested_script(ctx, ctx.pick(30, 500), ws),
                       "nested-reuse", PARTS, reuse=True)
    for name, (source, functions, parts) in (("calls", CODEC),
                                             ("text-calls", UNICODE)):
        core.conform_parts(ctx, core.build_driver(ctx, source), mixed_script(
            ctx, calls(ctx, source, functions), ctx.pick(120, 2500)),
            name, parts, reuse=True)


# ---------------------------------------------------------------- threads

THREADS = 3


def cases_of(script):
    return [list(filter(None, c.split("\n")))
            for c in script.split("case\n")[1:]]


def container_cases(ctx):
    """Cases of each kind of container."""
    return [cases_of(s) for s in (
        fam_avl.crowd_script(ctx, 16, 24, 12),
        fam_hash.crowd_script(ctx, 16, 24, 12, True),
        fam_list.random_script(ctx, 16, 40, True, 3),
        fam_priorq.crowd_script(ctx, 16, 24, True),
        fam_bytes.crowd_script(ctx, 16, True), fam_intset.crowd_script(ctx, 16),
        fam_avl.copy_script(ctx, 16, 20, 12))]


def side_by_side(ctx, sources, cases):
    """A script for each thread: mostly they are about the same kind of
    container or function at the same time."""
    rng = ctx.rng
    sources = [[c for c in s if max(map(len, c)) < 2000 and len(c) < 400]
               for s in sources]
    out = [[] for _ in range(THREADS)]
    for c in range(cases):
        source = sources[c % len(sources)]
        same = rng.choice(source)
        how = rng.random()
        for o in out:
            o.append("case")
            o += (same if how < .5 else
                  rng.choice(rng.choice(sources)) if how > .85 else
                  rng.choice(source))
    return ["\n".join(o) + "\n" for o in out]


def schedule(ctx, ws, turns):
    """The interleavings of the model, a step being some basic blocks."""
    rng, out = ctx.rng, []
    while len(out) < turns:
        most = rng.choice([2, 2, 6, 6, 20, 60])
        for _, op in rng.choice(ws):
            out.append((op[1] - 1, rng.randint(1, most)))
    return out


def c33(ctx):
    res = core.model_check(ctx, "Threads")
    core.model_refute(ctx, "Threads", "ThreadsShared")
    edges = walks.parse_edges(res.out)
    if len(set(edges)) < 2000:
        raise core.CheckError("too few edges")
    ctx.notes["model_edges"] = len(set(edges))
    ws = walks.cover(edges, "<<<<0, 0, 0>>, <<0, 0, 0>>>>", ctx.rng, maxlen=60)
    turns = ctx.pick(20000, 200000)
    sources = {"containers": container_cases(ctx),
               "calls": calls(ctx, CODEC[0], CODEC[1]),
               "text-calls": calls(ctx, UNICODE[0], UNICODE[1])}
    for name, source, parts, cases in (
            ("containers", "drv_containers.c", PARTS, ctx.pick(56, 700)),
            ("calls", CODEC[0], CODEC[2], ctx.pick(330, 1600)),
            ("text-calls", UNICODE[0], UNICODE[2], ctx.pick(160, 800))):
        core.conform_parts(
            ctx, core.build_threads(ctx, source, THREADS),
            side_by_side(ctx, sources[name], cases), "threads-" + name, parts,
            schedule=schedule(ctx, ws, turns))
