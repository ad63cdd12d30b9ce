"""C07 and C08."""
import heapq
import core, fam_large, walks

PRIOS = {"Heap6": [1, 2, 2, 3, 3, 1], "Heap7": [1, 2, 2, 3, 4, 1, 3],
         "Heap8": [1, 2, 2, 3, 4, 1, 3, 5]}


def walk_script(ctx, cfg, locs):
    res = core.model_check(ctx, "HeapMC", cfg)
    edges = walks.parse_edges(res.out)
    if len(edges) < 1500:
        raise core.CheckError("too few edges")
    ctx.notes["model_edges"] = len(edges)
    ws = walks.cover(edges, "<<>>", ctx.rng, maxlen=300)
    out = []
    for n, w in enumerate(ws):
        out.append("case")
        out.append("Q new %d %d" % ([1, 3][n % 2], n % 4))
        for p in PRIOS[cfg]:
            out.append("Q item %d" % p)
        # The real queue may arrange equal priorities otherwise, so which
        # element leaves on deq and pop is not known here: only removals of
        # elements that the model still has queued and that are surely queued
        # are scripted by identity.  The driver tracks what is queued.
        for _, op in w:
            out.append("Q " + " ".join(map(str, op)).replace("enq", "tenq")
                       .replace("rem", "trem"))
            out.append("Q peek")
            out.append("Q obs")
    return "\n".join(out) + "\n"


def random_script(ctx, cases, length, nprio, locs, obs, dup=False,
                  modes=None):
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        mode = (modes[c % len(modes)] if modes else
                [1, 3][c % 2] if locs else c % 4)
        out.append("Q new %d %d" % (mode, rng.randrange(5)))
        n = 0
        for i in range(length):
            grow = .68 if (i // max(1, length // 4)) % 2 == 0 else .35
            x = rng.random()
            if x < grow:
                if dup and n and rng.random() < .4:
                    out.append("Q enq %d" % rng.randrange(1, n + 1))
                else:
                    kind = c % 3
                    p = (rng.randrange(nprio) if kind == 0 else
                         i if kind == 1 else length - i)
                    out.append("Q item %d" % p)
                    n += 1
                    out.append("Q enq %d" % n)
            else:
                y = rng.random()
                if y < .4:
                    out.append("Q peek")
                    out.append("Q deq")
                elif y < .55:
                    out.append("Q pop")
                elif mode in (1, 3) and not dup and n:
                    out.append("Q trem %d" % rng.randrange(1, n + 1))
                else:
                    out.append("Q deq")
            if i % obs == 0:
                out.append("Q obs" if locs else "Q size")
        for i in range(length):
            out.append("Q peek")
            out.append("Q deq")
            if i % (3 * obs) == 0:
                out.append("Q obs" if locs else "Q size")
        out.append("Q size")
        out.append("Q pop")
        out.append("Q item 3")
        out.append("Q enq %d" % (n + 1))
        out.append("Q deq")
        out.append("Q size")
    return "\n".join(out) + "\n"


def removal_script(ctx, cases, size, locs):
    """Build a heap, then take elements out from anywhere in it: what fills
    the hole may have to move up as well as down."""
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        out.append("Q new %d %d" % ([1, 3][c % 2], rng.randrange(5)))
        nprio = rng.choice([4, size, 10 * size])
        heap = []
        for i in range(size):
            # random priorities, or those of a heap whose branches lie far
            # apart, in the order in which they stay where they are put
            p = (rng.randrange(nprio) if c % 4 < 2 else
                 (heap[(i - 1) // 2] if i else 0) +
                 rng.choice([0, 1, 2, 60, 900]))
            heap.append(p)
            out.append("Q item %d" % p)
            out.append("Q enq %d" % (i + 1))
        left = list(range(1, size + 1))
        rng.shuffle(left)
        while left:
            for _ in range(rng.randrange(1, 5)):
                if left:
                    out.append("Q trem %d" % left.pop())
                    out.append("Q peek")
            x = rng.random()
            if x < .3:
                out += ["Q peek", "Q deq"]
            elif x < .5:
                # once more, or again, what left earlier
                out.append("Q tenq %d" % rng.randrange(1, size + 1))
            out.append("Q obs" if locs else "Q size")
            if rng.random() < .06:
                break
        for i in range(size + 5):
            out += ["Q peek", "Q deq"]
        out.append("Q size")
    return "\n".join(out) + "\n"


def crowd_script(ctx, cases, length, locs):
    """Several queues at once, each with its own order, context, locators."""
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        live, n, nprio = {}, 0, rng.choice([3, 8, 40])
        for i in range(length):
            x = rng.random()
            if not live or (x < .04 and len(live) < 6):
                q = rng.choice(sorted(set(range(8)) - set(live)))
                mode = rng.randrange(8)
                if locs and rng.random() < .6:
                    mode |= 1
                out.append("Q use %d" % q)
                out.append("Q new %d %d" % (mode, rng.randrange(5)))
                live[q] = mode
                continue
            q = rng.choice(sorted(live))
            out.append("Q use %d" % q)
            if x < .07 and rng.random() < .4:
                # another one, perhaps where the last one lay
                out += ["Q peek", "Q del",
                        "Q new %d %d" % (live[q], rng.randrange(5)), "Q peek"]
            elif x < .06 and len(live) > 1:
                out.append("Q del")
                del live[q]
            elif x < .6 if (i // 50) % 2 == 0 else x < .4:
                if n < 12 or rng.random() < .3:
                    out.append("Q item %d" % rng.randrange(nprio))
                    n += 1
                # without locators an element may be in several queues
                free = not any(m & 1 for m in live.values())
                out.append("Q %s %d" % ("enq" if free and rng.random() < .5
                                        else "tenq", rng.randrange(1, n + 1)))
            elif x < .75 and n and live[q] & 1:
                out.append("Q trem %d" % rng.randrange(1, n + 1))
            else:
                out.append("Q " + rng.choice(["peek", "deq", "deq", "pop"]))
            if i % 3 == 0:
                for u in sorted(live):
                    out.append("Q use %d" % u)
                    out.append("Q peek")
                    out.append("Q obs" if live[u] & 1 else "Q size")
        for u in rng.sample(sorted(live), len(live)):
            out.append("Q use %d" % u)
            out += ["Q deq"] * 30
            out.append("Q size")
    return "\n".join(out) + "\n"


def run(ctx, locs):
    exe = core.build_driver(ctx, "drv_containers.c")
    tcfg = "TracePriorQLoc" if locs else "TracePriorQ"
    core.conform(ctx, exe, walk_script(ctx, ctx.pick("Heap6", "Heap7"), locs),
                 "heap-walks", "TracePriorQ", tcfg)
    for n, (cases, length, nprio) in enumerate(ctx.pick(
            [(60, 60, 4), (12, 300, 40), (3, 1200, 300)],
            [(600, 60, 4), (120, 400, 40), (30, 2000, 300)])):
        core.conform(ctx, exe, random_script(ctx, cases, length, nprio, locs,
                                             [1, 5, 50][n]),
                     "heap-random-%d" % length, "TracePriorQ", tcfg)
    for cases, size in ctx.pick([(60, 20), (10, 80)], [(600, 20), (80, 150)]):
        core.conform(ctx, exe, removal_script(ctx, cases, size, locs),
                     "heap-removals-%d" % size, "TracePriorQ", tcfg)
    if not locs:
        core.conform(ctx, exe, random_script(
            ctx, ctx.pick(40, 400), 120, 5, False, 3, dup=True),
            "heap-duplicates", "TracePriorQ", tcfg)
    else:
        # the comparator's context, also where nobody asks for locators
        core.conform(ctx, exe, random_script(
            ctx, ctx.pick(20, 200), 60, 4, False, 5, modes=[2, 0]),
            "heap-no-locators", "TracePriorQ", tcfg)
    core.conform(ctx, exe, crowd_script(ctx, ctx.pick(24, 300), 150, locs),
                 "heap-crowd", "TracePriorQ", tcfg, reuse=True)
    fam_large.run(ctx, fam_large.queue(ctx), "queue")


def c07(ctx):
    run(ctx, False)


def c08(ctx):
    run(ctx, True)
