"""C01, C02 and the tree part of C03."""
import core, fam_large, walks


def model_walks(ctx):
    cfg = ctx.pick("AvlTree", "AvlTree9")
    res = core.model_check(ctx, "AvlTree", cfg)
    edges = walks.parse_edges(res.out)
    ctx.notes["model_edges"] = len(edges)
    if len(edges) < 5000:
        raise core.CheckError("too few edges")
    ws = walks.cover(edges, "<<>>", ctx.rng)
    ctx.notes["walks"] = len(ws)
    return ws


MODES = [(1, 0), (2, 1), (1, 2), (2, 3), (4, 0), (1, 1), (2, 4)]


def walk_script(ctx, ws, paths=False, obs2=3):
    """Keys of the model are doubled, so that there are keys in between."""
    rng, out = ctx.rng, []
    for n, w in enumerate(ws):
        mode, flavor = MODES[0] if paths else MODES[n % len(MODES)]
        out.append("case")
        out.append("A new 0 %d %d" % (mode, flavor))
        cur = {}
        nl = 0
        for i, (_, op) in enumerate(w):
            if op[0] == "put":
                k = 2 * op[1]
                v = rng.randrange(0, 4)
                out.append("A put 0 %d %d" % (k, v))
                cur[k] = v
            elif op[0] == "pop":
                k = 2 * op[1]
                out.append("A %s 0 %d" % (rng.choice(["pop", "pop", "det", "rem"]), k))
                cur.pop(k, None)
            else:
                out.append("A %s 0" % op[0])
            if paths:
                out.append("A paths 0")
            elif i % obs2 == 0:
                out.append("A obs 0 2 1 %d 1" % (2 * 10))
            else:
                out.append("A obs 0 1")
            if not paths and i % 40 == 39:
                out.append("X")
    return "\n".join(out) + "\n"


def copied_walks(ctx, ws, paths=False):
    """Every tree of the model is copied; then the same step is taken on both
    (twice in a row, so that the copy's own bookkeeping matters), and one of
    the two is given up."""
    rng, out, seen = ctx.rng, [], set()
    for n, w in enumerate(ws):
        mode, flavor = MODES[0] if paths else MODES[n % len(MODES)]
        out += ["case", "A new 0 %d %d" % (mode, flavor)]
        cur, other, age = 0, 1, -1

        def look(t):
            out.append("A paths %d" % t if paths else
                       "A obs %d 2 1 20 1" % t if rng.random() < .2 else
                       "A obs %d 1" % t)
        for state, op in w:
            if age < 0 and state not in seen:
                seen.add(state)
                out.append("A copy %d %d" % (cur, other))
                look(other)
                age = 0
            for t in [cur] + ([other] if age >= 0 else []):
                if op[0] == "put":
                    out.append("A put %d %d %d" % (t, 2 * op[1], rng.randrange(4)))
                elif op[0] == "pop":
                    out.append("A %s %d %d" % (rng.choice(["pop", "det", "rem"]), t,
                                               2 * op[1]))
                else:
                    out.append("A %s %d" % (op[0], t))
                if age >= 0:
                    look(cur)
                    look(other)
            if age >= 0:
                age += 1
            if age == 2:
                if rng.random() < .5:
                    cur, other = other, cur
                out.append("A del %d" % other)
                look(cur)
                age = -1
                if not paths and rng.random() < .1:
                    out.append("X")
    ctx.notes["trees_copied"] = len(seen)
    return "\n".join(out) + "\n"


def random_script(ctx, cases, length, nkeys, paths=False, obs=7):
    rng, out = ctx.rng, []
    for c in range(cases):
        mode, flavor = MODES[0] if paths else MODES[c % len(MODES)]
        out.append("case")
        out.append("A new 0 %d %d" % (mode, flavor))
        style = c % 5
        phase = 0
        for i in range(length):
            if i % max(1, length // 6) == 0:
                phase = rng.random()
            grow = {0: 0.5, 1: phase, 2: 0.7 if i < length / 2 else 0.3,
                    3: 0.9 if (i // max(1, length // 4)) % 2 == 0 else 0.1,
                    4: 0.6}[style]
            if rng.random() < grow:
                if style == 2:
                    k = i if i < nkeys else rng.randrange(nkeys)
                elif style == 3:
                    k = (nkeys - i) % nkeys
                else:
                    k = rng.randrange(nkeys)
                out.append("A put 0 %d %d" % (2 * k, rng.randrange(0, 5)))
            else:
                x = rng.random()
                k = 2 * rng.randrange(nkeys)
                if x < .5:
                    out.append("A pop 0 %d" % k)
                elif x < .7:
                    out.append("A rem 0 %d" % k)
                elif x < .8:
                    out.append("A det 0 %d" % k)
                elif x < .9:
                    out.append("A popf 0")
                else:
                    out.append("A popl 0")
            if i % obs == 0:
                if paths:
                    out.append("A paths 0")
                elif i % (4 * obs) == 0:
                    out.append("A obs 0 2 0 %d 1" % (2 * nkeys))
                else:
                    out.append("A obs 0 1")
        if not paths:
            out.append("X")
        while not paths and c % 3 == 0:
            # drain completely
            for _ in range(nkeys):
                out.append("A %s 0" % rng.choice(["popf", "popl"]))
            out.append("A obs 0 2 0 10 1")
            out.append("A put 0 4 1")
            out.append("A obs 0 2 0 10 1")
            break
    return "\n".join(out) + "\n"


def big_script(ctx, sizes):
    """Bulk loads and removals, then comparator counts and shape."""
    rng, out = ctx.rng, []
    for n in sizes:
        for order in ("up", "down", "outin", "mixed"):
            out.append("case")
            out.append("A new 0 1 0")
            if order == "up":
                out.append("A bulk 0 + 0 %d 1" % (n - 1))
            elif order == "down":
                out.append("A bulk 0 + %d 0 -1" % (n - 1))
            elif order == "outin":
                out.append("A bulk 0 + 0 %d 2" % (n - 1))
                out.append("A bulk 0 + %d 0 -2" % ((n - 1) | 1))
            else:
                for _ in range(20):
                    a = rng.randrange(n)
                    b = rng.randrange(a, n)
                    out.append("A bulk 0 %s %d %d %d" % (
                        rng.choice("+++-"), a, b, rng.randrange(1, 4)))
            out.append("A counts 0 0 %d 1" % (n - 1))
            if n <= 400:
                out.append("A paths 0")
            # thin out one end, the other end, the middle
            for a, b, s in ((0, n // 3, 1), (n - 1, n // 2, -1),
                            (n // 3, n // 2, 2)):
                out.append("A bulk 0 - %d %d %d" % (a, b, s))
                out.append("A counts 0 0 %d 1" % (n - 1))
                if n <= 400:
                    out.append("A paths 0")
    return "\n".join(out) + "\n"


def copy_script(ctx, cases, length, nkeys):
    """Several trees that are copies of one another, plus loose elements."""
    rng, out = ctx.rng, []
    for c in range(cases):
        mode, flavor = MODES[c % len(MODES)]
        out.append("case")
        out.append("A new 0 %d %d" % (mode, flavor))
        live = [0]
        nl = 0
        for i in range(length):
            t = rng.choice(live)
            x = rng.random()
            if x < .5 or i < (c % 3) * nkeys // 4:
                out.append("A put %d %d %d" % (t, 2 * rng.randrange(nkeys),
                                               rng.randrange(0, 5)))
            elif x < .72:
                out.append("A %s %d %d" % (rng.choice(["pop", "det", "rem"]), t,
                                           2 * rng.randrange(nkeys)))
            elif x < .78:
                out.append("A %s %d" % (rng.choice(["popf", "popl"]), t))
            elif x < .88 and len(live) < 5:
                u = min(set(range(6)) - set(live))
                out.append("A copy %d %d" % (t, u))
                live.append(u)
            elif x < .94 and len(live) > 1:
                live.remove(t)
                out.append("A del %d" % t)
            else:
                out.append("D %d" % rng.randrange(1, i + 2))
            for u in live:
                out.append("A obs %d %s" % (u, "2 0 %d 1" % (2 * nkeys)
                                            if i % 6 == 0 else "1"))
            if i % 3 == 0:
                out.append("X")
        while live:
            t = live.pop(rng.randrange(len(live)))
            out.append("A del %d" % t)
            for u in live:
                out.append("A obs %d 2 0 %d 1" % (u, 2 * nkeys))
            out.append("X")
    return "\n".join(out) + "\n"


def crowd_script(ctx, cases, length, nkeys, slots=range(8)):
    """Several trees made independently, each with its own context."""
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        flavor, modes = rng.randrange(5), [[1, 2], [2], [4], [1, 2]][c % 4]
        live = []
        for i in range(length):
            x = rng.random()
            if not live or (x < .05 and len(live) < min(6, len(slots))):
                t = rng.choice(sorted(set(slots) - set(live)))
                if live and rng.random() < .3:
                    out.append("A copy %d %d" % (rng.choice(live), t))
                else:
                    out.append("A new %d %d %d" % (t, rng.choice(modes), flavor))
                live.append(t)
            else:
                t = rng.choice(live)
                k = 2 * rng.randrange(nkeys)
                if x < .08 and rng.random() < .4:
                    # another one, perhaps where the last one lay
                    obs = "A obs %d 2 0 %d 1" % (t, 2 * nkeys)
                    out += [obs, "A del %d" % t, "A new %d %d %d" % (
                        t, rng.choice(modes), flavor), obs]
                elif x < .07 and len(live) > 1:
                    out.append("A del %d" % t)
                    live.remove(t)
                elif x < (.7 if (i // 60) % 2 == 0 else .4):
                    out.append("A put %d %d %d" % (t, k, rng.randrange(5)))
                elif x < .9:
                    out.append("A %s %d %d" % (rng.choice(["pop", "rem", "det"]),
                                               t, k))
                else:
                    out.append("A %s %d" % (rng.choice(["popf", "popl"]), t))
            if len(live) > 1 and i % 3 == 0:
                out.append("A two %d %d" % tuple(rng.choices(live, k=2)))
            if i % 7 == 0:
                for u in live:
                    out.append("A obs %d 2 0 %d 1" % (u, 2 * nkeys))
            if i % 20 == 0:
                out.append("X")
        for u in rng.sample(live, len(live)):
            out.append("A del %d" % u)
            live.remove(u)
            for v in live:
                out.append("A obs %d 1" % v)
        out.append("X")
    return "\n".join(out) + "\n"


def c01(ctx):
    exe = core.build_driver(ctx, "drv_containers.c")
    ws = model_walks(ctx)
    core.conform(ctx, exe, walk_script(ctx, ws), "avl-walks", "TraceAvl")
    for n, (cases, length, keys) in enumerate(
            ctx.pick([(30, 150, 12), (10, 600, 60), (5, 1500, 300)],
                     [(200, 200, 12), (100, 1000, 60), (40, 4000, 300)])):
        core.conform(ctx, exe, random_script(ctx, cases, length, keys,
                                             obs=[2, 7, 40][n]),
                     "avl-random-%d" % keys, "TraceAvl")
    core.conform(ctx, exe, crowd_script(ctx, ctx.pick(16, 160), 150, 12),
                 "avl-crowd", "TraceAvl", reuse=True)
    fam_large.run(ctx, fam_large.tree(ctx), "tree")


def c02(ctx):
    exe = core.build_driver(ctx, "drv_containers.c")
    ws = model_walks(ctx)
    core.conform(ctx, exe, walk_script(ctx, ws, paths=True), "avl-walks",
                 "TraceAvlShape")
    core.conform(ctx, exe, copied_walks(ctx, ws, paths=True), "avl-copied",
                 "TraceAvlShape")
    for n, (cases, length, keys) in enumerate(
            ctx.pick([(20, 200, 24), (5, 900, 100)],
                     [(200, 300, 24), (60, 2000, 100)])):
        core.conform(ctx, exe, random_script(ctx, cases, length, keys,
                                             paths=True, obs=[1, 6][n]),
                     "avl-random-%d" % keys, "TraceAvlShape")
    core.conform(ctx, exe, big_script(
        ctx, ctx.pick([15, 33, 64, 100, 200, 1000, 20000],
                      [7, 15, 20, 33, 54, 64, 88, 100, 143, 200, 300, 1000,
                       5000, 20000, 200000])),
        "avl-big", "TraceAvlShape")
