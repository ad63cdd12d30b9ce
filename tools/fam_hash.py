"""C04, C05 and the hash table part of C03."""
import core, fam_large, walks

CAPS = [0, 1, 52, 53, 54, 97, 98, 200, 1000]
HMODES = list(range(0, 11)) + [20]


def new(rng, out, c, t=0):
    hm = HMODES[c % len(HMODES)]
    km = 4 if hm == 20 or rng.random() < .2 else 1
    out.append("H new %d %d %d %d %d" % (t, rng.choice(CAPS), hm,
                                         rng.randrange(5), km))


def model_walks(ctx):
    res = core.model_check(ctx, "HashTable",
                           ctx.pick("HashTable", "HashTable5"))
    edges = walks.parse_edges(res.out)
    if len(edges) < 2000:
        raise core.CheckError("too few edges")
    ctx.notes["model_edges"] = len(edges)
    init = edges[0][0]
    return walks.cover(edges, init, ctx.rng, maxlen=200)


def walk_script(ctx, ws, traverse):
    rng, out = ctx.rng, []
    for n, w in enumerate(ws):
        out.append("case")
        # hash k % 2 as in the model; sometimes one bucket, sometimes others
        out.append("H new 0 %d %d %d 1" % (rng.choice([0, 60]),
                                           [1, 1, 0, 2, 8][n % 5], n % 4))
        for _, op in w:
            if op[0] == "put":
                out.append("H put 0 %d %d" % (op[1], op[2] - (n % 2)))
            elif op[0] == "pop":
                out.append("H %s 0 %d" % (
                    rng.choice(["pop", "pop", "det", "rem"]), op[1]))
            else:
                out.append("H popany 0")
            out.append("H walk 0" if traverse else "H obs 0 6")
    return "\n".join(out) + "\n"


def random_script(ctx, cases, length, nkeys, traverse, obs):
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        new(rng, out, c)
        for i in range(length):
            grow = .7 if (i // max(1, length // 5)) % 2 == 0 else .35
            if rng.random() < grow:
                out.append("H put 0 %d %d" % (rng.randrange(nkeys),
                                              rng.randrange(0, 4)))
            else:
                x = rng.random()
                k = rng.randrange(nkeys)
                if x < .4:
                    out.append("H pop 0 %d" % k)
                elif x < .6:
                    out.append("H rem 0 %d" % k)
                elif x < .7:
                    out.append("H det 0 %d" % k)
                else:
                    out.append("H popany 0")
            if i % obs == 0:
                if traverse:
                    out.append("H walk 0")
                else:
                    out.append("H obs 0 %d" % nkeys)
        out.append("X")
        if traverse or c % 4 == 0:
            for i in range(nkeys + 1):
                out.append("H popany 0")
                if traverse and i % obs == 0:
                    out.append("H walk 0")
            out.append("H walk 0" if traverse else "H obs 0 %d" % nkeys)
            out.append("H put 0 3 1")
            out.append("H walk 0" if traverse else "H obs 0 %d" % nkeys)
    return "\n".join(out) + "\n"


def loose_script(ctx, cases, length, nkeys):
    """Detached elements outlive changes to and destruction of the table."""
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        new(rng, out, c)
        live = True
        for i in range(length):
            if not live:
                break
            x = rng.random()
            if x < .5:
                out.append("H put 0 %d %d" % (rng.randrange(nkeys),
                                              rng.randrange(0, 4)))
            elif x < .8:
                out.append("H %s 0 %d" % (rng.choice(["pop", "det", "rem"]),
                                          rng.randrange(nkeys)))
            elif x < .9:
                out.append("H popany 0")
            elif x < .98:
                out.append("D %d" % rng.randrange(1, i + 2))
            else:
                out.append("H del 0")
                live = False
            out.append("X")
        if live:
            out.append("H del 0")
        out.append("X")
        for i in range(1, length // 2):
            out.append("D %d" % i)
        out.append("X")
    return "\n".join(out) + "\n"


def crowd_script(ctx, cases, length, nkeys, traverse):
    """Several tables at once: each its own contents, capacity, hash function."""
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        hm, fl = rng.randrange(11), rng.randrange(5)
        km = 4 if c % 5 == 4 else 1
        live, used = [], 0
        for i in range(length):
            x = rng.random()
            if not live or (x < .05 and len(live) < 6):
                t = rng.choice(sorted(set(range(8)) - set(live)))
                out.append("H new %d %d %d %d %d %d" % (
                    t, rng.choice(CAPS), hm, fl, km, rng.randrange(3)))
                live.append(t)
            else:
                t = rng.choice(live)
                k = rng.randrange(nkeys)
                if x < .08 and rng.random() < .4:
                    # another one, perhaps where the last one lay
                    obs = "H walk %d" % t if rng.random() < (
                        .7 if traverse else .3) else "H obs %d %d" % (t, nkeys)
                    out += [obs, "H del %d" % t, "H new %d %d %d %d %d %d" % (
                        t, rng.choice(CAPS), hm, fl, km, rng.randrange(3)), obs]
                elif x < .07 and len(live) > 1:
                    out.append("H del %d" % t)
                    live.remove(t)
                elif x < (.7 if (i // 60) % 2 == 0 else .4):
                    out.append("H put %d %d %d" % (t, k, rng.randrange(4)))
                elif x < .93:
                    out.append("H %s %d %d" % (rng.choice(["pop", "rem", "det"]),
                                               t, k))
                else:
                    out.append("H popany %d" % t)
            if traverse and len(live) > 1 and i % 2 == 0:
                out.append("H two %d %d" % tuple(rng.choices(live, k=2)))
            elif i % 2 == 0:
                for u in live:
                    out.append("H walk %d" % u if traverse else
                               "H obs %d %d" % (u, nkeys))
            if i % 10 == 0:
                out.append("X")
        for u in rng.sample(live, len(live)):
            out.append("H del %d" % u)
            live.remove(u)
            for v in live:
                out.append("H walk %d" % v if traverse else
                           "H obs %d %d" % (v, nkeys))
        out.append("X")
    return "\n".join(out) + "\n"


def run(ctx, traverse):
    exe = core.build_driver(ctx, "drv_containers.c")
    ws = model_walks(ctx)
    core.conform(ctx, exe, walk_script(ctx, ws, traverse), "hash-walks",
                 "TraceHash")
    for n, (cases, length, keys) in enumerate(ctx.pick(
            [(36, 150, 10), (12, 500, 80), (4, 1500, 300)],
            [(360, 200, 10), (120, 800, 80), (36, 3000, 400)])):
        core.conform(ctx, exe, random_script(ctx, cases, length, keys,
                                             traverse, [1, 5, 40][n]),
                     "hash-random-%d" % keys, "TraceHash")
    core.conform(ctx, exe, crowd_script(ctx, ctx.pick(24, 240), 150, 12,
                                        traverse), "hash-crowd", "TraceHash",
                 reuse=True)
    fam_large.run(ctx, fam_large.table(ctx), "table")


def c04(ctx):
    run(ctx, False)


def c05(ctx):
    run(ctx, True)
