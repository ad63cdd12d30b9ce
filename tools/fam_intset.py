"""C09."""
import re
import core, fam_large, walks

FAR = [0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 1 << 20]


def real(x):
    """Positions of the model (3 bits a word) as positions in 64-bit words."""
    return 64 * (x // 3) + [0, 33, 63][x % 3]


def real_cap(c):
    return 64 * (c // 3) + [0, 1, 63][c % 3]


def walk_script(ctx, cfg):
    res = core.model_check(ctx, "IntSetWords", cfg)
    edges = walks.parse_edges(res.out)
    ctx.notes["model_edges"] = len(edges)
    if len(edges) < 2000:
        raise core.CheckError("too few edges")
    by_cap = {}
    for a, op, b in edges:
        by_cap.setdefault(int(re.match(r"<<(\d+)", a).group(1)), []).append(
            (a, op, b))
    out = []
    for c, es in sorted(by_cap.items()):
        init = es[0][0]
        # the initial state is the one with all words empty
        for a, _, _ in es:
            if not re.search(r"\{\d", a):
                init = a
        for w in walks.cover(es, init, ctx.rng, maxlen=250):
            out.append("case")
            cap = real_cap(c)
            out.append("I new 0 %d" % cap)
            for i, (_, op) in enumerate(w):
                out.append("I %s 0%s" % (op[0], " %d" % real(op[1])
                                         if len(op) > 1 else ""))
                if i % 4 == 3:
                    out.append("I obs 0 0 %d" % (cap + 70))
                else:
                    # around the word boundaries and the end
                    x = ctx.rng.choice([0, 62, 126, max(0, cap - 3)])
                    out.append("I obs 0 %d %d" % (x, x + 6))
    return "\n".join(out) + "\n"


def random_script(ctx, cases):
    rng, out = ctx.rng, []
    caps = [0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 96, 127, 128, 129, 130,
            191, 192, 193, 255, 256, 257, 320, 511, 512, 513, 1000, 1023, 1024,
            1025, 4096, 10000]
    for c in range(cases):
        cap = caps[c % len(caps)] if c < 2 * len(caps) else \
            rng.choice([rng.randrange(0, 300), rng.choice(caps)])
        out.append("case")
        out.append("I new 0 %d" % cap)
        wide = cap if cap <= 400 else 400
        for i in range(60):
            x = rng.random()
            e = rng.choice([rng.randrange(cap + 70), cap, max(cap - 1, 0),
                            cap + 1, 64 * rng.randrange(cap // 64 + 2),
                            64 * rng.randrange(1, cap // 64 + 2) - 1,
                            (rng.choice(FAR) if rng.random() < .2 else
                             rng.randrange(cap + 1))])
            if x < .06:
                out.append("I fill 0")
            elif x < .5 if (i // 15) % 2 == 0 else x < .3:
                out.append("I add 0 %d" % e)
            else:
                out.append("I rem 0 %d" % e)
            if i % 7 == 0:
                lo = rng.randrange(max(1, cap + 70 - wide))
                out.append("I obs 0 %d %d" % (lo, lo + wide + 10))
                out.append("I obs 0 %d %d" % (max(0, cap - 5), cap + 70))
        # remove everything again
        if cap <= 130:
            out.append("I fill 0")
            for e in rng.sample(range(cap), cap):
                out.append("I rem 0 %d" % e)
                if rng.random() < .2:
                    out.append("I obs 0 0 %d" % (cap + 66))
            out.append("I obs 0 0 %d" % (cap + 66))
    return "\n".join(out) + "\n"


def crowd_script(ctx, cases):
    """Several sets at once, of different capacities."""
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        caps = {}
        for i in range(120):
            x = rng.random()
            if not caps or (x < .06 and len(caps) < 6):
                t = rng.choice(sorted(set(range(8)) - set(caps)))
                caps[t] = rng.choice([1, 5, 63, 64, 65, 100, 128, 130, 200])
                out.append("I new %d %d" % (t, caps[t]))
            else:
                t = rng.choice(sorted(caps))
                if x < .1 and rng.random() < .5:
                    # another one, perhaps where the last one lay
                    obs = "I obs %d 0 %d" % (t, caps[t] + 2)
                    out += [obs, "I del %d" % t,
                            "I new %d %d" % (t, caps[t]), obs]
                elif x < .08 and len(caps) > 1:
                    out.append("I del %d" % t)
                    del caps[t]
                elif x < .12:
                    out.append("I fill %d" % t)
                else:
                    out.append("I %s %d %d" % (
                        "add" if x < .65 else "rem", t,
                        rng.randrange(max(caps.values()) + 2)))
            if i % 3 == 0:
                for u in sorted(caps):
                    out.append("I obs %d 0 %d" % (u, caps[u] + 2))
    return "\n".join(out) + "\n"


def c09(ctx):
    exe = core.build_driver(ctx, "drv_containers.c")
    core.conform(ctx, exe, walk_script(
        ctx, ctx.pick("IntSetWords", "IntSetWords10")), "intset-walks",
        "TraceIntSet")
    core.conform(ctx, exe, random_script(ctx, ctx.pick(100, 800)),
                 "intset-random", "TraceIntSet")
    core.conform(ctx, exe, crowd_script(ctx, ctx.pick(20, 200)),
                 "intset-crowd", "TraceIntSet", reuse=True)
    fam_large.run(ctx, fam_large.intset(ctx), "intset")
