"""C10, C11, C12."""
import re
import core, fam_large, walks

HUGE = [2**64 - 1, 2**64 - 2, 2**63, 2**63 - 1, 2**62, 2**32, 2**31]


def hexd(rng, n, text=False):
    if n == 0:
        return "-"
    return "".join("%02x" % (rng.randrange(1, 256) if text else
                             rng.choice([0, 0, 255, rng.randrange(256)]))
                   for _ in range(n))


def fill(rng):
    return rng.choice([0, 0, 255, rng.randrange(256)])


def regrow_script(ctx, cases):
    """Shrink and grow again over what was there before."""
    rng, out = ctx.rng, []
    for c in range(cases):
        mx = rng.choice([20, 130, 300, 1000])
        full = rng.choice([mx - 1, mx // 2, mx // 3])
        out += ["case", "B new 0 %d" % mx, "B app 0 %s" % hexd(rng, full), "B obs 0"]
        for i in range(30):
            small = rng.choice([0, 0, 1, 3, rng.randrange(full // 2)])
            out.append("B clr 0" if small == 0 and i % 2 else
                       "B rsz 0 %d %d" % (small, fill(rng)))
            if rng.random() < .5:
                out.append("B obs 0")
            for k in range(rng.randrange(1, 4)):
                small += rng.choice([1, 2, rng.randrange(1, 9), full // 2])
                out.append("B rsz 0 %d %d" % (small, fill(rng)))
                out.append("B obs 0")
            if i % 7 == 6:
                out.append("B rsz 0 %d 0" % min(full, small))
                out.append("B app 0 %s" % hexd(rng, max(full - small, 0)))
                out.append("B obs 0")
    return "\n".join(out) + "\n"


def model_walks(ctx):
    res = core.model_check(ctx, "ByteArrayBuf",
                           ctx.pick("ByteArrayBuf", "ByteArrayBuf9"))
    edges = sorted(set(walks.parse_edges(res.out)), key=repr)
    ctx.notes["model_edges"] = len(edges)
    if len(edges) < 1500:
        raise core.CheckError("too few edges")
    ws = []
    for m in sorted({e[0].split(",")[0] for e in edges}):
        es = [e for e in edges if e[0].split(",")[0] == m]
        mx = int(m[2:])
        init = "<<%d, %d, 0>>" % (mx, min(2, mx))
        for w in walks.cover(es, init, ctx.rng, maxlen=200):
            ws.append((mx, w))
    return ws


def walk_script(ctx, ws, scales, only=None):
    rng, out = ctx.rng, []
    for mx, w in ws:
        for sc in scales:
            out.append("case")
            out.append("B new 0 %d" % (mx * sc))
            size = 0

            def s(n):
                if sc == 1:
                    return n
                return max(0, n * sc + rng.choice([0, 0, 0, -1, 1]))
            for _, op in w:
                kind, n, a = op[0], s(op[1]), op[2]
                text = rng.random() < .5
                if kind == "app":
                    out.append("B app%s 0 %s" % ("s" if text else "",
                                                 hexd(rng, n, text)))
                elif kind == "cop":
                    out.append("B cop%s 0 %d %s" % ("s" if text else "", s(a),
                                                    hexd(rng, n, text)))
                elif kind == "rsz":
                    out.append("B rsz 0 %d %d" % (n, fill(rng)))
                elif kind == "clr":
                    out.append("B clr 0")
                elif kind == "str":
                    g = a if sc == 1 or a <= 0 else s(a)
                    out.append("B str 0 %d %d %d %s" % (
                        n, g, rng.randrange(4), hexd(rng, max(g, 1))))
                out.append("B obs 0")
    return "\n".join(out) + "\n"


def random_script(ctx, cases, stream, maxes):
    rng, out = ctx.rng, []
    for c in range(cases):
        mx = maxes[c % len(maxes)]
        out.append("case")
        out.append("B new 0 %d" % mx)
        lim = min(mx, 700)
        # lengths that no array of this size admits
        beyond = [h for h in HUGE if h > mx + 2**20 and mx < 2**31] or [0]
        for i in range(40):
            x = rng.random()
            n = rng.choice([0, 1, 2, rng.randrange(0, lim + 3), lim - 1, lim,
                            rng.randrange(0, 20), lim // 2])
            n = max(0, n)
            text = rng.random() < .3
            pos = rng.choice([0, 1, rng.randrange(0, lim + 2)])
            if stream and x < .6:
                g = rng.choice([n, n, 0, -1, 1, n // 2, max(n - 1, 0), -5])
                ln = n
                if rng.random() < .06:
                    ln = rng.choice(HUGE) if mx < 2**21 else n
                    g = lim + 10
                out.append("B str 0 %d %d %d %s" % (ln, g, rng.randrange(4),
                                                    hexd(rng, max(g, 1))))
            elif x < .72:
                if rng.random() < .05:
                    out.append("B app 0 4142 %d" % rng.choice(beyond))
                else:
                    out.append("B app%s 0 %s" % ("s" if text else "",
                                                 hexd(rng, n, text)))
            elif x < .84:
                if rng.random() < .08:
                    out.append("B cop 0 %d 4142 %d" % (
                        rng.choice([pos, 0] + HUGE), rng.choice(beyond)))
                elif rng.random() < .08:
                    out.append("B cop 0 %d 4142" % rng.choice(HUGE))
                else:
                    out.append("B cop%s 0 %d %s" % ("s" if text else "", pos,
                                                    hexd(rng, n, text)))
            elif x < .88:
                out.append("B self 0 %d %d %d" % (
                    rng.randrange(0, 9), rng.randrange(0, 9), rng.randrange(0, 40)))
            elif x < .94:
                out.append("B rsz 0 %d %d" % (
                    rng.choice(beyond) if rng.random() < .1 else n, fill(rng)))
            elif x < .97:
                out.append("B clr 0")
            else:
                # to the brim
                out.append("B rsz 0 %d 65" % max(lim - rng.choice([1, 1, 2]), 0))
            out.append("B obs 0")
    return "\n".join(out) + "\n"


def wrap_script(ctx, cases):
    """Lengths and positions whose sum wraps around."""
    rng, out = ctx.rng, []
    for c in range(cases):
        n = rng.choice([0, 1, 2, 9, 40])
        mx = n + rng.choice([1, 2, 30, 1000])
        out += ["case", "B new 0 %d" % mx, "B app 0 %s" % hexd(rng, n), "B obs 0"]
        for pos in sorted({0, 1, n // 2, max(n - 1, 0), n, n + 1}):
            for k in sorted({1, 2, pos, max(pos - 1, 1), pos + 1, n, n + 1, mx}):
                big = [2**64 - k, 2**63 - k, 2**32 - k]
                for v in big:
                    if v > mx + 2**20 and v < 2**64:
                        out.append("B cop 0 %d 4142 %d" % (pos, v))
                        out.append("B obs 0")
                        if rng.random() < .2:
                            out.append("B cop 0 %d 4142 %d" % (v, rng.choice(
                                [k, 2, 2**64 - v, v])))
                            out.append("B app 0 4142 %d" % v)
                            out.append("B rsz 0 %d 66" % v)
                            out.append("B obs 0")
    return "\n".join(out) + "\n"


MAXES = [1, 2, 3, 4, 7, 8, 9, 16, 17, 64, 65, 127, 128, 129, 130, 200, 255, 256,
         257, 300, 511, 512, 513, 600, 2**20, 2**31, 2**63, 2**64 - 1]


def share_script(ctx, cases):
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        own = {}
        mx = {}
        for i in range(60):
            t = rng.randrange(3)
            if t not in own:
                mx[t] = rng.choice([1, 5, 40, 300])
                out.append("B new %d %d" % (t, mx[t]))
                own[t] = 1
                out.append("B obs %d" % t)
                continue
            x = rng.random()
            if x < .3 or (c % 5 == 0 and i < 40):
                for _ in range(rng.choice([1, 1, 2, 300 if c % 7 == 0 else 1])):
                    out.append("B share %d" % t)
                    own[t] += 1
            elif x < .65:
                k = rng.choice([1, 1, own[t] - 1, own[t]])
                for _ in range(max(1, k)):
                    out.append("B del %d" % t)
                    own[t] -= 1
                    if own[t] == 0:
                        del own[t]
                        break
                    if rng.random() < .3:
                        out.append("B obs %d" % t)
            elif x < .9:
                out.append("B app %d %s" % (t, hexd(rng, rng.randrange(0, 30))))
            else:
                out.append("B clr %d" % t)
            for u in own:
                out.append("B obs %d" % u)
        for t in sorted(own):
            for _ in range(own[t]):
                out.append("B del %d" % t)
    return "\n".join(out) + "\n"


def crowd_script(ctx, cases, stream):
    """Several arrays at once, with different limits."""
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        mx = {}
        for i in range(100):
            x = rng.random()
            if not mx or (x < .06 and len(mx) < 6):
                t = rng.choice(sorted(set(range(8)) - set(mx)))
                mx[t] = rng.choice([1, 10, 100, 129, 300])
                out.append("B new %d %d" % (t, mx[t]))
            else:
                t = rng.choice(sorted(mx))
                n = rng.choice([0, 1, 5, mx[t] // 2, mx[t] - 1, mx[t]])
                if x < .1 and rng.random() < .5:
                    # another one, perhaps where the last one lay
                    out += ["B obs %d" % t, "B del %d" % t,
                            "B new %d %d" % (t, mx[t]), "B obs %d" % t]
                elif x < .09 and len(mx) > 1:
                    out.append("B del %d" % t)
                    del mx[t]
                elif stream and x < .5:
                    out.append("B str %d %d %d %d %s" % (
                        t, n, rng.choice([n, n // 2, 0, -1]), rng.randrange(4),
                        hexd(rng, max(n, 1))))
                elif x < .6:
                    out.append("B app %d %s" % (t, hexd(rng, n)))
                elif x < .8:
                    out.append("B cop %d %d %s" % (
                        t, rng.choice([0, 1, n, rng.randrange(mx[t] + 1)]),
                        hexd(rng, rng.randrange(20))))
                elif x < .93:
                    out.append("B rsz %d %d %d" % (t, n, fill(rng)))
                else:
                    out.append("B clr %d" % t)
            for u in sorted(mx):
                out.append("B obs %d" % u)
    return "\n".join(out) + "\n"


def c10(ctx):
    exe = core.build_driver(ctx, "drv_containers.c")
    ws = model_walks(ctx)
    core.conform(ctx, exe, walk_script(ctx, ws, [1, 64]), "bytes-walks",
                 "TraceBytes")
    core.conform(ctx, exe, random_script(ctx, ctx.pick(200, 2500), False, MAXES),
                 "bytes-random", "TraceBytes")
    core.conform(ctx, exe, regrow_script(ctx, ctx.pick(40, 400)), "bytes-regrow",
                 "TraceBytes")
    core.conform(ctx, exe, wrap_script(ctx, ctx.pick(12, 60)), "bytes-wrap",
                 "TraceBytes")
    core.conform(ctx, exe, crowd_script(ctx, ctx.pick(25, 250), False),
                 "bytes-crowd", "TraceBytes", reuse=True)
    fam_large.run(ctx, fam_large.bytes_(ctx), "bytes")


def c11(ctx):
    exe = core.build_driver(ctx, "drv_containers.c")
    ws = model_walks(ctx)
    core.conform(ctx, exe, walk_script(ctx, ws, [1, 64]), "stream-walks",
                 "TraceBytes")
    core.conform(ctx, exe, random_script(ctx, ctx.pick(200, 2500), True, MAXES),
                 "stream-random", "TraceBytes")
    core.conform(ctx, exe, crowd_script(ctx, ctx.pick(25, 250), True),
                 "stream-crowd", "TraceBytes", reuse=True)
    fam_large.run(ctx, fam_large.bytes_(ctx), "bytes")


def c12(ctx):
    exe = core.build_driver(ctx, "drv_containers.c")
    core.model_check(ctx, "Owners")
    core.conform(ctx, exe, share_script(ctx, ctx.pick(60, 800)), "bytes-share",
                 "TraceBytes")
    cxx = core.build_driver(ctx, "drv_cxx.cc", cxx=True)
    core.conform(ctx, cxx, cxx_script(ctx, ctx.pick(60, 600)), "cxx-owners",
                 "TraceOwners")
    fam_large.run(ctx, fam_large.shares(ctx), "shares")


def cxx_script(ctx, cases):
    rng, out = ctx.rng, []
    for c in range(cases):
        out.append("case")
        for i in range(40):
            x = rng.random()
            a, b = rng.randrange(4), rng.randrange(4)
            kind = "PBU"[c % 3]
            if x < .3:
                out.append("%s make %d" % (kind, a))
            elif x < .4:
                out.append("%s null %d" % (kind, a))
            elif x < .55:
                out.append("%s move %d %d" % (kind, a, b))
            elif x < .65:
                out.append("%s swap %d %d" % (kind, a, b))
            elif x < .75:
                out.append("%s reset %d" % (kind, a))
            elif x < .85:
                out.append("%s release %d" % (kind, a))
            elif x < .92 and kind == "B":
                out.append("B share %d %d" % (a, b))
            else:
                out.append("%s scope %d" % (kind, a))
    return "\n".join(out) + "\n"
