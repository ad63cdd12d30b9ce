"""C06 and the list part of C03."""
import core, fam_large, walks


class Lists:
    """Just enough bookkeeping to write scripts with valid handles."""
    def __init__(self):
        self.n = 0
        self.ls = {0: []}

    def fresh(self):
        self.n += 1
        return self.n


def emit(st, out, t, op, *a):
    s = st.ls[t]
    if op in ("app", "pre"):
        h = st.fresh()
        s.append(h) if op == "app" else s.insert(0, h)
        out.append("L %s %d %d" % (op, t, a[0]))
    elif op == "ins":
        v, pos = a
        out.append("L ins %d %d %d" % (t, v, s[pos]))
        s.insert(pos, st.fresh())
    elif op == "rem":
        out.append("L rem %d %d" % (t, s.pop(a[0])))
    elif op in ("popf", "popl"):
        out.append("L %s %d" % (op, t))
        if s:
            s.pop(0 if op == "popf" else -1)
    elif op == "copy":
        u = a[0]
        out.append("L copy %d %d" % (t, u))
        st.ls[u] = [st.fresh() for _ in s]
    elif op == "del":
        out.append("L del %d" % t)
        del st.ls[t]


def walk_script(ctx, cfg):
    res = core.model_check(ctx, "ListPtr", cfg)
    edges = walks.parse_edges(res.out)
    if len(edges) < 3000:
        raise core.CheckError("too few edges")
    ctx.notes["model_edges"] = len(edges)
    ws = walks.cover(edges, "<<>>", ctx.rng, maxlen=300)
    out = []
    for w in ws:
        out += ["case", "L new 0"]
        st = Lists()
        for _, op in w:
            if op[0] == "ins":
                emit(st, out, 0, "ins", op[1], op[2] - 1)
            elif op[0] == "rem":
                emit(st, out, 0, "rem", op[1] - 1)
            else:
                emit(st, out, 0, *op)
            out.append("L obs 0 3")
    return "\n".join(out) + "\n"


def random_script(ctx, cases, length, copies, obs):
    rng, out = ctx.rng, []
    for c in range(cases):
        out += ["case", "L new 0"]
        st = Lists()
        nv = rng.choice([2, 4, 8])
        for i in range(length):
            t = rng.choice(sorted(st.ls))
            s = st.ls[t]
            x = rng.random()
            up = 0.62 if (i // max(1, length // 5)) % 2 == 0 else 0.38
            if copies and x < .02 and len(st.ls) < 5:
                u = min(set(range(8)) - set(st.ls))
                out.append("L new %d" % u)
                st.ls[u] = []
            elif copies and x < .06 and len(st.ls) < 5:
                emit(st, out, t, "copy", min(set(range(6)) - set(st.ls)))
            elif copies and x < .08:
                # another one, perhaps where the last one lay
                out.append("L obs %d %d" % (t, nv))
                emit(st, out, t, "del")
                out += ["L new %d" % t, "L obs %d %d" % (t, nv)]
                st.ls[t] = []
            elif copies and x < .1 and len(st.ls) > 1:
                emit(st, out, t, "del")
            elif rng.random() < up:
                v = rng.randrange(0, nv)
                k = rng.random()
                if k < .35 or not s:
                    emit(st, out, t, "app", v)
                elif k < .6:
                    emit(st, out, t, "pre", v)
                else:
                    emit(st, out, t, "ins", v,
                         rng.choice([0, len(s) - 1, rng.randrange(len(s))]))
            else:
                k = rng.random()
                if k < .25:
                    emit(st, out, t, "popf")
                elif k < .5:
                    emit(st, out, t, "popl")
                elif s:
                    emit(st, out, t, "rem",
                         rng.choice([0, len(s) - 1, rng.randrange(len(s))]))
            if i % obs == 0:
                for u in sorted(st.ls):
                    out.append("L obs %d %d" % (u, nv))
            elif copies and len(st.ls) > 1:
                out.append("L two %d %d" % tuple(rng.choices(sorted(st.ls), k=2)))
        if copies:
            for t in rng.sample(sorted(st.ls), len(st.ls)):
                emit(st, out, t, "del")
                for u in sorted(st.ls):
                    out.append("L obs %d %d" % (u, nv))
        else:
            for i in range(len(st.ls[0]) + 2):
                emit(st, out, 0, rng.choice(["popf", "popl"]))
                if i % obs == 0:
                    out.append("L obs 0 %d" % nv)
            emit(st, out, 0, "app", 1)
            out.append("L obs 0 %d" % nv)
    return "\n".join(out) + "\n"


def c06(ctx):
    exe = core.build_driver(ctx, "drv_containers.c")
    core.conform(ctx, exe, walk_script(ctx, ctx.pick("ListPtr", "ListPtr5")),
                 "list-walks", "TraceList")
    for cases, length, obs in ctx.pick(
            [(40, 150, 1), (8, 800, 9), (1, 4000, 400)],
            [(400, 150, 1), (80, 1000, 5), (6, 8000, 400)]):
        core.conform(ctx, exe,
                     random_script(ctx, cases, length, False, obs),
                     "list-random-%d" % length, "TraceList")
    core.conform(ctx, exe, random_script(ctx, ctx.pick(15, 150), 120, True, 2),
                 "list-copies", "TraceList", reuse=True)
    fam_large.run(ctx, fam_large.lst(ctx), "list")
