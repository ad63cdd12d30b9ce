"""Long strings: pieces repeated many times (specification: Repeats)."""
import core

COUNTS = [255, 256, 257, 1000, 4095, 4096, 8192, 16384, 21845, 21846, 32767, 32768,
          43690, 43691, 65535, 65536, 65537, 70000, 87382, 131072, 150000]


def hx(bs):
    return "".join("%02x" % b for b in bs) or "-"


def times(ctx, unit=1):
    n = ctx.rng.choice(COUNTS)
    if ctx.thorough and ctx.rng.random() < .1:
        n = ctx.rng.choice([2**20, 2**21 + 1, 3 * 2**20])
    return n


def told(ps):
    return "%d " % len(ps) + " ".join("%s %d" % (hx(u), n) for u, n in ps)


def cmd(op, a, b, ps, *units):
    """units: (length, number of the piece it stands for, or 0)"""
    us = [u for u in units if u[0]]
    return "Z %s %d %d %s %d %s" % (op, a, b, told(ps), len(us),
                                    " ".join("%d %d" % u for u in us))


def pair(op, a, b, ps, qs):
    return "Z %s %d %d %s %s" % (op, a, b, told(ps), told(qs))


def some(rng, n, alphabet=range(1, 256)):
    return [rng.choice(alphabet) for _ in range(n)]


def base64_encode(ctx):
    rng, cmds = ctx.rng, []
    for k in range(ctx.pick(30, 200)):
        ps = [(some(rng, 3 * rng.randrange(1, 4), range(256)), times(ctx))
              for _ in range(rng.choice([1, 1, 2]))]
        tail = some(rng, rng.randrange(3), range(256))
        us = [(len(u) // 3 * 4, i + 1) for i, (u, n) in enumerate(ps)]
        if tail:
            ps.append((tail, 1))
            us.append((4, 0))
        cmds.append(cmd("enc", rng.randrange(2), rng.choice([0, 0, 1, 7]), ps, *us))
        if k % 3 == 0:
            cmds.append(cmd("simple", 0, 0, ps, *us))
    return cmds


def base64_decode(ctx):
    import base64
    rng, cmds = ctx.rng, []
    for k in range(ctx.pick(30, 200)):
        ps, us = [], []
        for i in range(rng.choice([1, 1, 2])):
            g = rng.randrange(1, 4)
            u = some(rng, 4 * g, b"ABCXYZabcxyz0123789")
            for _ in range(rng.choice([0, 0, 1, 3])):
                u.insert(rng.randrange(len(u) + 1), rng.choice(b" \t\n\r\f"))
            ps.append((u, times(ctx)))
            us.append((3 * g, i + 1))
        tail = bytes(some(rng, rng.randrange(3), range(256)))
        if tail:
            ps.append((base64.b64encode(tail, b"AB"), 1))
            us.append((len(tail), 0))
        cmds.append(cmd("dec", rng.randrange(2), rng.randrange(2), ps, *us))
        if k % 3 == 0:
            cmds.append(cmd("dsimple", 0, 0, ps, *us))
    return cmds


GOOD = [[0x41], [0xc3, 0xa4], [0xe2, 0x82, 0xac], [0xf0, 0x9f, 0x98, 0x80],
        [0xef, 0xbf, 0xbd], [0x7f], [0xed, 0x9f, 0xbf], [0xf4, 0x8f, 0xbf, 0xbf]]
BAD = [[0xff], [0xc0], [0xf8], [0xc1, 0xfe], [0xe2, 0x28], [0xf5], [0xed, 0xa0, 0x41]]


def utf8_unit(rng, bad):
    """A unit that begins and ends at a boundary, and its sanitized length."""
    u, n = [], 0
    for _ in range(rng.choice([1, 1, 2, 4])):
        if rng.random() < bad:
            b = rng.choice(BAD)
            u, n = u + b, n + sum(1 if c < 128 else 3 for c in b)
        else:
            g = rng.choice(GOOD)
            u, n = u + g, n + len(g)
    return u, n


def utf8(ctx):
    rng, cmds = ctx.rng, []
    for _ in range(ctx.pick(25, 150)):
        ps = [(utf8_unit(rng, 0)[0], times(ctx)) for _ in range(rng.choice([1, 2]))]
        x = rng.random()
        if x < .6:
            ps.insert(rng.randrange(len(ps) + 1), (rng.choice(
                BAD + [[0xc3], [0xe2, 0x82], [0xf0, 0x9f, 0x98], [0x80]]), 1))
        cmds.append("Z valid 0 0 " + told(ps))
    return cmds


def sanitize(ctx):
    rng, cmds = ctx.rng, []
    for _ in range(ctx.pick(30, 200)):
        ps, us = [], []
        for i in range(rng.choice([1, 2, 3])):
            u, n = utf8_unit(rng, rng.choice([0, .2, .5, 1]))
            ps.append((u, times(ctx) if i < 2 else 1))
            us.append((n, i + 1))
        cmds.append(cmd("san", 0, 0, ps, *us))
    return cmds


def url_encode(ctx):
    rng, cmds = ctx.rng, []
    plain = b"abcxyzABC019-._~/"
    for _ in range(ctx.pick(20, 150)):
        ps, us, odd = [], [], rng.randrange(2)
        for i in range(rng.choice([1, 2, 3])):
            u = some(rng, rng.randrange(1, 5),
                     list(plain) + [32, 33, 37, 38, 43, 63, 128, 228, 255])
            ps.append((u, times(ctx) if i < 2 else 1))
            us.append((sum(1 if c == 32 or c in plain and not (odd and c in b"xyz")
                           else 3 for c in u), i + 1))
        cmds.append(cmd("url", odd, 0, ps, *us))
    return cmds


def url_decode(ctx):
    rng, cmds = ctx.rng, []
    for _ in range(ctx.pick(20, 150)):
        ps, us, sized = [], [], rng.randrange(2)
        for i in range(rng.choice([1, 2, 3])):
            u, n = [], rng.randrange(1, 5)
            for _ in range(n):
                u += rng.choice([[rng.choice(b"abcXYZ09-+/?&=")],
                                 list(b"%%%02X" % rng.randrange(1 - sized, 256)),
                                 list(b"%%%02x" % rng.randrange(1 - sized, 256))])
            ps.append((u, times(ctx) if i < 2 else 1))
            us.append((n, i + 1))
        cmds.append(cmd("unurl", rng.randrange(2), sized, ps, *us))
    return cmds


def strings(ctx):
    rng, cmds = ctx.rng, []
    word = b"abcxyz0189_"
    # (the sanitizer measures the whole rest of the string at each search)
    few = [255, 256, 257, 1000, 4096, 16384]
    cmds.append(cmd("str", 0, 0, [([44, 44, 65], 65537)], (1, 0), (2, 1)))
    for _ in range(ctx.pick(12, 80)):
        # words with a delimiter after each, then one without
        d = rng.choice([44, 58, 200, 32])
        ws = [some(rng, rng.randrange(0, 4), word) for _ in range(3)]
        ps = [(w + [d], times(ctx)) for w in ws[:2]] + [(ws[2], 1)]
        us = [(len(w) + 1, i + 1) for i, w in enumerate(ws[:2])]
        cmds.append(cmd("split", d, 0, ps, *us, (len(ws[2]) + 1, 0)))
        # only the first of them split
        cmds.append(cmd("split", d, 1, ps, *us, (len(ws[2]) + 1, 0)))
        # fields long themselves
        f = [some(rng, rng.randrange(1, 4), word) for _ in range(2)]
        ps = [(f[0], times(ctx)), ([d], 1), (f[1], times(ctx))]
        cmds.append(cmd("split", d, 0, ps, (len(f[0]), 1), (1, 0), (len(f[1]), 3),
                        (1, 0)))
        # a delimiter of two bytes
        dd = rng.choice([[44, 44], [58, 47], [47, 58]])
        ps = [(dd + w + [120], rng.choice(few)) for w in ws[:2]] + [(dd + ws[2] + [121], 1)]
        us = [(len(w) + 2, i + 1) for i, w in enumerate(ws[:2])]
        cmds.append(cmd("str", 0, 0, ps, (1, 0), (len(ws[0]) + 2, 1),
                        (len(ws[1]) + 2, 2), (len(ws[2]) + 2, 0)))
        # the rest of it left in one piece
        ps = [(dd, 1), (ws[0] + [120] + dd, rng.choice(few)),
              (ws[1] + [120] + dd, rng.choice(few)), (ws[2] + [121], 1)]
        cmds.append(cmd("str", 0, 2, ps, (1, 0), (len(ws[0]) + 2, 2),
                        (len(ws[1]) + 3, 3), (len(ws[2]) + 2, 0)))
        # atoms and white space
        w = some(rng, rng.randrange(1, 4), b" \t\n\f\r")
        v = some(rng, rng.randrange(1, 4), b" \t\n\f\r")
        a, b = (some(rng, rng.randrange(1, 4), word) for _ in range(2))
        ps = [(w, rng.choice([0, 1, times(ctx)])), (a + v, times(ctx)), (b, times(ctx))]
        cmds.append(cmd("atoms", 0, 0, ps, (len(a) + 1, 2), (len(b), 3), (1, 0)))
        ps = [(w, times(ctx)), (a + v, times(ctx)), (b, times(ctx)), (v, times(ctx))]
        cmds.append(cmd("strip", 0, 0, ps, (len(a + v), 2), (len(b), 3)))
        cmds.append(cmd("dup", 0, 0, ps, *[(len(u), i + 1) for i, (u, n) in
                                           enumerate(ps)]))
        lo = rng.randrange(4)
        hi = rng.randrange(lo + 1, 5)
        cmds.append(cmd("sub", lo, hi, ps, *[(len(ps[i][0]), i + 1)
                                             for i in range(lo, hi)]))
    return cmds


def ascii_(ctx):
    rng, cmds = ctx.rng, []
    pool = [rng.choice(b"azAZ@[`{mM09~")] * 2 + list(range(1, 256))

    def swap(u):
        return [c ^ 32 if rng.random() < .5 and chr(c).isascii() and chr(c).isalpha()
                else c for c in u]
    for _ in range(ctx.pick(15, 100)):
        ps = [(some(rng, rng.randrange(1, 5), pool), times(ctx)),
              (some(rng, rng.randrange(0, 3), pool), 1)]
        us = [(len(u), i + 1) for i, (u, n) in enumerate(ps)]
        cmds.append(cmd(rng.choice(["lower", "upper"]), 0, 0, ps, *us))
        a, b = rng.choice([0x61, 0x41, 0x5b, 0x7b, 0xe4, 0x40]), \
            rng.choice([0x61, 0x41, 0x5b, 0x7b, 0xe4, 0x40])
        u, n = ps[0]
        v = swap(u)
        same = rng.choice([[], [(some(rng, 2, pool), 1)]])
        x = [(u, n), ([a], 1)] + same
        y = [(v, n), ([b], 1)] + same
        if rng.random() < .2:
            y = y[:1]
        for p, q in ((x, y), (y, x)):
            cmds.append(pair("cmp", 1, rng.choice([0, 1, -1, 2]), p, q))
            cmds.append(pair("skip", 0, 0, p, q))
            cmds.append(pair("skip", 0, 0, p + [([66], 1)], q))
        # a long tail of a longer string; one byte off
        z = [(some(rng, 2, pool), rng.choice([1, 300]))]
        m = n - rng.choice([0, 1, 0])
        cmds.append(pair("ends", 0, 0, z + [(u, n)] + same, [(u, n)] + same))
        cmds.append(pair("ends", 0, 0, z + [(u, n)] + same, same or [(u, 1)]))
        cmds.append(pair("ends", 0, 0, z + [(u, n), ([a], 1)],
                         [([b], 1), (u, n), ([a], 1)]))
        cmds.append(pair("ends", 0, 0, [(u, n), ([a], 1)], [(u, n), ([b], 1)]))
    return cmds


def hashes(ctx):
    rng, cmds = ctx.rng, []
    for _ in range(ctx.pick(12, 80)):
        ps = [(some(rng, rng.randrange(1, 9)), times(ctx)),
              (some(rng, rng.randrange(1, 9)), 1)]
        cmds.append("Z hash %d 0 %s" % (rng.randrange(2), told(ps)))
    return cmds


def formats(ctx):
    rng, cmds = ctx.rng, []
    for _ in range(ctx.pick(15, 80)):
        ps = [(some(rng, rng.randrange(1, 5), range(1, 128)), times(ctx))
              for _ in range(2)]
        us = [(len(u), i + 1) for i, (u, n) in enumerate(ps)]
        cmds.append(cmd("printf", 0, 0, ps, *us))
        cmds.append(cmd("printf", 1, 0, ps, (1, 0), *us, (3, 0)))
        cmds.append(cmd("printf", 2, 1, ps, us[0]))
    return cmds


def check(ctx, exe, cmds, module):
    """Law and conformance."""
    if ctx.capture is None:
        core.model_check(ctx, "RepeatsTextMC" if module == "TraceNormalize"
                         else "RepeatsMC")
    core.conform(ctx, exe, "".join("case\n%s\n" % c for c in cmds), "long", module)


# characters whose normal forms are old and settled; each unit begins with a
# starter that composes with nothing before it
CLUSTERS = ["a", "\u00e9", "a\u0301", "\u1e69", "s\u0323\u0307", "s\u0307\u0323",
            "\uac00", "\uac01", "\u1100\u1161\u11a8", "\u212b", "\uf900", "\u4e00",
            "\U0001d15e", "\U00020000", "q\u0307\u0323", "\u0344", "\u1f82",
            "\u0958", "\U0001109a", "-", "\u01d5\u0323"]
CLUSTERS = [c for c in CLUSTERS if c[0] != "\u0344"] + ["o\u0344"]


def normalize(ctx, form):
    import unicodedata
    rng, cmds = ctx.rng, []
    for k in range(ctx.pick(30, 200)):
        ps, us, size = [], [], 1
        for i in range(rng.choice([1, 1, 2, 3])):
            u = "".join(rng.choice(CLUSTERS) for _ in range(rng.choice([1, 1, 2, 4])))
            if form == "NFC":
                u = unicodedata.normalize("NFD", u)
            n = times(ctx) if i < 2 else 1
            y = unicodedata.normalize(form, u).encode()
            ps.append((u.encode(), n))
            us.append((len(y), i + 1))
            size += n * len(y)
        op = "decompose" if form == "NFD" else "recompose"
        if rng.random() < .2:
            cmds.append(cmd(op[0] + "short", size - rng.choice([1, 1, 2, size // 2]),
                            rng.randrange(2), ps, *us))
        else:
            cmds.append(cmd(op, size + rng.choice([0, 0, 1, 9]), rng.randrange(2),
                            ps, *us))
    if form == "NFD":
        # runs of marks out of order
        for _ in range(ctx.pick(4, 30)):
            a, b = rng.choice([300, 1000, 2500]), rng.choice([260, 1000, 2500])
            ps = [(b"a", 1), ("\u0301".encode(), a), ("\u0323".encode(), b)]
            cmds.append(cmd("decompose", 2 + 2 * a + 2 * b, rng.randrange(2), ps,
                            (1, 0), (2, 3), (2, 2)))
    return cmds


def detect(ctx):
    rng, cmds = ctx.rng, []
    for k in range(ctx.pick(30, 200)):
        ps = [("".join(rng.choice(["a", "-", "\u4e00", "\u0152"] + CLUSTERS * (k % 2))
                       for _ in range(rng.choice([1, 2]))).encode(), times(ctx))
              for _ in range(rng.choice([1, 2]))]
        if rng.random() < .7:
            ps.insert(rng.randrange(len(ps) + 1), (rng.choice(
                [b"\xff", b"a\xcc\x81", b"\xcc\x81\xcc\xa3", b"\xc3\xa9",
                 b"\xe2\x84\xab", b"\xe1\x86\xa8", b"\xef\xac\x81"]), 1))
        cmds.append("Z detect 0 %d %s" % (rng.randrange(2), told(ps)))
    return cmds
