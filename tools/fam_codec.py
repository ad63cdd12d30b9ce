"""C15 to C18, C21 to C23, C30, C31: codecs, strings, numbers."""
import json
import itertools
import core, fam_long

HUGE = [2**64 - 1, 2**64 - 2, 2**63, 2**63 - 1, 2**62, 2**32, 2**31]


def hx(bs):
    return "".join("%02x" % b for b in bs) or "-"


def group(cmds, per=40):
    """One case per this many commands."""
    out = []
    for i, c in enumerate(cmds):
        if i % per == 0:
            out.append("case")
        out.append(c)
    return "\n".join(out) + "\n"


def near(rng, bs, fixed, top):
    """A text that differs little: in a place or two, often the last, or in a
    codepoint by a power of two; of the same length if fixed."""
    b, x = list(bs), rng.random()
    if x < .15 or not b:
        return b
    if x < .6:
        for i in {rng.choice([0, len(b) - 1, rng.randrange(len(b))])
                  for _ in range(rng.choice([1, 1, 2]))}:
            if b[i]:
                b[i] = (b[i] ^ 1 << rng.randrange(8)) & top or 1
        return b
    if x < .7:
        i, j = rng.randrange(len(b)), rng.randrange(len(b))
        b[i], b[j] = b[j], b[i]
        return b
    if fixed:
        i = rng.randrange(len(b))
        return b[i:] + b[:i]
    try:
        cs = [ord(c) for c in bytes(b).decode()]
        i = rng.randrange(len(cs))
        c = cs[i] ^ rng.choice([0x10000, 0x10000, 0x10000, 0x20000, 0x100,
                                0x1000, 0x80])
        if 0 < c < 0x110000 and not 0xd800 <= c < 0xe000:
            if rng.random() < .4:
                cs.insert(i + 1, c)
            else:
                cs[i] = c
        return list("".join(map(chr, cs)).encode())
    except UnicodeDecodeError:
        return b[:-1] if x < .85 else b + [rng.randrange(1, top + 1)]


# commands with a text each (its position) whose numbers stay right for any
# text, or for any text of that length
FREE = {"X nfd": [2], "X nfc": [2], "X detect": [2], "X idna": [2], "B enc": [2],
        "B simple": [2], "B dsimple": [2], "U san": [2], "U valid": [2],
        "U validz": [2], "W dec": [2], "N hash": [2]}
FIXED = {"B dec": [2], "U dec": [2], "S split": [2], "S array": [2],
         "S str": [2, 3], "S atoms": [2], "S strip": [2], "S dup": [2],
         "S sub": [2], "S cmp": [2, 3], "S ncmp": [2, 3], "S skip": [2, 3],
         "S ends": [2, 3], "S case": [2], "S range": [2]}


def vary(rng, cmd):
    """A command like this one, or None."""
    w = cmd.split()
    key = " ".join(w[:2])
    if w[0] == "P":
        at, fixed, top = [2], True, 127
    elif key in FREE or key in FIXED:
        at, fixed, top = FREE.get(key) or FIXED[key], key in FIXED, 255
    elif key == "U enc":
        c = int(w[2]) ^ rng.choice([0x10000, 0x100, 0x8000, 0x80, 1])
        if not 0 <= c < 0x110000 or 0xd800 <= c < 0xe000:
            return None
        return "U enc %d %s" % (c, w[3])
    elif key == "N box":
        a, b = int(w[2]), int(w[3])
        x = 1 << rng.choice([16, 31, 32, 32, 32, 48, 63, rng.randrange(64)])
        return "N box %d %d" % rng.choice([(b, a), (a ^ x, b), (a, b ^ x),
                                           (a ^ x, b ^ x)])
    elif key == "B size":
        return "B size %d" % (int(w[2]) ^ 1 << rng.choice([16, 31, 32, 33, 63]))
    else:
        return None
    if key in ("B enc", "B dec") and rng.random() < .3:
        i = 4 if key == "B enc" else 5
        w[i], w[i + 1] = w[i + 1], w[i]
        if rng.random() < .7:
            return " ".join(w)
    if key == "W dec" and rng.random() < .3:
        w[3 + rng.randrange(2)] = str(rng.randrange(2))
    i = rng.choice(at)
    t = list(bytes.fromhex(w[i])) if w[i] != "-" else []
    w[i] = hx(near(rng, t, fixed, top))
    return " ".join(w)


def echoes(ctx, cmds, n):
    """Commands one after another that differ little: what the code answers
    depends on what it is given, not on what it was given before."""
    rng, out = ctx.rng, []
    cmds = [c for c in cmds if len(c) < 3000]
    for c in rng.sample(cmds, min(len(cmds), n)):
        out.append(c)
        last = c
        for _ in range(rng.choice([1, 2, 3])):
            last = vary(rng, rng.choice([c, last])) or c
            out.append(last)
        out.append(c)
    return group(out)


def emitted(out, tag):
    """Sequences printed by a model with PrintT(ToJson(<<tag, ...>>))."""
    res = []
    for line in out.split("\n"):
        if line.startswith('"[\\"' + tag):
            res.append(json.loads(json.loads(line))[1:])
    return res


def codec(ctx, variant="asan"):
    return core.build_driver(ctx, "drv_codec.c", variant)


# ------------------------------------------------------------------- base64

STD = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
ALPHABETS = [(-1, -1)] * 4 + [(45, 95), (46, 95), (95, 45), (45, -1), (-1, 44),
                              (33, 126), (47, 43)]


def c15(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    core.model_check(ctx, "BigNatMC")
    core.model_check(ctx, "Base64Round")
    cmds = []
    # all buffer sizes for small inputs
    for n in range(0, 14):
        for size in range(0, 4 * ((n + 2) // 3) + 4):
            for k in range(2):
                d = [rng.randrange(256) for _ in range(n)]
                if k:
                    d = [rng.choice([0xff, 0xfb, 0xfe, 0xf0, 0]) for _ in range(n)]
                p, q = rng.choice(ALPHABETS)
                cmds.append("B enc %s %d %d %d" % (hx(d), size, p, q))
    # every byte in each position of a group, every pair of bits
    for b in range(256):
        for k in range(3):
            d = [0, 0, 0]
            d[k] = b
            cmds.append("B enc %s 9 -1 -1" % hx(d[:rng.choice([k + 1, 3])]))
    for v in range(64):
        cmds.append("B enc %s 5 %d %d" % (
            hx([v << 2, v >> 4, (v & 15) << 4]), *rng.choice(ALPHABETS)))
    for _ in range(ctx.pick(1500, 15000)):
        n = rng.choice([rng.randrange(0, 8), rng.randrange(0, 100),
                        rng.randrange(0, 300)])
        d = [rng.randrange(256) for _ in range(n)]
        full = (n + 2) // 3 * 4
        size = rng.choice([0, 1, 2, full - 1, full, full + 1, full + 2,
                           full + 9, rng.randrange(0, full + 3)])
        p, q = rng.choice(ALPHABETS)
        cmds.append("B enc %s %d %d %d" % (hx(d), max(size, 0), p, q))
        if rng.random() < .3:
            cmds.append("B simple %s" % hx(d))
    sizes = list(range(0, 40)) + HUGE + [h + d for h in HUGE for d in
                                         (-5, -4, -3, -2, -1, 1, 2, 3, 4)]
    edge = 3 * 2**62
    sizes += [edge + d for d in range(-12, 13)]
    sizes += [rng.randrange(2**64) for _ in range(ctx.pick(150, 2000))]
    sizes += [rng.randrange(2**rng.randrange(1, 64)) for _ in range(200)]
    for s in sizes:
        if 0 <= s < 2**64:
            cmds.append("B size %d" % s)
    cmds.append("B tables")
    core.conform(ctx, exe, group(cmds), "base64-encode", "TraceBase64",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.base64_encode(ctx), "TraceBase64")


def c16(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    res = core.model_check(ctx, "Base64Machine")
    texts = [t[0] for t in emitted(res.out, "TEXT")]
    ctx.notes["texts_from_model"] = len(texts)
    if len(texts) < 60000:
        raise core.CheckError("too few texts")
    if ctx.thorough:
        core.model_check(ctx, "Base64Machine6")
    texts = [t for t in texts if len(t) < 4] + rng.sample(
        [t for t in texts if len(t) >= 4], ctx.pick(9000, 50000))
    cmds = []

    def dec(t, limit, size, p=-1, q=-1, w=0):
        cmds.append("B dec %s %d %d %d %d %d" % (hx(t), limit, size, p, q, w))
    for t in texts:
        dec(t, rng.choice([-1, len(t)]), rng.choice([0, 1, 2, 3, 6]),
            w=rng.randrange(2))
    # every byte value at each place of a group
    for b in range(256):
        for k in range(5):
            t = list(b"QUJDRA=="[:8] if k < 4 else b"QUJD")
            t[k if k < 4 else 3] = b
            for w in range(2):
                dec(t, -1 if rng.random() < .5 else len(t), 9, w=w)
        # and behind and within the padding
        for a, z in ((b"QQ==", b""), (b"QUI=", b""), (b"QQ=", b""), (b"QQ", b"="),
                     (b"QUI", b""), (b"QQ== ", b""), (b"QQ==", b"\n"), (b"", b"")):
            t = list(a) + [b] + list(z)
            for w in range(2):
                dec(t, -1 if rng.random() < .3 else len(t), rng.choice([0, 1, 9]), w=w)
        p, q = rng.choice(ALPHABETS)
        dec([65, b, 65, 65], 4, 3, p, q, rng.randrange(2))
    import base64 as b64
    for _ in range(ctx.pick(3500, 30000)):
        n = rng.choice([rng.randrange(0, 8), rng.randrange(0, 60),
                        rng.randrange(0, 200)])
        d = bytes(rng.randrange(256) for _ in range(n))
        p, q = rng.choice(ALPHABETS)
        t = list(b64.b64encode(d))
        t = [p if c == 43 and p != -1 else q if c == 47 and q != -1 else c
             for c in t]
        wsp = rng.randrange(2)
        x = rng.random()
        if x < .5 and t:
            for _ in range(rng.choice([1, 1, 2, 5])):
                y = rng.random()
                i = rng.randrange(len(t) + 1)
                if y < .35:
                    t.insert(i, rng.choice(b" \t\n\f\r"))
                elif y < .5:
                    t.insert(i, rng.choice([61, 0, 43, 47, 45, 95, 11, 127, 255,
                                            128, rng.randrange(256)]))
                elif y < .7 and i < len(t):
                    t[i] = rng.choice(list(STD) + [61, 32])
                elif y < .85 and i < len(t):
                    del t[i]
                else:
                    t.append(rng.choice([61, 32, 65, 0]))
        elif x < .7 and wsp:
            for _ in range(rng.randrange(1, 6)):
                t.insert(rng.randrange(len(t) + 1), rng.choice(b" \t\n\f\r"))
        size = rng.choice([0, 1, max(n - 1, 0), n, n + 1, n + 5,
                           rng.randrange(n + 2)])
        limit = rng.choice([-1, -1, len(t), rng.randrange(len(t) + 1)])
        if 0 in t and limit >= 0 and rng.random() < .3:
            limit = len(t) + 40
        dec(t, limit, size, p, q, wsp)
        if rng.random() < .25 and 0 not in t:
            cmds.append("B dsimple %s" % hx(t))
    cmds.append("B tables")
    core.conform(ctx, exe, group(cmds), "base64-decode", "TraceBase64",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.base64_decode(ctx), "TraceBase64")


# --------------------------------------------------------------------- date

def c17(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    core.model_check(ctx, "CalendarSteps",
                     ctx.pick("CalendarSteps", "CalendarStepsMore"))
    cmds = []
    # every day of 400 years around the epoch and before, at odd times of day
    lo, hi = ctx.pick((-146097 - 800, 146097), (-3 * 146097, 3 * 146097))
    for d in range(lo, hi, 200):
        cmds.append("D days %d %d 200" % (d, rng.choice(
            [0, 1, 59, 60, 3599, 3600, 43200, 86399, rng.randrange(86400)])))
    # every second of two days; around midnight at many days
    for d in (0, -1, rng.randrange(-700000, 700000)):
        for s in range(0, 86400, 600):
            cmds.append("D secs %d %d 600" % (d, s))
    for _ in range(ctx.pick(300, 3000)):
        cmds.append("D secs %d 86380 40" % rng.randrange(-10**6, 10**6))
    # far away, and around the ends of cycles
    for _ in range(ctx.pick(600, 6000)):
        far = rng.choice([10**6, 10**7, 10**8, 3 * 10**8])
        d = rng.randrange(-far, far)
        if rng.random() < .6:
            cyc = rng.choice([146097, 36524, 1461, 365])
            base = (d // 146097) * 146097 - 135080
            d = base + cyc * rng.randrange(0, 146097 // cyc + 1) - 20
        cmds.append("D days %d %d 60" % (d, rng.choice([0, 86399,
                                                        rng.randrange(86400)])))
    # times one after another that have their low bits, or the day within
    # some cycle, in common
    near_, day = [], 86400
    for _ in range(ctx.pick(250, 4000)):
        d = rng.choice([rng.randrange(-700000, 700000), rng.randrange(-400, 400)])
        s = rng.choice([0, day - 2, rng.randrange(day - 1)])
        for _ in range(rng.randrange(2, 6)):
            near_.append("D secs %d %d 2" % (d, s))
            x = rng.choice([day << rng.choice([8, 15, 16, 16, 17, 20]),
                            1 << rng.choice([16, 31, 32, 32, 33, 40]), 7 * day,
                            365 * day, 1461 * day, 36524 * day, 146097 * day, 0])
            d, s = divmod(d * day + s + rng.choice([1, -1]) * x, day)
    core.conform(ctx, exe, group(cmds, 8), "dates", "TraceDate",
                 reuse=group(near_))


# -------------------------------------------------------------------- float

def c18(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    core.model_check(ctx, "BinarySmall")
    cmds = []

    def add(vs):
        for i in range(0, len(vs), 40):
            cmds.append("F " + " ".join("0x%016x" % v for v in vs[i:i + 40]))
    near = list(range(1015, 1096)) + [0, 1, 2, 2045, 2046, 2047, 1022, 1150]
    for e in range(2048):
        fracs = {0, 1, 2**51, 2**52 - 1, rng.randrange(2**52)}
        if e in near:
            fracs |= {1 << k for k in range(52)}
            fracs |= {2**52 - (1 << k) for k in range(52)}
            fracs |= {(rng.randrange(2**52) >> k) << k for k in range(0, 52)}
            if ctx.thorough:
                fracs |= {(rng.randrange(2**52) >> k) << k for k in range(0, 52)
                          for _ in range(10)}
        if e in near or e % 16 == rng.randrange(16) or ctx.thorough:
            add([s << 63 | e << 52 | f for s in (0, 1) for f in sorted(fracs)])
    add([rng.randrange(2**64) for _ in range(ctx.pick(2000, 40000))])
    import struct
    ints = [rng.randrange(-2**rng.randrange(1, 65), 2**rng.randrange(1, 65))
            for _ in range(ctx.pick(3000, 40000))]
    ints += [s * 2**k + d for k in range(66) for s in (1, -1) for d in (-1, 0, 1)]
    add([struct.unpack("<Q", struct.pack("<d", float(i)))[0] for i in ints])
    add([struct.unpack("<Q", struct.pack("<d", i + x))[0]
         for i in ints[:500] for x in (.5, .25)])
    # values one after another that have most of their bits in common
    near_ = []
    for _ in range(ctx.pick(150, 3000)):
        v = rng.choice([rng.randrange(2**64), struct.unpack(
            "<Q", struct.pack("<d", float(rng.choice(ints))))[0]])
        vs = [v]
        for _ in range(rng.randrange(2, 9)):
            vs.append(rng.choice([v, vs[-1]]) ^ 1 << rng.choice(
                [0, 31, 32, 47, 48, 51, 52, 53, 62, 63, rng.randrange(64)]))
        near_.append("F " + " ".join("0x%016x" % x for x in vs + [v]))
    core.conform(ctx, exe, group(cmds, 20), "floats", "TraceFloat",
                 reuse=group(near_, 20))


# -------------------------------------------------------------------- utf-8

def utf8_model(ctx):
    res = core.model_check(ctx, "Utf8Dfa")
    found = emitted(res.out, "BYTES")
    ctx.notes["strings_from_model"] = len(found)
    if len(found) < 10000:
        raise core.CheckError("too few strings")
    return found


EDGE_CPS = [0, 1, 0x40, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x7fe, 0x7ff, 0x800,
            0x801, 0xfff, 0x1000, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfffd, 0xfffe,
            0xffff, 0x10000, 0x10001, 0x3ffff, 0x40000, 0xfffff, 0x100000,
            0x10fffe, 0x10ffff]


def scalar(rng):
    while True:
        c = rng.choice([rng.randrange(128), rng.randrange(0x800),
                        rng.randrange(0x10000), rng.randrange(0x110000),
                        rng.choice(EDGE_CPS)])
        if not 0xd800 <= c < 0xe000:
            return c


def enc(c):
    return list(chr(c).encode("utf-8", "surrogatepass"))


def messy(rng, n):
    """Mostly valid UTF-8 with some damage; no NULs."""
    t = []
    for _ in range(n):
        x = rng.random()
        c = scalar(rng) or 1
        e = enc(c)
        if x < .7:
            t += e
        elif x < .8:
            t += e[:-1]
        elif x < .87:
            t += [rng.randrange(1, 256)]
        elif x < .9:
            t += enc(rng.randrange(0xd800, 0xe000))
        elif x < .93:
            t += rng.choice([[0xc0, 0x80], [0xc1, 0xbf], [0xe0, 0x80, 0x80],
                             [0xe0, 0x9f, 0xbf], [0xf0, 0x80, 0x80, 0x80],
                             [0xf0, 0x8f, 0xbf, 0xbf], [0xf4, 0x90, 0x80, 0x80],
                             [0xf8, 0x88, 0x80, 0x80, 0x80], [0xef, 0xbf, 0xbd]])
        elif x < .96:
            e[rng.randrange(len(e))] = rng.randrange(1, 256)
            t += e
        else:
            t += [rng.choice([0x80, 0xbf, 0xc2, 0xe1, 0xf1, 0xff])]
    return t


def c19(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    found = utf8_model(ctx)
    cmds = []
    for s, st in (found if ctx.thorough else
                  [x for x in found if x[1] != "over"]
                  + rng.sample([x for x in found if x[1] == "over"], 3000)):
        cmds.append("U dec %s %d" % (hx(s), rng.choice([-1, len(s)])))
        if st in ("done", "over"):
            cmds.append("U dec %s %d" % (hx(s), rng.randrange(len(s) + 1)))
    # every byte at every place, between sampled neighbours
    runs = [([], t) for t in ([], [0x80], [0x80, 0x80], [0x80, 0x80, 0x80],
                              [0xbf, 0xbf, 0xbf, 0xbf], [0x41], [0x80, 0x41],
                              [0x9f, 0x80, 0x80], [0xa0, 0x80, 0x80])]
    for a in range(256):
        for t in ([], [0x80], [0xbf, 0x80], [0x80, 0x80, 0x80]):
            runs.append(([a], t))
    thirds = [0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff]
    for a in range(0xc0, 256):
        for b in (range(256) if ctx.thorough else
                  sorted(set(thirds) | {rng.randrange(256) for _ in range(12)})):
            runs.append(([a, b], []))
            if a >= 0xe0:
                runs.append(([a, b], [rng.choice(thirds)]))
            if a >= 0xf0:
                for c in (range(256) if ctx.thorough else
                          {0x80, 0xbf, rng.randrange(256)}):
                    runs.append(([a, b, c], []))
    for p, t in runs:
        cmds.append("U runs %s %s" % (hx(p), hx(t)))
    cps = set(EDGE_CPS) | {scalar(rng) for _ in range(ctx.pick(1200, 40000))}
    for c in sorted(cps):
        for bound in (-1, 0, 1, 2, 3, 4, 5):
            cmds.append("U enc %d %d" % (c, bound))
    for _ in range(ctx.pick(1500, 15000)):
        t = messy(rng, rng.choice([1, 2, 5, 20]))
        if rng.random() < .4:
            t = [b for _ in range(rng.randrange(12)) for b in enc(scalar(rng) or 1)]
        cmds.append("U validz %s" % hx(t))
        if rng.random() < .3:
            t.insert(rng.randrange(len(t) + 1), 0)
        cmds.append("U valid %s" % hx(t))
    cmds.append("U null")
    # every scalar value there is
    for lo in range(0, 0x110000, 2048):
        if lo != 0xd800:
            cmds.append("U block %d 2048" % lo)
    core.conform(ctx, exe, group(cmds), "utf8", "TraceUtf8",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.utf8(ctx), "TraceUtf8")


def c20(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    found = utf8_model(ctx)
    cmds = []
    pick = found if ctx.thorough else rng.sample(found, 6000)
    for s, st in pick:
        if rng.random() < .3:
            s = s + enc(scalar(rng) or 1) + rng.choice(pick)[0]
        cmds.append("U san %s" % hx(s))
    for a in range(1, 256):
        cmds.append("U san %s" % hx([a]))
        for b in (0x41, 0x80, 0x90, 0xa0, 0xbf, 0xc2, 0xff):
            cmds.append("U san %s" % hx([a, b]))
    for _ in range(ctx.pick(2500, 30000)):
        t = messy(rng, rng.choice([0, 1, 2, 5, 20, 60]))
        cmds.append("U san %s" % hx(t))
    core.conform(ctx, exe, group(cmds), "sanitize", "TraceUtf8",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.sanitize(ctx), "TraceUtf8")


# ---------------------------------------------------------------------- url

def c21(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    res = core.model_check(ctx, "UrlMachine")
    texts = [t[0] for t in emitted(res.out, "TEXT")]
    ctx.notes["texts_from_model"] = len(texts)
    if len(texts) < 30000:
        raise core.CheckError("too few texts")
    texts = [t for t in texts if len(t) < 4] + rng.sample(
        [t for t in texts if len(t) >= 4], ctx.pick(8000, 30000))
    cmds = []

    def dec(t):
        cmds.append("W dec %s %d %d" % (hx(t), rng.randrange(2), rng.randrange(2)))
    for t in texts:
        dec(t)
    for b in range(1, 256):
        dec([b])
        dec([37, b, 65])
        dec([37, 53, b])
        dec([37, b])
        dec([65, 37, 55, 102, b, 37])
    for b in range(256):
        for f in ("%%%02X", "%%%02x", "x%%%02X+"):
            dec(list((f % b).encode()))
    # all orders of what decoding gives the same or treats alike
    units = [[43], list(b"%2B"), list(b"%20"), list(b"%25"), [65]]
    for n in range(1, ctx.pick(5, 6)):
        for seq in itertools.product(units, repeat=n):
            for plus in range(2):
                cmds.append("W dec %s %d %d" % (hx(sum(seq, [])), plus,
                                                rng.randrange(2)))
    for _ in range(ctx.pick(1500, 15000)):
        t = [b for _ in range(rng.choice([3, 20, 200]))
             for b in rng.choice([[37] + list(b"%02x" % rng.randrange(256))] * 2
                                 + [[rng.randrange(1, 256)], [43], [37],
                                    list(b"%%00"[1:])] if rng.random() < .1 else
                                 [[rng.choice(b"abcXYZ019-_+/?&=")],
                                  [37] + list(b"%02X" % rng.randrange(256))])]
        dec(t)

    def some(k):
        return [rng.choice([rng.randrange(1, 256), rng.choice(b" +%&=?/\"]}az09~!"),
                            rng.randrange(128, 256)]) for _ in range(k)]
    script = group(cmds)
    for _ in range(ctx.pick(150, 1500)):
        cs = ["case", "W bytes -1"]
        have = {}
        for _ in range(rng.randrange(6, 18)):
            x = rng.random()
            t = rng.randrange(6)
            if x < .3 and t not in have:
                a, b = some(rng.choice([0, 1, 3, 10])), some(rng.choice([0, 1, 3, 10]))
                if rng.random() < .4:
                    b = [c for c in b if c not in (37, 43)]
                if rng.random() < .1:
                    a = list(range(1, 256))
                elif rng.random() < .1:
                    b = [c for c in range(1, 256) if c not in (37, 43)]
                have[t] = 1
                cs.append("W new %d %s %s" % (t, hx(a), hx(b)))
            elif x < .4 and t in have:
                del have[t]
                cs.append("W del %d" % t)
            elif x < .6:
                cs.append("W bytes %d" % rng.choice([-1] + list(have)))
            else:
                s = some(rng.choice([0, 1, 5, 40, 300]))
                cs.append("W enc %d %s" % (rng.choice([-1] + list(have)), hx(s)))
        cs.append("W bytes -1")
        script += "\n".join(cs) + "\n"
    # encoders and texts one after another that differ little, at the addresses
    # of those before
    again = echoes(ctx, cmds, ctx.pick(250, 4000))
    for _ in range(ctx.pick(60, 600)):
        cs = ["case"]
        a, b = some(rng.choice([1, 3, 10])), some(rng.choice([1, 3, 10]))
        s = some(20)
        for _ in range(rng.randrange(2, 6)):
            cs += ["W new 0 %s %s" % (hx(a), hx(b)), "W bytes 0",
                   "W enc 0 %s" % hx(s), "W del 0"]
            a, b = rng.choice([(near(rng, a, True, 255), b), (b, a), (a, b),
                               (a, near(rng, b, True, 255))])
            s = near(rng, s, False, 255)
        again += "\n".join(cs) + "\n"
    core.conform(ctx, exe, script, "url", "TraceUrl", reuse=again)
    fam_long.check(ctx, exe, fam_long.url_encode(ctx) + fam_long.url_decode(ctx),
                   "TraceUrl")


# ------------------------------------------------------------------ strings

def c22(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    res = core.model_check(ctx, "StringsMachine",
                           ctx.pick("StringsMachine", "StringsMachine8"))
    splits = emitted(res.out, "SPLIT")
    texts = [t[0] for t in emitted(res.out, "ATOMS")]
    ctx.notes["texts_from_model"] = len(splits) + len(texts)
    if len(splits) < 15000 or len(texts) < 1000:
        raise core.CheckError("too few strings")
    cmds = ["S null 41"]

    def split(s, d, m):
        if m == 9 or m > 10**6:
            m = rng.choice([9, 2**32 - 1, 2**31, 2**31 - 1, 1000])
        if len(d) == 1:
            cmds.append("S split %s %d %d" % (hx(s), d[0], m))
            cmds.append("S array %s %d %d" % (hx(s), d[0], m))
        cmds.append("S str %s %s %d" % (hx(s), hx(d), m))

    def rest(s):
        cmds.append("S atoms %s" % hx(s))
        cmds.append("S strip %s" % hx(s))
        cmds.append("S dup %s" % hx(s))
        a = rng.randrange(len(s) + 1)
        cmds.append("S sub %s %d %d" % (hx(s), a, rng.randrange(a, len(s) + 1)))
    for s, d, m in rng.sample(splits, min(len(splits), ctx.pick(5000, 60000))):
        split(s, d, m)
    for s in rng.sample(texts, min(len(texts), ctx.pick(1100, 9000))):
        w = rng.choice([9, 10, 12, 13])
        rest([w if c == 32 else c for c in s] if rng.random() < .5 else s)
    for b in range(1, 256):
        for s in ([b], [65, b], [b, 65], [65, b, 66], [32, b, 32], [b, b, 65, b]):
            cmds.append("S atoms %s" % hx(s))
            cmds.append("S strip %s" % hx(s))
        # first, last and alone in what stands between separators
        w, v, b2 = rng.choice([9, 10, 12, 13, 32]), 32, rng.randrange(1, 256)
        cmds.append("S atoms %s" % hx(
            [65, v, b, 66, v, b, w, v, b, b, v, 66, b, w, b2, b, v, b, b2, w, b]))
        s = [b, 44, b, 66, 44, 44, b, b, 44, 66, b, 44, b2, b, 44, b, b2, 44]
        split(s, [44], rng.choice([0, 2, 5, 9, 100]))
        split(s, [44, b], rng.choice([0, 2, 9]))
        s = [rng.choice([b, b, 65, (b + 128) % 256 or 1]) for _ in range(8)]
        split(s, [b], rng.randrange(6))
        split(s, [b, rng.choice(s)], rng.randrange(6))
    for _ in range(ctx.pick(800, 8000)):
        k = rng.choice([2, 3, 5])
        al = [rng.choice([rng.randrange(1, 256), 32, 9, 10, 11, 12, 13, 44])
              for _ in range(k)]
        s = [rng.choice(al) for _ in range(rng.choice([0, 3, 10, 40, 150]))]
        d = [rng.choice(al) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        if s and rng.random() < .4:
            i = rng.randrange(len(s))
            d = s[i:i + rng.choice([1, 2, 4, 200])] or d
        split(s, d, rng.choice([0, 1, 2, 3, len(s), 2**32 - 1]))
        rest(s)
    core.conform(ctx, exe, group(cmds), "strings", "TraceStrings",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.strings(ctx), "TraceStrings")


def latin1(ctx):
    """A locale with single-byte letters beyond ASCII, or None."""
    import os, subprocess
    d = ctx.path("locales")
    os.makedirs(d, exist_ok=True)
    try:
        subprocess.run(["localedef", "--no-archive", "-c", "-i",
                        "/usr/share/i18n/locales/fi_FI", "-f", "ISO-8859-1",
                        os.path.join(d, "vt_L1")], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=60)
    except (OSError, subprocess.SubprocessError):
        return None
    return d if os.path.exists(os.path.join(d, "vt_L1", "LC_CTYPE")) else None


def c23_script(ctx, n):
    rng = ctx.rng
    cmds = ["S class 41"]

    def swap(s):
        return [c ^ 32 if rng.random() < .4 and chr(c).isascii()
                and chr(c).isalpha() else c for c in s]
    pool = [rng.choice([rng.randrange(1, 256), rng.choice(b"azAZ@[`{mM")])
            for _ in range(4000)]
    for b in range(1, 256):
        for c in sorted({b ^ 32, b, (b ^ 128) or 1, rng.randrange(1, 256),
                         rng.choice(b"AZaz[`@{")}):
            if c:
                cmds.append("S cmp %s %s" % (hx([b]), hx([c])))
                cmds.append("S skip %s %s" % (hx([b, 65]), hx([c])))
                cmds.append("S ends %s %s" % (hx([65, b]), hx([c])))
        cmds.append("S case %s %d" % (hx([b, b]), rng.randrange(3)))
    for _ in range(n):
        k = rng.choice([0, 1, 2, 5, 20])
        a = [rng.choice(pool) for _ in range(k)]
        b = swap(a)
        x = rng.random()
        if x < .3:
            b = b[:rng.randrange(len(b) + 1)]
        elif x < .5 and b:
            b[rng.randrange(len(b))] = rng.choice(pool)
        elif x < .6:
            b = b + [rng.choice(pool)]
        elif x < .7:
            b = b[rng.randrange(len(b) + 1):]
        if rng.random() < .3:
            a, b = b, a
        cmds.append("S cmp %s %s" % (hx(a), hx(b)))
        m = rng.choice([0, 1, 2, len(a), len(b), max(len(b) - 1, 0), len(a) + 1,
                        2**64 - 1, 2**63])
        cmds.append("S ncmp %s %s %d" % (hx(a), hx(b), m))
        cmds.append("S skip %s %s" % (hx(a), hx(b)))
        cmds.append("S ends %s %s" % (hx(a), hx(b)))
        cmds.append("S ends %s %s" % (hx(a), hx(a[rng.randrange(len(a) + 1):])))
        # the ending elsewhere in the string as well, or overlapping itself
        w = a[:rng.choice([1, 2, 3, 12])] + [rng.choice(pool)]
        s = w * rng.randrange(1, 12) + w[:rng.choice([0, 0, 0, 1])]
        e = rng.choice([w, w * 2, s[rng.randrange(len(s)):], s[len(w):]])
        cmds.append("S ends %s %s" % (hx(s), hx(e)))
        cmds.append("S skip %s %s" % (hx(s), hx(w * rng.randrange(4))))
        cmds.append("S case %s %d" % (hx(a), rng.randrange(len(a) + 1)))
        c = [rng.choice([0, rng.choice(pool)]) if rng.random() < .4 else y
             for y in a + b]
        i, j = sorted((rng.randrange(len(c) + 1), rng.choice([len(c), rng.randrange(len(c) + 1)])))
        cmds.append("S range %s %d %d" % (hx(c), i, j))
    return cmds


def c23(ctx):
    import os
    exe = codec(ctx)
    core.model_check(ctx, "AsciiMC")
    n = ctx.pick(1500, 15000)
    cmds = c23_script(ctx, n)
    core.conform(ctx, exe, group(cmds), "ascii", "TraceStrings",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.ascii_(ctx), "TraceStrings")
    d = latin1(ctx)
    ctx.notes["latin1_locale"] = bool(d)
    if d:
        os.environ["LOCPATH"] = d
        core.conform(ctx, exe, group(c23_script(ctx, n // 3)), "ascii-latin1",
                     "TraceStrings", args=("locale", "vt_L1"))


# ------------------------------------------------------ keys, hashes, format

def c30(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    core.model_check(ctx, "BigNatMC")
    core.model_check(ctx, "KeysMC")
    edge = sorted({(s * 2**k + d) % 2**64 for k in range(64) for s in (1, -1)
                   for d in (-1, 0, 1)})
    cmds = []

    def word():
        return rng.choice([rng.choice(edge), rng.randrange(2**64),
                           rng.randrange(2**rng.randrange(1, 65)),
                           2**64 - 1 - rng.randrange(2**rng.randrange(1, 64))])
    for a in edge:
        for b in [a, 2**64 - 1 - a, (a + 1) % 2**64, (a - 1) % 2**64,
                  a ^ 2**63, a ^ 2**31, a ^ 2**32] + rng.sample(edge, 6):
            cmds.append("N box %d %d" % (a, b))
    for _ in range(ctx.pick(4000, 60000)):
        cmds.append("N box %d %d" % (word(), word()))
    for n in list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]:
        for _ in range(3):
            cmds.append("N hash %s 1" % hx([rng.randrange(1, 256) for _ in range(n)]))
            cmds.append("N hash %s 0" % hx([rng.choice([0, rng.randrange(256)])
                                            for _ in range(n)]))
            cmds.append("N hash %s 0" % hx([rng.choice([0, 0, 128, 255])
                                            for _ in range(n)]))
    for _ in range(ctx.pick(300, 5000)):
        n = rng.choice([2, 9, 33, 100])
        cmds.append("N hash %s 1" % hx([rng.randrange(1, 256) for _ in range(n)]))
        cmds.append("N hash %s 0" % hx([rng.randrange(256) for _ in range(n)]))
    core.conform(ctx, exe, group(cmds), "keys", "TraceKeys",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.hashes(ctx), "TraceKeys")


def c31(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    core.model_check(ctx, "FormatMC")
    cmds = []
    nums = [0, 1, -1, 9, 10, -9, -10, 99, 100, 2**31 - 1, -(2**31 - 1), 65, 12345]

    def pf(k, s, n, w):
        cmds.append("P %d %s %d %d" % (k, hx(s), n, w))
    for k in range(13):
        for n in nums:
            for w in (0, 1, 2, 5, 12, -3, -15):
                pf(k, [rng.randrange(1, 128) for _ in range(rng.randrange(6))], n, w)
    # every length around the usual buffer sizes
    edge = [15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 99, 100, 101, 127, 128,
            129, 199, 200, 255, 256, 257, 299, 499, 500, 511, 512, 513, 999, 1000,
            1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]
    for n in list(range(0, 140)) + edge:
        pf(0, [rng.randrange(1, 256) for _ in range(n)], 0, 0)
        pf(3, [65], 0, n)
        if n % 8 == 0:
            pf(10, [rng.randrange(1, 128) for _ in range(n // 8)], 0, 0)
        pf(5, [65], rng.choice(nums), n)
        pf(rng.choice([2, 7]), [rng.randrange(1, 128) for _ in range(n)], 7,
           rng.randrange(n + 2))
    big = [8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100000]
    for n in big:
        pf(0, [65 + i % 57 for i in range(n)], 0, 0)
        pf(3, [66], 0, n)
    for _ in range(ctx.pick(1500, 20000)):
        pf(rng.randrange(13), [rng.randrange(1, 128) for _ in
                               range(rng.choice([0, 1, 5, 30, 200]))],
           rng.choice([rng.choice(nums), rng.randrange(-2**31 + 1, 2**31)]),
           rng.choice([0, 3, 10, -7, rng.randrange(-300, 300)]))
    core.conform(ctx, exe, group(cmds), "format", "TraceFormat",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.formats(ctx), "TraceFormat")


# -------------------------------------------------------------- allocation

def c14(ctx):
    rng = ctx.rng
    exe = codec(ctx)
    core.model_check(ctx, "BigNatMC")
    core.model_check(ctx, "AllocMC")
    out = []
    edge = [0, 1, 2, 3, 7, 8, 63, 64, 4095, 4096, 4097, 2**16, 2**31, 2**32 - 1,
            2**32, 2**32 + 1, 2**33, 2**48, 2**62, 2**63 - 1, 2**63, 2**63 + 1,
            2**64 - 4, 2**64 - 2, 2**64 - 1]

    def size():
        return rng.choice([rng.choice(edge), rng.randrange(300),
                           rng.randrange(2**rng.randrange(1, 65))])
    pairs = [(a, b) for a in edge for b in edge]
    # products that are small when cut to 64 (or 32) bits
    for _ in range(ctx.pick(400, 5000)):
        k = rng.randrange(1, 64)
        a = 2**k
        b = 2**(64 - k) * rng.randrange(1, 4) + rng.choice([0, 0, 1, 2, 5])
        pairs.append((a, b) if rng.random() < .5 else (b, a))
        a = rng.randrange(2, 2**rng.randrange(2, 40))
        b = 2**64 // a + rng.randrange(0, 3)
        pairs.append((a, b) if rng.random() < .5 else (b, a))
        pairs.append((rng.randrange(1, 70), rng.randrange(1, 60)))
        pairs.append((2**32 + rng.randrange(3), rng.randrange(1, 5)))
        a, top = rng.randrange(1, 2**rng.randrange(1, 18)), rng.choice([5000, 70000, 200000])
        a = min(a, top)
        b = rng.randrange(1, top // a + 1)
        pairs.append((a, b) if rng.random() < .5 else (b, a))
    pairs = [(a, b) for a, b in pairs if a < 2**64 and b < 2**64]
    rng.shuffle(pairs)
    for c in range(0, len(pairs), 12):
        out += ["case", "M set %d" % rng.randrange(3), "M cset %d" % rng.randrange(2)]
        if c < 36:
            # every kind of block and size, with one reallocator after the other
            out[-2] = "M set %d" % (c // 12)
            for at in (-1, 0, 16):
                for n in (0, 1, 2, 64, 4096, 2**32, 2**64 - 1):
                    for fail in (0, 1):
                        out.append("M realloc %d %d %d" % (fail, at, n))
                        out.append("M alloc %d %d" % (fail, n))
                out.append("M free %d" % at)
        for a, b in pairs[c:c + 12]:
            out.append("M calloc %d %d %d" % (rng.random() < .1, a, b))
            x = rng.random()
            if x < .2:
                out.append("M alloc %d %d" % (rng.random() < .1, size()))
            elif x < .4:
                out.append("M realloc %d %d %d" % (
                    rng.random() < .1, rng.choice([-1, 0, 16, 1024, 4096]), size()))
            elif x < .6:
                out.append("M free %d" % rng.choice([-1, 0, 16, 160]))
            elif x < .7:
                out.append("M set %d" % rng.randrange(3))
            elif x < .75:
                out.append("M cset %d" % rng.randrange(2))
            elif x < .9:
                out.append("M skew %d" % rng.choice(
                    [-1, 1, 0, 5, -100, 2**31 - 1, -2**31 + 1]))
    out += ["case", "M set 1", "M default", "M set 2", "M alloc 0 5"]
    core.conform(ctx, exe, "\n".join(out) + "\n", "alloc", "TraceAlloc",
                 args=("mock",))
