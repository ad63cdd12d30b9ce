"""C24 to C29: Unicode and IDNA."""
import json, os
import core, fam_long
from fam_codec import hx, group, echoes, emitted, enc, scalar, messy


def driver(ctx, variant="asan"):
    return core.build_driver(ctx, "drv_unicode.c", variant)


def data():
    with open(os.path.join(core.SPEC, "data", "ucd.json")) as f:
        return json.load(f)


class Ucd:
    """Read access to the pinned tables, to choose inputs with."""
    def __init__(self):
        d = data()
        self.d = d
        self.cccs = {}          # marks by class
        self.marks = []
        for p in range(0x1100):
            page = d["ccc"]["pages"][d["ccc"]["index"][p] - 1]
            if any(page):
                for i, v in enumerate(page):
                    if v:
                        self.cccs.setdefault(v, []).append(p * 256 + i)
                        self.marks.append(p * 256 + i)
        self.decs = self.keys("decomp")
        self.decomp = dict(zip(self.decs, d["decomp"]["values"]))
        self.pairs = [(a, b, c) for a, ps in zip(self.keys("compose"),
                                                 d["compose"]["values"])
                      for b, c in ps]
        self.composable = sorted({b for _, b, _ in self.pairs})
        self.starters = sorted({a for a, _, _ in self.pairs})
        self.maps = self.keys("mapping")
        self.mapping = dict(zip(self.maps, d["mapping"]["values"]))
        self.status = {}
        for p in range(0x1100):
            page = d["status"]["pages"][d["status"]["index"][p] - 1]
            for i, v in enumerate(page):
                self.status.setdefault(v, []).append(p * 256 + i)
        self.flagged = {}
        for p in range(0x1100):
            page = d["flags"]["pages"][d["flags"]["index"][p] - 1]
            if any(page):
                for i, v in enumerate(page):
                    if v:
                        self.flagged.setdefault(v, []).append(p * 256 + i)

    def keys(self, name):
        t = self.d[name]
        out = {}
        for p in range(0x1100):
            page = t["pages"][t["index"][p] - 1]
            if any(page):
                for i, v in enumerate(page):
                    if v:
                        out[v] = p * 256 + i
        return [out[k] for k in sorted(out)]

    def stat(self, c):
        t = self.d["status"]
        return t["pages"][t["index"][c >> 8] - 1][c & 255]


def text(cs):
    return [b for c in cs for b in enc(c)]


def hangul(rng):
    x = rng.random()
    if x < .3:
        return [0xac00 + rng.randrange(11172)]
    if x < .5:
        return [0xac00 + 28 * rng.randrange(399)]
    if x < .6:
        return [rng.choice([0xabff, 0xac00, 0xd7a3, 0xd7a4])]
    if x < .8:
        return [rng.choice([0x1100, 0x1112, 0x1113, 0x10ff,
                            0x1100 + rng.randrange(19)]),
                rng.choice([0x1161, 0x1175, 0x1176, 0x1160,
                            0x1161 + rng.randrange(21)])]
    return [rng.choice([0x11a7, 0x11a8, 0x11c2, 0x11c3,
                        0x11a8 + rng.randrange(27)])]


def mix(rng, u, n):
    """Codepoints that interact under normalization; no NUL."""
    cs = []
    while len(cs) < n:
        x = rng.random()
        if x < .15:
            cs.append(rng.choice(u.decs))
        elif x < .3:
            a, b, _ = rng.choice(u.pairs)
            cs.append(a)
            for _ in range(rng.choice([0, 0, 1, 2])):
                cs.append(rng.choice(u.marks))
            cs.append(b)
        elif x < .45:
            k = rng.choice(list(u.cccs))
            cs += [rng.choice(u.cccs[k]) for _ in range(rng.choice([1, 2]))]
        elif x < .6:
            cs += [rng.choice([0x300, 0x301, 0x302, 0x304, 0x307, 0x308, 0x323, 0x327,
                               0x328, 0x330, 0x331, 0x338, 0x345, 0x315])
                   for _ in range(rng.choice([1, 2, 4]))]
        elif x < .75:
            cs += hangul(rng)
        elif x < .85:
            cs.append(rng.choice(b"aeiouAEOUnsSzZ. "))
        elif x < .93:
            cs.append(rng.choice(u.composable + u.starters))
        else:
            cs.append(scalar(rng) or 1)
    return cs[:n]


def canon(u, cs):
    """NFD, only to choose inputs: whether it is right does not matter, as the
    specification works it out again."""
    out = []

    def full(c):
        if 0xac00 <= c < 0xac00 + 11172:
            i = c - 0xac00
            out.extend([0x1100 + i // 588, 0x1161 + i % 588 // 28] +
                       ([0x11a7 + i % 28] if i % 28 else []))
        elif c in u.decomp:
            for x in u.decomp[c]:
                full(x)
        else:
            out.append(c)
    for c in cs:
        full(c)
    ccc = u.__dict__.setdefault("byccc", {m: k for k, ms in u.cccs.items()
                                          for m in ms})
    i = 0
    while i < len(out):
        j = i
        while j < len(out) and out[j] in ccc:
            j += 1
        if j > i:
            out[i:j] = sorted(out[i:j], key=lambda c: ccc[c])
        i = j + 1
    return out


def norm_model(ctx):
    res = core.model_check(ctx, "NormalizeMachine",
                           ctx.pick("NormalizeMachine", "NormalizeMachine5"))
    found = [t[0] for t in emitted(res.out, "CPS")]
    ctx.notes["strings_from_model"] = len(found)
    if len(found) < 5000:
        raise core.CheckError("too few strings")
    return found


def damage(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(t) + 1)
        x = rng.random()
        if x < .4:
            t.insert(i, rng.choice([0x80, 0xbf, 0xc0, 0xc3, 0xe1, 0xf0, 0xff, 0xed]))
        elif x < .7 and i < len(t):
            del t[i]
        elif i < len(t):
            t[i] = rng.randrange(256)
        else:
            t.append(0xe1)
    return t


def samples(ctx, u, n):
    rng = ctx.rng
    for _ in range(n):
        yield mix(rng, u, rng.choice([1, 2, 3, 5, 8, 20, 60]))


def c24(ctx):
    rng = ctx.rng
    exe = driver(ctx)
    u = Ucd()
    found = norm_model(ctx)
    cmds = []

    def nfd(t, cs=None, tight=None):
        """tight: length of the right answer, to choose a size around it"""
        full = 3 * len(t) + 1
        size = full
        if tight is not None and rng.random() < .5:
            size = max(0, tight + 1 + rng.choice([-5, -3, -2, -1, -1, 0, 0, 1, 2]))
        elif rng.random() < .15:
            size = rng.randrange(full + 3)
        b = rng.randrange(2)
        if not b:
            t = [x for x in t if x]
        cmds.append("X nfd %s %d %d" % (hx(t), b, size))

    def good(cs):
        nfd(text(cs), cs, len(text(canon(u, cs))))
    # every codepoint that decomposes, alone and in all tight buffers
    for c in u.decs:
        good([c])
        good([c, rng.choice(u.marks)])
        if rng.random() < ctx.pick(.25, 1):
            good([rng.choice(u.marks), c, rng.choice(u.decs)])
    for c in [0xac00 + rng.randrange(11172) for _ in range(ctx.pick(250, 6000))] + \
            [0xabff, 0xac00, 0xac01, 0xac1b, 0xac1c, 0xd7a2, 0xd7a3, 0xd7a4]:
        good([c])
    for size in range(0, 12):
        for c in (0xac00, 0xac01, 0xd7a3, 0x1e69, 0xe9, 0x41, 0x1f85, 0x1d15e):
            cmds.append("X nfd %s 1 %d" % (hx(text([c])), size))
            cmds.append("X nfd %s 0 %d" % (hx(text([0x61, c])), size))
    for cs in rng.sample(found, min(len(found), ctx.pick(4000, 60000))):
        good(cs)
    for cs in samples(ctx, u, ctx.pick(1500, 20000)):
        good(cs)
    # long mark sequences, all orders
    for _ in range(ctx.pick(60, 600)):
        good([rng.choice([0x41, 0xe9, 0xac01])] + [
            rng.choice(u.cccs[rng.choice(list(u.cccs))])
            for _ in range(rng.choice([10, 40, 110]))])
    # invalid, NULs inside
    for cs in samples(ctx, u, ctx.pick(800, 8000)):
        nfd(damage(rng, text(cs)))
    for _ in range(ctx.pick(400, 4000)):
        t = messy(rng, rng.choice([1, 3, 10]))
        if rng.random() < .3:
            t.insert(rng.randrange(len(t) + 1), 0)
        nfd(t)
    core.conform(ctx, exe, group(cmds), "nfd", "TraceNormalize",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.normalize(ctx, "NFD"), "TraceNormalize")


def c25(ctx):
    rng = ctx.rng
    exe = driver(ctx)
    u = Ucd()
    found = norm_model(ctx)
    cmds = []

    def nfc(t, size=None):
        full = len(t) + 1
        if size is None:
            size = full
            if rng.random() < .4:
                size = max(0, rng.choice([full - 1, full - 2, full - 3, full - 4,
                                          full - 6, full // 2, rng.randrange(full)]))
        b = rng.randrange(2)
        if not b:
            t = [x for x in t if x]
        cmds.append("X nfc %s %d %d" % (hx(t), b, size))

    def good(cs):
        nfc(text(canon(u, cs)))
    for a, b, c in u.pairs:
        good([c])
        if rng.random() < ctx.pick(.3, 1):
            good([a, rng.choice(u.marks), b])
            good([c, rng.choice(u.composable)])
    for c in u.decs:
        if rng.random() < ctx.pick(.3, 1):
            good([c])
    for c in [0xac00 + rng.randrange(11172) for _ in range(ctx.pick(200, 6000))]:
        good([c])
    for _ in range(ctx.pick(300, 3000)):
        good([x for _ in range(rng.choice([2, 3, 5])) for x in hangul(rng)])
    for size in range(0, 12):
        for c in (0xac00, 0xac01, 0x1e69, 0xe9, 0x41, 0x1f85, 0x1d15e, 0x958):
            nfc(text(canon(u, [c])), size)
            nfc(text(canon(u, [0x61, c])), size)
    for cs in rng.sample(found, min(len(found), ctx.pick(4000, 60000))):
        good(cs)
    for cs in samples(ctx, u, ctx.pick(1500, 20000)):
        good(cs)
    # marks up to, at and beyond the documented hundred
    for n in (98, 99, 100, 101, 102, 150):
        for m in ([0x334], [0x315], [0x334, 0x301], [0x323, 0x307], [0x345]):
            for base in (0x61, 0x1100, 0x3b1, 0x61):
                cs = [base] + sorted((m * n)[:n])
                good(cs + rng.choice([[], [0x61], [0x1161], [0x61, 0x301]]))
                good(m * n)
                # one that composes at the very end
                good([base] + m[:1] * (n - 1) + [0x323, 0x300])
    for cs in samples(ctx, u, ctx.pick(700, 7000)):
        nfc(damage(rng, text(canon(u, cs))))
    for _ in range(ctx.pick(300, 3000)):
        t = messy(rng, rng.choice([1, 3, 10]))
        if rng.random() < .3:
            t.insert(rng.randrange(len(t) + 1), 0)
        nfc(t)
    core.conform(ctx, exe, group(cmds), "nfc", "TraceNormalize",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.normalize(ctx, "NFC"), "TraceNormalize")


def c26(ctx):
    rng = ctx.rng
    exe = driver(ctx)
    u = Ucd()
    found = norm_model(ctx)
    cmds = []

    def det(t):
        b = rng.randrange(2)
        if not b:
            t = [x for x in t if x]
        cmds.append("X detect %s %d" % (hx(t), b))
    for k in u.flagged:
        ms = u.flagged[k]
        for c in (ms if ctx.thorough or len(ms) < 300 else rng.sample(ms, 300)):
            det(text([0x61, c]))
            if rng.random() < .3:
                det(text([c, rng.choice(u.marks)]))
                det(text([rng.choice(u.marks), c]))
    for k in u.cccs:
        for j in rng.sample(list(u.cccs), 12) + [k]:
            a, b = rng.choice(u.cccs[k]), rng.choice(u.cccs[j])
            det(text([0x61, a, b]))
            det(text([a, 0x61, b]))
            det(text([a, b]))
    for cs in rng.sample(found, min(len(found), ctx.pick(3000, 40000))):
        det(text(cs))
    for cs in samples(ctx, u, ctx.pick(2000, 20000)):
        x = rng.random()
        if x < .25:
            cs = canon(u, cs)
        t = text(cs)
        if x > .7:
            t = damage(rng, t)
        det(t)
    for _ in range(ctx.pick(500, 5000)):
        # all allowed up to damage at the end
        t = text([rng.choice([rng.randrange(0x20, 0x300), 0x4e00 + rng.randrange(900)])
                  for _ in range(rng.randrange(6))])
        det(t + rng.choice([[], [0x80], [0xc3], [0xe1, 0x80], [0, 0xff], [0xff, 0xcc, 0x81]]))
    core.conform(ctx, exe, group(cmds), "detect", "TraceNormalize",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
    fam_long.check(ctx, exe, fam_long.detect(ctx), "TraceNormalize")


def pages(ctx, kind, name):
    """All codepoints, with some of another page asked about in between, most
    often the one 2^16 away."""
    exe = driver(ctx)

    def other(p):
        q = ctx.rng.choice([-1, p ^ 0x100, p ^ 0x100, p ^ 1, p ^ 0x200,
                            ctx.rng.randrange(0x300), ctx.rng.randrange(0x1100)])
        return q if q < 0x1100 else p ^ 0x20
    script = "".join("case\n" + "".join("T %s %d %d\n" % (kind, p + i, other(p + i))
                                        for i in range(16))
                     for p in range(0, 0x1100, 16))
    core.conform(ctx, exe, script, name, "TraceUcd")


def c27(ctx):
    core.model_check(ctx, "UcdMC")
    pages(ctx, "ucd", "ucd-tables")


def c28(ctx):
    core.model_check(ctx, "IdnaTableMC")
    pages(ctx, "idna", "idna-tables")


def puny_model(ctx):
    res = core.model_check(ctx, "PunycodeMC",
                           ctx.pick("PunycodeMC", "PunycodeMC5"))
    found = [t[0] for t in emitted(res.out, "LABEL")]
    ctx.notes["labels_from_model"] = len(found)
    if len(found) < 2000:
        raise core.CheckError("too few labels")
    return found


def c29(ctx):
    rng = ctx.rng
    exe = driver(ctx)
    u = Ucd()
    found = puny_model(ctx)
    cmds = []

    def idna(t):
        cmds.append("X idna %s" % hx([b for b in t if b]))
    ok = [c for c in u.status[0] if c >= 128]
    okl = [c for c in ok if c < 0x600]

    def label(n, wild=.2):
        x = rng.random()
        if x < .25:
            pool = [0xe4, 0xf6, 0xfc, 0xdf, 0xe9] + list(b"abcdefghijkz019-")
        elif x < .4:
            pool = [0x4e00 + rng.randrange(20000) for _ in range(n)]
        elif x < .5:
            pool = [rng.choice(okl) for _ in range(8)]
        elif x < .6:
            pool = [rng.choice(ok) for _ in range(6)] + list(b"ab")
        elif x < .7:
            pool = [rng.choice(u.maps) for _ in range(4)] + list(b"aB")
        elif x < .8:
            pool = list(b"aeiouAEIOUnN") + [0x300, 0x301, 0x308, 0x323, 0x327, 0xdf,
                                           0x3c2, 0x2060, 0xad]
        else:
            pool = list(b"abcdefxyzABC0123456789-")
        out = [rng.choice(pool) for _ in range(n)]
        if rng.random() < wild:
            out.insert(rng.randrange(len(out) + 1), rng.choice(
                [rng.choice(u.marks), rng.choice(u.status[4]), rng.choice(u.status[2]),
                 rng.choice(u.status[3]), rng.choice(u.status[5]),
                 rng.choice(u.status[6]), 0x3002, 0xff0e, 45, 0x200d, 0x5d0, 0x2260,
                 rng.choice(u.decs)]))
        return [c for c in out if not 0xd800 <= c < 0xe000]

    for cs in rng.sample(found, min(len(found), ctx.pick(2500, 30000))):
        idna(text(cs))
    # every kind of codepoint alone and in context
    for st in u.status:
        cs = u.status[st]
        for c in rng.sample(cs, min(len(cs), ctx.pick(150, 5000))):
            if not 0xd800 <= c < 0xe000:
                idna(text([0xfc, c]))
                idna(text([c, 0x62, 0x2e, 0xfc]))
    # names
    for _ in range(ctx.pick(1500, 20000)):
        k = rng.choice([1, 1, 2, 3, 5])
        labels = [label(rng.choice([0, 1, 2, 3, 5, 9, 20, 40])
                        if rng.random() < .3 else rng.randrange(1, 12))
                  for _ in range(k)]
        t = text([c for i, x in enumerate(labels)
                  for c in ([rng.choice([46, 46, 46, 0x3002, 0xff0e, 0xff61])] if i else []) + x])
        if rng.random() < .15:
            t += [46]
        if rng.random() < .06:
            t = damage(rng, t)
        idna(t)
    # few codepoints, again and again, far between: deltas of all sizes, and
    # what the bias was adapted to matters for the next
    for n in list(range(8, 52, ctx.pick(3, 1))):
        for base in (0xe4, 0x3b1, 0x561, 0x4e2d, 0x10330):
            run = [97 + i % 26 for i in range(n)]
            for nxt in ([base + 1], [base + 3], [base + 1, base],
                        [base + 700]):
                for lab in ([base] + run + [base] + nxt,
                            nxt + [base] + run + [base],
                            [base] + run + nxt + [base],
                            run[:n // 2] + [base] + nxt + run[n // 2:]
                            + [base]):
                    if rng.random() < ctx.pick(.4, 1):
                        idna(text(lab))
    for _ in range(ctx.pick(200, 8000)):
        base = rng.choice([0xe4, 0xe4, 0x3b1, 0x561, 0x4e2d, 0x10330])
        far = rng.choice([0, 0, 0xe4, 0x430, 0x4e00, 0x20000])
        pool = [base, base, base + rng.choice([1, 2, 3])] + (
            [far + rng.randrange(1, 4)] if far else [])
        if rng.random() < .5:
            lab = [97 + i % 26 for i in range(rng.randrange(8, 52))]
        else:
            lab = [pool[0] + rng.choice([0, 1])] * rng.randrange(5, 30)
        for c in rng.choices(pool, k=rng.randrange(2, 7)):
            lab.insert(rng.randrange(len(lab) + 1), c)
        idna(text(lab))
    # labels around 63 characters; names around 253
    for n in range(50, 64):
        for s in ([0xfc], [0x4e2d], [0x1f600], [0xfc, 0xe9], [0x4e2d, 0x56fd]):
            lab = [97 + i % 26 for i in range(n)] + s
            idna(text(lab))
            idna(text(lab + [46]))
            rng.shuffle(lab)
            idna(text(lab + list(b".fi")))
    for n in range(1, 70):
        for c in (0xfc, 0x4e2d, 0x1f600, 0x3b1):
            if rng.random() < ctx.pick(.4, 1):
                idna(text([c] * n))
    for _ in range(ctx.pick(120, 2000)):
        want = rng.choice([250, 251, 252, 253, 254, 255])
        cs, room = [], want
        # ASCII labels and one non-ASCII: u with diaeresis adds 4 + 1 + 3
        first = list(b"b" * rng.randrange(1, 40)) + [0xfc]
        used = len(first) - 1 + 8 - (0 if len(first) > 1 else 1)
        while used < want:
            n = min(rng.choice([63, 61, 30, 10]), want - used - 1)
            if n < 1:
                first.insert(0, 98)
                used += 1
                continue
            cs.append([97] * n)
            used += n + 1
        names = cs + [first]
        rng.shuffle(names)
        t = text([c for i, x in enumerate(names) for c in ([46] if i else []) + x])
        idna(t + ([46] if rng.random() < .4 else []))
    # long in UTF-8 only
    for _ in range(ctx.pick(60, 600)):
        pool = [0x4e00 + rng.randrange(2000) for _ in range(rng.choice([1, 3, 12]))]
        if rng.random() < .3:
            pool = [0x20000 + rng.randrange(100) for _ in range(3)]
        names = [[rng.choice(pool) for _ in range(rng.choice([10, 18, 25, 50]))]
                 for _ in range(rng.choice([2, 4, 6, 9]))]
        idna(text([c for i, x in enumerate(names) for c in ([46] if i else []) + x]))
    # marks
    for n in (90, 99, 100, 101, 150):
        idna(text([0x61] + [0x334] * n))
        idna(text([0x61, 46, 0xfc] + [0x301] * (n // 3)))
        # decomposed, and neither
        idna(text([0x61] + [0x301] * n))
        idna(text([0x62, 0xfc, 0x61] + [0x301] * n + [46, 0x62]))
        idna(text([0x1ea5, 0x61] + [0x323] * n))
    # names that are long only until they are mapped, composed or stripped
    for n in (40, 50, 55, 57, 58, 59, 60):
        for k in (1, 3, 4, 5):
            for s in ([0xff76, 0xff9e], [0xff8a, 0xff9f], [0xad, 0xfc], [0x1d15e],
                      [0x2f800], [0x4e2d, 0xfe00], [0x20000]):
                if rng.random() < ctx.pick(.4, 1):
                    idna(text((s * n + [46]) * k))
                    idna(text(s * n + [46] + (list(b"a" * (n // 2)) + [46]) * k))
    for n in (10, 500, 2000):
        idna(text([0x62, 0xfc] + [0xad] * n + [0x63]))
        idna(text(([0x62, 0x200b] * n)[:2 * (n % 97)] + [0xfc] + [0x2060] * n))
    # right to left
    heb = list(range(0x5d0, 0x5eb))
    ara = list(range(0x627, 0x63b)) + list(range(0x641, 0x64b))
    for _ in range(ctx.pick(250, 3000)):
        pool = rng.choice([heb, ara, heb + ara, [0x780, 0x7a6, 0x7c1], heb + [0x5b0]])
        pool = pool + rng.choice([[], [], [0x30, 0x39], [0x660, 0x669], [45], [0x61],
                                  [0x6f0], [0x6f0, 0x660]])
        labels = [[rng.choice(pool) for _ in range(rng.randrange(1, 9))]]
        for _ in range(rng.randrange(3)):
            labels.insert(rng.randrange(len(labels) + 1), rng.choice(
                [list(b"com"), list(b"a1"), list(b"1a"), [0xe4],
                 [rng.choice(pool) for _ in range(rng.randrange(1, 9))]]))
        idna(text([c for i, x in enumerate(labels) for c in ([46] if i else []) + x]))
    # joiners
    for _ in range(ctx.pick(100, 1000)):
        idna(text([rng.choice([0x915, 0x937, 0x94d, 0x94d, 0x200c, 0x200d, 0x93f,
                               0x61, 0xd4d, 0x644]) for _ in range(rng.randrange(1, 7))]))
    # ASCII, whatever it is
    for _ in range(ctx.pick(200, 2000)):
        idna([rng.randrange(1, 128) for _ in range(rng.choice([0, 1, 5, 70, 300, 700]))])
    for s in ("EXAMPLE.Com", "xn--Mnchen-3ya.de", "[::1]", "1.2.3.4", "a" * 300,
              "a..b", "-a-", ".", ""):
        idna(s.encode())
        idna((s + ".\u00fc").encode())
        idna(("\u00fc." + s).encode())
    # long garbage
    for n in (200, 253, 254, 255, 256, 300, 1000, 1016, 1017, 1500, 4000):
        idna(text([0xe9] * n))
        idna(text([0x61] * n + [0xe9]))
        idna(text(([0x61] * 50 + [46]) * (n // 51) + [0xe9]))
        idna(text([0x65, 0x301] * (n // 3)))
        idna(text([0xfdfa] * (n // 40)))
        idna(messy(rng, n // 4))
    core.conform(ctx, exe, group(cmds), "idna", "TraceIdna",
                 reuse=echoes(ctx, cmds, ctx.pick(350, 5000)))
