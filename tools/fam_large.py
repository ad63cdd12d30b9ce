"""Very large containers: parts of C01, C04 to C10 and C12."""
import core


def tree(ctx):
    n = ctx.pick(70000, 200000)
    out = ["case", "M tree %d" % (n + 1)]
    out += ["M load 0 %d 1" % n, "M obs 0 300 %d" % (n // 299),
            "M drop 0 %d 3" % (n // 3), "M obs 65500 80 1",
            "M any 1000", "M drop %d %d -1" % (n - 1, n // 2),
            "M obs 0 300 97", "M any %d" % n, "M obs 0 3 1"]
    out += ["case", "M tree 140000", "M load %d 300 -1" % n, "M load 0 66000 2",
            "M obs 65500 80 1", "M any 66400", "M obs 0 3 1"]
    return out


def table(ctx):
    out = []
    for n, cap, h in ctx.pick(
            [(70000, 0, 0), (66000, 200000, 0), (66000, 3000, 1)],
            [(70000, 0, 0), (150000, 500000, 0), (66000, 3000, 1),
             (66000, 2000000, 1), (300, 4000000, 0)]):
        out += ["case", "M hash %d %d %d" % (cap, h, n),
                "M load 0 %d 1" % n, "M obs 0 300 %d" % max(n // 299, 1),
                "M drop 0 %d 3" % (n // 3), "M obs 65500 80 1",
                "M any 500", "M drop %d %d -1" % (n - 1, n // 2),
                "M obs 0 300 97"]
        if cap < 10000:
            out += ["M any %d" % n, "M obs 0 3 1"]
    return out


def lst(ctx):
    n = ctx.pick(66000, 150000)
    x = " ".join(map(str, [-70000, -65536, -1, 0, 1, 255, 256, 32767, 32768, 65535,
                           65536, 65537, n - 1, n, n + 1, 131072]))
    return ["case", "L new", "L app 0 %d" % n, "L obs " + x, "L popf 500",
            "L pre 100000 700", "L copy", "L obs " + x, "L popl 66000", "L obs " + x,
            "L popf %d" % n, "L obs 0 1", "L app 5 3", "L obs 0 1 2 3",
            # and large ones to destroy
            "L app 9 %d" % n, "L obs " + x, "L copy", "L obs " + x]


def queue(ctx):
    out = []
    for n, mult, mod in ctx.pick([(70000, 7919, 65537), (66000, 1, 100000)],
                                 [(70000, 7919, 65537), (66000, 1, 100000),
                                  (150000, 99991, 100003), (66000, 65535, 65536)]):
        out += ["case", "Q new", "Q load %d %d %d" % (n, mult, mod), "Q size",
                "Q rem 0 %d 3" % (n // 3), "Q size", "Q take 1000",
                "Q load 2000 %d %d" % (mult, mod), "Q size",
                "Q take %d" % (n // 2), "Q size", "Q take %d" % n, "Q size"]
    return out


def intset(ctx):
    out = []
    for cap in ctx.pick([65535, 65536, 65537, 200000], [65535, 65536, 65537, 200000,
                                                        1000000]):
        pts = " ".join(map(str, sorted({0, 1, 63, 64, 32767, 32768, 65534, 65535, 65536,
                                        65537, 131071, 131072, cap - 1, cap, cap + 1,
                                        cap // 2, cap + 65536, 2 * cap})))
        out += ["case", "I new %d" % cap, "I obs " + pts, "I add %d 3 1" % (cap - 1),
                "I obs " + pts, "I add 65000 700 1", "I obs " + pts,
                "I add 0 %d 2" % (cap // 2), "I obs " + pts,
                "I rem 10 %d 1" % (cap - 100), "I obs " + pts,
                "I add 0 %d 1" % cap, "I obs " + pts, "I rem 65536 1 1",
                "I rem %d 1 1" % (cap - 1), "I obs " + pts,
                "I rem 0 %d 1" % (cap + 5), "I obs " + pts]
    return out


def bytes_(ctx):
    out = []
    for mx in ctx.pick([65535, 65536, 65537, 66000, 300000, 3000000],
                       [65535, 65536, 65537, 66000, 131073, 300000, 3000000, 20000000]):
        out += ["case", "B new %d" % mx]
        for n in (1, 60000, 5000, 535, 1, 1, 1, 100, 70000, 3000, 140000, 500000):
            out += ["B app %d" % n, "B obs"]
        for op in ("app 65535", "app 65536", "str 65536", "str 200000",
                   "cop 65536 65536", "cop 65535 2", "cop 0 65600", "cut 65536",
                   "str 1", "cut 65535", "app 1", "app 65537", "cop 65000 70000",
                   "cut 0", "str 100000"):
            if op == "cut 65536" and mx <= 65536 or op == "cut 65535" and mx <= 65535:
                continue
            out += ["B " + op, "B obs"]
        out += ["B str %d" % mx, "B obs", "B app 1", "B str 1", "B obs"]
    return out


def shares(ctx):
    out = []
    for n in ctx.pick([254, 255, 256, 65534, 65535, 65536, 70000],
                      [127, 254, 255, 256, 32767, 65534, 65535, 65536, 70000, 1000000]):
        out += ["case", "B new 100", "B app 10", "B share %d" % n, "B obs",
                "B del %d" % (n // 2), "B obs", "B del %d" % (n - n // 2), "B obs",
                "B del 1"]
    # large once, small or large at the end
    for mx in (70000, 200000, 3000000):
        for big in ("app", "str"):
            for end in ("B cut 0", "B cut 9", "B cut 4095", "B cut 4097", "B cut 62000",
                        "B app 1"):
                out += ["case", "B new %d" % mx, "B %s %d" % (big, mx * 9 // 10), "B obs",
                        "B share 2", end, "B obs", "B del 1", "B obs", "B del 1", "B obs",
                        "B del 1"]
    # fewer owners may do all that more owners could: up to the last byte
    for mx in (4097, 5001, 70001, 100003):
        for left in (0, 1, 30, 1000, 4096):
            for kind in ("app", "str"):
                out += ["case", "B new %d" % mx, "B app %d" % (mx - 1), "B obs",
                        "B share 3", "B cut %d" % left, "B del 1", "B obs",
                        "B %s %d" % (kind, mx - left), "B obs",
                        "B %s %d" % (kind, mx - 1 - left), "B obs",
                        "B del 1", "B cut %d" % left, "B obs", "B app 1", "B obs",
                        "B del 1", "B cut 0", "B %s %d" % (kind, mx),
                        "B %s %d" % (kind, mx - 1), "B obs", "B app 1", "B obs",
                        "B del 1"]
    return out


def run(ctx, script, name):
    exe = core.build_driver(ctx, "drv_large.c")
    core.conform(ctx, exe, "\n".join(script) + "\n", "large-" + name, "TraceLarge")
