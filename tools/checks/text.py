"""B01-B04: the text buffer (Text.tla)."""
from mbv import *

LIM = {"int": (-2**31, 2**31 - 1), "uint": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1), "ulong": (0, 2**64 - 1),
       "llong": (-2**63, 2**63 - 1), "ullong": (0, 2**64 - 1), "short": (-2**15, 2**15 - 1), "ushort": (0, 2**16 - 1),
       "schar": (-128, 127), "bool": (0, 1)}


def hx(b):
    return "h" + bytes(b).hex()


def number(rng):
    ty = rng.choice(list(LIM))
    lo, hi = LIM[ty]
    m = rng.randint(0, 7)
    if m == 0:
        n = rng.choice([lo, hi, 0, lo + 1, hi - 1, 1, -1 if lo < 0 else 1])
    elif m == 6:  # few digits that are not 0
        n = sum(rng.randint(1, 9) * 10 ** rng.randint(0, len(str(hi)) - 1) for _ in range(rng.randint(1, 3)))
        n = -n if lo < 0 and rng.random() < 0.5 else n
    elif m == 7:  # around powers of two, and few bits
        n = sum(2 ** rng.randint(0, hi.bit_length()) for _ in range(rng.randint(1, 2))) + rng.randint(-1, 1)
        n = -n if lo < 0 and rng.random() < 0.5 else n
    elif m == 1:
        n = rng.randint(lo, hi)
    elif m == 2:  # around powers of ten
        n = 10 ** rng.randint(0, len(str(hi)) - 1) + rng.randint(-1, 1)
        n = -n if lo < 0 and rng.random() < 0.5 else n
    else:
        n = rng.randint(max(lo, -1200), min(hi, 1200))
    n = max(lo, min(hi, n))
    return f"i {ty} {n}"


def flt(rng):
    m = rng.randint(0, 4)
    g = rng.random() < 0.5
    if m == 0:   # large, integral
        e = rng.randint(0, 7)
        ip = rng.randint(0, 2**24 - 1) * 2**e
        if g and rng.random() < 0.05:
            ip = 2**31
        r = k = 0
        if ip == 2**31 and not g:
            ip = 0
    else:
        k = rng.randint(0, 20)
        bits = 24 - k
        ip = rng.choice([0, 0, 1, 9, 10, 99, 100, rng.randint(0, 2**bits - 1)])
        ip = min(ip, 2**bits - 1)
        r = rng.choice([0, 1, 2**k - 1, rng.randint(0, 2**k - 1)]) % 2**k
    if rng.random() < 0.04:   # the ends of the range of int
        g, ip, r, k = rng.choice([(True, 2**31, 0, 0), (False, 2**31 - 128, 0, 0), (True, 2**31 - 128, 0, 0), (False, 2**24, 0, 0)])
    if ip == 0 and r == 0:
        g = False   # no negative zero
    return f"f {int(g)} {ip} {r} {k}"


def op(rng, w=None):
    x = rng.random()
    rb = lambda n: bytes(rng.choice([rng.randint(1, 255), rng.randint(97, 122)]) for _ in range(n))
    if x < 0.10:
        s = rb(rng.randint(0, 9))
        return "s " + hx(s.replace(s[:1], b"\0") if rng.random() < 0.2 else s)   # a string may have zero characters
    if x < 0.115:
        return f"{rng.choice('mM')} {rng.choice([0, 0, rng.randint(0, 9)])} {rng.choice([1, 3, 1000])}"   # the buffer's own text
    if x < 0.16:
        return "z " + hx(rb(rng.randint(0, 9)))
    if x < 0.22:
        return f"{rng.choice('ca')} {rng.randint(0, 255)}"
    if x < 0.45:
        return number(rng)
    if x < 0.52:
        return f"b {rng.randint(0, 255)}"
    if x < 0.60:
        return "B " + hx(bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 7))))
    if x < 0.72:
        return flt(rng)
    if x < 0.84:
        return f"w {rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 21, -1, rng.randint(0, 40)] + ([w] if w else []))}"
    if x < 0.90:
        return f"F {rng.choice([32, 48, 46, 0, 255, rng.randint(0, 255)])}"
    if x < 0.97:
        return f"p {rng.choice([0, 1, 2, 3, 6, 20, -1, rng.randint(0, 12)])}"
    return "x"


def history(rng, n):
    cap = rng.choice([rng.randint(0, 8), rng.randint(0, 30), rng.randint(20, 80), 128])
    return [f"N {cap}"] + [op(rng, cap) for _ in range(n)]


def huge(rng):
    """Widths, precisions and strings far beyond the capacity."""
    s = [f"N {rng.choice([0, 1, 10, 40])}"]
    for _ in range(14):
        s.append(rng.choice([f"w {rng.choice([100, 1000, 2**31 - 1, -2**31])}", f"p {rng.choice([100, 2**31 - 1, -2**31])}",
                             number(rng), flt(rng), f"R 120 {rng.randint(30, 300)}", "x", "B " + hx(bytes(60)),
                             f"R 120 {rng.randint(1, 10)}"]))
    return s


def long_history(rng):
    """Buffers, widths, strings and spans of hundreds of characters."""
    cap = rng.choice([255, 256, 257, 300, 600, rng.randint(200, 1500)])
    s = [f"N {cap}"]
    for _ in range(25):
        s.append(rng.choice([f"w {rng.choice([120, 127, 128, 129, 200, 255, 256, 257, 300, cap - 1, cap, cap + 1, rng.randint(0, cap)])}",
                             f"R {rng.randint(97, 122)} {rng.choice([127, 128, 129, 255, 256, 257, rng.randint(0, cap)])}",
                             "B " + hx(bytes(rng.randint(0, 255) for _ in range(rng.choice([127, 128, 129, 255, 256, 257, rng.randint(0, cap // 2)])))),
                             f"p {rng.choice([127, 128, 200, 255, 256, 300])}", number(rng), number(rng), number(rng), flt(rng), f"F {rng.randint(0, 255)}",
                             f"{rng.choice('mM')} {rng.randint(0, cap)} {cap}", "x", "x"]))
    return s


def huge_buffer(rng, kind):
    """A buffer with a little more or less than 65536 (131072) characters of room left, then one kind of insertion."""
    room = rng.choice([65536, 65536, 131072]) + rng.choice([-1, 0, 1, 2, 3, rng.randint(0, 12)])
    before = rng.choice([0, 0, 1, 300])
    n = rng.choice([1, 2, 7, 12])
    ins = {"s": lambda: f"R 98 {rng.choice([1, 2, 9, 300])}", "z": lambda: "z " + hx(bytes(97 for _ in range(n))),
           "c": lambda: f"{rng.choice('ca')} 99", "i": lambda: number(rng), "b": lambda: "b 160",
           "B": lambda: "B " + hx(bytes(rng.randint(0, 255) for _ in range(n))), "f": lambda: flt(rng)}[kind]
    s = [f"N {before + room}", f"R 97 {before}"] if before else [f"N {room}"]
    s += [f"p {rng.choice([0, 3])}"] if kind == "f" else []
    for _ in range(3):
        if kind == "i" and rng.random() < 0.5:
            s.append(f"w {rng.choice([5, 12, 300])}")
        s.append(ins())
    return s + [f"R 100 {room - rng.choice([1, 5, 30])}", ins(), ins()]   # and the same close to its end


def model_walks(ctx):
    tr = ctx.model_check("MCText", "MCText.cfg", emit=True)
    walks, covered = cover_walks(tr, lambda s: s["len"] == 0 and s["w"] == 0 and s["f"] == 32 and s["p"] == 0,
                                 max_len=120, rng=ctx.rng)
    ctx.notes["model_transitions_replayed"] = covered
    out = []
    for st, steps in walks:
        s = [f"N {st['cap']}"]
        for a, _ in steps:
            k = a["a"]
            s.append({"str": lambda: "s " + hx(a["s"]), "char": lambda: f"c {a['c']}",
                      "int": lambda: "i int " + bytes(a["s"]).decode(), "byte": lambda: f"b {a['c']}",
                      "bytes": lambda: "B " + hx(a["s"]), "width": lambda: f"w {a['c']}", "fill": lambda: f"F {a['c']}",
                      "prec": lambda: f"p {a['c']}", "clear": lambda: "x",
                      "float": lambda: f"f {int(a['g'])} {bytes(a['s']).decode()} {a['r']} {a['k']}"}[k]())
        out.append(s)
    return out


def run(ctx, mode, extra=()):
    exe = ctx.build("text", ["text_drv.cpp"], deps_from_repo=["*.cpp"])
    cfg = f"TextTrace_{mode}.cfg"
    go = lambda label, scripts: ctx.conform(exe, scripts, "TextTrace", label, cfg=cfg)
    go("model transitions", model_walks(ctx))
    go("random histories", [history(ctx.rng, 40) for _ in range(ctx.pick(500, 12000))])
    go("far beyond the capacity", [huge(ctx.rng) for _ in range(ctx.pick(150, 3000))])
    go("long buffers", [long_history(ctx.rng) for _ in range(ctx.pick(60, 600))])
    go("very large buffers", [huge_buffer(ctx.rng, k) for k in "sscziibBf" * ctx.pick(1, 8)])
    for label, scripts in extra:
        go(label, scripts)


def B01(ctx):
    # every kind of insertion at every remaining room
    sys_ = []
    for cap in range(0, 26):
        for o in ("s h616263", "z h616263", "c 65", "a 66", "b 171", "B hdeadbeef", "i int -12", "i uint 4294967295",
                  "i llong -9223372036854775808", "i ullong 18446744073709551615", "i long 77", "i ulong 5", "i short -3",
                  "f 1 12 1 1", "f 0 2147483520 0 0"):
            for w in (0, 1, 5, 20, 25, 60):
                sys_.append([f"N {cap}", "p 3", f"w {w}", "F 42", o, o, f"w {w}", o, "x", o])
    run(ctx, "bounds", [("every insertion at every room", sys_ if ctx.thorough else sys_[::2] + sys_[1::4])])


def B02(ctx):
    sw = []
    for ty, (lo, hi) in LIM.items():
        for v in sorted({max(lo, min(hi, v)) for v in (lo, lo + 1, hi, hi - 1, 0, 1, 9, 10, 11, 99, 100, 101, -1, -9, -10, -99, -100)}):
            n = len(str(v))
            for cap in sorted({0, max(0, n - 1), n, n + 1, n + 5}):
                s = [f"N {cap}"]
                for w in (0, 1, n - 1, n, n + 1, n + 5, n + 6):
                    s += ["x", f"w {w}", f"F {ctx.rng.choice([32, 48, 95])}", f"i {ty} {v}", "i int 7"]
                sw.append(s)
    for b in range(0, 256, 1):
        sw.append(["N 5", f"b {b}", f"B {hx([b, 255 - b, b])}", f"b {b}"])
    wide = [[f"N {cap}", f"w {w}", f"i llong {v}", "x", f"w {w}", f"i uint {abs(v)}", "b 200"] for cap, w, v in
            ((40000, 32767, -5), (40000, 32768, 77), (70000, 65535, -1), (70000, 65536, 1), (70000, 66000, 123456))]
    run(ctx, "ints", [("extremes and widths", sw), ("very wide numbers", wide)])


def B03(ctx):
    sw = []
    for cap in list(range(0, 16)) + [40]:
        for f in ("f 1 0 1 1", "f 0 0 1 2", "f 1 0 1 20", "f 0 7 1023 10", "f 1 12 3 3", "f 0 123456 0 0", "f 1 16777215 0 0",
                  "f 0 0 0 0", "f 1 1 0 0", "f 1 2147483648 0 0", "f 0 2147483520 0 0", "f 0 15 1048575 20"):
            sw.append([f"N {cap}"] + [x for p in (0, 1, 2, 5, 21, -1) for x in ("x", f"p {p}", f, f, "i int 3", f)])
    frac = [f"f {g} {ip} {r} {k}" for k in range(0, 9) for r in range(0, 2**k) for g, ip in ((0, 0), (1, 3)) if not (g == 0 and False)]
    for i in range(0, len(frac), 10):
        sw.append(["N 300", "p 9"] + frac[i:i + 10])
    rnd = [["N 200", f"p {ctx.rng.randint(0, 20)}"] + [flt(ctx.rng) for _ in range(12)] for _ in range(ctx.pick(400, 10000))]
    run(ctx, "floats", [("fractions", sw), ("random floats", rnd)])


def B04(ctx):
    big = []
    for cap in (255, 256, 257, 65534, 65535, 65536, 65537, 70000, 131072, 131073):
        big.append([f"N {cap}", f"R 97 {cap - 3}", "i int 42", "c 98", "c 99", "x", "R 100 10", f"R 101 {cap}"])
    run(ctx, "views", [("large buffers", big)])
