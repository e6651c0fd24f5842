"""F01, F02: the frame buffer (Frame.tla)."""
from mbv import *

SMALL = {1: [(8, 1), (8, 3), (16, 5), (24, 2)], 2: [(4, 1), (4, 5), (8, 3), (12, 4)], 4: [(2, 1), (2, 4), (6, 5), (2, 2)],
         8: [(1, 1), (3, 4), (5, 3), (1, 3)], 16: [(1, 1), (3, 3), (7, 2), (1, 3)],
         24: [(1, 1), (3, 3), (5, 2), (8, 1), (3, 1)], 32: [(1, 1), (3, 3), (2, 7), (1, 3)]}
BIG = {1: [(128, 296), (320, 240), (2048, 300), (70000, 2), (8, 70000)], 2: [(320, 240), (1024, 300), (40000, 2), (4, 70000)],
       4: [(320, 240), (512, 300), (40000, 2), (2, 70000)], 8: [(320, 240), (70000, 2), (1, 70000)],
       16: [(320, 240), (40000, 2), (1, 70000)], 24: [(240, 135), (40000, 2), (1, 70000)], 32: [(240, 135), (20000, 2), (70000, 1), (1, 70000)]}


def val(c):
    return int.from_bytes(bytes(c), "big")


def alike(rng, d):
    """A colour whose bytes are partly equal."""
    m = (1 << d) - 1
    a, b = rng.choice([0, 1, 255, rng.randint(0, 255)]), rng.choice([0, 0, 255, rng.randint(0, 255)])
    return int.from_bytes(bytes(rng.choice([a, a, b]) for _ in range(4)), "big") & m


def color(rng, d):
    m = (1 << d) - 1
    if rng.random() < 0.4:
        return alike(rng, d)
    return rng.choice([0, m, 1, 1 << (d - 1), rng.randint(0, m), rng.randint(0, m), 0x12345678 & m, 0xa5c3e187 & m])


def walks(ctx, exe, clear):
    tr = ctx.model_check("MCFrame", "MCFrame.cfg", emit=True)
    if not clear:
        tr = type(tr)(t for t in tr if json.loads(t[1])["a"] != "clear")
    ones = lambda s: [[[1], [3], [15]][(1, 2, 4).index(s["d"])] if s["d"] < 8 else [255] * (s["d"] // 8)][0]
    init = lambda s: all(v == 0 for p in s["pic"] for v in p) and s["color"] == ones(s)
    ws, cov = cover_walks(tr, init, max_len=100, rng=ctx.rng)
    ctx.notes["model_transitions_replayed"] = cov
    out = []
    for st, steps in ws:
        s = [f"N {st['w']} {st['h']} {st['d']}", "x 0" if clear else "m 0"]
        for a, _ in steps:
            s.append({"clear": lambda: f"x {val(a['c'])}", "color": lambda: f"k {val(a['c'])}",
                      "draw": lambda: f"p {a['x']} {a['y']}"}[a["a"]]())
        out.append(s)
    return out


def random_script(rng, w, h, d, n, clear):
    s = [f"N {w} {h} {d}", f"x {color(rng, d)}" if clear else f"m {rng.choice([0, 255])}"]
    for _ in range(n):
        x, y = rng.choice([0, w - 1, rng.randint(0, w - 1)]), rng.choice([0, h - 1, rng.randint(0, h - 1)])
        r = rng.random()
        if r < 0.25:
            s.append(f"k {rng.choice([color(rng, d), rng.getrandbits(32), 0xffffffff])}")
        elif r < 0.75 or clear and r < 0.85:
            s.append(f"p {x} {y}")
        elif clear:
            s.append(f"x {color(rng, d)}")
        else:
            s.append(f"q {x} {y} {color(rng, d)}")
    return s


def F01(ctx):
    exe = ctx.build("frame", ["frame_drv.cpp"])
    go = lambda label, s: ctx.conform(exe, s, "FrameTrace", label)
    go("model transitions", walks(ctx, exe, False))
    rng = ctx.rng
    sc = []
    for d, sizes in SMALL.items():
        for w, h in sizes:
            for bgd in (0, 255):   # every pixel once, alternating colours
                px = [(x, y) for x in range(w) for y in range(h)]
                rng.shuffle(px)
                s = [f"N {w} {h} {d}", f"m {bgd}"]
                for x, y in px:
                    s += [f"q {x} {y} {color(rng, d)}"] if rng.random() < 0.5 else [f"k {color(rng, d)}", f"p {x} {y}"]
                sc.append(s)
            sc += [random_script(rng, w, h, d, 40, False) for _ in range(ctx.pick(8, 200))]
    go("every pixel; random drawing", sc)
    go("large frames", [random_script(rng, w, h, d, 30, False) for d, z in BIG.items() for w, h in z for _ in range(ctx.pick(1, 10))])


def F02(ctx):
    exe = ctx.build("frame", ["frame_drv.cpp"])
    go = lambda label, s: ctx.conform(exe, s, "FrameTrace", label)
    go("model transitions", walks(ctx, exe, True))
    rng = ctx.rng
    sc = []
    for d, sizes in SMALL.items():
        for w, h in sizes:
            for c in sorted({0, (1 << d) - 1, 1, 1 << (d - 1)} | {rng.randint(0, (1 << d) - 1) for _ in range(6)} | {alike(rng, d) for _ in range(20)}
                            | {(k << s | j << t) & ((1 << d) - 1) for k in (1, 255) for j in (0, 1) for s in (0, 8, 16, 24) for t in (0, 8, 16)} | (set(range(16)) if d == 4 else set())):
                sc.append([f"N {w} {h} {d}", f"x {c}", f"p {w - 1} {h - 1}", f"k {rng.getrandbits(32)}", "p 0 0", f"x {c}",
                           f"p {w - 1} 0", f"x {(1 << d) - 1 - c}", "p 0 0"])
            sc += [random_script(rng, w, h, d, 40, True) for _ in range(ctx.pick(8, 200))]
    go("clearing and colours", sc)
    go("large frames", [random_script(rng, w, h, d, ctx.pick(14, 30), True) for d, z in BIG.items() for w, h in z for _ in range(ctx.pick(1, 5))])
