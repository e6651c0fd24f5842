"""G01-G05: the canvas (Canvas.tla); G06: points, sizes and rectangles (Geometry.tla)."""
import math

from mbv import *

REPO_CANVAS = ["graphics/Canvas.cpp", "graphics/EmbeddedFont.cpp", "graphics/EmbeddedFonts.cpp"]
TEXT = [0x20 + i for i in range(95)]


def exe_of(ctx):
    return ctx.build("canvas", ["canvas_drv.cpp"], flags=["-I" + os.path.join(REPO, "graphics")], deps_from_repo=REPO_CANVAS)


def go(ctx, exe, mode, label, scripts):
    ctx.conform(exe, scripts, "CanvasTrace", label, cfg=f"CanvasTrace_{mode}.cfg")


def chunks(cmds, head, n):
    return [head + cmds[i:i + n] for i in range(0, len(cmds), n)]


def walk_scripts(ctx, keep):
    tr = ctx.model_check("MCCanvas", "MCCanvas.cfg", emit=True)
    if ctx.thorough:
        ctx.model_check("MCCanvas", "MCCanvasT.cfg")
    tr = type(tr)(t for t in tr if json.loads(t[1])["a"] in keep)
    ws, cov = cover_walks(tr, lambda s: not s["pic"] and s["rot"] == 0, max_len=100, rng=ctx.rng)
    ctx.notes["model_transitions_replayed"] = cov
    out = []
    for st, steps in ws:
        s = [f"N {st['w']} {st['h']} 0"]
        for a, _ in steps:
            v = " ".join(map(str, a.get("v", [])))
            s.append({"rot": lambda: f"o {a['r']}", "wipe": lambda: "x 0", "pixel": lambda: "P " + v,
                      "filled": lambda: "F " + v, "rect": lambda: "R " + v}[a["a"]]())
        out.append(s)
    return out


def figure(rng, w, h, span, kinds="PLRFCCS", text=True):
    x = lambda: rng.choice([rng.randint(-span, w + span), rng.randint(0, w), -1, 0, w - 1, w])
    y = lambda: rng.choice([rng.randint(-span, h + span), rng.randint(0, h), -1, 0, h - 1, h])
    k = rng.choice(kinds)
    if k == "P":
        return f"P {x()} {y()}"
    if k == "L":
        return f"L {x()} {y()} {x()} {y()}"
    if k in "RF":
        ww, hh = rng.choice([1, 2, rng.randint(1, w + span)]), rng.choice([1, 2, rng.randint(1, h + span)])
        if k == "F" and rng.random() < 0.1:
            ww = 0
        return f"{k} {x()} {y()} {ww} {hh}"
    if k == "C":
        return f"C {x()} {y()} {rng.choice([0, 1, 2, rng.randint(0, span)])} {rng.randint(0, 1)}"
    return f"S {x()} {y()} h" + bytes(rng.choice(TEXT) for _ in range(rng.randint(0, 3))).hex()


SIZES = [(1, 1), (1, 7), (7, 1), (5, 3), (8, 8), (16, 9), (3, 11)]


def G01(ctx):
    exe, rng = exe_of(ctx), ctx.rng
    ctx.model_check("MCCanvas", "MCCanvas.cfg")
    sc = []
    for w, h in SIZES:   # small figures everywhere around a small frame
        for r in range(4):
            c = []
            for x in range(-3, w + 3):
                for y in range(-3, h + 3):
                    c += [f"P {x} {y}"]
                    if rng.random() < ctx.pick(0.35, 1):
                        c += [f"R {x} {y} {rng.randint(1, 4)} {rng.randint(1, 4)}", f"F {x} {y} {rng.randint(1, 4)} {rng.randint(1, 4)}",
                              f"C {x} {y} {rng.randint(0, 4)} {rng.randint(0, 1)}", f"L {x} {y} {rng.randint(-3, w + 2)} {rng.randint(-3, h + 2)}"]
            sc += chunks(c, [f"N {w} {h} {r}", "B 40"], 200)
    go(ctx, exe, "clip", "small figures around the frame", sc)
    sc = []
    for _ in range(ctx.pick(240, 4000)):
        w, h = rng.choice(SIZES + [(20, 30), (33, 17), (64, 48)])
        span = rng.choice([3, 10, 40])
        c = [figure(rng, w, h, span) if rng.random() > 0.1 else f"o {rng.randint(0, 3)}" for _ in range(12)]
        sc.append([f"N {w} {h} {rng.randint(0, 3)}", f"B {2 * span + 100}"] + c)
    go(ctx, exe, "clip", "random figures", sc)
    sc = []
    for _ in range(ctx.pick(16, 200)):
        w, h = rng.choice([(5, 3), (16, 9), (300, 5), (20, 40)])
        span = rng.choice([300, 2000, 70000])
        c = [figure(rng, w, h, span, "PLLRS") for _ in range(4)] + [figure(rng, w, h, min(span, 500), "CF")]
        sc.append([f"N {w} {h} {rng.randint(0, 3)}", f"B {4 * span + 400}"] + c)
    sc += [large_frame(rng, "PFRLCS", ("B 40",)) for _ in range(ctx.pick(40, 400))]
    go(ctx, exe, "clip", "far figures, large frames", sc)


def G02(ctx):
    exe, rng = exe_of(ctx), ctx.rng
    go(ctx, exe, "walk", "model transitions", walk_scripts(ctx, ("rot", "wipe", "pixel")))
    sc = []
    for _ in range(ctx.pick(300, 5000)):
        w, h = rng.choice(SIZES + [(20, 30), (33, 17), (64, 48), (40, 60)])
        span = rng.choice([3, 10, 30])
        c = [figure(rng, w, h, span, "PLRFCSSV"[:7]) for _ in range(10)]
        c += [f"V {rng.randint(-span, w)} {rng.randint(-span, h)} {rng.randint(1, span)} {rng.randint(1, span)}" for _ in range(3)]
        for _ in range(3):
            c.insert(rng.randint(0, len(c)), rng.choice([f"o {rng.randint(0, 3)}", f"o {rng.randint(0, 3)}", "k 5", "x 0"]))
        r0 = rng.randint(0, 3)
        sc.append([f"N {w} {h} {r0}", "U"] + rotated_lines(rng, c, r0, w, h, span))
    go(ctx, exe, "turn", "figures under every rotation", sc)
    sc = [large_frame(rng) for _ in range(ctx.pick(60, 600))]
    go(ctx, exe, "turn", "frames of tens of thousands of pixels a side", sc)


def large_frame(rng, kinds="PPFRLCSV", head=("U",)):
    """Small figures all over a frame too large for 15 or 16 bits, near its corners above all."""
    w, h = rng.choice([(40000, 3), (3, 40000), (70000, 2), (33000, 5), (140000, 50000), (50000, 70000), (32768, 32768), (65536, 4)])
    rot = rng.randint(0, 3)
    sc = [f"N {w} {h} {rot}", *head]
    for _ in range(14):
        if rng.random() < 0.25:
            rot = rng.randint(0, 3)
            sc.append(f"o {rot}")
        ww, hh = (h, w) if rot % 2 else (w, h)
        x = rng.choice([0, ww - 1, rng.randint(0, ww - 1), rng.randint(max(0, ww - 9), ww + 3), 32767, 32768, 65535, 65536])
        y = rng.choice([0, hh - 1, rng.randint(0, hh - 1), rng.randint(max(0, hh - 9), hh + 3), 32767, 32768, 65535, 65536])
        k = rng.choice(kinds)
        sc.append({"P": f"P {x} {y}", "F": f"F {x} {y} {rng.randint(1, 5)} {rng.randint(1, 5)}", "R": f"R {x} {y} {rng.randint(1, 5)} {rng.randint(1, 5)}",
                   "L": f"L {x} {y} {x + rng.randint(-9, 9)} {y + rng.randint(-9, 9)}", "C": f"C {x} {y} {rng.randint(0, 5)} {rng.randint(0, 1)}",
                   "S": f"S {x} {y} h" + bytes(rng.choice(TEXT) for _ in range(rng.randint(0, 2))).hex(),
                   "V": f"V {x} {y} {rng.choice([1, 7, ww])} {rng.choice([1, 7, hh])}"}[k])
    return sc


def rotated_lines(rng, cmds, rot, w, h, span):
    """Lines from edge to edge of the canvas as it is turned at the time, axis-parallel ones, and any others."""
    out = []
    for s in cmds:
        if s[0] == "o":
            rot = int(s[2:])
        if s[0] == "L":
            ww, hh = (h, w) if rot % 2 else (w, h)
            x = lambda: rng.choice([0, ww - 1, rng.randint(0, ww - 1)])
            y = lambda: rng.choice([0, hh - 1, rng.randint(0, hh - 1)])
            x0, y0, x1, y1 = rng.choice([(x(), y(), x(), y()), (0, y(), ww - 1, y()), (x(), 0, x(), hh - 1),
                                         (rng.randint(-span, ww), y(), x(), rng.randint(-span, hh + span))])
            if rng.random() < 0.3:
                y1 = y0
            elif rng.random() < 0.4:
                x1 = x0
            s = f"L {x0} {y0} {x1} {y1}"
        out.append(s)
    return out


def G03(ctx):
    exe, rng = exe_of(ctx), ctx.rng
    ctx.model_check("MCLine", ctx.pick("MCLine.cfg", "MCLineT.cfg"))
    sc = []
    n = ctx.pick(7, 13)
    for r in range(4):   # every line of a small grid
        c = [f"L {x0} {y0} {x1} {y1}" for x0 in range(n) for y0 in range(n) for x1 in range(n) for y1 in range(n)
             if ctx.thorough or (x0 in (0, 3, 6) and y0 in (0, 2, 6))]
        sc += chunks(c, [f"N {n} {n} {r}"], 500)
    c = [f"L 0 0 {x} {y}" for x in range(ctx.pick(34, 70)) for y in range(ctx.pick(34, 70))]   # every slope
    sc += chunks(c, ["N 70 70 0"], 400)
    sc += chunks([s.replace("L 0 0", "L 3 69") for s in c if rng.random() < 0.3], ["N 70 70 2"], 400)
    go(ctx, exe, "line", "every line of a grid, every slope", sc)
    sc = []
    for _ in range(ctx.pick(150, 3000)):
        w, h = rng.choice([(300, 200), (128, 296), (50, 400), (1000, 1000)])
        r = rng.randint(0, 3)
        ww, hh = (h, w) if r % 2 else (w, h)
        sc.append([f"N {w} {h} {r}"] + [f"L {rng.randint(0, ww - 1)} {rng.randint(0, hh - 1)} {rng.randint(0, ww - 1)} {rng.randint(0, hh - 1)}" for _ in range(6)])
    for _ in range(ctx.pick(20, 150)):   # long lines, few steps along the short axis
        L = rng.choice([20000, 33000, 70000, 140000, 300000])
        k = rng.randint(0, min(900, 2**29 // L // 2))
        r = rng.randint(0, 3)
        w, h = rng.choice([(L + 1, 1000), (1000, L + 1)])
        ww, hh = (h, w) if r % 2 else (w, h)
        a, b = rng.randint(0, 99), rng.randint(0, 99)
        e = [a, min(a + k, 999)] if rng.random() < 0.5 else [min(a + k, 999), a]
        cmd = [0, e[0], L, e[1]] if ww > hh else [e[0], 0, e[1], L]
        sc.append([f"N {w} {h} {r}", "L " + " ".join(map(str, cmd))])
    go(ctx, exe, "line", "random and long lines", sc)


def G04(ctx):
    exe, rng = exe_of(ctx), ctx.rng
    go(ctx, exe, "walk", "model transitions", walk_scripts(ctx, ("rot", "wipe", "filled", "rect")))
    sc = []
    for w, h in [(4, 3), (1, 1), (3, 5)]:
        for r in range(4):
            c = [f"{k} {x} {y} {a} {b}" for k in "RF" for x in range(-2, 5) for y in range(-2, 5) for a in range(0, 6) for b in range(0, 6)
                 if (k == "F" or a * b > 0) and (ctx.thorough or rng.random() < 0.3)]
            sc += chunks(c, [f"N {w} {h} {r}"], 300)
    go(ctx, exe, "rect", "every small rectangle", sc)
    sc = []
    for _ in range(ctx.pick(300, 6000)):
        w, h = rng.choice([(64, 48), (128, 296), (20, 30), (300, 7), (2, 90)])
        sc.append([f"N {w} {h} {rng.randint(0, 3)}"] + [figure(rng, w, h, rng.choice([5, 60, 300]), "RF") for _ in range(6)])
    for _ in range(ctx.pick(30, 300)):
        span = rng.choice([3000, 40000, 70000, 300000])
        sc.append([f"N 30 20 {rng.randint(0, 3)}"] + [figure(rng, 30, 20, span, "RF") for _ in range(3)])
    sc += [large_frame(rng, "FR", ()) for _ in range(ctx.pick(60, 600))]
    go(ctx, exe, "rect", "random rectangles", sc)


def G05(ctx):
    exe, rng = exe_of(ctx), ctx.rng
    ctx.model_check("MCCircle", ctx.pick("MCCircle.cfg", "MCCircleT.cfg"))
    sc = []
    for r in range(0, ctx.pick(72, 260)):
        n = 2 * r + 12
        c = []
        for rot in (range(4) if r < 20 else [rng.randint(0, 3)]):
            x, y = rng.randint(r, n - 1 - r), rng.randint(r, n - 1 - r)
            x2, y2 = rng.randint(r, n - 1 - r), rng.randint(r, n - 1 - r)
            c += [f"o {rot}", f"C {x} {y} {r} 0", f"C {x} {y} {r} 1", f"C {x2} {y2} {r} 1"]
        sc.append([f"N {n} {n} 0"] + c)
    for r in ctx.pick([100, 127, 128, 181, 255, 256, 257, 300], [300, 512, 777, 1000]):
        sc.append([f"N {2 * r + 20} {2 * r + 5} {rng.choice([0, 2])}", f"C {r + 7} {r + 1} {r} 0", f"C {r + 2} {r + 2} {r} 1"])
        sc.append([f"N {2 * r + 20} {2 * r + 5} {rng.choice([1, 3])}", f"C {r + 1} {r + 7} {r} 0", f"C {r + 2} {r + 2} {r} 1"])
    go(ctx, exe, "circle", "circles of every radius", sc)
    sc = []
    for i in range(ctx.pick(60, 800)):   # a window on the outline of circles of up to 46000 pixels
        r = rng.choice([rng.randint(60, 1000), rng.randint(1000, 2500), rng.randint(2500, 16000), rng.randint(16000, 33000), rng.randint(32700, 46000)])
        w, h = rng.choice([(24, 24), (40, 17), (9, 50)])
        rot = rng.randint(0, 3)
        ww, hh = (h, w) if rot % 2 else (w, h)
        t = rng.choice([0, math.pi / 4, rng.uniform(0, math.pi / 2), rng.choice([0, 1]) * math.pi / 2 + rng.uniform(-0.01, 0.01)]) + rng.randint(0, 3) * math.pi / 2
        x = round(rng.randint(0, ww - 1) - r * math.cos(t))
        y = round(rng.randint(0, hh - 1) - r * math.sin(t))
        sc.append([f"N {w} {h} {rot}", f"C {x} {y} {r} 0"] + ([f"C {x} {y} {r} 1"] if r < 2500 else []))   # filling takes r * r steps
    go(ctx, exe, "arc", "windows on large circles", sc)


RANGE = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535), "i32": (-2**31 + 1, 2**31 - 1),
         "i64": (-2**31 + 1, 2**31 - 1), "i64s": (-2**31 + 1, 2**31 - 1),
         "f32": (-2**22, 2**22), "f64": (-2**31 + 1, 2**31 - 1)}   # fractions, in halves


def G06(ctx):
    ctx.model_check("MCGeometry", "MCGeometry.cfg")
    exe = ctx.build("geo", ["geo_drv.cpp"])
    rng = ctx.rng

    def command(ty):
        lo, hi = RANGE[ty]
        fit = lambda *v: all(lo <= x <= hi for x in v)
        n = lambda a=lo, b=hi: rng.choice([rng.randint(a, b), rng.randint(max(a, -9), min(b, 9)), a, b, max(a, min(0, b)), rng.randint(max(a, -1200), min(b, 1200))])
        while True:
            k = rng.choice(["size", "point", "scale", "rect", "rect", "move", "matrix", "matrix"])
            if k == "rect" and ty[0] == "f" or ty == "i64s" and k not in ("size", "point", "move"):
                continue
            if k in ("size", "point"):
                a, b, c, d = n(), n(), n(), n()
                v = [a, b, c, d]
                if k == "point" and rng.random() < 0.4:
                    v[2:] = rng.choice([[a, b], [a, d], [c, b]])
                ok = fit(v[0] + v[2], v[1] + v[3]) and (k == "point" or fit(a - c, b - d))
            elif k == "scale":
                v = [n(), n(), n()]
                ok = fit(v[0] * v[2], v[1] * v[2])
            elif k == "rect":
                v = [n(), n(), n(0, hi), n(0, hi)]
                ok = fit(v[0] + v[2], v[1] + v[3], v[0] - 1, v[1] - 1) if lo < 0 else fit(v[0] + v[2], v[1] + v[3]) and v[2] > 0 and v[3] > 0
            elif k == "move":
                v = [n(), n(), n(0, hi), n(0, hi), n(), n()]
                ok = fit(v[0] + v[4], v[1] + v[5])
            else:
                v = [n() for _ in range(6)]
                if rng.random() < 0.5:
                    v[:4] = rng.choice([[1, 0, 0, 1], [0, 1, 1, 0], [0, 1, 1, 1], [2, 1, 0, 1]] + ([[0, -1, 1, 0], [-1, 0, 0, -1], [0, 1, -1, 0]] if lo < 0 else []))
                t = [v[0] * v[4], v[1] * v[5], v[2] * v[4], v[3] * v[5]]
                ok = fit(*t, t[0] + t[1], t[2] + t[3])
            if ok:
                return f"{k} {ty} " + " ".join(map(str, v))
    sc = [[command(ty) for _ in range(100)] for ty in RANGE for _ in range(ctx.pick(25, 300))]
    small = [f"{k} {ty} {a} {b} {c} {d}" for ty in ("i8", "i16", "i32", "i64") for k in ("rect",) for a in range(-2, 3) for b in range(-2, 3)
             for c in range(0, 4) for d in range(0, 4)]
    small += [f"{k} {ty} {a} {b} {c} {d}" for ty in ("i8", "i16", "i32", "i64") for k in ("size", "point") for a in range(-2, 3) for b in range(-2, 3)
              for c in range(-2, 3) for d in range(-2, 3)]
    ctx.conform(exe, sc + chunks(small, [], 300), "GeometryTrace", "every operation, every element type")
