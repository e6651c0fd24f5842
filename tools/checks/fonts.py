"""T01-T03: fonts and text (Font.tla)."""
from mbv import *

REPO_FONT = ["graphics/Canvas.cpp", "graphics/EmbeddedFont.cpp", "graphics/EmbeddedFonts.cpp"]
N = {126: 95, 255: 191}


def exe_of(ctx, flags=()):
    return ctx.build("font", ["font_drv.cpp"], flags=["-I" + os.path.join(REPO, "graphics"), *flags], deps_from_repo=REPO_FONT)


def go(ctx, exe, label, scripts):
    ctx.conform(exe, scripts, "FontTrace", label)


def glyph(w, h, ox, oy, adv, bits):
    return f"{w} {h} {ox} {oy} {adv} h{bytes(bits).hex()}"


def model_font(last):
    """the font of MCFont"""
    out = []
    for i in range(1, N[last] + 1):
        w, h = i % 4, (i // 2) % 4
        out.append(glyph(w, h, i % 5 - 2, i % 7 - 5, i % 6, [(i * 37 + k * 91 + 129) % 256 for k in range(1, (w * h + 7) // 8 + 1)]))
    return " ".join(out)


def random_font(rng, last, big):
    """in some fonts every bitmap is padded, in some only a few"""
    out = []
    pad = rng.choice([lambda n: 0, lambda n: 0, lambda n: -n % 4, lambda n: int(rng.random() < 0.1) * rng.randint(1, 40)])
    for i in range(N[last]):
        m = rng.choice([3, 9, big])
        w, h = rng.choice([0, 1, rng.randint(0, m), rng.randint(0, m), 8]), rng.choice([0, 1, rng.randint(0, m), rng.randint(0, m)])
        if rng.random() < 0.03:
            w, h = rng.choice([(255, 1), (1, 255), (200, 2), (17, 130), (rng.randint(20, 70), rng.randint(1, 9)), (rng.randint(20, 70), 2)])
        ox = rng.choice([0, rng.randint(-4, 9), rng.choice([-128, 127, -20, 40]) if rng.random() < 0.2 else 1])
        oy = rng.choice([-h, rng.randint(-big, 3), rng.choice([-128, 127, 5]) if rng.random() < 0.2 else 0])
        oy = max(-128, oy)
        adv = rng.choice([w + 1, rng.randint(0, 30), 0, 255 if rng.random() < 0.1 else 7])
        style = rng.random()
        one = lambda: 255 if style < 0.2 else rng.choice([0, 0, 255, 1, 128, rng.randint(0, 255)]) if style < 0.6 else rng.randint(0, 255)
        bits = [one() for _ in range((w * h + 7) // 8)]
        bits += [rng.randint(0, 255) for _ in range(pad(len(bits)))]
        out.append(glyph(w, h, ox, oy, min(adv, 255), bits))
    return " ".join(out)


def wide_font(rng):
    """large glyphs with blank and full stretches"""
    out = []
    for i in range(N[126]):
        w, h = rng.choice([rng.randint(9, 70), rng.choice([31, 33, 47, 50, 63, 65])]), rng.randint(1, 5)
        w, h = (h, w) if rng.random() < 0.2 else (w, h)
        one = lambda: rng.choice([0, 0, 0, 255, 255, rng.randint(0, 255)])
        out.append(glyph(w, h, rng.randint(-3, 3), rng.randint(-h, 2), w, [one() for _ in range((w * h + 7) // 8)]))
    return "N 126 90 70 " + " ".join(out)


def text(rng, n, last):
    own = list(range(0x20, 0x7f)) + (list(range(0xa0, 0x100)) if last == 255 else [])
    few = [rng.choice(own) for _ in range(3)]
    return "h" + bytes(rng.choice(rng.choice([own, own, few, range(256)])) for _ in range(n)).hex()


def long_text(rng, font, n):
    """A long text of a font whose glyphs are wide (font: an N command), and where its characters stand."""
    f = font.split()[4:]
    adv = [int(f[i + 4]) for i in range(0, len(f), 6)]
    wide = sorted(range(95), key=lambda i: -adv[i])[:12] + [rng.randrange(95) for _ in range(3)]
    t = [rng.choice(wide) for _ in range(n)]
    return "h" + bytes(32 + i for i in t).hex(), [sum(adv[i] for i in t[:k]) for k in range(n)]


def broad_font(rng):
    """small dots, large advances"""
    out = []
    for _ in range(95):
        w, h = rng.choice([(1, 1), (2, 2), (3, 1), (0, 0)])
        out.append(glyph(w, h, rng.randint(-128, 127), rng.randint(-9, 3), rng.choice([255, 255, 254, 200, rng.randint(0, 255)]), [255] * (w > 0)))
    return "N 126 90 70 " + " ".join(out)


def fonts(ctx, rng, n, big=14):
    return [f"N {last} 90 70 " + random_font(rng, last, big) for _ in range(n) for last in (126, 255)]


def T01(ctx):
    ctx.model_check("MCFont", "MCFont.cfg", emit=True)
    rng = ctx.rng
    for flags in ([], ["-funsigned-char"]):
        exe = exe_of(ctx, flags)
        sc = [[s, "A"] for s in fonts(ctx, rng, ctx.pick(8, 150))] + [["D 90 70", "A"]]
        sc += [[f"N {last} 9 9 " + random_font(rng, last, big), "A"] for last in (126, 255) for big in (1, 30, 60)]
        go(ctx, exe, "all codes" + (", unsigned char" if flags else ""), sc)


def T02(ctx):
    tr = ctx.model_check("MCFont", "MCFont.cfg", emit=True)
    if ctx.thorough:
        ctx.model_check("MCFont", "MCFontT.cfg", timeout=900)
    exe, rng = exe_of(ctx), ctx.rng
    walks, cov = cover_walks(tr, lambda s: not s["t"], max_len=40, rng=rng)
    ctx.notes["model_transitions_replayed"] = cov
    per = {}
    for st, steps in walks:
        last = st["last"]
        texts = [s["t"] for _, s in steps if s["t"]]
        per.setdefault(last, []).extend(f"s 10 12 h{bytes(t).hex()}" for t in texts)
        per[last] += [f"c {a['c']} 10 12" for a, _ in steps]
    go(ctx, exe, "model transitions", [[f"N {last} 60 40 " + model_font(last)] + v for last, v in per.items()])
    sc = []
    for s in fonts(ctx, rng, ctx.pick(20, 300)) + ["D 90 70"] * ctx.pick(6, 60):
        last = 255 if s.startswith("N 255") else 126
        p = lambda: f"{rng.choice([0, 20, rng.randint(-30, 95)])} {rng.choice([30, 0, rng.randint(-20, 90)])}"
        c = [f"c {rng.choice([rng.randint(32, 126), rng.randint(160, 255), rng.randint(0, 255)])} {p()}" for _ in range(20)]
        c += [f"s {p()} {text(rng, rng.choice([0, 1, 2, 3, 8, 20]), last)}" for _ in range(15)]
        sc.append([s] + c)
    go(ctx, exe, "random fonts and texts", sc)
    sc = [[wide_font(rng)] + [f"c {k} {rng.choice([5, 5, 20, -9])} {rng.choice([6, 6, 40, -1])}" for k in range(32, 127)] for _ in range(ctx.pick(3, 40))]
    go(ctx, exe, "large glyphs", sc)
    sc = []
    for s in [broad_font(rng) for _ in range(ctx.pick(3, 30))]:
        c = []
        for n in (135, 140, 270, 300):
            t, pen = long_text(rng, s, n)
            c += [f"s {rng.randint(0, 60) - pen[k]} 30 {t}" for k in {0, n // 2, n - 3, n - 1, rng.randrange(n)}]
        sc.append([s] + c)
    go(ctx, exe, "texts of tens of thousands of pixels", sc)
    go(ctx, exe, "every glyph", [[s] + [f"c {k} 30 40" for k in range(256)] for s in fonts(ctx, rng, ctx.pick(2, 30)) + ["D 90 70"]])


def T03(ctx):
    tr = ctx.model_check("MCFont", "MCFont.cfg", emit=True)
    if ctx.thorough:
        ctx.model_check("MCFont", "MCFontT.cfg", timeout=900)
    exe, rng = exe_of(ctx), ctx.rng
    per = {}
    for f, _, t in tr:
        t = json.loads(t)
        per.setdefault(t["last"], {"h"}).add("h" + bytes(t["t"]).hex())
    go(ctx, exe, "model states", [[f"N {last} 60 40 " + model_font(last)] + [f"b {x}" for x in sorted(v)] for last, v in per.items()])
    sc = []
    for s in fonts(ctx, rng, ctx.pick(30, 400), 9) + ["D 90 70"] * ctx.pick(10, 60):
        last = 255 if s.startswith("N 255") else 126
        sc.append([s] + [f"b {text(rng, rng.choice([0, 1, 2, 2, 3, 5, 12]), last)}" for _ in range(30)])
        sc[-1].append(f"b {text(rng, rng.choice([15, 16, 17, 33, rng.randint(18, 120)]), last)}")
    for s in [broad_font(rng) for _ in range(ctx.pick(4, 40))]:   # texts wider than 32767, 65535 and more pixels
        sc.append([s] + [f"b {long_text(rng, s, n)[0]}" for n in (121, 135, 200, 280, rng.randint(300, 700))])
    sc.append(["D 90 70"] + [f"b h{a:02x}{b:02x}" for a in range(0x20, 0x7f, 3) for b in range(0x20, 0x7f, 2)])
    go(ctx, exe, "random fonts and texts", sc)
