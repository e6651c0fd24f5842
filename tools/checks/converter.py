"""C01-C03: bit packer, character converter, font converter (Converter.tla)."""
from mbv import *

ENCODINGS = ["GB18030", "EUC-JP", "EUC-KR", "BIG5", "KOI8-R", "CP1251", "ISO-8859-5", "ISO-8859-15", "CP437", "GBK",
             "CP1258", "CP1255", "BIG5-HKSCS"]      # the last ones have letters that can be combined with the next
EIGHT = ["ISO-8859-1", "ISO-8859-5", "ISO-8859-15", "CP1251", "KOI8-R", "iso-8859-2", "CP1258"]


def hx(b):
    return "h" + bytes(b).hex()


def exe_of(ctx):
    return ctx.build("conv", ["conv_drv.cpp"], libs=["-ldl"],
                     deps_from_repo=["gfx-font-converter/EncodingConverter.cpp", "graphics/EmbeddedFont.cpp"])


def go(ctx, exe, label, scripts):
    ctx.conform(exe, scripts, "ConverterTrace", label)


def C01(ctx):
    ctx.model_check("MCBits", ctx.pick("MCBits.cfg", "MCBitsT.cfg"), timeout=850)
    tr = ctx.model_check("MCBits", "MCBitsE.cfg", emit=True)
    exe, rng = exe_of(ctx), ctx.rng
    cmd = {"bit": lambda v: f"b {v}", "byte": lambda v: f"y {v}", "flush": lambda v: "z"}
    walks, cov = cover_walks(tr, lambda s: s["c"] == 0 and s["b"] == 0, max_len=200, rng=rng)
    ctx.notes["model_transitions_replayed"] = cov
    go(ctx, exe, "model transitions", [[f"k {k}"] + [cmd[a["a"]](a["v"]) for a, _ in steps] for st, steps in walks for k in (0, 1)])
    sc = []
    for n in range(8):      # every byte at every bit position
        for fill in (0, 1):
            s = [f"k {rng.randint(0, 1)}"]
            for v in range(256):
                s += [f"b {fill}"] * n + [f"y {v}", "z"]
            sc.append(s)
    for _ in range(ctx.pick(120, 3000)):
        w = rng.choice([(1, 0, 0), (8, 1, 1), (3, 3, 1), (0, 1, 0), (20, 1, 0)])
        s = [f"k {rng.randint(0, 1)}"]
        for _ in range(150):
            k = rng.choices("byz", w)[0]
            s.append(f"b {rng.randint(0, 1)}" if k == "b" else f"y {rng.choice([0, 255, 128, 1, rng.randint(0, 255)])}" if k == "y" else "z")
        sc.append(s)
    go(ctx, exe, "random bits, bytes and flushes", sc)


def alphabet(rng, enc, n):
    """(code point, bytes) pairs of an encoding on which iconv and Python agree"""
    out, cps = [], []
    pools = [range(1, 0x80), range(0x80, 0x800), range(0x800, 0xd800), range(0xe000, 0xfffe), range(0x4e00, 0x9fa0), range(0x3040, 0x30ff),
             range(0x400, 0x460), range(0xa0, 0x180), range(0x2500, 0x2600), range(0x10000, 0x20000), range(0xac00, 0xd7a0), range(0x20000, 0x110000)]
    while len(cps) < n * 40 and len(out) < n:
        cp = rng.choice(rng.choice(pools))
        cps.append(cp)
        try:
            b = chr(cp).encode(enc.lower())
        except UnicodeEncodeError:
            continue
        if len(b) <= 4:
            out.append((cp, b))
    if enc == "UTF-8":
        return out
    ok = []
    data = b"\n".join(b for _, b in out if b != b"\n")
    r = subprocess.run(["iconv", "-c", "-f", enc, "-t", "UTF-32LE"], input=data, capture_output=True)
    lines = r.stdout.decode("utf-32-le", "replace").split("\n")
    pairs = [p for p in out if p[1] != b"\n"]
    if len(lines) == len(pairs):
        ok = [p for p, t in zip(pairs, lines) if t == chr(p[0])]
    else:
        raise CheckError("iconv disagrees about the number of characters of " + enc)
    return ok


# bytes that are part of no character, wherever they come
BAD = {"UTF-8": [0xff, 0xfe, 0xc0, 0xc1], "CP1251": [0x98], "ISO-8859-7": [0xff]}


def broken(rng, enc, alpha):
    """a character broken off by such a byte, or the byte alone"""
    b = rng.choice(alpha)[1]
    return -1, b[:rng.randint(0, len(b) - 1)] + bytes([rng.choice(BAD[enc])])


def converter_script(rng, alpha, enc, n):
    """a text fed to its converter, one byte per command; some characters broken"""
    s = [f"o 0 {enc}"]
    for _ in range(n):
        cp, b = broken(rng, enc, alpha) if enc in BAD and rng.random() < 0.1 else rng.choice(alpha)
        s += [f"h 0 {cp} {hx(b)}"] + ["j"] * len(b)
    return s


def packer_script(rng, n):
    s = [f"k {rng.randint(0, 1)}"]
    for _ in range(n):
        s.append(rng.choice([f"b {rng.randint(0, 1)}", f"b {rng.randint(0, 1)}", f"y {rng.randint(0, 255)}", "z"]))
    return s


def C02(ctx):
    ctx.model_check("MCChars", "MCChars.cfg")
    exe, rng = exe_of(ctx), ctx.rng
    A = [65, 127, 128, 233, 2047, 2048, 8364, 65535 - 2, 65536, 128512, 1114111]
    u8 = lambda cp: (cp, chr(cp).encode())
    c = lambda k, p: f"c {k} {p[0]} {hx(p[1])}"
    # every sequence of three characters of the model's alphabet, in one long text each
    seqs = [[u8(x), u8(y), u8(z)] for x in A for y in A for z in A]
    go(ctx, exe, "model texts", [["o 0 UTF-8"] + [c(0, p) for p in s] for s in seqs])
    go(ctx, exe, "broken characters", [["o 0 UTF-8"] + [x for p in [broken(rng, "UTF-8", [u8(cp) for cp in A]) for _ in range(12)] for x in (c(0, p), c(0, u8(rng.choice(A))))]
                                       for _ in range(ctx.pick(60, 1500))] +
       [["o 0 UTF-8"] + [x for p in A for k in range(len(u8(p)[1])) for b in BAD["UTF-8"] for x in (c(0, (-1, u8(p)[1][:k] + bytes([b]))), c(0, u8(q)))] for q in A])
    sc, used = [], {}
    for enc in ["UTF-8"] * ctx.pick(3, 12) + ["ISO-8859-7"] + ENCODINGS * ctx.pick(1, 6):
        alpha = alphabet(rng, enc, ctx.pick(150, 600))
        used[enc] = len(alpha)
        if len(alpha) < 20:
            raise CheckError("no characters for " + enc)
        for _ in range(ctx.pick(6, 40)):
            sc.append([f"o 0 {enc}"] + [c(0, broken(rng, enc, alpha) if enc in BAD and rng.random() < 0.1 else rng.choice(alpha)) for _ in range(100)])
        other = alphabet(rng, "UTF-8", 100)
        for _ in range(ctx.pick(2, 12)):   # two converters fed alternately
            s = [f"o 0 {enc}", "o 1 UTF-8"]
            for _ in range(50):
                p, q = rng.choice(alpha), rng.choice(other)
                s.append(f"i 0 {p[0]} {hx(p[1])} 1 {q[0]} {hx(q[1])}")
            sc.append(s)
    ctx.notes["characters"] = used
    go(ctx, exe, "random texts in many encodings", sc)
    step = ctx.pick(37, 3)
    cps = [cp for cp in list(range(1, 0x3000, ctx.pick(3, 1))) + list(range(0x3000, 0x110000, step * 97)) if not 0xd800 <= cp < 0xe000 and cp != 0xfeff]
    rng.shuffle(cps)
    go(ctx, exe, "code points through UTF-8", [["o 0 UTF-8"] + [c(0, u8(cp)) for cp in cps[i:i + 300]] for i in range(0, len(cps), 300)])


# ------------------------------------------------------------------- fonts
def codes(last):
    return list(range(32, 127)) + (list(range(160, 256)) if last == 255 else [])


def random_glyph(rng, style, big):
    if style == "wide":
        w, h = rng.choice([(255, 2), (200, 1), (9, 3), (8, 8), (1, 200), (3, 255 - 130)])
    else:
        w, h = rng.choice([0, 1, 7, 8, 9, rng.randint(0, big), rng.randint(0, big)]), rng.choice([0, 1, rng.randint(0, big), rng.randint(0, big)])
    if w * h == 0:
        w = h = 0
    x = rng.choice([0, 1, rng.randint(-3, 9)] + ([-128, 127] if style == "far" else []))
    y = rng.choice([0, -h, rng.randint(-9, 9)] + ([-126 - h, 129 - h] if style == "far" else []))
    if style == "wide":
        y = -(h // 2)
    adv = rng.choice([w + 1, rng.randint(0, 40)] + ([255, 0] if style == "far" else []))
    dark = rng.random()
    rows = [[int(rng.random() < 0.5) if dark > 0.3 else 1 for _ in range(w)] for _ in range(h)]
    return {"w": w, "h": h, "x": x, "y": y, "adv": min(adv, 255), "rows": rows, "mono": True}


def bdf(path, px, descent, glyphs, bpp=1):
    """glyphs: {code point: glyph}; bpp: bits per pixel, dark ones having them all set"""
    with open(path, "w") as f:
        f.write(f"STARTFONT 2.1\nFONT -misc-test-medium-r-normal--{px}-{px * 10}-72-72-c-80-iso10646-1\nSIZE {px} 72 72{f' {bpp}' if bpp > 1 else ''}\n"
                f"FONTBOUNDINGBOX 255 255 -128 -128\nSTARTPROPERTIES 8\nPIXEL_SIZE {px}\nPOINT_SIZE {px * 10}\nRESOLUTION_X 72\nRESOLUTION_Y 72\n"
                f"CHARSET_REGISTRY \"ISO10646\"\nCHARSET_ENCODING \"1\"\nFONT_ASCENT {px}\nFONT_DESCENT {descent}\nENDPROPERTIES\nCHARS {len(glyphs)}\n")
        for cp, g in sorted(glyphs.items()):
            f.write(f"STARTCHAR U+{cp:04X}\nENCODING {cp}\nSWIDTH 500 0\nDWIDTH {g['adv']} 0\nBBX {g['w']} {g['h']} {g['x']} {g['y']}\nBITMAP\n")
            for r in g["rows"]:
                n = (len(r) * bpp + 7) // 8
                v = int("".join(str(b) * bpp for b in r) + "0" * (8 * n - len(r) * bpp), 2) if r else 0
                f.write(f"{v:0{2 * n}X}\n")
            f.write("ENDCHAR\n")
        f.write("ENDFONT\n")


def unicode_of(enc, code):
    b = bytes([code])
    return ord(b.decode(enc.lower() if enc.upper() != "ASCII" else "ascii"))


# file names that are no names in C++
ODD_NAMES = ["Go-Regular", "Some Font", "7segment", "a.b.c", "x+y(2)", "v1.2-beta", "-dash", "f'n", "#1", "Naïve-Шрифт", "two--dashes", "@home&co,[1]=~",
             "En–dash", "★日本 語", "Latin\udce9", "two\nlines", "“q”"]


def C03(ctx):
    ctx.model_check("MCConvert", ctx.pick("MCConvert.cfg", "MCConvertT.cfg"))
    ft = subprocess.run(["pkg-config", "--cflags", "freetype2"], capture_output=True, text=True).stdout.split() or ["-I/usr/include/freetype2"]
    conv = ctx.build("gfx-font-converter", [], flags=ft, libs=["-lfreetype"], deps_from_repo=["gfx-font-converter/*.cpp", "BufferedOut.cpp"])
    src = ctx.build("ft_src", ["ft_src.cpp"], flags=ft, libs=["-lfreetype"], asan=False)
    exe, rng = exe_of(ctx), ctx.rng
    cases = []
    styles = ["plain", "plain", "wide", "far", "empty"]
    cases += [("bdf", s, e) for s in ("large", "last 65535", "last 65536") for e in (None, "CP1251")] * ctx.pick(1, 6)
    for i in range(ctx.pick(18, 160)):
        enc = [None, "ascii", *EIGHT][i % (len(EIGHT) + 2)]
        cases.append(("bdf", rng.choice(styles), enc))
    cases += [("bdf", "odd name", (None, "ISO-8859-1", "CP1251")[i % 3]) for i in range(len(ODD_NAMES) * ctx.pick(1, 3))]
    cases += [("bdf", s, e) for s in ("too wide", "too high", "too far left", "too far up", "too much advance", "too long", "line 255", "line 256") for e in (None, "ISO-8859-1")]
    for f in ("Go-Regular", "Go-Bold-Italic"):
        cases += [(f, s, e) for e in (None, "ISO-8859-1", "CP1251") for s in ctx.pick([(12, None)], [(12, None), (7, 96), (20, 141), (30, 72), (40, 200)])]
    cases += [("bdf", s, e) for s in ("grey 2", "grey 4", "grey 8", "grey blank") for e in (None, "CP1251")] * ctx.pick(1, 4)
    if ctx.thorough:
        cases.append(("bdf", "64K", "ISO-8859-1"))

    def prepare(k, case):
        what, style, enc = case
        rng = random.Random(f"{ctx.prop}-{ctx.seed}-{k}")
        last = 126 if enc is None or enc.upper() == "ASCII" else 255
        d = ctx.path(f"font{k}")
        os.makedirs(d)
        cps = [unicode_of(enc or "ascii", c) for c in codes(last)]
        if what == "bdf":
            px = rng.choice([7, 12, 24, 47, 94, 141])
            dpi = {47: 141, 94: 141, 141: 141}.get(px, 72)
            size = px * 72 // dpi
            glyphs = [random_glyph(rng, style, {"empty": 3, "64K": 75}.get(style, 14)) for _ in cps]
            if style == "empty":
                glyphs = [g if rng.random() < 0.3 else dict(g, w=0, h=0, rows=[]) for g in glyphs]
            if style == "64K":
                glyphs = [{"w": 52, "h": 52, "x": 0, "y": 0, "adv": 53, "rows": [[rng.randint(0, 1) for _ in range(52)] for _ in range(52)]} for _ in cps]
            g = glyphs[rng.randint(1, len(glyphs) - 1)]
            solid = lambda w, h: dict(w=w, h=h, rows=[[1] * w for _ in range(h)])
            if style == "too wide":
                g.update(solid(rng.choice([256, 300]), 1))
            elif style == "too high":
                g.update(solid(1, rng.choice([256, 400])), y=-200)
            elif style == "too far left":
                g.update(solid(2, 2), x=rng.choice([-129, 128, 200]))
            elif style == "too far up":
                g.update(solid(2, 2), y=rng.choice([130, -130, 200]))
            elif style == "too much advance":
                g.update(adv=rng.choice([256, 300]))
            elif style == "large":
                for g in rng.sample(glyphs[:-1], 12):
                    w, h = rng.choice([(50, 42), (255, 8), (8, 255), (46, 45), (33, 70), (120, 90)])
                    g.update(w=w, h=h, y=-(h // 2), rows=[[int(rng.random() < 0.5) for _ in range(w)] for _ in range(h)])
            elif style.startswith("last"):      # where the last glyph's bitmap begins
                glyphs = [dict(x=0, y=0, adv=9, **solid(0, 0)) for _ in cps]
                at = int(style.split()[1])
                for g in rng.sample(glyphs[:-1], 9):
                    w, h = (255, 255) if at > 8129 else (8, 255) if at > 255 else (8, at)
                    g.update(solid(w, h), y=-128)
                    at -= (w * h + 7) // 8
                rest = [g for g in glyphs[:-1] if not g["w"]]
                while at:
                    n = min(at, 255)
                    rest.pop().update(solid(8, n), y=-128)
                    at -= n
                glyphs[-1].update(solid(9, 3))
            elif style == "too long":
                glyphs = [dict(x=0, y=0, adv=99, **solid(95, 95)) for _ in cps]
            elif style == "grey blank":         # no pixel that could be grey
                glyphs = [dict(g, w=0, h=0, rows=[]) for g in glyphs]
            for g in glyphs:
                g["mono"] = not style.startswith("grey") or g["w"] * g["h"] == 0
            table = dict(zip(cps, glyphs))
            table.setdefault(0x2592, random_glyph(rng, "plain", 5))   # glyphs not asked for
            table.setdefault(0x7f, random_glyph(rng, "plain", 5))
            table.setdefault(0x41, random_glyph(rng, "plain", 5))
            name = "Test" + rng.choice(["", "Font", "_x9", "n" * 60, "n" * 130, "n" * 220])
            if style == "odd name":
                name = ODD_NAMES[k % len(ODD_NAMES)]
            font = os.path.join(d, name + rng.choice([".bdf", ".BDF"] + ([] if "." in name else [""])))
            edge = {"line 255": 255 - px, "line 256": 256 - px}
            bdf(font, px, edge[style] if style in edge else rng.choice([px // 4, px // 2, 0, 3, 255 - px, rng.choice([256 - px, 300])]), table,
                bpp={"grey 2": 2, "grey 4": 4, "grey 8": 8, "grey blank": 4}.get(style, 1))
            expected = [table[cp] for cp in cps]
        else:
            size, dpi = style
            name, font = what.replace("-", "_"), os.path.join(d, what.replace("-", "_") + ".ttf")
            shutil.copyfile(os.path.join(HARNESS, "data", what + ".ttf"), font)
        r = subprocess.run([src, font, str(size), str(dpi or 141), *map(str, cps if what != "bdf" else [])], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("ft_src failed")
        r = json.loads(r.stdout)
        expected, height = expected if what == "bdf" else r["glyphs"], r["height"]
        sj = os.path.join(d, "source.json")
        with open(sj, "w") as f:
            json.dump(expected, f)
        s = [f"S {last} {height} {hx(sj.encode())}"]
        args = ["-f", font, "-o", d, "-s", str(size)] + ([] if dpi in (None, 141) and rng.random() < 0.7 else ["-d", str(dpi or 141)]) + (["-e", enc] if enc else [])
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77", LC_ALL="C.UTF-8")
        base = os.path.join(d, f"{name}{size}pt{8 if last == 255 else 7}b")
        for binary in ([], ["-b"]):
            rc = subprocess.run([conv, *args, *binary], capture_output=True, env=env, timeout=120).returncode
            if rc == 0 and binary:
                rc = 0 if all(os.path.exists(base + x) for x in ("Bitmaps.bin", "Glyphs.bin")) else -1
            elif rc == 0:
                rc = compile_header(base)
            if rc:
                s.append(f"X {int(not binary)} {rc}")
            else:
                s.append(f"B {last} {hx(os.fsencode(base + 'Bitmaps.bin'))} {hx(os.fsencode(base + 'Glyphs.bin'))}" if binary else f"L {hx(os.path.join(d, 'converted.so').encode())}")
        return s

    def compile_header(base):
        if not os.path.exists(base + ".h"):
            return -1
        named = os.path.basename(base)
        if not re.fullmatch("[A-Za-z_][A-Za-z_0-9]*", named):      # not a name in C++: the one the header chose
            with open(base + ".h", encoding="utf-8", errors="replace") as f:
                found = re.search(r"\bGFXfont\s+(\w+)", f.read())
            named = found[1] if found else "theFont"
        at = os.path.join(os.path.dirname(base), "converted")
        shutil.copyfile(base + ".h", at + ".h")
        with open(at + ".cpp", "w") as f:
            f.write('#include "graphics/GFXFontsAdapter.h"\nnamespace {\nusing GFXfont = embedded::fonts::FontDescriptor;\n'
                    'using GFXglyph = embedded::fonts::GlyphDescriptor;\n'
                    f'#include "{at}.h"\n}}\nextern "C" const embedded::fonts::FontDescriptor* theFont() {{ return &{named}; }}\n')
        r = subprocess.run(["g++", "-std=c++17", "-O0", "-fPIC", "-shared", "-I" + REPO, "-I" + os.path.join(REPO, "graphics"), at + ".cpp", "-o", at + ".so"],
                           capture_output=True, text=True)
        return -2 if r.returncode else 0

    t = time.time()
    with ThreadPoolExecutor(NCPU) as ex:
        sc = list(ex.map(lambda a: prepare(*a), enumerate(cases)))
    ctx.clock("converting", t)
    ctx.notes["fonts"] = len(cases)
    go(ctx, exe, "converted fonts", sc)


# ------------------------------------------------- command line and failures
LONG_NAME = {"f": "font", "s": "size", "d": "dpi", "e": "encoding", "o": "output"}


def damage(path, code):
    """Makes the outline of one character of a TrueType font unreadable."""
    import struct
    b = bytearray(open(path, "rb").read())
    u16 = lambda o: struct.unpack_from(">H", b, o)[0]
    u32 = lambda o: struct.unpack_from(">I", b, o)[0]
    table = {bytes(b[12 + 16 * i:16 + 16 * i]).decode(): u32(20 + 16 * i) for i in range(u16(4))}
    cmap = table["cmap"]
    for i in range(u16(cmap + 2)):
        s = cmap + u32(cmap + 8 + 8 * i)
        if u16(s) != 4:
            continue
        n = u16(s + 6) // 2
        for k in range(n):
            end, start, delta = u16(s + 14 + 2 * k), u16(s + 16 + 2 * n + 2 * k), u16(s + 16 + 4 * n + 2 * k)
            p = s + 16 + 6 * n + 2 * k
            if start <= code <= end:
                glyph = (code + delta if u16(p) == 0 else u16(p + u16(p) + 2 * (code - start)) + delta) & 0xFFFF
    loca = table["loca"]
    at = u32(loca + 4 * glyph) if u16(table["head"] + 50) else 2 * u16(loca + 2 * glyph)
    struct.pack_into(">h", b, table["glyf"] + at, 0x7FFF)
    open(path, "wb").write(b)


NOT_NUMBERS = ["abc", "", "-", "12abc", "9x", "0x20", "12 ", "1 2", "9,5", "9.5", "1e1", "99999999999", "2147483648", "4294967308", "-4294967284"]


def C04(ctx):
    import resource, signal
    tr = [json.loads(t[0]) for t in ctx.model_check("MCConvertRun", "MCConvertRun.cfg", emit=True)]
    ft = subprocess.run(["pkg-config", "--cflags", "freetype2"], capture_output=True, text=True).stdout.split() or ["-I/usr/include/freetype2"]
    conv = ctx.build("gfx-font-converter", [], flags=ft, libs=["-lfreetype"], deps_from_repo=["gfx-font-converter/*.cpp", "BufferedOut.cpp"])
    rng = ctx.rng
    top = ctx.path("converter-runs")
    os.makedirs(top)
    fonts = {"font": "Font.ttf", "other": "Other_1.otf", "bare": "Bare", "dotted": "Two.Dots.ttf", "damaged": "Damaged.ttf"}
    for k, src in (("font", "Go-Regular"), ("other", "Go-Bold-Italic"), ("bare", "Go-Regular"), ("dotted", "Go-Bold-Italic"), ("damaged", "Go-Regular")):
        shutil.copyfile(os.path.join(HARNESS, "data", src + ".ttf"), os.path.join(top, fonts[k]))
    damage(os.path.join(top, fonts["damaged"]), 0xE9)
    with open(os.path.join(top, "Broken.ttf"), "wb") as f:
        f.write(open(os.path.join(top, "Font.ttf"), "rb").read(700))
    path = {**{k: os.path.join(top, v) for k, v in fonts.items()}, "broken": os.path.join(top, "Broken.ttf"),
            "missing": os.path.join(top, "Missing.ttf"), "directory": top}
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0", LC_ALL="C.UTF-8")

    def limited(n):
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if n >= 0:
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def run_one(req, style, limit=-1, block=None):
        """One run in fresh directories; returns its event. block: a name in the directory asked for that is taken."""
        d = tempfile.mkdtemp(dir=top)
        dirs = {k: os.path.join(d, k) for k in ("bin", "out", "here")}
        for x in dirs.values():
            os.mkdir(x)
        program = os.path.join(dirs["bin"], "gfx-font-converter")
        os.link(conv, program)
        if block:
            os.mkdir(os.path.join(dirs[block[0]], block[1]))
        args = []
        for i, p in enumerate(req):
            v = {"f": lambda: path[p["v"]], "o": lambda: dirs[p["v"]]}.get(p["o"], lambda: p["v"])()
            glued = (style >> i) & 1
            if p["o"] in "bh?":
                args.append("-" + {"?": "z"}.get(p["o"], p["o"]))
            elif p["long"]:
                args += [f"--{LONG_NAME[p['o']]}={v}"] if glued else ["--" + LONG_NAME[p["o"]], v]
            else:
                args += [f"-{p['o']}{v}"] if glued and v else ["-" + p["o"], v]
        try:
            search = bool(style & 256)        # started by its bare name, found in the search path
            rc = subprocess.run([os.path.basename(program) if search else program, *args], cwd=dirs["here"],
                                env=dict(env, PATH=dirs["bin"] + ":" + env.get("PATH", "/usr/bin:/bin")) if search else env,
                                capture_output=True, timeout=120, preexec_fn=lambda: limited(limit)).returncode
            rc = -1000 if rc == 77 else rc
        except subprocess.TimeoutExpired:
            rc = -14
        files = []
        for k, x in dirs.items():
            for base, _, names in os.walk(x):
                for n in sorted(names):
                    if os.path.join(base, n) == program:
                        continue
                    b = open(os.path.join(base, n), "rb").read()
                    files.append({"dir": k, "name": os.path.relpath(os.path.join(base, n), x), "size": len(b), "sum": hashlib.sha1(b).hexdigest()})
        shutil.rmtree(d)
        return {"ev": "Run", "req": req, "search": search, "block": bool(block), "limit": limit, "status": rc, "files": files}

    # a trace: the font files, then runs; one with a fault comes after a run of the same request without one
    head = [{"ev": "FontFile", "path": k, "stem": v.rsplit(".", 1)[0], "bad": ["ISO-8859-1"] if k == "damaged" else []} for k, v in fonts.items()]

    def record(scen):
        evs = list(head)
        for req, style, fault in scen:
            ref = run_one(req, style)
            evs.append(ref)
            if fault is None:
                continue
            if fault[0] == "limit" and ref["files"]:
                longest = max(f["size"] for f in ref["files"])
                evs.append(run_one(req, style, limit=max(0, min(longest + 9, int(longest * fault[1]) + fault[2]))))
            elif fault[0] == "block" and ref["files"]:
                f = ref["files"][fault[1] % len(ref["files"])]
                evs.append(run_one(req, style, block=(f["dir"], f["name"])))
        return evs

    def check(label, scens):
        n = 12
        groups = [scens[i:i + n] for i in range(0, len(scens), n)]
        t = time.time()
        with ThreadPoolExecutor(NCPU) as ex:
            traces = list(ex.map(record, groups))
        ctx.clock("converting", t)
        ctx.samples.append({"label": label, "script": [groups[0][0]], "first_events": traces[0][:5]})
        ctx.validate("ConvertRunTrace", traces, label=label, scripts=groups, rerun=lambda i, before: record(groups[i]))

    def fault_of(x):
        if x["block"]:
            return ("block", rng.randint(0, 1))
        if x["limit"] >= 0:
            return ("limit", {0: 0, 2: rng.random(), 3: 1}[x["limit"]], {0: 0, 2: -1, 3: 0}[x["limit"]])
        return None
    sound = [x for x in tr if not any(p["o"] == "h" or p["v"] in ("missing", "damaged", "NO-SUCH", "abc") for p in x["req"]) and any(p["o"] == "f" for p in x["req"])]
    rest = [x for x in tr if not x["block"] and x["limit"] < 0]
    faulty = [x for x in sound if x["block"] or x["limit"] >= 0]
    some = lambda xs, quick, thorough: rng.sample(xs, min(len(xs), ctx.pick(quick, thorough)))
    few = some(rest, 250, 4000) + some([x for x in sound if not x["block"] and x["limit"] < 0], 60, 1000) + some(faulty, 90, 2000)
    few += [x for x in rest if len(x["req"]) < 2]
    ctx.notes["model_scenarios"] = len(tr)
    ctx.notes["model_scenarios_replayed"] = len(few)
    check("model scenarios", [(x["req"], rng.getrandbits(4) | rng.choice([0, 0, 256]), fault_of(x)) for x in few])

    def fitting(req):
        """the size in pixels of the font asked for is neither tiny nor too large for the format"""
        last = {"s": "12", "d": "141", **{p["o"]: p["v"] for p in req}}
        return 4 <= int(last["s"]) * int(last["d"]) / 72 <= 60

    def request():
        while True:
            req = any_request()
            if fitting(req):
                return req

    def any_request():
        val = {"f": lambda: rng.choice(["font", "font", "other", "bare", "dotted", "damaged"] + (["missing", "broken", "directory"] if rng.random() < 0.2 else [])),
               "s": lambda: rng.choice(["5", "12", "9", "20", "20", rng.choice(["100", "257", "300", "1000", "3"])]), "d": lambda: rng.choice(["72", "141", "96", "200", rng.choice(["10", "3", "257", "300", "600"])]),
               "e": lambda: rng.choice(["Ascii", "ascii", "ISO-8859-1", "iso-8859-1", "ISO-8859-5", "cp1251", "CP1251", "koi8-r", "KOI8-R"] + (["no-such"] if rng.random() < 0.2 else [])),
               "o": lambda: rng.choice(["out", "bin", "here"]), "b": lambda: "", "h": lambda: "", "?": lambda: ""}
        letters = ["f"] * (rng.random() < 0.95) + rng.choices("sdeob", k=rng.randint(0, 5)) + rng.choices("h?f", k=int(rng.random() < 0.15))
        rng.shuffle(letters)
        return [{"o": c, "v": val[c](), "long": c not in "bh?" and rng.random() < 0.5} for c in letters]
    rnd = []
    for _ in range(ctx.pick(120, 2500)):
        fault = rng.choice([None, ("limit", rng.choice([0, 0.3, 1, 1, 1]), rng.choice([0, -1, 1, 5, -2])), ("limit", rng.random(), 0), ("block", rng.randint(0, 1))])
        rnd.append((request(), rng.getrandbits(9), fault))
    # sizes and resolutions on both sides of the widths a number may be kept in, the other one making up for it
    for size, dpi in [(255, 9), (256, 10), (257, 5), (300, 10), (600, 5), (1000, 3), (2000, 2), (4000, 1), (3, 300), (1, 1000), (2, 1500), (1, 256), (1, 257), (7, 255)] * ctx.pick(1, 4):
        req = [("f", rng.choice(["font", "other", "bare"])), ("s", str(size)), ("d", str(dpi))] + [("b", "")] * (rng.random() < 0.5)
        rng.shuffle(req)
        rnd.append(([{"o": o, "v": v, "long": o != "b" and rng.random() < 0.5} for o, v in req], rng.getrandbits(9), None))
    # sizes that no font fits, which must not be mistaken for small ones
    for size in ["33554431", "33554432", "67108864", "67108876", "134217740", "1073741836", "2147483647"]:
        for more in ([], [("d", "1")], [("b", "")], [("s", "12")]):
            rnd.append(([{"o": o, "v": v, "long": o != "b" and rng.random() < 0.5} for o, v in [("f", "font"), ("s", size)] + more], rng.getrandbits(9), None))
    # what is not, or not only, a number, or not one of 31 bits
    for v in NOT_NUMBERS:
        for o in "sd":
            for more in ([], [(o, "20")]):
                opts = [("f", "font"), (o, v)] + more
                rng.shuffle(opts)
                rnd.append(([{"o": x, "v": y, "long": rng.random() < 0.5} for x, y in opts], rng.getrandbits(9), None))
    check("random command lines", rnd)
