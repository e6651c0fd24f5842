"""N01: objects are independent of each other (MCObjects.tla and the specifications of the components)."""
from mbv import *
from checks import canvas, converter, fonts, frame, i2c, serialout, spi, storage, text, uart, views


def together(rng, make, n, head=None, lanes=(2, 2, 3)):
    """n groups of histories. With `head`, the number of commands that set up the objects, some groups have objects of
    the same kind, size and names: the commands that follow are those of the first in another order."""
    out = []
    for _ in range(n):
        g = [make() for _ in range(rng.choice(lanes))]
        if head and rng.random() < 0.5:
            g[1:] = [g[0][:head] + rng.sample(g[0][head:], len(g[0]) - head) for _ in g[1:]]
        out.append(g)
    return out


def N01(ctx):
    rng = ctx.rng
    INC = "-I" + HARNESS + "/mock/"
    exe = ctx.parallel({
        "text": lambda: ctx.build("text", ["text_drv.cpp"], deps_from_repo=["*.cpp"]),
        "storage": lambda: storage.build(ctx),
        "frame": lambda: ctx.build("frame", ["frame_drv.cpp"]),
        "canvas": lambda: canvas.exe_of(ctx),
        "font": lambda: fonts.exe_of(ctx),
        "conv": lambda: converter.exe_of(ctx),
        "i2c": lambda: i2c.builds(ctx),
        "uart": lambda: uart.builds(ctx),
        "serial": lambda: serialout.builds(ctx),
        "spi": lambda: ctx.build("spi_a", ["spi_drv.cpp"], flags=["-DMBV_ARDUINO", INC + "arduino"], deps_from_repo=spi.SRC["arduino"])})
    go = lambda e, groups, module, label, cfg=None: ctx.conform_together(e, groups, module, label, cfg=cfg)

    # the composed model: every transition of two text buffers
    tr = ctx.model_check("MCObjects", "MCObjects.cfg", emit=True)
    walks, cov = cover_walks(tr, lambda s: s["l1"] == s["l2"] == s["w1"] == s["w2"] == s["p1"] == s["p2"] == 0 and s["f1"] == s["f2"] == 32, max_len=200, rng=rng)
    ctx.notes["model_transitions_replayed"] = cov
    say = {"str": lambda a: "s " + text.hx(a["s"]), "int": lambda a: "i int " + bytes(a["s"]).decode(), "width": lambda a: f"w {a['c']}",
           "fill": lambda a: f"F {a['c']}", "prec": lambda a: f"p {a['c']}", "clear": lambda a: "x",
           "float": lambda a: f"f {int(a['g'])} {bytes(a['s']).decode()} {a['r']} {a['k']}"}
    ordered = []
    for st, steps in walks:
        ordered.append([(0, f"N {st['c1']}"), (1, f"N {st['c2']}")] + [(a["o"] - 1, say[a["a"]](a)) for a, _ in steps])
    ctx.conform_together(exe["text"], ordered, "TextTrace", "two text buffers: model transitions", cfg="TextTrace_floats.cfg", lanes=2)
    go(exe["text"], together(rng, lambda: text.history(rng, 25), ctx.pick(150, 3000), 1), "TextTrace", "text buffers", "TextTrace_floats.cfg")

    go(exe["storage"], together(rng, lambda: storage.random_script(rng, 25, twin=0), ctx.pick(120, 2500), 2), "StorageTrace", "storages", "StorageTraceS03.cfg")

    def one_frame():
        d = rng.choice([1, 1, 2, 4, 8, 16, 24, 32])
        w, h = rng.choice(frame.SMALL[d])
        return frame.random_script(rng, w, h, d, 20, True)
    go(exe["frame"], together(rng, one_frame, ctx.pick(120, 2500), 2), "FrameTrace", "frames")

    def one_canvas():
        w, h = rng.choice([(5, 3), (8, 8), (16, 9), (40, 30)])
        return [f"N {w} {h} {rng.randint(0, 3)}", "U"] + [canvas.figure(rng, w, h, 6, "PRFCCS") if rng.random() > 0.2 else f"o {rng.randint(0, 3)}" for _ in range(12)]
    go(exe["canvas"], together(rng, one_canvas, ctx.pick(120, 2000), 2), "CanvasTrace", "canvases", "CanvasTrace_turn.cfg")

    def one_framed():
        w, h = rng.choice([(5, 3), (8, 8), (16, 9), (40, 30)])
        return [f"N {w} {h} {rng.randint(0, 3)}", "B 112"] + [canvas.figure(rng, w, h, 6) if rng.random() > 0.2 else f"o {rng.randint(0, 3)}" for _ in range(12)]
    go(exe["canvas"], together(rng, one_framed, ctx.pick(60, 1500), 2), "CanvasTrace", "canvases and their surroundings", "CanvasTrace_clip.cfg")

    def one_font():
        last = rng.choice([126, 255])
        head = [f"N {last} 60 50 " + fonts.random_font(rng, last, 9)] if rng.random() < 0.8 else ["D 60 50"]
        if head[0][0] == "D":
            last = 126
        return head + [rng.choice([f"c {rng.randint(32, 255)} 20 20", f"s 5 20 {fonts.text(rng, 3, last)}", f"b {fonts.text(rng, 3, last)}"]) for _ in range(12)]
    go(exe["font"], together(rng, one_font, ctx.pick(40, 600), 1), "FontTrace", "fonts")

    for plat, e in exe["uart"].items():
        def one_uart(plat=plat):
            m = rng.random()
            if m < 0.6:
                return uart.random_recv(ctx, plat, ["receive", "until", "between"], 1, False)[0]
            return rng.choice(uart.sends(ctx, 1)[:1])
        go(e, together(rng, one_uart, ctx.pick(250, 4000)), "UartTrace", f"UARTs, {plat}", "UartTrace_plain.cfg")
    for plat, e in exe["serial"].items():
        def one_serial():
            return [f"N {rng.choice([1, 5, rng.randint(1, 40), 128])}"] + [serialout.op(rng) for _ in range(20)] + ["E"]
        def debug_too(g):
            if rng.random() < 0.3:
                g[0] = ["M"] + [serialout.op(rng) if rng.random() < 0.6 else f"D h6162 {text.number(rng)[2:]}" for _ in range(10)] + ["L"]
            return g
        go(e, [debug_too(g) for g in together(rng, one_serial, ctx.pick(80, 2000))], "SerialTrace", f"serial outputs, {plat}")
    for plat, e in exe["i2c"].items():
        def one_device():
            s = i2c.new(rng)
            for _ in range(rng.randint(1, 6)):
                if rng.random() < 0.4:
                    s.append(f"F {int(rng.random() < 0.7)} {rng.choice([-1, 0, 3])} {rng.choice([-1, 0, 3])}")
                s.append(i2c.call(rng, rng.choice(["send", "receive", "both"]), rng.randint(1, 12), rng.randint(1, 12)))
            return s
        go(e, together(rng, one_device, ctx.pick(150, 3000)), "I2cTrace", f"I2C devices, {plat}")

    def one_bus():
        s = [f"Z {rng.randint(1, 10**9)}", f"C 0 {rng.choice([0, 400000, 40000000, rng.randint(1, 80000000)])}"]
        return s + [spi.xfer(rng, rng.choice(["send", "receive", "exchange"]), rng.choice([0, 1, 2, 3, 4, 5, rng.randint(0, 30)])) for _ in range(rng.randint(1, 6))]
    go(exe["spi"], together(rng, one_bus, ctx.pick(100, 2000)), "SpiTrace", "SPI buses, arduino", "SpiTrace_transfer.cfg")

    alpha = {enc: converter.alphabet(rng, enc, 100) for enc in ("UTF-8", "EUC-JP", "GB18030")}
    def one_converter():
        enc = rng.choice(["UTF-8", "UTF-8", "UTF-8", *alpha])
        return converter.converter_script(rng, alpha[enc], enc, 20)
    go(exe["conv"], together(rng, one_converter, ctx.pick(60, 1000)), "ConverterTrace", "character converters")
    go(exe["conv"], together(rng, lambda: converter.packer_script(rng, 40), ctx.pick(60, 1000)), "ConverterTrace", "bit packers")
