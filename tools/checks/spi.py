"""P01, P02: SPI of both platforms (SpiBus.tla)."""
from mbv import *

INC = "-I" + HARNESS + "/mock/"
SRC = {"arduino": ["arduino/SpiBus.cpp", "arduino/SpiDevice.cpp"], "esp32": ["esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp"]}


def esp(ctx, limit=None):
    f = [INC + "esp32"] + ([f"-DMOCK_DESC_MAX={limit}"] if limit else [])
    return ctx.build(f"spi_e{limit or ''}", ["spi_drv.cpp"], flags=f, deps_from_repo=SRC["esp32"])


def arduino(ctx):
    return ctx.build("spi_a", ["spi_drv.cpp"], flags=["-DMBV_ARDUINO", INC + "arduino"], deps_from_repo=SRC["arduino"])


def hx(b):
    return "h" + bytes(b).hex()


def data(rng, n):
    return hx([rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(n)])


def xfer(rng, op, n):
    return {"send": lambda: f"s 0 {data(rng, n)}", "receive": lambda: f"g 0 {n}",
            "exchange": lambda: f"{rng.choice('xy')} 0 {data(rng, n)}"}[op]()


def esp_setup(op, rng=None, freq=4000000):
    half = {"receive": "h", "exchange": "f"}.get(op) or (rng.choice("hf") if rng else "h")
    return ["C 0 1", f"I 0 18 19 23 {freq} {half}"]


def arduino_scripts(ctx, rng):
    ard, ops = [], ["send", "receive", "exchange"]
    for n in list(range(0, 41)) + [63, 64, 65, 255, 256, 257, 1000, 4099]:
        for op in ops:
            ard.append([f"Z {n + 7}", f"C 0 {rng.choice([0, 1, 8000000])}", xfer(rng, op, n)])
    for _ in range(ctx.pick(200, 4000)):
        s = [f"Z {rng.randint(1, 10**9)}", f"C 0 {rng.choice([0, 400000, 40000000, rng.randint(1, 80000000)])}"]
        for _ in range(rng.randint(1, 6)):
            n = rng.choice([0, 1, 2, 3, 4, 5, rng.randint(0, 60)])
            s.append(rng.choice([f"b {data(rng, n)}", f"w {data(rng, n)}"] + [xfer(rng, rng.choice(ops), n) for _ in range(4)]))
        ard.append(s)
    return ard


def P01(ctx):
    rng = ctx.rng
    b = ctx.parallel({"small": lambda: esp(ctx, 4), "real": lambda: esp(ctx), "odd": lambda: esp(ctx, 7),
                      "arduino": lambda: arduino(ctx)})
    tr = [json.loads(t[0]) for t in ctx.model_check("MCSpiXfer", "MCSpiXfer.cfg", emit=True)]
    ctx.notes["model_scenarios_replayed"] = len(tr)

    def script(x):
        s = [f"Z {rng.randint(1, 10**9)}"] + esp_setup(x["op"])
        if x["bad"]:
            s.append("F t " + "1 " * (x["bad"] - 1) + "0")
        return s + [xfer(rng, x["op"], x["n"]), "F t", xfer(rng, x["op"], 3)]
    go = lambda label, exe, s: ctx.conform(exe, s, "SpiTrace", label, cfg="SpiTrace_transfer.cfg")
    go("esp32, pieces of 4: model scenarios", b["small"], [script(x) for x in tr])
    ops = ["send", "receive", "exchange"]

    def rand(maxn, k, fail):
        out = []
        for _ in range(k):
            op = rng.choice(ops)
            s = [f"Z {rng.randint(1, 10**9)}"] + esp_setup(op, rng)
            for _ in range(rng.randint(1, 5)):
                if rng.random() < fail:
                    s.append("F t " + " ".join(str(int(rng.random() < 0.8)) for _ in range(rng.randint(1, 6))))
                else:
                    s.append("F t")
                s.append(xfer(rng, op, rng.choice([0, 1, rng.randint(0, maxn), maxn])))
            out.append(s)
        return out
    go("esp32, pieces of 7: random", b["odd"], rand(60, ctx.pick(300, 5000), 0.4))
    big = []
    for n in [4091, 4092, 4093, 8183, 8184, 8185, 12276, 65535] + [rng.randint(0, 65535) for _ in range(ctx.pick(2, 20))]:
        for op in ops:
            big.append([f"Z {n}"] + esp_setup(op, rng) + [xfer(rng, op, n)])
            if n > 4092:
                big.append([f"Z {n}"] + esp_setup(op, rng) + ["F t 1 0", xfer(rng, op, n)])
    for n in (65536, 70000, rng.randint(65536, 150000)):     # the bus itself takes longer ones
        big.append([f"Z {n}"] + esp_setup("send", rng) + [f"s 0 {data(rng, n)}"])
        big.append([f"Z {n}"] + esp_setup("receive", rng) + [f"g 0 {n}"])
        big.append([f"Z {n}"] + esp_setup("exchange", rng) + [f"{rng.choice('xy')} 0 {data(rng, n)}"])
    go("esp32, real limit", b["real"], big)
    ard = arduino_scripts(ctx, rng)
    ard += [["C 0 0", f"{c} {data(rng, n)}"] for c in "bw" for n in (127, 128, 255, 256, 300, 1000)] + [["C 0 0", f"b {data(rng, n)}"] for n in (32768, 65535)]
    ard += [["Z 5", "C 0 0", xfer(rng, op, n)] for op in ops for n in (65532, 65535)]
    go("arduino", b["arduino"], ard)


def P02(ctx):
    rng = ctx.rng
    b = ctx.parallel({"e": lambda: esp(ctx, 4), "a": lambda: arduino(ctx)})
    exe = b["e"]
    tr = ctx.model_check("MCSpiHold", "MCSpiHold.cfg", emit=True)
    ws, cov = cover_walks(tr, lambda s: s["holder"] in ([], {}) and not any(s["dev"]) and not any(s["bus"]) and all(s["alive"]), max_len=60, rng=rng)
    ctx.notes["model_transitions_replayed"] = cov
    go = lambda label, s: ctx.conform(exe, s, "SpiTrace", label, cfg="SpiTrace_holding.cfg")

    def api(a, o, outs):
        r = []
        for f in "iarft":
            v = [str(x) for g, x in outs if g == f]
            r.append(" ".join(["F", f] + v))
        d = rng.choice("hf")
        r.append({"init": f"I {o} {rng.randint(0, 39)} {rng.randint(0, 39)} {rng.randint(0, 39)} {rng.choice([1000, 4000000, 40000000, rng.randint(1, 80000000)])} {d}",
                  "release": f"R {o}", "destroy": f"D {o}", "xfer": f"s {o} h0102030405"}[a])
        return r
    sc = []
    for st, steps in ws:
        s = [f"C {i + 1} {h}" for i, h in enumerate(st["host"])]
        for a, _ in steps:
            s += api(a["a"], a["o"], a["outs"])
        sc.append(s)
    go("model transitions", sc)
    rnd = []
    for _ in range(ctx.pick(400, 8000)):
        s, live, nxt = [], [], 1
        for _ in range(rng.randint(5, 40)):
            if not live or (len(live) < 4 and rng.random() < 0.1):
                s.append(f"C {nxt} {rng.choice([1, 1, 2])}")
                live.append(nxt)
                nxt += 1
                continue
            o = rng.choice(live)
            a = rng.choice(["init", "init", "release", "release", "xfer"] + (["destroy"] if rng.random() < 0.5 else []))
            p = rng.choice([0, 0.3, 0.7])
            s += api(a, o, [(f, int(rng.random() >= p)) for f in "iaarrffttt"])
            if a == "destroy":
                live.remove(o)
        rnd.append(s)
    go("random histories", rnd)
    go = lambda label, s: ctx.conform(b["a"], s, "SpiTrace", label, cfg="SpiTrace_holding.cfg")
    several = []
    for _ in range(ctx.pick(60, 1000)):       # several buses of different clocks
        s = [f"C {o} {rng.choice([0, 400000, 8000000, rng.randint(1, 80000000)])}" for o in range(3)]
        for _ in range(rng.randint(3, 12)):
            o, n = rng.randint(0, 2), rng.choice([0, 0, 1, 2, 3, 4, 5, 8, 31])
            s.append(rng.choice([f"s {o} {data(rng, n)}", f"g {o} {n}", f"{rng.choice('xy')} {o} {data(rng, n)}"]))
        several.append(s)
    go("arduino", arduino_scripts(ctx, rng) + several)
