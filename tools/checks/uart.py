"""U01-U03: the packet UART of both platforms (Uart.tla)."""
from mbv import *

ARDUINO = ["arduino/PacketUart.cpp"]
ESP = ["esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/Delays.cpp"]
WRAP31 = 2**31 * 1000


def builds(ctx):
    jobs = {"arduino": lambda: ctx.build("uart_a", ["uart_drv.cpp"], flags=["-DMBV_ARDUINO", "-I" + HARNESS + "/mock/arduino"], deps_from_repo=ARDUINO)}
    for tick in (1, 10):
        jobs[f"esp32 tick {tick} ms"] = lambda tick=tick: ctx.build(f"uart_e{tick}", ["uart_drv.cpp"], flags=[f"-DMOCK_TICK_MS={tick}", "-I" + HARNESS + "/mock/esp32"], deps_from_repo=ESP)
    return ctx.parallel(jobs)


def world(rng, span, quiet=False):
    """Clock, jitter and stall of a trace; span: microseconds within which the counter should wrap."""
    m = rng.random()
    if m < 0.55:
        clock = rng.randint(0, max(1, span))
    elif m < 0.7:
        clock = -(WRAP31 - rng.randint(0, max(1, span)))
    elif m < 0.8:
        clock = -rng.randint(1, 5000)
    else:
        clock = -rng.randint(10**6, 10**12)
    jit = rng.choice([0, 5, 60, 200])
    stall = rng.choice([(-1, 0), (-1, 0), (rng.randint(0, 40), rng.randint(500, 40000))])
    return f"N {clock} {jit} {rng.randint(1, 2**30)} {stall[0]} {stall[1]} {rng.choice([1, 30, 1000, 1000, rng.choice([40000, 70000])])}"


def model_scenarios(ctx, cfg, limit):
    tr = ctx.model_check("MCUart", cfg, emit=True, timeout=1500)
    sc = [json.loads(t[0]) for t in tr]
    ctx.notes["model_scenarios"] = len(sc)
    if len(sc) > limit:
        sc = ctx.rng.sample(sc, limit)
    ctx.notes["model_scenarios_replayed"] = len(sc)
    out = []
    for x in sc:
        T = 20000
        wrap = (12 - x["tick0"]) * T if x["tick0"] else -10**9
        s = [f"N {wrap} {ctx.rng.choice([0, 50])} {ctx.rng.randint(1, 10**6)} -1 0 1000"]
        arr = sorted((t * T + 100 + 40 * i, {1: 83, 2: 69, 3: 120}[b]) for i, (t, b) in enumerate(x["arr"]))
        if arr:
            s.append("A " + " ".join(f"{t} {b}" for t, b in arr))
        to = x["to"] * T // 1000
        s.append({"receive": f"R {x['size']} {to}", "until": f"U {x['size']} 69 {to}", "between": f"B {x['size']} 83 69 {to}"}[x["op"]])
        s.append("R 5 20")     # what was left unread
        out.append(s)
    return out


def stream(rng, s, e, n, to, dense):
    """n arrivals; times relative to now in microseconds."""
    t, r = 0, []
    base = to * 1000
    for _ in range(n):
        m = rng.random()
        if m < 0.3:
            gap = 0
        elif m < 0.75 or dense:
            gap = rng.randint(0, max(1, base // rng.choice([2, 5, 20])))
        elif m < 0.9:
            gap = max(0, base + rng.randint(-3000, 3000))
        else:
            gap = rng.randint(0, 2 * base + 1)
        t += gap
        b = rng.choice([s, e] if rng.random() < 0.35 else [rng.randint(0, 255), rng.choice([0, 255, 10, 13])])
        r.append((t, b))
    return r


def recv(rng, op, plat):
    s, e = rng.choice([(2, 3), (0x7E, 0x7E), (0, 0xFF), (0xFF, 0), (0x80, 0xFE), (rng.randint(0, 255), rng.randint(0, 255))])
    to = rng.choice([1, 2, 5, 9, 10, 11, 20, 37, 50, 100, 200, 200, 500] + ([1000, 40000, 65535] if rng.random() < 0.1 else []))
    zero = rng.random() < 0.12 and op != "device"
    if op == "device" and rng.random() < 0.1:
        to = 0
    size = rng.choice([0, 1, 2, 3, 4, 8, 16, 64, 300])
    n = rng.choice([0, 1, 2, 5, 10, 30])
    lines = []
    a = stream(rng, s, e, n, to if not zero else 20, rng.random() < 0.5)
    if rng.random() < 0.3 and op == "between":   # noise without a start byte, for longer than the time-out
        gap = rng.choice([0.02, 0.3, 0.9]) * to * 1000
        noise = [b for b in (1, 7, 200) if b not in (s,)]
        a = [(int(i * gap), rng.choice(noise)) for i in range(min(400, int(3 * to * 1000 / gap) + 1))]
        if rng.random() < 0.5:
            a += [(a[-1][0] + 100, s), (a[-1][0] + 200, e)]
    if rng.random() < 0.25:      # dripping without an end byte
        gap = rng.choice([0.3, 0.9, 0.97]) * to * 1000
        k = [(int(i * gap), rng.choice([b for b in (1, 7, 9, 200) if b != e])) for i in range(rng.randint(3, 12))]
        a = ([(0, s)] if op == "between" else []) + k
    last = max([t for t, _ in a], default=0)
    if zero:
        if op == "between":
            a += [(last + 10, s)]
            last += 10
        a += [(last + rng.randint(0, 3000), e), (last + 4000, e)] * 3
        if plat != "arduino" and op == "until":
            a += [(last + 5000, e)] * 1
    if a:
        lines.append("A " + " ".join(f"{t} {b}" for t, b in sorted(a, key=lambda x: x[0])))
    t = 0 if zero and op != "receive" else to
    if op == "device":
        if rng.random() < 0.15:
            return lines + [f"Q0 {size}"], 20000
        return lines + [f"Q {size} {to}"], to * 1000
    lines.append({"receive": f"R {size} {t}", "until": f"U {size} {e} {t}", "between": f"B {size} {s} {e} {t}"}[op])
    return lines, to * 1000


def random_recv(ctx, plat, ops, n, errors):
    rng, out = ctx.rng, []
    for _ in range(n):
        ls, span = [], 0
        for _ in range(rng.choice([1, 1, 2, 4])):
            if errors and plat != "arduino" and rng.random() < 0.2:
                ls.append("E " + " ".join(str(rng.randint(0, 6)) for _ in range(rng.randint(1, 3))))
                errs = True
            else:
                ls.append("E")
                errs = False
            x, sp = recv(rng, rng.choice(ops), plat)
            if errs and any(q.startswith("U") and q.endswith(" 0") for q in x):
                ls.pop()
                ls.append("E")
            ls += x
            span = max(span, sp)
        out.append([world(rng, int(1.5 * span))] + ls)
    return out


def long_ones(ctx, op):
    """Buffers and packets of more than 32767 bytes."""
    out = []
    for size, n in ((33000, 32900), (33000, 33100), (65535, 40000)) + (((65535, 65535), (65535, 65540)) if ctx.thorough else ()):
        s = [f"N {ctx.rng.randint(0, 10**6)} 0 1 -1 0 1000", "M"]
        s.append("A " + " ".join(f"0 {b}" for b in ([83] if op == "between" else []) + [1 + i % 60 for i in range(n)] + [69, 7]))
        s.append({"receive": f"R {size} 200", "until": f"U {size} 69 5000", "between": f"B {size} 83 69 5000"}[op])
        out.append(s + ["R 3 20"])
    return out


def wraps(ctx, plat, op):
    """The counter wraps (or passes 2^31) everywhere around and during a call."""
    out = []
    for to in (7, 30, 200):
        for off in sorted({0, 1, 999, 1000, 1001, to * 500, to * 1000 - 1, to * 1000, to * 1000 + 1, to * 1000 + 1000, to * 3000}):
            for clock in (off, -(WRAP31 - off)):
                for arr in ([], [(to * 400, 9)], [(0, 83), (to * 600, 9), (to * 1200, 69)], [(0, 83), (to * 300, 69)]):
                    s = [f"N {clock} {ctx.rng.choice([0, 40])} {ctx.rng.randint(1, 10**6)} -1 0 {ctx.rng.choice([1, 1000])}"]
                    if arr:
                        s.append("A " + " ".join(f"{t} {b}" for t, b in arr))
                    s.append({"receive": f"R 4 {to}", "until": f"U 6 69 {to}", "between": f"B 6 83 69 {to}"}[op])
                    out.append(s)
    return out


def long_timeouts(ctx):
    """Receptions by the device itself that wait for longer than 16 bits of milliseconds or of ticks."""
    rng, out = ctx.rng, []
    for to in (40000, 65535, 65536, 65537, 65600, 131072, 327680, 327700, 655350, 655360, 655370, 655400, 1000000):
        for part in (None, 0.02, 0.5, 0.999, 1.01):
            s = [f"N {rng.choice([10**10, rng.randint(0, to * 1000), -(WRAP31 - rng.randint(0, to * 1000))])} {rng.choice([0, 50])} {rng.randint(1, 10**6)} -1 0 1000"]
            if part:
                s.append(f"A {int(to * 1000 * part)} 77")
            out.append(s + [f"Q {rng.choice([1, 1, 2])} {to}"])
    return out


def sends(ctx, n):
    rng, out = ctx.rng, []
    for _ in range(n):
        s = [world(rng, 10**5)]
        for _ in range(rng.randint(1, 6)):
            k = rng.choice([0, 1, 2, 5, 20, 100, 300])
            if rng.random() < 0.5:
                s.append(f"W {rng.choice([-1, -2, 0, 1, rng.randint(0, 300)])}")
            if rng.random() < 0.3:
                s.append(f"D {rng.choice([0, 1, 77, 1000, 60000])}")
            d = bytes(rng.choice([0, 255, 10, 13, rng.randint(0, 255)]) for _ in range(k)).hex()
            s.append(f"S h{d} {rng.choice([0, 1, 100, 5000, 2**32 - 1])}" if rng.random() < 0.6 else rng.choice([f"S0 h{d}", f"V h{d}"]))
            if rng.random() < 0.3:
                s += ["A 0 1 0 2 500 3", f"R {rng.choice([1, 2, 3, 10])} 20"]
        out.append(s)
    for k in (1000, 65535):
        out.append([world(rng, 10**5), "S h" + bytes(i * 7 % 256 for i in range(k)).hex() + " 100"])
    return out


def U01(ctx):
    b = builds(ctx)
    sc = model_scenarios(ctx, ctx.pick("MCUart.cfg", "MCUartT.cfg"), ctx.pick(2500, 40000))
    for plat, exe in b.items():
        go = lambda label, s: ctx.conform(exe, s, "UartTrace", f"{plat}: {label}", cfg="UartTrace_bytes.cfg")
        go("model scenarios", sc)
        go("random", random_recv(ctx, plat, ["until", "between"], ctx.pick(1200, 20000), True))
        if plat != "esp32 tick 10 ms" or ctx.thorough:
            go("long packets", long_ones(ctx, "until") + long_ones(ctx, "between"))


def U02(ctx):
    b = builds(ctx)
    sc = model_scenarios(ctx, ctx.pick("MCUart.cfg", "MCUartT.cfg"), ctx.pick(2500, 40000))
    for plat, exe in b.items():
        go = lambda label, s: ctx.conform(exe, s, "UartTrace", f"{plat}: {label}", cfg="UartTrace_time.cfg")
        go("model scenarios", sc)
        go("wrap-around", [s for op in ("receive", "until", "between") for s in wraps(ctx, plat, op)])
        if plat != "arduino":
            go("long time-outs", long_timeouts(ctx))
        go("random", random_recv(ctx, plat, ["receive", "until", "between"] + ["device"] * (plat != "arduino"), ctx.pick(1400, 22000), False))


def U03(ctx):
    b = builds(ctx)
    sc = model_scenarios(ctx, "MCUartR.cfg", ctx.pick(1500, 40000))
    for plat, exe in b.items():
        go = lambda label, s: ctx.conform(exe, s, "UartTrace", f"{plat}: {label}", cfg="UartTrace_plain.cfg")
        go("model scenarios", sc)
        go("random receptions", random_recv(ctx, plat, ["receive", "receive", "until", "between"] + ["device"] * (plat != "arduino"), ctx.pick(800, 20000), True))
        go("sending", sends(ctx, ctx.pick(300, 5000)))
        if plat != "esp32 tick 10 ms" or ctx.thorough:
            go("long receptions", long_ones(ctx, "receive"))


def U04(ctx):
    rng = ctx.rng
    exe = ctx.build("uartport", ["uartport_drv.cpp"], flags=["-I" + HARNESS + "/mock/esp32"], deps_from_repo=["esp32-esp-idf/SimpleUartDevice.cpp"])
    tr = [json.loads(t[0]) for t in ctx.model_check("MCUartPort", "MCUartPort.cfg", emit=True)]
    if len(tr) > ctx.pick(6000, 10**6):
        tr = rng.sample(tr, 6000)
    ctx.notes["model_scenarios_replayed"] = len(tr)
    baud = lambda: rng.choice([1, 300, 9600, 115200, 921600, 5000000, rng.randint(1, 2**31 - 1)])
    pin = lambda: rng.choice([-1, 0, 1, 3, rng.randint(0, 39)])
    out = []
    for h in tr:
        s = []
        for x in h:
            if x["fail"] == "x":
                s.append(f"X {x['port']}")
                continue
            if x["fail"]:
                s.append(f"F {x['fail']}")
            s.append(f"I {x['port']} {pin()} {pin()} {baud()}" + (" 7 1 4 3" if x["f"] == 7 else ""))
        out.append(s)
    ctx.conform(exe, out, "UartPortTrace", "esp32: model scenarios")
    every = [[f"I {p} {pin()} {pin()} {baud()}" + "".join(f" {x}" for x in (d, q, st, fl)[:k])] for p in range(3) for d in (5, 6, 7, 8)
             for q in range(3) for st in (2, 3, 4) for fl in range(4) for k in range(5)]
    ctx.conform(exe, every, "UartPortTrace", "esp32: every frame format")
    rnd = []
    for _ in range(ctx.pick(300, 5000)):
        s = []
        for _ in range(15):
            if rng.random() < 0.3:
                s.append(f"F {rng.choice('cpi')}")
            if rng.random() < 0.3:
                s.append(f"X {rng.randint(0, 2)}")
            s.append(f"I {rng.randint(0, 2)} {pin()} {pin()} {baud()} {rng.randint(5, 8)} {rng.randint(0, 2)} {rng.randint(2, 4)} {rng.randint(0, 3)}")
        rnd.append(s)
    ctx.conform(exe, rnd, "UartPortTrace", "esp32: random")
