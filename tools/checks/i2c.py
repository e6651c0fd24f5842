"""I01, I02: I2C of both platforms (I2c.tla)."""
from mbv import *

INC = "-I" + HARNESS + "/mock/"
LENGTHS = [0, 1, 2, 3, 4, 16, 31, 32, 33, 127, 128, 129, 255, 256, 257, 300, 1000]


def builds(ctx):
    return ctx.parallel({
        "arduino": lambda: ctx.build("i2c_a", ["i2c_drv.cpp"], flags=["-DMBV_ARDUINO", INC + "arduino"], deps_from_repo=["arduino/I2CBus.cpp", "arduino/I2CDevice.cpp"]),
        "esp32": lambda: ctx.build("i2c_e", ["i2c_drv.cpp"], flags=[INC + "esp32"], deps_from_repo=["esp32-esp-idf/I2CBus.cpp", "esp32-esp-idf/I2CDevice.cpp"])})


def hx(rng, n):
    return "h" + bytes(rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(n)).hex()


def new(rng):
    return [f"Z {rng.randint(1, 10**9)}", f"N {rng.choice([0, 1])} {rng.choice([1, 0x3c, 0x76, 0x7f, rng.randint(1, 127)])} {rng.choice([-1, 0, 1, 9, 10, 200, 5000, 40000, 65536, 70000, 1000000])}"]


def call(rng, op, k, n):
    return {"send": lambda: f"s {hx(rng, k)}", "receive": lambda: f"g {n}", "both": lambda: f"b {hx(rng, k)} {n}"}[op]()


def I01(ctx):
    rng = ctx.rng
    b = builds(ctx)
    tr = [json.loads(t[0]) for t in ctx.model_check("MCI2c", "MCI2c.cfg", emit=True)]
    ctx.notes["model_scenarios_replayed"] = len(tr)
    model = [new(rng) + [f"F {a} {n} {r}" for a, n, r in x["outs"]] + [call(rng, x["op"], x["k"], x["n"])] for x in tr]
    rnd = []
    for _ in range(ctx.pick(500, 10000)):
        s = new(rng)
        for _ in range(rng.randint(1, 6)):
            k, n = rng.choice(LENGTHS), rng.choice(LENGTHS)
            for m in (k, n):
                if rng.random() < 0.6:
                    part = lambda: rng.choice([-1, -1, 0, 1, max(0, m - 1), m, 32, 128])
                    s.append(f"F {int(rng.random() < 0.8)} {part()} {part()}")
            s.append(call(rng, rng.choice(["send", "receive", "both"]), k, n))
        rnd.append(s)
    whole = [new(rng) + [call(rng, op, k, k)] for op in ("send", "receive", "both") for k in list(range(0, 70)) + LENGTHS]
    huge = [new(rng) + ([f"F 1 {part} {part}"] if part else []) + [call(rng, op, k, k)] for op in ("send", "receive", "both") for k in (32767, 32768, 40000, 65535)
            for part in (0, k - 1, k - 32768)]
    for plat, exe in b.items():
        go = lambda label, s: ctx.conform(exe, s, "I2cTrace", f"{plat}: {label}")
        # a zero-length transfer is not defined for the ESP-IDF driver
        fit = (lambda s: s) if plat == "arduino" else (lambda s: [x for x in s if not any(re.match(r"s h$|g 0$|b h |b .* 0$", c) for c in x)])
        go("model scenarios", fit(model))
        go("random", fit(rnd))
        go("every length", fit(whole))
        go("longest", huge)


def I02(ctx):
    rng = ctx.rng
    b = builds(ctx)
    ctx.model_check("MCI2c", "MCI2c.cfg")
    go = lambda plat, s: ctx.conform(b[plat], s, "I2cTrace", f"{plat}: bus operations")
    go("arduino", [["N 0 60 -1"] + [x for _ in range(3) for x in (f"F {a} -1 {r}", "r", "s h0102")] for a in (0, 1) for r in (-1, 0)])
    sc = []
    for port in (0, 1):
        sc += [[f"N {port} 5 -1", f"F {ack} -1 -1", f"p {a}", f"p {a}"] for a in range(128) for ack in (0, 1)]
        for _ in range(ctx.pick(200, 3000)):
            s = [f"N {port} 5 -1"]
            for _ in range(4):
                s += [f"F {int(rng.random() < 0.7)} -1 -1" for _ in range(2)]
                s.append(rng.choice(["r", f"p {rng.randint(0, 127)}", f"i {rng.randint(0, 39)} {rng.randint(0, 39)} {rng.choice([100000, 400000, 1000000, 3400000, 5000000, 65536, 1, 2**31 - 1, rng.randint(1, 2**31 - 1)])} {rng.choice(['0 0', '0 1', '1 0', '1 1'])}"]))
            sc.append(s)
    go("esp32", sc)
