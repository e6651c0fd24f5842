"""W01: delays, clocks and sleeps (Timing.tla)."""
from mbv import *

INC = "-I" + HARNESS + "/mock/"
U32 = 2 ** 32


def builds(ctx):
    return ctx.parallel({
        "arduino": lambda: ctx.build("tm_a", ["timing_drv.cpp"], flags=["-DMBV_ARDUINO", INC + "arduino"], deps_from_repo=["arduino/Delays.cpp"]),
        "esp32": lambda: ctx.build("tm_e", ["timing_drv.cpp"], flags=[INC + "esp32"], deps_from_repo=["esp32-esp-idf/Delays.cpp"])})


def start(rng, ahead, plat):
    """The clock at a random distance (up to `ahead` microseconds) before something interesting."""
    points = [0, U32, U32 * 1000, 2 * U32 * 1000, 2 ** 31, 2 ** 31 * 1000] + [rng.randint(0, U32 * 2000)] * 2
    t = max(0, rng.choice(points) - rng.randint(0, max(1, ahead)))
    return f"C {t // 10**6} {t % 10**6}"


def some(rng, n):
    """Numbers of every size up to n."""
    r = rng.random()
    if r < 0.3:
        return rng.randint(0, 30)
    if r < 0.85:
        return min(n, rng.randint(0, 2 ** rng.randint(1, n.bit_length())))
    return n - rng.randint(0, 3) if r < 0.93 else min(n, rng.choice([4294967, 4294968, 2147483647, 2147483648, 2 ** 22, 2 ** 24, 65535, 65536]))


def W01(ctx):
    rng = ctx.rng
    b = builds(ctx)
    tr = [json.loads(t[0]) for t in ctx.model_check("MCSleep", "MCSleep.cfg", emit=True)]
    ctx.notes["model_scenarios_replayed"] = len(tr)
    model = []
    for x in tr:
        u = rng.choice([1, 1000, 1000, 10 ** 6]) if x["op"] == "lightSleep" else rng.choice([1, 50])
        s = [start(rng, 1000 * u * (x["n"] + 2), "esp32"), f"J {rng.choice([0, 0, 3, 200])} {rng.randint(1, 99999)}"]
        if x["at"] >= 0:
            s.append(f"P {x['at']} {x['pause'] * u * rng.choice([1, 400, 1000])}")
        s += [f"S {ok} {err * u * 1000}" for ok, err in x["outs"]]
        s.append(f"l {x['n'] * u}" if x["op"] == "lightSleep" else f"u {x['n'] * u}")
        model.append(s)
    ctx.conform(b["esp32"], model, "TimingTrace", "esp32: model scenarios", cfg="TimingTrace_esp32.cfg")
    for plat, exe in b.items():
        rnd = []
        for _ in range(ctx.pick(1500, 30000)):
            s = [f"J {rng.choice([0, 0, 1, 20, 3000])} {rng.randint(1, 99999)}"]
            span = 10 ** rng.randint(1, 10)
            s.append(start(rng, span, plat))
            for _ in range(rng.randint(1, 6)):
                op = rng.choice("dumMlD" if plat == "esp32" else "dumM")
                if rng.random() < 0.5:
                    s.append(f"P {rng.randint(0, 6)} {rng.randint(1, 10 ** rng.randint(1, 7))}")
                if op == "l":
                    for _ in range(rng.randint(0, 3)):
                        s.append(f"S {int(rng.random() < 0.7)} {rng.choice([0, -1, 1]) * rng.randint(0, 10 ** rng.randint(1, 7))}")
                s.append(op if op in "mM" else f"{op} {some(rng, 10 ** 7 if op == 'u' else U32 - 1)}")
                if rng.random() < 0.3:
                    s.append(f"A {rng.randint(0, span)}")
            rnd.append(s)
        ctx.conform(exe, rnd, "TimingTrace", f"{plat}: random", cfg=f"TimingTrace_{plat}.cfg")
        huge = [[start(rng, 10 ** 9, plat), f"{op} {U32 - k}"] for op in ("ud" if plat == "arduino" else "udlD") for k in (1, 2, 1000)]
        ctx.conform(exe, huge, "TimingTrace", f"{plat}: longest times", cfg=f"TimingTrace_{plat}.cfg")
