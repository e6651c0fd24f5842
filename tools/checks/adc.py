"""A01: analog reads of both platforms (Adc.tla)."""
from mbv import *

INC = "-I" + HARNESS + "/mock/"
WITH = [36, 37, 38, 39, 32, 33, 34, 35, 4, 0, 2, 15, 13, 12, 14, 27, 25, 26]


def builds(ctx):
    return ctx.parallel({
        "arduino": lambda: ctx.build("adc_a", ["adc_drv.cpp"], flags=["-DMBV_ARDUINO", INC + "arduino"], deps_from_repo=["arduino/AnalogPin.cpp"]),
        "esp32": lambda: ctx.build("adc_e", ["adc_drv.cpp"], flags=[INC + "esp32"], deps_from_repo=["esp32-esp-idf/AnalogPin.cpp"]),
        "esp32-old": lambda: ctx.build("adc_o", ["adc_drv.cpp", "adc_gcc8.cpp"], flags=[INC + "esp32"])})


def A01(ctx):
    rng = ctx.rng
    b = builds(ctx)
    tr = [json.loads(t[0]) for t in ctx.model_check("MCAdc", "MCAdc.cfg", emit=True)]
    ctx.notes["model_scenarios_replayed"] = len(tr)
    model = []
    for h in tr:
        other = {36: rng.choice(WITH[:8]), 4: rng.choice(WITH[8:]), 5: rng.choice([1, 3, 5, 16, 40, 255])}
        s = [f"D {other[p]}" for p in (36, 4, 5)]
        for x in h:
            s += ([f"F {x['fail']}"] if x["fail"] else []) + [f"r {[36, 4, 5].index(x['pin'])}"]
        model.append(s)
    every = [[f"D {p}"] + [x for v in (0, 1, 4095, rng.randint(0, 4095)) for x in (f"V {v}", "r 0")] + [f"F {k}" for k in "ncr"] + ["r 0", "r 0"] for p in range(256)]
    rnd = []
    for _ in range(ctx.pick(300, 6000)):
        n = rng.randint(1, 5)
        s = [f"D {rng.choice(WITH) if rng.random() < 0.85 else rng.randint(0, 255)}" for _ in range(n)]
        for _ in range(25):
            if rng.random() < 0.35:
                s.append(f"F {rng.choice('ncr')}")
            s.append(f"r {rng.randrange(n)}")
        rnd.append(s)
    for plat, exe in b.items():
        go = lambda label, s: ctx.conform(exe, s, "AdcTrace", f"{plat}: {label}", cfg=f"AdcTrace_{plat}.cfg")
        go("model scenarios", model)
        go("every pin", every)
        go("random", rnd)
