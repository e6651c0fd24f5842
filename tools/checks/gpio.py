"""D01: digital pins and chip selectors of both platforms (Gpio.tla)."""
from mbv import *

INC = "-I" + HARNESS + "/mock/"


def builds(ctx):
    return ctx.parallel({
        "arduino": lambda: ctx.build("gpio_a", ["gpio_drv.cpp"], flags=["-DMBV_ARDUINO", INC + "arduino"], deps_from_repo=["arduino/GpioDigitalPin.cpp"]),
        "esp32": lambda: ctx.build("gpio_e", ["gpio_drv.cpp"], flags=["-fsanitize=shift", "-fno-sanitize-recover=shift", INC + "esp32"],
                                   deps_from_repo=["esp32-esp-idf/GpioDigitalPin.cpp"], libs=["-lubsan"])})


def command(c, obj, rng):
    o, op = obj[c["pin"]], c["op"]
    if op == "init":
        d, p = {"input": "i", "output": "o"}[c["dir"]], "u" if c["up"] else "d" if c["down"] else "n"
        if p == "n" and rng.random() < 0.5:
            return f"i {o} - -" if d == "o" and rng.random() < 0.5 else f"i {o} {d} -"
        return f"i {o} {d} {p}"
    if op in ("set", "reset"):
        return rng.choice([f"{'h' if op == 'set' else 'l'} {o}", f"v {o} {int(op == 'set')}"])
    return {"check": f"k {o}", "select": f"s {o}", "deselect": "u"}[op]


def D01(ctx):
    rng = ctx.rng
    b = builds(ctx)
    tr = ctx.model_check("MCGpio", "MCGpio.cfg", emit=True)
    walks, cov = cover_walks(tr, lambda s: s["sel"] == [] and all(p["dir"] == "none" and p["level"] == -1 for p in s["pads"]), max_len=80, rng=rng)
    ctx.notes["model_transitions_replayed"] = cov
    EXIST = [p for p in range(40) if p not in (20, 24, 28, 29, 30, 31)]
    for plat, exe in b.items():
        go = lambda label, s: ctx.conform(exe, s, "GpioTrace", f"{plat}: {label}", cfg=f"GpioTrace_{plat}.cfg")
        scripts = []
        for st, steps in walks:
            pins = rng.sample([p for p in EXIST if p < 34], 2)
            s = [f"D {p}" for p in pins]
            for a, _ in steps:
                c = a["c"]
                if c["op"] == "check":
                    s += [f"O {pins[c['pin'] - 1]} {a['looked'][0]}", f"O {pins[2 - c['pin']]} {rng.randint(0, 1)}"]
                if c["op"] == "init" and plat == "esp32":
                    s.append(f"F {int(a['ok'])}")
                s.append(command(c, {1: 0, 2: 1}, rng))
            scripts.append(s)
        go("model transitions", scripts)
        # every pin number, every mode
        allpins = [[f"D {p}"] + [x for d in "io" for u in "udn-" for x in (f"i 0 {d} {u}", "h 0", "k 0", f"O {p} 1", "k 0", f"O {p ^ 1} 0", "k 0", "l 0", "s 0", "u", f"O {p} 0", f"O {p ^ 1} 1", "k 0", "v 0 1", "v 0 0")] for p in range(256)]
        go("every pin", allpins)
        rnd = []
        for _ in range(ctx.pick(150, 4000)):
            n = rng.randint(1, 6)
            pins = [rng.choice(EXIST) if rng.random() < 0.8 else rng.randint(0, 255) for _ in range(n)]  # two objects may share a pin
            s, sel = [f"D {p}" for p in pins], []
            for _ in range(60):
                if rng.random() < 0.3:
                    s.append(f"O {rng.choice(pins)} {rng.randint(0, 1)}")
                if rng.random() < 0.1 and plat == "esp32":
                    s.append("F 0")
                k = rng.random()
                if k < 0.2 and len(sel) < 4:
                    sel.append(rng.randrange(n))
                    s.append(f"s {sel[-1]}")
                elif k < 0.4 and sel:
                    sel.pop()
                    s.append("u")
                else:
                    s.append(command({"op": rng.choice(["init", "set", "reset", "check"]), "pin": rng.randrange(n), "dir": rng.choice(["input", "output"]), "up": rng.random() < 0.4, "down": rng.random() < 0.5}, range(n), rng))
            rnd.append(s)
        go("random", rnd)
