"""L01: serial text output of both platforms (SerialOut.tla)."""
from mbv import *
from checks.text import hx, number, flt
from checks.uart import ARDUINO, ESP


def builds(ctx):
    return ctx.parallel({
        "arduino": lambda: ctx.build("serial_a", ["serial_drv.cpp"], flags=["-DMBV_ARDUINO", "-DDEBUG_SERIAL_OUT", "-I" + HARNESS + "/mock/arduino"],
                                     deps_from_repo=ARDUINO + ["arduino/Serial*.cpp", "BufferedOut.cpp"]),
        "esp32": lambda: ctx.build("serial_e", ["serial_drv.cpp"], flags=["-DDEBUG_SERIAL_OUT", "-I" + HARNESS + "/mock/esp32"],
                                   deps_from_repo=ESP + ["esp32-esp-idf/Serial*.cpp", "BufferedOut.cpp"])})


def op(rng):
    x = rng.random()
    rb = lambda n: bytes(rng.choice([rng.randint(1, 255), rng.randint(97, 122), 10]) for _ in range(n))
    if x < 0.22:
        return "z " + hx(rb(rng.randint(0, 9) if rng.random() < 0.9 else rng.randint(0, 400)))
    if x < 0.40:
        return number(rng)
    if x < 0.47:
        return f"b {rng.randint(0, 255)}"
    if x < 0.54:
        return "B " + hx(bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 7))))
    if x < 0.64:
        return flt(rng)
    if x < 0.72:
        return f"p {rng.choice([0, 1, 2, 3, 6, 12])}"
    return rng.choice("ELL")


def L01(ctx):
    b = builds(ctx)
    tr = ctx.model_check("MCSerial", "MCSerial.cfg", emit=True)
    ws, cov = cover_walks(tr, lambda s: s["len"] == 0 and s["p"] == 0, max_len=100, rng=ctx.rng)
    ctx.notes["model_transitions_replayed"] = cov
    walks = []
    for st, steps in ws:
        s = [f"N {st['cap']}"]
        for a, _ in steps:
            s.append({"str": lambda: "z " + hx(a["s"]), "int": lambda: "i int " + bytes(a["s"]).decode(), "byte": lambda: f"b {a['c']}",
                      "bytes": lambda: "B " + hx(a["s"]), "prec": lambda: f"p {a['c']}", "end": lambda: "E", "endl": lambda: "L",
                      "float": lambda: f"f {int(a['g'])} {bytes(a['s']).decode()} {a['r']} {a['k']}"}[a["a"]]())
        walks.append(s + ["E"])
    rng = ctx.rng
    rand = []
    for _ in range(ctx.pick(400, 8000)):
        cap = rng.choice([1, 2, rng.randint(1, 12), rng.randint(8, 40), 128, 600, rng.randint(256, 1200)])
        rand.append([f"N {cap}"] + [op(rng) for _ in range(30)] + ["E"])
    full = []
    for cap in [*range(1, 40), 255, 256, 257, 300, 512, 700]:     # the buffer exactly full, one short and overfull at each kind of marker
        for n in {max(0, cap - 1), cap, cap + 1, cap + 7}:
            for m in "EL":
                full.append([f"N {cap}", "p 2", "z " + hx(bytes(97 + i % 26 for i in range(n))), m, m, "f 0 1 1 2", "z h41", m, m])
    large = []                                    # more text than fits the size of a single send
    for cap, n in [(65535, 65535), (65536, 65535), (65536, 65536), (65537, 65537), (70000, 66000), (131075, 131070)]:
        for m in ctx.pick(["L"], "EL"):
            large.append([f"N {cap}", "z " + hx(bytes(97 + (i * i) % 26 for i in range(n // 2))), "z " + hx(bytes(65 + (i // 7) % 26 for i in range(n - n // 2))), m, "z h41", "L"])
    dbg = []
    for _ in range(ctx.pick(60, 1000)):
        s = ["M"]
        for _ in range(8):
            s.append(op(rng) if rng.random() < 0.5 else f"D {hx(bytes(rng.randint(1, 255) for _ in range(rng.choice([0, 3, 20, 127, 128, 129, 200]))))} {number(rng)[2:]}")
        dbg.append(s + ["L"])
    for plat, exe in b.items():
        go = lambda label, s: ctx.conform(exe, s, "SerialTrace", f"{plat}: {label}")
        go("model transitions", walks)
        go("random", rand)
        go("full buffers", full)
        go("debug log", dbg)
        go("very large buffers", large)
