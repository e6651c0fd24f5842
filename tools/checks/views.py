"""M01: memory views (Views.tla); E01: byte order (Endian.tla)."""
from mbv import *

HUGE = [2**64 - 1, 2**64 - 2, 2**63, 2**63 - 1, 2**32, 2**32 - 1, 2**32 + 1, 2**31, 10**9 + 7]
TYPES = ["u8", "char", "cchar", "cu8", "u16", "u32", "ci64", "u64", "cu16", "b3"]


def M01(ctx):
    tr = ctx.model_check("MCViews", "MCViews.cfg", emit=True)
    exe = ctx.build("views", ["views_drv.cpp"])
    rng = ctx.rng
    big = lambda n, near: str(rng.choice(HUGE + [2**64 - near, 2**64 - near - 1]) if n == 10**9 else n)
    scripts = []
    for ty in ctx.pick(["u8", "cchar", "u32"], TYPES):
        walks, cov = cover_walks(tr, lambda s: s["off"] == 0 and s["len"] == s["n"], max_len=60, rng=rng)
        ctx.notes["model_transitions_replayed"] = ctx.notes.get("model_transitions_replayed", 0) + cov
        for st, steps in walks:
            s = [f"N {ty} {rng.choice('prpr' + ('ac' if st['n'] == 5 else ''))} {st['n']} {rng.randint(0, 99)}"]
            for a, to in steps:
                k = a["a"]
                near = rng.randint(1, 8)
                s.append({"first": lambda: "F " + big(a["n"], near), "last": lambda: "L " + big(a["n"], near),
                          "rest": lambda: "R " + big(a["o"], near), "mid": lambda: f"M {big(a['o'], near)} {big(a['n'], near)}",
                          "whole": lambda: "W"}[k]())
            scripts.append(s)
    ctx.conform(exe, scripts, "ViewsTrace", "model transitions")
    num = lambda n: rng.choice([rng.randint(0, n + 2), rng.randint(0, n + 2), rng.choice(HUGE), 2**64 - rng.randint(1, n + 2), n])
    rnd = []
    for _ in range(ctx.pick(600, 12000)):
        n = rng.choice([0, 1, 5, rng.randint(0, 40)])
        s = [f"N {rng.choice(TYPES)} {rng.choice('prpr' + ('ac' if n == 5 else ''))} {n} {rng.randint(0, 9999)}"]
        for _ in range(14):
            s.append(rng.choice([f"F {num(n)}", f"L {num(n)}", f"R {num(n)}", f"M {num(n)} {num(n)}", f"M {num(n // 2)} {num(n)}", "W"]))
        rnd.append(s)
    ctx.conform(exe, rnd, "ViewsTrace", "random sub-views")
    large = []
    for ty in TYPES:
        for n in [255, 256, 257, 32768, 65535, 65536, 65537, 131072, rng.randint(300, 140000)] * ctx.pick(1, 4):
            part = lambda: rng.choice([rng.randint(0, n), n, n - 1, n + 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, n - 255, n - 256, max(0, n - 65536), num(n)])
            s = [f"B {ty} {rng.choice('pr')} {n}"]
            for _ in range(8):
                s.append(rng.choice([f"F {part()}", f"L {part()}", f"R {part()}", f"M {part()} {part()}", f"M {rng.randint(0, 300)} {part()}", "W"]))
            large.append(s)
    ctx.conform(exe, large, "ViewsTrace", "large views")


def E01(ctx):
    ctx.model_check("MCEndian", "MCEndian.cfg")
    exe = ctx.build("views", ["views_drv.cpp"])
    rng = ctx.rng
    scripts = []
    def add(fn, vals):
        for i in range(0, len(vals), 512):
            scripts.append([f"E {fn} " + " ".join(map(str, vals[i:i + 512]))])
    add("u16", list(range(65536)))
    add("u16twice", list(range(0, 65536, ctx.pick(7, 1))))
    w = [1 << i for i in range(32)] + [(1 << i) | (1 << j) for i in range(32) for j in range(i)]
    w += [b << (8 * p) for p in range(4) for b in range(256)] + [0xffffffff ^ (b << (8 * p)) for p in range(4) for b in range(256)]
    k = rng.randint(2, 126)
    w += [a | b << 8 | c << 16 | d << 24 for al in [(0, 1, k, 127, 128, 255)] for a in al for b in al for c in al for d in al]
    for _ in range(ctx.pick(6000, 150000)):
        w.append(rng.getrandbits(32))
    w += [0, 0xffffffff, 0x7f800001, 0x0100807f, 0xc07f0000, 0x0000807f]
    for fn in ("u32", "u32twice", "float", "x2", "x2twice"):
        add(fn, w)
    if ctx.thorough:
        exe2 = ctx.build("views", ["views_drv.cpp"], opt="-O2", asan=False)
        ctx.conform(exe2, scripts, "EndianTrace", "values, -O2")
    ctx.conform(exe, scripts, "EndianTrace", "values")
