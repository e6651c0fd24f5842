"""S01-S05: the persistent object store (Storage.tla, PSMem.tla)."""
from mbv import *

SRC = ["*.cpp"]
SIZES_SMALL = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16]
SIZES_MORE = SIZES_SMALL + [24, 32, 58, 100, 250, 257, 260, 264, 506]
TWINS = [[1, 257], [4, 260], [8, 264], [250, 506]]      # alike in the lower byte
NAMES = ["", "a", "b", "ab", "abc", "abcd", "abce", "bcd", "A", " ", "\x01", "\xff\xfe", "zzzz", "\x80bcd", "ba", "d\x7f"]
# zero characters inside a name are part of it (at its end they are not: the format pads names with zeros)
ZEROS = ["a\0b", "a\0c", "\0a", "\0\0a", "a\0\0b", "\0\0\0a", "ab\0c", "\0b"]
FAMILIES = [["a", "ab", "abc", "abcd"], ["", "a", "a\0b", "a\0\0b"], ["", "\0a", "\0\0a", "\0\0\0a"], ["ab", "ab\0c", "a\0c", "a"],
            ["b", "\0b", "ab", "a\0b"]]
LONG = ["abcde", "abcdef", "abcd\x01", "zzzzzzzzzzzzzzzz", "a" + "\0" * 7, "abcd\0", "q" * 255, "a" * 256, "b" + "\0" * 256, "abcd" + "x" * 256]


def h(s):
    return "h" + s.encode("latin1").hex()


def hk(k):
    return "h" + bytes(k).hex()


def build(ctx, crash=False, opt="-O1"):
    if crash:
        return ctx.build("ps", ["ps_drv.cpp"], flags=["-DCRASH_BUILD"], asan=False, opt=opt, deps_from_repo=SRC)
    return ctx.build("ps", ["ps_drv.cpp"], opt=opt, deps_from_repo=SRC)


def design(ctx, dirty=False):
    """Exhaustive model checking of the design, returns the transitions of the abstract store."""
    ctx.model_check("PSMem", "PSMem%s%s.cfg" % ("Dirty" if dirty else "Clean", ctx.pick("Q", "")), timeout=1500)
    if not dirty:
        return ctx.model_check("MCStorage", "MCStorage.cfg", emit=True)


def walk_scripts(ctx, trans, twin=0, crash=False, max_len=60, limit=None, extra_reopen=False):
    """Replay every transition of the abstract model on the code."""
    walks, covered = cover_walks(trans, lambda s: not s["recs"], max_len=max_len, rng=ctx.rng)
    ctx.notes["model_transitions_replayed"] = covered
    labels = [json.loads(a) for a in {t[1] for t in trans}]
    keys = sorted({tuple(a["k"]) for a in labels if a["a"] == "set"})
    sizes = sorted({a["n"] for a in labels if a["a"] == "set"})
    uni = "U " + " ".join(f"{hk(k)} {n}" for k in keys for n in sizes)
    if limit and len(walks) > limit:
        walks = ctx.rng.sample(walks, limit)
        ctx.notes["model_transitions_replayed"] = sum(len(w) for _, w in walks)
    out = []
    for i, (start, steps) in enumerate(walks):
        s = [uni, f"O {start['cap']} {i % 7} 1 {twin}"]
        for a, _ in steps:
            if a["a"] == "set":
                s.append(f"{'X' if crash else 'S'} {hk(a['k'])} {a['n']} {a['v']}")
            else:
                s.append("R" if a["a"] == "reopen" else "I")
        out.append(s)
    return out


def random_script(rng, n, twin=0, crash=False, sizes=SIZES_SMALL, caps=None, reopen=0.15, clear=0.02, long=0.1,
                  garbage=None):
    names = rng.sample(NAMES + ZEROS, rng.randint(2, 7))
    if rng.random() < 0.6:
        names += rng.choice(FAMILIES)[:rng.randint(1, 4)]
    names = sorted(set(names))
    szs = rng.sample(sizes, min(len(sizes), rng.randint(1, 4)))
    if sizes is SIZES_MORE and rng.random() < 0.3:
        szs = sorted({*szs[:1], *rng.choice(TWINS)})
    ln = rng.sample(LONG, 2) if rng.random() < 0.5 else []
    pairs = [(k, s) for k in names + ln for s in szs]
    if len(pairs) > 24:
        pairs = rng.sample(pairs, 24)
    need = sum(6 + s for _, s in pairs)
    cap = rng.choice(caps) if caps else rng.choice([rng.randint(0, 40), rng.randint(0, need + 8), need, need - 1,
                                                    rng.randint(need // 2, need + 1)])
    s = ["U " + " ".join(f"{h(k)} {z}" for k, z in pairs)]
    if garbage is not None:
        s.append("P " + "h" + garbage(rng, max(cap, 0), pairs).hex())
    else:
        s.append(f"O {max(cap, 0)} {rng.randint(0, 1000)} 1 {twin}")
    short = [p for p in pairs if len(p[0]) <= 4] or pairs
    for _ in range(n):
        x = rng.random()
        if x < reopen:
            s.append("R")
        elif x < reopen + clear:
            s.append("I")
        else:
            k, z = rng.choice(pairs if rng.random() < long else short)
            s.append(f"{'X' if crash else 'S'} {h(k)} {z} {rng.randint(0, 255) if rng.random() < 0.7 else rng.randint(253, 255)}")
    return s


def systematic_caps():
    """Every capacity around every small fill level: exact fits, one byte less, one more."""
    out = []
    for cap in list(range(0, 64)):
        for za, zb, zc in ((1, 2, 1), (8, 4, 5), (3, 3, 3), (16, 1, 7)):
            u = f"U h61 {za} h62 {zb} h6163 {zc} h 1 h61 {zb + 1} h6162636465 1"
            out.append([u, f"O {cap} {cap % 5} 1 0", f"S h61 {za} 10", f"S h62 {zb} 20", f"S h61 {za} 11", "R",
                        f"S h6163 {zc} 30", "S h 1 40", "R", f"S h61 {zb + 1} 50", "S h6162636465 1 60",
                        f"S h62 {zb} 21", f"S h6163 {zc} 31", "S h 1 41", "R"])
    return out


def big_scripts():
    """Objects around and above the longest record."""
    out = []
    for cap in (65534, 65535, 65536, 65537, 65545, 131072, 131080, 140000, 200000):
        for n in (65528, 65529, 65530, 65531, 65532, 65537, 65540, 70000, 131066):
            u = f"U h61 {n} h62 {n} h63 7 h64 7 h61 7 h61 65529"
            out.append([u, f"O {cap} 3 1 1", "S h63 7 5", f"S h61 {n} 1", "S h64 7 9", "R", f"S h61 {n} 2",
                        f"S h62 {n} 3", "S h61 7 8", "R", "S h63 7 6", "R"])
            if n > 65530 and cap > 66000:       # the longest sizes seen through sixteen bits
                k = {65537: 1, 65540: 4}.get(n, 7)
                out.append([f"U h61 {n} h61 {k} h62 {k}", f"O {cap} 3 1 1", f"S h61 {k} 1", f"S h61 {n} 2", "R", f"S h62 {k} 3", f"S h61 {n} 4", "R"])
            out.append([u, f"O {cap} 0 1 0", f"S h61 {n} 1", "R", f"S h62 {n} 3", "S h64 7 4", f"S h61 {n} 9", "R"])
    return out


def many_records(rng, twin):
    """Regions filled with a long chain of records (beyond 64 KiB in total as well)."""
    names = [bytes([a, b]).decode("latin1") for a in range(97, 117) for b in range(97, 113)]
    out = []
    for cap, z in ((300 * 7, 1), (300 * 106 - 1, 100), (300 * 1006, 1000), (100000, 1000), (66000, 1000)):
        ns = rng.sample(names, 300)
        look = rng.sample(ns, 8) + ns[:2] + ns[-2:]
        s = ["U " + " ".join(f"{h(k)} {z}" for k in sorted(set(look))), f"O {cap} 1 1 {twin}"]
        for i, k in enumerate(ns):
            s.append(f"S {h(k)} {z} {i % 251}")
            if i % 40 == 39:
                s.append("R")
        s.append("R")
        for k in look:
            s.append(f"S {h(k)} {z} {rng.randint(0, 255)}")
        s.append("R")
        out.append(s)
    return out


def S01(ctx):
    trans = design(ctx)
    exe = build(ctx)
    cfg = "StorageTraceS01.cfg"
    ctx.conform(exe, walk_scripts(ctx, trans, limit=ctx.pick(500, None)), "StorageTrace", "model transitions", cfg=cfg)
    ctx.conform(exe, [random_script(ctx.rng, 60, reopen=0.08, sizes=SIZES_MORE) for _ in range(ctx.pick(250, 4000))],
                "StorageTrace", "random histories", cfg=cfg)
    ctx.conform(exe, [random_script(ctx.rng, 60, reopen=0.05, clear=0, caps=[300, 1000], long=0) for _ in range(ctx.pick(120, 2000))],
                "StorageTrace", "random histories, ample space", cfg=cfg)
    ctx.conform(exe, many_records(ctx.rng, 0), "StorageTrace", "long chains", cfg=cfg)
    if ctx.thorough:
        exe = build(ctx, opt="-O2")
        ctx.conform(exe, [random_script(ctx.rng, 80, sizes=SIZES_MORE) for _ in range(2000)], "StorageTrace", "-O2", cfg=cfg)


def S02(ctx):
    trans = design(ctx)
    exe = build(ctx)
    cfg = "StorageTraceS02.cfg"
    ctx.conform(exe, walk_scripts(ctx, trans, twin=1, limit=ctx.pick(400, None)), "StorageTrace", "model transitions", cfg=cfg)
    # re-open after every single operation
    dense = []
    for _ in range(ctx.pick(250, 4000)):
        s = random_script(ctx.rng, 40, twin=1, reopen=0, clear=0.02)
        dense.append([x for c in s for x in ([c, "R"] if c[0] == "S" else [c])])
    ctx.conform(exe, dense, "StorageTrace", "re-opened after every store", cfg=cfg)
    ctx.conform(exe, [random_script(ctx.rng, 60, twin=1, reopen=0.25, clear=0.05, sizes=SIZES_MORE) for _ in range(ctx.pick(250, 4000))],
                "StorageTrace", "random histories", cfg=cfg)
    ctx.conform(exe, many_records(ctx.rng, 1), "StorageTrace", "long chains", cfg=cfg)
    ctx.conform(exe, [[l[:-1] + "1" if l[0] == "O" else l for l in s] for s in systematic_caps()], "StorageTrace",
                "exact fits", cfg=cfg)
    ctx.conform(exe, big_scripts(), "StorageTrace", "large objects", cfg=cfg)


def S03(ctx):
    trans = design(ctx)
    exe = build(ctx)
    cfg = "StorageTraceS03.cfg"
    ctx.conform(exe, walk_scripts(ctx, trans, limit=ctx.pick(500, None)), "StorageTrace", "model transitions", cfg=cfg)
    ctx.conform(exe, systematic_caps(), "StorageTrace", "exact fits", cfg=cfg)
    ctx.conform(exe, big_scripts(), "StorageTrace", "large objects", cfg=cfg)
    ctx.conform(exe, [random_script(ctx.rng, 60, sizes=SIZES_MORE, long=0.3) for _ in range(ctx.pick(300, 4000))],
                "StorageTrace", "random histories", cfg=cfg)
    ctx.conform(exe, many_records(ctx.rng, 0), "StorageTrace", "long chains", cfg=cfg)


def S04(ctx):
    trans = design(ctx)
    cfg = "StorageTraceS04.cfg"
    points = images = 0
    for opt in ctx.pick(["-O0"], ["-O0", "-O1", "-O2", "-Os", "-O3"]):
        exe = build(ctx, crash=True, opt=opt)
        for label, scripts in (
            ("model transitions, reset after every write " + opt,
             walk_scripts(ctx, trans, crash=True, max_len=30, limit=ctx.pick(300, 2500))),
            ("random histories, reset after every write " + opt,
             [random_script(ctx.rng, 25, crash=True, reopen=0.1) for _ in range(ctx.pick(120, 1200))]),
            ("larger objects, reset after every write " + opt,
             [random_script(ctx.rng, 12, crash=True, sizes=[12, 24, 32, 58, 100]) for _ in range(ctx.pick(40, 300))])):
            _, tr = ctx.conform(exe, scripts, "StorageTrace", label, cfg=cfg)
            points += sum(e.get("points", 0) for t in tr for e in t)
            images += sum(len(e.get("images", [])) for t in tr for e in t)
    if not points or not images:
        raise CheckError("no reset point was reached")
    ctx.notes.update(crash_points=points, crash_images_checked=images)
    ctx.assumptions.append("a reset leaves exactly the writes executed so far; the memory has no write-back cache that "
                           "reorders them; each machine store (single-stepped, as compiled by the installed compiler at "
                           "the optimisation levels listed) is atomic")


def garbage_region(rng, cap, pairs):
    """Arbitrary contents: noise, mostly zeros, chains of plausible records with random sizes and names, cut short."""
    mode = rng.randint(0, 5)
    if mode == 0:
        return bytes(rng.randint(0, 255) for _ in range(cap))
    if mode == 1:
        return bytes(rng.choice([0, 0, 0, 1, 2, 6, 7, 8, 255]) for _ in range(cap))
    if mode == 2:
        return bytes([rng.choice([0, 1, 5, 6, 7, 8, 97, 255])]) * cap
    b = bytearray(rng.choice([0, 0, rng.randint(0, 255)]) for _ in range(cap))
    pos = 0
    while pos + 2 <= cap:
        k, z = rng.choice(pairs)
        size = rng.choice([6 + z, 6 + z, 6 + z, 6, 5, 1, 2, 7, cap - pos, cap - pos + 1, cap - pos - 1, 0, 65535, rng.randint(0, 40)]) & 0xffff
        rec = size.to_bytes(2, "little") + k.encode("latin1")[:4].ljust(4, rng.choice([b"\0", b"\0", b"x"])) + bytes(rng.randint(0, 255) for _ in range(z))
        b[pos:min(cap, pos + len(rec))] = rec[:cap - pos]
        if size == 0 or rng.random() < 0.05:
            break
        pos += size
    return bytes(b)


def S05(ctx):
    design(ctx, dirty=True)
    exe = build(ctx)
    mk = lambda n, m: [random_script(ctx.rng, n, reopen=0.3, clear=0.01, garbage=garbage_region,
                                     sizes=ctx.rng.choice([[1, 2], SIZES_SMALL, SIZES_MORE])) for _ in range(m)]
    ctx.conform(exe, mk(25, ctx.pick(1500, 20000)), "StorageGarbageTrace", "arbitrary contents")
    # every content of very small regions over an alphabet of critical bytes
    small = []
    import itertools
    alpha = [0, 1, 6, 7, 8, 97, 255]
    u = "U h 1 h61 1 h61 2 h6162 1"
    for cap in range(0, 4):
        for b in itertools.product(alpha, repeat=cap):
            small.append([u, "P h" + bytes(b).hex(), "S h61 1 3", "R"])
    for cap in (7, 8, 14, 15):
        for _ in range(ctx.pick(600, 8000)):
            b = bytearray(ctx.rng.choice(alpha) for _ in range(cap))
            if ctx.rng.random() < 0.8:
                b[1] = 0
            small.append([u, "P h" + bytes(b).hex(), "S h61 1 3", "R", "S h61 2 4", "S h6162 1 5", "R", "S h61 1 6", "R"])
    ctx.conform(exe, small, "StorageGarbageTrace", "small regions")
    # large regions with sizes at the 16-bit limit
    big = []
    for cap in (65534, 65535, 65536, 70000, 131072):
        for first in (65534, 65535, 65533, 7, 1, 32768):
            b = bytearray(cap)
            p = 0
            while p + 2 <= cap:
                b[p:p + 2] = first.to_bytes(2, "little")
                p += first
            big.append(["U h61 1 h62 8 h61 65528", "P h" + bytes(b[:cap]).hex(), "S h61 1 3", "R", "S h62 8 4", "S h61 65528 7", "R", "S h61 1 5", "R"])
    ctx.conform(exe, big, "StorageGarbageTrace", "large regions")


def pattern(v, n):
    if n >= 4 and v in (253, 254, 255):
        b = bytearray(n)
        if v == 255:
            b[-1] = 0x80
        elif v == 253:
            b[-1], b[-2] = 0x7f, 0xf8
        return bytes(b)
    return bytes((v + 37 * i) % 256 for i in range(n))


def foreign(rng, pairs, cap):
    """A region as another writer would leave it, and its records; what is behind them cannot be taken for one."""
    b, rest = b"", [(k, z) for k, z in pairs if len(k) <= 4]
    rng.shuffle(rest)
    for k, z in rest[:rng.randint(0, len(rest))]:
        if len(b) + 6 + z <= cap:
            b += (6 + z).to_bytes(2, "little") + k.encode("latin1").ljust(4, b"\0") + pattern(rng.choice([253, 254, 255, rng.randint(0, 255)]), z)
        if rng.random() < 0.1 and len(b) + 6 <= cap:
            b += b"\x06\0Zero"     # a record without an object
    return b + bytes([rng.choice([0, 0, 255])]) * (cap - len(b))


def S06(ctx):
    tr = ctx.model_check("MCLayout", "MCLayout.cfg", emit=True)
    exe = build(ctx)
    walks, cov = cover_walks(tr, lambda s: not s["recs"], max_len=40, rng=ctx.rng)
    ctx.notes["model_transitions_replayed"] = cov
    scripts = []
    for st, steps in walks:
        objs = {(0,): 0, (7,): 7, (7, 0): 7, (255, 9): 255}
        s = ["D", "U " + " ".join(f"{hk(k)} {n}" for k in ([], [97], [97, 98, 99, 100], [1, 2, 3, 4, 5]) for n in (1, 2)), "P " + hk(st["img"])]
        for a, _ in steps:
            s.append("I" if a["a"] == "clear" else f"S {hk(a['k'])} {len(a['d'])} {a['d'][0]}")
            if ctx.rng.random() < 0.3:
                s.append("R")
        scripts.append(s)
    ctx.conform(exe, scripts, "LayoutTrace", "model transitions")
    rng = ctx.rng
    sc = []
    for i in range(ctx.pick(500, 6000)):
        s = random_script(rng, 14, sizes=rng.choice([SIZES_SMALL, SIZES_MORE]), reopen=0.2)
        uni = s[0].split()[1:]
        pairs = [(bytes.fromhex(uni[j][1:]).decode("latin1"), int(uni[j + 1])) for j in range(0, len(uni), 2)]
        need = sum(6 + z for _, z in pairs)
        if need > 2000:
            continue
        if i % 3:
            s[1] = "P h" + foreign(rng, pairs, rng.choice([need, need + 3, rng.randint(0, need + 20), need // 2])).hex()
        sc.append(["D"] + s)
    ctx.conform(exe, sc, "LayoutTrace", "regions of other writers, random histories")
    big = []
    for z in (1000, 65528, 65529):
        img = foreign(rng, [("big", z), ("a", 4), ("bc", 8)], z + 60)
        big.append(["D", f"U h626967 {z} h61 4 h6263 8", "P h" + img.hex(), "S h61 4 9", "R"])
        big.append(["D", f"U h626967 {z} h61 4 h6263 8", f"O {z + 40} 2 1 0", "S h61 4 9", f"S h626967 {z} 17", "S h6263 8 255", "R", f"S h626967 {z} 18"])
    ctx.conform(exe, big, "LayoutTrace", "large objects")
