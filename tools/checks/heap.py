"""H01: the library uses no heap (Heap.tla)."""
import mbv
from mbv import *
from checks import adc, canvas, fonts, frame, gpio, i2c, serialout, spi, storage, text, timing, uart, views

PARTS = [(storage, ["S03", "S05"]), (text, ["B01", "B02", "B04"]), (views, ["M01", "E01"]), (frame, ["F01", "F02"]),
         (canvas, ["G01", "G02", "G05", "G06"]), (fonts, ["T01", "T02", "T03"]), (serialout, ["L01"]), (uart, ["U01", "U02", "U03", "U04"]),
         (i2c, ["I01", "I02"]), (spi, ["P01", "P02"]), (gpio, ["D01"]), (adc, ["A01"]), (timing, ["W01"])]


class Watched(Ctx):
    """Runs the scripts of another check with every allocation watched."""

    def __init__(self, ctx, prop):
        self.__dict__.update(ctx.__dict__)
        self.of, self.parent, self.watched = prop, ctx, []
        self.notes, self.samples = {}, []
        self.rng = random.Random(f"H01-{prop}-{ctx.seed}")

    def path(self, name):
        return self.parent.path(name)

    def build(self, name, sources, flags=(), libs=(), **k):
        k.update(asan=False, opt="-O0")
        key = (tuple(sources), tuple(flags), tuple(sorted(k.get("deps_from_repo", ()))))
        with self.parent.lock:
            job = self.parent.built.setdefault(key, [threading.Lock(), None])
        with job[0]:
            if job[1] is None:
                job[1] = super().build(name, list(sources) + ["heap_watch.cpp"], list(flags) + ["-fno-pie", "-fno-omit-frame-pointer"],
                                       libs=list(libs) + ["-no-pie"], **k)
        return job[1]

    def model_check(self, *a, **k):
        return NoModel()

    def drive(self, exe, scripts, **k):
        # the longest ones, and others as they come
        n = self.parent.pick(60, 600)
        if len(scripts) > n:
            size = lambda s: sum(map(len, s))
            scripts = sorted(scripts, key=size)[-n // 5:] + self.rng.sample(scripts, n - n // 5)
        self.watched.append((exe, scripts))
        return [[] for _ in scripts]

    def validate(self, *a, **k):
        return 0

    def conform(self, exe, scripts, module, label, **k):
        if scripts:
            self.drive(exe, scripts)
        return len(scripts), []


def origins(exe, pcs):
    """Whose code each address is: all functions inlined there, innermost first."""
    pcs = sorted(pcs)
    out = {0: ["system"]}
    if pcs:
        r = subprocess.run(["addr2line", "-i", "-a", "-e", exe], input="\n".join(hex(p - 1) for p in pcs), capture_output=True, text=True, check=True)
        for line in r.stdout.splitlines():
            if line.startswith("0x"):
                cur = out.setdefault(int(line, 16) + 1, [])
                continue
            f = os.path.normpath(line.rsplit(":", 1)[0])
            inside = lambda d: f.startswith(os.path.realpath(d) + "/") or f.startswith(d + "/")
            cur.append("library" if inside(REPO) else "platform" if inside(HARNESS + "/mock") else "program" if inside(HARNESS) else "system")
    return out


def record(ctx, exe, scripts):
    raw = Ctx.drive(ctx, exe, scripts)
    own = origins(exe, {p for t in raw for e in t if e["ev"] == "Alloc" for p in e["pcs"] if p})
    traces = []
    for t, s in zip(raw, scripts):
        seen = []
        for e in t:
            if e["ev"] == "Alloc":
                at = [o for p in e["pcs"] for o in own[p]]
                at = at[:at.index("library") + 1] if "library" in at else at
                at = [o for i, o in enumerate(at) if i == 0 or at[i - 1] != o]
                if at not in seen:
                    seen.append(at)
            elif e["ev"] in ("Crash", "Hang"):
                pass        # judged by the component's own property
        traces.append([{"ev": "Alloc", "at": at} for at in seen] + [{"ev": "Commands", "n": len(s)}])
    return traces


def H01(ctx):
    ctx.model_check("MCHeap", "MCHeap.cfg")
    ctx.built = {}
    jobs = [(mod, p) for mod, ps in PARTS for p in ps]

    def gather(job):
        mod, p = job
        w = Watched(ctx, p)
        getattr(mod, p)(w)
        return [(p, exe, s) for exe, s in w.watched]
    with ThreadPoolExecutor(NCPU) as ex:
        runs = [r for rs in ex.map(gather, jobs) for r in rs]
        traces, owner = [], []
        for (p, exe, s), ts in zip(runs, ex.map(lambda r: record(ctx, r[1], r[2]), runs)):
            if not any(e["ev"] == "Alloc" and "program" in e["at"] for t in ts for e in t):
                raise CheckError(f"the harness of {p} seems not to be watched")
            traces += ts
            owner += [(exe, x) for x in s[:len(ts)]]
    ctx.notes["commands_watched"] = sum(t[-1]["n"] for t in traces)
    ctx.notes["allocations_for"] = {o: sum([x for x in e["at"] if x != "system"][:1] == [o] for t in traces for e in t[:-1]) for o in ("program", "platform", "library")}
    ctx.validate("HeapTrace", traces, label="allocations", scripts=[s for _, s in owner],
                 rerun=lambda i, before: record(ctx, owner[i][0], [owner[i][1]])[0])
