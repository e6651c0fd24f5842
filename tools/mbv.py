"""Shared machinery: build a harness from /repo, drive it, let TLC decide.

Nothing in here knows what is right: verdicts come from TLC evaluating the specifications in
/verif/specs, on the model itself (model_check) and on traces of the real code (validate).
"""
import functools, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from collections import deque
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MBV_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself failed (exit 2): neither held nor violated."""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def merge(a, b):
    a.update(b)
    return a


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{prop}-{self.seed}")
        self.t0 = time.time()
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"{prop}-", dir=base)
        self.n = 0
        self.model = []          # model checking runs
        self.val = []            # validation runs
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.notes = {}
        self.times = {}
        self.lock = threading.Lock()
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def clock(self, what, t):
        self.times[what] = round(self.times.get(what, 0) + time.time() - t, 2)

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, f"{self.n:03d}-{name}")

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------------ build
    def build(self, name, sources, flags=(), libs=(), asan=True, opt="-O1", cxx="g++", deps_from_repo=()):
        """Compile harness sources (relative to HARNESS) and repo sources (relative to REPO) of the current tree."""
        exe = self.path(name)
        t = time.time()
        base = [cxx, "-std=c++17", "-g", "-w", opt, "-I" + HARNESS, "-I" + REPO]
        if asan:
            base += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        base += list(flags)
        objs, jobs = [], []
        srcs = [os.path.join(HARNESS, s) for s in sources]
        for s in deps_from_repo:
            srcs += sorted(glob.glob(os.path.join(REPO, s)))
        for src in srcs:
            obj = f"{exe}.{len(objs)}.o"
            objs.append(obj)
            jobs.append(base + ["-c", src, "-o", obj])
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs))
        for c, r in zip(jobs, res):
            if r.returncode:
                raise CheckError(f"compilation failed: {' '.join(c)}\n{r.stderr[:4000]}")
        link = [cxx] + (["-fsanitize=address"] if asan else []) + objs + ["-o", exe] + list(libs)
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            # code may have moved to another file: offer the linker the others of the same directories
            others = sorted({f for d in {os.path.dirname(x) for x in srcs if x.startswith(REPO)} | {REPO, os.path.join(REPO, "graphics")}
                             for f in glob.glob(os.path.join(d, "*.cpp"))} - set(srcs))
            more = [(base + ["-c", f, "-o", f"{exe}.x{i}.o"], f"{exe}.x{i}.o") for i, f in enumerate(others)]
            with ThreadPoolExecutor(NCPU) as ex:
                done = list(ex.map(lambda c: subprocess.run(c[0], capture_output=True).returncode == 0, more))
            if any(done):
                subprocess.run(["ar", "rcs", f"{exe}.a"] + [o for (_, o), ok in zip(more, done) if ok], capture_output=True)
                r = subprocess.run(link[:-len(libs) or None] + [f"{exe}.a"] + list(libs), capture_output=True, text=True)
        if r.returncode:
            raise CheckError(f"link failed: {' '.join(link)}\n{r.stderr[:4000]}")
        self.clock("build", t)
        return exe

    def parallel(self, jobs):
        """Run the named jobs at the same time; the first exception, if any, is raised."""
        with ThreadPoolExecutor(NCPU) as ex:
            f = {k: ex.submit(v) for k, v in jobs.items()}
            return {k: v.result() for k, v in f.items()}

    # -------------------------------------------------------------------- run
    def drive(self, exe, scripts, timeout=300, max_crashes=3, env=None):
        """Run the harness over a list of scripts (each a list of command lines); return one event list per
        script. A crash or hang becomes the last event of its trace; later traces are run in a new process."""
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", LC_ALL="C.UTF-8")
        if env:
            e.update(env)
        results, start, crashes, t = [], 0, 0, time.time()
        while start < len(scripts):
            sp, op = self.path("script"), self.path("events")
            with open(sp, "w") as f:
                for s in scripts[start:]:
                    f.write("T\n")
                    f.write("\n".join(s))
                    f.write("\n")
            try:
                r = subprocess.run([exe, sp, op], capture_output=True, timeout=timeout, env=e)
                rc, err = r.returncode, r.stderr.decode("latin1")
            except subprocess.TimeoutExpired:
                rc, err = -14, "timeout"
            if rc == 99:
                raise CheckError(f"harness rejected its script: {err[:500]}")
            got, cur = [], None
            with open(op, errors="replace") as f:
                for line in f:
                    if line == "T\n":
                        cur = []
                        got.append(cur)
                    elif line.endswith("\n") and cur is not None:
                        cur.append(int(line[1:]) if line[0] == "@" else json.loads(line))
            os.unlink(sp), os.unlink(op)
            if rc == 0:
                if len(got) != len(scripts) - start:
                    raise CheckError("harness lost traces")
                results += got
                break
            crashes += 1
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|terminate called[^\n]*)", err)
            what = m.group(1)[:200] if m else f"exit status {rc}"
            what = re.sub(r"0x[0-9a-f]+|==\d+==", "_", what)
            if not got:
                got = [[]]
            got[-1].append({"ev": "Hang" if rc in (-14, -27) else "Crash", "what": re.sub(r'[^ -~]|["\\]', " ", what)})
            results += got
            start += len(got)
            if crashes >= max_crashes:
                break
        self.clock("drive", t)
        return results

    # -------------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env=None, workers=NCPU, timeout=600, heap="6g", extra=()):
        meta = self.path("tlc")
        os.makedirs(meta)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", "-cp", JAR, "-DTLA-Library=" + SPECS, "tlc2.TLC",
               "-config", cfg, "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", *extra, module]
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            r = subprocess.run(cmd, capture_output=True, timeout=timeout, env=e, cwd=SPECS)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1")

    @staticmethod
    def _counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model_check(self, module, cfg, workers=NCPU, timeout=600, emit=False, extra=(), min_states=2, env=None):
        """Exhaustive TLC run over a model (independent of the code). Returns the emitted transitions, if any."""
        t = time.time()
        rc, out, err = self._tlc(os.path.join(SPECS, module + ".tla"), os.path.join(SPECS, cfg), workers=workers,
                                 timeout=timeout, extra=extra, env=env)
        self.clock("model checking", t)
        gen, dist = self._counts(out)
        if rc != 0 or dist < min_states:
            raise CheckError(f"TLC on the model {module}/{cfg}: exit {rc}, {dist} states\n{out[-6000:]}\n{err[-2000:]}")
        self.states += dist
        self.transitions += gen
        self.model.append({"model": module, "config": cfg, "distinct_states": dist, "states_generated": gen})
        if emit:
            lines = {line for line in out.splitlines() if line.startswith('"@T@')}
            return [tuple(json.loads(line)[3:].split("|")) for line in sorted(lines)]

    def validate(self, module, traces, cfg=None, consts=None, label=None, workers=NCPU, timeout=800, scripts=None,
                 rerun=None):
        """Let TLC decide whether every trace is a behaviour of the specification `module`.

        rerun(i, n) -> fresh event list of trace i, recorded after the n traces before it in the same process:
        a rejection is reported only if a rerun is rejected too."""
        traces = [t for t in traces]
        if not traces:
            raise CheckError("no traces")
        # shards run in parallel: contiguous parts of similar size
        nev = [len(t) + 1 for t in traces]
        want = max(1, min(NCPU // 2, sum(nev) // 5000), -(-sum(nev) // 60000))
        limit = -(-sum(nev) // want)
        parts, lo, acc = [], 0, 0
        for i, n in enumerate(nev):
            acc += n
            if acc >= limit or i == len(nev) - 1:
                parts.append((lo, traces[lo:i + 1]))
                lo, acc = i + 1, 0
        t0 = time.time()
        with ThreadPoolExecutor(NCPU // 2) as ex:
            w = max(1, workers // max(1, min(len(parts), NCPU // 2)))
            res = list(ex.map(lambda p: self._validate_once(module, p[1], cfg, w, timeout, label), parts))
        self.clock("validation", t0)
        self.val.append({"spec": module, "label": label, "traces": len(traces), "events": sum(nev) - len(traces)})
        for (lo, part), rej in zip(parts, res):
            if rej is None:
                continue
            i, l, out = rej
            ev = part[i]
            if rerun is not None:
                # by itself first, then with more and more of the traces before it, which ran in the same process
                before, rej2 = 0, None
                while rej2 is None:
                    fresh = rerun(lo + i, before)
                    rej2 = self._validate_once(module, [fresh], cfg, 1, timeout, label, count=False)
                    if rej2 is None and before >= lo + i:
                        raise CheckError(f"{module}: trace {lo + i} rejected once, accepted when repeated")
                    if rej2 is None:
                        before = min(lo + i, max(1, before * 8))
                _, l, out = rej2
                ev = fresh
            raise Violation(f"trace {lo + i} of {label or module}: event {l} is not allowed by {module}",
                            {"spec": module, "label": label, "trace": lo + i, "event_number": l,
                             "event": ev[l - 1] if l - 1 < len(ev) else None,
                             "script": (scripts[lo + i] if scripts else None),
                             "scripts_before": (scripts[lo + i - before:lo + i] if scripts and rerun is not None else []),
                             "events": ev, "tlc": out[-3000:]})
        return len(traces)

    def _validate_once(self, module, traces, cfg, workers, timeout, label, count=True):
        tf = self.path("traces.json")
        with open(tf, "w") as f:
            json.dump(traces, f)
        nev = sum(len(t) for t in traces)
        rc, out, err = self._tlc(os.path.join(SPECS, module + ".tla"), os.path.join(SPECS, cfg or module + ".cfg"),
                                 env={"MBV_TRACES": tf}, workers=workers, timeout=timeout, heap="4g")
        os.unlink(tf)
        gen, dist = self._counts(out)
        if rc == 0:
            # every event is one step, plus one initial state per trace: anything less means events were skipped
            if dist < nev + len(traces):
                raise CheckError(f"{module}: {dist} states for {nev} events in {len(traces)} traces\n{out[-3000:]}")
            if count:
                with self.lock:
                    self.traces += len(traces)
                    self.events += nev
            return None
        if rc in (11, 12):
            tids = re.findall(r"^/\\ tid = (\d+)", out, re.M)
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            if tids and ls:
                return int(tids[-1]) - 1, int(ls[-1]), out
        raise CheckError(f"TLC on traces with {module}: exit {rc}\n{out[-6000:]}\n{err[-2000:]}")

    # ------------------------------------------------------------ convenience
    def conform(self, exe, scripts, module, label, env=None, cfg=None, keep=None, timeout=300):
        """Drive the code with the scripts and validate the recorded traces."""
        traces = self.drive(exe, scripts, env=env, timeout=timeout)
        f = keep or (lambda evs: evs)
        traces = [f(t) for t in traces]
        self.samples.append({"label": label, "script": scripts[0][:6], "first_events": traces[0][:2]})
        n = self.validate(module, traces, cfg=cfg, label=label, scripts=scripts,
                          rerun=lambda i, before: f(self.drive(exe, scripts[i - before:i + 1], env=env, timeout=timeout)[-1]))
        return n, traces

    def conform_together(self, exe, groups, module, label, env=None, cfg=None, lanes=None, timeout=300):
        """Like conform, with several scripts at a time, each about objects of its own, interleaved at random in one
        program: what happens to each set of objects must be a behaviour of the specification.  With `lanes`, each
        group is the interleaving itself: (object set, command) pairs."""
        scripts = []
        for g in groups:
            if lanes:
                scripts.append([x for k, c in g for x in (f"@ {k}", c)])
                continue
            left, out = [list(s) for s in g], []
            while any(left):
                k = self.rng.choice([i for i, s in enumerate(left) if s])
                out.append(f"@ {k}")
                for _ in range(self.rng.choice([1, 1, 1, 2, 5])):
                    if left[k]:
                        out.append(left[k].pop(0))
            scripts.append(out)

        def part(events, n):
            lanes, k = [[] for _ in range(n)], 0
            for e in events:
                if isinstance(e, int):
                    k = e
                else:
                    lanes[k].append(e)
            return lanes
        traces, owner = [], []
        for i, evs in enumerate(self.drive(exe, scripts, env=env, timeout=timeout)):
            for k, t in enumerate(part(evs, lanes or len(groups[i]))):
                traces.append(t)
                owner.append((i, k))

        def rerun(j, before):
            i, k = owner[j]
            lo = owner[max(0, j - before)][0]
            return part(self.drive(exe, scripts[lo:i + 1], env=env, timeout=timeout)[-1], lanes or len(groups[i]))[k]
        self.samples.append({"label": label, "script": scripts[0][:12], "first_events": traces[0][:2]})
        return self.validate(module, traces, cfg=cfg, label=label, scripts=[scripts[i] for i, _ in owner], rerun=rerun)


# ---------------------------------------------------------------- state graphs
def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class NoModel(list):
    """In place of the transitions of a model that was not run."""


def cover_walks(transitions, inits, max_len=60, rng=None):
    """Walks from initial states that together take every transition of the emitted state graph.
    transitions: [(state, label, state)] as JSON text; inits: a predicate on states, which selects the initial ones.
    Returns (list of (initial state, [(label, state after)...]), number of edges covered)."""
    if isinstance(transitions, NoModel):
        return [], 0
    adj = {}
    for f, a, g in sorted(set(transitions)):
        adj.setdefault(f, []).append((a, g))
        adj.setdefault(g, [])
    load = functools.lru_cache(None)(json.loads)
    starts = [f for f in sorted(adj) if inits(load(f))]
    if not starts:
        raise CheckError("no initial states given")
    todo = {f: list(v) for f, v in adj.items()}
    if rng:
        for v in todo.values():
            rng.shuffle(v)
    pred = {s: None for s in starts}
    dq = deque(starts)
    order = []
    while dq:
        u = dq.popleft()
        order.append(u)
        for a, g in adj.get(u, []):
            if g not in pred:
                pred[g] = (u, a)
                dq.append(g)

    def nearest(src, depth):
        seen, level = {src: None}, [src]
        for _ in range(min(depth, 4)):
            nxt = []
            for x in level:
                for a, g in adj.get(x, []):
                    if g not in seen:
                        seen[g] = (x, a)
                        nxt.append(g)
                        if todo.get(g):
                            r = []
                            while seen[g] is not None:
                                p, b = seen[g]
                                r.append((b, g))
                                g = p
                            return r[::-1]
            level = nxt
        return None

    walks, covered = [], 0
    for u in order:
        while todo.get(u):
            path, x = [], u
            while pred[x] is not None:
                p, a = pred[x]
                path.append((a, x))
                x = p
            path.reverse()
            start, cur = x, u
            while len(path) < max_len:
                if not todo.get(cur):   # go on at the nearest state with transitions left
                    step = nearest(cur, max_len - len(path) - 1)
                    if not step:
                        break
                    path += step
                    cur = step[-1][1]
                a, g = todo[cur].pop()
                covered += 1
                path.append((a, g))
                cur = g
            walks.append((load(start), [(load(a), load(g)) for a, g in path]))
    return walks, covered


# ------------------------------------------------------------------------ main
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                r.append(m.group(2).strip())
    return r


def write_evidence(ctx, level, violations, extra):
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "trace_events_validated": ctx.events, "samples": ctx.samples[:6], "model_runs": ctx.model,
           "validation_runs": ctx.val}
    cov["seconds"] = ctx.times
    cov.update(ctx.notes)
    cov.update(extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main(prop, fn, level="model_checking"):
    ctx = Ctx(prop)
    try:
        for k in known_findings(prop):
            print(f"KNOWN-FINDING: property={prop} {k}")
        try:
            fn(ctx)
        except Violation as v:
            d = os.path.join(VERIF, "replays", prop)
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, hashlib.sha1(canon(v.detail).encode()).hexdigest()[:12] + ".json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "what": v.what, **v.detail}, f, indent=1)
            write_evidence(ctx, level, 1, {"violation": v.what})
            print(v.what)
            print("event:", json.dumps(v.detail.get("event"))[:1500])
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        except CheckError as e:
            print(f"ERROR: check {prop} could not decide: {e}", file=sys.stderr)
            return 2
        write_evidence(ctx, level, 0, {})
        print(f"OK property={prop} tier={ctx.tier} model states={ctx.states} traces={ctx.traces} events={ctx.events} {ctx.times} "
              f"wall={time.time() - ctx.t0:.1f}s")
        return 0
    finally:
        ctx.close()
