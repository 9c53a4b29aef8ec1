"""Machinery shared by all checks: building the drivers from /repo's current
working tree, running TLC on the specifications, turning their state graphs
into scripts, recording traces of the real code and having TLC validate them."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, ".work")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not do its work"""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


# --------------------------------------------------------------------------
# Building

FLAVOURS = {
    # as the release build: no debug checks
    "rel": ["-O2", "-g"],
    # as the debug build
    "dbg": ["-O1", "-g", "-DDEBUG"],
    # the same two with the memory accesses of the library instrumented: the driver
    # has the functions which the compiler calls, and decides what runs when
    "srel": ["-O1", "-g"],
    "sdbg": ["-O1", "-g", "-DDEBUG"],
}
LIBSAN = {"rel": "address", "dbg": "address", "srel": "thread", "sdbg": "thread"}
BASE = ["-fno-omit-frame-pointer", "-fPIC", "-w", "-pthread",
        "-DGLIB_VERSION_MAX_ALLOWED=GLIB_VERSION_2_32",
        "-DGLIB_VERSION_MIN_REQUIRED=GLIB_VERSION_2_32"]


def pkg():
    global _pkg
    try:
        return _pkg
    except NameError:
        p = lambda w: subprocess.check_output(["pkg-config", w, "glib-2.0", "gobject-2.0", "gio-2.0"][:4], text=True).split()
        _pkg = (p("--cflags"), p("--libs"))
        return _pkg


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def lib_inputs():
    fs = []
    for d in ("src", "include"):
        for root, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(root, n) for n in names if n.endswith((".c", ".h"))]
    return fs


BUILDING = threading.RLock()


def locked(f):
    def g(*a, **kw):
        with BUILDING:
            return f(*a, **kw)
    return g


@locked
def build_lib(flavour, extra=()):
    """Compiles every source file of the library; returns the object files.
    Cached by the content of all the inputs."""
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    if not srcs:
        raise CheckError("no sources in " + REPO)
    flags = ["-fsanitize=" + LIBSAN[flavour]] + BASE + FLAVOURS[flavour] + list(extra) + ["-I" + os.path.join(REPO, "include")] + pkg()[0]
    key = digest(lib_inputs(), " ".join(flags))
    out = os.path.join(WORK, "lib", flavour + "-" + key)
    objs = [os.path.join(out, os.path.basename(s)[:-2] + ".o") for s in srcs]
    if not os.path.exists(os.path.join(out, "done")):
        tmp = out + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)

        def cc(s):
            o = os.path.join(tmp, os.path.basename(s)[:-2] + ".o")
            r = subprocess.run(["gcc"] + flags + ["-c", s, "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (s, r.stderr))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(cc, srcs))
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return objs


def build_driver(name, flavour, ldflags=(), cflags=()):
    objs = build_lib(flavour)
    src = os.path.join(HARNESS, name + ".c")
    san = ["-fsanitize=address"] if LIBSAN[flavour] == "address" else []
    flags = san + BASE + FLAVOURS[flavour] + list(cflags) + ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + pkg()[0]
    key = digest([src, os.path.join(HARNESS, "common.h"), os.path.join(HARNESS, "steps.h"), os.path.join(HARNESS, "explore.h")] + lib_inputs(), " ".join(flags) + " ".join(ldflags))
    out = os.path.join(WORK, "drv", "%s-%s-%s" % (name, flavour, key))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
        r = subprocess.run(["gcc"] + flags + [src] + objs + list(ldflags) + pkg()[1] + ["-ldl", "-lm", "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("building driver %s failed:\n%s" % (name, r.stderr))
        os.rename(tmp, out)
    return out


def prune_cache(keep=60):
    """Old builds are dropped so that the work directory stays small"""
    for d in ("lib", "drv"):
        ents = glob.glob(os.path.join(WORK, d, "*"))
        ents.sort(key=lambda p: os.path.getmtime(p), reverse=True)
        for p in ents[keep if d == "drv" else 12:]:
            if time.time() - os.path.getmtime(p) > 1800:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.path.exists(p) and os.unlink(p)


# --------------------------------------------------------------------------
# TLC

def tlc_cmd(module, cfg, metadir, workers=1, heap="1500m", extra=()):
    return ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
            "-Xss16m", "-XX:TieredStopAtLevel=1", "-Xmx" + heap,
            "-DTLA-Library=" + SPEC + ":" + os.path.join(SPEC, "Log"), "-cp", JARS, "tlc2.TLC", "-noTE", "-metadir", metadir,
            "-workers", str(workers), "-config", cfg] + list(extra) + [module]


_inner = re.compile(r"\{([^{}\[\]<>]*)\}|\[([^{}\[\]<>]*)\]|<<([^{}\[\]<>]*)>>")


def canon(s):
    """Sets and records are printed in no particular order: the innermost groups are
    sorted and replaced by tokens until nothing is left"""
    s = s.replace("|->", "=").replace(" :> ", "=")

    def sub(m):
        a, b, q = m.groups()
        if q is not None:
            t = "Q" + q
        elif a is not None:
            t = "S" + ",".join(sorted(x.strip() for x in a.split(",")))
        else:
            t = "R" + ",".join(sorted(x.strip() for x in b.split(",")))
        return "#%d" % _tok.setdefault(t, len(_tok))
    while True:
        n = _inner.sub(sub, s)
        if n == s:
            return s
        s = n


_tok = {}


class MCResult:
    pass


def tlc_mc(comp, module, cfg, workdir, workers=1, heap="4g", timeout=800, edges=False, depth=None):
    """Exhaustive exploration of a bounded model. Edges printed by the ACTION_CONSTRAINT
    are collected when asked for."""
    d = os.path.join(SPEC, comp)
    meta = os.path.join(workdir, "mc-%s-%s" % (module, os.path.basename(cfg)))
    os.makedirs(meta, exist_ok=True)
    t0 = time.time()
    out = os.path.join(meta, "out.txt")
    with open(out, "w") as f:
        p = subprocess.run(tlc_cmd(module + ".tla", cfg, meta, workers, heap), cwd=d, stdout=f,
                           stderr=subprocess.STDOUT, timeout=timeout)
    res = MCResult()
    res.edges, res.inits = [], set()
    tail = []
    m = None
    ids = {}

    def sid(s):
        s = canon(s)
        return ids.setdefault(s, len(ids))
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"{'):
                if edges:
                    e = json.loads(json.loads(line))
                    res.edges.append((sid(e["s"]), tuple(e["op"]), sid(e["t"])))
                continue
            tail.append(line)
            tail = tail[-200:]
            m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", line) or m
    text = "".join(tail)
    if p.returncode != 0 or not m or "No error has been found" not in text:
        raise CheckError("TLC did not pass %s/%s (%s):\n%s" % (comp, module, cfg, text[-3000:]))
    res.generated, res.states = int(m.group(1)), int(m.group(2))
    res.nids = len(ids)
    res.wall = time.time() - t0
    shutil.rmtree(meta, ignore_errors=True)
    return res


def garbled(trace):
    """A callback which comes while an event is being written garbles that event: what
    follows is cut off, and no specification has the event which stands for it"""
    with open(trace, "rb") as f:
        lines = f.readlines()
    for i, l in enumerate(lines):
        try:
            json.loads(l)
        except ValueError:
            with open(trace, "wb") as f:
                f.writelines(lines[:i])
                f.write(json.dumps({"e": "garbled", "text": l.decode("latin1")[:200]}).encode() + b"\n")
            return True
    return False


def tlc_trace(comp, module, cfg, trace, workdir, heap="2g", timeout=800):
    """Same as tlc_trace1, except for garbled traces"""
    try:
        r = tlc_trace1(comp, module, cfg, trace, workdir, heap, timeout)
        if r[0] or not garbled(trace):
            return r
    except CheckError:
        if not garbled(trace):
            raise
    return tlc_trace1(comp, module, cfg, trace, workdir, heap, timeout)


def tlc_trace1(comp, module, cfg, trace, workdir, heap="2g", timeout=800):
    """TLC validates one recorded trace. Returns (ok, followed, total, output)."""
    d = os.path.join(SPEC, comp)
    meta = trace + ".tlc"
    os.makedirs(meta, exist_ok=True)
    env = dict(os.environ, TRACE_FILE=trace)
    try:
        p = subprocess.run(tlc_cmd(module + ".tla", cfg, meta, 1, heap, ["-deadlock"]), cwd=d, env=env,
                           capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % trace)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.search(r'<<"FOLLOWED", (\d+), (\d+)>>', out)
    inv = re.search(r"Error: (Invariant \w+ is violated|Action property .* is violated)", out)
    if not m and not inv and "The behavior up to this point is" in out and "StackOverflow" not in out and "OutOfMemory" not in out:
        # An event with fields or values which mean nothing to the specification
        k = re.findall(r"/\\ l = (\d+)", out)
        inv, followed_bad = True, int(k[-1]) if k else 1
    if not m and not inv:
        raise CheckError("TLC gave no verdict on %s:\n%s" % (trace, out[-3000:] + p.stderr[-500:]))
    followed, total = (int(m.group(1)), int(m.group(2))) if m else (0, -1)
    gen = re.search(r"(\d+) states generated, (\d+) distinct", out)
    ok = m is not None and followed == total + 1 and not inv and "No error has been found" in out
    if m and not inv and not ok and followed == total + 1:
        raise CheckError("TLC error on %s:\n%s" % (trace, out[-3000:]))
    if m and not inv and "No error has been found" not in out and not ok:
        # evaluation error: the event does not fit the specification's types
        pass
    if inv is True:
        return False, followed_bad, -1, out, 0, 0
    if inv:
        k = re.findall(r"/\\ l = (\d+)", out)
        followed = int(k[-1]) - 1 if k else 0
    return ok, followed, total, out, (int(gen.group(2)) if gen else 0), (int(gen.group(1)) if gen else 0)


# --------------------------------------------------------------------------
# Scripts out of a state graph

def walks(res, maxlen=60, start=None, rng=None, limit=None):
    """Scenarios (lists of operations) that together take every edge of the graph"""
    succ, indeg = {}, set()
    for i, (s, op, t) in enumerate(res.edges):
        succ.setdefault(s, []).append(i)
    if not res.edges:
        return []
    init = res.edges[0][0] if start is None else start
    # breadth first tree
    parent = {init: None}
    q = [init]
    for s in q:
        for i in succ.get(s, ()):
            t = res.edges[i][2]
            if t not in parent:
                parent[t] = i
                q.append(t)

    def prefix(s):
        p = []
        while parent[s] is not None:
            p.append(parent[s])
            s = res.edges[parent[s]][0]
        return p[::-1]
    todo = {s: [i for i in succ.get(s, ())] for s in q}
    for s in todo:
        if rng:
            rng.shuffle(todo[s])
    done = set()
    out = []
    order = list(q)
    for s0 in order:
        while True:
            while todo[s0] and todo[s0][-1] in done:
                todo[s0].pop()
            if not todo[s0]:
                break
            path = prefix(s0)
            for i in path:
                done.add(i)
            s = s0
            while len(path) < maxlen:
                l = todo.get(s, [])
                while l and l[-1] in done:
                    l.pop()
                if not l:
                    # one or two steps to something new
                    nxt = None
                    for i in succ.get(s, ()):
                        t = res.edges[i][2]
                        lt = todo.get(t, [])
                        while lt and lt[-1] in done:
                            lt.pop()
                        if lt:
                            nxt = i
                            break
                    if nxt is None:
                        break
                    i = nxt
                else:
                    i = l.pop()
                done.add(i)
                path.append(i)
                s = res.edges[i][2]
            out.append([list(map(str, res.edges[i][1])) for i in path if res.edges[i][1]])
            if limit and len(out) >= limit:
                return out
    return out


def hexlines(walk):
    """Same as lines(), byte sequences become hexadecimal ("-" if empty)"""
    out = []
    for op in walk:
        o = []
        for t in op:
            if t.startswith("["):
                b = json.loads(t)
                t = "".join("%02x" % x for x in b) or "-"
            o.append(t)
        out.append(" ".join(o))
    return out


def lines(walk):
    return [" ".join(op) for op in walk]


# --------------------------------------------------------------------------
# Running the real code

def shard(scens, n):
    n = max(1, min(n, len(scens)))
    sh = [[] for _ in range(n)]
    size = [0] * n
    for s in scens:
        k = size.index(min(size))
        sh[k].append(s)
        size[k] += len(s) + 2
    return sh


def write_script(path, scens, names=None):
    with open(path, "w") as f:
        for i, s in enumerate(scens):
            f.write("scn %s\n" % (names[i] if names else "s%d" % i))
            for l in s:
                f.write(l + "\n")


def run_driver(binary, script, trace, timeout=300, env=None, passes=None):
    e = dict(os.environ, LC_ALL="C", **(env or {}))
    e.pop("G_DEBUG", None)
    if passes:
        e["VF_PASSES"] = str(passes)
    err = trace + ".err"
    with open(err, "w") as ef:
        p = subprocess.Popen([binary, script, trace], stdin=subprocess.DEVNULL, stdout=ef, stderr=subprocess.STDOUT,
                             env=e, cwd=os.path.dirname(trace), start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    if rc == 98:
        raise CheckError("driver error: " + open(err, errors="replace").read()[-2000:])
    if rc != 0:
        # the process died: that is an event too, and no specification has it.
        data = open(trace, "rb").read() if os.path.exists(trace) else b""
        if data and not data.endswith(b"\n"):
            data = data[:data.rfind(b"\n") + 1]
        with open(trace, "wb") as f:
            f.write(data)
            f.write(json.dumps({"e": "died", "rc": str(rc)}).encode() + b"\n")
    return rc


class Ctx:
    """One run of one check"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.dir = os.path.join(WORK, "run", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.scenarios = 0
        self.trace_states = self.trace_transitions = 0
        self.samples, self.assumptions, self.models, self.notes = [], [], [], []
        self.known = []
        self.violations = []
        self.exhaustive = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- specification --
    def mc(self, comp, module, cfg, edges=False, workers=None, **kw):
        w = 1 if edges else (workers or NCPU)
        r = tlc_mc(comp, module, cfg, self.dir, workers=w, edges=edges, **kw)
        self.states += r.states
        self.transitions += r.generated
        self.models.append({"model": "%s/%s" % (comp, cfg), "states": r.states, "transitions": r.generated,
                            "edges": len(r.edges), "wall_s": round(r.wall, 1)})
        self.log("TLC %s/%s: %d states, %d transitions, %.1fs" % (comp, cfg, r.states, r.generated, r.wall))
        return r

    # -- implementation --
    def validate(self, driver, comp, module, cfg, scens, flavours=("rel", "dbg"), label="", ldflags=(), cflags=(),
                 env=None, shards=None, passes=None, timeout=300, known=None, runners=None):
        """Runs the scenarios against the real code and lets TLC judge the traces"""
        if not scens:
            raise CheckError("no scenarios for " + label)
        jobs = []
        for fl in flavours:
            binary = build_driver(driver, fl, ldflags, cflags)
            for k, sh in enumerate(shard(scens, shards or max(1, min(NCPU, sum(len(s) for s in scens) // 400 + 1)))):
                jobs.append((binary, fl, k, sh))

        def work(job):
            binary, fl, k, sh = job
            base = os.path.join(self.dir, "%s-%s-%s-%d" % (label or driver, cfg[:-4], fl, k))
            write_script(base + ".script", sh)
            return job, base, run_driver(binary, base + ".script", base + ".ndjson", env=env, passes=passes, timeout=timeout)

        def judge(w):
            job, base, rc = w
            return job, base, rc, tlc_trace(comp, module, cfg, base + ".ndjson", self.dir)
        # drivers that mostly wait may outnumber the processors
        with cf.ThreadPoolExecutor(NCPU) as tl, cf.ThreadPoolExecutor(runners or NCPU) as ex:
            results = list(tl.map(judge, ex.map(work, jobs))) if runners else list(tl.map(lambda j: judge(work(j)), jobs))
        nev = 0
        for job, base, rc, (ok, followed, total, out, ts, tt) in results:
            self.trace_states += ts
            self.trace_transitions += tt
            if ok:
                self.traces += 1
                nev += total
                self.scenarios += len(job[3])
            else:
                self.reject(job, base, followed, out, driver, comp, module, cfg, env, label, passes, cflags, ldflags)
        self.events += nev
        self.log("%s: %d scenarios x %s, %d events accepted by %s/%s" % (
            label or driver, len(scens), "+".join(flavours), nev, comp, cfg))
        if self.samples is not None and len(self.samples) < 6:
            pick = scens[self.rng.randrange(len(scens))]
            self.samples.append({"scenario": pick[:40], "driver": driver})
        for job, base, rc, r in results:
            for ext in (".script", ".ndjson", ".ndjson.err"):
                if os.path.exists(base + ext) and r[0]:
                    os.unlink(base + ext)

    def reject(self, job, base, followed, out, driver, comp, module, cfg, env, label, passes, cflags=(), ldflags=()):
        """A trace the specification does not have: find the scenario, run it again on its own,
        and report it only if TLC rejects it again"""
        binary, fl, k, sh = job
        evs = [json.loads(l) for l in open(base + ".ndjson", errors="replace")]
        # followed = index of the last state reached (1-based event that could not be taken)
        pos = max(0, min(followed, len(evs)) - 1)
        scn = None
        for e in evs[:pos + 1]:
            if e["e"] == "scn":
                scn = int(e["name"][1:])
        if scn is None:
            scn = 0
        bad = evs[pos] if pos < len(evs) else None
        self.log("rejected: scenario %d, event %s" % (scn, json.dumps(bad)[:300]))
        tries = [([sh[scn]], "alone")]
        if scn > 0:
            tries.append((sh[:scn + 1], "with the preceding ones"))
        for scens, how in tries:
            b2 = base + ".again"
            write_script(b2 + ".script", scens)
            run_driver(binary, b2 + ".script", b2 + ".ndjson", env=env, passes=passes)
            ok, f2, tot2, out2, _, _ = tlc_trace(comp, module, cfg, b2 + ".ndjson", self.dir)
            if not ok:
                evs2 = [json.loads(l) for l in open(b2 + ".ndjson", errors="replace")]
                p2 = max(0, min(f2, len(evs2)) - 1)
                rep = self.save_replay(b2, evs2, p2, out2, driver, fl, comp, module, cfg, label, scens[-1], cflags, ldflags)
                self.violations.append((rep, json.dumps(evs2[p2])[:400] if evs2 else "?"))
                raise Violation("%s: TLC (%s) rejects event %d of the trace (%s): %s" % (
                    label, cfg, p2 + 1, how, json.dumps(evs2[p2])[:400]), rep)
        self.notes.append("a rejection of scenario %d in %s did not repeat" % (scn, label))
        self.log("the rejection did not repeat; not reported")

    def save_replay(self, base, evs, pos, out, driver, fl, comp, module, cfg, label, scenario, cflags=(), ldflags=()):
        d = os.path.join(REPLAYS, "%s-%s-%d" % (self.pid, time.strftime("%H%M%S"), os.getpid()))
        os.makedirs(d, exist_ok=True)
        for ext, name in ((".script", "script"), (".ndjson", "trace.ndjson"), (".ndjson.err", "stderr.txt")):
            if os.path.exists(base + ext):
                shutil.copy(base + ext, os.path.join(d, name))
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property %s\ncomponent %s driver %s flavour %s\n" % (self.pid, comp, driver, fl))
            f.write("scenario:\n" + "".join("  %s\n" % l for l in scenario))
            f.write("\nTLC (%s/%s, %s) cannot follow event %d of trace.ndjson:\n" % (comp, module, cfg, pos + 1))
            for e in evs[max(0, pos - 8):pos + 1]:
                f.write("  %s\n" % json.dumps(e))
            f.write("\nTo repeat: python3 check.py --replay %s\n\nTLC output:\n%s\n" % (d, out[-6000:]))
        with open(os.path.join(d, "replay.json"), "w") as f:
            json.dump(dict(property=self.pid, driver=driver, flavour=fl, comp=comp, module=module, cfg=cfg, cflags=list(cflags), ldflags=list(ldflags)), f)
        return d

    # -- evidence --
    def evidence(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states + self.trace_states,
                                transitions=self.transitions + self.trace_transitions,
                                traces_validated_against_impl=self.traces,
                                scenarios_run=self.scenarios,
                                events_validated=self.events,
                                model_states=self.states, model_transitions=self.transitions,
                                models=self.models, samples=self.samples or ["(none)"],
                                exhaustive_domains=self.exhaustive, notes=self.notes),
                  assumptions=self.assumptions or [
                      "The bounded models are representative of larger parameters (traces use larger ones)",
                      "TLC, gcc, AddressSanitizer and GLib work as documented"],
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
