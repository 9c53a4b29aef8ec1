"""C22, C23: inotify watches"""
import os, shutil, tempfile
import vf

DRIVERS = {"inotify": {}}
ALL = list(range(12))


class Scratch:
    """Where the watched directories live"""

    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else vf.WORK
        self.d = tempfile.mkdtemp(prefix="vf-inotify-", dir=base)
        return {"VF_SCRATCH": self.d}

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def hx(bits):
    return "".join("%02x" % b for b in sorted(bits)) or "-"


def fsop(rng):
    d, n = rng.randint(1, 3), rng.choice(["f", "f", "g", "h", "long"])
    k = rng.choices(["create", "write", "attr", "unlink", "mksub", "rmsub", "move", "moveself", "rmdir", "mkdir", "attrself"],
                    [8, 6, 6, 5, 3, 3, 10, 2, 3, 4, 3])[0]
    if k == "move":
        return "move %d %s %d %s" % (d, n, rng.randint(1, 3), rng.choice(["f", "g", "h", "long"]))
    if k in ("moveself", "rmdir", "mkdir", "attrself"):
        return "%s %d" % (k, d)
    return "%s %d %s" % (k, d, n)


def mask(rng):
    k = rng.random()
    if k < 0.4:
        m = list(ALL)
    elif k < 0.7:
        m = rng.choice([[8, 9], [6, 7], [6], [7], [2], [1, 3], [10], [10, 11], [3], [8]])
    else:
        m = [b for b in ALL if rng.random() < 0.5] or [2]
    return hx(m + rng.choice([[], [], [24], [26], [24, 26], [29]]))


def rand_scen(rng, length):
    nw, nh, faults = rng.choice([1, 2, 3, 6]), rng.choice([2, 4, 12]), rng.random() < 0.3
    dirs = rng.choice([[1], [1, 2], [1, 2, 3]])
    out = []
    alias = rng.random() < 0.3
    for _ in range(length):
        w, h, d = rng.randint(1, nw), rng.randint(1, nh), rng.choice(dirs)
        k = rng.choices(["fs", "pump", "new", "cbnew", "cbfree", "ref", "unref", "destroy", "addh", "rmh", "ret", "null", "fail"],
                        [30, 8, 10, 4, 3, 5, 4, 4, 12, 4, 14, 0.5, 2 if faults else 0])[0]
        if k == "fs":
            out += [fsop(rng) for _ in range(rng.choice([1, 1, 2, 4, 12]))]
        elif k == "new":
            out += ["new %d %d %s %d" % (w, d, mask(rng), rng.randint(0, 1) if alias else 0), "addh %d %d" % (w, h)]
        elif k == "cbnew":
            out.append("cbnew %d %d %s %d" % (w, d, mask(rng), h if rng.random() < 0.95 else 0))
            if rng.random() < 0.3:
                # the callback keeps the watch
                out += [fsop(rng), fsop(rng), "pump", "ref %d" % w, "ret", rng.choice(["ret", "cbfree %d" % w])]
        elif k == "fail":
            out.append("fail " + rng.choice(["init", "add", "add 2", "add 28", "read 4", "read 4", "read 5", "poll 8", "poll 16", "poll 32"]))
        elif k in ("addh", "rmh"):
            out.append("%s %d %d" % (k, w, h))
        elif k in ("pump", "ret", "null"):
            out.append(k)
        else:
            out.append("%s %d" % (k, w))
    return out


def burst(rng):
    """More events than fit in one buffer"""
    out = ["new 1 1 %s" % hx(ALL), "addh 1 1", "new 2 2 %s" % hx(ALL), "addh 2 2"]
    for i in range(rng.choice([5, 30, 200])):
        n = "n%d" % i if rng.random() < 0.7 else "long"
        d = rng.randint(1, 2)
        out += ["create %d %s" % (d, n), rng.choice(["move %d %s %d m%d" % (d, n, 3 - d, i), "unlink %d %s" % (d, n), "attr %d %s" % (d, n)])]
    return out + ["pump"]


NMANY = 40
MANY = ["-DNW=%d" % NMANY, "-DND=%d" % NMANY, "-DNH=150"]


def many(rng):
    """Many watches, directories and handlers at once"""
    n = rng.choice([20, 33, NMANY, NMANY])
    out, h = [], 0
    for w in range(1, n + 1):
        if rng.random() < 0.2:
            h += 1
            out.append("cbnew %d %d %s %d" % (w, w, hx(ALL), h))
            continue
        out.append("new %d %d %s" % (w, rng.choice([w, w, w, 1 + w % 3]), hx(ALL)))
        for _ in range(rng.choice([1, 1, 2, 70 if w == 1 or rng.random() < 0.03 else 1])):
            if h < 150:
                h += 1
                out.append("addh %d %d" % (w, h))
    def some(k):
        return [rng.choice(["create %d f%d" % (rng.randint(1, n), rng.randint(1, 3)), "attrself %d" % rng.randint(1, n), "move %d f1 %d f2" % (rng.randint(1, n), rng.randint(1, n))]) for _ in range(k)]
    for _ in range(4):
        out += some(rng.choice([5, 40])) + ["create %d x" % d for d in rng.sample(range(1, n + 1), 5)] + ["pump"]
        for _ in range(rng.choice([0, 3, 10])):
            w = rng.randint(1, n)
            out.append(rng.choice(["rmh %d %d" % (w, rng.randint(1, max(h, 1))), "destroy %d" % w, "unref %d" % w, "cbfree %d" % w, "rmdir %d" % w, "ref %d" % w]))
    return out + ["attrself %d" % d for d in range(1, n + 1)] + ["pump"]


def run(c):
    r = c.mc("Inotify", "MC_Inotify", "MC_Inotify_%s.cfg" % c.tier, edges=True)
    w = [vf.hexlines(w) for w in vf.walks(r, maxlen=80, rng=c.rng)]
    n = 20000 if c.thorough else 2500
    if len(w) > n:
        c.log("%d of %d paths through the graph" % (n, len(w)))
        w = c.rng.sample(w, n)
    # The kernel takes its time to close a descriptor
    kw = {"shards": 32, "runners": 64}
    with Scratch() as env:
        c.validate("inotify", "Inotify", "Trace_Inotify", "Trace_Inotify.cfg", w, label="graph", env=env, passes=1, **kw)
        c.validate("inotify", "Inotify", "Trace_Inotify", "Trace_Inotify.cfg",
                   [rand_scen(c.rng, c.rng.choice([20, 60, 150])) for _ in range(500 if not c.thorough else 5000)], label="random", env=env, **kw)
        c.validate("inotify", "Inotify", "Trace_Inotify", "Trace_Inotify.cfg",
                   [burst(c.rng) for _ in range(12 if not c.thorough else 120)], label="burst", env=env)
        c.validate("inotify", "Inotify", "Trace_Inotify", "Trace_InotifyMany.cfg",
                   [many(c.rng) for _ in range(8 if not c.thorough else 100)], label="many watches", env=env, cflags=MANY)


CHECKS = {"C22": run, "C23": run}
