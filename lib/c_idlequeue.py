"""C03, C04: idle queue"""
import vf

DRIVERS = {"idlequeue": {}}


def rand_scen(rng, length, nq, cancels, nested=False):
    out = ["new %d" % (i + 1) for i in range(nq)]
    x = 0
    if rng.random() < 0.5:
        out.append("nullx %d" % rng.randint(1, 8))
    for _ in range(length):
        q = rng.randint(1, nq)
        w = {"add": 40, "iter": 12, "cbret": 34, "pending": 2, "contains": 2, "ref": 2, "new": 1, "ctx": 1,
             "otherloop": 1, "null": 1}
        if nested:
            w.update({"niter": 14})
        if cancels:
            w.update({"cancel": 10, "cancelall": 4, "unref": 3, "free": 2})
        k = rng.choices(list(w), list(w.values()))[0]
        if k == "add":
            x += 1
            run, d = rng.choices([(1, 1), (1, 0), (0, 1), (0, 0)], [70, 15, 10, 5])[0]
            out.append("add %d %d %d %d %d" % (q if rng.random() > 0.04 else 0, x, rng.choice([0, 1, 1, 2, 3]), run, d))
        elif k in ("cancel", "contains"):
            out.append("%s %d %d" % (k, q, rng.choice([0, 1, 1, 2, 3])))
        elif k in ("cancelall", "unref", "free", "ref", "new"):
            out.append("%s %d" % (k, q))
        else:
            out.append(k)
    return out


def many_scen(rng, n, cancels):
    """Lots of calls waiting at the same time"""
    def add(x):
        run, d = rng.choices([(1, 1), (1, 0), (0, 1), (0, 0)], [70, 15, 10, 5])[0]
        return ["add 1 %d %d %d %d" % (x, rng.choice([0, 1, 2, 3] if rng.random() < 0.05 else [1]), run, d)], run + d
    out, cbs = ["new 1", "new 2"], 0
    for x in range(1, n + 1):
        a, k = add(x)
        out += a
        cbs += k
    if cancels:
        out += ["cancel 1 3", "cbret", "cancel 1 0", "cbret", rng.choice(["cancelall 1", "iter", "free 1", "unref 1"])]
    else:
        out.append("iter")
    # more of them are added by a few of the callbacks
    for i in range(cbs):
        if i in (cbs // 3, cbs - 2):
            for x in range(3):
                n += 1
                out += add(n)[0]
        out.append("cbret")
    return out + ["pending", "iter"] + ["cbret"] * 12 + ["iter", "pending"]


def nested(c):
    r = c.mc("IdleQueue", "MC_IdleQueue", "MC_IdleQueue_nested_%s.cfg" % c.tier, edges=True)
    c.validate("idlequeue", "IdleQueue", "Trace_IdleQueue", "Trace_IdleQueue.cfg",
               [vf.lines(w) for w in vf.walks(r, maxlen=60, rng=c.rng)], label="graph, nested loops")


def c03(c):
    nested(c)
    r = c.mc("IdleQueue", "MC_IdleQueue", "MC_IdleQueue_order_%s.cfg" % c.tier, edges=True)
    scens = [(["nullx 1"] if i & 1 else []) + vf.lines(w) for i, w in enumerate(vf.walks(r, maxlen=60, rng=c.rng))]
    c.validate("idlequeue", "IdleQueue", "Trace_IdleQueue", "Trace_IdleQueue.cfg", scens, label="graph")
    n = 400 if not c.thorough else 8000
    scens = [rand_scen(c.rng, c.rng.choice([20, 40, 80]), c.rng.choice([1, 1, 2, 3]), c.rng.random() < 0.5) for _ in range(n)]
    scens += [rand_scen(c.rng, c.rng.choice([20, 40, 80]), c.rng.choice([1, 2, 2, 3]), c.rng.random() < 0.5, True) for _ in range(n // 4)]
    scens += [many_scen(c.rng, k, False) for k in ([130, 300] if not c.thorough else [130, 300, 600, 1100])]
    c.validate("idlequeue", "IdleQueue", "Trace_IdleQueue", "Trace_IdleQueue.cfg", scens, label="random")


def c04(c):
    r = c.mc("IdleQueue", "MC_IdleQueue", "MC_IdleQueue_%s.cfg" % c.tier, edges=True)
    scens = [(["nullx 1"] if i & 1 else []) + vf.lines(w) for i, w in enumerate(vf.walks(r, maxlen=60, rng=c.rng))]
    c.validate("idlequeue", "IdleQueue", "Trace_IdleQueue", "Trace_IdleQueue.cfg", scens, label="graph")
    n = 500 if not c.thorough else 8000
    scens = [rand_scen(c.rng, c.rng.choice([20, 40, 80]), c.rng.choice([1, 1, 2, 3]), True) for _ in range(n)]
    scens += [rand_scen(c.rng, c.rng.choice([20, 40, 80]), c.rng.choice([1, 2, 2, 3]), True, True) for _ in range(n // 5)]
    scens += [many_scen(c.rng, k, True) for k in ([130, 300] if not c.thorough else [130, 300, 300, 600, 1100])]
    c.validate("idlequeue", "IdleQueue", "Trace_IdleQueue", "Trace_IdleQueue.cfg", scens, label="random")


CHECKS = {"C03": c03, "C04": c04}
