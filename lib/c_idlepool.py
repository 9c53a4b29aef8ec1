"""C05, C06: idle pool"""
import vf

DRIVERS = {"idlepool": {}}
KINDS = ["g"] * 4 + ["o", "v", "a", "b", "s", "O", "V", "A", "B", "Ko", "Kv", "Ka", "Kb"]


def rand_scen(rng, length, shared, ctx, threads, nested=False):
    out, x, kept, np = [], 0, [], 0
    for _ in range(rng.randint(0, 2) if not shared else 0):
        out.append("new")
        np += 1
    if rng.random() < 0.5:
        out.append("nullx %d" % rng.randint(1, 8))
    for _ in range(length):
        p = 9 if (np == 0 or rng.random() < 0.12) else rng.randint(max(1, np - 3), np)
        w = {"add": 40, "cbret": 30, "iter": 14, "drain": 4, "destroy": 3, "unref": 4, "ref": 4, "new": 3,
             "dropkept": 6, "pending": 3, "null": 1, "default": 1}
        if shared:
            w.update({"get": 14, "ref": 9})
        if ctx:
            w["ctx"] = 7
            w["ctxgone"] = 1.5
        if nested:
            w["niter"] = 14
        if threads:
            w["thr"] = 7
        k = rng.choices(list(w), list(w.values()))[0]
        if k == "add":
            x += 1
            kind = rng.choice(KINDS)
            if kind[0] == "K":
                kept.append(x)
            out.append("add %d %d %s" % (p, x, kind))
        elif k == "thr":
            n = rng.randint(1, 3)
            out.append("thr %d %d %d" % (x + 1, n, rng.randint(0, 1)))
            x += n
            np += 1
        elif k == "dropkept":
            out.append("dropkept %d" % (rng.choice(kept) if kept else 0))
        elif k in ("iter", "niter", "pending"):
            out.append("%s %d" % (k, rng.choice([1, 2]) if ctx else 1))
        elif k == "get":
            out.append("get %d" % rng.choice([1, 1, 2]))
            np += 1
        elif k in ("new", "cbret", "ctx", "ctxgone", "null", "default"):
            out.append(k)
            np += k == "new"
        else:
            out.append("%s %d" % (k, p))
    return out


def worker_scen(rng, length):
    """A thread which uses its default pool for a while"""
    out, x, on = [], 0, False
    if rng.random() < 0.3:
        out.append("nullx %d" % rng.randint(1, 8))
    for _ in range(length):
        w = {"wstart": 4 if on else 30, "wadd": 30, "wdrain": 6, "wexit": 4, "witer": 12, "iter": 12, "pending": 4, "cbret": 25,
             "thr": 2, "add": 3, "drain": 1, "ctx": 1}
        k = rng.choices(list(w), list(w.values()))[0]
        if k == "wstart":
            out.append("wstart %d" % rng.randint(0, 1))
            on = True
        elif k == "wadd":
            n = rng.choice([1, 1, 2, 3, 12])
            out.append("wadd %d %d" % (x + 1, n))
            x += n
        elif k == "thr":
            out.append("thr %d 1 %d" % (x + 1, rng.randint(0, 1)))
            x += 1
        elif k == "add":
            x += 1
            out.append("add 9 %d %s" % (x, rng.choice(KINDS[:13])))
        elif k in ("iter", "pending"):
            out.append("%s %d" % (k, rng.choice([1, 1, 2])))
        elif k == "drain":
            out.append("drain 9")
        else:
            on = on and k != "wexit"
            out.append(k)
    return out


def many_scen(rng, n):
    """Lots of things to release"""
    p = rng.choice([1, 1, 9])
    out = ["new"] + ["add %d %d %s" % (p, x, rng.choice(KINDS[:13])) for x in range(1, n + 1)]
    out.append(rng.choice(["iter 1", "drain %d" % p] + (["destroy 1", "unref 1"] if p == 1 else [])))
    cbs = n
    for i in range(cbs):
        if i in (n // 3, n - 5):
            for x in range(3):
                cbs += 1
                out.append("add %d %d %s" % (p, cbs, rng.choice(KINDS[:13])))
        out.append("cbret")
    return out + ["cbret"] * 8 + ["pending 1", "iter 1"] + ["cbret"] * 8 + ["pending 1"]


def check(c, cfgs, n, **kw):
    for cfg in cfgs:
        r = c.mc("IdlePool", "MC_IdlePool", "MC_IdlePool_%s_%s.cfg" % (cfg, c.tier), edges=True)
        scens = [vf.lines(w) for w in vf.walks(r, maxlen=60, rng=c.rng)]
        scens = [(["nullx 1"] if i & 1 else []) + s for i, s in enumerate(scens)]
        c.validate("idlepool", "IdlePool", "Trace_IdlePool", "Trace_IdlePool.cfg", scens, label="graph " + cfg)
    scens = []
    for _ in range(n if not c.thorough else n * 15):
        shared = c.rng.random() < 0.4
        scens.append(rand_scen(c.rng, c.rng.choice([20, 40, 80]), shared, c.rng.random() < kw.get("ctx", 0.3), c.rng.random() < kw.get("thr", 0.2), c.rng.random() < 0.25))
    scens += [worker_scen(c.rng, c.rng.choice([15, 30, 60])) for _ in range(kw.get("worker", 0) * (15 if c.thorough else 1))]
    scens += [many_scen(c.rng, k) for k in ([70, 140, 280] if not c.thorough else [70, 140, 140, 280, 280, 280, 550, 1100])]
    c.validate("idlepool", "IdlePool", "Trace_IdlePool", "Trace_IdlePool.cfg", scens, label="random")


def c05(c):
    check(c, ["own", "nested"], 500)


def c06(c):
    check(c, ["shared", "ctx", "gone", "worker"], 500, ctx=0.6, thr=0.3, worker=150)


CHECKS = {"C05": c05, "C06": c06}
