"""C26: reference counts, operations of several threads in all orders"""
import itertools
import vf

LD = ["-Wl,--wrap=memcpy"]
FL = ("srel", "sdbg")
DRIVERS = {"refcount": {"ldflags": LD, "flavours": FL}}
TYPES = ["ring", "queue", "pool", "history", "ints", "intsg", "intss", "weakref"]
EXTRA = {"ints": ["xref", "xunref", "data"], "intsg": ["xref", "xunref", "data"], "intss": ["xref", "xunref", "data"]}


def explore(t, own, progs, bound, limit, seed=0):
    return ["type " + t, "own %d %d %d" % own] + ["prog %d %s" % (i + 1, " ".join(p)) for i, p in enumerate(progs) if p] + \
        ["explore %d %d %d" % (bound, limit, seed)]


def small(t, thorough):
    """All programs of two operations in two threads, and of one in three"""
    drop = ["unref"] + (["data"] if t in EXTRA else [])
    acts = ["ref", "use"] + drop + (["xref"] if t in EXTRA else [])
    out = []
    two = [p for p in itertools.product(acts + ["xunref"], repeat=2)]
    for a, b in itertools.combinations_with_replacement(two, 2):
        if not set(a + b) & set(drop) or "xunref" in (a[0], b[0]):
            continue
        out.append(explore(t, (1, 1, 0), [a, b], 9, 3000))
    for p in itertools.combinations_with_replacement(acts, 3):
        if set(p) & set(drop):
            out.append(explore(t, (1, 1, 1), [[x] for x in p], 9, 3000))
    return out


def big(rng, t, thorough):
    acts = ["ref"] * 3 + ["use", "null"] + ["unref"] * 4 + EXTRA.get(t, []) * 2
    own = (rng.randint(1, 2), rng.randint(1, 2), rng.randint(0, 2))
    progs = [[rng.choice(acts) for _ in range(rng.randint(2, 8))] for _ in range(3)]
    if rng.random() < 0.6:
        return explore(t, own, progs, rng.choice([1, 2]), 300)
    return explore(t, own, progs, 99, 60 if not thorough else 200, rng.randrange(1, 1 << 30))


def many(rng, t, n):
    """More references than fit in a few bits"""
    out = ["type " + t, "own 1 1 0"]
    inv = lambda th, op: ["inv %d %s" % (th, op), "lin %d" % th, "res %d" % th]
    for k in (n - 3, 1, 1, 1, 1, 5, -rng.randint(1, 9)):
        out += ["many 1 %d" % k] + inv(2, "use") + inv(rng.choice([1, 2]), rng.choice(["use", "ref", "unref", "null"])) + ["inv 2 ref"]
    return out + ["many 1 %d" % (4 - n)] + inv(1, "use") + inv(1, "ref") + inv(2, "use")


def c26(c):
    r = c.mc("RefCount", "MC_RefCount", "MC_RefCount_%s.cfg" % c.tier, edges=True)
    ws = [vf.lines(w) for w in vf.walks(r, maxlen=60, rng=c.rng)]
    kw = dict(ldflags=LD, flavours=FL)
    c.validate("refcount", "RefCount", "Trace_RefCount", "Trace_RefCount.cfg",
               [["type " + t] + w for i, w in enumerate(ws) for k, t in enumerate(TYPES) if c.thorough or (i + k) % 4 == 0],
               label="graph", **kw)
    c.validate("refcount", "RefCount", "Trace_RefCount", "Trace_RefCount.cfg",
               [many(c.rng, t, n) for t in TYPES for n in (127, 255, 256, 1024, 32767, 32768, 65535, 65536) + ((2**20, 2**24) if c.thorough else ())], label="many", **kw)
    sc = []
    for t in TYPES:
        s = small(t, c.thorough)
        if not c.thorough and len(s) > 60:
            s = c.rng.sample(s, 60)
        sc += s
    c.rng.shuffle(sc)
    c.validate("refcount", "RefCount", "Trace_RefCount", "Trace_RefCount.cfg", sc, label="all interleavings", shards=8, **kw)
    c.validate("refcount", "RefCount", "Trace_RefCount", "Trace_RefCount.cfg",
               [big(c.rng, t, c.thorough) for t in TYPES for _ in range(8 if not c.thorough else 100)], label="programs",
               shards=8, **kw)


CHECKS = {"C26": c26}
