"""C24: counted weak references"""
import itertools
import vf

WRAP = ["-Wl,--wrap=memcpy"] + ["-Wl,--wrap=" + f for f in ("g_weak_ref_init", "g_weak_ref_set", "g_weak_ref_get", "g_weak_ref_clear",
                                                            "g_object_ref", "g_object_unref")]
STEPS = dict(ldflags=WRAP, flavours=("srel", "sdbg"))
DRIVERS = {"weakref": {}, "weaksteps": STEPS}


def rand_scen(rng, length):
    no, nr = rng.choice([1, 2, 6]), rng.choice([1, 2, 3])
    out = ["obj 1", "wnew 1 1"]
    for _ in range(length):
        o, r = rng.randint(1, no), rng.randint(1, nr)
        k = rng.choices(["obj", "oref", "ounref", "wnew", "wref", "wunref", "wset", "wget", "ret", "null"],
                        [6, 6, 14, 10, 4, 8, 10, 16, 8, 0.3])[0]
        if k in ("wnew", "wset"):
            out.append("%s %d %d" % (k, r, rng.choice([0, o, o, o])))
        elif k in ("obj", "oref", "ounref"):
            out.append("%s %d" % (k, o))
        elif k in ("ret", "null"):
            out.append(k)
        else:
            out.append("%s %d" % (k, r))
    return out


def thread_scen(rng):
    no, nr = rng.randint(1, 3), rng.choice([1, 1, 2])
    out = []
    for o in range(1, no + 1):
        out.append("obj %d" % o)
        out += ["oref %d" % o] * rng.choice([0, 1, 1, 2])
    out += ["wnew %d %d" % (r, rng.randint(1, no)) for r in range(1, nr + 1)]
    for _ in range(rng.choice([1, 1, 2])):
        out.append("threads %d %d %d" % (rng.randrange(1 << 30), rng.choice([2, 3, 3, 4]), rng.choice([2, 3, 4])))
    return out


def steps(own, wown, targets, progs, bound, limit, seed=0):
    return ["own %d %d %d" % x for x in own] + ["wown %d %d %d" % x for x in wown] + ["target %d %d" % x for x in targets] + \
        ["prog %d %s" % (i + 1, " ".join(p)) for i, p in enumerate(progs) if p] + ["explore %d %d %d" % (bound, limit, seed)]


def small():
    """Two threads: everything they can do to a weak reference in two steps each, and one step of three"""
    acts = ["get1", "set10", "set11", "set12", "wref1", "wunref1", "unref1", "unref2", "oref1"]
    two = list(itertools.product(acts, repeat=2))
    out = []
    for a, b in itertools.combinations_with_replacement(two, 2):
        for t in (0, 1, 2):
            out.append(steps([(1, 1, 1), (2, 2, 1)], [(1, 1, 1), (2, 1, 1)], [(1, t)], [a, b], 9, 4000))
            out.append(steps([(1, 1, 1), (2, 1, 1), (2, 2, 1)], [(1, 1, 1), (2, 1, 1)], [(1, t)], [a, b], 9, 4000))
    for p in itertools.combinations_with_replacement(acts, 3):
        for t in (0, 1, 2):
            out.append(steps([(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 1)], [(1, 1, 1), (2, 1, 1), (3, 1, 1)], [(1, t)], [[x] for x in p], 9, 4000))
    return out


def programs(rng, thorough):
    acts = ["get1"] * 3 + ["get2", "set10", "set20", "set11", "set12", "set13", "set21", "set22", "wref1", "wunref1", "wunref2"] + \
        ["unref1", "unref2", "unref3"] * 2 + ["oref1"]
    own = [(t, o, rng.choice([0, 1, 1, 2])) for t in (1, 2, 3) for o in (1, 2, 3)]
    wown = [(t, r, rng.choice([0, 1, 1, 2])) for t in (1, 2, 3) for r in (1, 2)]
    have = {o for _, o, n in own if n}
    targets = [(r, rng.choice(sorted(have | {0}))) for r in (1, 2)]
    progs = [[rng.choice(acts) for _ in range(rng.randint(2, 8))] for _ in range(3)]
    if rng.random() < 0.5:
        return steps(own, wown, targets, progs, rng.choice([1, 2]), 300)
    return steps(own, wown, targets, progs, 99, 60 if not thorough else 200, rng.randrange(1, 1 << 30))


def c24(c):
    r = c.mc("WeakRef", "MC_WeakRef", "MC_WeakRef_%s.cfg" % c.tier, edges=True)
    c.validate("weakref", "WeakRef", "Trace_WeakRef", "Trace_WeakRef.cfg",
               [vf.lines(w) for w in vf.walks(r, maxlen=100, rng=c.rng)], label="graph")
    c.validate("weakref", "WeakRef", "Trace_WeakRef", "Trace_WeakRef.cfg",
               [rand_scen(c.rng, c.rng.choice([20, 80])) for _ in range(300 if not c.thorough else 6000)], label="random")
    # Operations of different threads overlap: every recorded history has to be linearizable
    c.validate("weakref", "WeakRef", "Trace_WeakRef", "Trace_WeakRef.cfg",
               [thread_scen(c.rng) for _ in range(600 if not c.thorough else 6000)], label="threads")
    # The same with every interleaving of their steps
    sc = small()
    sc = c.rng.sample(sc, 300 if not c.thorough else 8000)
    c.validate("weaksteps", "WeakRef", "Trace_WeakRef", "Trace_WeakRef.cfg", sc, label="all interleavings", shards=8, **STEPS)
    c.validate("weaksteps", "WeakRef", "Trace_WeakRef", "Trace_WeakRef.cfg",
               [programs(c.rng, c.thorough) for _ in range(60 if not c.thorough else 700)], label="programs", shards=8, **STEPS)


CHECKS = {"C24": c24}
