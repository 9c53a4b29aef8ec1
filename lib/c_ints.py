"""C09, C10: immutable integer arrays"""
import itertools
import vf

DRIVERS = {"ints": {}}
I32 = [-2**31, -2**31 + 1, -2, -1, 0, 1, 2, 255, 256, 257, 65536, 2**24, 2**31 - 2, 2**31 - 1]
HUGE = 2**31 - 1
KINDS = ["copy", "take", "static", "func", "gfree"]


def rand_scen(rng, length, laws):
    few = rng.sample(I32, rng.choice([1, 2, 3]))
    val = lambda: rng.choice(few) if rng.random() < 0.9 else rng.randint(-2**31, 2**31 - 1)
    out, n = [], 0
    pos = lambda: rng.choice([0, 0, 1, 1, 2, 3, 5, HUGE - 1, HUGE, 2**32 - 2, 2**32 - 1, rng.randint(0, 20)])
    for _ in range(length):
        k = rng.choices(["new", "slice", "ref", "unref", "todata", "find", "null", "laws"],
                        [16, 20, 8, 14, 8, 8, 1, 14 if laws else 1])[0]
        i = rng.randint(1, max(1, n))
        if k == "new" and n < 12:
            n += 1
            out.append("new %d %s %s" % (n, rng.choice(KINDS), " ".join(str(val()) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 5, 20])))))
        elif k == "slice" and n < 12:
            n += 1
            out.append("slice %d %d %d %d" % (n, i, pos(), pos()))
        elif k == "find":
            out.append("find %d %d" % (i, val()))
        elif k in ("null", "laws"):
            out.append(k)
        else:
            out.append("%s %d" % (k, i))
    return [o.strip() for o in out]


def validate(c, scens, label):
    c.validate("ints", "Ints", "Trace_Ints", "Trace_Ints.cfg", scens, label=label)


def big_scen(rng, n=0):
    n = n or rng.choice([64, 255, 256, 257, 1000, 1024, 4096, 16383, 16384, 16385, 20000])
    out = ["%d,%d,7,%d" % (n, n - 1, rng.choice([0, 1]))]
    for _ in range(3):
        size = rng.choice([n, n, n, n - 1, n + 1])
        out.append("%d,%d,%d,%d" % (size, rng.choice([0, 1, size - 1, size - 1, size - 2, size // 2, rng.randrange(size)]),
                                    rng.choice([0, 1, -1, 256, 2**31 - 1, -2**31]), rng.choice([0, 0, 1, 5])))
    return ["bigs " + " ".join(out)]


def sizes_scen(rng, n, d):
    """Sizes which differ by a round number, and nothing else or the last value"""
    return ["bigs %d,0,0,0 %d,0,0,1 %d,%d,5,0 %d,%d,5,0" % (n, n + d, n, n - 1, n + d, n - 1),
            "bigs %d,0,0,0 %d,%d,-1,0 %d,%d,1,0" % (n, n + d, n + d - 1, n + d, n)]


def c09(c):
    r = c.mc("Ints", "MC_Ints", "MC_Ints_%s.cfg" % c.tier, edges=True)
    validate(c, [vf.lines(w) for w in vf.walks(r, maxlen=60, rng=c.rng)], "graph")
    huge = [32767, 32768, 65535, 65536, 65537, 70000] + ([131073, 300000] if c.thorough else [])
    validate(c, [big_scen(c.rng, n) for n in huge], "large")
    validate(c, [rand_scen(c.rng, c.rng.choice([20, 50]), False) for _ in range(800 if not c.thorough else 20000)], "random")


def c10(c):
    r = c.mc("Ints", "MC_IntsOrder", "MC_IntsOrder_%s.cfg" % c.tier, edges=True)
    # all arrays enumerated by the specification, in groups such that every three meet
    arrs = [op[1:] for (_, op, _) in r.edges]
    groups = 4
    parts = [arrs[k::groups * 3] for k in range(groups * 3)]
    scens = []
    for a, b, d in itertools.combinations_with_replacement(range(len(parts)), 3):
        mine = [x for k in sorted({a, b, d}) for x in parts[k]]
        for s in range(0, len(mine), 12):
            sc = ["new %d %s %s" % (k + 1, c.rng.choice(KINDS), " ".join(map(str, x))) for k, x in enumerate(mine[s:s + 12])]
            scens.append([x.strip() for x in sc] + ["laws"])
    validate(c, scens, "enumerated")
    validate(c, [sizes_scen(c.rng, n, d) for n in (1, 3, 10) for d in (16, 32, 128, 256, 1024, 4096, 32768, 65536)], "sizes")
    validate(c, [big_scen(c.rng) for _ in range(40 if not c.thorough else 600)], "large")
    validate(c, [rand_scen(c.rng, c.rng.choice([30, 50]), True) for _ in range(600 if not c.thorough else 15000)], "random")


CHECKS = {"C09": c09, "C10": c10}
