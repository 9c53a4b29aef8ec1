"""C01, C02: ring buffer"""
import vf

DRIVERS = {"ring": {}}
BIG = [2147483647, -2147483648, 1000000000]


def rand_scen(rng, own, length):
    """A random client. With ownership: distinct elements, a free function and callbacks."""
    maxs = [-1, -1, 0, 1, 2, 3, 5, 8]
    out = ["new %d %d %d" % (rng.choice([0, 0, 1, 2, 3, 5, 10]), rng.choice(maxs), 1 if own else 0)]
    nxt = 1
    depth = 0
    # NULL is as good as any other pointer
    null = rng.choice([0, 0, 1, 2, 3, 5, 8])
    for _ in range(length):
        p = rng.random()
        if own and depth and p < 0.35:
            out.append("cbret")
            depth -= 1
            continue
        k = rng.choices(["put", "putf", "get", "getl", "drop", "dropl", "clear", "setmax", "compact", "flat", "reserve",
                         "canput", "ref", "unref", "flat0", "setfree"],
                        [30, 14, 14, 8, 4, 4, 1, 3, 4, 5, 3, 3, 1, 1, 1, 0] if not own else
                        [34, 14, 6, 4, 8, 8, 3, 4, 3, 3, 2, 1, 1, 1, 1, 0.7])[0]
        if k in ("put", "putf"):
            out.append("%s %d" % (k, (nxt if nxt != null else 0) if own else rng.randint(0, 9)))
            nxt += 1
        elif k in ("drop", "dropl"):
            out.append("%s %d" % (k, rng.choice([0, 1, 1, 2, 3, 4, 7, -1] + BIG[:2])))
            depth += own
        elif k == "setfree":
            out.append("setfree %d" % rng.choice([0, 1, 1]))
        elif k == "setmax":
            out.append("setmax %d" % rng.choice(maxs + [-7, 4]))
            depth += own
        elif k == "reserve":
            out.append("reserve %d" % rng.choice([0, 1, 2, 3, 4, 6, 9, 17, -1]))
        elif k == "canput":
            out.append("canput %d" % rng.choice([0, 1, 2, 3, 5, 8] + BIG))
        else:
            out.append(k)
            if k == "clear":
                depth += own
    return out


def big_scen(rng, own):
    """Hundreds of elements"""
    out, nxt = ["new %d -1 %d" % (rng.choice([0, 5, 300]), own)], 1
    for _ in range(rng.choice([2, 3])):
        for _ in range(rng.choice([130, 260, 300])):
            out.append("%s %d" % (rng.choice(["put"] * 4 + ["putf"]), nxt))
            nxt += 1
        out += rng.choice([["compact"], ["flat"], ["reserve 20"], ["drop 120"], ["dropl 120"], ["setmax 100", "setmax -1"], ["ref", "unref"]])
        out += [rng.choice(["get", "getl"])] * rng.choice([0, 10, 100, 255])
    return out + ([] if own else ["compact", "flat"]) + ["clear"]


def huge_scens(rng, own, sizes):
    """Thousands of elements, so that whatever counts them goes through all orders of magnitude"""
    out = []
    for n in sizes:
        for mode in range(3):
            k = rng.randint(1, n - 1)
            s = ["new %d %d %d" % (rng.choice([0, 0, n // 2]), rng.choice([-1, n, n + k]), own)]
            s += ["putn 1 %d" % n, "%s %d" % (rng.choice(["getn", "getln"]), k), "putn %d %d" % (n + 1, k + rng.choice([0, 1, n]))]
            s += rng.choice([["compact"], ["flat"], ["reserve %d" % (4 * n)], []]) if not own else []
            if own:
                s += ["quiet 1", "drop %d" % rng.choice([k, 300, n - 1]), "dropl 3", "setmax %d" % (n // 4)]
            else:
                s += ["drop %d" % (n // 5), "putf 7", "dropl %d" % (n // 6), "putn %d %d" % (3 * n, 2 * n), "setmax %d" % (n + 3), "getln 5", "getn %d" % n]
            out.append(s + ["clear"])
    return out


def c01(c):
    r = c.mc("Ring", "MC_RingImpl", "MC_RingImpl_%s.cfg" % c.tier, edges=True)
    scens = [vf.lines(w) for w in vf.walks(r, maxlen=80, rng=c.rng)]
    scens.append(["null", "new 0 -1 0", "null"])
    c.validate("ring", "Ring", "Trace_Ring", "Trace_Ring.cfg", scens, label="layouts")
    n = 400 if not c.thorough else 6000
    scens = [rand_scen(c.rng, 0, c.rng.choice([20, 40, 80, 150])) for _ in range(n)]
    scens += huge_scens(c.rng, 0, [257, 1025, 4097] if not c.thorough else [127, 255, 257, 1023, 1025, 4095, 4097, 16385, 32769, 65537])
    scens += [big_scen(c.rng, 0) for _ in range(2 if not c.thorough else 20)]
    c.validate("ring", "Ring", "Trace_Ring", "Trace_Ring.cfg", scens, label="random")


def c02(c):
    r = c.mc("Ring", "MC_Ring", "MC_Ring_%s.cfg" % c.tier, edges=True)
    scens = [vf.lines(w) for w in vf.walks(r, maxlen=60, rng=c.rng)]
    c.validate("ring", "Ring", "Trace_Ring", "Trace_RingOwn.cfg", scens, label="graph")
    n = 500 if not c.thorough else 6000
    scens = [rand_scen(c.rng, 1, c.rng.choice([15, 30, 60, 100])) for _ in range(n)]
    scens += huge_scens(c.rng, 1, [300] if not c.thorough else [300, 1025, 2050])
    scens += [big_scen(c.rng, 1) for _ in range(2 if not c.thorough else 20)]
    c.validate("ring", "Ring", "Trace_Ring", "Trace_RingOwn.cfg", scens, label="random")


CHECKS = {"C01": c01, "C02": c02}
