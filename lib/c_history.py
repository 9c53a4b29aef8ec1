"""C07: integer history"""
import vf

DRIVERS = {"history": {}}
I32 = [-2**31, -2**31 + 1, -1, 0, 1, 2, 3, 2**31 - 1, 2**31 - 2, 1000000007, -1000000009]


def rand_scen(rng, length):
    mode = rng.choice("AABCDD")
    size = rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 20])
    if mode == "A":      # extreme values
        span = rng.choice([1, 2, 3, 7, 50, 1000, 2**30])
    elif mode == "B":    # long time
        span = rng.choice([2**31, 2**33 + 5, 2**40, 2**50])
    elif mode == "D":    # both
        span = rng.choice([2**30, 2**31, 2**32 - 1, 2**33, 2**36, 2**48, 2**55])
    else:                # time can go backwards, nothing ever expires
        span = 2**52

    if rng.random() < 0.1 and mode in "AB":
        unit, span = span, 2**63 - rng.choice([1, 1, 2, 1000])
    else:
        unit = span

    def val():
        if mode == "A":
            return rng.choice(I32) if rng.random() < 0.7 else rng.randint(-2**31, 2**31 - 1)
        if mode == "D":
            m = rng.choice([3, 1000, 10**6, 2**31 - 1, 2**31 - 1])
            return rng.choice([m, m, -m, -m - 1, 0, rng.randint(-m, m), rng.randint(m // 2, m)])
        return rng.randint(-1000, 1000)
    out = []
    if rng.random() < 0.1:
        out.append("new %d %d" % rng.choice([(0, 1), (1, 0), (-1, 5), (5, -1), (0, 0)]))
    out.append("time %d" % rng.choice([0, 1, 1000, 2**31, 2**40, 2**61, -1, -1000, -2**31 - 7] if mode != "D" else [0, 1000, 2**40]))
    if rng.random() < 0.1:
        out.append("null")
    out.append("%s %d %d" % (rng.choice(["new", "new", "newdef"]), size, span))
    for _ in range(length):
        k = rng.choices(["add", "tick", "look", "clear", "ref", "unref", "null"], [40, 35, 22, 2, 1, 1, 0.3])[0]
        if k == "add":
            out.append("add %d" % val())
        elif k == "tick":
            w = max(1, unit // rng.choice([1, 2, 3, size, size + 1, 2 * size]))
            d = rng.choice([1, 2, 3, w, w, w + 1, w - 1, rng.randint(1, w), unit, unit + 1])
            if mode == "C":
                d = rng.choice([-5, -1, 1, 2, 3, rng.randint(0, 2**20)])
            out.append("tick %d" % d)
        elif k == "look":
            s = list("sim")
            rng.shuffle(s)
            s = "".join(s[:rng.randint(1, 3)])
            if mode == "C":
                s = s.replace("i", "") or "m"
            out.append("look %s %d" % (s, val()))
        else:
            out.append(k)
    return out


def big_scen(rng):
    """Hundreds of samples"""
    n = rng.choice([255, 256, 257, 300])
    out = ["time 0", "new %d %d" % (n, rng.choice([n, 2 * n, 2**40]))]
    for i in range(n + 30):
        out += ["tick 1", "add %d" % rng.randint(-1000, 1000)]
    return out + ["look sim 0", "tick %d" % (n // 2), "look sim 0", "look"]


def long_scen(rng, n, span):
    """Very many samples, of which span are alive"""
    out = ["lnew %d %d" % (n, span)]
    done = 0
    while done < n + 400:
        k = rng.choice([1, 2, span // 2 + 1, span - 1, span, span + 1, 3 * span, 1000])
        k = min(k, 20 * 10**6 // min(n, span))
        out += ["fill %d" % max(k, 1), "llook"]
        done += max(k, 1)
        if rng.random() < 0.3:
            out += ["gap %d" % rng.choice([1, 2, span // 2, span - 1]), "llook"]
    return out + ["gap %d" % (span // 3 + 1), "llook", "fill 3", "llook", "clear", "llook", "fill 5", "llook", "gap %d" % (span + 1), "llook"]


def full_scen(rng, n):
    """All of them are alive"""
    out = ["lnew %d %d" % (n, 10**9)]
    return out + ["fill %d" % (n - 2)] + ["llook", "fill 1"] * 5 + ["gap 70000", "llook", "fill 2", "llook"]


def c07(c):
    c.mc("History", "MC_LongHistory", "MC_LongHistory_%s.cfg" % c.tier)
    scens = [full_scen(c.rng, n) for n in ([1000, 4097, 33000] if not c.thorough else [255, 256, 257, 1000, 4097, 32767, 33000, 70000])]
    scens += [long_scen(c.rng, n, c.rng.choice([7, 10, 20, 100])) for n in [255, 256, 257, 1000, 4096, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000] + ([100000, 300000] if c.thorough else [])]
    c.validate("history", "History", "Trace_LongHistory", "Trace_LongHistory.cfg", scens, label="long")
    for cfg, news in (("MC_History_%s.cfg", (3, 3) if not c.thorough else (4, 5)), ("MC_History_1_%s.cfg", (1, 2) if not c.thorough else (2, 4))):
        r = c.mc("History", "MC_History", cfg % c.tier, edges=True)
        scens = [["time %d" % c.rng.choice([0, 10, 2**40]), "new %d %d" % news] + vf.lines(w) + ["look"] for w in vf.walks(r, maxlen=80, rng=c.rng)]
        c.validate("history", "History", "Trace_History", "Trace_History.cfg", scens, label="graph %d-%d" % news)
    scens = [rand_scen(c.rng, c.rng.choice([20, 60, 120])) for _ in range(600 if not c.thorough else 20000)]
    scens += [big_scen(c.rng) for _ in range(1 if not c.thorough else 8)]
    c.validate("history", "History", "Trace_History", "Trace_History.cfg", scens, label="random")


CHECKS = {"C07": c07}
