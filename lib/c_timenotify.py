"""C25: notifications of system time changes"""
import vf

DRIVERS = {"timenotify": {}}


def rand_scen(rng, length):
    hup = rng.choice([0, 0, 2])
    nh = rng.choice([1, 2, 3, 8])
    out = []
    for _ in range(length):
        k = rng.choices(["new", "ref", "unref", "addh", "rmh", "change", "pump", "ret", "fail", "null", "hup"],
                        [8, 3, 8, 16, 6, 10, 10, 16, 1, 0.5, hup])[0]
        if k in ("addh", "rmh"):
            k += " %d" % rng.randint(1, nh)
        elif k == "fail":
            k += rng.choice([" create", " settime"])
        out.append(k)
    return out


def many(rng):
    """Many handlers"""
    n = rng.choice([17, 33, 65, 129, 300])
    out = ["new"] + ["addh %d" % (i + 1) for i in range(n)] + ["change", "pump"]
    for _ in range(3):
        out += [rng.choice(["rmh %d", "addh %d"]) % rng.randint(1, n) for _ in range(rng.choice([1, 20, 100]))] + ["change"] + ["ret"] * 3 + ["pump"]
    return out


def c25(c):
    r = c.mc("TimeNotify", "MC_TimeNotify", "MC_TimeNotify_%s.cfg" % c.tier, edges=True)
    c.validate("timenotify", "TimeNotify", "Trace_TimeNotify", "Trace_TimeNotify.cfg",
               [vf.lines(w) for w in vf.walks(r, maxlen=100, rng=c.rng)], label="graph")
    c.validate("timenotify", "TimeNotify", "Trace_TimeNotify", "Trace_TimeNotify.cfg",
               [rand_scen(c.rng, c.rng.choice([20, 60, 200])) for _ in range(400 if not c.thorough else 10000)], label="random")
    c.validate("timenotify", "TimeNotify", "Trace_TimeNotify", "Trace_TimeNotify.cfg",
               [many(c.rng) for _ in range(6 if not c.thorough else 100)], label="many", cflags=["-DNH=300"])


CHECKS = {"C25": c25}
