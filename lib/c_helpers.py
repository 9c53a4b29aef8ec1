"""C27: helpers for handlers, sources, references and vectors"""
import vf

DRIVERS = {"helpers": {}}


def rand_scen(rng, length):
    out = []
    for _ in range(length):
        k = rng.choices(["conn", "disc", "add", "stay", "remove", "clear", "emit", "iter", "ret", "none", "oref", "ounref",
                         "ptrv", "memdup", "strlen"],
                        [16, 8, 10, 5, 6, 6, 8, 8, 34, 1, 2, 2, 2, 2, 1])[0]
        x = {"conn": lambda: rng.choice([0, rng.randint(1, 6), rng.randint(1, 6)]), "disc": lambda: rng.choice([-1, 0, 1, 2, 3, 4, 5, 6, 6]),
             "ptrv": lambda: rng.choice([-1, 0, 1, 2, rng.randint(3, 40)]), "strlen": lambda: rng.choice([-1, 0, 1, rng.randint(2, 300)])}
        if k == "memdup":
            n = rng.choice([0, 1, 2, rng.randint(3, 60)])
            out.append("memdup null %d" % n if rng.random() < 0.2 else "memdup " + ("".join("%02x" % rng.randrange(256) for _ in range(n)) or "-"))
        elif k in x:
            out.append("%s %d" % (k, x[k]()))
        elif k in ("add", "stay", "remove", "clear"):
            out.append("%s %d" % (k, rng.randint(1, 4)))
        else:
            out.append(k)
    return out


SLOTS = 130


def many(rng):
    """Many handlers in the same array, some of which are gone already"""
    out = []
    slots = list(range(1, SLOTS + 1))
    rng.shuffle(slots)
    for i in slots[:rng.choice([SLOTS, SLOTS, 100])]:
        out.append("conn %d" % (i if rng.random() < 0.97 else 0))
    out += ["emit"] + ["ret"] * rng.choice([150, 20, 3])
    out += ["disc %d" % rng.choice([SLOTS, SLOTS, 17, 33, 65, 128, 129])] + ["ret"] * rng.choice([0, 10, 150]) + ["ret"] * 150
    return out + ["emit"] + ["ret"] * 150 + ["disc %d" % rng.choice([SLOTS, 100])] + ["ret"] * 150


def c27(c):
    for k in ("sig", "src"):
        r = c.mc("Helpers", "MC_Helpers", "MC_Helpers_%s_%s.cfg" % (k, c.tier), edges=True)
        c.validate("helpers", "Helpers", "Trace_Helpers", "Trace_Helpers.cfg",
                   [vf.lines(w) for w in vf.walks(r, maxlen=100, rng=c.rng)], label="graph-" + k)
    fixed = [["version", "none"] + ["ptrv %d" % i for i in range(-1, 20)] + ["strlen %d" % i for i in range(-1, 20)] +
             ["memdup null 0", "memdup null 5", "memdup -"] + ["memdup " + "00" * i for i in range(1, 10)]]
    # sizes which don't fit in fewer bits than they should
    fixed += [["ptrv %d" % n, "strlen %d" % n, "memdup big %d" % n] for n in
              (127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 65537, 70000)]
    c.validate("helpers", "Helpers", "Trace_Helpers", "Trace_Helpers.cfg",
               fixed + [rand_scen(c.rng, c.rng.choice([30, 150])) for _ in range(400 if not c.thorough else 8000)], label="random")
    c.validate("helpers", "Helpers", "Trace_Helpers", "Trace_HelpersMany.cfg",
               [many(c.rng) for _ in range(8 if not c.thorough else 100)], label="many", cflags=["-DNS=%d" % SLOTS])


CHECKS = {"C27": c27}
