"""C13: object vectors"""
import vf

DRIVERS = {"objv": {}}
HUGE = 2**31 - 1


def rand_scen(rng, length):
    no = rng.choice([1, 2, 3, 6])
    out = ["obj %d" % (i + 1) for i in range(no)]
    big = rng.choice([3, 6, 20])
    pos = lambda: rng.choice([0, 0, 1, 2, 3, rng.randint(0, big), HUGE, HUGE - 1])
    for _ in range(length):
        v, o = rng.choice([1, 1, 2, 3]), rng.randint(1, no)
        k = rng.choices(["obj", "objdrop", "new", "free", "copy", "add", "insert", "append", "removeat", "remove", "look", "equal", "null"],
                        [2, 4, 6, 3, 6, 14, 14, 8, 12, 12, 8, 6, 1])[0]
        if k == "obj":
            if no < 12:
                no += 1
            out.append("obj %d" % no)
        elif k == "objdrop":
            out.append("objdrop %d" % o)
        elif k == "new":
            out.append("new %d %s" % (v, " ".join(str(rng.randint(1, no)) for _ in range(rng.randint(0, 3)))))
        elif k in ("copy", "append", "equal"):
            if k == "equal" and rng.random() < 0.3:
                out += ["free 2", "copy 2 1"]
            out.append("%s %d %d" % (k, v, rng.randint(1, 3)))
        elif k == "add":
            out.append("add %d %d" % (v, o))
        elif k == "insert":
            out.append("insert %d %d %d" % (v, o, pos()))
        elif k == "removeat":
            out.append("removeat %d %d" % (v, pos()))
        elif k == "remove":
            out.append("remove %d %d %d" % (v, o, rng.randint(0, 1)))
        else:
            out.append("%s %d" % (k, v))
    return [o.strip() for o in out]


def big_scen(rng):
    """Hundreds of elements"""
    out = ["obj %d" % (i + 1) for i in range(4)] + ["new 1 1 2 3", "new 2 1"]
    for _ in range(300):
        out.append(rng.choice(["add 1 %d" % rng.randint(1, 3)] * 9 + ["insert 1 %d %d" % (rng.randint(1, 4), rng.choice([0, 100, 255, 256, 257, HUGE]))]))
    for _ in range(6):
        out.append(rng.choice(["removeat 1 256", "removeat 1 0", "remove 1 4 1", "remove 1 2 0", "append 1 2", "append 1 1", "copy 3 1", "equal 1 3", "look 1"]))
    return out + ["free 1"]


def c13(c):
    r = c.mc("Objv", "MC_Objv", "MC_Objv_%s.cfg" % c.tier, edges=True)
    c.validate("objv", "Objv", "Trace_Objv", "Trace_Objv.cfg", [vf.lines(w) for w in vf.walks(r, maxlen=100, rng=c.rng)], label="graph")
    c.validate("objv", "Objv", "Trace_Objv", "Trace_Objv.cfg",
               [rand_scen(c.rng, c.rng.choice([20, 60])) for _ in range(500 if not c.thorough else 12000)] +
               [big_scen(c.rng) for _ in range(2 if not c.thorough else 20)], label="random")


CHECKS = {"C13": c13}
