"""C08: mutable integer array"""
import vf

DRIVERS = {"intarray": {}}
I32 = [-2**31, -2**31 + 1, -2**30, -2, -1, 0, 1, 2, 3, 2**30, 2**31 - 2, 2**31 - 1]
HUGE = 2**31 - 1


def rand_scen(rng, length):
    few = rng.sample(I32, rng.choice([2, 3, 5]))
    big = rng.choice([4, 8, 60])

    def val():
        return rng.choice(few) if rng.random() < 0.8 else rng.randint(-2**31, 2**31 - 1)

    def vals(n):
        return " ".join(str(val()) for _ in range(n))

    def pos():
        return rng.choice([0, 0, 1, 2, 3, rng.randint(0, big), rng.randint(0, big), HUGE, 2**32 - 2, 2**32 - 1])
    out = ["new " + vals(rng.choice([0, 1, 2, 5, big]) % 50)]
    for _ in range(length):
        k = rng.choices(["append", "prepend", "insert", "count", "remove", "removef", "removeall", "removeallf", "removei",
                         "removeif", "range", "sort", "find", "ref", "unref", "free", "null", "new"],
                        [12, 8, 10, 5, 6, 6, 2, 2, 6, 6, 6, 8, 8, 3, 3, 2, 1, 6])[0]
        if k in ("append", "prepend", "new"):
            out.append(k + " " + vals(rng.choice([0, 1, 1, 2, 3, 7])))
        elif k == "insert":
            out.append("insert %d %s" % (rng.randint(0, big), vals(rng.choice([0, 1, 1, 2, 5]))))
        elif k == "count":
            out.append("count %d" % rng.randint(0, big))
        elif k in ("removei", "removeif"):
            out.append("%s %d" % (k, pos()))
        elif k == "range":
            out.append("range %d %d" % (pos(), pos()))
        elif k == "sort":
            out.append("sort %d" % rng.randint(0, 1))
        elif k == "free":
            out.append("free %d" % rng.randint(0, 2))
        elif k in ("ref", "unref", "null"):
            out.append(k)
        else:
            out.append("%s %d" % (k, val()))
    return [l.strip() for l in out]


def big_scen(rng):
    """Hundreds of elements"""
    few = rng.sample(I32, 3)
    some = lambda n: " ".join(str(rng.choice(few) if rng.random() < 0.3 else rng.randint(-2**31, 2**31 - 1)) for _ in range(n))
    out = ["new " + some(50)] + [rng.choice(["append ", "append ", "prepend "]) + some(50) for _ in range(6)]
    for _ in range(20):
        out.append(rng.choice(["sort 0", "sort 1", "removei 280", "removeif 257", "range %d 20" % rng.choice([100, 250, 290]), "insert 270 " + some(5),
                               "remove %d" % rng.choice(few), "removeall %d" % few[0], "removeallf %d" % few[1], "find %d" % rng.choice(few), "count 301"]))
    return out + ["free %d" % rng.randint(0, 2)]


def huge_scen(rng, n):
    """Thousands of elements"""
    out = ["new", "appendn %d %d %d" % (n, rng.randint(1, 10**9), rng.choice([0, 7, 1000]))]
    for _ in range(6):
        k = rng.randint(0, n - 1)
        out.append(rng.choice(["removei %d" % k, "removeif %d" % k, "range %d %d" % (k, rng.choice([5, n // 3, n])), "insertn 9 1 0 %d" % k, "prependn %d 7 0" % (n // 5), "find 0",
                               "sort %d" % rng.randint(0, 1), "appendn %d %d 9" % (n // 2, rng.randint(1, 999)), "removef 1", "remove -1", "removeall 2", "removeallf 0", "count %d" % (n + 10)]))
    return out + ["appendn %d 5 5" % n, "sort %d" % rng.randint(0, 1), rng.choice(["removeall 1", "removeallf 1"]), "free %d" % rng.randint(0, 2)]


def c08(c):
    r = c.mc("IntArray", "MC_IntArray", "MC_IntArray_%s.cfg" % c.tier, edges=True)
    scens = [vf.lines(w) for w in vf.walks(r, maxlen=100, rng=c.rng)]
    c.validate("intarray", "IntArray", "Trace_IntArray", "Trace_IntArray.cfg", scens, label="graph")
    scens = [rand_scen(c.rng, c.rng.choice([20, 60, 120])) for _ in range(600 if not c.thorough else 20000)]
    scens += [big_scen(c.rng) for _ in range(4 if not c.thorough else 60)]
    scens += [huge_scen(c.rng, k) for k in ([300, 300, 700, 1100] if not c.thorough else [300, 600, 1100, 2100, 4200] * 4)]
    scens += [["new", "appendn 65535 1 100", "append 7 8", "find 8", "removei 65535", "insertn 3 1 0 65536", "removeif 65537", "range 65530 6", "free %d" % k] for k in (1, 2)]
    c.validate("intarray", "IntArray", "Trace_IntArray", "Trace_IntArray.cfg", scens, label="random")


CHECKS = {"C08": c08}
