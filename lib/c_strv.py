"""C11, C12: string vectors"""
import vf

DRIVERS = {"strv": {}}


def hx(b):
    return b.hex() or "-"


def rand_scen(rng, length):
    alpha = rng.choice([b"ab", b"a \t", b"ab \n\r\f\v", b"aZ\x80\xff", bytes(range(1, 256))])
    pool = [bytes(rng.choice(alpha) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))) for _ in range(rng.choice([2, 3, 5, 12]))]
    if rng.random() < 0.3:   # prefixes of each other
        base = bytes(rng.choice(alpha) for _ in range(6))
        pool = [base[:k] for k in range(7)]
    word = lambda: hx(rng.choice(pool))
    big = rng.choice([3, 6, 40])
    out = []
    for _ in range(length):
        v = rng.choice([1, 1, 1, 2, 3])
        k = rng.choices(["new", "drop", "add", "addv", "removeat", "remove", "removeel", "addel", "dups", "strip", "sort",
                         "find", "look", "nofind", "equal", "bsearch", "equalview", "findel"],
                        [10, 1, 14, 8, 8, 7, 7, 3, 5, 2, 7, 8, 6, 1, 5, 10, 4, 3])[0]
        if k == "new":
            out.append("new %d %s" % (v, " ".join(word() for _ in range(rng.randint(0, big)))))
        elif k == "add":
            out.append("add %d %s" % (v, word() if rng.random() < 0.95 else ""))
        elif k == "addv":
            out.append("addv %d %s" % (v, " ".join(word() for _ in range(rng.randint(0, 4)))))
        elif k == "removeat":
            out.append("removeat %d %d %d" % (v, rng.choice([-1, 0, 1, 2, 3, rng.randint(0, big), 2**31 - 1, -2**31]), rng.randint(0, 1)))
        elif k == "remove":
            out.append("remove %d %s %d" % (v, word(), rng.randint(0, 1)))
        elif k in ("removeel", "addel"):
            out.append("%s %d %d %d" % (k, v, rng.choice([0, 0, 1, 2, rng.randint(0, big)]), rng.randint(0, 1)))
        elif k == "sort":
            out.append("sort %d %d" % (v, rng.randint(0, 1)))
        elif k == "find":
            out.append("find %d %s" % (v, word()))
        elif k == "equal":
            if rng.random() < 0.4:
                ws = " ".join(word() for _ in range(rng.randint(0, 3)))
                out += ["drop 1", "drop 2", "new 1 " + ws, "new 2 " + ws]
            out.append("equal %d %d" % (v, rng.randint(1, 3)))
        elif k == "equalview":
            out.append("equalview %d %d %d" % (v, rng.choice([0, 0, 0, 1]), rng.choice([0, 1, 2, 3, big])))
        elif k == "findel":
            out.append("findel %d %d" % (v, rng.randint(0, big)))
        elif k == "bsearch":
            a = rng.randint(0, 1)
            if rng.random() < 0.7:
                out.append("sort %d %d" % (v, a))
            out.append("bsearch %d %s %d" % (v, word(), a))
        else:
            out.append("%s %d" % (k, v))
    return [o.strip() for o in out]


def big_scen(rng):
    """Hundreds of strings"""
    w = lambda: hx(bytes(rng.choice(b"abc \xff") for _ in range(rng.choice([0, 1, 3, 5, 5]))))
    some = [w() for _ in range(8)]
    out = ["new 1 " + " ".join(w() for _ in range(50))] + ["addv 1 " + " ".join(rng.choice([w(), rng.choice(some)]) for _ in range(50)) for _ in range(5)]
    for _ in range(10):
        out += [rng.choice(["add 1 " + w(), "removeat 1 %d 1" % rng.choice([0, 255, 256, 257, 290]), "remove 1 %s 1" % rng.choice(some),
                            "remove 1 %s 0" % rng.choice(some), "find 1 " + rng.choice(some), "look 1"])]
    return out + rng.choice([["sort 1 0", "bsearch 1 %s 0" % some[0]], ["sort 1 1", "bsearch 1 %s 1" % some[0]], ["strip 1"]]) + ["dups 1", "drop 1"]


def long_scen(rng, n):
    """Strings longer than usual, which differ at the end"""
    a, b = b"a" * n, b"a" * (n - 1) + b"b"
    out = ["new 1 " + " ".join(map(hx, (a, b"x", b, a, b" " * n + a[:5] + b"\t" * n))), "add 1 " + hx(b), "add 1 " + hx(a)]
    out += ["find 1 " + hx(b), "find 1 " + hx(a + b"a"), "equal 1 1", "remove 1 %s 0" % hx(b), "new 2 " + hx(a), "new 3 " + hx(b), "equal 2 3"]
    return out + rng.choice([["strip 1", "look 1"], ["sort 1 1", "bsearch 1 %s 1" % hx(b)], ["sort 1 0", "bsearch 1 %s 0" % hx(a)], ["dups 1"]]) + ["drop 1"]


def validate(c, scens, label):
    c.validate("strv", "Strv", "Trace_Strv", "Trace_Strv.cfg", scens, label=label)


QUERY = ("find", "findel", "equal", "equalview", "bsearch", "look", "nofind")


def both(c, keep, n):
    r = c.mc("Strv", "MC_Strv", "MC_Strv_%s.cfg" % c.tier, edges=True)
    # the other half belongs to the other property
    r.edges = [e for e in r.edges if e[1] and (keep(e[1][0]) or e[1][0] in ("new", "add", "drop", "sort"))]
    validate(c, [vf.hexlines(w) for w in vf.walks(r, maxlen=100, rng=c.rng)], "graph")
    validate(c, [rand_scen(c.rng, c.rng.choice([20, 60])) for _ in range(n if not c.thorough else n * 25)] +
             [big_scen(c.rng) for _ in range(4 if not c.thorough else 40)], "random")
    validate(c, [long_scen(c.rng, n) for n in [257, 1025, 4097, 9000] * (1 if not c.thorough else 8) + ([66000] if c.thorough else [])], "long")


def c11(c):
    both(c, lambda op: op not in QUERY, 600)


def c12(c):
    both(c, lambda op: op in QUERY, 600)


CHECKS = {"C11": c11, "C12": c12}
