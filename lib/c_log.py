"""C16, C17, C18: log"""
import vf

DRIVERS = {"log": {}}
NULL = "NULL"


def hx(s):
    if s is None or s == "<null>":
        return NULL
    return s.encode("latin-1").hex() or "-"


def validate(c, scens, label, **kw):
    c.validate("log", "Log", "Trace_Log", "Trace_Log.cfg", scens, label=label, **kw)


def text(rng, long=True):
    n = rng.choice([0, 1, 5, 20] + ([100, 494, 500, 509, 510, 511, 512, 513, 514, 700, 1022, 1023, 1024, 1025, 4095, 4096, 5000] if long else []))
    al = rng.choice(["ab c", "x", "%sdn", "\"\\'[]<>", "\x01\t\x7f\x80\xff\xe9", "".join(map(chr, range(1, 256)))])
    return "".join(rng.choice(al) for _ in range(n)).replace("\n", " ")


LEVELS = [-3, -2, -2, -1, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 2**31 - 1, -2**31]


def log_op(rng, m=None, long=True, lvl=None):
    v = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])
    t = text(rng, long)
    if v == 2:
        t = t.replace("%", "p") or "t"
    return "log %d %d %d %d %s" % (rng.randint(-1, 4) if m is None else m, rng.choice(LEVELS) if lvl is None else lvl, v,
                                   rng.choice([0, -1, 1, 2**31 - 1, -2**31]), hx(t))


def dump_op(rng, big=False, lvl=None):
    n = rng.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 100] + ([4096 - 1, 4096, 4097] if rng.random() < 0.1 else []) + ([65536 + 20] if big else []))
    return "dump %d %d %d %s %s" % (rng.randint(-1, 4), rng.choice(LEVELS) if lvl is None else lvl, rng.choice([0, 0, 1, 1, 2, 3, 4]),
                                    rng.choice([NULL, "-", hx("  "), hx("pre%sfix ")]), rng.randbytes(n).hex() or "-")


def conf_op(rng, depth=4):
    k = rng.choice(["level", "level", "level", "parent", "parent", "off", "off", "hide", "hook", "func2", "func", "name"])
    m = rng.randint(0, 4)
    if k == "level":
        return "level %d %d" % (m, rng.choice([-1, -1, -2, 0, 1, 2, 3, 4, 5, 6]))
    if k == "parent":   # no loops
        # only the default one and modules after it can be a parent
        if m == 0:
            return "off 0 0"
        return "parent %d %d" % (m, rng.choice([-1, 0] + list(range(m + 1, 5))))
    if k == "hook":
        return "hook %d %s" % (m, rng.choice(["none", "none", "none", "custom", "custom", "stdout", "stderr", "syslog", "glib"]))
    if k in ("off", "hide"):
        return "%s %d %d" % (k, m, rng.choice([0, 0, 1]))
    if k == "func2":
        return "func2 " + rng.choice(["default", "default", "default", "default", "custom", "null", "stdout", "stderr", "syslog", "glib"])
    if k == "func":
        return "func " + rng.choice(["custom", "custom", "null", "glib", "syslog", "stdout", "stderr"])
    return "name %d %s" % (m, rng.choice([NULL, "-", hx("a"), hx("m1"), hx("a b%s"), hx("Name" * 20)]))


MANY = 24


def validate_many(c, scens):
    c.validate("log", "Log", "Trace_Log", "Trace_LogMany.cfg", scens, label="many modules", cflags=("-DMAXM=%d" % MANY,))


def chain_scen(rng):
    """Each module is inheriting from the next one, or the one after that"""
    out = ["modules %d" % MANY]
    for m in range(1, MANY + 1):
        out.append("parent %d %d" % (m, min(MANY, m + rng.choice([1, 1, 1, 1, 2])) if m < MANY else rng.choice([-1, 0])))
    out.append("probe")
    for _ in range(10):
        m = rng.randint(1, MANY)
        out += [rng.choice(["level %d %d" % (m, rng.choice([-1, -1, 0, 1, 4, 5])), "level 0 %d" % rng.randint(0, 5), "off %d %d" % (m, rng.choice([0, 1])),
                            "off %d 0" % m, "level %d -1" % m, "level %d %d" % (MANY, rng.choice([-1, 1, 2, 5]))]), rng.choice(["probe", "probe", log_op(rng, rng.randint(1, MANY), long=False)])]
    return out


def names_scen(rng):
    """Long names which are different in the end only, and many modules"""
    n = rng.choice([1, 7, 8, 15, 16, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256])
    base = "".join(rng.choice("abcXYZ-_. ") for _ in range(n))
    names = [base + "%c%c" % (rng.choice("xyzXYZ"), 97 + k) for k in range(MANY)]
    if rng.random() < 0.5:
        names[rng.randrange(MANY)] = base
    rng.shuffle(names)
    out = ["name %d %s" % (i + 1, hx(x)) for i, x in enumerate(names)]
    for _ in range(25 if n < 100 else 10):
        x = rng.choice(names)
        x = rng.choice([x, x, x, x.swapcase(), x[:-1], x + "a", x[1:]])
        out.append("option %s %d" % (hx(x + ":" + rng.choice(["0", "1", "2", "3", "4", "5", "err", "verbose", "x"])), rng.choice([MANY, MANY, MANY, 1, 9, 17])))
        if n < 40 and rng.random() < 0.05:
            out.append("describe %d" % MANY)
    return out


def c16(c):
    r = c.mc("Log", "MC_LogFilter", "MC_LogFilter_%s.cfg" % c.tier, edges=True)
    scens = [["modules 2", "autoprobe"] + vf.lines(w) for w in vf.walks(r, maxlen=120, rng=c.rng)]
    validate(c, scens, "graph")
    scens = []
    for _ in range(500 if not c.thorough else 10000):
        s = ["modules 4"]
        for _ in range(c.rng.choice([10, 30])):
            k = c.rng.random()
            s.append(conf_op(c.rng) if k < 0.5 else "probe" if k < 0.65 else dump_op(c.rng) if k < 0.72 else log_op(c.rng, long=k < 0.8))
        scens.append(s)
    validate(c, scens, "random")
    validate_many(c, [chain_scen(c.rng) for _ in range(60 if not c.thorough else 1500)])


def c17(c):
    r = c.mc("Log", "MC_LogOption", "MC_LogOption_%s.cfg" % c.tier, edges=True)
    rng = c.rng
    names = ["name 1 " + hx("m1"), "name 2 " + hx("M1x"), "name 3 " + hx("sys"), "name 4 -"]
    ops, env = [], []
    for (_, op, _) in r.edges:
        if op[0] == "option":
            ops.append("option %s %d" % (hx(op[1]), op[2]))
        elif op[0] == "type":
            ops.append("type %s %s" % (hx(op[1]), rng.choice([NULL, hx(op[2])])))
        elif op[0] == "env":
            env.append("env %s %d" % (hx(op[1]), op[2]))
    rng.shuffle(ops)
    scens = []
    for i in range(0, len(ops), 40):
        s = list(names)
        for o in ops[i:i + 40]:
            s.append(o)
            if rng.random() < 0.2:
                s.append(rng.choice(["level %d %d" % (rng.randint(0, 4), rng.randint(-1, 5)), "describe %d" % rng.choice([-1, 0, 2, 4]),
                                     "func " + rng.choice(["custom", "null", "stdout", "syslog", "glib"])]))
        scens.append(s)
    validate(c, scens, "enumerated")
    validate(c, [env[i:i + 6] for i in range(0, len(env), 6)], "environment", flavours=("rel", "dbg"), shards=4)
    scens = []
    for _ in range(300 if not c.thorough else 8000):
        al = rng.choice(["012345", "eEwWiI", "nodebugverbose:", "m1:", "mM1xX:2e", "".join(map(chr, range(1, 256)))])
        s = []
        pool = [rng.choice(["m1", "ab", "Ab", "AB", "abc", "", "x y"]) for _ in range(4)]
        s += ["name %d %s" % (i + 1, hx(p)) for i, p in enumerate(pool)]
        for _ in range(20):
            k = rng.random()
            lv = rng.choice(["none", "error", "warning", "info", "debug", "verbose", "Error", "3", "0", "6", ""])
            lv = lv[:rng.randint(0, len(lv))] if rng.random() < 0.4 else lv
            if rng.random() < 0.15:
                lv = "".join(rng.choice(al) for _ in range(rng.randint(0, 4)))
            nm = rng.choice(pool)
            if rng.random() < 0.4:
                nm = nm.swapcase()
            if rng.random() < 0.2:
                nm = nm[:-1] if rng.random() < 0.5 else nm + rng.choice("xX ")
            o = lv if k < 0.3 else nm + ":" + lv
            s.append("option %s %d" % (hx(o), rng.choice([4, 4, 4, 0, 1, 2])))
            if rng.random() < 0.1:
                s.append("describe %d" % rng.choice([-1, 0, 1, 4]))
        scens.append(s)
    validate(c, scens, "random")
    validate_many(c, [names_scen(c.rng) for _ in range(60 if not c.thorough else 1500)])


def c18(c):
    r = c.mc("Log", "MC_LogRender", "MC_LogRender_%s.cfg" % c.tier, edges=True)
    rng = c.rng
    scens = []
    for w in vf.walks(r, maxlen=60, rng=c.rng):
        s = ["modules 1"]
        for op in w:
            s.append(" ".join(op[:-1] + [hx(op[-1])]) if op[0] in ("fmt", "name") else " ".join(op))
            s.append(log_op(rng, rng.choice([-1, 0, 0, 1]), lvl=rng.choice([-2, 1, 2, 3, 4, 5])))
        scens.append(s)
    validate(c, scens, "graph")
    scens = []
    for _ in range(400 if not c.thorough else 8000):
        s = ["modules 1", "level 0 5"]
        for _ in range(rng.choice([10, 25])):
            k = rng.choices(["func", "stamp", "tid", "fmt", "name", "hide", "log", "dump", "threads", "long", "func2", "hook"],
                            [4, 2, 2, 3, 3, 1, 14, 6, 0.3, 0.2, 2, 2])[0]
            if k == "func":
                s.append("func " + rng.choice(["stdout", "stdout", "stderr", "syslog", "glib"]))
            elif k in ("stamp", "tid"):
                s.append("%s %d" % (k, rng.randint(0, 1)))
            elif k == "fmt":
                f = "".join(rng.choice(["%Y", "%m", "%d", "%H", "%M", "%S", "%%", "-", " ", "T", "x"]) for _ in range(rng.randint(0, 25)))
                s.append("fmt " + rng.choice([NULL, hx(f), hx(f)]))
            elif k == "name":
                s.append("name %d %s" % (rng.randint(0, 1), rng.choice([NULL, "-", hx("a"), hx("m1"), hx("a b%s"), hx("n" * 600)])))
            elif k == "func2":
                s.append("func2 " + rng.choice(["default", "default", "stdout", "stderr", "syslog", "glib", "custom"]))
            elif k == "hook":
                s.append("hook %d %s" % (rng.randint(0, 1), rng.choice(["none", "none", "none", "stdout", "stderr", "syslog", "glib", "custom"])))
            elif k == "hide":
                s.append("hide 0 %d" % rng.randint(0, 1))
            elif k == "log":
                s.append(log_op(rng, rng.choice([-1, 0, 1]), lvl=rng.choice([-2, 1, 2, 3, 4, 5])))
            elif k == "dump":
                s.append(dump_op(rng, lvl=rng.choice([-2, 1, 2, 3, 4, 4, 5])))
            elif k == "threads":
                s += ["tid 0", "func2 default", "hook 0 none", "hook 1 none", "func stdout", "threads %d %d %d %d" % (rng.choice([-1, 1]), rng.choice([-2, 1, 3]), rng.randint(2, 4), rng.choice([1, 20]))]
            else:
                s.append("log -1 3 %d 1 %s" % (rng.choice([0, 1]), hx("0123456789abcdef" * rng.choice([1024, 4096]))))
        scens.append(s)
    scens.append(["modules 1", "func stdout", "tid 0", "threads -1 3 4 40", "stamp 1", "threads 1 1 4 40"])
    scens.append(["modules 1"] + ["dump 0 1 %d %s %s" % (k % 2, hx("x"), rng.randbytes(n).hex() or "-") for k, n in enumerate(list(range(0, 70)) + [256, 4095, 65536 + 40])])
    scens.append(["modules 1", "huge 0 0", "huge 0 5", "huge 0 100", "huge 1"])
    validate(c, scens, "random")


CHECKS = {"C16": c16, "C17": c17, "C18": c18}
