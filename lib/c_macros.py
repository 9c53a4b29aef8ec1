"""C28: logging macros, C29: version and layout macros"""
import concurrent.futures as cf
import vf



def config(mx, asrt, mod):
    f = ["-DVF_MAX=%d" % mx, "-DVF_ASSERT=%d" % asrt, "-DVF_MOD=%d" % mod]
    if mx >= 0:
        f.append("-DGLOG_LEVEL_MAX=%d" % mx)
    if asrt >= 0:
        f.append("-DGLOG_LEVEL_ASSERT=%d" % asrt)
    if mod:
        f.append("-DGLOG_MODULE_NAME=vf_mod")
    return tuple(f)


def configs(thorough):
    if thorough:
        return [(m, a, k) for m in range(-1, 6) for a in (-1, 0, 1, 3, 6) for k in (0, 1, 2)]
    l = [(m, -1, 1 + (m & 1)) for m in range(-1, 6)]
    return l + [(-1, -1, 0), (-1, -1, 1), (4, 3, 1), (2, 3, 2), (0, 0, 2), (3, -1, 0)]


def rnd(rng, n):
    s = []
    for _ in range(n):
        k = rng.random()
        if k < 0.25:
            s.append("level %d %d" % (rng.randint(0, 2), rng.choice([-2, -1, -1, 0, 1, 2, 3, 4, 5, 6])))
        elif k < 0.3:
            s.append("off %d %d" % (rng.randint(0, 2), rng.choice([0, 0, 1])))
        elif k < 0.6:
            t = "".join(rng.choice("ab %sdn\"\\\x01\xff") for _ in range(rng.choice([0, 1, 5, 30, 600])))
            s.append("msg %d %d %d %s" % (rng.randint(1, 5), rng.randint(0, 3), rng.choice([0, -1, 2**31 - 1, 7]), t.encode("latin-1").hex() or "-"))
        elif k < 0.85:
            s.append("verify %d %d %d" % (rng.randint(0, 8), rng.choice([-1, 0, 1, 2, 3, 7]), rng.choice([-1, 0, 1, 2, 3, 7])))
        elif k < 0.92:
            s.append("dump %d %s" % (rng.randint(0, 2), rng.randbytes(rng.choice([0, 1, 16, 17, 33])).hex() or "-"))
        else:
            s.append("enabled" if k < 0.97 else "errmsg %d" % rng.randint(0, 3))
    return s


def every(l0, l1, off=0):
    s = ["level 0 %d" % l0, "level 1 %d" % l1, "off 1 %d" % off, "enabled"]
    for lvl in range(1, 6):
        s += ["msg %d %d 5 %s" % (lvl, f, b"text".hex()) for f in range(4)]
    s += ["dump 0 0102", "dump 1 0102", "dump 2 -", "dump 0 -"]
    s += ["verify %d %d %d" % (f, a, b) for f in range(9) for a in (-1, 0, 1, 2) for b in (-1, 0, 1)]
    return s


def c28(c):
    c.mc("Macros", "MC_Macros", "MC_Macros_%s.cfg" % c.tier)
    cfgs = configs(c.thorough)
    vf.build_lib("rel"), vf.build_lib("dbg")
    with cf.ThreadPoolExecutor(vf.NCPU) as ex:
        list(ex.map(lambda x: vf.build_driver("macros", x[1], cflags=config(*x[0])), [(k, fl) for k in cfgs for fl in ("rel", "dbg")]))
    jobs = []
    for k in cfgs:
        scens = [["errmsg %d" % i for i in range(4)], every(5, -1), every(0, -1), every(1, 5), every(5, 0), every(5, 5, 1), every(1, -1), every(3, -1)]
        scens += [rnd(c.rng, 30) for _ in range(6 if not c.thorough else 30)]
        jobs.append((scens, "build max=%d assert=%d module=%d" % k, config(*k)))
    with cf.ThreadPoolExecutor(vf.NCPU // 2) as ex:
        list(ex.map(lambda j: c.validate("macros", "Macros", "Trace_Macros", "Trace_Macros.cfg", j[0], label=j[1].replace(" ", "_"), cflags=j[2], shards=1), jobs))


def c29(c):
    c.mc("Layout", "MC_Layout", "MC_Layout_%s.cfg" % c.tier)
    rng = c.rng
    flags = ()
    try:
        vf.build_driver("layout", "rel")
    except vf.CheckError:
        # whatever the versions are, code which uses them has to compile
        flags = ("-DVF_UNUSABLE",)
        vf.build_driver("layout", "rel", cflags=flags)
    edge = [0, 1, 2, 68, 69, 79, 126, 127, 128, 4094, 4095, 4096, 65535, 2**31 - 1]
    scens = [["current", "packed"] + ["free %d" % i for i in range(4)] + ["cast %d" % i for i in range(3)]]
    scens += [["version %d %d %d" % (a, b, k) for b in edge for k in edge] for a in edge]
    n = 20 if not c.thorough else 2000
    scens += [["version %d %d %d" % tuple(rng.randrange(2**rng.randint(0, 31)) for _ in range(3)) for _ in range(50)] for _ in range(n)]

    def al(t, v):
        top = [2**64, 2**63, 2**32, 2**31, 2**16, 2**64][t] - 8
        return ["align %d %d %x" % (t, k, min(v, top)) for k in (2, 4, 8)]
    scens += [[o for v in list(range(40)) + [2**e + d for e in (8, 15, 16, 31, 32, 33, 47, 63, 64) for d in range(-10, 10) if v_ok(2**e + d)] for o in al(t, v)] for t in range(6)]
    scens += [[o for _ in range(30) for o in al(rng.randrange(6), rng.randrange(2**rng.randint(1, 64)))] for _ in range(n)]
    c.validate("layout", "Layout", "Trace_Layout", "Trace_Layout.cfg", scens, label="macros", cflags=flags)


def v_ok(v):
    return 0 <= v < 2**64


DRIVERS = {"layout": {}}
CHECKS = {"C28": c28, "C29": c29}
