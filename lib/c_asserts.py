"""C30: assertions of the debug build. Everything that the other properties drive the library through,
in its debug build, and every failure of an assertion is an event which the specification doesn't have."""
import concurrent.futures as cf
import random
import c_ring, c_idlequeue, c_idlepool, c_history, c_inotify, c_timenotify, c_weakref, c_refcount

DRIVERS = {}
WRAP = ("-Wl,--wrap=gutil_log_assert",)


class Debug:
    """Runs a check of another property in the debug build, and looks only at assertions"""

    def __init__(self, c, name):
        self.c, self.name, self.thorough, self.tier = c, name, c.thorough, c.tier
        self.rng = random.Random("%s/%s/%s" % (c.pid, name, c.seed))

    def log(self, *a):
        self.c.log(self.name, *a)

    def mc(self, *a, **kw):
        return self.c.mc(*a, **kw)

    def validate(self, driver, comp, module, cfg, scens, flavours=("rel", "dbg"), label="", ldflags=(), env=None, **kw):
        fl = tuple(f for f in flavours if f.endswith("dbg"))
        # what the environment isn't supposed to do is left out
        scens = [[l for l in s if not l.startswith("fail ")] for s in scens]
        self.c.validate(driver, "Asserts", "Trace_Asserts", "Trace_Asserts.cfg", scens, flavours=fl, label="%s %s" % (self.name, label),
                        ldflags=tuple(ldflags) + WRAP, env=env, **kw)


def c30(c):
    todo = [("idlepool", c_idlepool.c05), ("idlepool shared", c_idlepool.c06), ("inotify", c_inotify.run), ("ring", c_ring.c01), ("ring own", c_ring.c02),
            ("weakref", c_weakref.c24), ("refcount", c_refcount.c26), ("idlequeue", c_idlequeue.c03), ("idlequeue cancel", c_idlequeue.c04),
            ("history", c_history.c07), ("timenotify", c_timenotify.c25)]
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda t: t[1](Debug(c, t[0])), todo))


CHECKS = {"C30": c30}
