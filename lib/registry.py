"""Which component decides which property"""
import concurrent.futures as cf
import json, os
import vf
import c_ring, c_idlequeue, c_idlepool, c_history, c_intarray, c_ints, c_strv, c_objv, c_datapack, c_log, c_misc, c_inotify, c_timenotify, c_weakref, c_refcount, c_helpers, c_macros, c_asserts

CHECKS = {}
DRIVERS = {}
for m in (c_ring, c_idlequeue, c_idlepool, c_history, c_intarray, c_ints, c_strv, c_objv, c_datapack, c_log, c_misc, c_inotify, c_timenotify, c_weakref, c_refcount, c_helpers, c_macros, c_asserts):
    CHECKS.update(m.CHECKS)
    DRIVERS.update(m.DRIVERS)


def build(d, fl):
    return vf.build_driver(d, fl, **{k: v for k, v in DRIVERS[d].items() if k != "flavours"})


def setup():
    for fl in ("rel", "dbg", "srel", "sdbg"):
        vf.build_lib(fl)
    with cf.ThreadPoolExecutor(vf.NCPU) as ex:
        list(ex.map(lambda d: [build(d, fl) for fl in DRIVERS[d].get("flavours", ("rel", "dbg"))], sorted(DRIVERS)))
    print("built", len(DRIVERS), "drivers")
    return 0


def replay(d):
    j = json.load(open(os.path.join(d, "replay.json")))
    b = vf.build_driver(j["driver"], j["flavour"], j.get("ldflags", ()), j["cflags"]) if j.get("cflags") or j.get("ldflags") else build(j["driver"], j["flavour"])
    os.makedirs(vf.WORK, exist_ok=True)
    tr = os.path.join(vf.WORK, "replay.ndjson")
    vf.run_driver(b, os.path.join(d, "script"), tr)
    ok, f, t, out, _, _ = vf.tlc_trace(j["comp"], j["module"], j["cfg"], tr, vf.WORK)
    print(out[-1500:])
    print("accepted" if ok else "rejected at event %d: %s" % (f, open(tr).read().splitlines()[max(0, f - 1)][:600]))
    print(open(tr + ".err").read()[-3000:])
    return 0 if ok else 1
NOTES = {}
