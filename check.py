#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   decides one property on /repo's current tree
check.py --setup                          builds everything once
check.py --replay DIR                     repeats a reported violation"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
import registry


def known(pid):
    p = os.path.join(vf.VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % pid):
                r.append(l.split(" ", 2)[2].strip())
    return r


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        return registry.setup()
    if sys.argv[1] == "--replay":
        return registry.replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fn = registry.CHECKS[pid]
    ctx = vf.Ctx(pid, tier, seed)
    rc = 2
    try:
        fn(ctx)
        rc = 0
        for k in known(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        ctx.evidence()
        ctx.log("holds on everything explored: %d model states, %d traces, %d events" % (
            ctx.states, ctx.traces, ctx.events))
        print("OK property=%s" % pid)
    except vf.Violation as v:
        print(v.what)
        ctx.evidence()
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(v.replay, vf.VERIF)))
        rc = 1
    except vf.CheckError as e:
        print("CHECK ERROR:", e)
    finally:
        ctx.close()
        vf.prune_cache()
    return rc


if __name__ == "__main__":
    sys.exit(main())
