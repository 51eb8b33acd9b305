#!/usr/bin/env python3
"""check.py <property>   run one property's check (VERIF_SEED, VERIF_TIER)
   check.py --setup      build everything the checks share
   check.py --replay PROFILE SEED BATCH g:rule:call:input JUDGE"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
from common import *


def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        import props
        return props.setup()
    if a[0] == "--replay":
        import engine
        common.SEED = engine.SEED = int(a[2])
        mon, peg = build_mon(), build_peg(with_bin=a[1] == "hygiene")
        if a[1] == "hygiene":
            import hygiene
            hygiene.publish(hygiene.harvest(None, peg))
        w = os.path.join(OUT, "replay")
        os.makedirs(w, exist_ok=True)
        g = int(a[4].split(":")[0])
        job = engine.Job(a[1], a[5], int(a[3]), 1, 60)
        src = os.path.join(w, "p.rs")
        if a[5] == "isolate":
            engine.emit(mon, job, src, count=int(a[7]))
        else:
            engine.emit(mon, job, src, frm=g, count=1)
        x = rustc(src, os.path.join(w, "p"), mon.ext + peg.ext)
        if x.rc:
            print(x.err)
            return 1
        if a[5] == "isolate":
            os.execv(os.path.join(w, "p"), ["p", "--mode", "isolate", "--out", "/dev/stdout", "--inputs", a[6]])
        n = a[6] if len(a) > 6 else "120"
        os.execv(os.path.join(w, "p"), ["p", "--prop", a[5], "--out", "/dev/stdout", "--inputs", n, "--only", a[4], "--verbose"])
    import props
    try:
        return props.run_check(a[0])
    except Inconclusive as e:
        print("INCONCLUSIVE: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
