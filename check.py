"""python3 check.py <ID> [--tier quick|thorough]: decide one property."""
import argparse
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    from sa.report import Report

    mod = importlib.import_module("sa.checks." + a.pid.lower())
    rep = Report(a.pid, a.tier, root=a.root, verif=HERE)
    import sa.opt_common as oc

    oc.ROOT = a.root

    def expire():
        rep.unk("analysis", "time limit reached; the remaining obligations were not examined")
        code = rep.finish(mod.RULE, mod.FLOOR)
        sys.stdout.flush()
        os._exit(code)

    import threading

    watch = threading.Timer(780, expire)
    watch.daemon = True
    watch.start()
    try:
        mod.run(rep, a.tier)
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        traceback.print_exc()
        rep.unk("analysis", "the analysis stopped early: %r" % e)
    watch.cancel()
    if a.verbose:
        for o in rep.dedup():
            print("   ", o["status"], o["key"], "--", o["detail"][:300])
    return rep.finish(mod.RULE, mod.FLOOR)


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            rc.append(main())
        except Exception:
            traceback.print_exc()
            rc.append(3)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
