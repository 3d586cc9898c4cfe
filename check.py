#!/usr/bin/env python3
"""check.py ID... | setup    decides properties of /repo's current source (exit 0 held, 1 violated, 2 no answer)"""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import facts


def main(argv):
    if argv == ["setup"]:
        F = facts.load()
        print("extracted %d units, %d functions" % (F.ntu, len(F.fns)))
        return 0
    rc = 0
    for pid in argv:
        try:
            m = importlib.import_module(pid.lower())
            r = m.run()
            F = facts._loaded.get("base")
            if F:
                print("(%d of %d units extracted afresh, facts ready in %.1f s)" % (F.fresh, F.ntu, F.t_load))
        except facts.Broken as e:
            print("%s: analysis broken: %s" % (pid, e))
            r = 2
        except Exception:
            traceback.print_exc(file=sys.stdout)
            print("%s: analysis broken" % pid)
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
