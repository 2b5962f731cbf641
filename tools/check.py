#!/usr/bin/env python3
"""check.py <property id>: run the check of one property against /repo's working tree."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
import vp

def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    ctx = vp.Ctx(pid)
    try:
        mod.run(ctx)
    except vp.CheckError as e:
        print("CHECK ERROR %s: %s" % (pid, e))
        if ctx.violations:      # what was confirmed before the failure stands
            return ctx.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return ctx.finish()
        return 2
    return ctx.finish()

if __name__ == "__main__":
    sys.exit(main())
