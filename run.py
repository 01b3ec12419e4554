#!/usr/bin/env python3
"""run.py PROPERTY: decides one property on /repo's current tree (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vt


def main():
    prop = sys.argv[1]
    ctx = vt.Ctx(prop)
    mod = importlib.import_module(prop.lower())
    try:
        mod.run(ctx)
    except vt.Stop:
        pass
    except vt.ToolError as e:
        if ctx.violations:
            return ctx.finish()
        print("ERROR property=%s %s" % (prop, e))
        ctx.notes.append(str(e))
        return 2
    except Exception:
        if ctx.violations:
            return ctx.finish()
        traceback.print_exc()
        return 2
    rc = ctx.finish()
    if rc == 0:
        print("ok property=%s states=%d transitions=%d traces=%d" % (prop, ctx.states, ctx.transitions, ctx.traces))
    return rc


sys.exit(main())
