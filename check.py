#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property from /repo's current sources."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import core, prep

# -UCGOTO: the interpreter dispatches with a switch; -DSANDBOX: no files, no loading
CONFIGS = {"": ("-UCGOTO", "-DSANDBOX"), "P02": ("-UCGOTO",)}

def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        m = importlib.import_module("sa.rules." + pid.lower())
        ctx = core.Ctx(tier, getattr(m, "MODES", ("ssa",)))
        m.run(ctx)
        if tier == "thorough":
            # the same obligations on the code other build configurations select
            for extra in CONFIGS.get(pid, CONFIGS[""]):
                c = core.Ctx(tier, getattr(m, "MODES", ("ssa",)), (extra,))
                m.run(c)
                for f in c.findings: ctx.report(f.key, f.where, f.msg + " (built with %s)" % extra)
                for k, n in c.counts.items(): ctx.count("%s, built with %s" % (k, extra), n)
        return core.finish(ctx, pid, m.RULE, getattr(m, "ASSUME", ()))
    except prep.Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        return 2

sys.exit(main())
