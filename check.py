#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]  -  decides one property on the current tree of /repo"""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from gv import build, run


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module("props." + pid.lower())
    ctx = run.Context(tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        mod.check(ctx)
        return run.verdict(pid, ctx, mod.LEVEL, mod.RULE, getattr(mod, "EXPLANATION", None))
    except build.Broken as e:
        if isinstance(e, build.Rejected) and getattr(mod, "GENERATES", False):
            ctx.oblige("code generated")
            ctx.report("main", "generator/parser.py", "generator/parser.py", "generate", "no code that compiles is generated for a valid description: " +
                       " ".join(x for x in str(e).splitlines()[1:] if "error" in x.lower())[:300])
        if ctx.found and ctx.stats["obligations"]:
            return run.verdict(pid, ctx, mod.LEVEL, mod.RULE, getattr(mod, "EXPLANATION", None))
        print("analysis broken: %s" % e, file=sys.stderr)
        return 3
    finally:
        ctx.close()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(4)
