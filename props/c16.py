"""C16: nothing that is obtained is lost or released twice, in particular by calls that fail."""
from gv import res

LEVEL = "other"
RULE = ("ownership analysis of heap blocks, descriptors, memory pools, worker pools and tables on every path of every function: whatever is obtained is released, or stored in "
        "something that outlives the call, or returned; a call that fails has released everything it obtained; nothing is released twice or used after its release")


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    fields = {}
    res.Res.threads = frozenset(n for n, us in mod.taken_by.items() if any(x.d["callee"][:2] == ["g", "thrd_create"] for x, k in us))
    ctx.run(lambda f: res.Res(mod, counts, fields))
    ctx.extra["owning_fields"] = {"%s.%s" % k: v for k, v in sorted(fields.items())}
    for k in ("resource obtained", "resource stored", "release checked", "end checked", "resource handed to a thread"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
