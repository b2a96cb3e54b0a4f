"""C22: what may be absent is not used as if it were there."""
import os
from gv import engine, gen
from gv.anchors import API
from gv.engine import C0, label, root
from gv.facts import Facts, strip
from props import c09

LEVEL = "other"
RULE = ("on every path of every function: a result that may be absent (of an allocation, a lookup, a queue, a stack or a memory pool), a callback that need not be provided, and a handle or pointer "
        "given to a public call is used - read, written, called or passed to a function that uses it - only where the path has established that it is there")
# calls whose result may be absent
MAYBE = ("malloc", "calloc", "realloc", "gr_hashtable_get", "gr_hashtable_remove", "gr_hashtable_set", "gr_queue_dequeue", "stack_pop", "gracht_arena_allocate",
         "slot:server_operations.get_incoming_buffer")
TOUCH = {"memcpy": (0, 1), "memmove": (0, 1), "memset": (0,), "strlen": (0,), "strcmp": (0, 1), "memcmp": (0, 1)}
# public calls whose result does not say whether they succeeded
POINTERS = ("gracht_server_get_aio_handle", "gracht_link_get_type")
# what the generated stubs always give
GIVEN = {("gracht_client_get_buffer", 1), ("gracht_client_status_finalize", 1), ("gracht_server_get_buffer", 1)}
BARE = ("gracht_client_configuration_", "gracht_server_configuration_", "gracht_link_")


class Absent(Facts):
    def __init__(self, mod, counts, fn, needs, api):
        super().__init__(mod, counts)
        self.fn, self.needs, self.api = fn, needs, api
        self.uses = set()           # parameters used although they may be absent

    def maybe(self, st, b):
        return ("maybe", b) in st.ps

    def touch(self, eng, st, x, addr, what):
        b = strip(root(addr))
        if b[0] == "c":
            if b == C0 and strip(addr)[0] != "c" or addr == C0:
                self.bump("use checked")
                self.report(eng, st, x, "absent", "something that is absent is %s" % what)
            return
        if b[0] == "a":
            if eng.iszero(st, b) is not False:
                self.uses.add(b[1])
                if self.api and (self.fn.base, b[1]) not in GIVEN:
                    self.report(eng, st, x, "refuse", "argument %d of a public call is %s without a test whether it is there" % (b[1] + 1, what))
            elif self.api:
                self.bump("argument checked")
            return
        if self.maybe(st, b):
            self.bump("use checked")
            if eng.iszero(st, b) is not False:
                self.report(eng, st, x, "absent", "the result of %s is %s without a test whether it is there" % (next((t[2] for t in self.all(st, "from") if t[1] == b), "a call"), what))

    def load(self, eng, st, x, addr, val):
        self.touch(eng, st, x, addr, "read")
        v = strip(val)
        if v[0] == "v" and (label(addr) or ("", ""))[1] == "links":
            self.bump("link looked up")
            self.mark(st, v, "the table of links")

    def store(self, eng, st, x, addr, val):
        self.touch(eng, st, x, addr, "written")
        if label(addr) == ("gracht_client", "link") and self.fn.base == "gracht_client_create":
            self.bump("configured link checked")
            if eng.iszero(st, val) is not False:
                self.report(eng, st, x, "refuse", "a client is created without a link")

    def call(self, eng, st, x, name, args):
        for k in TOUCH.get(name, ()):
            if len(args) > 2 and self.nothing(eng, st, args[2]):
                continue
            self.touch(eng, st, x, args[k], "read or written")
        for k in self.needs.get(name, ()):
            if k < len(args):
                self.touch(eng, st, x, args[k], "passed to %s" % name)
        if name.startswith("slot:gracht_server_callbacks."):
            self.bump("callback checked")
            if eng.iszero(st, eng.val(st, x.d["callee"])) is not False:
                self.report(eng, st, x, "callback", "a callback that the application need not provide is called without a test")
        for k, a in enumerate(args):
            b = strip(root(a))
            if strip(a) != b and (self.maybe(st, b) or self.api and b[0] == "a"):
                self.touch(eng, st, x, a, "passed on as if it were there, to %s" % name.replace("slot:", ""))
        if name.startswith("slot:") and "_ops." in name or name.startswith("slot:server_operations."):
            for a in args:
                if self.maybe(st, strip(a)):
                    self.touch(eng, st, x, a, "passed to %s" % name[5:])
        if name == "free" and self.maybe(st, strip(args[0])):
            v = strip(args[0])
            st.ps = frozenset(t for t in st.ps if t[0] not in ("maybe", "from") or t[1] != v)
        if name in MAYBE:
            return self.result(eng, st, x, name, args)
        return None

    def nothing(self, eng, st, n, d=6):
        """no bytes at all: a product with a factor that is nought"""
        if eng.iszero(st, n) is True:
            return True
        if d > 0 and n[0] == "cast":
            return self.nothing(eng, st, n[4], d - 1)
        return d > 0 and n[0] == "op" and (n[1] == "mul" and self.nothing(eng, st, n[3], d - 1) or
                                           n[1] in ("mul", "shl") and self.nothing(eng, st, n[2], d - 1))

    def mark(self, s, v, what):
        s.ps = frozenset(t for t in s.ps if t[0] not in ("maybe", "from") or t[1] != v) | {("maybe", v), ("from", v, what)}

    def result(self, eng, st, x, name, args):
        r = eng.default_call(st, x, name, args)
        for s in r:
            v = s.env.get(x.i)
            if v is not None and v[0] == "v":
                self.mark(s, v, name.replace("slot:", ""))
        return r

    def ret(self, eng, st, x, val):
        if val is None or self.fn.base not in API and not self.fn.base.endswith(("_create", "_construct")):
            return
        if self.api and eng.iszero(st, ("a", 0)) is True and self.fn.base not in POINTERS:
            self.bump("refusal checked")
            if eng.iszero(st, val) is not False:
                self.report(eng, st, x, "refuse", "a public call that is given nothing to work on claims success")
        for t in self.all(st, "from"):
            if t[2] in ("malloc", "calloc", "gracht_arena_allocate") and eng.iszero(st, t[1]) in ((True, None) if t[2] != "gracht_arena_allocate" else (True,)) and self.fn.base not in POINTERS:
                self.bump("failure checked")
                if eng.iszero(st, val) is not False:
                    self.report(eng, st, x, "failure", "a public call claims success although memory for it could not be had")


class Allocated(Absent):
    """generated code: what it allocates is there before it is used"""

    def call(self, eng, st, x, name, args):
        for k in TOUCH.get(name, ()):
            if len(args) < 3 or not self.nothing(eng, st, args[2]):
                self.touch(eng, st, x, args[k], "read or written")
        for k in self.needs.get(name, ()):
            if k < len(args):
                self.touch(eng, st, x, args[k], "passed to %s" % name)
        if name in ("malloc", "calloc", "realloc", "strdup"):
            return self.result(eng, st, x, name, args)
        return None


def given(mod, eff, fs, mon):
    """what functions use of their arguments without looking at it, and so must be given"""
    needs = {}
    while True:
        old = dict(needs)
        for f in fs:
            m = mon(mod, {}, f, needs, False)
            engine.Engine(mod, f, m, eff).run()
            if m.uses:
                needs[f.base] = tuple(sorted(m.uses))
        if needs == old:
            return needs


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    fs = sorted(ctx.roots(), key=lambda f: f.name)
    inner = [f for f in fs if f.base not in API and not f.taken]
    needs = given(mod, ctx.eff, inner, Absent)
    counts["argument that must be there"] = sum(len(v) for v in needs.values())
    ctx.run(lambda f: Absent(mod, counts, f, needs, f.base in API and (not f.base.startswith(BARE) or f.base.startswith("gracht_link_get_"))), fs)
    seen = {}
    for u in gen.units(ctx, lambda c, s, side: gen.codec_names(c), ("client", "server"), "absent"):
        t = u.corpus.tag
        mods = [(u.mod, u.eff)]
        if t not in seen:
            m, eff = c09.shared(ctx, u.corpus, os.path.join(ctx.scratch, "gen-" + t), u.service, gen.codec_names(u.corpus), "absent-%s" % t)
            seen[t] = given(m, eff, [f for f in m.fn.values() if not f.decl], Allocated)
            mods.append((m, eff))
        for m, eff in mods:
            ctx.run(lambda f: Allocated(m, counts, f, seen[t], False), [f for f in m.fn.values() if not f.decl], mod=m, eff=eff)
    for k, n in (("use checked", 20), ("argument checked", 30), ("callback checked", 2), ("refusal checked", 10), ("failure checked", 4), ("link looked up", 3)):
        ctx.need(counts.get(k, 0) >= n, "too few instances of: %s" % k)
