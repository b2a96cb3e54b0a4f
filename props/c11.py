"""C11: the buffers of outgoing messages are borrowed and given back exactly once."""
from gv import gen, own
from gv.engine import C0, contains, label, root

LEVEL = "other"
RULE = ("ownership typestate of the pooled buffers of outgoing messages on every path: obtaining one yields a buffer that is the caller's "
        "alone, with nothing in it yet, or fails without keeping one; responding, sending an event and broadcasting give the buffer back to the "
        "pool of the server (or the heap) exactly once on every outcome and do not touch it afterwards; generated server code and the control protocol hand "
        "every buffer they obtained to exactly one of these calls, write it only before, and report the outcome to their caller")
DATA = ("k", "data")
SERVER = ("k", "server")
BUF = ("gracht_buffer", "data")
SINKS = ("gracht_server_respond", "gracht_server_send_event", "gracht_server_broadcast_event")


class Sink(own.Own):
    """a call that is handed a borrowed buffer"""
    what = "the buffer of an outgoing message"

    def __init__(self, mod, counts, k, server):
        super().__init__(mod, counts)
        self.k, self.server = k, server
        self.cell = ("f", ("a", k)) + BUF

    def seed(self, eng, st):
        st.mem[self.cell] = DATA
        if self.server is None:
            st.mem[("f", ("a", 0), "gracht_message", "server")] = SERVER
        st.ps = frozenset({(DATA, "own", frozenset())})

    def trim(self, eng, ps, live):
        return ps

    def refers(self, st, a):
        """the call sees the message through this argument"""
        return a == ("a", self.k) or contains(a, DATA) or \
            (a[0] == "al" and any(root(c) == a and contains(v, ("a", self.k)) for c, v in st.mem.items() if c[0] != "Z"))

    def call(self, eng, st, x, name, args):
        e = self.get(st, DATA)
        if name == "stack_push" and args[1] == DATA:
            if args[0] != ("f", self.server or SERVER, "gracht_server", "bufferStack"):
                self.report(eng, st, x, "wrong-pool", "the buffer is not given back to the pool of the server it was borrowed from")
            self.give(eng, st, x, DATA, "rel", "given back")
            return None
        if name == "free" and args[0] == DATA:
            self.give(eng, st, x, DATA, "rel", "given back")
            return None
        if any(self.refers(st, a) for a in args):
            self.bump("use checked")
            if e[1] != "own":
                self.report(eng, st, x, "used-after-release", "%s is used after it was given back" % self.what)
        had = st.mem.get(self.cell)
        r = eng.default_call(st, x, name, args)
        if had is not None:
            for s in r:
                s.mem[self.cell] = had      # nobody replaces the memory of a message
                if self.server is None:
                    s.mem[("f", ("a", 0), "gracht_message", "server")] = SERVER
        return r

    def done(self, eng, st, x, e):
        if any(eng.iszero(st, ("a", k)) is True for k in (0, self.k)) or eng.iszero(st, DATA) is True:
            if e[1] != "own":
                self.report(eng, st, x, "nothing", "a buffer is given back although none was passed")
            return
        self.bump("buffer accounted for")
        if e[1] == "own":
            self.report(eng, st, x, "lost-buffer", "the buffer of an outgoing message is not given back on this path")


class Source(own.Own):
    """obtaining a buffer"""
    what = "the buffer"
    keep = frozenset({BUF, ("gracht_buffer", "index")})

    def call(self, eng, st, x, name, args):
        if name == "stack_pop":
            if args[0] != ("f", ("a", 0), "gracht_server", "bufferStack"):
                self.report(eng, st, x, "wrong-pool", "the buffer is taken from another pool")
            self.bump("buffer obtained")
            return self.acquire(eng, st, x, name, args)
        if name in ("malloc", "calloc"):
            self.bump("buffer obtained")
            return self.acquire(eng, st, x, name, args)
        if name == "stack_push":
            self.give(eng, st, x, args[1], "rel", "given back")
        elif name == "free":
            self.give(eng, st, x, args[0], "rel", "given back")
        return None

    def ret(self, eng, st, x, val):
        mine = [e for e in st.ps if e[1] == "own"]
        self.bump("exit checked")
        if eng.iszero(st, val) is not False:
            d = st.mem.get(("f", ("a", 1)) + BUF)
            e = self.get(st, d) if d is not None else None
            if e is None:
                self.report(eng, st, x, "no-buffer", "success is reported without a buffer that was obtained for the caller")
            elif e[1] != "own":
                self.report(eng, st, x, "shared-buffer", "the buffer that is handed out was also given back")
            mine = [m for m in mine if m is not e]
            if st.mem.get(("f", ("a", 1), "gracht_buffer", "index")) != C0:
                self.report(eng, st, x, "not-empty", "the buffer that is handed out does not start empty")
        for m in mine:
            self.report(eng, st, x, "lost-buffer", "a buffer was obtained and is neither handed out nor given back")


class User(own.Own):
    """generated code and the control protocol; ps = (state, buffer, result) with state none, mine, given, failed"""

    def start(self, eng):
        return ("none", None, None)

    def trim(self, eng, ps, live):
        return ps

    def call(self, eng, st, x, name, args):
        s, b, r = st.ps
        if name == "gracht_server_get_buffer":
            self.bump("buffer borrowed")
            if s == "mine":
                self.report(eng, st, x, "lost-buffer", "a buffer is obtained while one is already borrowed")
            return eng.fork(st, x, name, args, [("zero", ("mine", args[1], None)), ("nonzero", ("failed", args[1], ("result",)))])
        if name in SINKS:
            self.bump("buffer handed over")
            if s != "mine" or b not in args:
                self.report(eng, st, x, "foreign-buffer", "a message is sent that is not in a borrowed buffer")
            out = eng.default_call(st, x, name, args)
            for o in out:
                o.ps = ("given", b, o.env.get(x.i))
            return out
        if s in ("given", "failed") and any(a == b or root(a) == b for a in args):
            self.report(eng, st, x, "used-after-hand-over", "the buffer of a message is used %s" %
                        ("after it was handed over" if s == "given" else "although none was obtained"))
        return None

    def touch(self, eng, st, x, addr):
        s, b, r = st.ps
        if s in ("given", "failed") and root(addr) == b:
            self.report(eng, st, x, "used-after-hand-over", "the buffer of a message is used when it is no longer borrowed")

    def ret(self, eng, st, x, val):
        s, b, r = st.ps
        if s == "none":
            return
        self.bump("exit checked")
        if s == "mine":
            self.report(eng, st, x, "lost-buffer", "a borrowed buffer is not handed over on this path")
        elif s == "failed":
            if val is not None and eng.iszero(st, val) is not False:
                self.report(eng, st, x, "outcome", "success is reported although no buffer was obtained")
        elif val is not None and val != r and not (eng.iszero(st, val) is not None and eng.iszero(st, val) == eng.iszero(st, r)):
            self.report(eng, st, x, "outcome", "the outcome of sending is not reported to the caller")


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    for n, k, server in (("gracht_server_respond", 1, None), ("gracht_server_send_event", 2, ("a", 0)),
                         ("gracht_server_broadcast_event", 1, ("a", 0))):
        m = Sink(mod, counts, k, server)
        ctx.run(lambda f: m, [mod.get(n)], seed=m.seed)
    ctx.run(lambda f: Source(mod, counts), [mod.get("gracht_server_get_buffer")])
    users = [f for f in ctx.roots() if any(c.d["callee"][:2] == ["g", "gracht_server_get_buffer"] for c in f.calls())]
    ctx.need(len(users) >= 2, "the control protocol sends nothing")
    ctx.run(lambda f: User(mod, counts), users)
    n = 0
    for u in gen.units(ctx, lambda c, s, side: gen.codec_names(c), ("server",), "sink"):
        fs = [f for f in u.mod.fn.values() if not f.decl and not f.internal]
        fs = [f for f in fs if any(c.d["callee"][:2] == ["g", "gracht_server_get_buffer"] for c in f.calls())]
        n += len(fs)
        ctx.run(lambda f: User(u.mod, counts), fs, mod=u.mod, eff=u.eff)
    ctx.need(n > 20, "no generated server functions")
    ctx.extra["generated_server_functions"] = n
    for k in ("buffer obtained", "given back", "buffer accounted for", "buffer borrowed", "buffer handed over"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
