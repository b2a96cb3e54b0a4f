"""C15: shutting down releases everything that is owned, in an order in which nothing is used after it is gone."""
from gv import build, wire
from gv.engine import C0, flat, label, root
from gv.facts import Facts, plus, strip

LEVEL = "other"
RULE = ("typestate analysis of every destructor: on every path on which the object is released, each thing it owns was released before (or is known not to be there, or not "
        "to be owned); the server stops its workers first, then releases all client records, all links, the event descriptor and all pooled buffers, in this order; every "
        "worker is told to stop, joined and then cleaned up; the main loop and the event handler shut the server down exactly when that was requested and do not touch it afterwards")
SRV, CL, LNK, SC, POOL, W = "gracht_server", "gracht_client", "gracht_link", "socket_link_client", "gracht_worker_pool", "gracht_worker"
OWNS = {
    SRV: ("worker_pool", "arena", "recvBuffer", "set_handle", "bufferStack", "clients", "protocols"),
    CL: ("link", "send_buffer", "arena", "awaiters", "messages", "protocols"),
    LNK: ("connection",), SC: ("socket",), POOL: ("workers",),
    "gr_hashtable": ("elements", "swap"), "stack": ("elements",), "gr_queue": ("elements",), "gracht_arena": ("base",),
}
# what is only owned if a flag has (True) or does not have (False) a value; the value of the flag that stands for "not set"
GUARD = {(CL, "send_buffer"): ("free_send_buffer", True, 0), (SRV, "set_handle"): ("set_handle_provided", False, 0),
         (SC, "socket"): ("streaming", True, 0), (CL, "link"): ("iod", True, -1)}
ALIAS = {("gracht_server_client", "handle"): (SC, "socket")}
RELEASE = {"free", "close", "gracht_arena_destroy", "gracht_worker_pool_destroy", "gr_hashtable_destroy", "stack_destroy", "gr_queue_destroy",
           "slot:client_link_ops.destroy"}
LINKS, EPIPE, SHUTDOWN_REQUESTED = 4, 32, 2
TEXT = {"worker_pool": "the workers", "clients": "the client records", "links": "the links", "buffers": "the pooled message buffers", "set_handle": "the event descriptor"}


class Destroy(Facts):
    def __init__(self, mod, counts, struct, heap, fn):
        super().__init__(mod, counts)
        self.struct, self.heap, self.fn = struct, heap, fn

    def mine(self, a):
        """name of the field of the destroyed object"""
        if a is None:
            return None
        l = label(a)
        l = ALIAS.get(l, l)
        if l is None or l[0] != self.struct or root(a) != ("a", 0):
            return None
        return l[1]

    def known(self, st, what, f):
        return any(t[0] == what and t[1] == f for t in st.ps)

    # what is known about fields ---------------------------------------------------------------------------------
    def edge(self, eng, st, x, succ):
        for (p, a, b), v in list(st.facts.items()):
            for l, r in ((a, b), (b, a)):
                if r[0] != "c":
                    continue
                o = self.origin(eng, l)
                f = self.mine(o)
                if f is None:
                    continue
                if p == "eq" and label(o) != (SRV, "state"):
                    if r[1] in (0, -1) and v:
                        self.add(st, "null", f)
                    for k, g in GUARD.items():
                        if k[0] == self.struct and g[0] == f and g[2] == r[1]:
                            self.add(st, "flag", f, not v)
                if p == "slt" and r == C0 and v and l == a:
                    self.add(st, "null", f)
                    for k, g in GUARD.items():
                        if k[0] == self.struct and g[0] == f and g[2] == -1:
                            self.add(st, "flag", f, False)
                if p == "slt" and r == C0 and not v and l == a or p == "slt" and l == b and r[1] == -1 and v:
                    for k, g in GUARD.items():
                        if k[0] == self.struct and g[0] == f and g[2] == -1:
                            self.add(st, "flag", f, True)

    def released(self, eng, st, x, a):
        f = self.mine(a)
        if f is None:
            return
        f = "links" if label(a) == ("link_table", "links") else f
        if f in OWNS[self.struct]:
            self.bump("release of an owned resource")
            g = GUARD.get((self.struct, f))
            if g is not None and ("flag", g[0], not g[1]) in st.ps:
                self.report(eng, st, x, "not-owned", "%s.%s is released although it is not owned" % (self.struct, f))
            if g is not None and g[2] == 0 and not self.known(st, "flag", g[0]):
                self.report(eng, st, x, "not-owned", "%s.%s is released without asking whether it is owned" % (self.struct, f))
            if ("done", f) in st.ps:
                self.report(eng, st, x, "twice", "%s.%s is released twice" % (self.struct, f))
            self.add(st, "done", f)

    def call(self, eng, st, x, name, args):
        if name in RELEASE:
            v = strip(args[0])
            if name == "free" and v == ("a", 0):
                return self.gone(eng, st, x)
            if v[0] == "f":
                self.released(eng, st, x, v)
            else:
                self.released(eng, st, x, self.origin(eng, v))
        return None

    def complete(self, eng, st, x):
        for f in OWNS[self.struct]:
            self.bump("owned resource released")
            if ("done", f) in st.ps or ("null", f) in st.ps:
                continue
            g = GUARD.get((self.struct, f))
            if g is not None and ("flag", g[0], not g[1]) in st.ps:
                continue
            self.report(eng, st, x, "lost", "%s.%s is not released" % (self.struct, f))

    def gone(self, eng, st, x):
        if ("gone",) in st.ps:
            self.report(eng, st, x, "twice", "%s is released twice" % self.struct)
        self.complete(eng, st, x)
        self.add(st, "gone")
        return None

    def ret(self, eng, st, x, val):
        if eng.iszero(st, ("a", 0)) is True:
            return
        self.bump("end of a destructor checked")
        if not self.heap:
            self.complete(eng, st, x)
        elif ("gone",) not in st.ps:
            self.report(eng, st, x, "lost", "%s is not released" % self.struct)


class Pool(Destroy):
    """workers: told, joined, cleaned; all of them"""
    STEPS = ("told", "joined", "cleaned")

    def position(self, st, t):
        """(symbol, number) a pointer to a worker, or an index, stands for"""
        t = strip(t)
        if t[0] == "x":
            b, parts = flat(t)
            s, n = (b, 0) if ("pointer", b) in st.ps else (None, 0)
            for i, _ in parts:
                p, k = plus(i)
                if p is not None and s is not None:
                    return None
                s, n = s if p is None else p, n + k
            return (s, n)
        if ("pointer", t) in st.ps:
            return (t, 0)
        if ("base", t) in st.ps:
            return (None, 0)
        return plus(t)

    def worker(self, st, a):
        """position of the worker a field belongs to"""
        while a[0] == "f" and a[2] != W:
            a = a[1]
        return self.position(st, a[1]) if a[0] == "f" else None

    def seen(self, st, step):
        return next((t[2] for t in st.ps if t[0] == "seen" and t[1] == step), (None, 0))

    def rename(self, eng, st, v, s):
        q = self.position(st, v)
        for t in list(st.ps):
            if t[0] in ("seen", "now") and t[2] == q and q is not None:
                st.ps = (st.ps - {t}) | {(t[0], t[1], (s, 0))}
                if strip(v)[0] == "x" or ("base", strip(v)) in st.ps:
                    st.ps = st.ps | {("pointer", s)}

    def step(self, eng, st, x, step, p):
        """something is done with the worker at p"""
        self.bump("worker %s" % step)
        if p is None:
            return
        k = self.STEPS.index(step)
        if k and not any(t[0] == "now" and t[1:] == (self.STEPS[k - 1], p) or t == ("all", self.STEPS[k - 1]) for t in st.ps):
            self.report(eng, st, x, "stop", ("a worker is waited for that was not told to stop", "a worker is cleaned up while it may still be running")[k - 1])
        st.ps = frozenset(t for t in st.ps if t[:2] != ("now", step)) | {("now", step, p)}
        if not any(t[:2] == ("first", step) for t in st.ps):
            self.add(st, "first", step, p[0] is None)
        if p == self.seen(st, step):
            st.ps = frozenset(t for t in st.ps if t[:2] != ("seen", step)) | {("seen", step, (p[0], p[1] + 1))}

    def load(self, eng, st, x, addr, val):
        if label(addr) == (W, "id"):
            self.set(st, "wid", val, self.worker(st, addr))
        if label(addr) == (POOL, "workers"):
            self.add(st, "base", val)

    def store(self, eng, st, x, addr, val):
        if label(addr) == (W, "state") and val[0] == "c" and val[1] != 0:
            self.step(eng, st, x, "told", self.worker(st, addr))

    def call(self, eng, st, x, name, args):
        if name == "thrd_join":
            self.step(eng, st, x, "joined", next((t[2] for t in st.ps if t[0] == "wid" and t[1] == strip(args[0])), None))
            return None
        if name == "gr_queue_destroy":
            self.step(eng, st, x, "cleaned", self.worker(st, args[0]))
            return None
        return super().call(eng, st, x, name, args)

    def counted(self, eng, t):
        t = strip(t)
        if t[0] == "x":
            b, parts = flat(t)
            if len(parts) != 1:
                return False
            t = strip(parts[0][0])
        o = self.origin(eng, t)
        return o is not None and label(o) == (POOL, "worker_count")

    def edge(self, eng, st, x, succ):
        super().edge(eng, st, x, succ)
        for (p, a, b), v in list(st.facts.items()):
            for l, r in ((a, b), (b, a)):
                if self.counted(eng, l) and (p == "eq" and v or p in ("slt", "ult") and l == b and not v):
                    q = self.position(st, r)
                    for k in self.STEPS:
                        if q == self.seen(st, k):
                            self.add(st, "all", k)

    def complete(self, eng, st, x):
        super().complete(eng, st, x)
        for k in self.STEPS:
            self.bump("all workers %s" % k)
            if ("first", k, False) not in st.ps and ("all", k) not in st.ps:
                self.report(eng, st, x, "stop", "not every worker is %s" % {"told": "told to stop", "joined": "waited for", "cleaned": "cleaned up"}[k])


class Started(Facts):
    """gracht_worker_pool_create counts the workers it started"""

    def call(self, eng, st, x, name, args):
        if name == "thrd_create":
            self.bump("worker started")
            b, parts = flat(args[0][1]) if args[0][0] == "f" else flat(args[0])
            at = (None, 0) if not parts else plus(parts[0][0]) if len(parts) == 1 else None
            return eng.fork(st, x, name, args, [("zero", frozenset(t for t in st.ps if t[0] != "place") | {("started",), ("place", at)}), ("nonzero", st.ps)])
        return None

    def load(self, eng, st, x, addr, val):
        if label(addr) == (POOL, "worker_count"):
            self.set(st, "count", val)

    def rename(self, eng, st, v, s):
        pass

    def store(self, eng, st, x, addr, val):
        if label(addr) == (POOL, "worker_count"):
            s, n = plus(strip(val))
            if self.all(st, "started"):
                c = self.one(st, "count")
                last = self.one(st, "last")
                old = plus(strip(c)) if c is not None else last if last is not None else (None, 0)
                if (s, n) == (old[0], old[1] + 1) or val == ("a", 1) or s == ("a", 1) and n == 0 or ("place", (s, n - 1)) in st.ps:
                    st.ps = st.ps - {("started",)}
                    self.add(st, "counted")
            self.set(st, "last", s, n)

    def ret(self, eng, st, x, val):
        if eng.iszero(st, val) is True and self.all(st, "started"):
            self.report(eng, st, x, "count", "a worker that was started is not counted, so that it is never stopped")


class Server(Destroy):
    ORDER = ("worker_pool", "clients", "links", "set_handle")
    numbers = (LINKS,)

    def done(self, st, what):
        return any(t[0] in ("done", "null") and t[1] == what for t in st.ps)

    def before(self, eng, st, x, what):
        """what of it has to be over when something of the order is released"""
        for k in self.ORDER[:self.ORDER.index(what)]:
            if not self.done(st, k if k != "clients" else "records") and not (k == "links" and self.one(st, "first") is False):
                self.report(eng, st, x, "order", "%s released before %s" % (TEXT[what], TEXT[k]))

    def link(self, eng, st, v):
        """position in the link table a link was read from"""
        for t in st.ps:
            if t[0] == "slot" and t[1] == strip(v):
                return t[2]
        return None

    def place_of(self, st, o):
        b, parts = flat(o)
        if ("pointer", b) in st.ps:
            n = [plus(i) for i, k in parts]
            return (b, sum(k for _, k in n)) if all(a is None for a, _ in n) else ("?", 0)
        if b != ("f", ("f", ("a", 0), SRV, "link_table"), "link_table", "links") and label(b) != ("link_table", "links"):
            return None
        if not parts:
            return (None, 0)
        return plus(parts[0][0]) if len(parts) == 1 else ("?", 0)

    def rename(self, eng, st, v, s):
        v = strip(v)
        q = self.place_of(st, v) if v[0] in ("x", "f") or ("pointer", v) in st.ps else plus(v)
        t = self.one(st, "seen")
        if t is not None and t == q:
            self.set(st, "seen", s, 0)
            if v[0] in ("x", "f") or ("pointer", v) in st.ps:
                st.ps = st.ps | {("pointer", s)}
        # a value that counts the links that are left
        left = [k for _, a, k in self.all(st, "left") if a == q[0]]
        if v[0] not in ("x", "f") and left and q[1] == left[0] or q[0] is None and t == (None, LINKS - q[1]) and t[1]:
            st.ps = frozenset(k for k in st.ps if k[0] != "left" or k[1] not in (q[0], s)) | {("left", s, 0)}

    def visited(self, eng, st, q):
        seen = self.one(st, "seen") or (None, 0)
        if not self.all(st, "first"):
            self.add(st, "first", q[0] is None and q[1] != LINKS - 1)
        if q == seen:
            seen = (q[0], q[1] + 1)
            self.set(st, "seen", *seen)
            for t in self.all(st, "left"):
                st.ps = st.ps - {t} | {("left", t[1], t[2] - 1)}
        if seen == (None, LINKS):
            self.add(st, "done", "links")

    def edge(self, eng, st, x, succ):
        super().edge(eng, st, x, succ)
        for (p, a, b), v in list(st.facts.items()):
            if p == "eq" and b == C0 and v:
                q = self.link(eng, st, a)
                if q is not None:
                    self.visited(eng, st, q)
        seen = self.one(st, "seen") or (None, 0)
        for (p, a, b), v in list(st.facts.items()):
            for l, r in ((a, b), (b, a)):
                if r[0] == "c" and plus(strip(l)) == (seen[0], seen[1]) and seen[0] is not None:
                    if p == "eq" and v and r[1] == LINKS or p in ("slt", "ult") and l == a and not v and r[1] >= LINKS:
                        self.add(st, "done", "links")
                if ("pointer", seen[0]) in st.ps and r[0] in ("x", "f") and self.place_of(st, strip(l)) == seen and self.place_of(st, r) == (None, LINKS):
                    if p == "eq" and v or p == "ult" and l == a and not v:
                        self.add(st, "done", "links")
                for t in self.all(st, "left"):
                    y, k = plus(strip(l))
                    if y == t[1] and r[0] == "c":
                        # the largest value of y that the comparison leaves
                        top = r[1] - k if p == "eq" and v else r[1] - k - 1 if l == a and v and p != "eq" else r[1] - k if l == b and not v and p != "eq" else None
                        if top is not None and top + t[2] <= 0:
                            self.add(st, "done", "links")

    def call(self, eng, st, x, name, args):
        if name == "gracht_server_handle_event":
            self.bump("event handled")
            out = eng.fork(st, x, name, args, [(("c", -1), st.ps | {("gone",), ("handled",)}), (None, st.ps), (("c", -1), st.ps)])
            out[0].mem[("errno",)] = ("c", EPIPE)
            out[2].mem[("errno",)] = ("c", 12)
            out[1].facts[("eq", ("v", x.i), ("c", -1))] = False
            return out
        if ("gone",) in st.ps and ("handled",) in st.ps and any(root(strip(a)) == ("a", 0) for a in args):
            self.report(eng, st, x, "use", "the server is used after it was shut down")
        if name == "slot:server_link_ops.destroy":
            q = self.link(eng, st, strip(args[0]))
            self.bump("link destroyed")
            if q is None:
                self.report(eng, st, x, "lost", "what is destroyed is not a link of the server")
            else:
                self.before(eng, st, x, "links")
                if not self.field(eng, args[1], ("a", 0), SRV, "set_handle"):
                    self.report(eng, st, x, "descriptor", "a link is not removed from the event descriptor of the server")
                self.visited(eng, st, q)
            return None
        if name == "gr_hashtable_enumerate" and args[0] == ("f", ("a", 0), SRV, "clients"):
            c = strip(args[1])
            if c[0] == "g" and c[1] in self.records:
                self.bump("client records released")
                self.before(eng, st, x, "clients")
                if args[2] != ("a", 0):
                    self.report(eng, st, x, "descriptor", "the clients are not released in the context of their server")
                if self.done(st, "records"):
                    self.report(eng, st, x, "twice", "the client records are released twice")
                if ("done", "clients") in st.ps:
                    self.report(eng, st, x, "order", "the client records are released after the table they are in")
                self.add(st, "done", "records")
            return None
        if name == "stack_pop" and args[0] == ("f", ("a", 0), SRV, "bufferStack"):
            self.bump("pooled buffer taken")
            if self.all(st, "popped"):
                self.report(eng, st, x, "lost", "a pooled message buffer is not released")
            if ("done", "bufferStack") in st.ps:
                self.report(eng, st, x, "order", "buffers are taken from a stack that was released")
            return eng.fork(st, x, name, args, [("nonzero", st.ps | {("popped", ("result",))}), ("zero", st.ps | {("done", "buffers")})])
        if name == "free" and self.all(st, "popped"):
            v = strip(args[0])
            p = [t for t in self.all(st, "popped") if t[1] == v]
            if p:
                st.ps = st.ps - set(p)
                return None
        if name in ("close", "stack_destroy", "gr_hashtable_destroy"):
            o = strip(args[0])
            f = self.mine(o if o[0] == "f" else self.origin(eng, o))
            if f == "set_handle":
                self.before(eng, st, x, "set_handle")
            if f == "bufferStack" and not self.done(st, "buffers"):
                self.report(eng, st, x, "lost", "the stack is released before it is empty")
        if name in ("gracht_arena_destroy", "free", "stack_destroy", "gr_hashtable_destroy"):
            o = strip(args[0])
            f = self.mine(o if o[0] == "f" else self.origin(eng, o))
            if f in OWNS[SRV] and not self.done(st, "worker_pool"):
                self.report(eng, st, x, "order", "%s.%s is released while the workers may still use it" % (SRV, f))
        return super().call(eng, st, x, name, args)

    def complete(self, eng, st, x):
        super().complete(eng, st, x)
        for k in ("records", "links", "buffers"):
            self.bump("owned resource released")
            if not self.done(st, k) and not (k == "links" and self.one(st, "first") is False):
                self.report(eng, st, x, "lost", "not all of %s are released" % TEXT[{"records": "clients"}.get(k, k)])

    def load(self, eng, st, x, addr, val):
        if ("gone",) in st.ps and root(addr) == ("a", 0):
            self.report(eng, st, x, "use", "the server is used after it was shut down")
        q = self.place_of(st, addr) if ("pointer", root(addr)) in st.ps or root(addr) == ("a", 0) else None
        if q is not None and val[0] in ("v", "old"):
            st.ps = frozenset(t for t in st.ps if t[0] != "slot" or t[1] != val) | {("slot", val, q)}

    def store(self, eng, st, x, addr, val):
        if ("gone",) in st.ps and root(addr) == ("a", 0):
            self.report(eng, st, x, "use", "the server is used after it was shut down")
        if addr == ("f", ("a", 0), SRV, "state") and val == C0:
            self.add(st, "closed")

    def ret(self, eng, st, x, val):
        if eng.iszero(st, ("a", 0)) is True:
            return
        self.bump("end of a destructor checked")
        gone, state = ("gone",) in st.ps, self.one(st, "state")
        if gone:
            if self.fn == "gracht_server_handle_event" and (eng.const(st, val) != -1 or st.mem.get(("errno",)) != ("c", EPIPE)):
                self.report(eng, st, x, "told", "the caller is not told that the server was shut down")


class Entry(Server):
    """gracht_server_handle_event and gracht_server_main_loop"""

    def edge(self, eng, st, x, succ):
        super().edge(eng, st, x, succ)
        for (p, a, b), v in list(st.facts.items()):
            if p == "eq" and b[0] == "c" and ("gone",) not in st.ps:
                o = self.origin(eng, a)
                if o == ("f", ("a", 0), SRV, "state"):
                    if v:
                        self.set(st, "state", b[1])
                    elif b[1] == 1 and self.one(st, "state") in (None, 1):
                        self.set(st, "state", "stopped")
                    elif b[1] == SHUTDOWN_REQUESTED and self.one(st, "state") == "stopped":
                        self.set(st, "state", "other")

    def gone(self, eng, st, x):
        s = self.one(st, "state")
        if s == 1:
            self.report(eng, st, x, "running", "the server is shut down although nobody asked for it")
        return super().gone(eng, st, x)

    def ret(self, eng, st, x, val):
        super().ret(eng, st, x, val)
        gone, s = ("gone",) in st.ps, self.one(st, "state")
        if eng.iszero(st, ("a", 0)) is True or gone or s == 0 and ("closed",) not in st.ps:
            return
        if ("closed",) in st.ps:
            self.report(eng, st, x, "requested", "the server is marked as shut down and not shut down")
        if self.fn == "gracht_server_handle_event" and s in (SHUTDOWN_REQUESTED, "stopped"):
            self.report(eng, st, x, "requested", "the requested shutdown does not happen")
        if self.fn == "gracht_server_main_loop" and self.all(st, "began"):
            self.report(eng, st, x, "requested", "the main loop ends without shutting the server down")


class Loop(Entry):
    def call(self, eng, st, x, name, args):
        if name in ("epoll_wait", "gracht_io_wait", "epoll_pwait"):
            self.add(st, "began")
            self.drop(st, "state")
        if name == "gracht_server_handle_event":
            self.drop(st, "state")
        return super().call(eng, st, x, name, args)


class Request(Facts):
    """gracht_server_request_shutdown"""

    def edge(self, eng, st, x, succ):
        for (p, a, b), v in list(st.facts.items()):
            if p == "eq" and v and b[0] == "c" and self.origin(eng, a) == ("f", ("a", 0), SRV, "state"):
                self.set(st, "state", b[1])

    def store(self, eng, st, x, addr, val):
        if label(addr) == (SRV, "state"):
            self.bump("shutdown requested")
            if val != ("c", SHUTDOWN_REQUESTED) or self.one(st, "state") != 1:
                self.report(eng, st, x, "request", "the request does not turn a running server into one that is to be shut down")
            self.add(st, "stored")

    def ret(self, eng, st, x, val):
        if self.one(st, "state") == 1 and not self.all(st, "stored"):
            self.report(eng, st, x, "request", "the request to shut down is lost")


class Record(Facts):
    """callback that releases one client record"""

    def call(self, eng, st, x, name, args):
        if name == "slot:server_link_ops.destroy_client":
            o, e = self.slot_object(eng, st, x), None
            self.bump("client record released")
            ok = o is not None and self.field(eng, o, ("a", 1), "client_wrapper", "link") and self.field(eng, args[0], ("a", 1), "client_wrapper", "client") and \
                self.field(eng, args[1], ("a", 2), SRV, "set_handle")
            if not ok:
                self.report(eng, st, x, "record", "the client is not released by its own link, or not removed from the event descriptor of its server")
            if self.all(st, "released"):
                self.report(eng, st, x, "twice", "a client record is released twice")
            self.add(st, "released")
        return None

    def ret(self, eng, st, x, val):
        self.bump("client record released")
        if not self.all(st, "released"):
            self.report(eng, st, x, "lost", "a client record is not released")


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    names = {}
    cbs = callbacks(mod)
    ctx.need(cbs, "no callback that releases the client records")

    def one(fns, struct, heap, cls=Destroy):
        fns = [f for f in fns if f is not None]
        ctx.need(fns, "no destructor of %s" % struct)
        for f in fns:
            names.setdefault(struct, []).append(f.base)

        def make(f):
            m = cls(mod, counts, struct, heap, f.base)
            m.records = {c.name for c in cbs}
            return m
        ctx.run(make, fns)
    one([mod.get("gr_hashtable_destroy")], "gr_hashtable", False)
    one([mod.get("stack_destroy")], "stack", False)
    one([mod.get("gr_queue_destroy")], "gr_queue", False)
    one([mod.get("gracht_arena_destroy")], "gracht_arena", True)
    one([mod.get("gracht_client_shutdown")], CL, True)
    one([mod.get("gracht_worker_pool_destroy")], POOL, True, Pool)
    one(wire.slots(mod, "server_link_ops", "destroy") + wire.slots(mod, "client_link_ops", "destroy"), LNK, True)
    one(wire.slots(mod, "server_link_ops", "destroy_client"), SC, True)
    one([mod.get("gracht_server_handle_event")], SRV, True, Entry)
    one([mod.get("gracht_server_main_loop")], SRV, True, Loop)
    ctx.run(lambda f: Record(mod, counts), cbs)
    ctx.run(lambda f: Started(mod, counts), [mod.get("gracht_worker_pool_create")])
    ctx.run(lambda f: Request(mod, counts), [mod.get("gracht_server_request_shutdown")])
    ctx.extra["destructors"] = names
    for k in ("release of an owned resource", "worker told", "worker joined", "worker cleaned", "worker started", "link destroyed", "client records released", "pooled buffer taken", "event handled", "shutdown requested"):
        ctx.need(counts.get(k), "no instance of: %s" % k)


def callbacks(mod):
    """functions handed to gr_hashtable_enumerate where servers are shut down"""
    out = []
    for n, us in mod.taken_by.items():
        if any(x.d["callee"][:2] == ["g", "gr_hashtable_enumerate"] and x.fn.base in ("gracht_server_handle_event", "gracht_server_main_loop") for x, k in us):
            out.append(mod.fn[n])
    return out
