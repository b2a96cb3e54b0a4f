"""Resources: heap blocks, descriptors and constructed objects, from where they are obtained to where they end up.

ps holds ("res", object, kind, state) with state own / rel / kept, ("in", object, container) for objects that are stored in
another one, ("null", address) for fields that are known to hold nothing and ("done", address) for fields whose content was
released."""
from .engine import C0, contains, label, root
from .facts import Facts, strip

HEAP = {"malloc", "calloc", "strdup", "realloc"}
FD = {"socket", "accept", "accept4", "epoll_create1", "epoll_create", "eventfd", "dup"}
OUT = {"gracht_arena_create": (1, "gracht_arena_destroy"), "gracht_worker_pool_create": (2, "gracht_worker_pool_destroy"),
       "gracht_client_create": (1, "gracht_client_shutdown"), "gracht_link_socket_create": (0, None)}
MAKE = {"gr_hashtable_construct": "gr_hashtable_destroy", "stack_construct": "stack_destroy", "gr_queue_construct": "gr_queue_destroy"}
RELEASE = {"free": "heap", "close": "fd", "gracht_arena_destroy": "arena"}
DEEP = {"gracht_worker_pool_destroy", "gracht_client_shutdown"}
# resources that are only released if a field says so: field -> (flag, value of the flag with which it is released)
GUARD = {("gracht_client", "send_buffer"): ("free_send_buffer", True), ("gracht_server", "set_handle"): ("set_handle_provided", False)}
KIND = {"gracht_arena_create": "arena", "gracht_worker_pool_create": "pool", "gracht_client_create": "client", "gracht_link_socket_create": "link"}
# fields that own what they refer to
OWNING = {("gr_hashtable", "elements"), ("gr_hashtable", "swap"), ("stack", "elements"), ("gr_queue", "elements"), ("gracht_arena", "base"), ("gracht_client", "send_buffer"),
          ("gracht_client", "arena"), ("gracht_server", "recvBuffer"), ("gracht_server", "arena"), ("gracht_server", "worker_pool")}
REPLACED = {("gracht_link", "connection")}
# functions that give objects their first content
FIRST = set(MAKE)
NAMES = {"heap": "memory", "fd": "descriptor", "arena": "memory pool", "pool": "worker pool", "table": "table", "client": "client", "link": "link"}


class Res(Facts):
    threads = frozenset()

    what = "memory"
    keep = frozenset({(k[0], g[0]) for k, g in GUARD.items()})

    def __init__(self, mod, counts, fields):
        super().__init__(mod, counts)
        self.fields = fields            # (struct, field) -> (kind, release function)

    def get(self, st, o):
        for t in st.ps:
            if t[0] == "res" and t[1] == o:
                return t
        return None

    def state(self, st, o, s):
        t = self.get(st, o)
        st.ps = (st.ps - {t}) | {("res", o, t[2], s)}

    def start(self, eng):
        # the context of a thread belongs to the thread
        return frozenset({("res", ("a", 0), "heap", "own")}) if eng.fn.name in self.threads else frozenset()

    def trim(self, eng, ps, live):
        return ps

    # obtaining ------------------------------------------------------------------------------------------------------
    def obtain(self, eng, st, x, name, args, kind, bad):
        self.bump("resource obtained")
        s, o = ("v", x.i), ("old", x.i)
        t = self.get(st, s)
        if eng.inloop[x.blk] and t is not None and t[3] == "own" and not self.held(st, s, set()):
            self.report(eng, st, x, "leak", "the %s obtained in an earlier round is lost" % NAMES[kind])
        ps = frozenset(t for t in st.ps if not (t[0] in ("res", "in") and t[1] in (s, o)))
        st.ps = ps
        good = ps | {("res", ("result",), kind, "own")}
        out = eng.fork(st, x, name, args, [("nonzero" if kind == "heap" else None, good), (bad, ps)])
        if kind == "fd":
            out[0].facts[("slt", s, C0)] = False
        return out

    # where it is --------------------------------------------------------------------------------------------------
    def held(self, st, o, seen):
        """o lies in something that outlives the call"""
        if o in seen:
            return False
        seen.add(o)
        t = self.get(st, o)
        if t is not None and t[3] == "kept":
            return True
        for f in st.ps:
            if f[0] == "in" and f[1] == o and f[2][0] != "al":
                c = self.get(st, f[2])
                if c is None or c[3] != "rel" and self.held(st, f[2], seen):
                    return True
        return False

    def store(self, eng, st, x, addr, val):
        self.touch(eng, st, x, addr)
        v = strip(val)
        t = self.get(st, v)
        r = root(addr)
        for f in list(st.ps):
            if f[0] == "at" and f[2] == addr and f[1] != v:
                o = self.get(st, f[1])
                if o is not None and o[3] == "kept" and not any(g[0] == "at" and g[1] == f[1] and g != f for g in st.ps):
                    self.report(eng, st, x, "leak", "the %s that was stored before is lost" % NAMES[o[2]])
                st.ps = st.ps - {f}
        if label(addr) in GUARD and self.get(st, r) is not None:
            st.ps = frozenset(f for f in st.ps if not (f[0] == "gval" and f[1] == addr))
            if v[0] != "c":
                self.add(st, "gval", addr, t is not None)
        gone = any(f[0] in ("null", "done") and f[1] == addr for f in st.ps)
        st.ps = frozenset(f for f in st.ps if not (f[0] in ("null", "done") and f[1] == addr or f[0] == "in" and f[3] == addr and f[1] != v))
        if label(addr) in self.keep:
            st.ps = frozenset(f for f in st.ps if not (f[0] == "flag" and f[1] == addr))
            if val[0] == "c" and self.get(st, r) is not None:
                self.add(st, "flag", addr, val)
        if t is not None and t[3] == "own":
            l = label(addr)
            c = self.get(st, r)
            if c is not None:
                if l is not None:
                    self.fields.setdefault(l, t[2])
                self.add(st, "in", v, r, addr)
            elif r[0] == "al":
                self.add(st, "in", v, r, addr)
            else:
                if l is not None:
                    self.fields.setdefault(l, t[2])
                self.overwrite(eng, st, x, addr, gone)
                self.bump("resource stored")
                self.state(st, v, "kept")
                self.add(st, "at", v, addr)

    def overwrite(self, eng, st, x, addr, gone):
        """what a field of an object that is in use held before must not be forgotten"""
        if gone or label(addr) in REPLACED or eng.fn.base in FIRST or label(addr) not in OWNING:
            return
        self.add(st, "owed", addr)

    def load(self, eng, st, x, addr, val):
        self.touch(eng, st, x, addr)
        if label(addr) in self.keep:
            # only the functions analysed here change the flags of what they construct
            known = [f[2] for f in st.ps if f[0] == "flag" and f[1] == addr]
            if not known and ("zeroed", root(addr)) in st.ps:
                known = [C0]
            if known:
                st.env[x.i] = st.mem[addr] = known[0]
        for f in st.ps:
            if f[0] == "in" and f[3] == addr and f[1] != val:
                # nobody else changes where it is kept
                st.env[x.i] = f[1]
                st.mem[addr] = f[1]

    def touch(self, eng, st, x, addr):
        t = self.get(st, root(addr))
        if t is not None and t[3] == "rel":
            self.report(eng, st, x, "use-after-release", "%s is used after it was released" % NAMES[t[2]])

    # giving back --------------------------------------------------------------------------------------------------
    def release(self, eng, st, x, o, kind):
        self.bump("release checked")
        o = strip(o)
        if o[0] == "c" or eng.iszero(st, o) is True:
            return
        t = self.get(st, o)
        if t is not None and t[3] == "rel":
            self.report(eng, st, x, "double-release", "%s is released twice" % NAMES[t[2]])
            return
        if t is not None and t[2] != kind and kind != "heap":
            pass
        if kind == "heap":
            self.before_free(eng, st, x, o)
        if t is not None:
            self.state(st, o, "rel")
        else:
            self.add(st, "res", o, kind, "rel")
        a = self.origin(eng, o)
        if a is not None:
            if ("owed", a) in st.ps:
                st.ps = st.ps - {("owed", a)}
            else:
                self.add(st, "done", a)

    def deep(self, eng, st, x, o):
        """the object is released together with everything it owns (which is checked where it is done)"""
        self.bump("release checked")
        t = self.get(st, o)
        if t is not None and t[3] == "rel":
            self.report(eng, st, x, "double-release", "%s is released twice" % NAMES[t[2]])
            return
        for f in list(st.ps):
            if f[0] == "in" and f[2] == o:
                g = GUARD.get(label(f[3]))
                c = self.get(st, f[1])
                if c is None or c[3] == "rel":
                    continue
                if g is not None:
                    v = eng.read(st, ("f", root(f[3]), label(f[3])[0], g[0]))
                    if v is None or eng.iszero(st, v) is not (not g[1]):
                        self.report(eng, st, x, "leak", "%s is lost because it is not marked as owned" % NAMES[c[2]])
                self.state(st, f[1], "rel")
        inside = {o}
        while True:
            more = {f[1] for f in st.ps if f[0] == "in" and f[2] in inside} - inside
            if not more:
                break
            inside |= more
        for f in list(st.ps):
            if f[0] == "res" and f[2] == "table" and root(f[1]) in inside:
                self.state(st, f[1], "rel")
        if t is not None:
            self.state(st, o, "rel")
        else:
            self.add(st, "res", o, "heap", "rel")
        a = self.origin(eng, o)
        if a is not None:
            self.add(st, "done", a)

    def before_free(self, eng, st, x, o):
        """what lies in the block has to be released before"""
        for t in st.ps:
            if t[0] != "res" or t[3] not in ("own", "kept"):
                continue
            inside = [f[2] for f in st.ps if f[0] == "in" and f[1] == t[1]]
            if t[2] == "table" and root(t[1]) == o or inside == [o] and t[3] == "own":
                self.report(eng, st, x, "leak", "%s is lost when what holds it is released" % NAMES[t[2]])

    def call(self, eng, st, x, name, args):
        if name in HEAP:
            if name == "realloc":
                old = strip(args[0])
                t = self.get(st, old)
                a = self.origin(eng, old)
                out = self.obtain(eng, st, x, name, args, "heap", "zero")
                g = out[0]
                if a is not None:
                    g.ps = g.ps | {("done", a)}
                if t is not None:
                    g.ps = frozenset(f for f in g.ps if f != t) | {("res", old, "heap", "rel")}
                else:
                    g.ps = g.ps | {("res", old, "heap", "rel")}
                return out
            return self.obtain(eng, st, x, name, args, "heap", "zero")
        if name in FD:
            return self.obtain(eng, st, x, name, args, "fd", ("c", -1))
        if name in OUT:
            i, _ = OUT[name]
            self.bump("resource obtained")
            s = ("v", x.i)
            a = args[i]
            out = eng.fork(st, x, name, args, [("zero", st.ps | {("res", s, KIND[name], "own")}), ("nonzero", st.ps)])
            g = out[0]
            g.mem[a] = s
            g.facts[("eq", s, C0)] = False
            self.store(eng, g, x, a, s)
            return out
        if name in MAKE:
            self.bump("resource obtained")
            r = root(args[0])
            l = label(args[0])
            if l is not None:
                self.fields.setdefault(l, "table")
            own = self.get(st, r) is not None
            return eng.fork(st, x, name, args, [("zero", st.ps | ({("res", args[0], "table", "own")} if own or r[0] != "al" else set())), ("nonzero", st.ps)])
        if name in MAKE.values():
            self.bump("release checked")
            t = self.get(st, args[0])
            if t is not None and t[3] == "rel":
                self.report(eng, st, x, "double-release", "a table is released twice")
            elif t is not None:
                self.state(st, args[0], "rel")
            self.add(st, "done", args[0])
            return None
        if name in DEEP:
            self.deep(eng, st, x, strip(args[0]))
            if name == "gracht_worker_pool_destroy":        # the threads release what they were given, and have ended
                gone = {f[1] for f in self.all(st, "thread")}
                st.ps = frozenset(f for f in st.ps if f[0] not in ("thread", "res") or f[1] not in gone)
            return None
        if name in RELEASE:
            self.release(eng, st, x, args[0], RELEASE[name])
            return None
        if name == "thrd_create":
            self.bump("resource handed to a thread")
            o = strip(args[2])
            t = self.get(st, o)
            if t is not None:
                good = (st.ps - {t}) | {("res", o, t[2], "kept"), ("thread", o)}
                return eng.fork(st, x, name, args, [("zero", good), ("nonzero", st.ps)])
        if name == "memset":
            if args[1] == C0 and self.get(st, args[0]) is not None:
                self.add(st, "zeroed", args[0])
            return None
        for a in args:
            t = self.get(st, strip(a))
            if t is not None and t[3] == "rel" and a[0] != "c" and name not in ("printf", "fprintf"):
                self.report(eng, st, x, "use-after-release", "%s is used after it was released" % NAMES[t[2]])
        if name == "stack_push":
            t = self.get(st, strip(args[1]))
            if t is not None and t[3] == "own":
                self.state(st, t[1], "kept")
        return None

    def edge(self, eng, st, x, succ):
        for (p, a, b), v in st.facts.items():
            if p == "eq" and v and b[0] == "c" and b[1] in (0, -1):
                o = self.origin(eng, a)
                if o is not None and label(o) is not None:
                    self.add(st, "null", o)
            elif p == "slt" and v and b == C0:
                o = self.origin(eng, a)
                if o is not None and label(o) is not None:
                    self.add(st, "null", o)

    def failed(self, eng, st, x, val):
        if x.op != "ret" or val is None:
            return False
        return val[0] == "c" and val[1] == -1

    def ret(self, eng, st, x, val):
        self.bump("end checked")
        fail = self.failed(eng, st, x, val)
        v = strip(val) if val is not None else None
        kept = set()
        if v is not None:
            kept = {v}
        for f in self.all(st, "owed"):
            self.report(eng, st, x, "leak", "what %s.%s held before is lost" % label(f[1]))
        if not fail:
            for f in self.all(st, "gval"):
                c = self.get(st, root(f[1]))
                if c is None or c[3] == "rel":
                    continue
                flag, want = GUARD[label(f[1])]
                a = f[1]
                while a[0] != "f" or (a[2], a[3]) != label(f[1]):
                    a = a[1]
                flags = [g[2] for g in st.ps if g[0] == "flag" and g[1] == ("f", a[1], a[2], flag)]
                v0 = flags[0] if flags else C0 if ("zeroed", root(f[1])) in st.ps else None
                if v0 is None:
                    v0 = eng.read(st, ("f", a[1], a[2], flag))
                z = eng.iszero(st, v0) if v0 is not None else None
                if z is not None and ((not z) == want) != f[2]:
                    self.report(eng, st, x, "owner", "%s.%s is marked as owned although it was provided, or the other way around" % label(f[1]))
        for f in self.all(st, "at"):
            o = self.get(st, f[1])
            c = self.get(st, root(f[2]))
            if o is not None and o[3] == "rel" and (c is None or c[3] != "rel"):
                self.report(eng, st, x, "dangling", "%s that was released is still referred to when the call returns" % NAMES[o[2]])
        for t in list(st.ps):
            if t[0] != "res" or t[3] == "rel":
                continue
            o = t[1]
            if t[2] == "table":
                c = self.get(st, root(o))
                if c is None:
                    if fail:
                        self.report(eng, st, x, "leak", "a %s is left behind by a call that fails" % NAMES[t[2]])
                    continue
                if c[3] == "rel" or fail:
                    self.report(eng, st, x, "leak", "a %s is lost" % NAMES[t[2]])
                continue
            if fail and t[3] == "kept":
                self.report(eng, st, x, "leak", "%s is left behind by a call that fails" % NAMES[t[2]])
            elif t[3] == "own":
                hold = self.held(st, o, set()) or o in kept or any(f[0] == "in" and f[1] == o and f[2] in kept for f in st.ps)
                if fail or not hold:
                    self.report(eng, st, x, "leak", "%s is lost" % NAMES[t[2]])
