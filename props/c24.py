"""C24: what is set up is listened to, and every event that is reported is handled."""
from gv import wire
from gv.engine import C0, flat, label, root, syms
from gv.facts import Facts, plus, strip

LEVEL = "other"
RULE = ("typestate and value-flow of sockets on every path: setting up a link succeeds only with a socket of the kind and domain of the link that was bound to its address (and listens, if it is a stream) "
        "and was added to the event descriptor for reading under its own handle; an accepted client is added likewise, hang-ups included; a client connects to exactly the address of its link; "
        "a link is entered with the handle it was set up with in a free place, or not at all; the main loop passes every event it is given, each with its own handle and flags, to the event handling, and "
        "ends only when the server was shut down or is no longer running")
LINK, SOCK = "gracht_link", "gracht_link_socket"
IN, RDHUP, ONESHOT, EDGE = 1, 0x2000, 1 << 30, 1 << 31
EPIPE, RUNNING = 32, 1


def negative(eng, st, v):
    """True: v is known to be negative, False: known not to be, None: unknown"""
    v = strip(v)
    if v[0] == "c":
        return v[1] < 0 or v[1] >= 1 << 31
    for (p, a, b), t in st.facts.items():
        if p == "eq" and strip(a) == v and b[0] == "c":
            if t:
                return negative(eng, st, b)
            if b[1] in (-1, 0xffffffff):
                return False        # these calls fail with -1 only
        if p == "slt" and strip(a) == v and b[0] == "c":
            if t and b[1] <= 0:
                return True
            if not t and b[1] >= 0:
                return False
        if p == "slt" and strip(b) == v and a[0] == "c" and t and a[1] >= -1:
            return False
        if p == "slt" and strip(b) == v and a[0] == "c" and not t and a[1] < 0:
            return True
    return None


def okay(eng, st, r):
    """the call that returned r succeeded (they return 0 or -1)"""
    return eng.iszero(st, r) is True or negative(eng, st, r) is False


class Sockets(Facts):
    """setting up links, accepting clients, connecting"""
    keep = frozenset({(LINK, "connection"), ("epoll_event", "events"), ("epoll_event", "data"), ("socket_link_client", "socket"), ("gracht_server_client", "handle")})

    def __init__(self, mod, counts, role):
        super().__init__(mod, counts)
        self.role = role            # setup, accept, connect

    def own(self, eng, addr, name):
        return addr is not None and label(addr) == (SOCK, name) and root(addr) == ("a", 0)

    def rep(self, eng, st, x, rule, msg):
        self.report(eng, st, x, rule, msg)

    def result(self, eng, st, x, name, args, *kind):
        r = eng.default_call(st, x, name, args)
        for s in r:
            self.add(s, *(kind + (s.env.get(x.i),)))
        return r

    def sock(self, st, v):
        return any(t[1] == strip(v) for t in self.all(st, "sock"))

    def edge(self, eng, st, x, succ):
        """1 packet based, 0 stream based"""
        for (p, a, b), v in list(st.facts.items()):
            if p == "eq":
                for l, r in ((a, b), (b, a)):
                    o = self.origin(eng, l)
                    if o is not None and label(o) == (LINK, "type") and root(o) == ("a", 0) and r[0] == "c" and (v or r[1] in (0, 1)):
                        self.set(st, "kind", r[1] if v else 1 - r[1])

    def call(self, eng, st, x, name, args):
        if name == "socket":
            self.bump("socket created")
            if not self.own(eng, self.origin(eng, args[0]), "domain"):
                self.rep(eng, st, x, "kind", "the socket is not of the domain of the link")
            r = eng.default_call(st, x, name, args)
            for s in r:
                self.add(s, "sock", s.env.get(x.i), strip(args[1]))
            return r
        if name in ("bind", "connect"):
            if self.role == ("setup" if name == "bind" else "connect"):
                self.bump("address used")
                if not self.sock(st, args[0]):
                    self.rep(eng, st, x, "address", "another socket than the new one is bound or connected")
                if not self.own(eng, strip(args[1]), "address") or not self.own(eng, self.origin(eng, args[2]), "address_length"):
                    self.rep(eng, st, x, "address", "the socket is not bound or connected to the address of the link")
                return self.result(eng, st, x, name, args, "addressed", strip(args[0]))
            return None
        if name == "listen":
            return self.result(eng, st, x, name, args, "listening", strip(args[0]))
        if name in ("accept", "accept4"):
            self.bump("client accepted")
            o = self.origin(eng, args[0])
            if o is None or label(o) != (LINK, "connection") or root(o) != ("a", 0):
                self.rep(eng, st, x, "address", "clients are accepted on another socket than the one of the link")
            r = eng.default_call(st, x, name, args)
            for s in r:
                self.add(s, "sock", s.env.get(x.i), ("c", 1))
            return r
        if name == "epoll_ctl" and args[1] == ("c", 1):
            self.bump("registration checked")
            e = args[3]
            ev = strip(self.cell(eng, st, ("f", e, "epoll_event", "events")))
            fd = strip(self.data(eng, st, e))
            if args[0] != ("a", 1):
                self.rep(eng, st, x, "events", "the socket is added to another event descriptor")
            if fd != strip(args[2]) or not self.sock(st, fd):
                self.rep(eng, st, x, "events", "the events of the socket are not reported under its own handle")
            if ev[0] != "c" or not ev[1] & IN or ev[1] & (ONESHOT | EDGE):
                self.rep(eng, st, x, "events", "the server is not told each time there is something to read")
            elif self.role == "accept" and not ev[1] & RDHUP:
                self.rep(eng, st, x, "events", "the server is not told when the client hangs up")
            return self.result(eng, st, x, name, args, "watched", strip(args[2]))
        return None

    def data(self, eng, st, e):
        for a, v in st.mem.items():
            if root(a) == root(e) and self.place(eng, a)[1:] == (None, 4) and self.place(eng, e)[0] == self.place(eng, a)[0]:
                return v
        d = ("f", e, "epoll_event", "data")
        for a, v in st.mem.items():
            if a == d or a[0] == "f" and a[1] == d:
                return v
        return ("u",)

    def done(self, eng, st, kind, fd):
        return any(t[1] == fd and okay(eng, st, t[2]) for t in self.all(st, kind))

    def ret(self, eng, st, x, val):
        rep = lambda rule, msg: self.rep(eng, st, x, rule, msg)
        if self.role == "accept":
            if eng.iszero(st, val) is False:
                return
            self.bump("accepting checked")
            if not any(self.done(eng, st, "watched", t[1]) for t in self.all(st, "sock")):
                rep("events", "a client is accepted whose socket was not added to the event descriptor")
            return
        if negative(eng, st, val) is True:
            return
        if self.role == "setup":
            # a socket that could not be created is reported as it is
            s = [t for t in self.all(st, "sock") if t[1] == strip(val)]
            if s and negative(eng, st, val) is None and len(self.all(st, "addressed")) == 0:
                rep("address", "the socket of a link is not bound to its address")
                return
        self.bump("set-up checked")
        s = [t for t in self.all(st, "sock") if t[1] == strip(val)]
        if not s:
            # the outcome of a call that failed
            if any(strip(val) == t[2] and eng.iszero(st, t[2]) is False for t in st.ps if t[0] in ("addressed", "listening", "watched")):
                return
            rep("handle", "success is reported with something else than the socket of the link")
            return
        fd, ty = s[0][1:]
        if strip(self.cell(eng, st, ("f", ("a", 0), LINK, "connection"))) != fd:
            rep("handle", "the link does not hold the socket that was set up")
        self.edge(eng, st, x, None)
        k = self.one(st, "kind")
        want = {0: 1, 1: 2}.get(k)
        if ty[0] != "c" or want is None or ty[1] & 15 != want:
            rep("kind", "the type of the socket is not the one of the link")
        if not self.done(eng, st, "addressed", fd):
            rep("address", "the socket of a link is not bound or connected to its address")
        if self.role == "setup":
            if k == 0 and not self.done(eng, st, "listening", fd):
                rep("address", "the socket of a stream link does not listen")
            if not self.done(eng, st, "watched", fd):
                rep("events", "the socket of a link was not added to the event descriptor")


class Connect(Facts):
    """gracht_client_connect"""
    keep = frozenset({("gracht_client", "iod")})

    def call(self, eng, st, x, name, args):
        if name == "slot:client_link_ops.connect":
            self.bump("connecting checked")
            own = self.slot_object(eng, st, x)
            if own is None or args[0] != own or not self.field(eng, own, ("a", 0), "gracht_client", "link"):
                self.report(eng, st, x, "connect", "another link than the one of the client is connected")
            ok = any(p == "eq" and self.field(eng, a, ("a", 0), "gracht_client", "iod") and b[0] == "c" and b[1] in (-1, 0xffffffff) and v
                     for (p, a, b), v in st.facts.items()) or \
                any(self.field(eng, t, ("a", 0), "gracht_client", "iod") and negative(eng, st, t) is True
                    for (p, a, b) in st.facts for t in (strip(a), strip(b)))
            if not ok:
                self.report(eng, st, x, "connect", "a client that is connected is connected again")
            r = eng.default_call(st, x, name, args)
            for s in r:
                self.set(s, "connected", s.env.get(x.i))
            return r
        return None

    def ret(self, eng, st, x, val):
        c = self.one(st, "connected")
        if eng.iszero(st, val) is False or negative(eng, st, val) is True:
            if c is not None and negative(eng, st, c) is False:
                self.report(eng, st, x, "connect", "a client that was connected is reported as failed")
            return
        if c is None or negative(eng, st, c) is not False:
            self.report(eng, st, x, "connect", "success is reported although the client is not known to be connected")
        elif strip(self.cell(eng, st, ("f", ("a", 0), "gracht_client", "iod"))) != c:
            self.report(eng, st, x, "connect", "the client does not hold the handle it was connected with")


class AddLink(Facts):
    keep = frozenset({("link_table", "handles"), ("link_table", "links")})

    def index(self, eng, addr):
        return plus(eng.offterm([(i, 1) for i, s in flat(addr)[1]]))

    def edge(self, eng, st, x, succ):
        for (p, a, b), v in list(st.facts.items()):
            if p == "eq" and b == C0 and v:
                o = self.origin(eng, a)
                if o is not None and label(o) == ("link_table", "links"):
                    self.add(st, "free", self.index(eng, o))

    def rename(self, eng, st, v, s):
        for t in list(st.ps):
            if t[0] == "free" and t[1] == plus(v):
                st.ps = st.ps - {t} | {("free", (s, 0))}

    def call(self, eng, st, x, name, args):
        if name == "slot:server_link_ops.setup":
            self.bump("link set up")
            if args[0] != ("a", 1) or self.slot_object(eng, st, x) != ("a", 1) or not self.field(eng, args[1], ("a", 0), "gracht_server", "set_handle"):
                self.report(eng, st, x, "link", "another link is set up, or for another event descriptor")
            if self.all(st, "handle"):
                self.report(eng, st, x, "link", "a link is set up twice")
            r = eng.default_call(st, x, name, args)
            for s in r:
                self.set(s, "handle", s.env.get(x.i))
            return r
        return None

    def store(self, eng, st, x, addr, val):
        l = label(addr)
        if l in (("link_table", "handles"), ("link_table", "links")) and root(addr) == ("a", 0):
            self.bump("link entered")
            ix = self.index(eng, addr)
            h = self.one(st, "handle")
            if ("free", ix) not in st.ps:
                self.report(eng, st, x, "link", "a link is entered in a place that is not known to be free")
            if l[1] == "links" and h is None:
                return self.add(st, "entered", l[1], ix, strip(val))
            if h is None or negative(eng, st, h) is not False:
                self.report(eng, st, x, "link", "a link is entered that is not known to have been set up")
            elif strip(val) != (h if l[1] == "handles" else ("a", 1)):
                self.report(eng, st, x, "link", "a link is entered under another handle than its own")
            self.add(st, "entered", l[1], ix, strip(val))

    def ret(self, eng, st, x, val):
        e = {}
        for t in self.all(st, "entered"):
            e.setdefault(t[1], []).append(t[2:])
        if eng.iszero(st, val) is False:
            if any(v[1] != C0 for v in e.get("links", [])) and negative(eng, st, self.one(st, "handle") or C0) is not False:
                self.report(eng, st, x, "link", "a link that could not be set up is entered")
            h = self.one(st, "handle")
            if h is not None and negative(eng, st, h) is False and not e:
                self.report(eng, st, x, "link", "a link that was set up is not entered")
            return
        self.bump("adding checked")
        if len(e.get("links", [])) != 1 or len(e.get("handles", [])) != 1 or e["links"][0][0] != e["handles"][0][0]:
            self.report(eng, st, x, "link", "success is reported although the link and its handle were not entered together")


class Events(Facts):
    """the main loop"""

    def base(self, eng, st, addr):
        w = self.one(st, "events")
        b, parts = flat(addr)
        if w is None:
            return None
        if b == w:
            s = [(i, n) for i, n in parts if plus(i) != (None, 0)]
            if len(s) > 1:
                return None
            return plus(s[0][0]) if s else (None, 0)
        if ("pointer", b) in st.ps:
            n = [plus(i) for i, k in parts]
            if any(a is not None for a, k in n):
                return None
            return (b, sum(k for a, k in n))
        return None

    def position(self, eng, st, t):
        t = strip(t)
        if t[0] in ("x", "f", "al") or ("pointer", t) in st.ps:
            p = self.base(eng, st, t[1] if t[0] == "f" and t[2] == "epoll_event" else t)
            if p is not None:
                return p
        return plus(t)

    def rename(self, eng, st, v, s):
        q = self.position(eng, st, v)
        for t in list(st.ps):
            if t[0] == "seen" and t[1] == q:
                if q[0] is not None:
                    st.ps = st.ps - {t}
                self.add(st, "seen", (s, 0))
                if v[0] in ("x", "al") or ("pointer", strip(v)) in st.ps:
                    st.ps = st.ps | {("pointer", s)}
        n = self.one(st, "count")
        if n is not None:
            out = set()
            syms(v, out)
            if strip(n) in out or any(("derived", y) in st.ps for y in out):
                self.add(st, "derived", s)

    def counted(self, eng, st, t):
        """t is the number of events, or the end of the array, plus the constant that is returned"""
        n = self.one(st, "count")
        if n is None:
            return None
        t = strip(t)
        if t[0] == "x":
            b, parts = flat(t)
            if b != self.one(st, "events"):
                return None
            s = [(i, k) for i, k in parts if plus(i) != (None, 0)]
            if len(s) != 1:
                return None
            t = s[0][0]
        s, k = plus(t)
        return k if s == strip(n) else None

    def edge(self, eng, st, x, succ):
        seens = [t[1] for t in self.all(st, "seen")]
        for (p, a, b), v in list(st.facts.items()):
            for l, r, left in ((a, b, True), (b, a, False)):
                k = self.counted(eng, st, l)
                if k is not None:
                    s, m = self.position(eng, st, r)
                    for seen in seens:
                        if p == "eq" and v and k == 0 and (s, m) == seen:
                            self.add(st, "end")
                        elif p in ("slt", "ult") and s == seen[0]:
                            # left: n + k < r, else r < n + k
                            if left and v and seen[1] >= m - k - 1 or not left and not v and seen[1] >= m - k:
                                self.add(st, "end")
                    if p in ("slt", "ult") and strip(r) == r and r[0] == "c":
                        # no events at all
                        if left and v and r[1] - k <= 1 or not left and not v and r[1] - k <= 0:
                            self.add(st, "end")
                    if p == "eq" and r[0] == "c" and r[1] - k in (0, -1, 0xffffffff) and v:
                        self.add(st, "end")
                elif any(("derived", y) in st.ps for y in self.symbols(l)) and r[0] == "c" and v is (p == "eq"):
                    self.add(st, "end")
            if p == "eq":
                for l, r in ((a, b), (b, a)):
                    o = self.origin(eng, l)
                    if o is not None and label(o) == ("gracht_server", "state") and r[0] == "c" and v is (r[1] != RUNNING):
                        self.add(st, "stopped")
                    if o == ("errno",) and r == ("c", EPIPE) and v:
                        self.add(st, "pipe")
                    if l == self.one(st, "last") and r[0] == "c" and (r[1] in (-1, 0xffffffff)) and v:
                        self.add(st, "failed")

    def symbols(self, t):
        out = set()
        syms(t, out)
        return out

    def finished(self, eng, st, x):
        if self.one(st, "count") is None or not self.all(st, "events"):
            return
        if not self.all(st, "end") and not self.all(st, "stopped") and not self.all(st, "odd") and \
                not (self.all(st, "failed") and self.all(st, "pipe")):
            self.report(eng, st, x, "missed", "events are not handled although the server is running")

    def call(self, eng, st, x, name, args):
        if name in ("epoll_wait", "epoll_pwait"):
            self.bump("waiting checked")
            if not self.field(eng, args[0], ("a", 0), "gracht_server", "set_handle"):
                self.report(eng, st, x, "wait", "the server does not wait on its own event descriptor")
            if strip(args[3])[0] == "c" and strip(args[3])[1] == 0:
                self.report(eng, st, x, "wait", "the server does not wait for events")
            self.finished(eng, st, x)
            st.ps = frozenset(t for t in st.ps if t[0] == "never")
            r = eng.default_call(st, x, name, args)
            for s in r:
                self.set(s, "count", s.env.get(x.i))
                b = flat(args[1])[0]
                self.set(s, "events", b)
                self.set(s, "seen", (None, 0))
            return r
        if name in ("memcpy", "memmove") and args[2] == ("c", 12) and args[0][0] == "al":
            st.ps = frozenset(t for t in st.ps if t[:2] != ("copy", args[0])) | {("copy", args[0], args[1])}
        if name == "gracht_server_handle_event":
            self.bump("event handled")
            st.ps = frozenset(t for t in st.ps if t[0] not in ("failed", "pipe", "stopped"))
            if self.one(st, "count") is None:
                return None
            o, f = self.origin(eng, args[1]), self.origin(eng, args[2])
            p = q = None
            if o is not None and f is not None:
                p, q = self.at(eng, st, o, 4), self.at(eng, st, f, 0)
            if args[0] != ("a", 0) or p is None or p != q:
                self.report(eng, st, x, "event", "what is handled is not an event that was reported, with its own handle and flags")
            elif ("seen", p) in st.ps:
                s = [t[1] for t in self.all(st, "seen")]
                if p[0] is not None:
                    s = [t for t in s if t[0] is not None]
                self.drop(st, "seen")
                for t in s:
                    self.add(st, "seen", (t[0], t[1] + 1))
            elif p[0] is None or ("derived", p[0]) not in st.ps and p != (strip(self.one(st, "count")), -1):
                self.report(eng, st, x, "missed", "an event is left out, or one is handled that was not reported")
            else:
                self.add(st, "odd")
            st.ps = frozenset(t for t in st.ps if t[0] != "end")
            r = eng.default_call(st, x, name, args)
            for s in r:
                self.set(s, "last", s.env.get(x.i))
            return r
        return None

    def at(self, eng, st, o, off):
        """position of the event whose member at offset off is read from o"""
        if off and (o[0] != "f" or label(o) != ("epoll_event", "data") and not (o[1][0] == "f" and label(o[1]) == ("epoll_event", "data"))):
            return None
        if not off and (o[0] != "f" or label(o) != ("epoll_event", "events")):
            return None
        while o[0] == "f":
            e = o[2:4]
            o = o[1]
            if e[0] == "epoll_event":
                for t in self.all(st, "copy"):
                    if t[1] == o:
                        o = t[2]
                return self.base(eng, st, o)
        return None

    def ret(self, eng, st, x, val):
        self.bump("end checked")
        if self.all(st, "stopped") or self.all(st, "failed") and self.all(st, "pipe") or eng.iszero(st, ("a", 0)) is True:
            return
        self.report(eng, st, x, "ended", "the main loop ends although the server is running")


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    for s, n, role in (("server_link_ops", "setup", "setup"), ("server_link_ops", "accept_client", "accept"), ("client_link_ops", "connect", "connect")):
        fs = wire.slots(mod, s, n)
        ctx.need(fs, "no operation %s.%s" % (s, n))
        ctx.run(lambda f: Sockets(mod, counts, role), fs)
    ctx.run(lambda f: Connect(mod, counts), [mod.get("gracht_client_connect")])
    ctx.run(lambda f: AddLink(mod, counts), [mod.get("gracht_server_add_link")])
    ctx.run(lambda f: Events(mod, counts), [mod.get("gracht_server_main_loop")])
    for k in ("socket created", "address used", "client accepted", "registration checked", "accepting checked", "set-up checked", "connecting checked",
              "link set up", "link entered", "adding checked", "waiting checked", "event handled", "end checked"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
