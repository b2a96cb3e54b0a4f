"""C07: answers reach the caller they belong to."""
from gv import wire
from gv.engine import C0, contains, flat, label, root
from gv.facts import Facts, plus, strip

LEVEL = "other"
RULE = ("value-flow on every path: the id of a call is new, the same in the message, in the caller's context and in the record of the pending "
        "call; a response carries the id of its request and its own length and is sent exactly once, to the client record found under the client "
        "of the request, through the link of that record, or on the link the request came from; events carry their length and go to the client they "
        "are addressed to; the record of a client holds the handle, the link and the socket or address its messages come from, received messages name exactly "
        "that client, and connection-less answers go to the address stored in front of the request; a response is attached to the pending call "
        "with the id the response carries; the outcome that is returned is the outcome of sending")
MSG, BUF, CW = "gracht_message", "gracht_buffer", "client_wrapper"
DATA, LEN, SERVER, CLIENT, LINK, RIDX = [("k", n) for n in ("data", "len", "server", "client", "link", "ridx")]
MID = ("gracht_client", "current_message_id")


class Outgoing(Facts):
    """stamping and sending a message; m: index of the message argument"""

    def __init__(self, mod, counts, m):
        super().__init__(mod, counts)
        self.m = m
        self.cells = {("f", ("a", m), BUF, "data"): DATA, ("f", ("a", m), BUF, "index"): LEN}

    def seed(self, eng, st):
        st.mem.update(self.cells)

    # the first two words of the header
    def kind(self, eng, st, v):
        v = strip(v)
        if v == LEN:
            return ("len",)
        return ("value", v)

    def store(self, eng, st, x, addr, val):
        b, s, n = self.place(eng, addr)
        if b == DATA and s is None:
            if n in (0, 4):
                self.drop(st, "at%d" % n)
                self.add(st, "at%d" % n, self.kind(eng, st, val))
            elif 0 <= n < 8:
                self.drop(st, "at0" if n < 4 else "at4")
        if addr in self.cells and val != self.cells[addr]:
            self.report(eng, st, x, "replaced", "the buffer of the message is replaced before it is sent")

    def copied(self, eng, st, x, name, args):
        """header words that are written with memcpy"""
        b, s, n = self.place(eng, args[0])
        if name in ("memcpy", "memmove") and b == DATA and s is None and n in (0, 4) and args[2] == ("c", 4):
            self.drop(st, "at%d" % n)
            v = eng.read(st, args[1])
            self.add(st, "at%d" % n, self.kind(eng, st, v) if v is not None else self.source(eng, st, args[1]))

    def source(self, eng, st, addr):
        return ("?",)

    def after(self, eng, st, x, name, args):
        return self.persist(eng.default_call(st, x, name, args), self.cells)

    def stamped(self, eng, st, x, ident=None):
        self.bump("header checked")
        if self.one(st, "at4") != ("len",):
            self.report(eng, st, x, "length", "the length in the header is not the length of the message that is sent")
        if ident is not None and self.one(st, "at0") != ident:
            self.report(eng, st, x, "identity", "the message does not carry the id of the request it answers")

    def sent(self, eng, st, x, name, args):
        if self.all(st, "sent"):
            self.report(eng, st, x, "twice", "the message is sent twice")
        r = self.after(eng, st, x, name, args)
        for s in r:
            self.set(s, "sent", s.env.get(x.i))
        return r

    def outcome(self, eng, st, x, val, skip=()):
        self.bump("outcome checked")
        s = self.one(st, "sent")
        z = eng.iszero(st, val)
        if s is None:
            if any(eng.iszero(st, ("a", k)) is True for k in skip):
                pass
            if z is not False:
                self.report(eng, st, x, "outcome", "success is reported although nothing was sent")
            return
        if strip(val) != strip(s) and (z is None or eng.iszero(st, s) != z):
            self.report(eng, st, x, "outcome", "the outcome that is returned is not the outcome of sending")


class Lookup(Outgoing):
    """finding the receiver in the table of clients; who: the handle it has to have"""

    def __init__(self, mod, counts, m, server, who, link=None, ctx=None):
        super().__init__(mod, counts, m)
        self.server, self.who, self.link, self.ctx = server, who, link, ctx

    def matches(self, eng, st):
        """entries of the link table whose handle is the link of the request"""
        if self.link is None:
            return
        for (p, a, b), v in st.facts.items():
            if p == "eq" and v and self.link in (strip(a), strip(b)):
                o = self.origin(eng, b if strip(a) == self.link else a)
                if o is None and strip(a) != self.link and strip(a)[0] == "old":
                    continue
                if o is not None and label(o) == ("link_table", "handles"):
                    ix = plus(eng.offterm([(i, 1) for i, s in flat(o)[1]]))
                    self.add(st, "match", root(o), ix)
                    for c in self.all(st, "cand"):
                        if c[1] == root(o) and c[2] == ix:
                            self.set(st, "link", c[3])

    def edge(self, eng, st, x, succ):
        self.matches(eng, st)

    def load(self, eng, st, x, addr, val):
        if self.link is not None and label(addr) == ("link_table", "links"):
            self.matches(eng, st)
            ix = plus(eng.offterm([(i, 1) for i, s in flat(addr)[1]]))
            self.drop(st, "cand")
            self.add(st, "cand", root(addr), ix, val)
            if ("match", root(addr), ix) in st.ps:
                self.set(st, "link", val)

    def trim(self, eng, ps, live):
        return frozenset(t for t in ps if t[0] not in ("match", "cand") or t[-1] in live or t[0] == "match")

    def call(self, eng, st, x, name, args):
        self.matches(eng, st)
        if name in ("memcpy", "memmove"):
            self.copied(eng, st, x, name, args)
        elif name == "gr_hashtable_get" and args[0] == ("f", self.server, "gracht_server", "clients"):
            self.bump("receiver looked up")
            if strip(self.cell(eng, st, ("f", args[1], CW, "handle"))) != self.who:
                self.report(eng, st, x, "receiver", "the receiver is not looked up under the client the message is for")
            return self.persist(eng.fork(st, x, name, args, [
                ("nonzero", st.ps | {("entry", ("result",))}), ("zero", st.ps)]), self.cells)
        elif name == "slot:server_link_ops.send_client":
            self.bump("send checked")
            e = [t[1] for t in self.all(st, "entry")]
            if not any(self.field(eng, args[0], t, CW, "client") for t in e):
                self.report(eng, st, x, "receiver", "the message is sent to something else than the client record that was looked up")
            l = self.slot_object(eng, st, x)
            if l is None or not any(self.field(eng, l, t, CW, "link") for t in e):
                self.report(eng, st, x, "link", "the message is sent through another link than the one of the receiver")
            if args[1] != ("a", self.m):
                self.report(eng, st, x, "message", "another message is sent")
            self.header(eng, st, x)
            return self.sent(eng, st, x, name, args)
        elif name == "slot:server_link_ops.send":
            self.bump("send checked")
            l = self.one(st, "link")
            if self.link is None or l is None or args[0] != l or self.slot_object(eng, st, x) != l:
                self.report(eng, st, x, "link", "the message is not sent on the link the request came from")
            if len(args) > 2 and (args[1] != self.ctx or args[2] != ("a", self.m)):
                self.report(eng, st, x, "message", "the answer or its request are not the ones that were passed")
            self.header(eng, st, x)
            return self.sent(eng, st, x, name, args)
        return self.after(eng, st, x, name, args)

    def header(self, eng, st, x):
        self.stamped(eng, st, x)

    def ret(self, eng, st, x, val):
        self.outcome(eng, st, x, val)
        l = self.one(st, "link")
        if not self.all(st, "sent") and (self.all(st, "entry") or l is not None and eng.iszero(st, l) is False):
            self.report(eng, st, x, "not-sent", "the message is not sent although its receiver is known")


class Respond(Lookup):
    def __init__(self, mod, counts):
        super().__init__(mod, counts, 1, SERVER, CLIENT, LINK, ("a", 0))
        for n, v in (("server", SERVER), ("client", CLIENT), ("link", LINK), ("index", RIDX)):
            self.cells[("f", ("a", 0), MSG, n)] = v

    def isid(self, eng, addr):
        return addr is not None and self.place(eng, addr) == (("f", ("a", 0), MSG, "payload"), RIDX, 0)

    def kind(self, eng, st, v):
        v = strip(v)
        if v == ("k", "reqid") or (self.width(eng, v) == "i32" and self.isid(eng, self.origin(eng, v))):
            return ("request",)
        return super().kind(eng, st, v)

    def source(self, eng, st, addr):
        return ("request",) if self.isid(eng, addr) else ("?",)

    def copied(self, eng, st, x, name, args):
        super().copied(eng, st, x, name, args)

    def call(self, eng, st, x, name, args):
        if name in ("memcpy", "memmove") and args[0][0] == "al" and self.isid(eng, args[1]) and args[2] == ("c", 4):
            r = self.after(eng, st, x, name, args)
            for s in r:
                s.mem[args[0]] = ("k", "reqid")
            return r
        return super().call(eng, st, x, name, args)

    def header(self, eng, st, x):
        self.stamped(eng, st, x, ("request",))


class SendEvent(Lookup):
    def __init__(self, mod, counts):
        super().__init__(mod, counts, 2, ("a", 0), ("a", 1))

    def call(self, eng, st, x, name, args):
        if name == "slot:server_link_ops.send_client" and strip(args[2]) != ("a", 3):
            self.report(eng, st, x, "flags", "the flags of the event are not passed on")
        return super().call(eng, st, x, name, args)


class Broadcast(Outgoing):
    def __init__(self, mod, counts):
        super().__init__(mod, counts, 1)
        self.callbacks = set()

    def call(self, eng, st, x, name, args):
        if name in ("memcpy", "memmove"):
            self.copied(eng, st, x, name, args)
        if name == "gr_hashtable_enumerate":
            self.bump("send checked")
            if args[0] != ("f", ("a", 0), "gracht_server", "clients"):
                self.report(eng, st, x, "receiver", "the event is not sent to the clients of the server")
            if args[1][0] == "g":
                self.callbacks.add(args[1][1])
            else:
                self.report(eng, st, x, "receiver", "unknown operation on the clients")
            c = args[2]
            if c != ("a", 1):
                if self.cell(eng, st, ("f", c, "broadcast_context", "message")) != ("a", 1):
                    self.report(eng, st, x, "message", "another message is broadcast")
                if strip(self.cell(eng, st, ("f", c, "broadcast_context", "flags"))) != ("a", 2):
                    self.report(eng, st, x, "flags", "the flags of the event are not passed on")
            self.stamped(eng, st, x)
            if self.all(st, "sent"):
                self.report(eng, st, x, "twice", "the event is broadcast twice")
            self.set(st, "sent", C0)
        return self.after(eng, st, x, name, args)

    def ret(self, eng, st, x, val):
        if not self.all(st, "sent") and not any(eng.iszero(st, ("a", k)) is True for k in (0, 1)):
            self.report(eng, st, x, "outcome", "the event is not sent to anyone")


class Each(Facts):
    """the operation that a broadcast performs on each client"""

    def call(self, eng, st, x, name, args):
        if name.startswith("slot:server_link_ops."):
            self.bump("send checked")
            if name != "slot:server_link_ops.send_client" or not self.field(eng, args[0], ("a", 1), CW, "client"):
                self.report(eng, st, x, "receiver", "the event is not sent to the client at hand")
            l = self.slot_object(eng, st, x)
            if l is None or not self.field(eng, l, ("a", 1), CW, "link"):
                self.report(eng, st, x, "link", "the event is sent through another link than the one of the client")
            if not self.field(eng, args[1], ("a", 2), "broadcast_context", "message") and args[1] != ("a", 2):
                self.report(eng, st, x, "message", "another message is sent")
            if not self.field(eng, args[2], ("a", 2), "broadcast_context", "flags"):
                self.report(eng, st, x, "flags", "the flags of the event are not passed on")
            if self.all(st, "sent"):
                self.report(eng, st, x, "twice", "the event is sent twice")
            self.add(st, "sent")
        return None


class Invoke(Outgoing):
    """a call leaves the client"""
    keep = frozenset({("gracht_message_context", "message_id")})

    def __init__(self, mod, counts):
        super().__init__(mod, counts, 2)

    def store(self, eng, st, x, addr, val):
        super().store(eng, st, x, addr, val)
        if addr == ("f", ("a", 0)) + MID:
            s, n = plus(val)
            o = self.origin(eng, s) if s is not None else None
            if o != addr or n == 0:
                self.report(eng, st, x, "unique", "the counter of message ids does not advance")
            else:
                self.add(st, "counter", s)
        if addr == ("f", ("a", 1), "gracht_message_context", "message_id"):
            self.set(st, "ctx", strip(val))

    def edge(self, eng, st, x, succ):
        for (p, a, b), v in st.facts.items():
            if p == "eq" and b[0] == "c":
                t = strip(a)
                if t[0] == "op" and t[1] == "and" and t[3] == ("c", 3):
                    o = self.origin(eng, t[2])
                    if o is not None and self.place(eng, o) == (DATA, None, 10):
                        if b == C0:
                            self.set(st, "sync", v)
                        elif v:
                            self.set(st, "sync", False)

    def ident(self, st):
        k = self.one(st, "at0")
        return k[1] if k is not None and k[0] == "value" else None

    def call(self, eng, st, x, name, args):
        i = self.ident(st)
        if name in ("memcpy", "memmove"):
            self.copied(eng, st, x, name, args)
        elif name == "gr_hashtable_set" and args[0] == ("f", ("a", 0), "gracht_client", "messages"):
            self.bump("pending call recorded")
            self.add(st, "pending", strip(self.cell(eng, st, ("f", args[1], "gracht_message_descriptor", "id"))))
            d = "gracht_message_descriptor"
            if self.cell(eng, st, ("f", args[1], d, "status")) != C0:
                self.report(eng, st, x, "pending", "a new call is not recorded as being in progress")
        elif name == "slot:client_link_ops.send":
            self.bump("send checked")
            self.stamped(eng, st, x)
            if i is None:
                self.report(eng, st, x, "identity", "the message is sent without an id")
            else:
                s, n = plus(i)
                c = [t[1] for t in self.all(st, "counter")]
                if s not in c:
                    self.report(eng, st, x, "unique", "the id of the message is not a new one")
                ctx = self.one(st, "ctx")
                if eng.iszero(st, ("a", 1)) is not True:
                    if ctx is None and eng.iszero(st, ("a", 1)) is None and not self.all(st, "pending"):
                        self.report(eng, st, x, "identity", "the context of the caller is not told the id of its message")
                    elif ctx != i:
                        self.report(eng, st, x, "identity", "the context of the caller holds another id than the message")
                p = [t[1] for t in self.all(st, "pending")]
                sync = self.one(st, "sync")
                if sync is not False and not p and eng.iszero(st, ("a", 1)) is not True:
                    self.report(eng, st, x, "pending", "a call that expects an answer is sent without being recorded as pending")
                if sync is not True and p:
                    self.report(eng, st, x, "pending", "a message that is never answered is recorded as pending")
                for q in p:
                    if q != i:
                        self.report(eng, st, x, "identity", "the pending call is recorded under another id than the one that is sent")
            l = self.slot_object(eng, st, x)
            own = ("f", ("a", 0), "gracht_client", "link")
            if self.origin(eng, args[0]) != own or l is None or self.origin(eng, l) != own or args[1] != ("a", 2):
                self.report(eng, st, x, "link", "the message is not sent on the link of the client")
            return self.sent(eng, st, x, name, args)
        return self.after(eng, st, x, name, args)

    def ret(self, eng, st, x, val):
        self.outcome(eng, st, x, val)
        if not self.all(st, "sent") and not any(eng.iszero(st, ("a", k)) is True for k in (0, 1, 2)):
            self.report(eng, st, x, "not-sent", "the message is not sent although nothing is wrong with it")


class Incoming(Facts):
    """the buffers messages are received into"""
    keep = frozenset({(MSG, "server")})

    def ret(self, eng, st, x, val):
        if eng.iszero(st, val) is True:
            return
        self.bump("incoming buffer checked")
        if self.cell(eng, st, ("f", strip(val), MSG, "server")) != ("a", 0):
            self.report(eng, st, x, "sender", "a received message does not know the server that has to answer it")


class Receive(Facts):
    """a response arrives at the client"""
    RD, RI = ("k", "rdata"), ("k", "rindex")

    def received(self, eng, v):
        """v is the id of the received message"""
        o = self.origin(eng, v)
        return o is not None and self.place(eng, o) == (self.RD, self.RI, 0) and self.width(eng, v) == "i32"

    def call(self, eng, st, x, name, args):
        if name == "slot:client_link_ops.recv":
            self.bump("message received")
            r = eng.fork(st, x, name, args, [("zero", frozenset()), ("nonzero", frozenset())])
            self.persist(r, {("f", args[1], BUF, "data"): self.RD, ("f", args[1], BUF, "index"): self.RI})
            return r
        if name == "gr_hashtable_get" and label(args[0]) == ("gracht_client", "messages"):
            k = self.cell(eng, st, ("f", args[1], "gracht_message_descriptor", "id"))
            q = "response" if self.received(eng, k) else "other"
            return eng.fork(st, x, name, args, [("nonzero", st.ps | {("record", ("result",), q)}), ("zero", st.ps)])
        if name == "mtx_unlock":
            self.complete(eng, st, x)
        return None

    def complete(self, eng, st, x):
        if self.all(st, "where"):
            self.report(eng, st, x, "correlation", "the results are not read from behind the header of the response")
        self.drop(st, "where")
        self.drop(st, "behind")

    def ret(self, eng, st, x, val):
        self.complete(eng, st, x)

    def trim(self, eng, ps, live):
        return frozenset(t for t in ps if t[0] != "record" or t[1] in live)

    def store(self, eng, st, x, addr, val):
        for t in self.all(st, "record"):
            if root(addr) == t[1]:
                l = label(addr)
                if l == (BUF, "data"):
                    self.bump("response attached")
                    if t[2] != "response":
                        self.report(eng, st, x, "correlation", "a response is attached to a pending call with another id")
                    if not self.all(st, "behind"):
                        self.add(st, "where")
                    if strip(val) != self.RD:
                        self.report(eng, st, x, "correlation", "something else than the response is attached to the pending call")
                elif l == (BUF, "index"):
                    # it may take several steps to set it, which nobody sees before the lock is released
                    self.drop(st, "where")
                    self.drop(st, "behind")
                    self.add(st, "behind" if plus(val) == (self.RI, 11) else "where")
                elif l == ("gracht_message_descriptor", "status") and t[2] != "response":
                    self.report(eng, st, x, "correlation", "the status of a pending call with another id is changed")


class Link(Facts):
    """operations of the links: where messages come from and go to"""

    def __init__(self, mod, counts, role):
        super().__init__(mod, counts)
        self.role = role

    keep = frozenset({(MSG, "client"), (MSG, "link"), (MSG, "index"), ("gracht_server_client", "handle"), ("socket_link_client", "socket"),
                      ("socket_link_client", "streaming"), ("socket_link_client", "address_length"), ("socket_link_client", "link")})

    def conn(self, eng, v, obj):
        o = self.origin(eng, v)
        return o is not None and root(o) == obj and label(o) in (("gracht_link", "connection"), ("socket_link_client", "socket"),
                                                                 ("gracht_server_client", "handle"))

    def alen(self, eng, v, obj):
        o = self.origin(eng, v)
        return o is not None and root(o) == obj and label(o)[1] == "address_length"

    def call(self, eng, st, x, name, args):
        rep = lambda rule, msg: self.report(eng, st, x, rule, msg)
        if name in ("send", "sendto"):
            self.bump("send checked")
            if self.role == "client-send":
                if name == "sendto" and eng.iszero(st, args[4]) is not True or not self.conn(eng, args[0], ("a", 0)):
                    rep("receiver", "the message does not go to the server the client is connected to")
            elif self.role == "send":
                if name != "sendto" or not self.conn(eng, args[0], ("a", 0)) or \
                        self.place(eng, args[4]) != (("f", ("a", 1), MSG, "payload"), None, 0) or not self.alen(eng, args[5], ("a", 0)):
                    rep("receiver", "the answer does not go to the address stored in front of the request")
            elif name == "sendto" and eng.iszero(st, args[4]) is not True:
                if not self.field(eng, args[0], ("a", 0), "socket_link_client", "socket") or \
                        label(args[4]) != ("socket_link_client", "address") or root(args[4]) != ("a", 0) or not self.alen(eng, args[5], ("a", 0)):
                    rep("receiver", "the message does not go to the address of the client")
            elif not self.conn(eng, args[0], ("a", 0)):
                rep("receiver", "the message does not go to the socket of the client")
        elif name == "recv":
            self.bump("receive checked")
            if not self.conn(eng, args[0], ("a", 0)):
                rep("sender", "a message is received from another socket than the one of the client")
        elif name == "recvfrom" and self.role == "recv":
            self.bump("receive checked")
            if not self.conn(eng, args[0], ("a", 0)):
                rep("sender", "a message is received from another socket than the one of the link")
            p = ("f", ("a", 1), MSG, "payload")
            if self.place(eng, args[4]) != (p, None, 0):
                rep("sender", "the address of the sender is not stored in front of the message")
            b, s, n = self.place(eng, args[1])
            if b != p or s is None or n or not self.alen(eng, s, ("a", 0)):
                rep("sender", "the message is not stored behind the address of its sender")
            self.add(st, "received")
            self.add(st, "addrlen", args[5])
        elif name == "crc32_generate":
            ok = self.place(eng, args[0]) == (("f", ("a", 1), MSG, "payload"), None, 0) and self.all(st, "received")
            if ok:
                self.bump("identity checked")
                if not self.alen(eng, args[1], ("a", 0)) and self.origin(eng, args[1]) != self.one(st, "addrlen"):
                    rep("sender", "the client of a received packet is not derived from all of the address of its sender")
            r = eng.default_call(st, x, name, args)
            for s in r:
                if ok:
                    self.add(s, "crc", s.env[x.i])
            return r
        elif name in ("memcpy", "memmove") and label(args[0]) == ("socket_link_client", "address"):
            self.bump("address checked")
            if self.place(eng, args[1]) != (("f", ("a", 1), MSG, "payload"), None, 0) or not self.alen(eng, args[2], ("a", 0)):
                rep("sender", "the address of a client is not the one its message came from")
            self.add(st, "address", root(args[0]))
        elif name == "accept":
            r = eng.default_call(st, x, name, args)
            for s in r:
                self.set(s, "accepted", s.env[x.i])
            if not self.conn(eng, args[0], ("a", 0)):
                rep("sender", "a client is accepted on another socket than the one of the link")
            return r
        return None

    def store(self, eng, st, x, addr, val):
        if addr == ("a", 2) and self.role in ("accept", "create"):
            self.set(st, "out", root(val))

    def ret(self, eng, st, x, val):
        if val is None or eng.iszero(st, val) is False:
            return
        rep = lambda rule, msg: self.report(eng, st, x, rule, msg)
        cell = lambda o, s, n: self.cell(eng, st, ("f", o, s, n))
        if self.role == "recv":
            self.bump("origin recorded")
            if not any(strip(cell(("a", 1), MSG, "client")) == t[1] for t in self.all(st, "crc")):
                rep("sender", "the client of a received packet is not derived from the address of its sender")
            if not self.conn(eng, cell(("a", 1), MSG, "link"), ("a", 0)):
                rep("sender", "the link of a received packet is not the one it was received on")
            if not self.alen(eng, cell(("a", 1), MSG, "index"), ("a", 0)):
                rep("sender", "the message of a received packet does not start behind the address")
        elif self.role == "recv_client":
            self.bump("origin recorded")
            if not self.conn(eng, cell(("a", 1), MSG, "client"), ("a", 0)):
                rep("sender", "the client of a received message is not the one it was received from")
            if cell(("a", 1), MSG, "index") != C0:
                rep("sender", "a received message does not start at the beginning of its buffer")
        elif self.role in ("accept", "create"):
            self.bump("client record checked")
            o = self.one(st, "out")
            if o is None:
                rep("record", "success is reported without a client")
                return
            h, s, sm = cell(o, "gracht_server_client", "handle"), cell(o, "socket_link_client", "socket"), cell(o, "socket_link_client", "streaming")
            if self.role == "accept":
                a = self.one(st, "accepted")
                if strip(h) != a or strip(s) != a or eng.iszero(st, sm) is not False:
                    rep("record", "the record of an accepted client does not hold its socket")
            else:
                if not self.field(eng, h, ("a", 1), MSG, "client") or not self.conn(eng, s, ("a", 0)) or eng.iszero(st, sm) is not True:
                    rep("record", "the record of a connection-less client does not hold its identity and the socket of the link")
                if ("address", o) not in st.ps or not self.alen(eng, cell(o, "socket_link_client", "address_length"), ("a", 0)):
                    rep("record", "the record of a connection-less client does not hold its address")


class Register(Facts):
    """clients are entered under their own handle"""

    def call(self, eng, st, x, name, args):
        if name == "slot:server_link_ops.accept_client":
            self.set(st, "accepted", args[0], args[2])
            return None
        if name == "slot:server_link_ops.create_client":
            self.set(st, "created", args[0], args[1], args[2])
            return None
        if name == "gr_hashtable_set" and label(args[0]) == ("gracht_server", "clients"):
            self.bump("client entered")
            h, l, c = (self.cell(eng, st, ("f", args[1], CW, n)) for n in ("handle", "link", "client"))
            a, k = self.one(st, "accepted"), self.one(st, "created")
            ok = False
            if a is not None:
                ok = strip(l) == a[0] and self.origin(eng, c) == a[1] and self.field(eng, h, strip(c), "gracht_server_client", "handle")
            elif k is not None:
                own = k[2] if self.origin(eng, c) is None else self.origin(eng, c)
                ok = strip(l) == k[0] and own == k[2] and \
                    (self.field(eng, h, k[1], MSG, "client") or self.field(eng, h, strip(c), "gracht_server_client", "handle"))
            if not ok:
                self.report(eng, st, x, "record", "a client is entered under another handle or with another link than its own")
        return None


class Defer(Facts):
    """keeping what is needed to answer later"""
    NEED = ("server", "link", "client", "index", "size")

    def store(self, eng, st, x, addr, val):
        if root(addr) == ("a", 1) and label(addr) and label(addr)[0] == MSG:
            n = label(addr)[1]
            if self.field(eng, val, ("a", 0), MSG, n):
                self.add(st, "kept", n)
            else:
                st.ps = st.ps - {("kept", n)}
                self.add(st, "lost", n)

    def call(self, eng, st, x, name, args):
        if name in ("memcpy", "memmove") and root(args[0]) == ("a", 1):
            self.bump("copy checked")
            d, s = self.place(eng, args[0]), self.place(eng, args[1])
            sym, n = plus(args[2])
            if d == (("a", 1), None, 0) and s == (("a", 0), None, 0):
                head = True
                n -= 24
            elif d == (("f", ("a", 1), MSG, "payload"), None, 0) and s == (("f", ("a", 0), MSG, "payload"), None, 0):
                head = False
            else:
                self.report(eng, st, x, "copy", "a deferred message is not a copy of the original")
                return None
            if head:
                for k in self.NEED:
                    if n >= 0 or sym is not None:
                        self.add(st, "kept", k)
            if sym is not None and self.field(eng, sym, ("a", 0), MSG, "size") and n == 0:
                self.add(st, "kept", "payload")
            elif sym is not None and self.field(eng, sym, ("a", 0), MSG, "index") and 4 <= n <= 11:
                self.add(st, "kept", "payload")
            elif sym is not None:
                self.report(eng, st, x, "copy", "the copy of a message is longer than the message or does not hold what identifies the request")
        return None

    def ret(self, eng, st, x, val):
        if any(eng.iszero(st, ("a", k)) is True for k in (0, 1)):
            return
        self.bump("copy checked")
        for n in self.NEED + ("payload",):
            if ("kept", n) not in st.ps:
                self.report(eng, st, x, "copy", "the copy of a deferred message lacks its %s" % n)


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    for n, m in (("gracht_server_respond", Respond(mod, counts)), ("gracht_server_send_event", SendEvent(mod, counts)),
                 ("gracht_server_broadcast_event", Broadcast(mod, counts)), ("gracht_client_invoke", Invoke(mod, counts))):
        ctx.run(lambda f: m, [mod.get(n)], seed=m.seed)
        if isinstance(m, Broadcast):
            ctx.need(m.callbacks, "nothing is broadcast")
            ctx.run(lambda f: Each(mod, counts), [mod.fn[c] for c in sorted(m.callbacks)])
    ctx.run(lambda f: Defer(mod, counts), [mod.get("gracht_server_defer_message")])
    fs = wire.slots(mod, "server_operations", "get_incoming_buffer")
    ctx.need(fs, "no operation provides incoming buffers")
    ctx.run(lambda f: Incoming(mod, counts), fs)
    ctx.run(lambda f: Receive(mod, counts), [mod.get("gracht_client_wait_message")])
    for s, n, role in (("server_link_ops", "send", "send"), ("server_link_ops", "send_client", "send_client"), ("server_link_ops", "recv", "recv"),
                       ("server_link_ops", "recv_client", "recv_client"), ("server_link_ops", "create_client", "create"),
                       ("server_link_ops", "accept_client", "accept"), ("client_link_ops", "send", "client-send"),
                       ("client_link_ops", "recv", "client-recv")):
        fs = wire.slots(mod, s, n)
        ctx.need(fs, "no operation %s.%s" % (s, n))
        ctx.run(lambda f: Link(mod, counts, role), fs)
    ctx.run(lambda f: Register(mod, counts), [f for f in ctx.roots() if f.base.startswith("gracht_")])
    for k in ("header checked", "send checked", "receiver looked up", "outcome checked", "pending call recorded", "response attached",
              "origin recorded", "client record checked", "client entered", "address checked", "copy checked"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
