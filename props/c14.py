"""C14: clients come and go in an orderly way."""
from gv import wire
from gv.engine import C0, flat, label, root
from gv.facts import Facts, plus, strip

LEVEL = "other"
RULE = ("typestate of client records on every path of the event handling and of the control protocol: an accepted or newly created client is entered in the client table "
        "exactly once and then announced exactly once to the application; a client is removed if and only if the transport reports its end (or a connection-less client unsubscribes from everything), "
        "its end is announced exactly once and before the removal, and the removed record is destroyed exactly once through its own link; events of a link are handled by accepting or by "
        "receiving packets according to its type, all others as events of a client; requests that change clients are never handed to a worker")
CW, MSG, CL = "client_wrapper", "gracht_message", "gracht_server_client"
CLIENTS = ("gracht_server", "clients")
CB = "gracht_server_callbacks"
EFAULT, RDHUP = 14, 0x2000


class Life(Facts):
    def __init__(self, mod, counts, role):
        super().__init__(mod, counts)
        self.role = role            # event, subscribe, unsubscribe

    def key(self, eng, v):
        v = strip(v)
        o = self.origin(eng, v)
        return ("at", o) if o is not None else v

    def mine(self, eng, v):
        """the client the event or request is from"""
        v = strip(v)
        return v == ("a", 1) if self.role == "event" else self.field(eng, v, ("a", 0), MSG, "client")

    def fresh(self, eng, st, c):
        """c is the client that was just accepted or created"""
        o = self.origin(eng, c)
        return any(o is not None and o == t[1] for t in self.all(st, "new"))

    # ------------------------------------------------------------------------------------------------------------
    def facts(self, eng, st):
        for (p, a, b), v in list(st.facts.items()):
            if p != "eq":
                continue
            for l, r in ((a, b), (b, a)):
                t = strip(l)
                o = self.origin(eng, t)
                if r == C0 and o is not None and label(o) in ((CB, "clientConnected"), (CB, "clientDisconnected")) and v:
                    self.add(st, "no-callback", label(o)[1])
                if t[0] == "op" and t[1] == "and" and t[3][0] == "c" and strip(t[2]) == ("a", 2):
                    m = t[3][1]
                    if m == RDHUP and r == C0:
                        self.set(st, "hangup", not v)
                    elif m & RDHUP and r == C0 and v:
                        self.set(st, "hangup", False)
                if strip(l) == ("a", 2) and r[0] == "c" and v:
                    self.set(st, "hangup", bool(r[1] & RDHUP))
                if o == ("errno",) and r == ("c", EFAULT) and self.all(st, "failing"):
                    self.add(st, "fatal", v)
                if o == ("errno",) and r[0] == "c" and r[1] != EFAULT and v and self.all(st, "failing"):
                    self.add(st, "fatal", False)
                if o is not None and label(o) == ("link_table", "handles") and strip(r) == ("a", 1):
                    ix = plus(eng.offterm([(i, 1) for i, s in flat(o)[1]]))
                    if v:
                        self.add(st, "match", root(o), ix)
                        for c in self.all(st, "cand"):
                            if c[1] == root(o) and c[2] == ix:
                                self.set(st, "link", c[3])
                if o is not None and label(o) == ("gracht_link", "type") and r[0] == "c":
                    want = {0: "stream", 1: "packet"}.get(r[1])
                    if v and want:
                        self.set(st, "type", root(o), want)
                    elif want:
                        self.add(st, "type-not", root(o), want)

    def edge(self, eng, st, x, succ):
        self.facts(eng, st)

    def load(self, eng, st, x, addr, val):
        if label(addr) == ("link_table", "links"):
            self.facts(eng, st)
            ix = plus(eng.offterm([(i, 1) for i, s in flat(addr)[1]]))
            self.drop(st, "cand")
            self.add(st, "cand", root(addr), ix, val)
            if ("match", root(addr), ix) in st.ps:
                self.set(st, "link", val)

    def link(self, eng, st, x, what):
        o = self.slot_object(eng, st, x)
        if self.one(st, "link") != o:
            self.report(eng, st, x, "routing", "an event is handled by another link than the one it is for")
        t = self.all(st, "type")
        if not any(f[1] == o and f[2] == what for f in t):
            self.report(eng, st, x, "routing", "a link that is not a %s link is handled like one" % what)

    def call(self, eng, st, x, name, args):
        self.facts(eng, st)
        if name in ("slot:server_link_ops.accept_client", "slot:server_link_ops.create_client"):
            self.bump("client created")
            if name.endswith("accept_client"):
                self.link(eng, st, x, "stream")
            ps = frozenset(t for t in st.ps if t[0] not in ("new", "recorded", "told"))
            return eng.fork(st, x, name, args, [("zero", ps | {("new", args[2])}), ("nonzero", ps)])
        if name == "slot:server_link_ops.recv":
            self.link(eng, st, x, "packet")
            return None
        if name == "gr_hashtable_set" and label(args[0]) == CLIENTS:
            self.bump("client recorded")
            c = self.cell(eng, st, ("f", args[1], CW, "client"))
            if not self.fresh(eng, st, c) and ("new", ("f", args[1], CW, "client")) not in st.ps:
                self.report(eng, st, x, "record", "something else than a newly created client is recorded")
            if self.all(st, "recorded"):
                self.report(eng, st, x, "record", "a client is recorded twice")
            self.add(st, "recorded")
            return None
        if name == "slot:%s.clientConnected" % CB:
            self.bump("connection announced")
            h = strip(args[0])
            o = self.origin(eng, h)
            ok = o is not None and (label(o) == (CL, "handle") and self.fresh(eng, st, root(o)) or self.role != "event" and self.mine(eng, h))
            if not ok or not self.all(st, "new"):
                self.report(eng, st, x, "announce", "the connection of another client is announced")
            elif not self.all(st, "recorded"):
                self.report(eng, st, x, "announce", "a client is announced before it is recorded")
            if self.all(st, "told"):
                self.report(eng, st, x, "announce", "a client is announced twice")
            self.add(st, "told")
            return None
        if name == "gr_hashtable_get" and label(args[0]) == CLIENTS:
            h = self.cell(eng, st, ("f", args[1], CW, "handle"))
            if not self.mine(eng, h):
                self.report(eng, st, x, "record", "the record of another client is looked up")
            ps = frozenset(t for t in st.ps if t[0] not in ("entry", "absent", "present"))
            return eng.fork(st, x, name, args, [("nonzero", ps | {("entry", ("result",)), ("present",)}), ("zero", ps | {("absent",)})])
        if name == "slot:%s.clientDisconnected" % CB:
            self.bump("end announced")
            if not self.mine(eng, args[0]):
                self.report(eng, st, x, "announce", "the end of another client is announced")
            if not self.all(st, "present"):
                self.report(eng, st, x, "announce", "the end of a client is announced that may not exist")
            if self.all(st, "ended"):
                self.report(eng, st, x, "announce", "the end of a client is announced twice")
            if self.all(st, "removed"):
                self.report(eng, st, x, "announce", "the end of a client is announced after it was removed")
            self.add(st, "ended")
            return None
        if name == "gr_hashtable_remove" and label(args[0]) == CLIENTS:
            self.bump("client removed")
            h = self.cell(eng, st, ("f", args[1], CW, "handle"))
            if not self.mine(eng, h):
                self.report(eng, st, x, "record", "the record of another client is removed")
            if self.role == "event" and self.one(st, "hangup") is not True and ("fatal", True) not in st.ps:
                self.report(eng, st, x, "dropped", "a client is removed although its connection did not end")
            if self.role == "subscribe":
                self.report(eng, st, x, "dropped", "a client is removed although it only subscribed")
            if self.role == "unsubscribe" and not (self.one(st, "all") is True and self.one(st, "stream") is False):
                self.report(eng, st, x, "dropped", "a client is removed although it is connected or has subscriptions left")
            known = not self.all(st, "absent")
            if known and not self.all(st, "ended") and ("no-callback", "clientDisconnected") not in st.ps:
                self.report(eng, st, x, "announce", "a client is removed without its end being announced")
            ps = st.ps | {("removed",)}
            return eng.fork(st, x, name, args, [("nonzero", ps | {("gone", ("result",))}), ("zero", ps)])
        if name == "slot:server_link_ops.destroy_client":
            self.bump("client destroyed")
            g = [t[1] for t in self.all(st, "gone")]
            if not any(self.field(eng, args[0], e, CW, "client") for e in g):
                self.report(eng, st, x, "destroy", "something else than the removed client is destroyed")
            o = self.slot_object(eng, st, x)
            if not any(o is not None and self.field(eng, o, e, CW, "link") for e in g):
                self.report(eng, st, x, "destroy", "a client is destroyed by another link than its own")
            if label(self.origin(eng, args[1]) or C0) != ("gracht_server", "set_handle"):
                self.report(eng, st, x, "destroy", "a client is not taken out of the server's event set")
            if self.all(st, "destroyed"):
                self.report(eng, st, x, "destroy", "a client is destroyed twice")
            self.add(st, "destroyed")
            return None
        if name == "slot:server_link_ops.recv_client":
            self.bump("client received from")
            l = self.one(st, "link")
            if l is not None and eng.iszero(st, l) is not True:
                self.report(eng, st, x, "routing", "an event of a link is handled as the event of a client")
            e = [t[1] for t in self.all(st, "entry")]
            if not any(self.field(eng, args[0], t, CW, "client") for t in e):
                self.report(eng, st, x, "routing", "a message is received from another client than the one the event is for")
            o = self.slot_object(eng, st, x)
            if not any(o is not None and self.field(eng, o, t, CW, "link") for t in e):
                self.report(eng, st, x, "routing", "a message is received through another link than that of the client")
            ps = frozenset(t for t in st.ps if t[0] not in ("failing", "fatal"))
            return eng.fork(st, x, name, args, [("zero", ps | {("tried",)}), ("nonzero", ps | {("tried",), ("failing",)})])
        return None

    def bitfact(self, eng, st):
        """unsubscribing: all services, and the kind of the client"""
        for (p, a, b), v in st.facts.items():
            if p == "eq" and b[0] == "c":
                t = strip(a)
                if t == ("a", 1) and b[1] & 0xff == 0xff:
                    self.set(st, "all", v)
                if t[0] == "op" and t[1] == "and" and t[3] == ("c", 1) and b == C0:
                    o = self.origin(eng, t[2])
                    if o is not None and label(o) == (CL, "flags"):
                        self.set(st, "stream", not v)

    def ret(self, eng, st, x, val):
        self.facts(eng, st)
        self.bump("path checked")
        rep = lambda r, m: self.report(eng, st, x, r, m)
        if self.all(st, "new"):
            if not self.all(st, "recorded"):
                rep("record", "a new client is not recorded")
            if not self.all(st, "told") and ("no-callback", "clientConnected") not in st.ps:
                rep("announce", "a new client is not announced")
        if self.all(st, "gone") and not self.all(st, "destroyed"):
            rep("destroy", "a removed client is not destroyed")
        if self.all(st, "ended") and not self.all(st, "removed"):
            rep("announce", "the end of a client is announced that is kept")
        if self.role == "event" and not self.all(st, "removed") and not self.all(st, "absent"):
            if self.all(st, "failing") and ("fatal", False) not in st.ps:
                rep("kept", "a client is kept although its connection may have failed")
            if self.one(st, "hangup") is True:
                rep("kept", "a client is kept although its connection ended")
            elif eng.iszero(st, val) is not False and not self.all(st, "new") and not self.all(st, "tried") and self.one(st, "hangup") is not False:
                rep("kept", "the end of a connection may go unnoticed")
        if self.role == "unsubscribe" and self.all(st, "present") and not self.all(st, "removed") and self.one(st, "all") is True and self.one(st, "stream") is not True:
            rep("kept", "a connection-less client without subscriptions is kept")


class Unsubscribe(Life):
    def facts(self, eng, st):
        super().facts(eng, st)
        self.bitfact(eng, st)


class Orchestrate(Facts):
    """requests of the control protocol stay on the orchestrating thread"""

    def edge(self, eng, st, x, succ):
        for (p, a, b), v in st.facts.items():
            o = self.origin(eng, a)
            if p == "eq" and b == C0 and o is not None and self.width(eng, a) == "i8":
                base, s, n = self.place(eng, o)
                if base == ("f", ("a", 1), MSG, "payload") and n == 8 and s is not None and self.field(eng, s, ("a", 1), MSG, "index"):
                    self.set(st, "control", v)

    def call(self, eng, st, x, name, args):
        if name == "gracht_worker_pool_dispatch":
            self.bump("hand-over checked")
            if self.one(st, "control") is not False:
                self.report(eng, st, x, "worker", "a request that changes clients may be handed to a worker")
        return None


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    ctx.run(lambda f: Life(mod, counts, "event"), [mod.get("gracht_server_handle_event")])
    ctx.run(lambda f: Life(mod, counts, "subscribe"), [mod.get("gracht_control_subscribe_invocation")])
    ctx.run(lambda f: Unsubscribe(mod, counts, "unsubscribe"), [mod.get("gracht_control_unsubscribe_invocation")])
    ctx.run(lambda f: Orchestrate(mod, counts), wire.slots(mod, "server_operations", "dispatch"))
    for k in ("client created", "client recorded", "connection announced", "end announced", "client removed", "client destroyed", "client received from",
              "path checked", "hand-over checked"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
