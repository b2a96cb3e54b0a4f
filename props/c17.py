"""C17: events reach exactly the clients that are subscribed."""
from gv import bits, wire
from gv.engine import C0, contains, flat, label, root, syms
from gv.facts import Facts, plus, strip

LEVEL = "other"
RULE = ("bit-exact effect analysis for all 256 service ids: subscribing sets the bit of that service in the record of the client the request came from and no other, "
        "255 sets all; unsubscribing clears exactly it, 255 clears all; a broadcast is sent to a client if and only if the bit of the service "
        "named in the message is set in its record; clients of stream links start with all services and the stream mark, connection-less ones with none and are recorded "
        "on their first subscription; the control protocol maps the actions and their argument to these operations")
SUBS = ("gracht_server_client", "subscriptions")
FLAGS = ("gracht_server_client", "flags")
MSG, CW = "gracht_message", "client_wrapper"
ID = ("a", 1)


def word(eng, addr):
    """the term of the index of a subscription word"""
    b, parts = flat(addr)
    return eng.offterm([(i, s) for i, s in parts])


def u32(n):
    return n & 0xffffffff


class Change(Facts):
    """subscribing (on) and unsubscribing"""

    def __init__(self, mod, counts, on):
        super().__init__(mod, counts)
        self.on = on

    def call(self, eng, st, x, name, args):
        if name == "gr_hashtable_get" and label(args[0]) == ("gracht_server", "clients"):
            if self.all(st, "changed"):
                return None
            self.bump("client looked up")
            if not self.field(eng, self.cell(eng, st, ("f", args[1], CW, "handle")), ("a", 0), MSG, "client"):
                self.report(eng, st, x, "client", "the subscriptions of another client are changed")
            return eng.fork(st, x, name, args, [("nonzero", st.ps | {("entry", ("result",))}), ("zero", st.ps | {("absent",)})])
        if name == "slot:server_link_ops.create_client":
            out = args[2]
            return eng.fork(st, x, name, args, [("zero", st.ps | {("created", out)}), ("nonzero", st.ps | {("failed",)})])
        if name == "gr_hashtable_set" and label(args[0]) == ("gracht_server", "clients"):
            self.add(st, "entered")
        if name == "memset" and label(args[0]) == SUBS:
            self.bump("operation on all services")
            self.mine(eng, st, x, args[0])
            n = args[1][1] & 0xff if args[1][0] == "c" else None
            if n != (0xff if self.on else 0) or args[2] != ("c", 32) or flat(args[0])[1]:
                self.report(eng, st, x, "all", "the subscriptions to all services are not %s" % ("set" if self.on else "cleared"))
            self.covers(eng, st, x, {i for i in range(256) if bits.allowed(st, ID, wrap8(i))} - {255}, True)
            self.add(st, "changed", frozenset({255}))
        return None

    def covers(self, eng, st, x, wrong, whole):
        if wrong:
            self.report(eng, st, x, "bit", "for service %d %s" % (min(wrong), "all subscriptions are changed" if whole else "another subscription is changed"))

    def mine(self, eng, st, x, addr):
        """the record belongs to the client of the request"""
        r = root(addr)
        o = self.origin(eng, r)
        if not any(self.field(eng, r, e[1], CW, "client") for e in self.all(st, "entry")) and not any(o == c[1] for c in self.all(st, "created")):
            self.report(eng, st, x, "client", "the subscriptions of another client are changed")

    def store(self, eng, st, x, addr, val):
        if label(addr) != SUBS:
            return
        self.bump("subscription changed")
        self.mine(eng, st, x, addr)
        ix = word(eng, addr)
        vs = set()
        syms(val, vs)
        old = [v for v in vs if self.origin(eng, v) == addr]
        if val[0] == "c" and not contains(ix, ID):
            # a loop over the words
            if u32(val[1]) != (0xffffffff if self.on else 0):
                self.report(eng, st, x, "all", "the subscriptions to all services are not %s" % ("set" if self.on else "cleared"))
            self.covers(eng, st, x, {i for i in range(256) if bits.allowed(st, ID, wrap8(i))} - {255}, True)
            self.add(st, "changed", frozenset({255}))
            return
        good = set()
        for i in range(256):
            if not bits.allowed(st, ID, wrap8(i)):
                continue
            env = {ID: wrap8(i)}
            try:
                w = bits.ev(ix, env) == 4 * (i // 32)
                r = []
                for n in (0, -1):
                    env.update({v: n for v in old})
                    r.append(u32(bits.ev(val, env)))
                b = 1 << (i % 32)
                if w and r == ([b, 0xffffffff] if self.on else [0, 0xffffffff & ~b]):
                    good.add(i)
                    continue
            except bits.Open:
                pass
            self.covers(eng, st, x, {i}, False)
            return
        if 255 in good:
            good.discard(255)
        self.add(st, "changed", frozenset(good))

    def ret(self, eng, st, x, val):
        self.bump("request checked")
        done = set()
        for t in self.all(st, "changed"):
            done |= t[1]
        reached = self.all(st, "entry") or self.all(st, "created")
        if not reached:
            return
        if self.all(st, "created") and not self.all(st, "entered"):
            self.report(eng, st, x, "client", "a client that subscribes is not recorded")
        miss = [i for i in range(256) if bits.allowed(st, ID, wrap8(i)) and i not in done]
        if miss and not self.all(st, "failed"):
            self.report(eng, st, x, "bit", "for service %d the subscription is not changed" % miss[0])


def wrap8(i):
    return i - 256 if i > 127 else i


class Test(Facts):
    """the operation a broadcast performs on each client"""

    def sid(self, eng, v):
        """v is the service id of the message"""
        o = self.origin(eng, v)
        if o is None:
            return False
        b, s, n = self.place(eng, o)
        ob = self.origin(eng, b)
        return s is None and n == 8 and ob is not None and label(ob) == ("gracht_buffer", "data") and self.width(eng, v) == "i8"

    def edge(self, eng, st, x, succ):
        for at, v in st.facts.items():
            ss = set()
            syms(at, ss)
            ws = [s for s in ss if self.origin(eng, s) is not None and label(self.origin(eng, s)) == SUBS]
            if len(ws) != 1:
                continue
            w = ws[0]
            a = self.origin(eng, w)
            syms(word(eng, a), ss)
            ids = [s for s in ss if self.sid(eng, s)]
            self.bump("test checked")
            if len(ids) != 1 or not self.field(eng, root(a), ("a", 1), CW, "client"):
                self.set(st, "test", "bad")
                continue
            kinds = set()
            for i in range(256):
                b = 1 << (i % 32)
                env = {ids[0]: wrap8(i)}
                try:
                    if bits.ev(word(eng, a), env) != 4 * (i // 32):
                        kinds.add("bad")
                        continue
                    for n in (b, 0, -1, -1 & ~b):
                        env[w] = n - (1 << 32) if n >= 1 << 31 else n
                        t = bits.truth(at, env) == v
                        kinds.add("yes" if t == bool(n & b) else "no")
                except bits.Open:
                    kinds.add("bad")
            self.set(st, "test", kinds.pop() if len(kinds) == 1 else "bad")

    def call(self, eng, st, x, name, args):
        if name.startswith("slot:server_link_ops.send"):
            self.bump("event checked")
            if self.one(st, "test") != "yes":
                self.report(eng, st, x, "not-subscribed", "an event is sent to a client that is not known to be subscribed to its service")
            self.add(st, "sent")
        return None

    def ret(self, eng, st, x, val):
        self.bump("event checked")
        if ("sent",) not in st.ps and self.one(st, "test") != "no":
            self.report(eng, st, x, "missed", "an event is not sent to a client that may be subscribed to its service")


class Broadcast(Facts):
    def __init__(self, mod, counts):
        super().__init__(mod, counts)
        self.callbacks = set()

    def call(self, eng, st, x, name, args):
        if name == "gr_hashtable_enumerate" and args[1][0] == "g":
            self.callbacks.add(args[1][1])
        return None


class Fresh(Facts):
    """clients that connect"""
    keep = frozenset({FLAGS})

    def call(self, eng, st, x, name, args):
        if name == "slot:server_link_ops.accept_client":
            self.set(st, "accepted", args[2])
            self.drop(st, "full")
            self.drop(st, "stream")
        elif name == "memset" and label(args[0]) == SUBS:
            if args[1][0] == "c" and args[1][1] & 0xff == 0xff and args[2] == ("c", 32):
                self.set(st, "full", root(args[0]))
        elif name == "gr_hashtable_set" and label(args[0]) == ("gracht_server", "clients") and self.all(st, "accepted"):
            self.bump("new client checked")
            c = self.cell(eng, st, ("f", args[1], CW, "client"))
            if self.one(st, "full") != c:
                self.report(eng, st, x, "initial", "a client of a stream link does not start with all subscriptions")
            if self.one(st, "stream") != c:
                self.report(eng, st, x, "initial", "a client of a stream link is not marked as such")
        return None

    def store(self, eng, st, x, addr, val):
        if label(addr) == FLAGS:
            t = strip(val)
            if (t[0] == "c" and t[1] & 1) or (t[0] == "op" and t[1] == "or" and t[3][0] == "c" and t[3][1] & 1):
                self.set(st, "stream", root(addr))
        elif label(addr) == SUBS and val == ("c", -1) and eng.inloop[x.blk]:
            self.set(st, "full", root(addr))


class Created(Facts):
    """the record of a connection-less client"""
    keep = frozenset({FLAGS, SUBS})

    def store(self, eng, st, x, addr, val):
        if addr == ("a", 2):
            self.set(st, "out", root(val))

    def ret(self, eng, st, x, val):
        if eng.iszero(st, val) is False:
            return
        self.bump("new client checked")
        o = self.one(st, "out")
        if o is None:
            return
        if eng.read(st, ("f", o) + SUBS) != C0:
            self.report(eng, st, x, "initial", "a connection-less client does not start without subscriptions")
        f = eng.read(st, ("f", o) + FLAGS)
        if f is None or f[0] != "c" or f[1] & 1:
            self.report(eng, st, x, "initial", "a connection-less client may be taken for the client of a stream link")


class Decode(Facts):
    """the actions of the control protocol"""

    def __init__(self, mod, counts):
        super().__init__(mod, counts)
        self.calls = set()

    def call(self, eng, st, x, name, args):
        if name in ("gracht_control_subscribe_invocation", "gracht_control_unsubscribe_invocation"):
            self.bump("action decoded")
            self.calls.add(name)
            o = self.origin(eng, args[1])
            b, s, n = self.place(eng, o) if o is not None else (None, None, None)
            ok = o is not None and self.width(eng, args[1]) == "i8" and n == 0 and s is not None and \
                self.origin(eng, b) == ("f", ("a", 1), "gracht_buffer", "data") and self.origin(eng, s) == ("f", ("a", 1), "gracht_buffer", "index")
            if not ok or args[0] != ("a", 0):
                self.report(eng, st, x, "decode", "the service that is named in the request is not the one that is changed")
        return None


def tables(mod):
    """protocol function tables of the runtime: {(function) : ids}"""
    out = {}
    for n, g in mod.globals.items():
        i = g.get("init")
        if not i or i[0] != "A":
            continue
        for e in i[-1]:
            if e[0] == "S" and mod.fieldname(e[1], 0)[0] == "gracht_protocol_function":
                c, f = e[2][0], e[2][1]
                if f[0] == "g":
                    out.setdefault(f[1], set()).add((n, c[1] if c[0] == "c" else 0))
    return out


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    ctx.run(lambda f: Change(mod, counts, True), [mod.get("gracht_control_subscribe_invocation")])
    ctx.run(lambda f: Change(mod, counts, False), [mod.get("gracht_control_unsubscribe_invocation")])
    b = Broadcast(mod, counts)
    ctx.run(lambda f: b, [mod.get("gracht_server_broadcast_event")])
    ctx.need(b.callbacks, "nothing is broadcast")
    ctx.run(lambda f: Test(mod, counts), [mod.fn[c] for c in sorted(b.callbacks)])
    ctx.run(lambda f: Fresh(mod, counts), [mod.get("gracht_server_handle_event")])
    ctx.run(lambda f: Created(mod, counts), wire.slots(mod, "server_link_ops", "create_client"))
    t = tables(mod)
    ctx.need(t, "the tables of the control protocol are not found")
    ctx.extra["control_actions"] = {mod.fn[f].base: sorted("%s:%s" % p for p in v) for f, v in t.items()}
    want = {"gracht_control_subscribe_invocation": 0, "gracht_control_unsubscribe_invocation": 1}
    seen = set()
    for f, ids in sorted(t.items()):
        m = Decode(mod, counts)
        ctx.run(lambda g: m, [mod.fn[f]])
        for c in m.calls:
            seen.add(c)
            ctx.oblige("action mapped")
            if {i for _, i in ids} != {want[c]}:
                fn = mod.fn[f]
                ctx.report(fn.base, fn.file, fn.file, "action", "%s is reached through another action than %d" % (c, want[c]))
    for c in want:
        if c not in seen:
            fn = mod.get(c)
            ctx.report(fn.base, fn.file, fn.file, "action", "%s is not reached through the control protocol" % c)
    for k in ("client looked up", "subscription changed", "request checked", "test checked", "event checked", "new client checked", "action decoded"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
