"""C26: nobody waits unless told to, or gives up when told to wait."""
from gv import bits
from gv.engine import C0, label, root
from gv.facts import Facts, strip
from props.c24 import negative

LEVEL = "other"
RULE = ("for all values of the flags a path admits: the first reception or transmission on a socket is non-blocking exactly when the caller did not ask to block, and what completes a message that was begun always blocks; "
        "the flags of public calls arrive unchanged at the transport; waiting for a message takes the receiving turn of another thread only when told to block, gives up only otherwise, and holds no other lock while it "
        "receives; the server polls when it handles an event; synchronous waiting receives messages, asynchronous waiting does not")
BLOCK, ASYNC, DONTWAIT = 1, 2, 0x40
ANY = tuple(range(16)) + (0x10000, 0x10001, 0x7ffffff0, 0x7fffffff)
CL = "gracht_client"


class Flags(Facts):
    def __init__(self, mod, counts, arg):
        super().__init__(mod, counts)
        self.arg = ("a", arg)

    def values(self, st):
        """samples of every combination of the defined flags, with and without other ones, that the path admits"""
        return [n for n in ANY if bits.allowed(st, self.arg, n)]

    def bit(self, st, v, test, bad):
        """whether a condition holds for the given value, for all flags"""
        v = strip(v)
        for n in self.values(st):
            try:
                if not test(n, bits.ev(v, {self.arg: n})):
                    return False
            except bits.Open:
                return False
        return True

    def told(self, st, bit):
        """True: the flag is given on this path, False: it is not, None: either"""
        s = {bool(n & bit) for n in self.values(st)}
        return s.pop() if len(s) == 1 else None


class Socket(Flags):
    """a link operation: what it does to the socket"""
    RECV = {"recv": 3, "recvfrom": 3}
    SEND = {"send": 3, "sendto": 3}

    def __init__(self, mod, counts, arg, what):
        super().__init__(mod, counts, arg if arg is not None else 99)
        self.flags, self.what = arg is not None, what

    def call(self, eng, st, x, name, args):
        k = self.what.get(name)
        if k is None:
            return None
        self.bump("transfer checked")
        self.edge(eng, st, x, None)
        if self.all(st, "last"):
            self.add(st, "begun")
        if self.flags and not self.all(st, "begun"):
            if not self.bit(st, args[k], lambda n, v: bool(v & DONTWAIT) is not bool(n & BLOCK), "first"):
                self.report(eng, st, x, "transfer", "whether a message is waited for does not depend on the flag for blocking alone")
        elif not self.bit(st, args[k], lambda n, v: not v & DONTWAIT, "rest"):
            self.report(eng, st, x, "transfer", "a message that has begun may be given up, or one be sent only if that does not take time")
        r = eng.default_call(st, x, name, args)
        for s in r:
            self.set(s, "last", s.env.get(x.i))
        return r

    def edge(self, eng, st, x, succ):
        last = self.one(st, "last")
        if last is not None and negative(eng, st, last) is True:
            self.drop(st, "last")       # nothing was transferred
        elif last is not None and negative(eng, st, last) is False and eng.iszero(st, last) is False:
            self.add(st, "some", strip(last))

    def some(self, eng, st, v):
        """more than nothing"""
        v = strip(v)
        if ("some", v) in st.ps or v[0] == "c" and v[1] > 0:
            return True
        return v[0] == "op" and v[1] == "add" and self.some(eng, st, v[2]) and self.some(eng, st, v[3])

    def rename(self, eng, st, v, s):
        if self.some(eng, st, v):
            self.add(st, "some", s)
            st.facts[("eq", s, C0)] = False


class Pass(Flags):
    """flags are passed on: operation -> (argument, test, message)"""

    def __init__(self, mod, counts, arg, ops):
        super().__init__(mod, counts, arg if arg is not None else 99)
        self.ops = ops

    def call(self, eng, st, x, name, args):
        r = self.ops.get(name)
        if r is not None:
            self.bump("flags checked")
            if not self.good(eng, st, args[r[0]], r[1]):
                self.report(eng, st, x, "flags", r[2])
        return None

    def good(self, eng, st, v, test):
        return self.bit(st, v, test, "")


class Broadcast(Flags):
    """the flags of a broadcast arrive by way of its context: the fields that have them"""

    def __init__(self, mod, counts, good):
        super().__init__(mod, counts, 2)
        self.good = good

    def call(self, eng, st, x, name, args):
        if name == "gr_hashtable_enumerate":
            self.bump("flags checked")
            self.edge(eng, st, x, None)
            fs = set()
            for a, v in st.mem.items():
                if a[0] == "f" and a[1] == args[2] and self.bit(st, v, SAME, ""):
                    fs.add(label(a))
            self.good.append(fs)
            if not fs:
                self.report(eng, st, x, "flags", "an event is not sent with the flags it was to be sent with")
        return None


class Field(Pass):
    def __init__(self, mod, counts, keys, ops):
        super().__init__(mod, counts, None, ops)
        self.keys = keys

    def good(self, eng, st, v, test):
        o = self.origin(eng, v)
        return o is not None and root(o) == ("a", 2) and label(o) in self.keys


SAME = lambda n, v: not (n ^ v) & BLOCK
POLL = lambda n, v: not v & BLOCK
WAIT = lambda n, v: bool(v & BLOCK)


class Wait(Flags):
    """gracht_client_wait_message"""

    def held(self, st):
        return {t[1] for t in self.all(st, "held")}

    def call(self, eng, st, x, name, args):
        turn = ("f", ("a", 0), CL, "wait_lock")
        if name == "mtx_trylock":
            t = ("held", args[0])
            out = [("zero", st.ps | {t}), ("nonzero", (st.ps | {("busy",)}) if args[0] == turn else st.ps)]
            return eng.fork(st, x, name, args, out)
        if name == "mtx_lock":
            if args[0] == turn:
                self.bump("turn checked")
                if self.told(st, BLOCK) is not True:
                    self.report(eng, st, x, "wait", "the turn of another thread is waited for without being told to block")
                if self.held(st):
                    self.report(eng, st, x, "stall", "other threads are kept from working while the turn to receive is waited for")
            ps = frozenset(t for t in st.ps if t != ("busy",)) if args[0] == turn else st.ps
            return eng.fork(st, x, name, args, [("zero", ps | {("held", args[0])}), ("nonzero", ps)])
        if name == "mtx_unlock":
            st.ps = st.ps - {("held", args[0])}
        if name in ("cnd_wait", "cnd_timedwait") and self.told(st, BLOCK) is not True:
            self.report(eng, st, x, "wait", "something is waited for without being told to block")
        if name == "slot:client_link_ops.recv":
            self.bump("flags checked")
            if not self.bit(st, args[2], SAME, ""):
                self.report(eng, st, x, "flags", "a message is not received with the flags of the call")
            if self.held(st) - {turn}:
                self.report(eng, st, x, "stall", "other threads are kept from sending or from picking up replies while a message is waited for")
            if turn not in self.held(st):
                self.report(eng, st, x, "stall", "a message is received without having the turn to receive")
        return None

    def ret(self, eng, st, x, val):
        self.bump("end of waiting checked")
        if self.all(st, "busy") and self.told(st, BLOCK) is not False:
            self.report(eng, st, x, "wait", "a call that is to block gives up because another thread receives")


class Await(Flags):
    """gracht_client_await_multiple"""

    def call(self, eng, st, x, name, args):
        if name == "gracht_client_wait_message":
            self.bump("waiting checked")
            if self.told(st, ASYNC) is not False:
                self.report(eng, st, x, "wait", "messages are received by a caller that left it to another thread")
            if not self.bit(st, args[2], WAIT, "") or strip(args[1]) != C0:
                self.report(eng, st, x, "wait", "the reply is polled for, or only the one of another call is waited for")
            if strip(args[0]) != ("a", 0):
                self.report(eng, st, x, "wait", "another client is waited for")
        if name == "cnd_wait":
            self.bump("waiting checked")
            if self.told(st, ASYNC) is not True:
                self.report(eng, st, x, "wait", "the reply is left to another thread although the caller was to receive it")
        return None


def slots(mod, base):
    from gv import wire
    return wire.slots(mod, *base)


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    sock = lambda a, w: (lambda f: Socket(mod, counts, a, w))
    for op, arg, what in ((("client_link_ops", "recv"), 2, Socket.RECV), (("client_link_ops", "send"), None, Socket.SEND), (("server_link_ops", "recv"), 2, Socket.RECV),
                          (("server_link_ops", "recv_client"), 2, Socket.RECV), (("server_link_ops", "send_client"), 2, Socket.SEND), (("server_link_ops", "send"), None, Socket.SEND)):
        fs = slots(mod, op)
        ctx.need(fs, "no function for %s.%s" % op)
        ctx.run(sock(arg, what), fs)
    ctx.run(lambda f: Wait(mod, counts, 2), [mod.get("gracht_client_wait_message")])
    ctx.run(lambda f: Await(mod, counts, 3), [mod.get("gracht_client_await_multiple")])
    one = "slot:server_link_ops."
    poll = (2, POLL, "the server waits for a message when it handles an event, and serves nobody until one arrives")
    ctx.run(lambda f: Pass(mod, counts, None, {one + "recv": poll, one + "recv_client": poll}), [mod.get("gracht_server_handle_event")])
    ctx.run(lambda f: Pass(mod, counts, None, {one + "send_client": (2, WAIT, "a response is dropped when it cannot be sent at once")}), [mod.get("gracht_server_respond")])
    same = (2, SAME, "an event is not sent with the flags it was to be sent with")
    ctx.run(lambda f: Pass(mod, counts, 3, {one + "send_client": same}), [mod.get("gracht_server_send_event")])
    ctx.run(lambda f: Pass(mod, counts, 2, {"gracht_client_await_multiple": (3, lambda n, v: not (n ^ v) & 3, "the flags of the call are not the ones that are waited with")}), [mod.get("gracht_client_await")])
    f = mod.get("gracht_server_broadcast_event")
    cbs = [mod.fn[x.d["args"][1][1]] for x in f.calls() if x.d["callee"][0] == "g" and x.d["callee"][1] in mod.fn and
           mod.fn[x.d["callee"][1]].base == "gr_hashtable_enumerate" and x.d["args"][1][0] == "g"]
    ctx.need(cbs, "no callback of the broadcast")
    good = []
    ctx.run(lambda f: Broadcast(mod, counts, good), [f])
    ctx.run(lambda f: Field(mod, counts, set.intersection(*good), {one + "send_client": same}), cbs)
    for k, n in (("transfer checked", 8), ("turn checked", 1), ("flags checked", 6), ("waiting checked", 2), ("end of waiting checked", 1)):
        ctx.need(counts.get(k, 0) >= n, "too few instances of: %s" % k)

