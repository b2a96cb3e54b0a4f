"""C05: nothing a peer or an application sends makes the library leave its buffers."""
from gv import engine, lin, wire
from gv.engine import C0, label, root, within
from gv.facts import strip
from gv.lin import Lin
from props import c06

LEVEL = "other"
RULE = ("linear inequalities over the capacity of the message buffer, the length field of the header and the results of the transport, on every "
        "path of every receiving operation: every byte read, received, copied or checksummed lies inside the buffer, a delivered message has a "
        "complete header and its size does not exceed the buffer; the capacity handed to the receiving operation never exceeds what was "
        "allocated; of a received message only what is unused is given back early; buffers for outgoing messages are as large as configured; every access to a fixed-size table (links, subscriptions, events) "
        "has an index inside the table")
ALLOC, MAXM, CONF, MSIZE = ("k", "alloc"), ("k", "maxm"), ("k", "conf"), ("k", "msize")
KW = {"msize": 32, "alloc": 64, "maxm": 32, "conf": 32, "lost": 64}
ADDRESS = {"accept": 1, "accept4": 1, "getsockname": 1, "getpeername": 1, "recvfrom": 4}
SOCKADDR = 16       # the smallest address the kernel knows of
SERVER, CLIENT = "gracht_server", "gracht_client"


def u(t):
    return Lin(0, {("u", t): 1})


class Base(wire.Wire):
    def start(self, eng):
        eng.kwidth = KW
        return frozenset()

    def seed(self, eng, st):
        st.mem[("f", ("a", 0), SERVER, "allocationSize")] = ALLOC
        st.mem[("f", ("a", 0), CLIENT, "max_message_size")] = MAXM

    def extra(self):
        # messages are configured to hold a header at least
        return [u(ALLOC) + Lin(-512), Lin((1 << 31) - 1) - u(ALLOC), u(MAXM) + Lin(-64), Lin((1 << 30)) - u(MAXM),
                u(CONF) + Lin(-64), Lin((1 << 30)) - u(CONF)]

    def sized(self, eng, st, x, size):
        """remembers the size of an allocation by its result"""
        out = []
        eng.effects(st, x, "malloc", [])
        sym = eng.fresh(st, x)
        ps = frozenset(p for p in st.ps if p[0] != sym)
        s = st.copy()
        s.env[x.i] = C0
        s.ps = ps
        out.append(s)
        s = st.copy()
        s.env[x.i] = sym
        s.facts[("eq", sym, C0)] = False
        s.ps = ps | {(sym, size)}
        out.append(s)
        return out

    def call(self, eng, st, x, name, args):
        if name == "malloc":
            return self.sized(eng, st, x, args[0])
        if name == "calloc":
            return self.sized(eng, st, x, eng.binop("mul", args[0], args[1], 64))
        if name == "gracht_arena_allocate" and args[1] == C0:
            return self.sized(eng, st, x, args[2])
        return self.other(eng, st, x, name, args)

    def other(self, eng, st, x, name, args):
        return None

    def size(self, st, p):
        for q, n in st.ps:
            if q == p:
                return n
        return None


class Incoming(Base):
    """operations that provide the buffer of an incoming message"""
    keep = frozenset({("gracht_message", "index"), (SERVER, "recvBuffer")})

    def __init__(self, counts, payload):
        super().__init__(None, counts)
        self.payload = payload

    def seed(self, eng, st):
        super().seed(eng, st)
        st.mem[("f", ("a", 0), SERVER, "recvBuffer")] = ("k", "recv")

    def ret(self, eng, st, x, val):
        if eng.iszero(st, val) is True:
            return
        self.bump("capacity of an incoming message")
        ix = st.mem.get(("f", val, "gracht_message", "index"))
        n = ALLOC if val == ("k", "recv") else self.size(st, val)
        if n is None:
            self.report(eng, st, x, "unknown-buffer", "the buffer of an incoming message is not the receive buffer nor allocated for it")
            return
        if ix is None or not self.le(eng, st, self.lin(eng, st, ix, 32) + Lin(self.payload), self.lin(eng, st, n)):
            self.report(eng, st, x, "capacity", "the capacity of an incoming message may exceed the buffer that was allocated for it")


class Trim(Base):
    """operations that may give back the unused part of a received message"""

    def __init__(self, counts, payload):
        super().__init__(None, counts)
        self.payload = payload

    def seed(self, eng, st):
        super().seed(eng, st)
        st.mem[("f", ("a", 1), "gracht_message", "size")] = MSIZE

    def extra(self):
        return super().extra() + [u(MSIZE) + Lin(-11), u(ALLOC) - u(MSIZE) + Lin(-self.payload)]

    def other(self, eng, st, x, name, args):
        if name == "gracht_arena_free" and args[1] == ("a", 1) and eng.iszero(st, args[2]) is not True:
            self.bump("unused part of a message")
            if not self.le(eng, st, self.lin(eng, st, args[2]) + u(MSIZE) + Lin(self.payload), u(ALLOC)):
                self.report(eng, st, x, "trim", "more of a message may be given back than is unused")
        return None


class Create(Base):
    """creation of a server: the receive buffer is as large as messages may be"""
    keep = frozenset({(SERVER, "allocationSize"), ("gracht_server_configuration", "max_message_size")})

    def seed(self, eng, st):
        super().seed(eng, st)
        st.mem[("f", ("a", 0), "gracht_server_configuration", "max_message_size")] = CONF

    def store(self, eng, st, x, addr, val):
        l = label(addr)
        if l == (SERVER, "recvBuffer") and eng.iszero(st, val) is not True:
            self.bump("receive buffer")
            n = self.size(st, val)
            a = st.mem.get(("f", addr[1], SERVER, "allocationSize"))
            if n is None or a is None or not self.le(eng, st, self.lin(eng, st, a), self.lin(eng, st, n)):
                self.report(eng, st, x, "receive-buffer", "the receive buffer may be smaller than the messages that are received into it")
        elif l == (SERVER, "allocationSize"):
            self.bump("size of messages")
            if not self.le(eng, st, u(CONF) + Lin(24 + 128), self.lin(eng, st, val)):
                self.report(eng, st, x, "allocation-size", "a message of the configured size does not fit with its context")


class Outgoing(Base):
    """the buffer handed out for an outgoing message"""

    def store(self, eng, st, x, addr, val):
        if label(addr) == ("gracht_buffer", "data"):
            n = self.size(st, val)
            if n is not None:
                self.bump("buffer for an outgoing message")
                if not self.le(eng, st, u(ALLOC), self.lin(eng, st, n)):
                    self.report(eng, st, x, "outgoing-buffer", "a buffer for outgoing messages is smaller than the messages it is meant for")

    def other(self, eng, st, x, name, args):
        return None


class ClientCreate(Base):
    keep = frozenset({(CLIENT, "max_message_size")})

    def store(self, eng, st, x, addr, val):
        if label(addr) == (CLIENT, "send_buffer"):
            n = self.size(st, val)
            if n is not None:
                self.bump("buffer for an outgoing message")
                m = st.mem.get(("f", addr[1], CLIENT, "max_message_size"))
                if m is None or not self.le(eng, st, lin.space(eng, st).lin(m, "s", 32), self.lin(eng, st, n)):
                    self.report(eng, st, x, "outgoing-buffer", "the send buffer of a client is smaller than the messages it is meant for")


class ClientRecv(Base):
    def other(self, eng, st, x, name, args):
        if name == "slot:client_link_ops.recv":
            self.bump("capacity of an incoming message")
            b = args[1]
            d = st.mem.get(("f", b, "gracht_buffer", "data"))
            ix = st.mem.get(("f", b, "gracht_buffer", "index"))
            n = self.size(st, d) if d is not None else None
            if n is None or ix is None or not self.le(eng, st, self.lin(eng, st, ix, 32), self.lin(eng, st, n)):
                self.report(eng, st, x, "capacity", "the capacity of an incoming message may exceed the buffer that was allocated for it")
        return None


def arrays(mod):
    """(struct, field) -> bytes of the fixed-size arrays in structures"""
    out = {}
    for s, d in mod.structs.items():
        for k, f in enumerate(d["fields"]):
            # arrays at the end of a structure stand for what follows it
            if f[2].startswith("[") and f[1] > 0 and "members" in d and (k + 1 < len(d["fields"]) or not f[2].startswith("[1 x")):
                out[mod.fieldname(s, k)] = f[1]
    return out


class Tables(wire.Wire):
    """accesses to fixed-size tables"""

    def __init__(self, counts, arr, fn):
        super().__init__(fn, counts)
        self.arr, self.sizes = arr, {fn.mod.fieldname(s, k): f[1] for s, d in fn.mod.structs.items() for k, f in enumerate(d["fields"][:-1])}
        self.loc = {x.i: x.d["asz"] for x in fn.all() if x.op == "alloca" and x.d["aty"].startswith("[") and x.d["ops"][0][0] == "c"}

    def start(self, eng):
        eng.kwidth = KW
        return ()

    def bound(self, addr):
        b, parts = lin.offset(addr)
        if b[0] == "f" and (b[2], b[3]) in self.arr:
            return self.arr[(b[2], b[3])], parts, "%s.%s" % (b[2], b[3])
        if b[0] == "al" and b[1] in self.loc:
            return self.loc[b[1]], parts, "a local table"
        return None

    def access(self, eng, st, x, addr, n):
        q = self.bound(addr)
        if q is None:
            return
        size, parts, what = q
        self.bump("access to a table")
        o = self.off(eng, st, parts)
        sp = lin.space(eng, st)
        if not sp.holds(o) or not sp.holds(Lin(size) - o - n):
            self.report(eng, st, x, "table-index", "an access to %s may lie outside of it" % what)

    def load(self, eng, st, x, addr, val):
        self.access(eng, st, x, addr, Lin(max(1, engine.width(x.ty) // 8)))

    def store(self, eng, st, x, addr, val):
        self.access(eng, st, x, addr, Lin(1))

    def call(self, eng, st, x, name, args):
        if name in ("memset", "memcpy", "memmove"):
            for a in args[:1] if name == "memset" else args[:2]:
                if self.bound(a):
                    self.access(eng, st, x, a, self.lin(eng, st, args[2]))
        elif name == "epoll_wait":
            ev = 12
            self.access(eng, st, x, args[1], lin.space(eng, st).lin(args[2], "s", 32).scale(ev))
            eng.effects(st, x, name, args)
            sym = eng.fresh(st, x)
            st.env[x.i] = sym
            st.facts[("slt", args[2], sym)] = False
            return [st]
        elif name in ADDRESS and strip(args[ADDRESS[name]]) != C0:
            self.address(eng, st, x, strip(args[ADDRESS[name]]), args[ADDRESS[name] + 1])
        return None

    def address(self, eng, st, x, to, length):
        """the kernel stores an address, which is as large as the length given with it says"""
        n = None
        if to[0] == "f":
            n = self.sizes.get((to[2], to[3]))
        elif to[0] == "al":
            n = x.fn.ins[to[1]].d.get("asz") if to[1] in x.fn.ins else None
        if n is None:
            return
        self.bump("address from the kernel")
        v = strip(eng.read(st, length)) if length != C0 else C0
        if n < SOCKADDR or v[0] == "c" and v[1] > n:
            self.report(eng, st, x, "address", "an address is stored in a place that is too small for it")


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    for fn, role in c06.receivers(mod):
        m = wire.Recv(fn, counts, role, True, False)
        ctx.run(lambda f: m, [fn], seed=m.seed)
    s = next((d for n, d in mod.structs.items() if mod.fieldname(n, 0)[0] == "gracht_message" and "members" in d), None)
    ctx.need(s, "struct gracht_message is gone")
    pay = next((x[1] // 8 for x in s["members"] if x[0] == "payload"), None)
    ctx.need(pay is not None, "gracht_message.payload is gone")
    inc = wire.slots(mod, "server_operations", "get_incoming_buffer")
    ctx.need(inc, "no operation provides incoming buffers")

    def one(fns, mk):
        for fn in fns:
            m = mk()
            ctx.run(lambda f: m, [fn], seed=m.seed)
    one(inc, lambda: Incoming(counts, pay))
    one(wire.slots(mod, "server_operations", "dispatch"), lambda: Trim(counts, pay))
    one([mod.get("gracht_server_create")], lambda: Create(None, counts))
    one([mod.get("gracht_server_get_buffer")], lambda: Outgoing(None, counts))
    one([mod.get("gracht_client_create")], lambda: ClientCreate(None, counts))
    one([mod.get("gracht_client_wait_message")], lambda: ClientRecv(None, counts))
    arr = arrays(mod)
    used = []
    for f in ctx.roots():
        hit = any(x.op == "alloca" and x.d["aty"].startswith("[") or x.op == "call" and x.d["callee"][1] in ADDRESS for x in f.all())
        for x in f.all():
            for o in list(x.d.get("ops", [])) + list(x.d.get("args", [])) + ([x.d["gep"]] if "gep" in x.d else []):
                if o[0] == "gep" and any(p[0] == "f" and mod.fieldname(p[1], p[2]) in arr for p in o[2]):
                    hit = True
        if hit:
            used.append(f)
    ctx.need(used, "no access to a fixed-size table")
    ctx.run(lambda f: Tables(counts, arr, f), used)
    ctx.extra["tables"] = sorted("%s.%s" % k for k in arr)
    for k in ("access inside the message buffer", "delivered size", "capacity of an incoming message", "receive buffer", "size of messages",
              "buffer for an outgoing message", "access to a table"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
    ctx.assumptions += ["the configured message size is at least 64 bytes and below 1 GiB; the address of a link together with a header fits "
                        "into a message buffer", "gracht_arena_allocate returns memory of the size it was asked for (C20)",
                        "the transport writes no more bytes than it was asked for"]
