"""The receiving and sending halves of the links, as automata over the bytes of one message.

A receiving function is followed with the capacity of the message, the length field of the header and the results of the
transport calls as symbols; the automaton knows how many bytes of the message have been received. A sending function is
followed the same way with the number of bytes that have been sent."""
from . import engine, lin, locks
from .engine import C0, contains, label, root, width, within
from .lin import Lin

HDR = 11
DONTWAIT, WAITALL, NOSIGNAL = 0x40, 0x100, 0x4000
OOB, PEEK, ERRQUEUE = 1, 2, 0x2000
EFAULT, ENODATA, EAGAIN, EINTR = 14, 61, 11, 4
MSG, BUF = "gracht_message", "gracht_buffer"
CAP, LEN, ALEN, DATA, INDEX = ("k", "cap"), ("k", "LEN"), ("k", "alen"), ("k", "data"), ("k", "index")
KW = {"cap": 32, "LEN": 32, "alen": 32, "data": 64, "index": 32, "lost": 64}


def u(t):
    return Lin(0, {("u", t): 1})


def slots(mod, struct, field):
    return [mod.fn[n] for n in sorted(mod.slots.get((struct, field), ()))]


class Wire(engine.Monitor):
    relational = True
    numbers = (HDR,)

    def __init__(self, fn, counts):
        super().__init__()
        self.counts = counts

    def bump(self, what):
        self.instances += 1
        self.counts[what] = self.counts.get(what, 0) + 1

    def lin(self, eng, st, t, w=64):
        return lin.space(eng, st).lin(t, "u", w)

    def le(self, eng, st, a, b):
        return lin.space(eng, st).holds(b - a)

    def eq(self, eng, st, a, b):
        return lin.same(lin.space(eng, st), a, b)

    def off(self, eng, st, parts):
        sp = lin.space(eng, st)
        r = Lin(0)
        for ix, sc in parts:
            l = sp.lin(ix, "s", 64)
            r = r + l.scale(sc)
        return r

    def flag(self, eng, st, flags, bit):
        """whether a bit of a flags term is set: True, False or None"""
        t = flags
        while True:
            if t[0] == "c":
                return bool(t[1] & bit)
            if t[0] == "cast":
                t = t[4]
                continue
            if t[0] == "op" and t[3][0] == "c":
                if t[1] == "or":
                    if t[3][1] & bit:
                        return True
                    t = t[2]
                    continue
                if t[1] == "and":
                    if not t[3][1] & bit:
                        return False
                    t = t[2]
                    continue
            return None

    def errno(self, st):
        return st.mem.get(("errno",))


class Recv(Wire):
    """ps = (pos, base, last, kind): pos bytes of the message have been received starting at offset base; last tells how the
    last transport call ended"""
    keep = frozenset({(MSG, "index"), (MSG, "size"), (BUF, "index"), ("gracht_link", "type")})

    def __init__(self, fn, counts, role, bounds, frames):
        super().__init__(fn, counts)
        self.role, self.bounds_, self.frames = role, bounds, frames

    def start(self, eng):
        eng.kwidth = KW
        return (C0, None, "none")

    def seed(self, eng, st):
        if self.role == "client":
            st.mem[("f", ("a", 1), BUF, "index")] = CAP
            st.mem[("f", ("a", 1), BUF, "data")] = DATA
        else:
            st.mem[("f", ("a", 1), MSG, "index")] = CAP
        st.mem[("f", ("a", 0), "gracht_link_socket", "address_length")] = ALEN

    def extra(self):
        # a message buffer holds an address and a header at least
        return [u(CAP) - u(ALEN) + Lin(-HDR), u(CAP) + Lin(-HDR), u(ALEN), Lin((1 << 31) - 1) - u(CAP)]

    def tracked(self, st):
        return [st.ps[0]]

    def bounds(self, eng, st):
        return [CAP, LEN]

    def payload(self, addr):
        """offset parts of an address inside the message, None if it is elsewhere"""
        b, parts = lin.offset(addr)
        if self.role == "client":
            return parts if b == DATA else None
        return parts if b == ("f", ("a", 1), MSG, "payload") else None

    def packet(self, eng, st):
        if self.role == "recv":
            return True
        if self.role == "recv_client":
            return False
        t = st.mem.get(("f", ("a", 0), "gracht_link", "type"))
        if t is not None:
            c = eng.const(st, t)
            if c is not None:
                return c == 1
        return None

    def access(self, eng, st, x, addr, n, what):
        p = self.payload(addr)
        if p is None or not self.bounds_:
            return
        self.bump("access inside the message buffer")
        o = self.off(eng, st, p)
        sp = lin.space(eng, st)
        if not sp.holds(o) or not sp.holds(u(CAP) - o - n):
            self.report(eng, st, x, "out-of-bounds", "%s may reach beyond the buffer of the message" % what)

    def load(self, eng, st, x, addr, val):
        p = self.payload(addr)
        if p is None:
            return
        n = width(x.ty) // 8
        self.access(eng, st, x, addr, Lin(n), "a read of received data")
        pos, base, last = st.ps
        o = self.off(eng, st, p)
        b = base if base is not None else C0
        lb = self.lin(eng, st, b)
        if self.frames:
            self.bump("received data used")
            if not self.le(eng, st, o + Lin(n), lb + self.lin(eng, st, pos)) and not self.ready(eng, st, pos):
                self.report(eng, st, x, "not-received", "bytes of the message are used that have not been received")
        if n == 4 and self.eq(eng, st, o, lb + Lin(4)):
            st.env[x.i] = LEN
            st.mem[addr] = LEN

    def ready(self, eng, st, pos):
        return False

    def store(self, eng, st, x, addr, val):
        self.access(eng, st, x, addr, Lin(1), "a write")

    def edge_address(self, eng, st, x, args):
        pass

    def call(self, eng, st, x, name, args):
        if name in ("recv", "recvfrom", "read"):
            return self.recv(eng, st, x, name, args)
        if name in ("memcpy", "memmove", "memset"):
            n = self.lin(eng, st, args[2])
            self.access(eng, st, x, args[0], n, "a copy")
            if name != "memset":
                self.access(eng, st, x, args[1], n, "a copy")
                p = self.payload(args[1])
                base = st.ps[1] if st.ps[1] is not None else C0
                if p is not None and args[2] == ("c", 4) and root(args[0])[0] == "al" and \
                        self.eq(eng, st, self.off(eng, st, p), self.lin(eng, st, base) + Lin(4)):
                    r = eng.default_call(st, x, name, args)
                    st.mem[args[0]] = LEN
                    return r
            return None
        if name == "crc32_generate":
            self.access(eng, st, x, args[0], self.lin(eng, st, args[1]), "the checksum of the address")
        return None

    def recv(self, eng, st, x, name, args):
        pos, base, last = st.ps
        size = args[2]
        flags = args[3] if name != "read" else C0
        p = self.payload(args[1])
        self.bump("receive operation")
        if p is None:
            self.report(eng, st, x, "foreign-buffer", "data is received into something else than the buffer of the message")
            return None
        if self.frames and any(self.flag(eng, st, flags, b) for b in (OOB, PEEK, ERRQUEUE)):
            self.report(eng, st, x, "not-consumed", "what is read is not the next data of the connection, or stays there to be read again")
        o = self.off(eng, st, p)
        self.access(eng, st, x, args[1], self.lin(eng, st, size), "receiving")
        if name == "recvfrom" and args[4] != C0:
            al = st.mem.get(args[5], None) if len(args) > 5 else None
            if al is not None:
                self.access(eng, st, x, args[4], self.lin(eng, st, al, 32), "the address of the sender")
        if base is None:
            base = lin.offterm(eng, p)
        if self.frames and not self.packet(eng, st):
            if not self.eq(eng, st, o, self.lin(eng, st, base) + self.lin(eng, st, pos)):
                self.report(eng, st, x, "wrong-place", "received data is not stored behind the data received before it")
            if not self.eq(eng, st, self.lin(eng, st, base), Lin(0)):
                self.report(eng, st, x, "wrong-place", "the message is not stored at the start of its buffer")
            if pos == C0 or self.le(eng, st, self.lin(eng, st, pos) + self.lin(eng, st, size), Lin(HDR)):
                want = Lin(HDR)
            else:
                want = u(LEN)
            if not self.le(eng, st, self.lin(eng, st, pos) + self.lin(eng, st, size), want):
                self.report(eng, st, x, "reads-ahead", "more bytes are read than belong to the message")
            if pos != C0 and self.flag(eng, st, flags, DONTWAIT) is not False and not self.eq(eng, st, self.lin(eng, st, pos), Lin(0)):
                self.report(eng, st, x, "gives-up", "the rest of a message is read without waiting for it")
        whole = self.flag(eng, st, flags, WAITALL) is True and self.flag(eng, st, flags, DONTWAIT) is False
        eng.effects(st, x, name, args)
        if name == "recvfrom" and len(args) > 5:
            eng.kill_region(st, args[5])
        st.ps = (pos, base, last)
        sym = eng.fresh(st, x)
        pos, base, last = st.ps
        size = eng.val(st, x.d["args"][2])
        out = []
        # an error
        s = st.copy()
        s.env[x.i] = ("c", -1)
        s.ps = (pos, base, "error")
        eng.trace(s, x, "the transport reports an error")
        out.append(s)
        # the end of the stream
        s = st.copy()
        s.env[x.i] = C0
        s.ps = (pos, base, "end")
        eng.trace(s, x, "the transport reports the end")
        out.append(s)
        # a part
        s = st.copy()
        s.env[x.i] = sym
        for sg in "us":
            s.facts[(sg + "lt", C0, sym)] = True
            s.facts[(sg + "lt", sym, size)] = True
        s.ps = (eng.binop("add", pos, sym, 64), base, "stopped" if whole else "part")
        eng.trace(s, x, "a part is received")
        if lin.feasible(lin.space(eng, s).cons):
            out.append(s)
        # everything
        s = st.copy()
        s.env[x.i] = size
        for sg in "us":
            a, pol = eng.atom(sg + "gt", size, C0)
            s.facts[a] = pol
        s.ps = (eng.binop("add", pos, size, 64), base, "all")
        eng.trace(s, x, "everything is received")
        if lin.feasible(lin.space(eng, s).cons):
            out.append(s)
        return out

    def ret(self, eng, st, x, val):
        pos, base, last = st.ps
        z = eng.iszero(st, val)
        lp = self.lin(eng, st, pos)
        lb = self.lin(eng, st, base if base is not None else C0)
        pk = self.packet(eng, st)
        if z is not False:
            self.success(eng, st, x, lp, lb, pk)
        if z is not True and self.frames and pk and base is not None and last in ("part", "all", "stopped"):
            self.bump("refused message")
            sp = lin.space(eng, st)
            cons = sp.cons + [lp + Lin(-HDR), u(LEN) - lp, lp - u(LEN)]
            if lin.feasible(cons) and not self.differ(eng, st, cons):
                self.report(eng, st, x, "refused", "a complete packet is refused")
        if z is not True and self.frames and not pk and base is not None:
            self.bump("refused message")
            none = self.eq(eng, st, lp, Lin(0))
            if last == "part":
                self.report(eng, st, x, "gives-up", "a message is given up because it arrived in pieces")
            if last == "all":
                sp = lin.space(eng, st)
                if not (sp.holds(Lin(HDR - 1) - u(LEN)) or sp.holds(u(LEN) - u(CAP) + Lin(-1))):
                    self.report(eng, st, x, "refused", "a message that fits is refused")
            if not none:
                e = self.errno(st)
                c = eng.const(st, e) if e is not None else None
                if self.role == "recv_client" and c != EFAULT:
                    self.report(eng, st, x, "desynchronised", "a part of a message was consumed but the connection is kept: EFAULT is not reported")
                if self.role == "client" and c in (None, 0, ENODATA, EAGAIN):
                    self.report(eng, st, x, "desynchronised", "a part of a message was consumed but no failure of the connection is reported")

    def differ(self, eng, st, cons):
        """values that are known to differ would be the same"""
        for (p, a, b), v in st.facts.items():
            if p == "eq" and not v and any(contains(t, LEN) for t in (a, b)):
                d = self.lin(eng, st, a) - self.lin(eng, st, b)
                if not lin.feasible(cons + [d + Lin(-1)]) and not lin.feasible(cons + [Lin(-1) - d]):
                    return True
        return False

    def success(self, eng, st, x, lp, lb, pk):
        self.bump("delivered message")
        lay = BUF if self.role == "client" else MSG
        ix = st.mem.get(("f", ("a", 1), lay, "index"))
        sp = lin.space(eng, st)
        if self.frames:
            if ix is None or not self.eq(eng, st, self.lin(eng, st, ix, 32), lb):
                self.report(eng, st, x, "wrong-start", "the position of a delivered message is not where it was received")
            if pk:
                if not sp.holds(lp - u(LEN)):
                    self.report(eng, st, x, "truncated", "a truncated packet is delivered")
                if not sp.holds(lp + Lin(-HDR)):
                    self.report(eng, st, x, "truncated", "a packet without a complete header is delivered")
            elif not self.eq(eng, st, lp, u(LEN)):
                self.report(eng, st, x, "incomplete", "a message is delivered that was not received exactly as long as its header says")
        if self.role == "client":
            if self.bounds_:
                self.bump("delivered size")
                if not sp.holds(lp + Lin(-HDR)):
                    self.report(eng, st, x, "no-header", "a message without a complete header is delivered")
            return
        size = st.mem.get(("f", ("a", 1), MSG, "size"))
        if size is None:
            self.report(eng, st, x, "no-size", "a message is delivered without its size")
            return
        ls = self.lin(eng, st, size, 32)
        if self.bounds_:
            self.bump("delivered size")
            if not sp.holds(u(CAP) - ls):
                self.report(eng, st, x, "too-large", "the size of a delivered message may exceed its buffer")
            if ix is None or not sp.holds(ls - self.lin(eng, st, ix, 32) + Lin(-HDR)):
                self.report(eng, st, x, "no-header", "a message without a complete header is delivered")
        if self.frames:
            if not self.eq(eng, st, ls, lb + (lp if pk else u(LEN))):
                self.report(eng, st, x, "wrong-size", "the size of a delivered message is not what was received")


class Send(locks.LockMonitor):
    """ps = (held, (pos, last, whether a part has been sent))"""
    relational = True
    keep = frozenset({("socket_link_client", "streaming"), ("gracht_link", "type")})

    def __init__(self, mod, counts, role):
        super().__init__(mod)
        self.counts, self.role = counts, role
        self.msg = ("a", 2) if role == "send" else ("a", 1)

    bump = Wire.bump
    lin = Wire.lin
    le = Wire.le
    eq = Wire.eq
    off = Wire.off
    flag = Wire.flag
    errno = Wire.errno

    def start_more(self, eng):
        eng.kwidth = KW
        return (C0, "none", False)

    def seed(self, eng, st):
        st.mem[("f", self.msg, BUF, "index")] = INDEX
        st.mem[("f", self.msg, BUF, "data")] = DATA

    def extra(self):
        return [u(INDEX) + Lin(-HDR), Lin((1 << 31) - 1) - u(INDEX)]

    def tracked(self, st):
        return [st.ps[1][0]]

    def bounds(self, eng, st):
        return [INDEX, ("cast", "zext", "i32", "i64", INDEX)]

    def stream(self, eng, st, name):
        if name == "sendto" or self.role == "send":
            return False
        if self.role == "send_client":
            t = st.mem.get(("f", ("a", 0), "socket_link_client", "streaming"))
            z = eng.iszero(st, t) if t is not None else None
            return None if z is None else not z
        t = st.mem.get(("f", ("a", 0), "gracht_link", "type"))
        c = eng.const(st, t) if t is not None else None
        return None if c is None else c == 0

    def more(self, st, m):
        st.ps = (st.ps[0], m)

    def on_release(self, eng, st, x, addr, mode, k):
        pos, last, open_ = st.ps[1]
        if open_ and last in ("part", "retry") and self.role == "send_client":
            self.report(eng, st, x, "lock-dropped", "the sending lock is released in the middle of a message")

    def on_call(self, eng, st, x, name, args):
        if name not in ("send", "sendto", "write", "sendmsg"):
            return None
        pos, last, open_ = st.ps[1]
        self.bump("send operation")
        b, parts = lin.offset(args[1])
        strm = self.stream(eng, st, name)
        if b != DATA:
            self.report(eng, st, x, "foreign-data", "something else than the message is sent")
            return None
        o = self.off(eng, st, parts)
        lp = self.lin(eng, st, pos)
        size, flags = args[2], args[3] if len(args) > 3 else C0
        if not self.eq(eng, st, o, lp):
            self.report(eng, st, x, "wrong-place", "the message is not continued where the previous part ended")
        if not self.eq(eng, st, o + self.lin(eng, st, size), u(INDEX)):
            self.report(eng, st, x, "wrong-length", "what is handed to the transport is not the rest of the message")
        if self.flag(eng, st, flags, OOB):
            self.report(eng, st, x, "out-of-band", "a message is sent outside the order of the connection")
        if strm is not False:
            if self.flag(eng, st, flags, NOSIGNAL) is not True:
                self.report(eng, st, x, "signal", "a peer that went away raises a signal that ends the process")
            if not self.eq(eng, st, lp, Lin(0)) and self.flag(eng, st, flags, DONTWAIT) is not False:
                self.report(eng, st, x, "gives-up", "the rest of a message is sent without waiting for room")
            if self.role == "send_client" and not self.holds_class(st, ("socket_link_client", "send_lock")):
                self.report(eng, st, x, "interleaved", "a message is sent on a stream without excluding other senders")
        eng.effects(st, x, name, args)
        sym = eng.fresh(st, x)
        pos, last, open_ = st.ps[1]
        size = eng.val(st, x.d["args"][2])
        out = []
        s = st.copy()
        s.env[x.i] = ("c", -1)
        self.more(s, (pos, "error", open_))
        eng.trace(s, x, "the transport reports an error")
        out.append(s)
        if strm is not False:
            s = st.copy()
            s.env[x.i] = C0
            self.more(s, (pos, "error", open_))
            eng.trace(s, x, "the transport takes nothing")
            out.append(s)
        s = st.copy()
        s.env[x.i] = sym
        for sg in "us":
            s.facts[(sg + "lt", C0, sym)] = True
            s.facts[(sg + "lt", sym, size)] = True
        self.more(s, (eng.binop("add", pos, sym, 64), "part", True))
        eng.trace(s, x, "the transport takes a part")
        if lin.feasible(lin.space(eng, s).cons):
            out.append(s)
        s = st.copy()
        s.env[x.i] = size
        self.more(s, (eng.binop("add", pos, size, 64), "all", True))
        eng.trace(s, x, "the transport takes everything")
        out.append(s)
        return out

    def ret(self, eng, st, x, val):
        pos, last, open_ = st.ps[1]
        self.bump("outcome of sending")
        z = eng.iszero(st, val)
        lp = self.lin(eng, st, pos)
        if z is not False and not self.eq(eng, st, lp, u(INDEX)):
            self.report(eng, st, x, "incomplete", "success is reported although the message was not sent completely")
        if z is not True:
            if last == "all":
                self.report(eng, st, x, "failed", "failure is reported although the message was sent")
            if last == "part" and self.stream(eng, st, "") is not False:
                self.report(eng, st, x, "gives-up", "a message is given up after a part of it was sent")
