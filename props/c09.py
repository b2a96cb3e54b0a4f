"""C09: what one side encodes the other side decodes."""
import os
from gv import bits, build, engine, gen, ir
from gv.engine import C0, contains, flat, root
from gv.facts import Facts, strip

LEVEL = "other"
GENERATES = True        # that no code is generated from a valid description breaks the property
RULE = ("every generated function that writes or reads a payload is followed along every path, item by item, against the description it was generated from: each parameter, result, event argument and structure member "
        "is written with its value and its full width, in the declared order, and read the same way into the place it is for; the elements of arrays are counted, all written (by an induction over the loop or "
        "by a copy of exactly count elements), all read, and delivered as far as there is room; variants carry a tag that means the same entry to the writer, the reader and the accessors; the primitive "
        "serializers and deserializers move exactly their value at the current position and advance by its size")

WIDTH = {"uint8": 1, "int8": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "uint64": 8, "int64": 8, "uint": 4, "int": 4,
         "long": 8, "ulong": 8, "bool": 1, "float": 4, "double": 8, "intptr_t": 8, "ptrdiff_t": 8}


def leaves(t, out):
    if not isinstance(t, tuple) or not t:
        return
    if t[0] == "c":
        return
    if t[0] == "cast":
        return leaves(t[4], out)
    if t[0] == "op":
        leaves(t[2], out)
        return leaves(t[3], out)
    if t[0] == "b":
        leaves(t[1][1], out)
        return leaves(t[1][2], out)
    out.add(t)


SAMPLES = (0x1357, 0x2d1f3, 0x90001, 7, 300)


def equal(a, b, bits_=64):
    """the terms have the same value for all (sampled) values of what they are made of; both are linear"""
    ls = set()
    leaves(a, ls)
    leaves(b, ls)
    ls = sorted(ls, key=repr)
    m = (1 << bits_) - 1
    for k, s in enumerate(SAMPLES):
        env = {t: (s * (j + 1) + 11 * j * k) % (1 << 20) for j, t in enumerate(ls)}
        try:
            if bits.ev(a, env) & m != bits.ev(b, env) & m:
                return False
        except bits.Open:
            return False
    return True


def lin(*parts):
    """sum of factor * term"""
    t = C0
    for f, x in parts:
        y = x if f == 1 else ("op", "mul", x, ("c", f), 64)
        t = ("op", "add", t, y, 64)
    return t


def lossless(t, w):
    """the value below casts that keep at least w bytes"""
    while t[0] == "cast":
        if t[1] == "trunc" and int(t[3][1:]) < 8 * w:
            return None
        t = t[4]
    return t


def order(eng, st, a, b):
    """truth of a < b if a comparison says so"""
    if a[0] == "c" and b[0] == "c":
        return a[1] < b[1]
    differ = None
    for (p, x, y), v in st.facts.items():
        x, y = strip(x), strip(y)
        if p in ("ult", "slt"):
            if (x, y) == (a, b):
                return v
            if (x, y) == (b, a) and v:
                return False
        elif p == "eq" and {x, y} == {a, b}:
            differ = not v
    if differ is not None:
        return differ
    if a == C0 and eng.iszero(st, b) is not None:
        return not eng.iszero(st, b)
    if b == C0:
        return False
    return None


class Wire(Facts):
    """ps: at = (item, None) or (item, (next element, count, what was done)); the other facts name what was written or read where"""
    widen = True
    ROLE = None

    def __init__(self, mod, counts, f, items, acc, header=0, buf=None, end=None, first=1):
        super().__init__(mod, counts)
        self.f, self.items, self.acc, self.header, self.buf, self.endcall = f, items, acc, header, buf, end

    # state ------------------------------------------------------------------------------------------------------
    def start(self, eng):
        ps = {("at", -self.header, None)}
        if self.buf is not None:
            ps.add(("buf", self.buf))
        return frozenset(ps)

    def where(self, st):
        return self.one(st, "at")

    def go(self, st, k, ph=None):
        if not ph or ph == "tagged" or ph[0] == C0:
            st.ps = frozenset(t for t in st.ps if t[0] not in ("same", "rest", "walk"))
        self.set(st, "at", k, ph)

    def size(self, k):
        it = self.items[k] if 0 <= k < len(self.items) else {}
        return it.get("w") or self.acc.get("size", {}).get(it.get("S"))

    def same(self, st, idx):
        """the terms that have the value of the index of the next element"""
        return [idx] + [t[1] for t in self.all(st, "same")]

    def forward(self, eng, st, k, ph):
        """the next element"""
        idx, cnt, did = ph
        inc = lambda i: eng.binop("add", i, ("c", 1), 32)
        rest = [t[1] for t in self.all(st, "rest")] or ([cnt] if idx == C0 else [])
        also = {("same", inc(t[1])) for t in self.all(st, "same")} | {("rest", eng.binop("add", t, ("c", -1), 32)) for t in rest if strip(t)[0] != "op"}
        st.ps = frozenset(t for t in st.ps if t[0] not in ("same", "rest")) | also
        self.go(st, k, (inc(idx), cnt, did))

    def at(self, eng, st, addr):
        """base and offset; a pointer that walks over an array is the array at an index"""
        b, parts = flat(addr)
        off = eng.offterm(parts)
        for _, s, base, esz in self.all(st, "walk"):
            if s == b:
                return base, lin((esz, ("idx", s)), (1, off))
        return b, off

    def here(self, eng, st, off, esz, idx):
        return any(equal(off, lin((esz, i))) for i in self.same(st, idx))

    def bad(self, eng, st, x, msg):
        if not self.all(st, "dead"):
            self.report(eng, st, x, "payload", msg)
        self.add(st, "dead")

    def what(self, k):
        if k < 0:
            return "the header"
        if k >= len(self.items):
            return "the end of the payload"
        return "'%s'" % self.items[k]["name"]

    def rename(self, eng, st, v, s):
        w = self.where(st)
        if not w or not w[1] or w[1] == "tagged":
            return
        idx, esz = w[1][0], self.size(w[0])
        at = self.at(eng, st, v) if v[0] not in ("c", "op", "cast", "u", "b") and esz else None
        for i in self.same(st, idx):
            n = None
            if at and equal(at[1], lin((esz, i))):
                n = ("idx", s)
                self.add(st, "walk", s, at[0], esz)
            elif v[0] in ("c", "op") and i == v:
                n = s
            if n is None:
                continue
            if i == idx:
                self.go(st, w[0], (n,) + w[1][1:])
            else:
                st.ps = st.ps - {("same", i)} | {("same", n)}
            if i == ("c", 1):
                self.add(st, "same", i)
        for t in self.all(st, "rest"):
            if v[0] in ("c", "op", "cast") and equal(v, t[1], 32):
                st.ps = st.ps - {t} | {("rest", s)}
        old = ("old",) + s[1:]
        st.ps = frozenset(t for t in st.ps if not (t[0] == "same" and (t[1][0] == "c" and t[1][1] > 1 or contains(t[1], old)) or t[0] == "walk" and t[1] == old))

    def less(self, eng, st, a, b):
        """truth of a < b if known; an index that is not the count has not reached it"""
        r = order(eng, st, a, b)
        w = self.where(st)
        if r is None and w and w[1] and w[1] != "tagged":
            esz = self.size(w[0])
            for i in self.same(st, a) if a == w[1][0] else [a]:
                r = order(eng, st, i, b) if r is None and i != a else r
                for (p, x, y), v in st.facts.items():
                    if r is None and esz and p in ("ult", "eq") and "c" not in (x[0], y[0]):
                        (bx, ox), (by, oy) = self.at(eng, st, x), self.at(eng, st, y)
                        if bx == by and bx[0] not in ("c", "op"):
                            if equal(ox, lin((esz, i))) and equal(oy, lin((esz, b))):
                                r = v if p == "ult" else not v
                            elif equal(oy, lin((esz, i))) and equal(ox, lin((esz, b))) and (p == "eq" or v):
                                r = not v if p == "eq" else False
            if r is None and (a, b) == w[1][:2]:
                for t in self.all(st, "rest"):
                    if eng.iszero(st, t[1]) is not None:
                        r = not eng.iszero(st, t[1])
        return r

    def complete(self, eng, st, k, ph):
        idx, cnt, did = ph
        if eng.iszero(st, cnt) is True:
            return True
        if "moved" in did:
            return "copied" in did or self.skips(eng, st, k)
        if did:
            return False
        if self.one(st, "pend") is not None:
            return False
        if self.less(eng, st, idx, cnt) is False and not (idx[0] == "c" and cnt[0] == "c" and idx[1] < cnt[1]):
            return True
        for (p, x, y), v in st.facts.items():
            if p == "eq" and v and {strip(x), strip(y)} == {idx, cnt}:
                return True
        return False

    def skips(self, eng, st, k):
        return False

    def settle(self, eng, st, x):
        """finishes an array whose elements are all there; False if some are missing"""
        k, ph = self.where(st)
        if ph is None:
            return True
        if ph == "tagged":
            self.go(st, k + 1)
            return True
        if not self.complete(eng, st, k, ph):
            self.bad(eng, st, x, "not all elements of %s are %s before the next item" % (self.what(k), self.VERB))
            return False
        self.go(st, k + 1)
        return True

    def finish(self, eng, st, x):
        if self.all(st, "dead"):
            return False
        if not self.settle(eng, st, x):
            return False
        k, _ = self.where(st)
        if k != len(self.items):
            self.bad(eng, st, x, "%s is not %s" % (self.what(k), self.VERB))
            return False
        self.bump("payload complete")
        return True

    # the buffer --------------------------------------------------------------------------------------------------
    def isbuf(self, st, t):
        return ("buf", t) in st.ps

    def ver(self, st, before=False):
        """the position in the message; before: where the elements of the array begin"""
        k, ph = self.where(st)
        if not ph or ph == "tagged":
            return ("idx", k, "")
        return ("idx", k, "behind" if "moved" in ph[2] and not before else "body")

    def load(self, eng, st, x, addr, val):
        if addr[0] == "f" and addr[2] == "gracht_buffer" and self.isbuf(st, addr[1]):
            k, ph = self.where(st)
            if ph and ph != "tagged" and ("moved" in ph[2] or not self.items[k].get("w")) and self.complete(eng, st, k, ph):
                self.go(st, k + 1)
            st.env[x.i] = ("data",) if addr[3] == "data" else self.ver(st)
            return
        base, off = self.at(eng, st, addr)
        if base == ("data",):
            if equal(off, self.ver(st), 32):
                st.env[x.i] = ("peek", x.ty) + self.ver(st)[1:]
            return
        self.value(eng, st, x, addr, base, off)

    def value(self, eng, st, x, addr, base, off):
        pass

    def advance(self, eng, st, x, addr, val):
        """a store to the position of the buffer"""
        if self.all(st, "dead"):
            return
        if any(addr[1] == t[1] for t in self.all(st, "fresh")):
            return
        k, ph = self.where(st)
        if ph and ph != "tagged":
            idx, cnt, did = ph
            w = self.items[k].get("w")
            if w and idx == C0 and "moved" not in did and equal(val, lin((1, self.ver(st)), (w, cnt)), 32):
                self.go(st, k, (idx, cnt, did | {"moved"}))
                return
        self.bad(eng, st, x, "the position in the message does not move by what was %s" % self.VERB)

    def store(self, eng, st, x, addr, val):
        if addr[0] == "f" and addr[2] == "gracht_buffer" and self.isbuf(st, addr[1]):
            if addr[3] == "index":
                self.advance(eng, st, x, addr, val)
            else:
                self.bad(eng, st, x, "the buffer of the message is exchanged")
            return
        if flat(addr)[0] == ("data",):
            return self.bad(eng, st, x, "the message is written outside of its items")
        self.put(eng, st, x, addr, val)

    def put(self, eng, st, x, addr, val):
        pass

    def call(self, eng, st, x, name, args):
        if name == "malloc" or name == "calloc":
            size = eng.binop("mul", args[0], args[1], 64) if name == "calloc" else args[0]
            return eng.fork(st, x, name, args, [("nonzero", st.ps | {("mal", ("result",), size)}), ("zero", st.ps | {("nomem",)})])
        if name in ("gracht_client_get_buffer", "gracht_server_get_buffer"):
            b = args[-1]
            return eng.fork(st, x, name, args, [("zero", st.ps | {("buf", b)}), ("nonzero", st.ps)])
        if name == "gracht_client_get_status_buffer":
            b = args[-1]
            return eng.fork(st, x, name, args, [(("c", 1), st.ps | {("buf", b)}), (C0, st.ps), (("c", -1), st.ps), (("c", -2), st.ps)])
        if name in ("memcpy", "memmove"):
            self.copy(eng, st, x, args)
            return None
        for p in ("serialize_", "deserialize_"):
            if name.startswith(p):
                if self.all(st, "dead"):
                    return None
                if not self.isbuf(st, args[0]):
                    self.bad(eng, st, x, "items are %s without the message" % self.VERB)
                    return None
                return self.codec(eng, st, x, name, p, name[len(p):], args)
        if self.all(st, "dead"):
            return None
        return self.other(eng, st, x, name, args)

    def other(self, eng, st, x, name, args):
        return None

    def raw(self, st, k, ph):
        """an array of values is expected that can be copied at once"""
        return ph and ph != "tagged" and self.items[k].get("w") and ph[0] == C0 and "copied" not in ph[2]

    def struct(self, t):
        return self.acc["structs"].get(t)


class Send(Wire):
    VERB = "written"

    def value(self, eng, st, x, addr, base, off):
        """loads of members of the structure, and of elements of arrays"""
        if self.ROLE == "codec":
            n = self.member(addr)
            if n is not None:
                st.env[x.i] = ("val", n)
                return
        for it in self.items:
            if it["kind"] == "arr" and it.get("w") and base == it["src"]:
                st.env[x.i] = ("elt", base, off)
                return

    def member(self, addr):
        n = None
        while addr[0] in ("f", "x"):
            if addr[0] == "x" and addr[2] != C0:
                return None
            if addr[0] == "f" and addr[1] == ("a", 1):
                n = addr[3]
            addr = addr[1]
        return n if addr == ("a", 1) else None

    def place_of(self, addr):
        """the name of the member an address designates"""
        if addr == ("a", 1):
            return self.acc["first"].get(self.f)
        return self.member(addr)

    def src(self, st, it, val, w):
        """the value of the item"""
        v = lossless(val, w)
        return v is not None and v == it["src"]

    def codec(self, eng, st, x, name, p, ty, args):
        if p != "serialize_" or len(args) != 2:
            return self.bad(eng, st, x, "a message that is written is read")
        k, ph = self.where(st)
        if k < 0:
            w = WIDTH.get(ty)
            self.acc.setdefault("headers", {}).setdefault(self.f, {}).setdefault(k + self.header, set()).add((w, args[1]))
            self.go(st, k + 1)
            return None
        w = WIDTH.get(ty)
        val = args[1]
        if ph and ph != "tagged":
            idx, cnt, did = ph
            it = self.items[k]
            if not did:
                if it.get("S") and ty == it["S"]:
                    b, off = self.at(eng, st, val)
                    if b == it["src"] and self.here(eng, st, off, self.size(k), idx):
                        if self.less(eng, st, idx, cnt) is not True:
                            return self.bad(eng, st, x, "more elements of %s are written than were announced" % self.what(k))
                        self.bump("element written")
                        return self.forward(eng, st, k, ph)
                    return self.bad(eng, st, x, "the elements of %s are not written one after the other" % self.what(k)) if b == it["src"] else \
                        self.next(eng, st, x, ty, w, val)
                if it.get("w") and w == it["w"] and val[0] in ("elt", "cast"):
                    v = lossless(val, w)
                    if v is not None and v[0] == "elt" and v[1] == it["src"] and self.here(eng, st, v[2], w, idx) and self.less(eng, st, idx, cnt) is True:
                        self.bump("element written")
                        return self.forward(eng, st, k, ph)
        return self.next(eng, st, x, ty, w, val)

    def next(self, eng, st, x, ty, w, val):
        k, ph = self.where(st)
        if ph == "tagged":
            it = self.items[k]
            c = eng.const(st, ("val", it["tag"]))
            for n, e in enumerate(it["entries"]):
                if self.matches(st, e, ty, w, val, ("val", it["cell"])):
                    if c is None:
                        return self.bad(eng, st, x, "an entry of variant %s is written without looking at its tag" % self.what(k))
                    self.acc["tags"].setdefault((self.f, it["cell"]), {}).setdefault("write", {}).setdefault(c, set()).add(n)
                    self.bump("variant entry written")
                    return self.go(st, k + 1)
        if not self.settle(eng, st, x):
            return None
        k, _ = self.where(st)
        if k >= len(self.items):
            return self.bad(eng, st, x, "more is written than the description says")
        it = self.items[k]
        if it["kind"] == "arr":
            if w == 4 and self.src(st, {"src": it["cnt"]}, val, 4):
                self.bump("count written")
                return self.go(st, k, (C0, it["cnt"], frozenset()))
        elif it["kind"] == "tag":
            if w == 1 and lossless(val, 1) == ("val", it["tag"]):
                return self.go(st, k, "tagged")
        elif self.matches(st, it, ty, w, val, it["src"]):
            self.bump("item written")
            return self.go(st, k + 1)
        self.bad(eng, st, x, "%s is not what is written next" % self.what(k))

    def matches(self, st, it, ty, w, val, src):
        if it["kind"] == "val":
            return w == it["w"] and lossless(val, w) == src and (ty in ("float", "double")) == bool(it.get("fp"))
        if it["kind"] == "str":
            return ty == "string" and val == src
        if it["kind"] == "struct":
            if ty != it["S"]:
                return False
            if self.ROLE == "codec":
                return ("val", self.place_of(val)) == src
            return val == src
        return False

    def copy(self, eng, st, x, args):
        b, parts = flat(args[0])
        if b != ("data",) or self.all(st, "dead"):
            return
        k, ph = self.where(st)
        if self.raw(st, k, ph):
            it = self.items[k]
            if equal(eng.offterm(parts), self.ver(st, True), 32) and strip(args[1]) == it["src"] and equal(args[2], lin((it["w"], ph[1]))):
                self.bump("elements copied into the message")
                return self.go(st, k, (ph[0], ph[1], ph[2] | {"copied"}))
        self.bad(eng, st, x, "what is copied into the message is not exactly %s" % self.what(k))

    def other(self, eng, st, x, name, args):
        if name in ("gracht_client_invoke", "gracht_server_respond", "gracht_server_send_event", "gracht_server_broadcast_event"):
            if self.endcall is not None and name != self.endcall:
                self.bad(eng, st, x, "the message is handed to %s instead of %s" % (name, self.endcall))
            elif not any(self.isbuf(st, a) for a in args):
                self.bad(eng, st, x, "the message that was written is not the one that is sent")
            else:
                self.finish(eng, st, x)
                self.add(st, "sent")
        return None

    def ret(self, eng, st, x, val):
        if self.ROLE == "codec":
            self.finish(eng, st, x)
        elif self.all(st, "buf") and not self.all(st, "sent") and not self.all(st, "dead"):
            self.bad(eng, st, x, "the message is not sent")


class SendCodec(Send):
    ROLE = "codec"


class Recv(Wire):
    VERB = "read"

    def member(self, addr):
        return Send.member(self, addr)

    def place_of(self, addr):
        return Send.place_of(self, addr)

    def value(self, eng, st, x, addr, base, off):
        if self.ROLE == "codec":
            n = self.member(addr)
            for t in self.all(st, "out"):
                if t[1] == n:
                    st.env[x.i] = t[2]
                    return

    def put(self, eng, st, x, addr, val):
        if self.ROLE == "codec":
            n = self.member(addr)
            if n is not None:
                st.ps = frozenset(t for t in st.ps if t[:2] != ("out", n))
                return self.add(st, "out", n, val)
        elif self.ROLE == "result" and addr[0] == "a" and not any(it["kind"] == "arr" and it["dst"] == addr for it in self.items):
            st.ps = frozenset(t for t in st.ps if t[:2] != ("out", addr))
            return self.add(st, "out", addr, val)
        p = self.one(st, "pend")
        if p is not None:
            term, idx = p
            k, ph = self.where(st)
            it = self.items[k] if 0 <= k < len(self.items) else {}
            b, off = self.at(eng, st, addr)
            if ph and ph != "tagged" and it.get("w") and strip(val) == term and \
                    (equal(off, lin((it["w"], idx))) or self.here(eng, st, lin((1, off), (it["w"], ("c", 1))), it["w"], ph[0])) and self.base(eng, st, x, k, it, b, ph, idx):
                st.ps = frozenset(t for t in st.ps if t[0] != "pend")

    def base(self, eng, st, x, k, it, b, ph, idx):
        """b is where the elements of the array belong"""
        if self.ROLE == "result":
            if b == it["dst"]:
                return self.less(eng, st, idx, it["room"]) is True
            return b[0] == "al" and self.less(eng, st, idx, it["room"]) is False
        o = [t[2] for t in self.all(st, "blk") if t[1] == k]
        if o:
            return o[0] == b
        size = [t[2] for t in self.all(st, "mal") if t[1] == b]
        if not size:
            return False
        esz = it.get("w") or self.acc["size"].get(it["S"])
        if not equal(size[0], lin((esz, ph[1]))):
            return False
        self.add(st, "blk", k, b)
        return True

    def codec(self, eng, st, x, name, p, ty, args):
        if p != "deserialize_":
            return self.bad(eng, st, x, "a message that is read is written")
        k, ph = self.where(st)
        w = WIDTH.get(ty)
        if ph and ph != "tagged":
            idx, cnt, did = ph
            it = self.items[k]
            if not did and it.get("S") and ty == it["S"] and not (self.less(eng, st, idx, cnt) is False):
                b, off = self.at(eng, st, args[1])
                if self.less(eng, st, idx, cnt) is not True:
                    return self.bad(eng, st, x, "more elements of %s are read than were announced" % self.what(k))
                if self.ROLE == "result" and b[0] == "al":
                    ok = self.less(eng, st, idx, it["room"]) is False
                else:
                    ok = self.here(eng, st, off, self.acc["size"][ty], idx) and self.base(eng, st, x, k, it, b, ph, idx)
                if not ok:
                    return self.bad(eng, st, x, "an element of %s is not read into its place" % self.what(k))
                self.bump("element read")
                return self.forward(eng, st, k, ph)
            if not did and it.get("w") and w == it["w"] and self.less(eng, st, idx, cnt) is True:
                if self.one(st, "pend") is not None:
                    return self.bad(eng, st, x, "an element of %s is not stored" % self.what(k))
                out = []
                for s in eng.default_call(st, x, name, args):
                    self.bump("element read")
                    t = strip(s.env[x.i])
                    i = self.where(s)[1][0]
                    self.forward(eng, s, k, self.where(s)[1])
                    self.add(s, "pend", t, i)
                    self.edge(eng, s, x, None)
                    out.append(s)
                return out
        if ph == "tagged":
            it = self.items[k]
            c = eng.const(st, strip(self.got(st, k)))
            if c is not None:
                for n, e in enumerate(it["entries"]):
                    if self.fits(e, ty, w):
                        self.acc["tags"].setdefault((self.f, it["cell"]), {}).setdefault("read", {}).setdefault(c, set()).add(n)
                        self.bump("variant entry read")
                        self.add(st, "used", k)
                        self.go(st, k + 1)
                        return self.take(eng, st, x, (k, n), dict(e, out=it["cell"]), name, ty, args)
        if not self.settle(eng, st, x):
            return None
        k, _ = self.where(st)
        if k >= len(self.items):
            return self.bad(eng, st, x, "more is read than the description says")
        it = self.items[k]
        if it["kind"] == "arr":
            if w == 4:
                self.bump("count read")
                out = []
                for s in eng.default_call(st, x, name, args):
                    t = strip(s.env[x.i])
                    self.go(s, k, (C0, t, frozenset()))
                    self.add(s, "got", k, t)
                    out.append(s)
                return out
        elif it["kind"] == "tag":
            if w == 1:
                out = []
                for s in eng.default_call(st, x, name, args):
                    self.go(s, k, "tagged")
                    self.add(s, "got", k, strip(s.env[x.i]))
                    out.append(s)
                return out
        elif self.fits(it, ty, w):
            self.bump("item read")
            self.go(st, k + 1)
            return self.take(eng, st, x, k, it, name, ty, args)
        self.bad(eng, st, x, "%s is not what is read next" % self.what(k))

    def edge(self, eng, st, x, succ):
        p = self.one(st, "pend")
        if p is not None and self.ROLE == "result" and self.less(eng, st, p[1], self.items[self.where(st)[0]]["room"]) is False:
            self.drop(st, "pend")       # no room for the element

    def got(self, st, k):
        for t in self.all(st, "got"):
            if t[1] == k:
                return t[2]
        return ("u",)

    def fits(self, it, ty, w):
        if it["kind"] == "val":
            return w == it["w"] and (ty in ("float", "double")) == bool(it.get("fp"))
        if it["kind"] == "str":
            return ty in ("string_copy", "string_nocopy")
        return it["kind"] == "struct" and ty == it["S"]

    def take(self, eng, st, x, k, it, name, ty, args):
        if it["kind"] == "struct":
            a = args[1]
            if self.ROLE == "codec":
                if self.place_of(a) != it["out"]:
                    return self.bad(eng, st, x, "'%s' is read into another place" % it["name"])
            elif self.ROLE == "result":
                if a != it["dst"]:
                    return self.bad(eng, st, x, "'%s' is read into another place" % it["name"])
            self.add(st, "got", k, a)
            return None
        if ty == "string_copy":
            if self.ROLE == "result":
                if (strip(args[1]), strip(args[2])) != (it["dst"], it["room"]):
                    return self.bad(eng, st, x, "'%s' is not read into the room provided for it" % it["name"])
                self.add(st, "got", k, it["dst"])
                return None
            m = strip(args[2])
            pk = [t for t in self.peeks(m)]
            size = [t[2] for t in self.all(st, "mal") if t[1] == strip(args[1])]
            if len(pk) != 1 or not self.fresh_peek(st, k, pk[0]) or not equal(m, lin((1, pk[0]), (1, ("c", 1))), 32) or not size or not equal(size[0], m, 32):
                return self.bad(eng, st, x, "'%s' is not read completely" % it["name"])
            self.add(st, "got", k, strip(args[1]))
            return None
        out = []
        for s in eng.default_call(st, x, name, args):
            self.add(s, "got", k, strip(s.env[x.i]))
            out.append(s)
        return out

    def peeks(self, t):
        ls = set()
        leaves(t, ls)
        return ls

    def fresh_peek(self, st, k, t):
        """the length was read at the position of the item"""
        n = k[0] if isinstance(k, tuple) else k
        if t[0] != "peek" or t[1] != "i32" or t[3] != "":
            return False
        return t[2] == n or (t[2] == n - 1 and self.items[n - 1]["kind"] == "tag" and not any(g[1] == n - 1 for g in self.all(st, "used")))

    def skips(self, eng, st, k):
        return self.ROLE == "result" and eng.iszero(st, self.items[k]["room"]) is True

    def copy(self, eng, st, x, args):
        b, parts = flat(args[1])
        if b != ("data",) or self.all(st, "dead"):
            return
        k, ph = self.where(st)
        if self.raw(st, k, ph):
            it = self.items[k]
            if equal(eng.offterm(parts), self.ver(st, True), 32):
                cnt = ph[1]
                d = strip(args[0])
                if self.ROLE == "result":
                    room = it["room"]
                    full = equal(args[2], lin((it["w"], cnt))) and (self.less(eng, st, cnt, room) is True or self.less(eng, st, room, cnt) is False)
                    part = equal(args[2], lin((it["w"], room))) and (self.less(eng, st, cnt, room) is False or self.less(eng, st, room, cnt) is True)
                    ok = d == it["dst"] and (full or part)
                else:
                    ok = equal(args[2], lin((it["w"], cnt))) and self.base(eng, st, x, k, it, d, ph, C0)
                if ok:
                    self.bump("elements copied out of the message")
                    return self.go(st, k, (ph[0], ph[1], ph[2] | {"copied"}))
        self.bad(eng, st, x, "what is copied out of the message is not exactly %s" % self.what(k))

    # deliveries --------------------------------------------------------------------------------------------------
    def outs(self, st):
        return {t[1]: t[2] for t in self.all(st, "out")}

    def ret(self, eng, st, x, val):
        if self.all(st, "dead"):
            return
        if self.ROLE == "codec":
            if not self.finish(eng, st, x):
                return
            o = self.outs(st)
            for k, it in enumerate(self.items):
                g = self.got(st, k)
                if it["kind"] == "tag":
                    if strip(o.get(it["tag"], ("u",))) != g:
                        return self.bad(eng, st, x, "the tag of variant '%s' is not kept" % it["name"])
                    for n, e in enumerate(it["entries"]):
                        v = self.got(st, (k, n))
                        if v != ("u",) and e["kind"] != "struct" and strip(o.get(it["cell"], ("u",))) != v:
                            return self.bad(eng, st, x, "the entry '%s' of variant '%s' is not kept" % (e["name"], it["name"]))
                elif it["kind"] == "arr":
                    if strip(o.get(it["out"] + "_count", ("u",))) != g:
                        return self.bad(eng, st, x, "the number of elements of '%s' is not kept" % it["name"])
                    if eng.iszero(st, g) is not True:
                        b = [t[2] for t in self.all(st, "blk") if t[1] == k]
                        if not b or o.get(it["out"]) != b[0]:
                            if self.less(eng, st, C0, g) is not False:
                                return self.bad(eng, st, x, "the elements of '%s' are not kept" % it["name"])
                elif it["kind"] != "struct":
                    if lossless(o.get(it["out"], ("u",)), it.get("w") or 8) != g:
                        return self.bad(eng, st, x, "'%s' is not kept" % it["name"])
            self.bump("structure read")
        elif self.ROLE == "result":
            if not self.all(st, "buf"):
                return
            if not self.finish(eng, st, x):
                return
            o = self.outs(st)
            for k, it in enumerate(self.items):
                if it["kind"] == "val" and lossless(o.get(it["dst"], ("u",)), it["w"]) != self.got(st, k):
                    return self.bad(eng, st, x, "the result '%s' is not passed on" % it["name"])
                if it["kind"] == "str" and self.got(st, k) != it["dst"]:
                    return self.bad(eng, st, x, "the result '%s' is not passed on" % it["name"])
            self.bump("results passed on")
        elif not self.all(st, "done") and not self.all(st, "nomem"):
            self.bad(eng, st, x, "the handler is not called")

    def other(self, eng, st, x, name, args):
        if self.ROLE != "handler" or not name.endswith("_invocation"):
            return None
        if name != self.endcall:
            return self.bad(eng, st, x, "%s is called instead of %s" % (name, self.endcall))
        if not self.finish(eng, st, x):
            return None
        j = 1
        for k, it in enumerate(self.items):
            if j >= len(args):
                return self.bad(eng, st, x, "the handler does not get '%s'" % it["name"])
            g = self.got(st, k)
            v = args[j]
            j += 1
            if it["kind"] == "arr":
                n = args[j] if j < len(args) else ("u",)
                j += 1
                if strip(n) != g:
                    return self.bad(eng, st, x, "the handler does not get the number of elements of '%s'" % it["name"])
                b = [t[2] for t in self.all(st, "blk") if t[1] == k]
                if eng.iszero(st, g) is not True and (not b or v != b[0]) and self.less(eng, st, C0, g) is not False:
                    return self.bad(eng, st, x, "the handler does not get the elements of '%s'" % it["name"])
            elif lossless(v, it.get("w") or 8) != g:
                return self.bad(eng, st, x, "the handler does not get '%s'" % it["name"])
        self.add(st, "done")
        self.bump("handler called")
        return None


class RecvCodec(Recv):
    ROLE = "codec"


class RecvResult(Recv):
    ROLE = "result"


class RecvHandler(Recv):
    ROLE = "handler"


class Primitive(Facts):
    """one primitive serializer or deserializer"""
    widen = True

    def __init__(self, mod, counts, name, acc):
        super().__init__(mod, counts)
        self.name, self.acc = name, acc
        self.w = WIDTH.get(name.split("_", 1)[1])

    def load(self, eng, st, x, addr, val):
        if addr[0] == "f" and addr[1] == ("a", 0) and addr[2] == "gracht_buffer":
            if addr[3] == "data":
                st.env[x.i] = ("data",)
            elif not self.all(st, "index"):
                st.env[x.i] = ("idx",)
            return
        b, parts = flat(addr)
        if b == ("data",):
            o = eng.offterm(parts)
            if equal(o, ("idx",), 32):
                st.env[x.i] = ("at", 0, x.ty)

    def store(self, eng, st, x, addr, val):
        if addr[0] == "f" and addr[1] == ("a", 0) and addr[2] == "gracht_buffer":
            self.set(st, addr[3], val)
            return
        b, parts = flat(addr)
        if b == ("data",) or b == ("a", 1):
            v = x.d["ops"][0]
            t = eng.fn.ins[v[1]].ty if v[0] == "i" else (eng.fn.args[v[1]] if v[0] == "a" else x.d.get("sty") or x.d.get("vty"))
            self.add(st, "put", b, eng.offterm(parts), val, t)

    def call(self, eng, st, x, name, args):
        if name in ("memcpy", "memmove"):
            self.add(st, "copy", args[0], args[1], args[2])
        elif name == "strlen":
            out = []
            for s in eng.default_call(st, x, name, args):
                s.env[x.i] = ("len", args[0])
                out.append(s)
            return out
        return None

    def ret(self, eng, st, x, val):
        m = self.verdict(eng, st, val)
        self.bump("primitive")
        if m:
            self.report(eng, st, x, "primitive", m)

    def moved(self, st, t):
        i = self.one(st, "index")
        return i is not None and equal(i, t, 32) and not self.all(st, "data")

    def verdict(self, eng, st, val):
        puts, copies = self.all(st, "put"), self.all(st, "copy")
        if self.w and self.name.startswith("serialize_"):
            if len(puts) != 1 or copies or not equal(puts[0][2], ("idx",), 32) or lossless(puts[0][3], self.w) != ("a", 1) or self.size(puts[0][4]) != self.w:
                return "the value is not written at the position of the message"
            return None if self.moved(st, lin((1, ("idx",)), (1, ("c", self.w)))) else "the position does not advance by the size of the value"
        if self.w:
            v = lossless(val, self.w)
            if puts or copies or v is None or v[0] != "at" or self.size(v[2]) != self.w:
                return "the value is not read from the position of the message"
            return None if self.moved(st, lin((1, ("idx",)), (1, ("c", self.w)))) else "the position does not advance by the size of the value"
        if self.name == "serialize_string":
            null = eng.iszero(st, ("a", 1)) is True
            n = C0 if null else ("len", ("a", 1))
            head = [f for f in puts if equal(f[2], ("idx",), 32)]
            empty = null or eng.iszero(st, n) is True or (len(head) == 1 and eng.iszero(st, head[0][3]) is True)
            L = C0 if empty else n
            if len(head) != 1 or not (equal(head[0][3], L, 32) or (empty and equal(head[0][3], n, 32))) or self.size(head[0][4]) != 4:
                return "the length of the string is not written"
            end = lin((1, ("idx",)), (1, ("c", 4)), (1, L))
            if not any(f[3] == C0 and equal(f[2], end, 64) for f in puts):
                return "the string is not terminated in the message"
            if not empty:
                ok = [f for f in copies if flat(f[1])[0] == ("data",) and equal(eng.offterm(flat(f[1])[1]), lin((1, ("idx",)), (1, ("c", 4))), 64)
                      and strip(f[2]) == ("a", 1) and (equal(f[3], n, 32) or equal(f[3], lin((1, n), (1, ("c", 1))), 32))]
                if len(ok) != 1 or len(copies) != 1:
                    return "the characters of the string are not copied"
            elif copies and not all(equal(f[3], C0) or equal(f[3], n, 32) for f in copies):
                return "characters are copied although the string is empty"
            return None if self.moved(st, lin((1, end), (1, ("c", 1)))) else "the position does not advance by the size of the string"
        n = ("at", 0, "i32")
        end = lin((1, ("idx",)), (1, n), (1, ("c", 5)))
        if self.name == "deserialize_string_nocopy":
            b, parts = flat(val)
            if b != ("data",) or not equal(eng.offterm(parts), lin((1, ("idx",)), (1, ("c", 4))), 64):
                return "what is returned is not the string"
            return None if self.moved(st, end) else "the position does not advance by the size of the string"
        # deserialize_string_copy(buffer, out, room)
        room = ("a", 2)
        if not self.moved(st, end):
            return "the position does not advance by the size of the string"
        if eng.iszero(st, room) is True:
            return "the output is written although it has no room" if puts or copies else None
        ends = [f for f in puts if f[1] == ("a", 1) and f[3] == C0]
        if len(ends) != 1:
            return "the output is not terminated"
        k = ends[0][2]
        bad = None
        for ln, rm in ((0, 1), (1, 1), (1, 2), (5, 2), (5, 5), (5, 6), (5, 64), (300, 64), (300, 301), (70000, 300)):
            env = {n: ln, room: rm, ("idx",): 64}
            if not all(self.holds(at, v, env) for at, v in st.facts.items()):
                continue
            want = min(ln, rm - 1)
            try:
                if bits.ev(k, env) != want:
                    bad = "the output is not terminated behind the characters there is room for"
                c = [f for f in copies if flat(f[1])[0] == ("a", 1)]
                if want and (len(c) != 1 or flat(c[0][1])[1] or bits.ev(c[0][3], env) != want or flat(c[0][2])[0] != ("data",)
                             or bits.ev(eng.offterm(flat(c[0][2])[1]), env) != 68):
                    bad = "the output does not get the characters there is room for"
            except bits.Open:
                bad = "what the output gets can not be determined"
        return bad

    def holds(self, at, v, env):
        try:
            return bits.truth(at, env) == v
        except bits.Open:
            return True

    def size(self, ty):
        return {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}.get(ty, 0)


# what the descriptions say ------------------------------------------------------------------------------------------
class Spec:
    def __init__(self, c):
        self.c = c
        self.structs = {}
        for s in c.structs + getattr(c, "imported", []):
            self.structs[s.name] = s

    def kind(self, ty):
        if ty == "string":
            return {"kind": "str"}
        if ty in self.structs:
            return {"kind": "struct", "S": "%s_%s" % (self.structs[ty].ns, ty)}
        return {"kind": "val", "w": WIDTH.get(ty, 4), "fp": ty in ("float", "double")}

    def item(self, v):
        d = dict(self.kind(v.ty), name=v.name)
        if v.arr:
            d["kind"] = "arr"
        return d

    def sent(self, vs, first):
        """values passed as arguments"""
        out, j = [], first
        for v in vs:
            d = self.item(v)
            d["src"] = ("a", j)
            j += 1
            if v.arr:
                d["cnt"] = ("a", j)
                j += 1
            out.append(d)
        return out

    def results(self, vs, first):
        out, j = [], first
        for v in vs:
            d = self.item(v)
            d["dst"] = ("a", j)
            j += 1
            if v.arr or v.ty == "string":
                d["room"] = ("a", j)
                j += 1
            out.append(d)
        return out

    def handler(self, vs):
        return [self.item(v) for v in vs]

    def members(self, s):
        """the members of a structure with those of what it extends"""
        out = []
        for e in s.extends:
            out += self.members(self.structs[e])
        return out + s.members

    def struct(self, s, reading):
        out = []
        for m in self.members(s):
            if isinstance(m, gen.Variant):
                out.append({"kind": "tag", "name": m.name, "tag": m.name + "_type", "cell": m.name,
                            "entries": [self.item(e) for e in m.entries]})
                continue
            d = self.item(m)
            d["out"] = m.name
            d["src"] = ("val", m.name)
            d["cnt"] = ("val", m.name + "_count")
            out.append(d)
        return out


class Accessor(Facts):
    """set and is functions of variants"""

    def __init__(self, mod, counts, cell, kind, n, acc):
        super().__init__(mod, counts)
        self.cell, self.kind, self.n, self.acc = cell, kind, n, acc

    def load(self, eng, st, x, addr, val):
        if addr[0] == "f" and addr[1] == ("a", 0) and addr[3] == self.cell[1] + "_type":
            st.env[x.i] = ("tag",)

    def store(self, eng, st, x, addr, val):
        if addr[0] == "f" and addr[1] == ("a", 0) and addr[3] == self.cell[1] + "_type":
            self.set(st, "tag", val)

    def ret(self, eng, st, x, val):
        t = self.acc["tags"].setdefault(self.cell, {}).setdefault(self.kind, {})
        self.bump("variant accessor")
        if self.kind == "set":
            v = self.one(st, "tag")
            if v is None or v[0] != "c":
                return self.report(eng, st, x, "variant", "the tag of the variant is not set")
            t.setdefault(v[1], set()).add(self.n)
            return
        for n in range(256):
            env = {("tag",): n}
            try:
                if all(bits.truth(at, env) == v for at, v in st.facts.items()) and bits.ev(val, env):
                    t.setdefault(n, set()).add(self.n)
            except bits.Open:
                return self.report(eng, st, x, "variant", "the tag of the variant is not what is asked for")


def shared(ctx, c, d, s, keep, tag):
    """the functions every unit of the service has: serializers and functions of the structures"""
    src = os.path.join(d, "shared_%s_%s.c" % (s.ns, s.name))
    open(src, "w").write("#include \"%s_%s_service.h\"\n" % (s.ns, s.name))
    o = src[:-2] + ".bc"
    build.run([build.CLANG, "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w", "-emit-llvm", "-c", src,
               "-o", o, "-I", d, "-I", os.path.join(build.REPO, "include"), "-Dstatic=static __attribute__((used))"], error=build.Rejected)
    m = ir.Module(build.export([o], keep, ctx.scratch, tag))
    return m, engine.Effects(m, [])


def stubs(sp, s):
    """(side, function, class, items, keywords) of every generated function that deals with a payload"""
    P = "%s_%s" % (s.ns, s.name)
    for m in s.members:
        if isinstance(m, gen.Func):
            yield "client", "%s_%s" % (P, m.name), Send, sp.sent(m.params, 2), dict(header=5, end="gracht_client_invoke"), m
            yield "server", "__%s_%s_internal" % (P, m.name), RecvHandler, sp.handler(m.params), \
                dict(buf=("a", 1), end="%s_%s_invocation" % (P, m.name)), m
            if m.results:
                yield "client", "%s_%s_result" % (P, m.name), RecvResult, sp.results(m.results, 2), {}, m
                yield "server", "%s_%s_response" % (P, m.name), Send, sp.sent(m.results, 1), dict(header=5, end="gracht_server_respond"), m
        else:
            yield "server", "%s_event_%s_single" % (P, m.name), Send, sp.sent(m.params, 2), dict(header=5, end="gracht_server_send_event"), m
            yield "server", "%s_event_%s_all" % (P, m.name), Send, sp.sent(m.params, 1), dict(header=5, end="gracht_server_broadcast_event"), m
            yield "client", "__%s_%s_internal" % (P, m.name), RecvHandler, sp.handler(m.params), \
                dict(buf=("a", 1), end="%s_event_%s_invocation" % (P, m.name)), m


def check(ctx):
    counts = ctx.stats["rules"]
    us = gen.units(ctx, lambda c, s, side: gen.codec_names(c), ("client", "server"), "wire")
    done = set()
    n = 0
    for u in us:
        sp = Spec(u.corpus)
        d = os.path.join(ctx.scratch, "gen-" + u.corpus.tag)
        acc = {"tags": {}, "structs": sp.structs, "first": {}, "size": {}}
        for s in sp.structs.values():
            f = sp.members(s)[0]
            acc["first"]["%s_%s" % (s.ns, s.name)] = f.name
        key = (u.corpus.tag, u.service.name)
        if key not in done:
            done.add(key)
            mod, eff = shared(ctx, u.corpus, d, u.service, gen.codec_names(u.corpus), "shared-%s-%s" % key)
            u.corpus.sizes = sizes(mod, sp)
            acc["size"] = u.corpus.sizes
            prims(ctx, mod, eff, counts)
            for s in sp.structs.values():
                S = "%s_%s" % (s.ns, s.name)
                if ("serialize_" + S) not in mod.bybase and s.ns != u.corpus.ns:
                    continue
                for cls, nm in ((SendCodec, "serialize_"), (RecvCodec, "deserialize_")):
                    items = sp.struct(s, cls is RecvCodec)
                    ctx.run(lambda f: made(cls, mod, counts, S, items, acc, buf=("a", 0)), [mod.get(nm + S)], mod=mod, eff=eff)
                for m in s.members:
                    if isinstance(m, gen.Variant):
                        for k, e in enumerate(m.entries):
                            for kind in ("set", "is"):
                                ctx.run(lambda f: Accessor(mod, counts, (S, m.name), kind, k, acc), [mod.get("%s_%s_%s_%s" % (S, m.name, kind, e.ty))], mod=mod, eff=eff)
                for m in sp.members(s):
                    if isinstance(m, gen.Variant):
                        variants(ctx, acc, S, m, mod)
        acc["size"] = u.corpus.sizes
        for side, name, cls, items, kw, m in stubs(sp, u.service):
            if side == u.side:
                ctx.need(u.mod.bybase.get(name), "the generated function %s does not exist" % name)
                n += 1
                ctx.run(lambda f: cls(u.mod, counts, name, items, acc, **kw), [u.mod.get(name)], mod=u.mod, eff=u.eff)
    ctx.extra["generated_functions"] = n
    ctx.need(n > 100, "hardly any generated functions")
    for k in ("item written", "item read", "count written", "count read", "elements copied into the message", "elements copied out of the message", "element written",
              "element read", "variant entry written", "variant entry read", "handler called", "results passed on", "structure read", "primitive", "variant accessor"):
        ctx.need(counts.get(k), "no instance of: " + k)


def made(cls, mod, counts, S, items, acc, **kw):
    m = cls(mod, counts, S, items, acc, **kw)
    m.f = S
    return m


def sizes(mod, sp):
    out = {}
    for s in sp.structs.values():
        t = mod.structs.get("struct.%s_%s" % (s.ns, s.name))
        if t:
            out["%s_%s" % (s.ns, s.name)] = t["size"]
    return out


def prims(ctx, mod, eff, counts):
    for n in list(WIDTH) + ["string"]:
        for p in ("serialize_", "deserialize_"):
            for q in ([p + n] if n != "string" or p == "serialize_" else [p + "string_copy", p + "string_nocopy"]):
                if q not in mod.bybase:
                    ctx.need(n in ("intptr_t", "ptrdiff_t"), "%s does not exist" % q)
                    continue
                ctx.run(lambda f: Primitive(mod, counts, q, None), [mod.get(q)], mod=mod, eff=eff)


def variants(ctx, acc, S, m, mod):
    f = mod.get("serialize_" + S)
    t = acc["tags"].get((S, m.name), {})
    want = None
    for kind in ("write", "read", "set", "is"):
        got = t.get(kind, {})
        ctx.oblige("tags of a variant agree", len(m.entries))
        one = {c: next(iter(e)) for c, e in got.items() if len(e) == 1}
        if len(one) != len(got) or sorted(one.values()) != list(range(len(m.entries))):
            ctx.report(f.base, f.file, f.base, "variant", "variant '%s' of %s: not every entry has exactly one tag when it is %s" %
                       (m.name, S, {"write": "written", "read": "read", "set": "set", "is": "asked for"}[kind]))
            return
        if want is None:
            want = one
        elif want != one:
            return ctx.report(f.base, f.file, f.base, "variant", "variant '%s' of %s: a tag means different entries to those who set, ask for, write and read it" % (m.name, S))
