"""C23: the registered handler, and only it, serves a message; unknown actions are answered with an error."""
from gv.engine import C0, flat, label, root
from gv.facts import Facts, plus, strip

LEVEL = "other"
RULE = ("value-flow analysis of the dispatch on both ends: the service is looked up by the service id of the received header, the handler is the one "
        "whose id equals the action id of that header among the registered functions of that service (all of them are searched, none beyond them), "
        "it is called exactly once with the message it is for, positioned behind the header; if and only if none is found the server sends one error event "
        "with the id of the message to the client it came from; registering enters exactly the service it is given (on a server only if none with its "
        "number was found) and unregistering removes exactly that one")
PF, P, MSG, BUF = "gracht_protocol_function", "gracht_protocol", "gracht_message", "gracht_buffer"
CONTROL = ("gracht_control_event_error_single", "gracht_control_event_error_all")


class Dispatch(Facts):
    def __init__(self, mod, counts, server):
        super().__init__(mod, counts)
        self.server = server

    # header fields ----------------------------------------------------------------------------------------------
    def header(self, eng, v, n, ty):
        """v is the header field at offset n: the (data, index) of the message it is from"""
        o = self.origin(eng, v)
        if o is None or self.width(eng, v) != ty:
            return None
        b, s, k = self.place(eng, o)
        if self.server:
            return (b, s) if b == ("f", ("a", 1), MSG, "payload") and k == n and s is not None and self.field(eng, s, ("a", 1), MSG, "index") else None
        d = self.origin(eng, b)
        if d is None or label(d) != (BUF, "data") or k != n or s is None:
            return None
        i = self.origin(eng, s)
        return (b, s) if i == ("f", root(d), BUF, "index") else None

    # positions in the function table: (base, symbol, number) ----------------------------------------------------
    def functions(self, eng, st, b):
        """b is the function table of the service that was looked up"""
        o = self.origin(eng, b) if b is not None else None
        return o is not None and any(o == ("f", t[1], P, "functions") for t in self.all(st, "service"))

    def pointer(self, eng, st, b):
        return self.functions(eng, st, b) or any(p[1] == b for p in self.all(st, "pointer"))

    def position(self, eng, st, t):
        """position a pointer into the table, or an index, stands for"""
        t = strip(t)
        if t[0] == "x" or self.pointer(eng, st, t):
            b, parts = flat(t)
            s, n = None, 0
            for i, sc in parts:
                p, k = plus(i)
                if p is not None and s is not None:
                    return None
                s, n = s if p is None else p, n + k
            return (b, s, n)
        return (self.one(st, "table"),) + plus(t)

    def equal(self, eng, st, a, b):
        return self.alike(eng, st, a, b) or a is not None and b is not None and a[1:] == b[1:] and (a[0] is None or b[0] is None)

    def alike(self, eng, st, a, b):
        return a is not None and b is not None and a[1:] == b[1:] and (a[0] == b[0] or self.functions(eng, st, a[0]) and self.functions(eng, st, b[0]))

    def counted(self, eng, st, t):
        """the side of a comparison that is the end of the table"""
        t = strip(t)
        if t[0] == "x":
            b, parts = flat(t)
            if len(parts) != 1:
                return False
            t = strip(parts[0][0])
        o = self.origin(eng, t)
        return o is not None and label(o) == (P, "num_functions") and any(root(o) == f[1] for f in self.all(st, "service"))

    # ------------------------------------------------------------------------------------------------------------
    def rename(self, eng, st, v, s):
        q = self.position(eng, st, v)
        for t in list(st.ps):
            if t[0] in ("seen", "within") and self.equal(eng, st, q, t[1]):
                st.ps = st.ps - {t}
                if v[0] in ("x", "f") or self.functions(eng, st, v):
                    st.ps = st.ps | {("pointer", s), (t[0], (s, None, 0))}
                else:
                    st.ps = st.ps | {(t[0], (t[1][0], s, 0))}

    def load(self, eng, st, x, addr, val):
        if label(addr) == (P, "functions") and any(root(addr) == t[1] for t in self.all(st, "service")):
            self.set(st, "table", val)
        if label(addr) == (PF, "id") and val[0] == "v":
            e = element(addr)
            b, parts = flat(e)
            if self.pointer(eng, st, b):
                st.ps = frozenset(f for f in st.ps if f[0] != "id" or f[1] != val) | {("id", val, self.position(eng, st, e))}
                # the table was just read
                st.facts[("eq", b, C0)] = False
                st.facts[("eq", e, C0)] = False

    def edge(self, eng, st, x, succ):
        seen = self.one(st, "seen")
        for at, v in list(st.facts.items()):
            for l, r in ((at[1], at[2]), (at[2], at[1])):
                if self.counted(eng, st, l):
                    m = self.position(eng, st, r)
                    if at[0] == "eq" or l == at[2]:
                        # m < count, or m != count
                        if v is (at[0] != "eq"):
                            self.set(st, "within", m)
                        elif self.equal(eng, st, m, seen):
                            self.add(st, "end")
                elif any(self.counted(eng, st, y) for y in terms(l)):
                    self.add(st, "asked")
        for at, v in list(st.facts.items()):
            for l, r in ((at[1], at[2]), (at[2], at[1])):
                if at[0] != "eq":
                    continue
                for f in [f for f in st.ps if f[0] == "id" and f[1] == strip(l)]:
                    h = self.header(eng, r, 9, "i8")
                    if h is None or f[2] is None:
                        continue
                    i = f[2]
                    if not self.all(st, "first"):
                        self.add(st, "first", "other" if i[1] is not None else "const" if i[2] else "zero")
                    if v:
                        w = self.one(st, "within")
                        ok = self.one(st, "first") == "other" or w is not None and i[1] == w[1] and i[2] <= w[2] and self.alike(eng, st, i, w[:1] + i[1:])
                        self.set(st, "match", f[2], h, bool(ok))
                        st.ps = st.ps - {f}
                    elif self.equal(eng, st, i, seen):
                        seen = (i[0], i[1], i[2] + 1)
                        self.set(st, "seen", seen)
                        st.ps = st.ps - {f}

    def call(self, eng, st, x, name, args):
        if name == "gr_hashtable_get" and label(args[0]) in (("gracht_server", "protocols"), ("gracht_client", "protocols")):
            self.bump("service looked up")
            h = self.header(eng, self.cell(eng, st, ("f", args[1], P, "id")), 8, "i8")
            if h is None:
                self.report(eng, st, x, "service", "the service is not looked up by the service id of the message")
            self.set(st, "seen", (None, None, 0))
            return eng.fork(st, x, name, args, [("nonzero", st.ps | {("service", ("result",))}), ("zero", st.ps | {("unknown",)})])
        if name == "slot:client_link_ops.recv":
            st.ps = frozenset()
        if name == "slot:gracht_protocol_function.address":
            self.bump("handler called")
            o = self.origin(eng, eng.val(st, x.d["callee"]))
            m = self.one(st, "match")
            if self.all(st, "invoked"):
                self.report(eng, st, x, "twice", "a second handler is called for the same message")
            if m is None or o is None or not self.alike(eng, st, m[0], self.position(eng, st, element(o))):
                self.report(eng, st, x, "handler", "the handler that is called is not known to be the one that is registered for the action of the message")
            else:
                if not m[2]:
                    self.report(eng, st, x, "beyond", "a handler beyond the registered ones may be called")
                self.arguments(eng, st, x, args, m[1])
            self.add(st, "invoked")
            return None
        if name in CONTROL:
            self.bump("error answered")
            ok = name == CONTROL[0] and args[0] == ("a", 0) and self.field(eng, args[1], ("a", 1), MSG, "client") and \
                self.header(eng, args[2], 0, "i32") is not None and args[3] == ("c", 2)
            if not ok:
                self.report(eng, st, x, "error", "the error event does not name the message, or does not go to the client it came from")
            if self.all(st, "error") or self.all(st, "invoked"):
                self.report(eng, st, x, "error", "an error is reported for a message that was handled")
            self.add(st, "error")
        return None

    def arguments(self, eng, st, x, args, h):
        d = self.cell(eng, st, ("f", args[1], BUF, "data"))
        i = self.cell(eng, st, ("f", args[1], BUF, "index"))
        if self.server and args[0] != ("a", 1) or not self.server and args[0] != ("a", 0):
            self.report(eng, st, x, "argument", "the handler is not given the message it is for")
        s, n = plus(i)
        same = s is not None and (s == strip(h[1]) or self.origin(eng, s) is not None and self.origin(eng, s) == self.origin(eng, h[1]))
        if not same or flat(d)[0] != h[0] or n != 11:
            self.report(eng, st, x, "argument", "the handler is not given the payload behind the header")

    def ret(self, eng, st, x, val):
        if not self.all(st, "service") and not self.all(st, "unknown"):
            return
        self.bump("message checked")
        if self.all(st, "invoked"):
            return
        if self.all(st, "service"):
            f = self.one(st, "first")
            if f == "const" or f in ("zero", None) and not self.all(st, "end") and not (f is None and self.all(st, "asked")):
                self.report(eng, st, x, "missed", "a message is refused although not all registered handlers were considered")
        if self.server and not self.all(st, "error"):
            self.report(eng, st, x, "silent", "a message that nothing is registered for is not answered with an error")
        if not self.server and eng.iszero(st, val) is True:
            self.report(eng, st, x, "silent", "an event that nothing is registered for is reported as handled")


class Registry(Facts):
    """registering and unregistering services"""

    def __init__(self, mod, counts, struct, adds):
        super().__init__(mod, counts)
        self.struct, self.adds = struct, adds

    def key(self, eng, st, a):
        """the service that is named, or a key with its id"""
        return a == ("a", 1) or self.field(eng, self.cell(eng, st, ("f", a, P, "id")), ("a", 1), P, "id")

    def call(self, eng, st, x, name, args):
        if name not in ("gr_hashtable_get", "gr_hashtable_set", "gr_hashtable_remove") or args[0] != ("f", ("a", 0), self.struct, "protocols"):
            return None
        if not self.key(eng, st, args[1]) or name == "gr_hashtable_set" and args[1] != ("a", 1):
            self.report(eng, st, x, "registry", "another service than the one that is named is looked up, entered or removed")
        if name == "gr_hashtable_get":
            return eng.fork(st, x, name, args, [("nonzero", st.ps | {("present",)}), ("zero", st.ps | {("absent",)})])
        self.bump("registry changed")
        if (name == "gr_hashtable_set") is not self.adds:
            self.report(eng, st, x, "registry", "a service is %s" % ("removed when it is to be registered" if self.adds else "entered when it is to be removed"))
        if self.adds and self.struct == "gracht_server" and not self.all(st, "absent"):
            self.report(eng, st, x, "registry", "a service may replace another one that is registered under its number")
        self.add(st, "changed")
        return None

    def edge(self, eng, st, x, succ):
        for (p, a, b), v in list(st.facts.items()):
            for l, r in ((a, b), (b, a)):
                if p == "eq" and self.field(eng, l, ("a", 0), self.struct, "state") and r[0] == "c" and v is (r[1] != 1):
                    self.add(st, "stopped")

    def ret(self, eng, st, x, val):
        self.edge(eng, st, x, None)
        self.bump("registration checked")
        changed = bool(self.all(st, "changed"))
        excused = eng.iszero(st, ("a", 0)) is True or eng.iszero(st, ("a", 1)) is True or self.all(st, "stopped") or self.adds and self.all(st, "present")
        if not changed and not excused:
            self.report(eng, st, x, "registry", "a service is not %s" % ("registered" if self.adds else "unregistered"))
        if self.adds and eng.iszero(st, val) is not changed:
            self.report(eng, st, x, "registry", "whether the service is registered is not what is returned")


def element(o):
    return o[1] if o[0] == "f" and o[2] == PF else o


def terms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from terms(x)


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    ctx.run(lambda f: Dispatch(mod, counts, True), [mod.get("server_invoke_action")])
    ctx.run(lambda f: Dispatch(mod, counts, False), [mod.get("gracht_client_wait_message")])
    for n, s, adds in (("gracht_server_register_protocol", "gracht_server", True), ("gracht_server_unregister_protocol", "gracht_server", False),
                       ("gracht_client_register_protocol", "gracht_client", True), ("gracht_client_unregister_protocol", "gracht_client", False)):
        ctx.run(lambda f: Registry(mod, counts, s, adds), [mod.get(n)])
    ctx.need(counts.get("registry changed", 0) >= 4, "services are never registered or removed")
    for k in ("service looked up", "handler called", "message checked"):
        ctx.need(counts.get(k, 0) >= 2, "too few instances of: %s" % k)
