"""C08: both ends mean the same action by the same ids."""
from gv import gen
from gv.engine import C0, flat
from gv.facts import Facts, plus, strip

LEVEL = "other"
GENERATES = True        # that no code is generated from a valid description breaks the property
RULE = ("every generated stub, response and event, and the control protocol, is followed along every path up to the point where its message is handed over: the bytes of the header have been written at the offsets the runtime reads them from, "
        "with the service id, the action id and the kind of message that the description says; the tables of functions both ends register hold, for every action of the description, exactly one entry with its id, whose function leads to the handler of that action; "
        "the control protocol is registered by both ends and its two sides agree in ids and payload")
SYNC, ASYNC, EVENT, RESPONSE = 0, 1, 2, 3
SENDS = ("gracht_client_invoke", "gracht_server_respond", "gracht_server_send_event", "gracht_server_broadcast_event")
FIELDS = ((0, 4, "the id of the message"), (4, 4, "the length of the message"), (8, 1, "the service id"), (9, 1, "the action id"), (10, 1, "the kind of message"))
SIZES = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}


def unsigned(t, w):
    t = strip(t)
    return t[1] & ((1 << (8 * w)) - 1) if t[0] == "c" else None


def constant(mod, i, k):
    """the scalar at offset k of an initialiser"""
    if i[0] == "Z":
        return C0
    if i[0] == "c":
        return ("c", i[1]) if k == 0 else None
    if i[0] == "S" and i[1] in mod.structs:
        for f, e in zip(mod.structs[i[1]]["fields"], i[2]):
            if f[0] <= k < f[0] + f[1]:
                return constant(mod, e, k - f[0])
    return None


class Header(Facts):
    """ps: buf = the buffer obtained; h = what was written at an offset of the message"""

    def __init__(self, mod, counts, want, call, payload=(), client=None):
        super().__init__(mod, counts)
        self.want, self.sendcall, self.payload, self.client = want, call, payload, client

    def call(self, eng, st, x, name, args):
        if name in ("gracht_client_get_buffer", "gracht_server_get_buffer"):
            b = args[-1]
            out = eng.fork(st, x, name, args, [("zero", st.ps | {("buf", b)}), ("nonzero", st.ps)])
            for s in out:
                if ("buf", b) in s.ps:
                    s.mem[("f", b, "gracht_buffer", "index")] = C0
                    s.mem[("f", b, "gracht_buffer", "data")] = ("data",)
            return out
        if name in SENDS:
            self.sent(eng, st, x, name, args)
        elif name in ("memcpy", "memmove", "memset"):
            n = args[2]
            k = self.offset(eng, args[0]) if flat(args[0])[0] == ("data",) else None
            if k is not None:
                for o, w in self.cells():
                    if k <= o and (n[0] != "c" or o + w <= k + n[1]):
                        if name != "memset":
                            self.put(st, o, w, self.copied(eng, st, args[1], o - k, w))
                        elif args[1] == C0:
                            self.put(st, o, w, C0)
            elif flat(args[0])[0] == args[0] and name != "memset":
                self.add(st, "block", args[0], args[1])
        return None

    def cells(self):
        end = 11
        out = [f[:2] for f in FIELDS]
        for w, _ in self.payload:
            out.append((end, w))
            end += w
        return out

    def copied(self, eng, st, src, k, w):
        """what is at offset k of the source"""
        b, parts = flat(src)
        s, n = plus(eng.offterm(parts))
        if s is not None:
            return ("u",)
        k += n
        for a, v in st.mem.items():
            if a[0] in ("f", "x") and flat(a)[0] == b or a == b:
                base, s, n = self.place(eng, a)
                if s is None and n == k:
                    return v
        for t in self.all(st, "block"):
            if t[1] == b:
                return self.copied(eng, st, t[2], k, w)
        g = self.mod.globals.get(b[1]) if b[0] == "g" else None
        if g and g.get("const") and g.get("init"):
            return constant(self.mod, g["init"], k) or ("u",)
        return ("u",)

    def put(self, st, k, w, v):
        st.ps = frozenset(t for t in st.ps if t[0] != "h" or t[1] + t[2] <= k or t[1] >= k + w) | {("h", k, w, v)}

    def offset(self, eng, addr):
        b, parts = flat(addr)
        s, n = plus(eng.offterm(parts))
        return n if s is None else None

    def store(self, eng, st, x, addr, val):
        if flat(addr)[0] != ("data",):
            return
        k = self.offset(eng, addr)
        v = x.d["ops"][0]
        t = eng.fn.ins[v[1]].ty if v[0] == "i" else (eng.fn.args[v[1]] if v[0] == "a" else x.d.get("sty") or x.d.get("vty"))
        w = SIZES.get(t, 0)
        if k is not None and k < 24:
            self.put(st, k, w, val)

    def sent(self, eng, st, x, name, args):
        if name != self.sendcall:
            return self.report(eng, st, x, "ids", "the message goes to %s instead of %s" % (name, self.sendcall))
        b = [a for a in args if ("buf", a) in st.ps]
        if not b:
            return self.report(eng, st, x, "ids", "the message that is sent is not the one that was prepared")
        if self.client is not None and args[1] != self.client:
            return self.report(eng, st, x, "ids", "the event does not go to the client it is for")
        h = {t[1]: (t[2], t[3]) for t in self.all(st, "h")}
        for (o, w, what), v in zip(FIELDS, self.want):
            if v is None:
                continue
            got = h.get(o)
            if got is None or got[0] != w or unsigned(got[1], w) != v:
                return self.report(eng, st, x, "ids", "%s is not what the description says (%s instead of %s)" % (
                    what, "nothing" if got is None else unsigned(got[1], w) if unsigned(got[1], w) is not None else "a variable", v))
            self.bump("header field written")
        end = 11
        for w, v in self.payload:
            got = h.get(end)
            if got is None or got[0] != w or not (strip(got[1]) == v or v[0] == "c" and unsigned(got[1], w) == v[1]):
                return self.report(eng, st, x, "ids", "what follows the header is not what the other end reads")
            end += w
            self.bump("control item written")
        if self.payload:
            i = eng.read(st, ("f", b[0], "gracht_buffer", "index"))
            if i != ("c", end):
                return self.report(eng, st, x, "ids", "the message does not end behind its last item")
        self.add(st, "sent")

    def ret(self, eng, st, x, val):
        if self.all(st, "buf") and not self.all(st, "sent") and not self.found:
            self.report(eng, st, x, "ids", "the message is not sent")


def whole(t, w):
    """t without casts, unless they lose some of its w bytes"""
    while t[0] == "cast":
        if t[1] == "trunc" and int(t[3][1:]) < 8 * w:
            return None
        t = t[4]
    return t


class Control(Facts):
    """a function of the control protocol that takes a message apart"""

    def __init__(self, mod, counts, target, first, items):
        super().__init__(mod, counts)
        self.target, self.first, self.items = target, first, items

    def start(self, eng):
        return frozenset()

    def load(self, eng, st, x, addr, val):
        if addr[0] == "f" and addr[1] == ("a", 1) and addr[2] == "gracht_buffer":
            if addr[3] == "data":
                st.env[x.i] = ("data",)
            elif not self.all(st, "moved"):
                st.env[x.i] = ("idx",)
            return
        b, parts = flat(addr)
        if b == ("data",):
            s, n = plus(eng.offterm(parts))
            if s == ("idx",):
                st.env[x.i] = ("at", n, SIZES.get(x.ty, 0))

    def store(self, eng, st, x, addr, val):
        if addr[0] == "f" and addr[1] == ("a", 1) and addr[2] == "gracht_buffer":
            self.set(st, "moved", 1)

    def call(self, eng, st, x, name, args):
        if name.endswith("_invocation"):
            k, want = 0, [self.first]
            for w in self.items:
                want.append(("at", k, w))
                k += w
            if name != self.target:
                self.report(eng, st, x, "ids", "%s is called for another action" % name)
            elif [strip(args[0])] + [whole(a, w) for a, w in zip(args[1:], self.items)] != want:
                self.report(eng, st, x, "ids", "%s does not get what the message says" % name)
            elif self.all(st, "done"):
                self.report(eng, st, x, "ids", "%s is called twice" % name)
            self.bump("control item read")
            self.add(st, "done")
        return None

    def ret(self, eng, st, x, val):
        if not self.all(st, "done") and not self.found:
            self.report(eng, st, x, "ids", "%s is not called" % self.target)


class Registers(Facts):
    """an end that was created knows the control protocol"""

    def __init__(self, mod, counts, fn, protocol, sure=False):
        super().__init__(mod, counts)
        self.fn, self.protocol, self.sure = fn, protocol, sure      # sure: the call can not be refused here

    def call(self, eng, st, x, name, args):
        if name == self.fn:
            if args[1] == ("g", self.protocol):
                return eng.fork(st, x, name, args, [("zero", st.ps | {("registered",)}), ("nonzero", st.ps | ({("registered",)} if self.sure else frozenset()))])
            self.report(eng, st, x, "ids", "a protocol other than the control protocol is registered")
        return None

    def ret(self, eng, st, x, val):
        if eng.iszero(st, val) is not False:
            self.bump("control protocol registered")
            if not self.all(st, "registered"):
                self.report(eng, st, x, "ids", "an instance is handed out that does not know the control protocol")


def table(ctx, mod, name):
    """(service id, name, [(id, function)]) of a protocol; None if there is none"""
    g = mod.globals.get(name)
    if not g or not g.get("init") or g["init"][0] != "S":
        return None
    sid, label, n, fns = g["init"][2]
    if number(sid) is None or number(n) is None or fns[0] != "g":
        return None
    t = (mod.globals.get(fns[1]) or {}).get("init")
    rows = []
    for r in (t[1] if t and t[0] == "A" else []):
        k, f = r[2] if r[0] == "S" else (["Z"], ["Z"])
        rows.append((number(k), f[1] if f[0] == "g" else None))
    return number(sid), number(n), rows


def number(v):
    return 0 if v[0] == "Z" else v[1] & 255 if v[0] == "c" else None


def protocol(ctx, mod, name, sid, want, where):
    """the table holds exactly the wanted actions; returns {id: function}"""
    t = table(ctx, mod, name)
    bad = lambda m: ctx.report(name, where, where, "ids", m)
    ctx.oblige("table of functions")
    if t is None:
        bad("there is no table of functions for the service")
        return {}
    if t[0] != sid:
        bad("the table of functions is registered for service %d instead of %d" % (t[0], sid))
    if t[1] != len(t[2]):
        bad("the table of functions has %d entries but is announced with %d" % (len(t[2]), t[1]))
    if sorted(r[0] for r in t[2]) != sorted(want):
        bad("the table of functions is for actions %s instead of %s" % (sorted(r[0] for r in t[2]), sorted(want)))
    ctx.oblige("entry of a table of functions", len(t[2]))
    return dict(t[2])


def handler(ctx, mod, fn, target, where, number):
    ctx.oblige("handler of an action")
    f = mod.fn.get(fn) if fn else None
    called = sorted({n for n in (x.d["callee"][1] for x in f.calls() if x.d["callee"][0] == "g") if n.endswith("_invocation")}) if f else []
    if called != [target]:
        ctx.report(fn or where, where, where, "ids", "action %d leads to %s instead of %s" % (number, ", ".join(called) or "nothing", target))


def stubs(s):
    P = "%s_%s" % (s.ns, s.name)
    sid = int(s.sid, 0)
    for m in s.members:
        if isinstance(m, gen.Func):
            yield "client", "%s_%s" % (P, m.name), (0, 0, sid, m.id, SYNC if m.results else ASYNC), SENDS[0], {}
            if m.results:
                yield "server", "%s_%s_response" % (P, m.name), (None, None, sid, m.id, RESPONSE), SENDS[1], {}
        else:
            yield "server", "%s_event_%s_single" % (P, m.name), (None, None, sid, m.id, EVENT), SENDS[2], {"client": ("a", 1)}
            yield "server", "%s_event_%s_all" % (P, m.name), (None, None, sid, m.id, EVENT), SENDS[3], {}
    if any(isinstance(m, gen.Event) for m in s.members):
        for k, n in enumerate(("subscribe", "unsubscribe")):
            yield "client", "%s_%s" % (P, n), (0, 0, 0, k, ASYNC), SENDS[0], {"payload": ((1, ("c", sid)),)}


def check(ctx):
    counts = ctx.stats["rules"]
    primitives = set("%s_%s" % (p, t) for p in ("serialize", "deserialize") for t in gen.SCALARS + ["intptr_t", "ptrdiff_t"])
    us = gen.units(ctx, lambda c, s, side: [n for n in gen.codec_names(c) if n not in primitives], ("client", "server"), "ids")
    for u in us:
        s = u.service
        P, sid = "%s_%s" % (s.ns, s.name), int(s.sid, 0)
        for side, name, want, call, kw in stubs(s):
            if side == u.side:
                if not u.mod.bybase.get(name):
                    ctx.need(name.endswith("scribe"), "the generated function %s does not exist" % name)
                    continue
                ctx.oblige("generated function")
                ctx.run(lambda f: Header(u.mod, counts, want, call, **kw), [u.mod.get(name)], mod=u.mod, eff=u.eff)
        ms = [m for m in s.members if isinstance(m, gen.Func if u.side == "server" else gen.Event)]
        if ms:
            where = "%s_service_%s.c" % (P, u.side)
            rows = protocol(ctx, u.mod, "%s_%s_protocol" % (P, u.side), sid, [m.id for m in ms], where)
            for m in ms:
                if m.id in rows:
                    handler(ctx, u.mod, rows[m.id], ("%s_%s_invocation" if u.side == "server" else "%s_event_%s_invocation") % (P, m.name), where, m.id)
    # the control protocol
    rt = "runtime/control.c"
    mod = ctx.mod
    srv = protocol(ctx, mod, "gracht_control_server_protocol", 0, [0, 1], rt)
    cli = protocol(ctx, mod, "gracht_control_client_protocol", 0, [2], rt)
    for rows, k, target, first, items in ((srv, 0, "gracht_control_subscribe_invocation", ("a", 0), (1,)), (srv, 1, "gracht_control_unsubscribe_invocation", ("a", 0), (1,)),
                                          (cli, 2, "gracht_control_error_invocation", ("a", 0), (4, 4))):
        if rows.get(k):
            handler(ctx, mod, rows[k], target, rt, k)
            ctx.run(lambda f: Control(mod, counts, target, first, items), [mod.fn[rows[k]]])
    ctx.run(lambda f: Header(mod, counts, (None, None, 0, 2, EVENT), SENDS[2], ((4, ("a", 2)), (4, ("a", 3))), ("a", 1)), [mod.get("gracht_control_event_error_single")])
    if mod.bybase.get("gracht_control_event_error_all"):
        ctx.run(lambda f: Header(mod, counts, (None, None, 0, 2, EVENT), SENDS[3], ((4, ("a", 1)), (4, ("a", 2)))), [mod.get("gracht_control_event_error_all")])
    ctx.run(lambda f: Registers(mod, counts, "gracht_server_register_protocol", "gracht_control_server_protocol"), [mod.get("gracht_server_create")])
    ctx.run(lambda f: Registers(mod, counts, "gracht_client_register_protocol", "gracht_control_client_protocol", True), [mod.get("gracht_client_create")])
    for k in ("header field written", "control item written", "control item read", "control protocol registered", "handler of an action"):
        ctx.need(counts.get(k), "no instance of: " + k)
