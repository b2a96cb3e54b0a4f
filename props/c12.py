"""C12: a received message is handled exactly once and not touched after it was given away."""
from gv import locks, own, wire
from gv.engine import C0, label, root

LEVEL = "other"
RULE = ("ownership typestate of received messages on every path: a buffer obtained for an incoming message is dispatched exactly once if the "
        "transport filled it and returned otherwise; a dispatched message is invoked exactly once - at once, or by the worker whose queue "
        "accepted it, or at once if that queue is full - and its memory is released exactly once afterwards; the shared receive buffer of the "
        "single-threaded server is never released or queued; nothing reads or writes a message after it was released or handed to another "
        "thread; on the client every received message is either released or handed to exactly one pending call; the part of a message that is given "
        "back early leaves its head and all of its size in place, evaluated on the linear form of the length")
RECV = ("slot:server_link_ops.recv", "slot:server_link_ops.recv_client")
ACT = ("gracht_worker", "state")


HEAD = 24                   # bytes of a message in front of its payload


def terms(t, c=1):
    """sum of (term, factor); (None, n) is the number n"""
    while t[0] == "cast":
        t = t[4]
    if t[0] == "c":
        return [(None, c * t[1])]
    if t[0] == "op" and t[1] in ("add", "sub"):
        return terms(t[2], c) + terms(t[3], c if t[1] == "add" else -c)
    if t[0] == "op" and t[1] == "mul" and t[3][0] == "c":
        return terms(t[2], c * t[3][1])
    return [(t, c)]


class Server(own.Own):
    """pooled: messages come from the arena; role: acquire, dispatch, put, pool, worker"""

    def __init__(self, mod, counts, role, pooled=True, arg=None):
        super().__init__(mod, counts)
        self.role, self.pooled, self.arg = role, pooled, arg

    def start(self, eng):
        if self.arg is None:
            return frozenset()
        return frozenset({(("a", self.arg), "own", frozenset({"received"}))})

    def call(self, eng, st, x, name, args):
        if name == "slot:server_operations.get_incoming_buffer":
            self.bump("buffer obtained")
            return self.acquire(eng, st, x, name, args)
        if name == "gr_queue_dequeue" and self.role == "worker":
            self.bump("message taken from the queue")
            return self.acquire(eng, st, x, name, args, ("received",))
        if name in RECV:
            for a in args:
                e = self.get(st, a)
                if e is not None:
                    self.bump("message received")
                    self.passed(eng, st, x, args)
                    f = e[2] - {"received", "failed"}
                    return eng.fork(st, x, name, args, [("zero", self.put(st.ps, a, e[1], f | {"received"})),
                                                        ("nonzero", self.put(st.ps, a, e[1], f | {"failed"}))])
            return None
        if name in ("slot:server_operations.dispatch", "gracht_worker_pool_dispatch"):
            m = args[1]
            e = self.get(st, m)
            if e is not None and "received" not in e[2]:
                self.report(eng, st, x, "garbage", "a message is dispatched that was not received")
            if e is not None and "invoked" in e[2]:
                self.report(eng, st, x, "twice", "a message that was already handled is dispatched")
            if e is not None and not self.pooled:
                self.report(eng, st, x, "shared-buffer", "the buffer that the next message is received into is handed to another thread")
            self.give(eng, st, x, m, "gone", "handed on")
            return None
        if name == "gr_queue_enqueue":
            m = args[1]
            e = self.get(st, m)
            if e is not None:
                self.bump("handed on")
                if e[1] != "own":
                    self.report(eng, st, x, "twice", "a message is queued that was already given away")
                if "invoked" in e[2]:
                    self.report(eng, st, x, "twice", "a message that was already handled is queued")
                return eng.fork(st, x, name, args, [("zero", self.put(st.ps, m, "gone", e[2])), ("nonzero", st.ps)])
            return None
        if name == "server_invoke_action":
            e = self.get(st, args[1])
            if e is not None:
                self.bump("message handled")
                if e[1] != "own":
                    self.report(eng, st, x, "used-after-release", "a message is handled after it was given away")
                if "invoked" in e[2]:
                    self.report(eng, st, x, "twice", "a message is handled twice")
                if "received" not in e[2]:
                    self.report(eng, st, x, "garbage", "a message is handled that was not received")
                self.flag(st, args[1], "invoked")
            return None
        if name in ("server_cleanup_message", "slot:server_operations.put_message"):
            e = self.get(st, args[1])
            if e is not None and e[1] == "own" and self.role == "worker" and "invoked" not in e[2] and not self.is_ending(st):
                self.report(eng, st, x, "dropped", "a received message is released without having been handled")
            self.give(eng, st, x, args[1], "rel", "released")
            return None
        if name == "gracht_arena_free":
            e = self.get(st, args[1])
            if e is not None:
                z = eng.iszero(st, args[2])
                if z is True:
                    self.give(eng, st, x, args[1], "rel", "released")
                    return None
                self.bump("partial release")
                if z is None:
                    self.report(eng, st, x, "released-early", "the release of the unused part may release all of a message that is still needed")
                self.rest(eng, st, x, args[1], args[2])
                if e[1] != "own":
                    self.report(eng, st, x, "used-after-release", "a part of a message is released after it was given away")
            return None
        if name == "free":
            if self.get(st, args[0]) is not None:
                self.report(eng, st, x, "wrong-release", "a message is released to the heap, it belongs to the pool")
            return None
        self.passed(eng, st, x, args)
        return None

    def rest(self, eng, st, x, m, n):
        """how much of a message may be released: what is left must hold its head and its size"""
        a = s = i = k = 0
        for t, c in terms(n):
            if t is None:
                k += c
                continue
            o = eng.origin.get(t) or (eng.origin.get(("v", t[1])) if t[0] == "old" else None)
            l = label(o) if o is not None else None
            if l == ("gracht_server", "allocationSize"):
                a += c
            elif l == ("gracht_message", "size") and o[1] == m:
                s += c
            elif l == ("gracht_message", "index") and o[1] == m:
                i += c
            else:
                return
        # allocationSize = HEAD + size + slack, index <= size
        if a + s + max(i, 0) > 0 or a > 1 or HEAD * a + k > 0:
            self.report(eng, st, x, "released-early", "a part of a message that is still needed is released")

    def edge(self, eng, st, ins, succ):
        # the worker has been told to stop
        for (p, a, b), v in st.facts.items():
            if p == "eq" and b[0] == "c" and (v if b[1] else not v) and (a[0] in ("v", "old")):
                o = eng.origin.get(a) or eng.origin.get(("v", a[1]))
                if o is not None and label(o) == ACT:
                    self.ending(st)
                    return

    def is_ending(self, st):
        return any(e[0] == ("k", "ending") for e in st.ps)

    def ending(self, st):
        if not self.is_ending(st):
            st.ps = st.ps | {(("k", "ending"), "rel", frozenset())}

    def trim(self, eng, ps, live):
        return frozenset(e for e in ps if e[1] == "own" or e[0][0] in ("a", "k") or e[0] in live)

    def store(self, eng, st, x, addr, val):
        if label(addr) == ACT and val != C0:
            self.ending(st)
        super().store(eng, st, x, addr, val)

    def done(self, eng, st, x, e):
        o, state, fl = e
        if o[0] == "k":
            return
        if self.arg is not None and eng.iszero(st, ("a", self.arg)) is True:
            return
        self.bump("message accounted for")
        rep = lambda rule, msg: self.report(eng, st, x, rule, msg)
        if self.role == "acquire":
            if state == "own":
                rep("lost-message" if "received" in fl else "lost-buffer",
                    "a received message is neither dispatched nor released" if "received" in fl else "a buffer for incoming messages is not returned")
            elif state == "rel" and "received" in fl:
                rep("dropped", "a received message is released without having been dispatched")
            return
        if self.role == "put":
            if self.pooled and state != "rel":
                rep("lost-buffer", "a buffer for incoming messages is not returned")
            if not self.pooled and state == "rel":
                rep("shared-buffer", "the receive buffer of the server is released")
            return
        if self.role == "pool" and eng.iszero(st, ("a", 0)) is True:
            return
        if not self.pooled:
            if state != "own":
                rep("shared-buffer", "the receive buffer of the server is released")
            if "invoked" not in fl:
                rep("dropped", "a received message is not handled")
            return
        if state == "gone":
            if "invoked" in fl:
                rep("twice", "a message is handled and handed on as well")
        elif state == "own":
            rep("lost-message", "a message is neither released nor handed on")
        elif "invoked" not in fl:
            if self.role == "worker" and self.is_ending(st):
                return
            rep("dropped", "a received message is released without having been handled")


class Cleanup(own.Own):
    """the release of a message"""

    def start(self, eng):
        return frozenset({(("a", 1), "own", frozenset())})

    def call(self, eng, st, x, name, args):
        if name == "gracht_arena_free":
            if eng.iszero(st, args[2]) is not True and self.get(st, args[1]):
                self.report(eng, st, x, "lost-memory", "only a part of the message is released")
            self.give(eng, st, x, args[1], "rel", "released")
        return None

    def done(self, eng, st, x, e):
        if eng.iszero(st, ("a", 0)) is True or eng.iszero(st, ("a", 1)) is True:
            return
        self.bump("message accounted for")
        if e[1] != "rel":
            self.report(eng, st, x, "lost-memory", "a message is not released")


class Client(own.Own):
    """buffers of received messages in the client"""
    what = "the received message"

    def call(self, eng, st, x, name, args):
        if name == "gracht_arena_allocate" and args[1] == C0:
            self.bump("buffer obtained")
            return self.acquire(eng, st, x, name, args)
        if name == "gracht_arena_free":
            z = eng.iszero(st, args[2])
            if self.get(st, args[1]) is not None and z is not True:
                self.report(eng, st, x, "lost-memory", "only a part of the message may be released")
            self.give(eng, st, x, args[1], "rel", "released")
            return None
        if name in locks.UNLOCKERS and label(args[0]) == ("gracht_client", "messages_lock"):
            for e in list(st.ps):
                if "linked" in e[2] and e[1] == "own":
                    self.bump("handed on")
                    st.ps = self.put(st.ps, e[0], "gone", e[2])
            return None
        if name == "slot:client_link_ops.recv":
            d = st.mem.get(("f", args[1], "gracht_buffer", "data"))
            e = self.get(st, d) if d is not None else None
            if e is None or e[1] != "own":
                self.report(eng, st, x, "foreign-buffer", "a message is received into memory that was not obtained for it")
                return None
            self.bump("message received")
            r = eng.fork(st, x, name, args, [("zero", self.put(st.ps, d, e[1], e[2] | {"received"})), ("nonzero", st.ps)])
            return self.same_data(r, args[1], d)
        if name.startswith("slot:gracht_protocol_function"):
            for a in args:
                d = st.mem.get(("f", a, "gracht_buffer", "data")) if a[0] in ("al", "v", "a") else None
                e = self.get(st, d) if d is not None else None
                if e is not None:
                    self.bump("message handled")
                    if e[1] != "own" or "linked" in e[2]:
                        self.report(eng, st, x, "used-after-hand-over", "a message is handled after it was given away")
                    if "handled" in e[2]:
                        self.report(eng, st, x, "twice", "a message is handled twice")
                    if "received" not in e[2]:
                        self.report(eng, st, x, "garbage", "a message is handled that was not received")
                    st.ps = self.put(st.ps, d, e[1], e[2] | {"handled"})
                    return self.same_data(eng.default_call(st, x, name, args), a, d)
            return None
        self.passed(eng, st, x, args)
        return None

    def same_data(self, states, buf, data):
        """receivers and actions move through a message, they do not replace it"""
        for s in states:
            s.mem[("f", buf, "gracht_buffer", "data")] = data
        return states

    def store(self, eng, st, x, addr, val):
        super().store(eng, st, x, addr, val)
        e = self.get(st, val)
        if e is not None and label(addr) == ("gracht_buffer", "data") and root(addr)[0] != "al":
            if e[1] != "own":
                self.report(eng, st, x, "twice", "a message is handed to a pending call after it was given away")
            if "received" not in e[2]:
                self.report(eng, st, x, "garbage", "a message is handed to a pending call that was not received")
            if "handled" in e[2] or "linked" in e[2]:
                self.report(eng, st, x, "twice", "a message is handed on twice")
            st.ps = self.put(st.ps, val, e[1], e[2] | {"linked"})

    def done(self, eng, st, x, e):
        self.bump("message accounted for")
        if e[1] == "own":
            self.report(eng, st, x, "lost-memory", "the memory of a received message is neither released nor handed to a pending call")
        if "linked" in e[2] and e[1] == "rel":
            self.report(eng, st, x, "twice", "a message is released that was handed to a pending call")

    def give(self, eng, st, x, o, state, how):
        e = self.get(st, o)
        if e is not None and "linked" in e[2] and e[1] == "own":
            self.report(eng, st, x, "twice", "a message is released that was handed to a pending call")
        super().give(eng, st, x, o, state, how)


def tables(mod):
    """the (dispatch, get, put) tables of the server"""
    out = []
    for n, g in mod.globals.items():
        i = g.get("init")
        if i and i[0] == "S" and mod.fieldname(i[1], 0)[0] == "server_operations":
            t = {}
            for k, e in enumerate(i[2]):
                if e[0] == "g" and len(e) > 2 and e[2] == 1:
                    t[mod.fieldname(i[1], k)[1]] = mod.fn[e[1]]
            out.append((n, t))
    return out


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    ts = tables(mod)
    ctx.need(len(ts) >= 2, "the operation tables of the server are not found")
    for n, t in ts:
        ctx.need({"dispatch", "get_incoming_buffer", "put_message"} <= set(t), "incomplete table " + n)
        g = t["get_incoming_buffer"]
        pooled = any(c.d["callee"][0] == "g" and c.d["callee"][1] == "gracht_arena_allocate" for c in g.calls())
        ctx.run(lambda f: Server(mod, counts, "dispatch", pooled, 1), [t["dispatch"]])
        ctx.run(lambda f: Server(mod, counts, "put", pooled, 1), [t["put_message"]])
    ctx.extra["operation_tables"] = [n for n, _ in ts]
    worker = {n for n, us in mod.taken_by.items() if any(x.d["callee"][:2] == ["g", "thrd_create"] for x, k in us)}
    ctx.run(lambda f: Server(mod, counts, "worker"), [mod.fn[n] for n in sorted(worker)])
    ctx.run(lambda f: Server(mod, counts, "pool", True, 1), [mod.get("gracht_worker_pool_dispatch")])
    ctx.run(lambda f: Cleanup(mod, counts), [mod.get("server_cleanup_message")])
    acq = []
    for f in ctx.roots():
        if any(x.d["callee"][0] == "i" and f.ins[x.d["callee"][1]].op == "load" and
               mod.static_label(f, f.ins[x.d["callee"][1]].d["ops"][0]) == ("server_operations", "get_incoming_buffer") for x in f.calls()):
            acq.append(f)
    ctx.need(acq, "no function obtains incoming buffers")
    ctx.run(lambda f: Server(mod, counts, "acquire"), acq)
    cl = [f for f in ctx.roots() if any(x.d["callee"][0] == "i" and f.ins[x.d["callee"][1]].op == "load" and
          mod.static_label(f, f.ins[x.d["callee"][1]].d["ops"][0]) == ("client_link_ops", "recv") for x in f.calls())]
    ctx.need(cl, "the client receives nothing")
    ctx.run(lambda f: Client(mod, counts), cl)
    for k in ("buffer obtained", "message received", "handed on", "message handled", "released", "message accounted for", "partial release",
              "message taken from the queue"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
    ctx.assumptions += ["an action that is called with a message does not keep the message (it defers a copy)"]
