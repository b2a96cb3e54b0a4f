"""C03: no thread can block itself, and threads can not block each other in a cycle."""
from gv import anchors, engine, locks, loops
from gv.engine import C0, label, root
from gv.locks import cls, cname

LEVEL = "other"
RULE = ("lock contexts are propagated through the call graph (function tables and callbacks resolved); over every acquisition in every context "
        "the lock order is acyclic, no plain lock is taken again, no exclusive lock is requested by a thread that may hold it shared, nothing "
        "blocks (thread join, condition wait) with another lock held, and application callbacks run with no lock except the shared client "
        "lock under which stream requests are dispatched; no loop is repeated in which nothing has changed that could end it")
CLIENTS = ("gracht_server", "clients_lock")
HANDLER = "slot:gracht_protocol_function.address"
# what an application may call from a request handler
FROM_HANDLER = ["gracht_server_get_buffer", "gracht_server_respond", "gracht_server_send_event", "gracht_server_broadcast_event",
                "gracht_server_defer_message", "gracht_server_request_shutdown", "gracht_server_register_protocol",
                "gracht_server_unregister_protocol", "gracht_control_event_error_single", "gracht_control_event_error_all"]
CALLBACKS = ("slot:gracht_server_callbacks.clientConnected", "slot:gracht_server_callbacks.clientDisconnected")
PRIM = {"rwlock_r_lock", "rwlock_r_unlock", "rwlock_w_lock", "rwlock_w_unlock", "rwlock_init", "rwlock_destroy"}


class Sites(locks.LockMonitor):
    """records acquisitions and calls with the locks held and whether the client is known not to be a dispatching stream"""

    def __init__(self, mod, initial, stream_bit):
        super().__init__(mod, initial)
        self.acq, self.calls, self.waits = [], [], []
        self.seen = set()
        self.bit = stream_bit

    def start_more(self, eng):
        return False

    def hs(self, st):
        return frozenset((cls(a), m) for a, m in st.ps[0])

    def add(self, lst, eng, st, x, *rest):
        k = (id(lst), x.i, self.hs(st), st.ps[1]) + tuple(r for r in rest if not isinstance(r, list))
        if k in self.seen:
            return
        self.seen.add(k)
        tr, t = [], st.trace
        while t:
            tr.append(t[1])
            t = t[0]
        lst.append((x, self.hs(st), st.ps[1], tr[::-1][-40:]) + rest)

    def on_acquire(self, eng, st, x, addr, mode):
        same = any(cls(a) == cls(addr) and not locks.different(a, addr) for a, m in st.ps[0])
        self.add(self.acq, eng, st, x, cls(addr), mode, same)

    def on_call(self, eng, st, x, name, args):
        if name in ("cnd_wait", "cnd_timedwait"):
            self.add(self.waits, eng, st, x, cls(args[1]))
            return None
        cb = tuple(sorted(a[1] for a in args if a[0] == "g" and a[1] in self.mod.fn and not self.mod.fn[a[1]].decl))
        self.add(self.calls, eng, st, x, name, cb)
        if name == "gr_hashtable_get" and label(args[0]) == ("gracht_server", "clients"):
            return eng.fork(st, x, name, args, [("zero", (st.ps[0], True)), ("nonzero", st.ps)])
        return None

    def edge(self, eng, st, ins, succ):
        if st.ps[1]:
            return
        for (p, a, b), v in st.facts.items():
            if p == "eq" and v and b == C0 and a[0] == "op" and a[1] == "and" and a[3] == ("c", self.bit):
                o = eng.origin.get(a[2]) or (eng.origin.get(("v", a[2][1])) if a[2][0] == "old" else None)
                if o is not None and label(o) == ("gracht_server_client", "flags"):
                    st.ps = (st.ps[0], True)
                    return


def stream_bit(mod):
    """the bit that is set for clients accepted on a stream"""
    for f in mod.fn.values():
        if f.decl:
            continue
        acc = any(x.d["callee"][0] == "i" and f.ins[x.d["callee"][1]].op == "load" and
                  mod.static_label(f, f.ins[x.d["callee"][1]].d["ops"][0]) == ("server_link_ops", "accept_client") for x in f.calls())
        if not acc:
            continue
        for x in f.all():
            if x.op == "store" and mod.static_label(f, x.d["ops"][1]) == ("gracht_server_client", "flags"):
                v = x.d["ops"][0]
                if v[0] == "i" and f.ins[v[1]].op == "or":
                    for o in f.ins[v[1]].d["ops"]:
                        if o[0] == "c":
                            return o[1]
    return 1


def check(ctx):
    mod = ctx.mod
    rec = locks.recursive_classes(mod)
    bit = stream_bit(mod)

    def make(f):
        if f.base in PRIM:
            return None
        init = ()
        if f.base == "gracht_client_invoke":
            init = ((("f", ("a", 0), "gracht_client", "send_buffer_lock"), "x"),)
        return Sites(mod, init, bit)
    loops.check(ctx)
    mons = ctx.run(make)
    by = {}
    for m in mons:
        by.setdefault(m.eng.fn.name, m)
    base2 = {}
    for n in by:
        base2.setdefault(mod.fn[n].base, []).append(n)

    def targets(name, cb):
        if name == HANDLER:
            t = [n for b in FROM_HANDLER for n in base2.get(b, [])]
            return t + [n for n in mod.slots.get(("gracht_protocol_function", "address"), ()) if n in by]
        if name.startswith("slot:"):
            lab = tuple(name[5:].split(".")) if "." in name else None
            return [n for n in mod.slots.get(lab, ()) if n in by]
        t = list(base2.get(name, []))
        if name != "thrd_create":
            t += [n for n in cb if n in by]
        return t
    # contexts
    ctxs = {n: {frozenset(): None} for n in by}
    work = [(n, frozenset()) for n in by]
    while work:
        n, C = work.pop()
        for x, held, free, tr, name, cb in by[n].calls:
            H = (frozenset(c for c in C if not (free and c == (CLIENTS, "r")))) | held
            if name == HANDLER and mod.fn[n].base == "gracht_client_wait_message":
                continue
            for t in targets(name, cb):
                if H not in ctxs[t]:
                    ctxs[t][H] = (n, C, x)
                    work.append((t, H))
    edges = {}

    def bt(n, C):
        out = []
        while ctxs[n].get(C):
            n, C, x = ctxs[n][C]
            out.append("%s in %s" % (x.where(), mod.fn[n].base))
        return out[::-1]

    def nm(c):
        return "%s.%s" % c

    def rep(n, x, rule, msg, tr, C):
        f = mod.fn[n]
        ctx.report(f.base, f.file, x.where(), rule, msg, ["called from " + b for b in bt(n, C)] + tr)
    for n, m in by.items():
        for C in ctxs[n]:
            for x, held, free, tr, c, mode, same in m.acq:
                CC = frozenset(k for k in C if not (free and k == (CLIENTS, "r")))
                ctx.oblige("acquisition in context")
                for hc, hm in CC | held:
                    if hc == c:
                        if c in rec or (hm == "r" and mode == "r"):
                            continue
                        if (hc, hm) in held and not same and (hc, hm) not in CC:
                            continue
                        rep(n, x, "self-deadlock", "%s is requested (%s) by a thread that may already hold it (%s)" % (nm(c), mode, hm), tr, C)
                        continue
                    edges.setdefault((hc, c), (n, x, tr, C))
            for x, held, free, tr, c in m.waits:
                ctx.oblige("wait in context")
                others = [h for h in (C | held) if h[0] != c and not (free and h == (CLIENTS, "r"))]
                if others:
                    rep(n, x, "wait-with-lock", "waits for a condition while %s is held" % nm(others[0][0]), tr, C)
            for x, held, free, tr, name, cb in m.calls:
                H = frozenset(k for k in C if not (free and k == (CLIENTS, "r"))) | held
                if name == "thrd_join":
                    ctx.oblige("join")
                    if H:
                        rep(n, x, "join-with-lock", "waits for a thread to end while %s is held" % nm(sorted(H)[0][0]), tr, C)
                elif name == HANDLER:
                    ctx.oblige("application handler")
                    bad = [h for h in H if h != (CLIENTS, "r")]
                    if mod.fn[n].base == "gracht_client_wait_message" or mod.fn[n].base.startswith("gracht_client"):
                        bad = list(H)
                    if bad:
                        rep(n, x, "callback-with-lock", "an application handler is called while %s is held" % nm(sorted(bad)[0][0]), tr, C)
                elif name in CALLBACKS:
                    ctx.oblige("connection callback")
                    bad = list(H)
                    if bad:
                        rep(n, x, "callback-with-lock", "the application callback %s is called while %s is held" %
                            (name.split(".")[-1], nm(sorted(bad)[0][0])), tr, C)
    # cycles in the lock order
    graph = {}
    for a, b in edges:
        graph.setdefault(a, set()).add(b)
    ctx.extra["lock_order"] = sorted("%s -> %s" % (nm(a), nm(b)) for a, b in edges)
    ctx.oblige("lock order edges", len(edges))

    def reaches(s, t):
        seen, todo = set(), [s]
        while todo:
            k = todo.pop()
            if k == t:
                return True
            if k in seen:
                continue
            seen.add(k)
            todo.extend(graph.get(k, ()))
        return False
    for (a, b), (n, x, tr, C) in sorted(edges.items(), key=lambda e: repr(e[0])):
        if reaches(b, a):
            rep(n, x, "lock-order", "%s is acquired while %s is held, and elsewhere in the opposite order" % (nm(b), nm(a)), tr, C)
    ctx.need(ctx.stats["obligations"] > 40, "too few acquisitions")
    ctx.assumptions += ["applications only call %s from request handlers" % ", ".join(FROM_HANDLER),
                        "a client that is being read from under the shared client lock is in the client table"]
