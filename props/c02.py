"""C02: shared state is only touched under the lock that guards it."""
from gv import engine, locks
from gv.engine import C0, label, root, within
from gv.locks import cls, cname

LEVEL = "other"
RULE = ("guarded-by analysis on every path of every function (helpers inlined): each access to a shared table, to an element obtained from "
        "one, to a guarded field or to a serialised link operation happens while the guarding lock of the same object is held (exclusively "
        "for modifications); an element is not used after the lock it was looked up under was released; objects that were allocated by the "
        "function and not yet published are exempt")

CL, SV = "gracht_client", "gracht_server"
# table -> (lock, lock kind)
TABLES = {(CL, "messages"): (CL, "messages_lock"), (CL, "awaiters"): (CL, "awaiters_lock"),
          (SV, "clients"): (SV, "clients_lock"), (SV, "protocols"): (SV, "protocols_lock"),
          ("gracht_worker", "job_queue"): ("gracht_worker", "sync_object")}
READERS = {"gr_hashtable_get", "gr_hashtable_enumerate", "get_protocol_action"}
WRITERS = {"gr_hashtable_set", "gr_hashtable_remove", "gr_queue_enqueue", "gr_queue_dequeue"}
# fields -> lock field of the same structure
FIELDS = {("gracht_message_awaiter", "current_count"): "mutex", (CL, "current_awaiter_id"): "awaiters_lock",
          (CL, "current_message_id"): "send_buffer_lock", ("gracht_worker", "state"): "sync_object",
          ("stack", "elements"): "mutex", ("stack", "index"): "mutex", ("stack", "count"): "mutex",
          ("rwlock", "readers"): "sync_object"}
ARENA = ("gracht_arena", "mutex")
# pointers kept in table elements whose target lives only as long as the element is registered
OWNED = {("client_wrapper", "client"), ("gracht_message_awaiter_entry", "awaiter")}
SLOTS = {"slot:client_link_ops.send": (CL, "send_buffer_lock"), "slot:client_link_ops.recv": (CL, "wait_lock")}
EXEMPT = {"rwlock_init", "rwlock_destroy", "stack_construct", "stack_destroy", "gracht_arena_create", "gracht_arena_destroy"}
IGNORE = {"printf", "fprintf", "free", "close"}


def objbase(addr, lab):
    """the object a labelled address is a member of"""
    while addr[0] in ("f", "x"):
        if addr[0] == "f" and (addr[2], addr[3]) == lab:
            return addr[1]
        addr = addr[1]
    return addr


class Guarded(locks.LockMonitor):
    """more = (elements, fresh, published): elements are (pointer, lock class) obtained under a lock that is still held,
    or (pointer, lock class, 'stale') after its release"""

    def start_more(self, eng):
        return (frozenset(), frozenset(), frozenset())

    # -- helpers
    def setm(self, st, e=None, f=None, p=None):
        m = st.ps[1]
        st.ps = (st.ps[0], (m[0] if e is None else e, m[1] if f is None else f, m[2] if p is None else p))

    def unshared(self, st, base):
        e, f, p = st.ps[1]
        return root(base) in f and base not in p

    def locked(self, st, base, lock, modes):
        for a, m in st.ps[0]:
            if cls(a) == lock and m in modes:
                b = a[1] if a[0] == "f" else a
                if b == base or not locks.different(b, base):
                    return True
        return False

    def need(self, eng, st, x, base, lock, modes, what):
        self.instances += 1
        if self.unshared(st, base):
            return
        if not self.locked(st, base, lock, modes):
            how = "" if modes != ("x", "w") else " exclusively"
            self.report(eng, st, x, "unguarded-access", "%s without holding %s.%s%s" % (what, lock[0], lock[1], how))

    def element(self, eng, st, x, addr, what):
        if addr[0] in ("c", "g", "u", "k"):
            return
        r = root(addr)
        for t in st.ps[1][0]:
            if t[0] == r or (addr[0] in ("f", "x") and within(addr, t[0])):
                self.instances += 1
                if len(t) > 2:
                    self.report(eng, st, x, "stale-element", "an entry of a table guarded by %s.%s is %s after the lock was released" %
                                (t[1][0], t[1][1], what))

    def trim(self, eng, ps, live):
        h, (e, f, p) = ps

        def alive(t):
            s = set()
            engine.syms(t, s)
            return not s or bool(s & live)
        held = set()
        for a, m in h:
            engine.syms(a, held)
        return (h, (frozenset(t for t in e if alive(t[0])), frozenset(t for t in f if alive(t) or t in held),
                    frozenset(t for t in p if alive(t))))

    # -- events
    def on_release(self, eng, st, x, addr, mode, k):
        c = cls(addr)
        e = frozenset(t if t[1] != c or len(t) > 2 else t + ("stale",) for t in st.ps[1][0])
        self.setm(st, e=e)

    def field(self, eng, st, x, addr, what):
        if eng.fn.base in EXEMPT:
            return
        l = label(addr)
        if l is None:
            return
        if l in FIELDS:
            self.need(eng, st, x, objbase(addr, l), (l[0], FIELDS[l]), ("x", "w", "r"), "%s.%s is %s" % (l[0], l[1], what))
        elif l[0] == "gracht_header":
            self.instances += 1
            if not self.holds_class(st, ARENA):
                self.report(eng, st, x, "unguarded-access", "the block headers of the pool are %s without holding gracht_arena.mutex" % what)

    def load(self, eng, st, x, addr, val):
        self.element(eng, st, x, addr, "read")
        self.field(eng, st, x, addr, "read")
        l = label(addr)
        if l in OWNED and val[0] in ("v", "old"):
            r = root(addr)
            for t in st.ps[1][0]:
                if t[0] == r:
                    self.setm(st, e=st.ps[1][0] | {(val,) + t[1:]})
                    break

    def store(self, eng, st, x, addr, val):
        self.element(eng, st, x, addr, "modified")
        self.field(eng, st, x, addr, "modified")

    def pool(self, fn):
        """the function works on the blocks of the pool"""
        if "_pool" not in fn.__dict__:
            fn._pool = any((self.mod.fieldname(p[1], p[2]) if p[0] == "f" else ("",))[0] == "gracht_header"
                           for x in fn.all() if x.op == "getelementptr" for p in x.d["gep"][2])
        return fn._pool

    def on_call(self, eng, st, x, name, args):
        if name in READERS or name in WRITERS:
            t = label(args[0]) if args else None
            if t in TABLES:
                lock = TABLES[t]
                rw = lock[0] == SV
                modes = ("x", "w") if (rw and name in WRITERS) else ("x", "w", "r")
                self.need(eng, st, x, objbase(args[0], t), lock, modes, "%s.%s is %s" % (
                    t[0], t[1], "modified" if name in WRITERS else "searched"))
                if name == "gr_hashtable_set":
                    self.publish(eng, st, args[1])
                if name in ("gr_hashtable_get", "gr_hashtable_remove") and t != (SV, "protocols"):
                    e, f, p = st.ps[1]
                    ps = (st.ps[0], (e | {(("result",), lock)}, f, p))
                    return eng.fork(st, x, name, args, [("zero", st.ps), ("nonzero", ps)])
                return None
            if t and t[0] in (CL, SV, "gracht_worker") and t != (CL, "protocols"):
                self.report(eng, st, x, "unknown-table", "no lock is known to guard %s.%s" % t)
            return None
        if name in ("memcpy", "memmove", "memset") and eng.fn.base not in EXEMPT and self.pool(eng.fn) and \
                any(root(a)[0] != "al" for a in args[:1 if name == "memset" else 2]):
            self.instances += 1
            if not self.holds_class(st, ARENA):
                self.report(eng, st, x, "unguarded-access", "the memory of the pool is moved or filled without holding gracht_arena.mutex")
        if name in SLOTS:
            self.instances += 1
            if not self.holds_class(st, SLOTS[name]):
                self.report(eng, st, x, "unguarded-link", "the link operation %s is used without holding %s.%s" %
                            ((name.split(".")[-1],) + SLOTS[name]))
        if name in ("malloc", "calloc"):
            e, f, p = st.ps[1]
            return eng.fork(st, x, name, args, [(None, (st.ps[0], (e, f | {("result",)}, p)))])
        if name == "thrd_create" and len(args) > 2:
            self.publish(eng, st, args[2])
        if name not in IGNORE and not name.startswith("gr_hashtable"):
            for a in args:
                self.element(eng, st, x, a, "used")
        return None

    def publish(self, eng, st, obj):
        e, f, p = st.ps[1]
        new = set(p)
        for a, v in st.mem.items():
            if a[0] != "Z" and within(a, obj) and isinstance(v, tuple) and root(v) in f:
                new.add(v)
        if root(obj) in f:
            new.add(obj)
        self.setm(st, p=frozenset(new))


def check(ctx):
    mod = ctx.mod
    names = {(s.split(".", 1)[1] if "." in s else s) for s in mod.structs}
    for t in TABLES:
        ctx.need(t[0] in names, "structure %s is gone" % t[0])

    def make(f):
        init = ()
        if f.base == "gracht_client_invoke":
            init = ((("f", ("a", 0), CL, "send_buffer_lock"), "x"),)
        elif f.base == "rwlock_w_unlock":
            init = ((("f", ("a", 0), "rwlock", "sync_object"), "x"),)
        return Guarded(mod, init)
    ctx.run(make)
    ctx.need(ctx.stats["obligations"] > 60, "too few guarded accesses found")
    ctx.assumptions += ["the protocols table of a client and the state field of a server are configured before they are shared",
                        "subscription words are only written by the thread that runs the event loop"]
