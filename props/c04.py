"""C04: no wakeup is lost and no waiter continues before its condition holds."""
from gv import build, engine, locks, loops
from gv.engine import C0, contains, label
from gv.locks import cls, cname

LEVEL = "other"
RULE = ("every condition wait is made with the mutex of the same object held, after all state it waits for was tested under that mutex since "
        "it was acquired (or since the last wakeup), and that state is tested again after the wakeup before the mutex is released or the "
        "function returns; every change that can make a waiter runnable is followed by a signal of that object's condition on every path "
        "(unless the path has established that the waiter's condition does not hold yet); readers are counted once each way, and nobody waits by looking again and again")
# condition -> (its mutex, fields that make up the condition)
CONDS = {("gracht_worker", "signal"): ("sync_object", ("state",)),
         ("gracht_message_awaiter", "event"): ("mutex", ("current_count",)),
         ("rwlock", "signal"): ("sync_object", ("readers",))}
MUTEX = {(s, m): (s, c) for (s, c), (m, _) in CONDS.items()}
PRED = {(s, f): (s, c) for (s, c), (_, fs) in CONDS.items() for f in fs}
QUEUE = ("gracht_worker", "job_queue")


class Wait(locks.LockMonitor):
    """more = (due, todo): due - conditions that must be tested before the mutex of the object may be released;
    todo - signals that are still owed: (kind, object, changed value)"""
    keep = frozenset(PRED) | {("gracht_message_awaiter", "count"), ("gracht_message_awaiter", "flags")}

    def __init__(self, mod, threads, counts):
        super().__init__(mod)
        self.threads = threads
        self.counts = counts

    def start_more(self, eng):
        return (frozenset(), frozenset(), frozenset())

    def bump(self, k):
        self.instances += 1
        self.counts[k] = self.counts.get(k, 0) + 1

    # more = (unseen, owed, empty): unseen - (object, field) of waited conditions not tested since the wakeup;
    # owed - signals; empty - objects whose queue was found empty since the mutex was acquired
    def tested(self, eng, st, obj, field):
        s = None
        for a, v in st.mem.items():
            if a[0] == "f" and a[1] == obj and a[3] == field:
                s = v
        if s is None:
            return False
        return s[0] == "c" or any(contains(k, s) for k in st.facts)

    def on_acquire(self, eng, st, x, addr, mode):
        u, o, e = st.ps[1]
        if addr[0] == "f":
            e = frozenset(k for k in e if k != addr[1] and k[:2] != ("asked", addr[1]))
        st.ps = (st.ps[0], (u, o, e))

    def on_release(self, eng, st, x, addr, mode, found):
        if cls(addr) in MUTEX and addr[0] == "f":
            obj = addr[1]
            self.settle(eng, st, x, obj)

    def settle(self, eng, st, x, obj):
        """the mutex of the object is about to be released, or the function returns with it"""
        u, o, e = st.ps[1]
        for k in list(u):
            if k[0] == obj:
                self.bump("condition tested after the wakeup")
                if not self.tested(eng, st, obj, k[1]):
                    self.report(eng, st, x, "stale-condition", "%s.%s is not tested again after the wakeup" % (k[2], k[1]))
                u = u - {k}
        o = frozenset(k for k in o if k[1] != obj or not self.excused(eng, st, k))
        st.ps = (st.ps[0], (u, o, e))

    def on_call(self, eng, st, x, name, args):
        u, o, e = st.ps[1]
        if name in ("cnd_wait", "cnd_timedwait"):
            cond, mtx = args[0], args[1]
            c = cls(cond)
            self.bump("condition wait")
            if c not in CONDS or cond[0] != "f":
                self.report(eng, st, x, "unknown-condition", "waits for a condition whose predicate is not known (%s)" % cname(cond))
                return None
            obj = cond[1]
            m, fs = CONDS[c]
            if mtx != ("f", obj, c[0], m):
                self.report(eng, st, x, "wrong-mutex", "waits for %s with %s instead of the mutex of the same object" % (cname(cond), cname(mtx)))
            elif self.find(st, mtx) is None:
                self.report(eng, st, x, "wait-unlocked", "waits for %s without holding %s" % (cname(cond), cname(mtx)))
            for f in fs:
                self.bump("condition tested before the wait")
                if not self.tested(eng, st, obj, f):
                    self.report(eng, st, x, "untested-wait", "waits for %s without having tested %s.%s under the mutex" % (cname(cond), c[0], f))
            if c[0] == "gracht_worker" and obj not in e:
                self.report(eng, st, x, "untested-wait", "waits for work without having found the queue empty since the mutex was acquired")
            eng.effects(st, x, name, args)
            st.ps = (st.ps[0], (u | frozenset((obj, f, c[0]) for f in fs), o, frozenset(k for k in e if k != obj and k[:2] != ("asked", obj))))
            if x.ty != "void":
                st.env[x.i] = eng.fresh(st, x)
            return [st]
        if name in ("cnd_signal", "cnd_broadcast"):
            c = cls(args[0])
            if args[0][0] == "f":
                o = frozenset(k for k in o if not (k[1] == args[0][1] and k[3] == c))
                st.ps = (st.ps[0], (u, o, e))
            return None
        if name == "gr_queue_enqueue" and label(args[0]) == QUEUE:
            self.bump("work queued")
            obj = args[0][1]
            owed = (u, o | {("queue", obj, C0, ("gracht_worker", "signal"))}, e)
            return eng.fork(st, x, name, args, [("zero", (st.ps[0], owed)), ("nonzero", st.ps)])
        if name == "gr_queue_dequeue" and label(args[0]) == QUEUE:
            obj = args[0][1]
            if ("asked", obj, x.i) in e:
                self.report(eng, st, x, "busy", "the queue that was found empty is asked again without having waited for work")
                return []
            return eng.fork(st, x, name, args, [("zero", (st.ps[0], (u, o, e | {obj, ("asked", obj, x.i)}))), ("nonzero", st.ps)])
        if name == "thrd_join":
            self.owe(eng, st, x, "before waiting for the thread")
        return None

    def store(self, eng, st, x, addr, val):
        l = label(addr)
        if l not in PRED or addr[0] != "f":
            return
        u, o, e = st.ps[1]
        obj = addr[1]
        if l == ("gracht_worker", "state"):
            if eng.fn.base in self.threads or val == C0:
                return
            self.bump("shutdown requested")
            o = o | {("state", obj, val, PRED[l])}
        elif l == ("gracht_message_awaiter", "current_count"):
            if eng.eff_fresh(obj):
                return
            self.bump("completion counted")
            o = frozenset(k for k in o if not (k[0] == "count" and k[1] == obj)) | {("count", obj, val, PRED[l])}
        elif l == ("rwlock", "readers"):
            old = eng.read(st, addr)
            e = self.moved(e, obj, old, val)
            if val[0] == "op" and val[1] == "add" and val[3][0] == "c" and val[3][1] < 0 or (val == C0 and old is not None and old != C0):
                self.bump("reader left")
                o = o | {("readers", obj, val, PRED[l])}
        st.ps = (st.ps[0], (u, o, e))

    def moved(self, e, obj, old, val):
        """how far the number of readers has changed"""
        n = sum(k[2] for k in e if k[:2] == ("readers", obj)) if not any(k == ("readers?", obj) for k in e) else None
        d = locks.index_delta(old, val) if old is not None else None
        e = frozenset(k for k in e if k[:2] != ("readers", obj) and k != ("readers?", obj))
        return e | {("readers?", obj) if n is None or d is None else ("readers", obj, n + d)}

    READERS = {"rwlock_r_lock": 1, "rwlock_r_unlock": -1, "rwlock_w_lock": 0, "rwlock_w_unlock": 0}

    def excused(self, eng, st, k):
        kind, obj, val, c = k
        if kind == "readers":
            return eng.iszero(st, val) is False
        if kind == "count":
            cnt = st.mem.get(("f", obj, "gracht_message_awaiter", "count"))
            flg = st.mem.get(("f", obj, "gracht_message_awaiter", "flags"))
            ne = cnt is not None and (self.is_(eng, st, "eq", val, cnt) is False or self.is_(eng, st, "slt", val, cnt) is True)
            nany = self.is_(eng, st, "sgt", val, C0) is False
            if flg is not None and any(a[0] == "eq" and a[2] == C0 and v is False and a[1][0] == "op" and a[1][1] == "and" and a[1][2] == flg
                                       for a, v in st.facts.items()):
                nany = True
            return ne and nany
        return False

    def is_(self, eng, st, p, a, b):
        at, pol = eng.atom(p, a, b)
        d = eng.decide(st, at)
        return None if d is None else d == pol

    def owe(self, eng, st, x, when):
        for k in st.ps[1][1]:
            if not self.excused(eng, st, k):
                what = {"queue": "work was queued", "state": "a shutdown was requested", "count": "a completion was counted",
                        "readers": "the last reader may have left", "w": "the exclusive lock was released"}[k[0]]
                self.report(eng, st, x, "lost-wakeup", "%s but %s.%s is not signalled %s" % ((what,) + k[3] + (when,)))

    def ret(self, eng, st, x, val):
        for k in list(st.ps[1][0]):
            self.settle(eng, st, x, k[0])
        self.owe(eng, st, x, "before the function returns")
        if eng.fn.base in self.READERS:
            self.bump("readers counted")
            e, obj = st.ps[1][2], ("a", 0)
            n = sum(k[2] for k in e if k[:2] == ("readers", obj))
            if ("readers?", obj) not in e and n != self.READERS[eng.fn.base]:
                self.report(eng, st, x, "readers", "the number of readers changes by %d instead of by %d" % (n, self.READERS[eng.fn.base]))
        if eng.fn.base == "rwlock_w_lock":
            self.bump("exclusive lock granted")
            a = ("f", ("a", 0), "rwlock", "readers")
            if eng.iszero(st, st.mem.get(a, ("u",))) is not True:
                self.report(eng, st, x, "writer-with-readers", "the exclusive lock is granted without readers having been found to be zero")
            if self.find(st, ("f", ("a", 0), "rwlock", "sync_object")) is None:
                self.report(eng, st, x, "writer-unlocked", "the exclusive lock is granted without holding rwlock.sync_object")


class WUnlock(Wait):
    def __init__(self, mod, threads, counts):
        super().__init__(mod, threads, counts)
        self.initial = ((("f", ("a", 0), "rwlock", "sync_object"), "x"),)

    def start_more(self, eng):
        self.bump("exclusive lock released")
        return (frozenset(), frozenset({("w", ("a", 0), C0, ("rwlock", "signal"))}), frozenset())


def check(ctx):
    mod = ctx.mod
    threads = {mod.fn[n].base for n, us in mod.taken_by.items() if any(x.d["callee"][:2] == ["g", "thrd_create"] for x, k in us)}
    ctx.need(threads, "no thread entry function")
    counts = ctx.stats["rules"]

    def fresh(obj):
        # objects allocated in the function have no waiter yet
        return obj[0] in ("v", "old") and obj in alloc

    alloc = set()

    def make(f):
        alloc.clear()
        for x in f.calls():
            if x.d["callee"][0] == "g" and x.d["callee"][1] in ("malloc", "calloc"):
                alloc.add(("v", x.i))
                alloc.add(("old", x.i))
        return (WUnlock if f.base == "rwlock_w_unlock" else Wait)(mod, threads, counts)
    engine.Engine.eff_fresh = lambda self, obj: fresh(obj)
    ctx.run(make)
    loops.check(ctx)
    for k in ("condition wait", "work queued", "shutdown requested", "completion counted", "readers counted", "exclusive lock granted",
              "exclusive lock released"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
    ctx.extra["conditions"] = ["%s.%s" % c for c in CONDS]
    ctx.assumptions += ["operations on C11 mutexes and condition variables that are initialised do not fail"]
