"""C01: locks are released on every path."""
from gv import build, gen, locks
from gv.engine import C0
from gv.locks import cls, cname

LEVEL = "other"
RULE = ("lock typestate on every path of every function (helpers inlined): a release needs a matching acquisition, a plain lock is not taken again before it was given back, every exit leaves "
        "the lock set of the entry, except the documented hand-over of the send buffer lock from gracht_client_get_buffer (result 0) to "
        "gracht_client_invoke; every generated client stub performs exactly one invoke per successful get_buffer")
SEND = ("gracht_client", "send_buffer_lock")


class Balance(locks.LockMonitor):
    def on_release(self, eng, st, x, addr, mode, k):
        if k is None:
            self.report(eng, st, x, "release-without-acquire", "%s is released on a path that does not hold it" % cname(addr))

    def on_again(self, eng, st, x, addr):
        self.report(eng, st, x, "acquired-again", "%s is taken again before it was given back" % cname(addr))

    def on_call(self, eng, st, x, name, args):
        if name in ("mtx_destroy", "rwlock_destroy"):
            self.instances += 1
            if self.find(st, args[0]) is not None:
                self.report(eng, st, x, "destroyed-while-held", "%s is destroyed while it is held" % cname(args[0]))
        return None

    def ret(self, eng, st, x, val):
        held = list(st.ps[0])
        f = eng.fn.base
        self.instances += 1
        if f == "gracht_client_get_buffer":
            z = eng.iszero(st, val)
            has = [h for h in held if cls(h[0]) == SEND]
            held = [h for h in held if h not in has]
            if z is not False and len(has) != 1:
                self.report(eng, st, x, "send-lock-contract", "success is returned without holding the send buffer lock exactly once")
            if z is not True and has:
                self.report(eng, st, x, "send-lock-contract", "failure is returned while the send buffer lock is held")
        elif f == "gracht_client_invoke":
            # a call without client or message can not release anything
            if any(eng.iszero(st, ("a", k)) is True for k in (0, 2)):
                held = [h for h in held if h not in self.initial]
        elif f == "rwlock_w_lock":
            has = [h for h in held if cls(h[0]) == ("rwlock", "sync_object")]
            if len(has) != 1:
                self.report(eng, st, x, "rwlock-contract", "the write lock is returned without excluding others")
            held = [h for h in held if h not in has]
        for a, m in held:
            self.report(eng, st, x, "held-at-exit", "%s is still held when the function returns" % cname(a))


class Stub(locks.LockMonitor):
    """generated client code: get_buffer / invoke pairing; ps = number of borrowed send buffers"""

    def start(self, eng):
        return 0

    def call(self, eng, st, x, name, args):
        if name == "gracht_client_get_buffer":
            self.instances += 1
            if st.ps:
                self.report(eng, st, x, "stub-double-get", "the send buffer is requested while it is already borrowed")
            return eng.fork(st, x, name, args, [("zero", 1), ("nonzero", st.ps)])
        if name == "gracht_client_invoke":
            self.instances += 1
            if not st.ps:
                self.report(eng, st, x, "stub-invoke", "the message is sent without the send buffer being borrowed")
            st.ps = 0
            return None
        return None

    def ret(self, eng, st, x, val):
        if st.ps:
            self.report(eng, st, x, "stub-keeps-buffer", "generated code returns without sending the message it borrowed the send buffer for")


def check(ctx):
    mod = ctx.mod
    for n in ("gracht_client_get_buffer", "gracht_client_invoke"):
        mod.get(n)

    def make(f):
        init = ()
        if f.base == "gracht_client_invoke":
            init = ((("f", ("a", 0)) + SEND, "x"),)
        elif f.base == "rwlock_w_unlock":
            init = ((("f", ("a", 0), "rwlock", "sync_object"), "x"),)
        elif f.base in locks.LOCKERS and not f.base.startswith("rwlock"):
            return None
        return Balance(mod, init)
    mons = ctx.run(make)
    sites = sum(len(m.sites) for m in mons)
    ctx.extra["lock_sites"] = sites
    ctx.need(sites >= 20, "only %d lock sites found" % sites)
    ctx.stats["rules"]["lock operations"] = sites
    gen.client_stubs(ctx, Stub)
