"""C30: a call that fails says why."""
import errno, os
from gv.anchors import API
from gv.engine import C0, label, root
from gv.facts import Facts, strip
from props.c24 import negative

LEVEL = "other"
RULE = ("on every path on which a function of the library fails, it has set a positive error code or a call that sets one has failed; the code is EINVAL when something that is needed was not given, ENOMEM when "
        "there was no memory, and tells what is unknown, there already, or not possible now")
# calls that fail without an error code
SILENT = {"mtx_trylock", "mtx_unlock", "mtx_init", "mtx_destroy", "cnd_init", "cnd_destroy", "cnd_wait", "cnd_signal", "cnd_broadcast", "thrd_create", "thrd_join", "gr_hashtable_get", "gr_hashtable_remove",
          "stack_pop", "stack_push", "gr_queue_dequeue", "gracht_arena_allocate", "memcmp", "strcmp", "strlen", "free", "memcpy", "memset", "memmove", "__errno_location", "slot:server_operations.get_incoming_buffer"}
POINTERS = {"malloc", "calloc", "realloc", "strdup", "gr_hashtable_set"}
ALLOC = {"malloc", "calloc", "realloc", "gracht_arena_allocate", "slot:server_operations.get_incoming_buffer"}
LOOKUP = {"gr_hashtable_get", "gr_hashtable_remove"}


NOW = {"gracht_server_add_link": (errno.EPERM, errno.ENOENT), "gracht_server_register_protocol": (errno.EPERM,), "gracht_server_get_aio_handle": (errno.EPERM,), "gracht_server_main_loop": (errno.EPERM, errno.EALREADY),
       "gracht_server_handle_event": (errno.EPIPE,), "gracht_client_connect": (errno.EISCONN,)}

OPTIONAL = {("gracht_client_wait_message", 1), ("gracht_client_invoke", 1)}


class Why(Facts):
    def __init__(self, mod, counts, fn):
        super().__init__(mod, counts)
        self.fn = fn

    def load(self, eng, st, x, addr, val):
        # what was read through is there
        a = addr
        while a[0] == "f":
            a = a[1]
        if a[0] in ("x", "v"):
            st.facts[("eq", a, C0)] = False
        if (label(addr) or ("", ""))[1] == "type" and val[0] == "v":
            self.set(st, "kind", val)

    def call(self, eng, st, x, name, args):
        if name.startswith("llvm."):
            return None
        if name == "mtx_trylock":
            return eng.fork(st, x, name, args, [("zero", st.ps), ("nonzero", st.ps | {("busy",)})])
        if name == "mtx_lock":
            st.ps = st.ps - {("busy",)}
        if name.startswith("slot:") and name.endswith(".recv"):
            self.drop(st, "look")
        if name in SILENT and name not in ALLOC and name not in LOOKUP:
            return None
        r = eng.default_call(st, x, name, args)
        for s in r:
            v = s.env.get(x.i)
            if v is None or x.ty == "void":
                continue
            s.ps = frozenset(p for p in s.ps if p[0] not in ("cause", "mem", "look") or p[1] != v)
            if name not in SILENT:
                self.add(s, "cause", v, name)
            if name in ALLOC:
                self.set(s, "mem", v)
            if name in LOOKUP:
                self.drop(s, "look")
                self.add(s, "look", v, (label(args[0]) or ("", ""))[1])
        return r

    def store(self, eng, st, x, addr, val):
        if addr == ("errno",):
            if self.origin(eng, val) == ("errno",):
                self.drop(st, "said")       # the code of what failed is put back
                return
            self.set(st, "said", strip(val))
            if val[0] == "c" and val[1] <= 0:
                self.report(eng, st, x, "why", "an error code is set that is none")

    def failed(self, eng, st, v):
        """the call that failed and has told why"""
        for t in self.all(st, "cause"):
            r = strip(t[1])
            if t[2] in ("recv", "recvfrom") and ((eng.const(st, r) or 0) > 0 or negative(eng, st, r) is False):
                continue
            if r == v or t[2] in ("send", "sendto") or eng.iszero(st, r) is (t[2] in POINTERS) or negative(eng, st, r) is True:
                return t[2]
        return None

    def expected(self, eng, st, v):
        """the codes that fit the reason of the failure, None if any does"""
        if self.fn.base not in API:
            return None
        if any(eng.iszero(st, ("a", k)) is True and (self.fn.base, k) not in OPTIONAL for k, t in enumerate(self.fn.args) if t == "ptr"):
            return (errno.EINVAL,), "something that is needed was not given"
        m = self.one(st, "mem")
        if m is not None and eng.iszero(st, m) is True:
            return (errno.ENOMEM,), "there is no memory"
        if self.failed(eng, st, v):
            return None
        if ("busy",) in st.ps:
            return (errno.EBUSY,), "another thread receives"
        for t in self.all(st, "look"):
            none = eng.iszero(st, t[1])
            if t[2] == "protocols":
                if self.fn.base == "gracht_client_wait_message":
                    return (errno.ENOTSUP,), "the event is not supported"
                if none is False:
                    return (errno.EEXIST,), "the service is registered already"
            elif none is True:
                return (errno.ENODEV if self.fn.base == "gracht_server_respond" else errno.ENOENT,), "there is no such client or message"
        if self.fn.base in NOW:
            return NOW[self.fn.base], "this is not possible now"
        return None

    def ret(self, eng, st, x, val):
        if val is None:
            return
        v = strip(val)
        if v[0] != "c" or v[1] >= 0 or self.odd(eng, st):
            return
        self.bump("failure checked")
        said = self.one(st, "said")
        if said is None and self.failed(eng, st, v) is None:
            self.report(eng, st, x, "why", "a call fails without saying why")
            return
        e = self.expected(eng, st, v)
        if e is not None:
            self.bump("code checked")
            if said is None and e[0] != (errno.ENOMEM,) or said is not None and (said[0] != "c" or said[1] not in e[0]):
                self.report(eng, st, x, "code", "the error code does not tell that " + e[1])

    def odd(self, eng, st):
        """an enumeration has none of its values: can not be"""
        k = self.one(st, "kind")
        return k is not None and eng.iszero(st, k) is False and st.facts.get(("eq", k, ("c", 1))) is False


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    ctx.run(lambda f: Why(mod, counts, f), [f for f in ctx.roots() if not f.base.endswith("_cmp")])
    for k, n in (("failure checked", 50), ("code checked", 30)):
        ctx.need(counts.get(k, 0) >= n, "too few instances of: %s" % k)
