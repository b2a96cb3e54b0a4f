"""C25: instances start out as configured and completely set up."""
from gv import wire
from gv.engine import C0, contains, flat, label, root
from gv.facts import Facts, plus, strip
from props.c24 import negative

LEVEL = "other"
RULE = ("value-flow from configurations to instances on every path: configuration calls store exactly what they are given; creating succeeds only with an instance whose event descriptor, callbacks, message size, buffers, "
        "memory pool, workers and tables are the ones the configuration asks for, with no connection, running, and with the control protocol registered; every lock and condition that the library uses is initialised "
        "exactly once before the object is used or handed out; all operations of a link are provided and match its role")
SRV, CL, SC, CC = "gracht_server", "gracht_client", "gracht_server_configuration", "gracht_client_configuration"
LINK, SOCK = "gracht_link", "gracht_link_socket"
LOCKOPS = {"mtx_lock": (0,), "mtx_trylock": (0,), "mtx_unlock": (0,), "cnd_wait": (0, 1), "cnd_timedwait": (0, 1), "cnd_signal": (0,), "cnd_broadcast": (0,),
           "rwlock_r_lock": (0,), "rwlock_w_lock": (0,), "rwlock_r_unlock": (0,), "rwlock_w_unlock": (0,)}
INITS = ("mtx_init", "cnd_init", "rwlock_init")
DESTROYS = ("mtx_destroy", "cnd_destroy", "rwlock_destroy")

SETTERS = {
    "gracht_client_configuration_set_link": {(CC, "link"): 1},
    "gracht_client_configuration_set_send_buffer": {(CC, "send_buffer"): 1},
    "gracht_client_configuration_set_recv_buffer": {(CC, "recv_buffer"): 1, (CC, "recv_buffer_size"): 2},
    "gracht_client_configuration_set_max_msg_size": {(CC, "max_message_size"): 1},
    "gracht_server_configuration_set_aio_descriptor": {(SC, "set_descriptor"): 1, (SC, "set_descriptor_provided"): True},
    "gracht_server_configuration_set_num_workers": {(SC, "server_workers"): 1},
    "gracht_server_configuration_set_max_msg_size": {(SC, "max_message_size"): 1},
    "gracht_link_socket_set_type": {(LINK, "type"): 1},
    "gracht_link_socket_set_domain": {(SOCK, "domain"): 1},
    "gracht_link_socket_set_address": {(SOCK, "address_length"): 2},
    "gracht_link_socket_set_listen": {(SOCK, "listen"): 1},
}
GETTERS = {
    "gracht_client_iod": (CL, "iod"),
    "gracht_link_get_handle": (LINK, "connection"),
    "gracht_link_get_type": (LINK, "type"),
    "gracht_server_get_aio_handle": (SRV, "set_handle"),
}


def fields(mod, short):
    for n, s in mod.structs.items():
        if n.split(".")[:2] == ["struct", short]:
            return [mod.fieldname(n, k)[1] for k in range(len(s["fields"]))]
    return []


class Setter(Facts):
    def __init__(self, mod, counts, want, name):
        super().__init__(mod, counts)
        self.want, self.name = want, name
        self.keep = frozenset(want)

    def store(self, eng, st, x, addr, val):
        if root(addr) == ("a", 0) and label(addr) not in self.want and self.cell(eng, st, addr) != val and self.origin(eng, val) != addr:
            self.report(eng, st, x, "setting", "a configuration call changes something else than what it is for")

    def call(self, eng, st, x, name, args):
        if self.name == "gracht_link_socket_set_address" and name in ("memcpy", "memmove"):
            if args[0] == ("f", ("a", 0), SOCK, "address") and args[1] == ("a", 1) and strip(args[2]) in (("a", 2), ("c", 128)):
                self.add(st, "address")
        if name in ("gracht_link_server_socket_api", "gracht_link_client_socket_api"):
            if args[0] != ("a", 0):
                self.report(eng, st, x, "role", "the operations of another link are set")
            self.set(st, "role", name)
        return None

    def ret(self, eng, st, x, val):
        if eng.iszero(st, ("a", 0)) is True:
            return
        self.bump("setting checked")
        for (s, f), k in sorted(self.want.items()):
            v = strip(self.cell(eng, st, ("f", ("a", 0), s, f)))
            z = eng.iszero(st, v)
            if k is True and z is not False or k is not True and v != ("a", k) and not (z is not None and eng.iszero(st, ("a", k)) is z and f == "listen"):
                self.report(eng, st, x, "setting", "a configuration call does not store the %s it is given" % f)
        if self.name == "gracht_link_socket_set_address" and not self.all(st, "address"):
            self.report(eng, st, x, "setting", "the address of a link is not stored")
        if self.name == "gracht_link_socket_set_listen":
            z = eng.iszero(st, ("a", 1))
            want = {True: "gracht_link_client_socket_api", False: "gracht_link_server_socket_api"}.get(z)
            if want is None or self.one(st, "role") != want:
                self.report(eng, st, x, "role", "a link does not get the operations of its role")


class Getter(Facts):
    def __init__(self, mod, counts, want):
        super().__init__(mod, counts)
        self.want = want

    def edge(self, eng, st, x, succ):
        for (p, a, b), v in list(st.facts.items()):
            if p == "eq" and self.field(eng, a, ("a", 0), SRV, "state") and b[0] == "c" and v is (b[1] != 1):
                self.add(st, "stopped")

    def ret(self, eng, st, x, val):
        self.edge(eng, st, x, None)
        if eng.iszero(st, ("a", 0)) is True or self.all(st, "stopped"):
            self.bump("refusal checked")
            if self.want[1] != "type" and strip(val) not in (("c", -1), ("c", 0xffffffff)):
                self.report(eng, st, x, "reading", "a call that has no %s to return returns something that could be one" % self.want[1])
            return
        self.bump("reading checked")
        if not self.field(eng, val, ("a", 0), *self.want):
            self.report(eng, st, x, "reading", "something else than the %s is returned" % self.want[1])


class Init(Facts):
    """default configurations"""

    def __init__(self, mod, counts, short, defaults):
        super().__init__(mod, counts)
        self.short, self.defaults = short, defaults
        self.keep = frozenset((short, f) for f in fields(mod, short)) | frozenset({("gracht_server_callbacks", "clientConnected"), ("gracht_server_callbacks", "clientDisconnected")})

    def ret(self, eng, st, x, val):
        if eng.iszero(st, ("a", 0)) is True:
            return
        self.bump("defaults checked")
        for f in fields(self.mod, self.short):
            v = strip(self.cell(eng, st, ("f", ("a", 0), self.short, f)))
            if f == "callbacks":
                v = C0 if all(self.cell(eng, st, ("f", ("a", 0), "gracht_server_callbacks", n)) == C0 for n in ("clientConnected", "clientDisconnected")) else ("u",)
            if f == "max_message_size":
                if v[0] != "c" or v[1] <= 0:
                    self.report(eng, st, x, "default", "the default message size is not set")
                else:
                    self.defaults.add(v[1])
            elif f == "recv_buffer_size":
                if v[0] != "c" or v[1] < 0:
                    self.report(eng, st, x, "default", "the size of the receive buffer has no default")
            elif f == "server_workers":
                if v[0] != "c" or not 0 <= v[1] <= 1:
                    self.report(eng, st, x, "default", "by default messages are not handled by the thread of the server")
            elif v != C0:
                self.report(eng, st, x, "default", "the default of %s is not empty" % f)


class Create(Facts):
    """common part of creating a server and a client"""

    def conf(self, eng, v, name):
        return self.field(eng, v, ("a", 0), self.config, name)

    def cond(self, eng, st):
        """what the path has found out about the configuration"""
        for (p, a, b), v in list(st.facts.items()):
            for l, r, left in ((a, b, True), (b, a, False)):
                o = self.origin(eng, l)
                if o is None or root(o) != ("a", 0) or label(o)[0] != self.config or r[0] != "c":
                    continue
                f = label(o)[1]
                if p == "eq" and r == C0:
                    self.set(st, "given " + f, not v)
                lo, hi = None, None         # lo <= value <= hi
                if p == "eq" and v:
                    lo = hi = r[1]
                elif p == "slt" and left:
                    lo, hi = (None, r[1] - 1) if v else (r[1], None)
                elif p == "slt":
                    lo, hi = (r[1] + 1, None) if v else (None, r[1])
                if lo is not None and lo >= 2:
                    self.set(st, "many " + f, True)
                if hi is not None and hi <= 1:
                    self.set(st, "many " + f, False)
                if lo is not None and lo >= 1:
                    self.set(st, "positive " + f, True)
                if hi is not None and hi <= 0:
                    self.set(st, "positive " + f, False)

    def edge(self, eng, st, x, succ):
        self.cond(eng, st)

    def store(self, eng, st, x, addr, val):
        if addr == ("a", 1):
            self.set(st, "out", strip(val))

    def out(self, eng, st):
        """the instance that is handed out"""
        return self.one(st, "out")

    def at(self, eng, st, o, *f):
        return strip(self.cell(eng, st, ("f", o) + f))

    def call(self, eng, st, x, name, args):
        if name in ("gracht_worker_pool_create", "gracht_arena_create", "gr_hashtable_construct", "stack_construct", "gracht_server_register_protocol",
                    "gracht_client_register_protocol", "epoll_create1", "malloc", "calloc"):
            self.cond(eng, st)
            r = eng.default_call(st, x, name, args)
            for s in r:
                self.add(s, "made", name, tuple(strip(a) for a in args), s.env.get(x.i))
            return r
        return None

    def made(self, st, name):
        return [t[2:] for t in self.all(st, "made") if t[1] == name]

    def allocated(self, st):
        return self.made(st, "malloc") + self.made(st, "calloc")

    def done(self, eng, st, name, test):
        return any(test(a) and eng.iszero(st, r) is True for a, r in self.made(st, name))


class Server(Create):
    config = SC
    keep = frozenset({(SRV, n) for n in ("set_handle", "set_handle_provided", "allocationSize", "worker_pool", "arena", "recvBuffer", "ops", "state", "callbacks")} |
                     {("gracht_server_callbacks", n) for n in ("clientConnected", "clientDisconnected")})

    def call(self, eng, st, x, name, args):
        if name in ("memcpy", "memmove") and label(args[0]) == (SRV, "callbacks"):
            if args[1] in (("f", ("a", 0), SC, "callbacks"), ("a", 0)) and args[2] == ("c", 16):
                self.add(st, "callbacks", root(args[0]))
        return super().call(eng, st, x, name, args)

    def table(self, v):
        """functions of a table of operations"""
        g = self.mod.globals.get(v[1]) if v[0] == "g" else None
        i = g.get("init") if g else None
        if not i or i[0] != "S":
            return {}
        return {self.mod.fieldname(i[1], k)[1]: e[1] for k, e in enumerate(i[2]) if e[0] == "g"}

    def pooled(self, fn):
        """the function hands messages to the workers"""
        f = self.mod.fn.get(fn)
        return f is not None and any(x.d["callee"][0] == "g" and self.mod.fn.get(x.d["callee"][1]) is not None and
                                     self.mod.fn[x.d["callee"][1]].base == "gracht_worker_pool_dispatch" for x in f.calls())

    def ret(self, eng, st, x, val):
        self.cond(eng, st)
        if eng.iszero(st, val) is False:
            return
        rep = lambda rule, msg: self.report(eng, st, x, rule, msg)
        self.bump("creating checked")
        o = self.out(eng, st)
        if not any(r == o for a, r in self.allocated(st)):
            rep("handle", "success is reported without a new instance")
            return
        at = lambda *f: self.at(eng, st, o, *f)
        p = self.one(st, "given set_descriptor_provided")
        h, hp = at(SRV, "set_handle"), eng.iszero(st, at(SRV, "set_handle_provided"))
        if p is True:
            if not self.conf(eng, h, "set_descriptor") or hp is not False:
                rep("events", "the event descriptor that was configured is not used")
        elif p is False:
            if not any(r == h for a, r in self.made(st, "epoll_create1")) or negative(eng, st, h) is not False or hp is not True:
                rep("events", "the server has no event descriptor of its own")
        else:
            rep("events", "it is not considered whether an event descriptor was configured")
        cb = [self.origin(eng, self.at(eng, st, b, "gracht_server_callbacks", n)) for b in (o, ("f", o, SRV, "callbacks")) for n in ("clientConnected", "clientDisconnected")]
        if ("callbacks", o) not in st.ps and [(root(c), label(c)[1]) for c in cb if c] != [(("a", 0), "clientConnected"), (("a", 0), "clientDisconnected")]:
            rep("callbacks", "the callbacks of the application are not the ones that were configured")
        size = at(SRV, "allocationSize")
        s, n = plus(size)
        if s is None or not self.conf(eng, s, "max_message_size") or n < 24 + 128:
            rep("size", "messages of the configured size do not fit into the buffers of the server")
        if at(SRV, "state") != ("c", 1):
            rep("state", "a new server is not running")
        t = self.table(at(SRV, "ops"))
        many = self.one(st, "many server_workers")
        if many is None:
            rep("workers", "it is not considered how many workers were configured")
        elif not t.get("dispatch") or self.pooled(t["dispatch"]) is not many:
            rep("workers", "the server does not hand out messages the way it was configured")
        if many:
            if not self.done(eng, st, "gracht_worker_pool_create", lambda a: a[0] == o and self.conf(eng, a[1], "server_workers") and a[2] == ("f", o, SRV, "worker_pool")):
                rep("workers", "the configured number of workers is not created")
            if not self.done(eng, st, "gracht_arena_create", lambda a: a[1] == ("f", o, SRV, "arena")):
                rep("size", "a server with workers has no memory for messages")
        elif many is False:
            b = at(SRV, "recvBuffer")
            if not any(r == b and (a[-1] == size or self.origin(eng, a[-1]) == ("f", o, SRV, "allocationSize")) for a, r in self.allocated(st)) or eng.iszero(st, b) is not False:
                rep("size", "the server has no memory for a message")
        for f in ("protocols", "clients"):
            if not self.done(eng, st, "gr_hashtable_construct", lambda a: a[0] == ("f", o, SRV, f)):
                rep("tables", "the table of %s is not created" % f)
        if not self.done(eng, st, "stack_construct", lambda a: a[0] == ("f", o, SRV, "bufferStack")):
            rep("tables", "the pool of buffers is not created")
        if not self.done(eng, st, "gracht_server_register_protocol", lambda a: a[0] == o and a[1] == ("g", "gracht_control_server_protocol")):
            rep("control", "the control protocol is not registered")


class Client(Create):
    config = CC
    keep = frozenset({(CL, n) for n in ("link", "iod", "max_message_size", "send_buffer", "free_send_buffer", "arena", "current_message_id", "current_awaiter_id")})

    def __init__(self, mod, counts, defaults):
        super().__init__(mod, counts)
        self.defaults = defaults

    def ret(self, eng, st, x, val):
        self.cond(eng, st)
        if eng.iszero(st, val) is False or negative(eng, st, val) is True:
            return
        rep = lambda rule, msg: self.report(eng, st, x, rule, msg)
        self.bump("creating checked")
        o = self.out(eng, st)
        if not any(r == o for a, r in self.allocated(st)):
            rep("handle", "success is reported without a new instance")
            return
        at = lambda *f: self.at(eng, st, o, *f)
        if not self.conf(eng, at(CL, "link"), "link"):
            rep("link", "the link of a client is not the one that was configured")
        if at(CL, "iod") not in (("c", -1), ("c", 0xffffffff)):
            rep("link", "a new client appears to be connected")
        size = at(CL, "max_message_size")
        z = self.one(st, "positive max_message_size")
        if size[0] == "c" and size[1] > 0:
            self.defaults.add(size[1])
            if z is not False:
                rep("size", "the configured message size is not used")
        elif not self.conf(eng, size, "max_message_size") or z is not True:
            rep("size", "the configured message size is not used, or an unusable one is")
        b, own = at(CL, "send_buffer"), eng.iszero(st, at(CL, "free_send_buffer"))
        g = self.one(st, "given send_buffer")
        if self.conf(eng, b, "send_buffer"):
            if g is not True or own is not True:
                rep("buffer", "the configured send buffer is missing, or treated as if it was allocated")
        elif g is not False or own is not False or not any(
                r == b and (a[-1] == size or self.origin(eng, a[-1]) == ("f", o, CL, "max_message_size")) and eng.iszero(st, r) is False for a, r in self.allocated(st)):
            rep("buffer", "the client has no send buffer for messages of the configured size")
        if not self.done(eng, st, "gracht_arena_create", lambda a: a[1] == ("f", o, CL, "arena")):
            rep("size", "the client has no memory for messages")
        for f in ("protocols", "messages", "awaiters"):
            if not self.done(eng, st, "gr_hashtable_construct", lambda a: a[0] == ("f", o, CL, f)):
                rep("tables", "the table of %s is not created" % f)
        if not any(a[0] == o and a[1] == ("g", "gracht_control_client_protocol") for a, r in self.made(st, "gracht_client_register_protocol")):
            rep("control", "the control protocol is not registered")


class Link(Facts):
    """gracht_link_socket_create"""
    keep = frozenset({(LINK, "connection"), (LINK, "type"), (SOCK, "domain"), (SOCK, "listen"), (SOCK, "address_length")})

    def call(self, eng, st, x, name, args):
        if name == "gracht_link_client_socket_api":
            self.add(st, "api", args[0])
        elif name == "gracht_link_socket_set_listen" and args[1] == C0:     # does nothing else, see Setter
            self.add(st, "api", args[0])
            return [st]
        elif name in ("memset", "memcpy", "memmove") and args:
            st.ps = frozenset(t for t in st.ps if t[0] != "api" or t[1] != strip(args[0]))
        return None

    def store(self, eng, st, x, addr, val):
        if addr == ("a", 0):
            self.set(st, "out", strip(val))

    def ret(self, eng, st, x, val):
        if eng.iszero(st, val) is False:
            return
        self.bump("creating checked")
        o = self.one(st, "out") or C0
        if eng.iszero(st, o) is not False or root(o)[0] != "v":
            self.report(eng, st, x, "handle", "success is reported without a new link")
        elif strip(self.cell(eng, st, ("f", o, LINK, "connection"))) not in (("c", -1), ("c", 0xffffffff)) or ("api", o) not in st.ps:
            self.report(eng, st, x, "link", "a new link is not a link of a client without connection")
        else:
            at = {f: strip(self.cell(eng, st, ("f", o, *f))) for f in sorted(self.keep)}
            if at[(SOCK, "domain")] != ("c", 2) or at[(SOCK, "listen")] != C0 or at[(SOCK, "address_length")] != C0 or at[(LINK, "type")] not in (C0, ("c", 1)):
                self.report(eng, st, x, "link", "a new link does not have the documented defaults (AF_INET, not listening, no address)")


class Api(Facts):
    def __init__(self, mod, counts, short):
        super().__init__(mod, counts)
        self.short = short
        self.keep = frozenset((short, f) for f in fields(mod, short))

    def store(self, eng, st, x, addr, val):
        if label(addr) and label(addr)[0] == self.short and root(addr) == ("a", 0):
            self.drop(st, "op " + label(addr)[1])
            if val[0] == "g":
                self.add(st, "op " + label(addr)[1])

    def ret(self, eng, st, x, val):
        fs = fields(self.mod, self.short)
        if not fs:
            self.report(eng, st, x, "role", "the operations of a link are unknown")
        for f in fs:
            self.bump("operation checked")
            if not self.all(st, "op " + f):
                self.report(eng, st, x, "role", "a link has no operation %s" % f)


class Locks(Facts):
    """every lock and condition of an object is initialised before the object is used"""

    def __init__(self, mod, counts, used, fn):
        super().__init__(mod, counts)
        self.used = used
        self.fn = fn
        self.makes = {mod.static_label(fn, x.d["args"][0])[0] for x in inits(mod, fn)}

    def obj(self, addr):
        return addr[1] if addr[0] == "f" else None

    def complete(self, eng, st, x, o, what):
        for s in {t[2] for t in self.all(st, "init") if t[1] == o}:
            for f in self.used.get(s, ()):
                if ("init", o, s, f) not in st.ps:
                    self.report(eng, st, x, "lock", "the %s of a %s is not initialised when it is %s" % (f, s, what))

    def call(self, eng, st, x, name, args):
        if name in INITS and args[0][0] == "f":
            l = label(args[0])
            self.bump("initialisation checked")
            t = ("init", self.obj(args[0])) + l
            if t in st.ps:
                self.report(eng, st, x, "lock", "the %s of a %s is initialised twice" % (l[1], l[0]))
            st.ps = st.ps | {t}
        elif name in DESTROYS and args[0][0] == "f":
            st.ps = st.ps - {("init", self.obj(args[0])) + label(args[0])}
        elif name in LOCKOPS:
            for k in LOCKOPS[name]:
                a = args[k]
                if a[0] == "f" and root(a)[0] in ("al", "v") and label(a)[0] in self.makes and self.fresh(eng, st, root(a)):
                    self.bump("use checked")
                    if ("init", self.obj(a)) + label(a) not in st.ps:
                        self.report(eng, st, x, "lock", "the %s of a %s is used before it is initialised" % (label(a)[1], label(a)[0]))
        elif name in ("malloc", "calloc"):
            r = eng.default_call(st, x, name, args)
            for s in r:
                self.add(s, "fresh", s.env.get(x.i))
            return r
        elif name == "thrd_create":
            for o in {t[1] for t in self.all(st, "init")}:
                self.complete(eng, st, x, o, "handed to a thread")
        elif name in self.mod.fn or name.startswith("slot:") or name.startswith("gr"):
            for a in args:
                for o in {t[1] for t in self.all(st, "init")}:
                    if a == o:
                        self.complete(eng, st, x, o, "used")
        return None

    def fresh(self, eng, st, r):
        return r[0] == "al" or ("fresh", r) in st.ps

    def ret(self, eng, st, x, val):
        if self.fn.base in INITS:
            for s in self.makes:
                for f in self.used.get(s, ()):
                    self.bump("initialisation checked")
                    if ("init", ("a", 0), s, f) not in st.ps:
                        self.report(eng, st, x, "lock", "the %s of a %s is not initialised" % (f, s))
            if self.fn.base == "rwlock_init" and strip(self.cell(eng, st, ("f", ("a", 0), "rwlock", "readers"))) != C0:
                self.report(eng, st, x, "lock", "a new lock has readers")
            return
        if val is not None and (eng.iszero(st, val) is False or negative(eng, st, val) is True):
            return
        for o in {t[1] for t in self.all(st, "init")}:
            if root(o)[0] != "al":
                self.complete(eng, st, x, o, "handed out")
        # an object whose locks are initialised here, but not on this path
        for s in self.makes:
            if not any(t[2] == s for t in self.all(st, "init")) and self.handed(eng, st, s):
                self.report(eng, st, x, "lock", "the locks of a %s are not initialised when it is handed out" % s)

    def handed(self, eng, st, s):
        """the path hands out a new object (there is one structure of this kind per function that initialises its locks)"""
        if s == "gracht_worker" or s == "gracht_message_awaiter":
            return False
        if s == "stack":
            return eng.iszero(st, ("a", 0)) is False
        return bool(self.all(st, "fresh")) and all(eng.iszero(st, t[1]) is False for t in self.all(st, "fresh"))


def inits(mod, f):
    return [x for x in f.calls() if x.d["callee"][0] == "g" and base(mod, x.d["callee"][1]) in INITS and mod.static_label(f, x.d["args"][0])]


def base(mod, n):
    f = mod.fn.get(n)
    return f.base if f is not None else n


class Pool(Facts):
    """creating the workers"""
    keep = frozenset({("gracht_worker_pool", n) for n in ("workers", "worker_count", "rr_index")} | {("gracht_worker_context", n) for n in ("worker", "server")} |
                     {("gracht_worker", "state")})

    def position(self, st, t):
        """(symbol, number) an index, or a pointer to a worker, stands for"""
        t = strip(t)
        s, n = (None, 0)
        b, parts = flat(t) if t[0] == "x" else (t, ())
        if ("pointer", b) in st.ps:
            s, n = b, 0
        elif t[0] != "x" and ("base", b) not in st.ps:
            return plus(t)
        for i, _ in parts:
            p, k = plus(strip(i))
            if p is not None and s is not None:
                return None
            s, n = s if p is None else p, n + k
        return (s, n)

    def next(self, st):
        """the worker to be started next; the ones before it run"""
        return self.one(st, "next") or (None, 0)

    def rename(self, eng, st, v, s):
        if self.position(st, v) == self.next(st):
            self.set(st, "next", (s, 0))
            if strip(v)[0] == "x" or ("base", strip(v)) in st.ps:
                self.add(st, "pointer", s)

    def load(self, eng, st, x, addr, val):
        if label(addr) == ("gracht_worker_pool", "workers"):
            self.add(st, "base", val)
        if label(addr) == ("gracht_worker_pool", "worker_count") and self.all(st, "sync"):
            self.set(st, "next", plus(strip(val)))

    def store(self, eng, st, x, addr, val):
        if label(addr) == ("gracht_worker_pool", "workers"):
            self.add(st, "base", strip(val))
        if label(addr) == ("gracht_worker_pool", "worker_count"):
            self.add(st, "counted")
            self.drop(st, "sync")
            if plus(strip(val)) == self.next(st):
                self.add(st, "sync")
            if self.next(st) == (None, 0) and strip(val) not in (C0, ("a", 1)):
                self.report(eng, st, x, "count", "workers are counted that were not started")
        if label(addr) == ("gracht_worker_pool", "rr_index"):
            self.add(st, "turn")
            if strip(val) != C0:
                self.report(eng, st, x, "count", "the first message is not for the first worker")

    def edge(self, eng, st, x, succ):
        for (p, a, b), v in list(st.facts.items()):
            for l, r in ((a, b), (b, a)):
                if self.position(st, l) == (("a", 1), 0) and (p == "eq" and v or p in ("slt", "ult") and l == b and not v) and self.position(st, r) == self.next(st):
                    self.add(st, "all")

    def ret(self, eng, st, x, val):
        self.edge(eng, st, x, None)
        if eng.iszero(st, val) is False:
            return
        self.bump("pool checked")
        if not self.all(st, "all"):
            self.report(eng, st, x, "count", "success is reported before every worker was started")
        if not self.all(st, "counted") or not self.all(st, "turn"):
            self.report(eng, st, x, "count", "the number of workers, or whose turn it is, is not set")

    def call(self, eng, st, x, name, args):
        if name == "thrd_create":
            self.bump("worker started")
            c = args[2]
            w, s = (strip(self.cell(eng, st, ("f", c, "gracht_worker_context", n))) for n in ("worker", "server"))
            if s != ("a", 0):
                self.report(eng, st, x, "worker", "a worker does not know its server")
            if label(args[0]) != ("gracht_worker", "id") or args[0][1] != w:
                self.report(eng, st, x, "worker", "a thread is started for another worker, or not remembered")
            if strip(self.cell(eng, st, ("f", w, "gracht_worker", "state"))) != C0:
                self.report(eng, st, x, "worker", "a worker is started that is not alive")
            if ("queue", w) not in st.ps:
                self.report(eng, st, x, "worker", "a worker is started without a queue")
            p = self.position(st, w)
            if p is None or p != self.next(st):
                self.report(eng, st, x, "worker", "the workers are not started one after the other")
                p = (None, 0)
            return eng.fork(st, x, name, args, [("zero", frozenset(t for t in st.ps if t[0] not in ("next", "sync")) | {("next", (p[0], p[1] + 1))}), ("nonzero", st.ps)])
        if name == "gr_queue_construct" and label(args[0]) == ("gracht_worker", "job_queue"):
            return eng.fork(st, x, name, args, [("zero", st.ps | {("queue", args[0][1])}), ("nonzero", st.ps)])
        return None


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    for n, w in sorted(SETTERS.items()):
        ctx.run(lambda f: Setter(mod, counts, w, n), [mod.get(n)])
    for n, w in sorted(GETTERS.items()):
        ctx.run(lambda f: Getter(mod, counts, w), [mod.get(n)])
    defaults = set()
    for n, s in (("gracht_client_configuration_init", CC), ("gracht_server_configuration_init", SC)):
        ctx.run(lambda f: Init(mod, counts, s, defaults), [mod.get(n)])
    ctx.run(lambda f: Server(mod, counts), [mod.get("gracht_server_create")])
    ctx.run(lambda f: Client(mod, counts, defaults), [mod.get("gracht_client_create")])
    ctx.run(lambda f: Link(mod, counts), [mod.get("gracht_link_socket_create")])
    for n, s in (("gracht_link_client_socket_api", "client_link_ops"), ("gracht_link_server_socket_api", "server_link_ops")):
        ctx.run(lambda f: Api(mod, counts, s), [mod.get(n)])
    if len(defaults) > 1:
        f = mod.get("gracht_client_configuration_init")
        ctx.report(f.base, f.file, f.file, "default", "client and server have different default message sizes: %s" % sorted(defaults))
    used, made = {}, {}
    for f in mod.fn.values():
        if f.decl:
            continue
        for x in f.calls():
            c = x.d["callee"]
            n = base(mod, c[1]) if c[0] == "g" else None
            for k in LOCKOPS.get(n, ()) if n in LOCKOPS else (0,) if n in INITS else ():
                l = mod.static_label(f, x.d["args"][k])
                if l:
                    d = used if n in LOCKOPS else made
                    d.setdefault(l[0], {}).setdefault(l[1], (f, x))
    ctx.need(len(used) >= 6, "too few kinds of locks")
    for s in sorted(used):
        for f in sorted(used[s]):
            ctx.oblige("lock %s.%s" % (s, f))
            if f not in made.get(s, {}):
                fn, x = used[s][f]
                ctx.report(fn.base, fn.file, x.where(), "lock", "the %s of a %s is used but never initialised" % (f, s))
    fs = [f for f in mod.fn.values() if not f.decl and inits(mod, f)]
    ctx.run(lambda f: Locks(mod, counts, used, f), sorted(fs, key=lambda f: f.name))
    ctx.run(lambda f: Pool(mod, counts), [mod.get("gracht_worker_pool_create")])
    for k in ("setting checked", "reading checked", "defaults checked", "creating checked", "operation checked", "initialisation checked", "worker started", "pool checked"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
