"""Path-sensitive typestate dataflow over one inlined function.

Abstract state: a term per live register, the known content of memory cells, the truth of the comparisons decided so far
and the state of the property automaton (the monitor). States that agree on everything that is still live are merged;
values recomputed in a loop are renamed, so every run reaches a fixpoint. Nothing is executed and no solver is involved:
a branch is only excluded when the comparison, or an interval derived from earlier comparisons of the same term with
constants, already decides it."""
import time
from . import ir

PURE = {
    "printf", "puts", "putchar", "fprintf", "perror", "strlen", "strcmp", "memcmp", "__errno_location", "malloc", "calloc",
    "free", "close", "epoll_ctl", "epoll_create1", "socket", "bind", "listen", "connect", "send", "sendto", "htons",
    "mtx_unlock", "mtx_init", "mtx_destroy", "cnd_init", "cnd_destroy", "cnd_signal", "cnd_broadcast", "thrd_create",
    "thrd_join", "thrd_detach", "crc32_generate", "rwlock_r_unlock", "rwlock_w_unlock", "shutdown", "strerror", "write",
    "gr_hashtable_get", "strdup", "realloc",
}
ACQUIRE = {"mtx_unlock", "rwlock_r_unlock", "rwlock_w_unlock", "mtx_lock", "mtx_trylock", "mtx_timedlock", "cnd_wait", "cnd_timedwait", "rwlock_r_lock", "rwlock_w_lock"}
NORETURN = {"abort", "exit", "_exit", "__assert_fail"}
# pointer arguments that are only read, by callee
READONLY = {"gr_hashtable_get": (0, 1), "gr_hashtable_set": (1,), "gr_hashtable_remove": (1,), "send": (1,), "sendto": (1, 4)}
# fields that identify objects; they are written before an object is shared
STABLE = {
    ("gracht_message", "server"), ("gracht_message", "link"), ("gracht_message", "client"),
    ("gracht_client", "link"), ("gracht_client", "arena"), ("gracht_client", "send_buffer"), ("gracht_client", "max_message_size"),
    ("client_wrapper", "handle"), ("client_wrapper", "link"), ("client_wrapper", "client"),
    ("gracht_server", "ops"), ("gracht_server", "arena"), ("gracht_server", "worker_pool"), ("gracht_server", "set_handle"),
    ("gracht_server_callbacks", "clientConnected"), ("gracht_server_callbacks", "clientDisconnected"),
    ("gracht_worker_context", "worker"), ("gracht_worker_context", "server"), ("gracht_worker_pool", "workers"),
    ("gracht_message_context", "message_id"), ("gracht_buffer", "data"), ("gracht_buffer", "index"),
    ("broadcast_context", "message"), ("broadcast_context", "flags"), ("gracht_link", "type"), ("gracht_link", "connection"),
    ("socket_link_client", "streaming"), ("socket_link_client", "socket"), ("gracht_server_client", "handle"),
    ("gracht_message_awaiter", "id"), ("gracht_message_awaiter", "flags"), ("gracht_message_awaiter", "count"),
    ("gracht_message_awaiter_entry", "awaiter"), ("gracht_server", "allocationSize"),
}
C0 = ("c", 0)


def syms(t, out):
    """the symbols ('v',i) / ('old',i) a term depends on"""
    if isinstance(t, tuple):
        if len(t) == 2 and (t[0] == "v" or t[0] == "old") and isinstance(t[1], int):
            out.add(t)
            return
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                syms(x, out)
    elif isinstance(t, frozenset):
        for x in t:
            syms(x, out)


def contains(t, s):
    if t == s:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(contains(x, s) for x in t if isinstance(x, (tuple, frozenset)))
    return False


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        ch = False
        r = []
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                y = subst(x, a, b)
                if y is not x:
                    ch = True
                r.append(y)
            else:
                r.append(x)
        return tuple(r) if ch else t
    if isinstance(t, frozenset):
        n = frozenset(subst(x, a, b) for x in t)
        return n if n != t else t
    return t


def depth(t):
    if isinstance(t, tuple):
        return 1 + max([depth(x) for x in t if isinstance(x, tuple)] or [0])
    return 0


def flat(addr):
    """(base, [(index, scale)]) of an address inside an array, innermost last"""
    parts = []
    while addr[0] == "x":
        parts.append((addr[2], addr[3]))
        addr = addr[1]
    parts.reverse()
    return addr, parts


def label(addr):
    """(struct, field) an address designates, None if it is not inside a structure"""
    while True:
        if addr[0] == "f":
            return (addr[2], addr[3])
        if addr[0] == "x":
            addr = addr[1]
            continue
        return None


def root(addr):
    while addr[0] in ("f", "x"):
        addr = addr[1]
    return addr


def within(addr, base):
    while True:
        if addr == base:
            return True
        if addr[0] in ("f", "x"):
            addr = addr[1]
            continue
        return False


def width(ty):
    return int(ty[1:]) if ty.startswith("i") and ty[1:].isdigit() else 64


def wrap(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n


class State:
    __slots__ = ("env", "mem", "facts", "ps", "trace")

    def __init__(self, env, mem, facts, ps, trace):
        self.env, self.mem, self.facts, self.ps, self.trace = env, mem, facts, ps, trace

    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.facts), self.ps, self.trace)

    def key(self):
        return (self.ps, frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.facts.items()))


class Monitor:
    """a property automaton; the default accepts everything"""
    keep = frozenset()      # labels of memory whose content the automaton still needs at the end
    rule = ""
    numbers = ()            # constants that sums of values recomputed in loops are compared with
    watch = frozenset()     # numbers of the instructions whose evaluation the automaton wants to see
    relational = False      # branches are also decided by the linear inequalities of the state

    def __init__(self):
        self.found = {}
        self.instances = 0

    def start(self, eng):
        return ()

    def call(self, eng, st, ins, name, args):
        return None

    def load(self, eng, st, ins, addr, val):
        pass

    def store(self, eng, st, ins, addr, val):
        pass

    def ret(self, eng, st, ins, val):
        pass

    def op(self, eng, st, ins, val):
        """a watched instruction was evaluated; may return the states to continue with"""

    def trim(self, eng, ps, live):
        """drops what can no longer matter; live: the symbols that registers and memory still hold"""
        return ps

    widen = False           # rename every value that changes in a loop at once

    def rename(self, eng, st, v, s):
        """the symbol s now stands for the value v of a loop variable"""

    def edge(self, eng, st, ins, succ):
        pass

    def extra(self):
        """linear inequalities that hold throughout"""
        return []

    def bounds(self, eng, st):
        """terms that values recomputed in loops are compared with"""
        return []

    def tracked(self, st):
        """terms of the automaton's state that loops must not lose"""
        return []

    def report(self, eng, st, ins, rule, msg):
        k = (eng.fn.base, rule, ins.where() if ins else "", msg)
        if k not in self.found:
            tr = []
            t = st.trace if st else None
            while t:
                tr.append(t[1])
                t = t[0]
            tr.reverse()
            self.found[k] = {"function": eng.fn.base, "file": eng.fn.file, "rule": rule, "at": ins.where() if ins else eng.fn.file,
                             "frames": ins.chain() if ins else [], "message": msg, "path": tr[-60:]}


class Engine:
    CAP = 3000
    BUDGET = 150.0          # seconds; what is left unexplored then is named in the evidence

    def __init__(self, mod, fn, mon, effects, seed=None):
        self.mod, self.fn, self.mon, self.eff = mod, fn, mon, effects
        self.steps = 0
        self.capped = False
        self.unfinished = 0
        self.origin = {}
        self.growth = {}
        self.seed = seed
        # registers defined inside loops have to be renamed when they are recomputed
        self.inloop = [any(b in fn.reach[s] for s in fn.succ[b]) for b in range(len(fn.blocks))]
        self._future()

    # -- what later code can still read -------------------------------------------------------------------------
    def _future(self):
        lab = []
        for b in self.fn.blocks:
            s = set()
            for x in b:
                if x.op == "load":
                    l = self.mod.static_label(self.fn, x.d["ops"][0])
                    s.add(l)
            lab.append(s)
        self.future = []
        for b in range(len(self.fn.blocks)):
            s = set()
            for r in self.fn.reach[b]:
                s |= lab[r]
            self.future.append(s)

    def prune(self, st, b):
        live = self.fn.livein[b]
        env = {k: v for k, v in st.env.items() if k in live}
        keep = self.mon.keep
        fut = self.future[b]
        reach = set()
        for v in env.values():
            syms(v, reach)
        for v in st.mem.values():
            syms(v, reach)
        st.ps = self.mon.trim(self, st.ps, reach)
        reach = set()
        for v in env.values():
            syms(v, reach)
        syms(st.ps, reach)
        mem = {}
        cand = []
        for a, v in st.mem.items():
            if a[0] == "Z":
                r = root(a[1])
                if r[0] == "al" and r[1] not in live:
                    continue
                cand.append((a, v))
                continue
            l = label(a)
            r = root(a)
            if r[0] == "al":
                if r[1] not in live:
                    continue
            elif a != ("errno",) and l not in fut and l not in keep:
                continue
            cand.append((a, v))
        ch = True
        while ch:
            ch = False
            rest = []
            for a, v in cand:
                s = set()
                syms(a, s)
                if s <= reach:
                    mem[a] = v
                    n = len(reach)
                    syms(v, reach)
                    if len(reach) != n:
                        ch = True
                else:
                    rest.append((a, v))
            if len(rest) != len(cand):
                ch = True
            cand = rest
        facts = {}
        for k, v in st.facts.items():
            s = set()
            syms(k, s)
            if s <= reach:
                facts[k] = v
        return State(env, mem, facts, st.ps, st.trace)

    # -- values -------------------------------------------------------------------------------------------------
    def val(self, st, o):
        k = o[0]
        if k == "c":
            return ("c", o[1])
        if k == "n":
            return C0
        if k == "g":
            return ("g", o[1])
        if k == "a":
            return ("a", o[1])
        if k == "i":
            v = st.env.get(o[1])
            return v if v is not None else ("v", o[1])
        if k == "gep":
            return self.gep(st, o)
        if k == "k":
            return ("k", o[1])
        return ("u",)

    def gep(self, st, g):
        t = self.val(st, g[1])
        for p in g[2]:
            if p[0] == "f":
                s, n = self.mod.fieldname(p[1], p[2])
                if s.split(".")[0] == "anon":
                    if p[3] == 0:
                        continue
                elif p[3] == 0 and self.mod.embeds(p[1], p[2]):
                    continue
                t = ("f", t, s, n)
            else:
                ix = self.val(st, p[1])
                if ix == C0:
                    continue
                if ix[0] == "c" and t[0] == "x" and t[2][0] == "c" and t[3] == p[2]:
                    n = t[2][1] + ix[1]
                    t = t[1] if n == 0 else ("x", t[1], ("c", n), p[2])
                else:
                    t = ("x", t, ix, p[2])
        return t

    def fresh(self, st, ins):
        """the symbol for a value that is (re)computed by ins"""
        s = ("v", ins.i)
        if self.inloop[ins.blk]:
            self.age(st, s)
        return s

    def age(self, st, s):
        o = ("old", s[1])

        def has(t):
            return contains(t, s) or contains(t, o)
        if not (any(has(v) for v in st.env.values()) or any(has(a) or has(v) for a, v in st.mem.items())
                or any(has(k) for k in st.facts) or has(st.ps)):
            return
        st.facts = {subst(k, s, o): v for k, v in st.facts.items() if not contains(k, o)}
        st.mem = {subst(a, s, o): subst(v, s, o) for a, v in st.mem.items() if not contains(a, o) and not contains(v, o)}
        if self.mon.relational:
            # values of two earlier rounds must not be taken for each other
            st.env = {k: ("v", k) if contains(v, o) and v != o else v for k, v in st.env.items()}
        st.env = {k: subst(v, s, o) for k, v in st.env.items()}
        st.ps = subst(st.ps, s, o)

    # -- facts --------------------------------------------------------------------------------------------------
    def atom(self, pred, a, b):
        """canonical (atom, polarity)"""
        if pred in ("eq", "ne"):
            # comparisons of widened values with constants are comparisons of the values
            for x, y in ((a, b), (b, a)):
                while y[0] == "c" and x[0] == "cast" and x[1] in ("zext", "sext"):
                    w = width(x[2])
                    if x[1] == "zext" and not (0 <= y[1] < (1 << w)):
                        return None, pred == "ne"
                    y = ("c", wrap(y[1], w))
                    x = x[4]
                a, b = x, y
                if b[0] == "c":
                    break
            if self.mon.relational and (a[0] == "x" or b[0] == "x"):
                (x, p), (y, q) = flat(a), flat(b)
                if x == y:
                    return self.atom(pred, self.offterm(p), self.offterm(q))
            if a[0] == "c" and b[0] != "c":
                a, b = b, a
            if a[0] == "b" and b[0] == "c":
                if b[1] in (0, 1, -1):
                    t = (b[1] != 0)
                    pol = a[2] if t else not a[2]
                    return a[1], (pol if pred == "eq" else not pol)
            if b[0] != "c" and repr(a) > repr(b):
                a, b = b, a
            return ("eq", a, b), pred == "eq"
        sg = pred[0]
        k = pred[1:]
        if k == "lt":
            return (sg + "lt", a, b), True
        if k == "gt":
            return (sg + "lt", b, a), True
        if k == "le":
            return (sg + "lt", b, a), False
        return (sg + "lt", a, b), False

    def interval(self, st, x, sg):
        lo, hi = None, None
        ne = set()
        for (p, a, b), v in st.facts.items():
            if p == "eq":
                if a == x and b[0] == "c":
                    if v:
                        return b[1], b[1], ne
                    ne.add(b[1])
            elif p[0] == sg:
                if a == x and b[0] == "c":
                    if v:
                        hi = b[1] - 1 if hi is None else min(hi, b[1] - 1)
                    else:
                        lo = b[1] if lo is None else max(lo, b[1])
                elif b == x and a[0] == "c":
                    if v:
                        lo = a[1] + 1 if lo is None else max(lo, a[1] + 1)
                    else:
                        hi = a[1] if hi is None else min(hi, a[1])
        if sg == "u" and lo is None:
            lo = 0
        return lo, hi, ne

    def decide(self, st, at):
        d = self.decide0(st, at)
        if d is None and self.mon.relational:
            from . import lin
            d = lin.decide(self, st, at)
        return d

    def decide0(self, st, at):
        if at is None:
            return True
        p, a, b = at
        if a == b:
            return p == "eq"
        if a[0] == "c" and b[0] == "c":
            if p == "eq":
                return a[1] == b[1]
            if p == "slt":
                return a[1] < b[1]
            m = (1 << 64) - 1
            return (a[1] & m) < (b[1] & m)
        if at in st.facts:
            return st.facts[at]
        if a[0] == "x" or b[0] == "x":
            # places at known distances of one array
            (x, q), (y, r) = flat(a), flat(b)
            if x == y and all(t[0] == "c" for t, _ in q + r):
                q, r = (sum(t[1] * k for t, k in w) for w in (q, r))
                return q == r if p == "eq" else q < r
        if p == "eq":
            if b == C0 and (a[0] in ("al", "g", "errno") or (a[0] in ("f", "x") and self.nonnull(st, a))):
                return False
            if a[0] in ("al", "g") and b[0] in ("al", "g"):
                return False
            if b[0] == "c":
                for sg in "su":
                    lo, hi, ne = self.interval(st, a, sg)
                    if lo is not None and lo == hi:
                        return lo == b[1]
                    if b[1] in ne:
                        return False
                    if sg == "s" or b[1] >= 0:
                        if lo is not None and b[1] < lo:
                            return False
                        if hi is not None and b[1] > hi:
                            return False
            return None
        sg = p[0]
        if b[0] == "c" and (sg == "s" or b[1] >= 0):
            lo, hi, ne = self.interval(st, a, sg)
            if hi is not None and hi < b[1]:
                return True
            if lo is not None and lo >= b[1]:
                return False
        elif a[0] == "c" and (sg == "s" or a[1] >= 0):
            lo, hi, ne = self.interval(st, b, sg)
            if lo is not None and lo > a[1]:
                return True
            if hi is not None and hi <= a[1]:
                return False
        if ("eq",) and p in ("slt", "ult"):
            e, pol = self.atom("eq", a, b)
            if e is not None and st.facts.get(e) is True:
                return False
            if st.facts.get((p, b, a)) is True:
                return False
        return None

    def nonnull(self, st, a):
        return True  # the address of a member of an object that is accessed

    def truth(self, st, v):
        """truth of an i1 term, None if open"""
        if v[0] == "c":
            return v[1] != 0
        if v[0] == "b":
            d = self.decide(st, v[1])
            return None if d is None else (d == v[2])
        d = self.decide(st, ("eq", v, C0))
        return None if d is None else not d

    def assume(self, st, v, t):
        """adds the fact that i1 term v is t; False if that contradicts what is known"""
        c = self.truth(st, v)
        if c is not None:
            return c == t
        if v[0] == "b":
            st.facts[v[1]] = (v[2] == t)
        elif v[0] != "u":
            st.facts[("eq", v, C0)] = not t
        return True

    def const(self, st, v):
        if v[0] == "c":
            return v[1]
        if v[0] == "b":
            t = self.truth(st, v)
            return None if t is None else int(t)
        lo, hi, ne = self.interval(st, v, "s")
        if lo is not None and lo == hi:
            return lo
        return None

    def iszero(self, st, v):
        """True / False / None for v == 0"""
        if v[0] == "c":
            return v[1] == 0
        if v[0] == "b":
            t = self.truth(st, v)
            return None if t is None else not t
        at, pol = self.atom("eq", v, C0)
        d = self.decide(st, at)
        return None if d is None else d == pol

    # -- memory -------------------------------------------------------------------------------------------------
    def read(self, st, addr):
        v = st.mem.get(addr)
        if v is not None:
            return v
        a = addr
        while True:
            z = st.mem.get(("Z", a))
            if z is not None:
                l = label(addr)
                if l not in z and ("*",) not in z:
                    return C0
                return None
            if a[0] in ("f", "x"):
                a = a[1]
            else:
                return None

    def kill(self, st, pred):
        """forgets the memory cells for which pred(addr, label) holds"""
        for a in list(st.mem):
            if a[0] == "Z":
                continue
            if pred(a, label(a)):
                del st.mem[a]

    def kill_labels(self, st, labs):
        def p(a, l):
            return l in labs and root(a)[0] != "al"
        self.kill(st, p)
        for a in list(st.mem):
            if a[0] == "Z" and root(a[1])[0] != "al":
                z = st.mem[a]
                n = z | frozenset(x for x in labs if x)
                if n != z:
                    st.mem[a] = n

    def kill_region(self, st, base):
        r = root(base)

        def p(a, l):
            if within(a, base) or within(base, a):
                return True
            return False
        self.kill(st, p)
        for a in list(st.mem):
            if a[0] == "Z" and (within(base, a[1]) or within(a[1], base)):
                if within(a[1], base):
                    del st.mem[a]
                else:
                    l = label(base)
                    st.mem[a] = st.mem[a] | frozenset([l if l else ("*",)])

    def write(self, st, addr, v):
        l = label(addr)
        r = root(addr)
        for a in list(st.mem):
            if a == addr or a[0] == "Z":
                continue
            if a == ("errno",) or addr == ("errno",):
                continue
            l2 = label(a)
            if within(a, addr) or within(addr, a):
                if l is None or l2 is None or l == l2:
                    if not self.disjoint(a, addr):
                        del st.mem[a]
                continue
            r2 = root(a)
            if r[0] == "al" or r2[0] == "al":
                if r != r2:
                    if r[0] == "al" and r2[0] == "al":
                        continue
                    # a pointer of unknown origin does not point at a local that never escaped
                    continue
                if self.disjoint(a, addr):
                    continue
                if l == l2:
                    del st.mem[a]
                continue
            if l is not None and l2 is not None and l != l2:
                continue
            if self.disjoint(a, addr):
                continue
            if l is None and l2 is not None:
                continue        # raw (payload) stores do not overlay the library's structures
            if l2 is None and l is not None:
                continue
            if a[0] == "g" and addr[0] == "g":
                continue
            del st.mem[a]
        st.mem[addr] = v

    def disjoint(self, a, b):
        """different constant offsets from the same base"""
        def split(t):
            if t[0] == "x" and t[2][0] == "c":
                return t[1], t[2][1] * t[3]
            return t, 0
        (x, m), (y, n) = split(a), split(b)
        return x == y and m != n

    # -- execution ----------------------------------------------------------------------------------------------
    def run(self):
        fn = self.fn
        st = State({}, {}, {}, None, None)
        st.ps = self.mon.start(self)
        if self.seed:
            self.seed(self, st)
        work = [(0, None, st)]
        seen = [set() for _ in fn.blocks]
        joined = [dict() for _ in fn.blocks]
        t0 = time.time()
        while work:
            if time.time() - t0 > self.BUDGET:
                self.unfinished = len(work)
                break
            b, pred, st = work.pop()
            st = self.phis(st, b, pred)
            st = self.prune2(st, b)
            k = st.key()
            if k in seen[b]:
                continue
            if len(seen[b]) >= self.CAP:
                # too many distinct states: join those that agree on the automaton
                self.capped = True
                j = joined[b].get(st.ps)
                n = st if j is None else self.join(j, st)
                if j is not None and n.key() == j.key():
                    continue
                joined[b][st.ps] = n
                st = n.copy()
            else:
                seen[b].add(k)
            self.block(b, st, work)
        return self

    def join(self, a, b):
        def inter(x, y):
            return {k: v for k, v in x.items() if k in y and y[k] == v}
        return State(inter(a.env, b.env), inter(a.mem, b.mem), inter(a.facts, b.facts), a.ps, a.trace)

    def phis(self, st, b, pred):
        st = st.copy()
        new = {}
        hdr = b in self.fn.headers
        for x in self.fn.blocks[b]:
            if x.op != "phi":
                break
            for p, o in x.d["in"]:
                if p == pred:
                    v = self.val(st, o)
                    wide = False
                    if hdr and (pred, b) in self.fn.backedges and o[0] == "i" and \
                            self.fn.ins[o[1]].op not in ("phi", "load", "call", "select", "icmp", "getelementptr", "and", "or"):
                        wide = not self.mon.relational or v[0] != "c" or self.grows(b, x.i, v)
                    elif hdr and (pred, b) in self.fn.backedges and self.mon.relational and v != ("v", x.i) and self.varies(v):
                        wide = True
                    elif hdr and (depth(v) > 8 or self.grows(b, x.i, v)):
                        wide = True
                    if hdr and self.mon.widen and (pred, b) in self.fn.backedges and v != ("v", x.i) and v[0] != "c":
                        wide = True
                    new[x.i] = (x, v, wide)
        if hdr and (pred, b) in self.fn.backedges:
            for a in [a for a, v in st.mem.items() if a[0] != "Z" and self.grows(b, a, v)]:
                del st.mem[a]
        if self.mon.relational and any(w for _, _, w in new.values()):
            from . import lin
            return lin.widen(self, st, new, b)
        for i in list(new):
            x, v, wide = new[i]
            if wide:
                s, o = ("v", i), ("old", i)
                stale = contains(v, o)
                self.age(st, s)
                new = {k: (y, subst(w, s, o), z) for k, (y, w, z) in new.items()}
                v = new[i][1]
                st.env[i] = s
                if not stale:
                    self.mon.rename(self, st, v, s)
                if v[0] == "op" and not stale:
                    # what was known about the value holds for the symbol
                    st.ps = subst(st.ps, v, s)
                    st.facts = {subst(k, v, s): t for k, t in st.facts.items()}
        for i, (x, v, wide) in new.items():
            if not wide:
                st.env[i] = v
        return st

    def varies(self, v):
        """the value depends on something that is computed inside a loop"""
        if v[0] in ("b", "c", "g", "a"):
            return False
        ss = set()
        syms(v, ss)
        return any(self.fn.ins[i].op != "load" and self.inloop[self.fn.ins[i].blk] for _, i in ss)

    def grows(self, b, k, v):
        """too many different values arrived here: the value is recomputed in the loop"""
        if v[0] not in ("c", "op", "x"):
            return False
        s = self.growth.setdefault((b, k), set())
        if len(s) < 4:
            s.add(v)
        return v not in s

    def prune2(self, st, b):
        # phi results of this block are live as well
        ph = {x.i: st.env[x.i] for x in self.fn.blocks[b] if x.op == "phi" and x.i in st.env}
        keepenv = dict(st.env)
        live = self.fn.livein[b] | set(ph)
        old = self.fn.livein[b]
        self.fn.livein[b] = live
        r = self.prune(State(keepenv, st.mem, st.facts, st.ps, st.trace), b)
        self.fn.livein[b] = old
        return r

    def block(self, b, st, work):
        states = [st]
        blk = self.fn.blocks[b]
        for x in blk:
            if x.op == "phi":
                continue
            nxt = []
            for s in states:
                self.steps += 1
                r = self.ins(s, x, work)
                if r:
                    nxt.extend(r)
            states = nxt
            if not states:
                return

    def trace(self, st, x, txt):
        st.trace = (st.trace, "%s: %s" % (x.where(), txt))

    def ins(self, st, x, work):
        op = x.op
        d = x.d
        if op == "load":
            a = self.val(st, d["ops"][0])
            v = self.read(st, a)
            if v is None:
                v = self.fresh(st, x)
                a = self.val(st, d["ops"][0])
                st.mem[a] = v
                self.origin[v] = a
            st.env[x.i] = v
            self.mon.load(self, st, x, a, v)
            return [st]
        if op == "store":
            v = self.val(st, d["ops"][0])
            a = self.val(st, d["ops"][1])
            self.mon.store(self, st, x, a, v)
            self.write(st, a, v)
            return [st]
        if op == "getelementptr":
            st.env[x.i] = self.gep(st, d["gep"])
            return [st]
        if op == "alloca":
            if d["ops"] and d["ops"][0][0] != "c":
                self.fresh(st, x)
            st.env[x.i] = ("al", x.i)
            return [st]
        if op == "icmp":
            a, b = (self.val(st, o) for o in d["ops"])
            at, pol = self.atom(d["pred"], a, b)
            dd = self.decide(st, at)
            st.env[x.i] = ("b", at, pol) if dd is None else ("c", int(dd == pol))
            if x.i in self.mon.watch:
                return self.mon.op(self, st, x, st.env[x.i]) or [st]
            return [st]
        if op == "br":
            if len(d["succ"]) == 1:
                work.append((d["succ"][0], x.blk, st))
                return None
            c = self.val(st, d["ops"][0])
            for k, t in ((0, True), (1, False)):
                s = st.copy()
                if self.assume(s, c, t):
                    self.trace(s, x, "condition is %s" % ("true" if t else "false"))
                    self.mon.edge(self, s, x, d["succ"][k])
                    work.append((d["succ"][k], x.blk, s))
            return None
        if op == "switch":
            v = self.val(st, d["ops"][0])
            s0 = st.copy()
            ok = True
            for n, t in d["cases"]:
                at, pol = self.atom("eq", v, ("c", n))
                cond = ("b", at, pol)
                s = st.copy()
                if self.assume(s, cond, True):
                    self.trace(s, x, "case %d" % n)
                    self.mon.edge(self, s, x, t)
                    work.append((t, x.blk, s))
                if ok:
                    ok = self.assume(s0, cond, False)
            if ok:
                self.trace(s0, x, "default case")
                self.mon.edge(self, s0, x, d["default"])
                work.append((d["default"], x.blk, s0))
            return None
        if op == "ret":
            v = self.val(st, d["ops"][0]) if d["ops"] else None
            self.mon.ret(self, st, x, v)
            return None
        if op == "unreachable":
            return None
        if op == "call":
            return self.call(st, x)
        if op == "select":
            c, a, b = (self.val(st, o) for o in d["ops"])
            t = self.truth(st, c)
            if t is not None:
                st.env[x.i] = a if t else b
                return [st]
            s2 = st.copy()
            self.assume(st, c, True)
            st.env[x.i] = a
            self.assume(s2, c, False)
            s2.env[x.i] = b
            return [st, s2]
        if op in ("bitcast", "ptrtoint", "inttoptr", "freeze"):
            st.env[x.i] = self.val(st, d["ops"][0])
            return [st]
        if op in ("zext", "sext", "trunc"):
            v = self.val(st, d["ops"][0])
            st.env[x.i] = self.cast(op, d["sty"], x.ty, v)
            return [st]
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "urem", "srem", "udiv", "sdiv"):
            a, b = (self.val(st, o) for o in d["ops"])
            v = self.binop(op, a, b, width(x.ty))
            if depth(v) > 10:
                v = self.fresh(st, x)
            st.env[x.i] = v
            if x.i in self.mon.watch:
                return self.mon.op(self, st, x, v) or [st]
            return [st]
        st.env[x.i] = self.fresh(st, x)
        return [st]

    def cast(self, op, sty, ty, v):
        if v[0] == "c":
            if op == "zext":
                return ("c", v[1] & ((1 << width(sty)) - 1))
            return ("c", wrap(v[1], width(ty)))
        if v[0] == "b":
            return v
        if op == "trunc" and v[0] == "cast" and v[1] in ("zext", "sext"):
            if v[2] == ty:
                return v[4]
            if width(v[2]) < width(ty):
                return ("cast", v[1], v[2], ty, v[4])
        return ("cast", op, sty, ty, v)

    def offterm(self, parts):
        t = C0
        for ix, sc in parts:
            t = self.binop("add", t, self.binop("mul", ix, ("c", sc), 64), 64)
        return t

    def binop(self, op, a, b, w):
        if a[0] == "b" and w == 1 and op == "xor" and b[0] == "c" and b[1] != 0:
            return ("b", a[1], not a[2])
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            m = (1 << w) - 1
            ux, uy = x & m, y & m
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: ux & uy,
                     "or": lambda: ux | uy, "xor": lambda: ux ^ uy, "shl": lambda: ux << uy, "lshr": lambda: ux >> uy,
                     "ashr": lambda: x >> uy, "urem": lambda: ux % uy, "srem": lambda: abs(x) % abs(y) * (1 if x >= 0 else -1),
                     "udiv": lambda: ux // uy, "sdiv": lambda: int(x / y)}[op]()
                return ("c", wrap(r, w))
            except Exception:
                return ("u",)
        if op == "sub":
            if a == b:
                return C0
            if a[0] == "x" or b[0] == "x":
                (x, p), (y, q) = flat(a), flat(b)
                if x == y:
                    return self.binop("sub", self.offterm(p), self.offterm(q), w)
        if op in ("add", "mul", "and", "or", "xor") and a[0] == "c":
            a, b = b, a
        if op == "sub" and b[0] == "c":
            op, b = "add", ("c", -b[1])
        if b[0] == "c":
            if b[1] == 0 and op in ("add", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if b[1] == 0 and op in ("and", "mul"):
                return C0
            if b[1] == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            if op in ("and", "or") and a[0] == "op" and a[1] == op and a[3][0] == "c" and a[4] == w:
                return ("op", op, a[2], ("c", wrap(a[3][1] & b[1] if op == "and" else a[3][1] | b[1], w)), w)
            if op == "add" and a[0] == "op" and a[1] == "add" and a[3][0] == "c" and a[4] == w:
                n = wrap(a[3][1] + b[1], w)
                return a[2] if n == 0 else ("op", "add", a[2], ("c", n), w)
        return ("op", op, a, b, w)

    # -- calls --------------------------------------------------------------------------------------------------
    def callee(self, st, x):
        c = x.d["callee"]
        if c[0] == "g":
            n = c[1]
            f = self.mod.fn.get(n)
            if f is not None:
                n = f.base
            return n
        v = self.val(st, c)
        if v[0] == "g":
            f = self.mod.fn.get(v[1])
            return f.base if f else v[1]
        a = self.origin.get(v)
        if a is None and v[0] == "old":
            a = self.origin.get(("v", v[1]))
        l = label(a) if a is not None else None
        if l is None and c[0] == "i":
            y = self.fn.ins[c[1]]
            if y.op == "load":
                l = self.mod.static_label(self.fn, y.d["ops"][0])
        return "slot:%s.%s" % l if l else "slot:?"

    def call(self, st, x):
        name = self.callee(st, x)
        args = [self.val(st, o) for o in x.d["args"]]
        if name.startswith("llvm.mem"):
            name = name.split(".")[1]
        elif name.startswith("llvm.stack") or name.startswith("llvm.dbg") or name.startswith("llvm.lifetime"):
            st.env[x.i] = ("u",)
            return [st]
        if name in NORETURN:
            return None
        r = self.mon.call(self, st, x, name, args)
        if r is not None:
            return r
        return self.default_call(st, x, name, args)

    def default_call(self, st, x, name, args, result=None):
        self.effects(st, x, name, args)
        if x.ty != "void":
            if name == "__errno_location":
                st.env[x.i] = ("errno",)
            elif result is not None:
                st.env[x.i] = result
            else:
                st.env[x.i] = self.fresh(st, x)
                if name == "calloc":
                    st.mem[("Z", st.env[x.i])] = frozenset()
        return [st]

    def fork(self, st, x, name, args, outcomes):
        """continues with several outcomes of a call: (result term or None, fact on the result, automaton state)"""
        self.effects(st, x, name, args)
        sym = self.fresh(st, x) if x.ty != "void" else None
        if sym is not None and self.inloop[x.blk]:
            outcomes = [(r, subst(ps, sym, ("old", sym[1])) if ps is not None else None) for r, ps in outcomes]
        out = []
        for res, ps in outcomes:
            s = st.copy()
            s.ps = subst(ps, ("result",), sym if sym else C0) if ps is not None else s.ps
            if x.ty != "void":
                s.env[x.i] = sym
                if name == "calloc" and res != "zero":
                    s.mem[("Z", sym)] = frozenset()
                if res == "zero":
                    s.env[x.i] = C0
                elif res == "nonzero":
                    s.facts[("eq", sym, C0)] = False
                elif res == "neg":
                    s.facts[("slt", sym, C0)] = True
                elif isinstance(res, tuple):
                    s.env[x.i] = res
            out.append(s)
        return out

    def effects(self, st, x, name, args):
        if name in ("memset", "memcpy", "memmove"):
            dst = args[0]
            self.kill_region(st, dst)
            if root(dst)[0] != "al":
                labs = self.eff.struct_labels(label(dst))
                if labs:
                    self.kill_labels(st, labs)
            if name == "memset" and len(args) > 1 and args[1] == C0:
                st.mem[("Z", dst)] = frozenset()
            elif name in ("memcpy", "memmove"):
                src = args[1]
                for a in list(st.mem):
                    if a[0] != "Z" and a != src and within(a, src):
                        st.mem[subst(a, src, dst)] = st.mem[a]
                    elif a == ("Z", src) and src[0] == "al" and len(args) > 2 and args[2] == ("c", self.fn.ins[src[1]].d.get("asz")):
                        st.mem[("Z", dst)] = st.mem[a]
            return
        if name in ACQUIRE:
            stable = STABLE

            def p(a, l):
                return a != ("errno",) and l not in stable and root(a)[0] != "al"
            self.kill(st, p)
            for a in list(st.mem):
                if a[0] == "Z" and root(a[1])[0] != "al" and not self.eff.fresh_ok(self, st, root(a[1])):
                    del st.mem[a]
            return
        if name == "__errno_location":
            return
        if name not in PURE or name in ("close", "send", "sendto", "socket", "bind", "listen", "connect", "malloc", "epoll_ctl",
                                        "epoll_create1", "gr_hashtable_get"):
            st.mem.pop(("errno",), None)
        ro = READONLY.get(name, ())
        if name in PURE:
            return
        mods, opaque = self.eff.mods(name)
        labs = set(mods)
        if opaque:
            labs |= self.eff.api_mods()
        if labs:
            self.kill_labels(st, {l for l in labs if not (opaque and l in STABLE)})
        for k, a in enumerate(args):
            if k in ro:
                continue
            r = root(a)
            if r[0] == "al":
                self.kill_region(st, a)
            elif name not in self.eff.defined and not name.startswith("slot:"):
                self.kill_region(st, a)


class Effects:
    """what each function may write, per (struct, field), transitively"""

    def __init__(self, mod, api):
        self.mod = mod
        self.direct = {}
        self.callees = {}
        self.opq = set()
        self.defined = set()
        self.cache = {}
        self.api = api
        self._api = None
        for f in mod.fn.values():
            if f.decl:
                continue
            self.defined.add(f.base)
            d = self.direct.setdefault(f.base, set())
            c = self.callees.setdefault(f.base, set())
            for x in f.all():
                if x.op == "store":
                    l = mod.static_label(f, x.d["ops"][1])
                    if l:
                        d.add(l)
                elif x.op == "call":
                    cal = x.d["callee"]
                    if cal[0] == "g":
                        n = cal[1]
                        if n.startswith("llvm.mem"):
                            l = mod.static_label(f, x.d["args"][0])
                            if l:
                                d |= self.struct_labels(l)
                        else:
                            t = mod.fn.get(n)
                            c.add(t.base if t else n)
                            for a in x.d["args"]:
                                if a[0] == "g" and a[2] == 1 and n != "thrd_create":
                                    c.add(mod.fn[a[1]].base)
                    else:
                        l = None
                        if cal[0] == "i":
                            y = f.ins[cal[1]]
                            if y.op == "load":
                                l = mod.static_label(f, y.d["ops"][0])
                        if l and l in mod.slots and l != ("gracht_protocol_function", "address"):
                            for t in mod.slots[l]:
                                c.add(mod.fn[t].base)
                        elif l and l[0] in ("gr_hashtable",):
                            pass
                        else:
                            self.opq.add(f.base)

    def struct_labels(self, lab):
        """every field below a field that is itself a structure, plus the field"""
        if lab is None:
            return set()
        out = {lab}
        todo = [lab]
        while todo:
            s, n = todo.pop()
            for nm, sd in self.mod.structs.items():
                short = nm.split(".", 1)[1] if "." in nm else nm
                if short == s:
                    for k, fl in enumerate(sd["fields"]):
                        if self.mod.fieldname(nm, k)[1] == n and fl[2] in self.mod.structs:
                            sub = fl[2]
                            for j in range(len(self.mod.structs[sub]["fields"])):
                                l = self.mod.fieldname(sub, j)
                                if l not in out:
                                    out.add(l)
                                    todo.append(l)
        return out

    def fresh_ok(self, eng, st, r):
        return False

    def mods(self, name):
        if name.startswith("slot:"):
            if name in self.cache:
                return self.cache[name]
            s, f = name[5:].split(".") if "." in name else ("?", "?")
            ts = self.mod.slots.get((s, f), set())
            if not ts or (s, f) == ("gracht_protocol_function", "address"):
                return (set(), s not in ("gr_hashtable",))
            m, o = set(), False
            for t in ts:
                a, b = self.mods(self.mod.fn[t].base)
                m |= a
                o |= b
            self.cache[name] = (m, o)
            return self.cache[name]
        if name in self.cache:
            return self.cache[name]
        if name not in self.direct:
            return (set(), False)
        seen = set()
        todo = [name]
        m = set()
        o = False
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            m |= self.direct.get(n, set())
            o |= n in self.opq
            todo.extend(self.callees.get(n, ()))
        self.cache[name] = (m, o)
        return self.cache[name]

    def api_mods(self):
        if self._api is None:
            self._api = set()
            for a in self.api:
                self._api |= self.mods(a)[0]
        return self._api
