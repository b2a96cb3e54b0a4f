"""C13: the life of a pending call."""
import errno
from gv import bits, gen
from gv.engine import C0, contains, label, root, syms
from gv.facts import Facts, plus, strip

LEVEL = "other"
RULE = ("typestate of pending calls on every path: a call is pending exactly if it was sent successfully, and an answered one is recorded before it is sent; only a call in progress is completed "
        "or failed, a completed one has its response attached, and whoever waits for it is counted exactly once; asking for the result of a call in progress leaves "
        "it pending, asking for an executed one removes it and hands its response out once, an unknown one is an error; generated code reads results only from "
        "completed calls and releases each response exactly once; waiting returns success only when the calls that were counted as executed - each one "
        "gone, completed or failed - are all calls, or at least one if any is enough; "
        "an event that is not subscribed to does not end a wait, a failure of the transport does")
FLAGS, SYNC = 10, 0         # place of the flags in a message, the type of calls that are answered
D = "gracht_message_descriptor"
CTX = "gracht_message_context"
AW = "gracht_message_awaiter"
MESSAGES = ("gracht_client", "messages")
AWAITERS = ("gracht_client", "awaiters")


def key(mon, eng, st, addr, struct=D):
    return strip(mon.cell(eng, st, ("f", addr, struct, "id")))


class Sent(Facts):
    """gracht_client_invoke: pending if and only if sent"""

    def call(self, eng, st, x, name, args):
        if name == "gr_hashtable_set" and label(args[0]) == MESSAGES:
            self.bump("call recorded")
            self.add(st, "pending", key(self, eng, st, args[1]))
        elif name == "gr_hashtable_remove" and label(args[0]) == MESSAGES:
            self.bump("record removed")
            st.ps = st.ps - {("pending", key(self, eng, st, args[1]))}
        elif name == "slot:client_link_ops.send":
            if self.all(st, "sync") and not self.all(st, "pending"):
                self.report(eng, st, x, "not-pending", "a call that is answered is sent without being recorded")
            p = frozenset(st.ps | {("recorded",)}) if self.all(st, "pending") else st.ps
            return eng.fork(st, x, name, args, [("zero", p | {("sent",)}), ("nonzero", p)])
        return None

    def edge(self, eng, st, x, succ):
        """the message is known to be answered"""
        flags = set()
        for (p, a, b), v in st.facts.items():
            ss = set()
            syms(a, ss)
            syms(b, ss)
            for t in ss:
                o = self.origin(eng, t)
                if o is not None:
                    base, s, n = self.place(eng, o)
                    d = self.origin(eng, base)
                    if s is None and n == FLAGS and d is not None and label(d) == ("gracht_buffer", "data"):
                        flags.add(t)
        for t in flags:
            if not any(bits.allowed(st, t, n) for n in range(256) if n & 3 != SYNC) or \
                    not any(bits.allowed(st, t, n) for n in [*range(128), *range(-128, 0)] if n & 3 != SYNC):
                self.add(st, "sync")

    def ret(self, eng, st, x, val):
        self.bump("outcome checked")
        p = self.all(st, "pending")
        if p and eng.iszero(st, val) is not True:
            self.report(eng, st, x, "stays-pending", "a call that failed is still recorded as pending")
        if ("recorded",) in st.ps and ("sent",) in st.ps and not p:
            self.report(eng, st, x, "not-pending", "a call that was sent is no longer recorded as pending")


class Change(Facts):
    """completing and failing calls"""
    keep = frozenset({(D, "status")})

    def call(self, eng, st, x, name, args):
        if name == "gr_hashtable_get" and label(args[0]) == MESSAGES:
            return eng.fork(st, x, name, args, [("nonzero", st.ps | {("record", ("result",))}), ("zero", st.ps)])
        if name == "gr_hashtable_get" and label(args[0]) == AWAITERS:
            k = key(self, eng, st, args[1], "gracht_message_awaiter_entry")
            for t in self.all(st, "owed"):
                if k == t[1]:
                    self.bump("waiter looked up")
                    ps = st.ps - {t}
                    return eng.fork(st, x, name, args, [("nonzero", ps | {("count", ("result",))}), ("zero", ps)])
            if not self.all(st, "owed") and self.all(st, "changed"):
                self.report(eng, st, x, "waiter", "a waiter of another call is looked up")
        return None

    def load(self, eng, st, x, addr, val):
        if label(addr) == (D, "awaiter_id"):
            for t in self.all(st, "changed"):
                if root(addr) == t[1] and t[2] is None:
                    st.ps = (st.ps - {t, ("owed", None)}) | {("changed", t[1], val), ("owed", val)}
            self.add(st, "waiter", root(addr), val)

    def store(self, eng, st, x, addr, val):
        l = label(addr)
        if l == (D, "status") and root(addr)[0] != "al":
            r = root(addr)
            if ("record", r) not in st.ps:
                return
            self.bump("status changed")
            old = eng.read(st, addr)
            if old is None or eng.iszero(st, old) is not True:
                self.report(eng, st, x, "already-executed", "the status of a call is changed although the call may have been executed already")
            n = val[1] if val[0] == "c" else None
            if n not in (1, -1):
                self.report(eng, st, x, "status", "a call gets a status that is neither completed nor failed")
            self.add(st, "final", r, n)
            w = [t[2] for t in self.all(st, "waiter") if t[1] == r]
            self.add(st, "changed", r, w[0] if w else None)
            self.add(st, "owed", w[0] if w else None)
        elif l == ("gracht_buffer", "data") and ("record", root(addr)) in st.ps:
            self.add(st, "attached", root(addr))
        elif l == (AW, "current_count") and root(addr)[0] != "al":
            o = self.origin(eng, root(addr))
            e = root(o) if o is not None else None
            s, n = plus(val)
            if self.all(st, "changed"):
                self.bump("waiter counted")
                if ("count", e) not in st.ps:
                    self.report(eng, st, x, "waiter", "a call is counted twice or for a waiter that does not wait for it")
                elif n != 1 or s is None or self.origin(eng, s) != addr:
                    self.report(eng, st, x, "waiter", "an executed call is not counted once")
                st.ps = st.ps - {("count", e)}

    def trim(self, eng, ps, live):
        return frozenset(t for t in ps if t[0] not in ("record", "waiter") or t[1] in live)

    def settle(self, eng, st, x):
        for t in self.all(st, "final"):
            if t[2] == 1 and ("attached", t[1]) not in st.ps:
                self.report(eng, st, x, "no-response", "a call is completed without its response")
        if self.all(st, "owed") or self.all(st, "count"):
            self.report(eng, st, x, "waiter", "the waiter of an executed call is not told")

    def ret(self, eng, st, x, val):
        if self.all(st, "final"):
            self.bump("completion checked")
            self.settle(eng, st, x)


class Status(Facts):
    """gracht_client_get_status_buffer"""
    keep = frozenset({("gracht_buffer", "data"), ("gracht_buffer", "index")})

    def call(self, eng, st, x, name, args):
        if name == "gr_hashtable_get" and label(args[0]) == MESSAGES:
            self.bump("call looked up")
            if not self.field(eng, key(self, eng, st, args[1]), ("a", 1), CTX, "message_id"):
                self.report(eng, st, x, "identity", "the status of another call is looked up")
            known = [t for t in self.all(st, "is")]
            r = eng.fork(st, x, name, args, [("zero", st.ps | {("is", "unknown")})] +
                         [("nonzero", st.ps | {("is", v), ("record", ("result",))}) for v in (-1, 0, 1)])
            for s in r[1:]:
                v = self.one(s, "is") if not known else None
                s.mem[("f", s.env[x.i], D, "status")] = ("c", v)
                s.mem[("f", ("f", s.env[x.i], D, "buffer"), "gracht_buffer", "data")] = ("k", "response")
                s.mem[("f", ("f", s.env[x.i], D, "buffer"), "gracht_buffer", "index")] = ("k", "results")
            return r
        if name == "gr_hashtable_remove" and label(args[0]) == MESSAGES:
            if not self.field(eng, key(self, eng, st, args[1]), ("a", 1), CTX, "message_id"):
                self.report(eng, st, x, "identity", "another call is removed")
            self.add(st, "removed")
        elif name == "gracht_arena_free" and args[1] == ("k", "response"):
            self.add(st, "freed")
        return None

    def ret(self, eng, st, x, val):
        v = self.one(st, "is")
        if v is None:
            if eng.const(st, val) in (0, 1):
                self.report(eng, st, x, "status", "a status is returned without looking at the call")
            return
        self.bump("status checked")
        n = eng.const(st, val)
        rep = lambda rule, msg: self.report(eng, st, x, rule, msg)
        if v == "unknown":
            if n is None or n in (0, 1):
                rep("status", "a call that does not exist is reported as being in progress or completed")
            return
        if n != v:
            rep("status", "the status that is returned is not the status of the call")
        gone = ("removed",) in st.ps
        if v == 0 and gone:
            rep("forgotten", "a call that is still in progress is forgotten")
        if v != 0 and not gone:
            rep("never-removed", "an executed call whose result was taken stays recorded")
        if v == 1:
            if self.cell(eng, st, ("f", ("a", 2), "gracht_buffer", "data")) != ("k", "response") or \
                    self.cell(eng, st, ("f", ("a", 2), "gracht_buffer", "index")) != ("k", "results"):
                rep("response", "the response of a completed call is not handed out")
        if v >= 0 and ("freed",) in st.ps:
            rep("response", "the response of a call is released while it is still needed")


class Finalize(Facts):
    def call(self, eng, st, x, name, args):
        if name == "gracht_arena_free":
            self.bump("response released")
            if not self.field(eng, args[1], ("a", 1), "gracht_buffer", "data") or eng.iszero(st, args[2]) is not True or \
                    not self.field(eng, args[0], ("a", 0), "gracht_client", "arena") or ("freed",) in st.ps:
                self.report(eng, st, x, "release", "something else than the whole response is released, or it is released twice")
            self.add(st, "freed")
            self.add(st, "data", args[1])
        return None

    def ret(self, eng, st, x, val):
        if any(eng.iszero(st, ("a", k)) is True for k in (0, 1)):
            return
        d = eng.read(st, ("f", ("a", 1), "gracht_buffer", "data"))
        if ("freed",) not in st.ps and not (d is not None and eng.iszero(st, d) is True):
            self.report(eng, st, x, "release", "the response is not released")
        if ("freed",) in st.ps and eng.iszero(st, val) is not True:
            self.report(eng, st, x, "status", "the release of a response is reported as failed")
    keep = frozenset({("gracht_buffer", "data")})


class Result(Facts):
    """generated functions that read results"""

    def call(self, eng, st, x, name, args):
        if name == "gracht_client_get_status_buffer":
            self.bump("result requested")
            b = args[2]
            r = eng.fork(st, x, name, args, [(("c", v), frozenset({("is", v), ("buffer", b)})) for v in (-1, 0, 1)])
            return r
        v, b = self.one(st, "is"), self.one(st, "buffer")
        if b is None:
            return None
        if name == "gracht_client_status_finalize":
            self.bump("result released")
            if args[1] != b:
                self.report(eng, st, x, "release", "another buffer is released")
            if v != 1:
                self.report(eng, st, x, "release", "a response is released that was never handed out")
            if ("final",) in st.ps:
                self.report(eng, st, x, "release", "a response is released twice")
            r = eng.default_call(st, x, name, args)
            for s in r:
                self.add(s, "final")
                self.set(s, "value", s.env.get(x.i))
            return r
        if any(root(a) == b for a in args):
            if v != 1:
                self.report(eng, st, x, "premature", "results are read although the call is not completed")
            if ("final",) in st.ps:
                self.report(eng, st, x, "used-after-release", "results are read after the response was released")
        return None

    def load(self, eng, st, x, addr, val):
        b = self.one(st, "buffer")
        if b is not None and root(addr) == b and (self.one(st, "is") != 1 or ("final",) in st.ps):
            self.report(eng, st, x, "premature", "results are read although there is no response")

    def ret(self, eng, st, x, val):
        v = self.one(st, "is")
        if v is None:
            return
        self.bump("result checked")
        if v == 1:
            if ("final",) not in st.ps:
                self.report(eng, st, x, "release", "the response of a completed call is not released")
            elif strip(val) != self.one(st, "value") and eng.iszero(st, val) is not True:
                self.report(eng, st, x, "status", "a completed call is reported as failed")
        elif eng.const(st, val) != v:
            self.report(eng, st, x, "status", "the status that is returned is not the status of the call")


class Await(Facts):
    """waiting for calls"""
    FIELDS = {"current_count": C0, "count": ("a", 2), "flags": ("a", 3)}

    def __init__(self, mod, counts, fn):
        super().__init__(mod, counts)
        self.find(fn)
        self.used = {mod.static_label(f, y.d["ops"][0]) for f in mod.fn.values() if not f.decl for y in f.all() if y.op == "load"}

    def find(self, fn):
        """the counters of executed calls, their increments and the comparisons that end the wait"""
        def back(o, out):
            todo = [o]
            while todo:
                o = todo.pop()
                if o[0] != "i" or o[1] in out:
                    continue
                y = fn.ins[o[1]]
                if y.op == "phi":
                    out.add(y.i)
                    todo += [v for _, v in y.d["in"]]
                elif y.op in ("add", "zext", "sext", "trunc", "select", "freeze"):
                    out.add(y.i)
                    todo += [v for v in y.d["ops"]]
            return out
        index = set()
        for y in fn.all():
            if y.op == "getelementptr":
                g = y.d["gep"]
                if g[1][:2] == ["a", 1]:
                    for p in g[2]:
                        if p[0] != "f":
                            back(p[1], index)

        def count(o):
            if o[:2] == ["a", 2]:
                return True
            return o[0] == "i" and fn.ins[o[1]].op == "load" and self.mod.static_label(fn, fn.ins[o[1]].d["ops"][0]) == (AW, "count")

        def cnt(o):
            return o[0] == "i" and fn.ins[o[1]].op == "load" and self.mod.static_label(fn, fn.ins[o[1]].d["ops"][0]) == (AW, "current_count")
        self.counter, self.cmps = set(), set()
        for y in fn.all():
            if y.op == "icmp":
                a, b = y.d["ops"]
                for p, q in ((a, b), (b, a)):
                    if count(q) and p[0] == "i" and p[1] not in index:
                        self.counter |= back(p, set())
        # values that are counted up before they are recorded
        self.local = set()
        for y in fn.all():
            if y.op == "store" and y.d["ops"][0][0] == "i" and self.mod.static_label(fn, y.d["ops"][1]) == (AW, "current_count"):
                c = back(y.d["ops"][0], set())
                leaf = {o[1] for i in c for o in ([v for _, v in fn.ins[i].d["in"]] if fn.ins[i].op == "phi" else fn.ins[i].d["ops"]) if o[0] == "i"}
                if c - index and not leaf - c:
                    self.counter |= c
                    self.local.add(y.i)
        self.counter -= index
        for y in fn.all():
            if y.op == "icmp":
                a, b = y.d["ops"]
                for p, q, flip in ((a, b, False), (b, a, True)):
                    if p[0] == "i" and (p[1] in self.counter or cnt(p)) and (count(q) or q[0] == "c"):
                        self.cmps.add((y.i, flip, "count" if count(q) else q[1]))
        self.cmp = {i: (f, w) for i, f, w in self.cmps}
        self.incs = {}
        for i in self.counter:
            if fn.ins[i].op == "add":
                d = [o for o in fn.ins[i].d["ops"] if i not in back(o, set())]
                if len(d) == 1:
                    self.incs[i] = d[0]         # what is added to the counter
        self.phis = {i for i in self.counter if fn.ins[i].op == "phi"}
        self.watch = frozenset(set(self.incs) | set(self.cmp))

    def call(self, eng, st, x, name, args):
        if name == "gracht_client_wait_message":
            self.add(st, "newround")
            self.add(st, "pumped")
            if ("failed",) in st.ps:
                self.report(eng, st, x, "endless", "responses are waited for although receiving them failed")
            # an event that is not supported is no reason to give up
            r = eng.fork(st, x, name, args, [("zero", st.ps), ("nonzero", st.ps | {("failed",)}), ("nonzero", st.ps)])
            for s, e in zip(r[1:], (("k", "error"), ("c", errno.ENOTSUP))):
                s.mem[("errno",)] = e
                if e[0] == "k":
                    s.facts[("eq", e, ("c", errno.ENOTSUP))] = False
            return r
        elif name == "gr_hashtable_get" and label(args[0]) == MESSAGES:
            self.bump("call looked up")
            k = key(self, eng, st, args[1])
            o = self.origin(eng, k)
            if o is None or label(o) != (CTX, "message_id"):
                self.report(eng, st, x, "identity", "the status of something else than the awaited calls is looked up")
            self.untagged(eng, st, x)
            if ("newround",) in st.ps:
                self.drop(st, "newround")
                for i in self.phis:
                    v = st.env.get(i)
                    if v is not None and v != C0 and i in eng.fn.livein[x.blk]:
                        self.report(eng, st, x, "count", "calls that were counted before are counted again")
            self.drop(st, "call")
            self.drop(st, "record")
            self.drop(st, "tagged")
            r = eng.fork(st, x, name, args, [("zero", st.ps | {("call", "done")})] +
                         [("nonzero", st.ps | {("call", "pending" if v == 0 else "done"), ("record", ("result",), v)}) for v in (-1, 0, 1)])
            for s, v in zip(r[1:], (-1, 0, 1)):
                s.mem[("f", s.env[x.i], D, "status")] = ("c", v)
            return r
        elif name == "gr_hashtable_set" and label(args[0]) == AWAITERS:
            self.bump("waiter recorded")
            e = "gracht_message_awaiter_entry"
            a = self.cell(eng, st, ("f", args[1], e, "awaiter"))
            k = key(self, eng, st, args[1], e)
            if k != strip(self.cell(eng, st, ("f", a, AW, "id"))):
                self.report(eng, st, x, "waiter", "the waiter is recorded under another id")
            for f in ("count", "flags"):
                if (AW, f) in self.used and ("set", f) not in st.ps:
                    self.report(eng, st, x, "waiter", "the waiter does not know what it waits for: %s is not set" % f)
            self.add(st, "added")
        elif name in ("memset", "memcpy", "memmove", "calloc"):
            for f in self.FIELDS:           # the whole object is filled in
                self.add(st, "set", f)
        elif name in ("cnd_wait", "cnd_timedwait"):
            if ("added",) not in st.ps:
                self.report(eng, st, x, "waiter", "waits without being recorded as waiting")
            self.drop(st, "all")
            self.drop(st, "some")
        elif name == "mtx_unlock" and label(args[0]) == ("gracht_client", "messages_lock"):
            self.untagged(eng, st, x)
            self.drop(st, "call")
            self.drop(st, "record")
        return None

    def untagged(self, eng, st, x):
        if ("call", "done") in st.ps:
            self.report(eng, st, x, "missed", "an executed call is not counted: the wait for it does not end")
        if ("pumped",) in st.ps:
            return
        for t in self.all(st, "record"):
            if t[2] == 0 and ("tagged", t[1]) not in st.ps:
                self.report(eng, st, x, "waiter", "a pending call does not learn who waits for it")

    def trim(self, eng, ps, live):
        return ps

    def load(self, eng, st, x, addr, val):
        if label(addr) == (AW, "current_count") and ("begun",) not in st.ps:
            self.add(st, "begun")
            if ("set", "current_count") not in st.ps:
                self.report(eng, st, x, "count", "the waiter starts with an undefined number of executed calls")

    def counted(self, eng, st, x):
        self.bump("executed call counted")
        if ("call", "done") not in st.ps:
            self.report(eng, st, x, "count", "a call is counted as executed that is still in progress, or counted twice")
        self.drop(st, "call")

    def op(self, eng, st, x, val):
        if x.i in self.incs:
            n = eng.const(st, strip(eng.val(st, self.incs[x.i])))
            if n is None or n == 1:
                self.counted(eng, st, x)
            elif n != 0:
                self.report(eng, st, x, "count", "a call is counted more than once")
            return None
        flip, what = self.cmp[x.i]
        p = x.d["pred"]
        if flip:
            p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
        out = []
        for t in (True, False):
            s = st.copy()
            if not eng.assume(s, val, t):
                continue
            s.env[x.i] = ("c", int(t))
            self.bump("end of wait checked")
            if what == "count":
                full = (p == "eq" and t) or (p == "ne" and not t) or (p[1:] == "ge" and t) or (p[1:] == "lt" and not t)
                (self.add if full else self.drop)(s, "all")
            else:
                some = (p[1:] == "gt" and what >= 0 and t) or (p[1:] == "ge" and what >= 1 and t) or (p == "ne" and what == 0 and t) or \
                    (p == "eq" and what == 0 and not t) or (p[1:] == "lt" and what >= 1 and not t) or (p[1:] == "le" and what >= 0 and not t) or \
                    (p == "eq" and what >= 1 and t)
                (self.add if some else self.drop)(s, "some")
            out.append(s)
        return out

    def edge(self, eng, st, x, succ):
        for (p, a, b), v in st.facts.items():
            if p == "eq" and b == C0:
                t = strip(a)
                if t[0] == "op" and t[1] == "and" and t[3] == ("c", 1):
                    f = strip(t[2])
                    o = self.origin(eng, f)
                    if f == ("a", 3) or (o is not None and label(o) == (AW, "flags")):
                        if v:
                            self.add(st, "any")
                        else:
                            self.drop(st, "any")

    def store(self, eng, st, x, addr, val):
        l = label(addr)
        if l and l[0] == AW and l[1] in self.FIELDS and strip(val) == self.FIELDS[l[1]]:
            self.add(st, "set", l[1])
        if x.i in self.local:
            return
        if l == (AW, "current_count"):
            s, n = plus(val)
            if s is None:
                if n != 0 and eng.read(st, addr) == ("c", n - 1):
                    self.counted(eng, st, x)
                elif n != 0:
                    self.report(eng, st, x, "count", "a call is counted as executed without having been looked at")
                return
            old = eng.read(st, addr)
            t, k = plus(old) if old is not None else (s, 0)
            if s != t or n - k not in (0, 1):
                self.report(eng, st, x, "count", "a call is counted more than once")
            elif n - k == 1:
                self.counted(eng, st, x)
        elif l == (D, "awaiter_id"):
            a = self.origin(eng, val)
            if any(self.is_id(st, val)):
                self.add(st, "tagged", root(addr))
            elif a is not None and label(a) == (AW, "id"):
                self.add(st, "tagged", root(addr))
            else:
                self.report(eng, st, x, "waiter", "a pending call is told of another waiter")

    def is_id(self, st, val):
        return [True for c, v in st.mem.items() if c[0] != "Z" and label(c) == (AW, "id") and strip(v) == strip(val)]

    def ret(self, eng, st, x, val):
        if eng.iszero(st, val) is False:
            if ("pumped",) in st.ps and ("failed",) not in st.ps:
                self.report(eng, st, x, "given-up", "waiting ends with an error although receiving did not fail")
            return
        self.bump("end of wait checked")
        if ("all",) in st.ps or (("some",) in st.ps and ("any",) in st.ps):
            return
        self.report(eng, st, x, "too-early", "waiting succeeds although too few of the calls are known to have been executed")


class Wait(Facts):
    """a failure of the transport ends the wait, and so does the answer to the call that is waited for"""

    def __init__(self, mod, counts, fn):
        super().__init__(mod, counts)
        self.watch = frozenset(y.i for y in fn.all() if y.op == "icmp" and y.d["pred"] in ("eq", "ne"))

    def call(self, eng, st, x, name, args):
        if name == "gr_hashtable_get" and label(args[0]) == MESSAGES:
            o = self.origin(eng, key(self, eng, st, args[1]))
            if o is not None and label(o) == (CTX, "message_id"):
                self.drop(st, "answered")
                self.drop(st, "is")
                r = eng.fork(st, x, name, args, [("zero", st.ps | {("is", None)})] + [("nonzero", st.ps | {("is", v)}) for v in (-1, 0, 1)])
                for s, v in zip(r[1:], (-1, 0, 1)):
                    s.mem[("f", s.env[x.i], D, "status")] = ("c", v)
                return r
        elif name == "slot:client_link_ops.recv":
            self.bump("receive checked")
            for t in self.all(st, "is"):
                if t[1] != 0:
                    self.report(eng, st, x, "endless", "the response to a call that was executed, or never made, is waited for")
            self.drop(st, "is")
            self.add(st, "received")
            if ("failed",) in st.ps:
                self.report(eng, st, x, "endless", "waiting goes on after the transport failed")
            self.drop(st, "answered")
            self.drop(st, "same")
            return eng.fork(st, x, name, args, [("zero", st.ps), ("nonzero", st.ps | {("failed",)})])
        return None

    def store(self, eng, st, x, addr, val):
        if label(addr) == (D, "status") and root(addr)[0] != "al":
            self.add(st, "answered")

    def op(self, eng, st, x, val):
        a, b = [strip(eng.val(st, o)) for o in x.d["ops"]]
        o = [self.origin(eng, t) for t in (a, b)]
        same = any(t is not None and label(t) == (CTX, "message_id") for t in o)
        zero = b == C0 and o[0] is not None and o[0][0] == "x"      # no call has the id 0
        if not (same or zero):
            return None
        out = []
        for t in (True, False):
            s = st.copy()
            if not eng.assume(s, val, t):
                continue
            s.env[x.i] = ("c", int(t))
            if t == (x.d["pred"] == "eq"):
                self.add(s, "same")
            out.append(s)
        return out

    def ret(self, eng, st, x, val):
        if ("failed",) in st.ps and eng.iszero(st, val) is not False:
            self.report(eng, st, x, "failure", "a failure of the transport is reported as success")
        k = self.one(st, "is") if self.all(st, "is") else 0
        done = self.all(st, "is") and k in (-1, 1)
        if done and k == 1 and eng.iszero(st, val) is not True:
            self.report(eng, st, x, "executed", "waiting for a call fails although it was completed")
        if eng.iszero(st, val) is not False and not done and (k is None or ("received",) not in st.ps):
            self.report(eng, st, x, "nothing", "waiting succeeds although nothing was received and no call that is waited for was executed")
        if ("answered",) in st.ps and eng.iszero(st, ("a", 1)) is not True and eng.iszero(st, val) is not False:
            self.bump("answered call checked")
            if ("same",) in st.ps:
                return
            self.report(eng, st, x, "other-call", "waiting for one call ends with success although only another one is known to have been answered")


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    ctx.run(lambda f: Sent(mod, counts), [mod.get("gracht_client_invoke")])
    ctx.run(lambda f: Change(mod, counts), [f for f in ctx.roots() if f.base not in ("gracht_client_await_multiple", "gracht_client_invoke")
                                            and not f.base.startswith("gracht_server")])
    ctx.run(lambda f: Wait(mod, counts, f), [mod.get("gracht_client_wait_message")])
    ctx.run(lambda f: Status(mod, counts), [mod.get("gracht_client_get_status_buffer")])
    ctx.run(lambda f: Finalize(mod, counts), [mod.get("gracht_client_status_finalize")])
    aw = mod.get("gracht_client_await_multiple")
    m = Await(mod, counts, aw)
    ctx.extra["await_counters"] = {"increments": len(m.incs), "comparisons": len(m.cmp)}
    ctx.run(lambda f: m, [aw])
    n = 0
    for u in gen.units(ctx, lambda c, s, side: gen.codec_names(c), ("client",), "res"):
        fs = [f for f in u.mod.fn.values() if not f.decl and any(c.d["callee"][:2] == ["g", "gracht_client_get_status_buffer"] for c in f.calls())]
        n += len(fs)
        ctx.run(lambda f: Result(u.mod, counts), fs, mod=u.mod, eff=u.eff)
    ctx.need(n > 20, "no generated functions read results")
    ctx.extra["generated_result_functions"] = n
    for k in ("call recorded", "status changed", "waiter looked up", "waiter counted", "status checked", "response released", "result requested",
              "result checked", "executed call counted", "end of wait checked", "receive checked", "waiter recorded"):
        ctx.need(counts.get(k), "no instance of: %s" % k)
