"""C19: the queue is first in, first out, the stack last in, first out; nothing in them is lost or overwritten."""
from gv import bits, loops
from gv.engine import C0, flat, label, root, wrap
from gv.facts import Facts, strip

LEVEL = "other"
RULE = ("on every path of the queue and stack operations the conditions, the slot that is written or read and the new positions are evaluated from their expressions for all fill levels and for "
        "positions around the wrap of the counters: an element is refused only by a full and missed only by an empty container, writer and reader use the same slot for the same position, "
        "no two elements of a container share a slot, and growing keeps the elements and makes room")


class Box(Facts):
    STRUCT = None

    def __init__(self, mod, counts, fn, acc):
        super().__init__(mod, counts)
        self.fn, self.acc = fn, acc

    def load(self, eng, st, x, addr, val):
        l = label(addr)
        v = strip(val)
        if addr[0] == "f" and addr[1] == ("a", 0) and l is not None and l[0] == self.STRUCT:
            if v[0] != "c" and not any(f[:2] == ("new", l[1]) for f in st.ps):
                self.add(st, "sym", v, l[1])
        elif self.storage(st, root(addr)):
            b, parts = flat(addr)
            self.add(st, "got", v, b, eng.offterm(parts))

    def storage(self, st, r):
        return ("sym", r, "elements") in st.ps or any(f[0] == "grown" and f[1] == r for f in st.ps)

    def edge(self, eng, st, x, succ):
        for at, v in st.facts.items():
            self.add(st, "cond", at, v)

    def store(self, eng, st, x, addr, val):
        l = label(addr)
        if addr[0] == "f" and addr[1] == ("a", 0) and l is not None and l[0] == self.STRUCT:
            st.ps = frozenset(f for f in st.ps if f[:2] != ("new", l[1])) | {("new", l[1], val)}
        elif self.storage(st, root(addr)):
            b, parts = flat(addr)
            n = len(self.all(st, "put"))
            self.add(st, "put", n, b, eng.offterm(parts), strip(val))

    def call(self, eng, st, x, name, args):
        if name in ("malloc", "realloc", "calloc"):
            size = eng.binop("mul", args[0], args[1], 64) if name == "calloc" else args[-1]
            keeps = name == "realloc" and ("sym", strip(args[0]), "elements") in st.ps
            return eng.fork(st, x, name, args, [("nonzero", st.ps | {("grown", ("result",), size, keeps)}), ("zero", st.ps | {("nomem",)})])
        if name in ("memcpy", "memmove") and ("sym", strip(args[1]), "elements") in st.ps:
            self.add(st, "copied", strip(args[0]), args[2])
        if name == "free":
            self.add(st, "freed", strip(args[0]))
        return None

    # evaluation -----------------------------------------------------------------------------------------------------
    def env(self, st, state):
        return {f[1]: state[f[2]] for f in st.ps if f[0] == "sym" and f[2] in state}

    def possible(self, st, env):
        for f in st.ps:
            if f[0] == "cond":
                try:
                    if bits.truth(f[1], env) != f[2]:
                        return False
                except bits.Open:
                    pass
        return True

    def value(self, t, env):
        try:
            return bits.ev(t, env)
        except bits.Open:
            return None

    def changed(self, st, env, state, field, width):
        """value of the field afterwards"""
        for f in st.ps:
            if f[:2] == ("new", field):
                v = self.value(f[2], env)
                return None if v is None else v & ((1 << width) - 1)
        return state[field] & ((1 << width) - 1)

    def untouched(self, st, env, state):
        return not self.all(st, "put") and all(self.changed(st, env, state, k, 64) == state[k] & ((1 << 64) - 1) for k in state)

    def ret(self, eng, st, x, val):
        if eng.iszero(st, ("a", 0)) is True:
            return
        if self.fn.endswith("construct"):
            return self.construct(eng, st, x, val)
        bad = set()
        for state in self.states():
            env = self.env(st, state)
            if not self.possible(st, env):
                continue
            self.bump("state evaluated")
            m = self.outcome(eng, st, val, state, env)
            if m:
                bad.add(m)
        for m in sorted(bad):
            self.report(eng, st, x, "step", m)


class Queue(Box):
    STRUCT = "gr_queue"

    def states(self):
        for cap, real in self.acc["caps"]:
            near = [0, 1, 2, 3, cap - 1, cap, cap + 1, 3 * cap - 1]
            if real:
                near += [(1 << 31) - k for k in range(3)] + [(1 << 32) - k for k in range(1, cap + 2)]
            for d in sorted(set(near)):
                for n in range(cap + 1):
                    yield {"capacity": cap, "dequeue_index": wrap(d, 32), "queue_index": wrap(d + n, 32)}

    def outcome(self, eng, st, val, s, env):
        d, q, cap = s["dequeue_index"] % (1 << 32), s["queue_index"] % (1 << 32), s["capacity"]
        n = (q - d) % (1 << 32)
        m32 = (1 << 32) - 1
        if self.fn == "gr_queue_enqueue":
            if eng.iszero(st, ("a", 1)) is True:
                return None if self.untouched(st, env, s) and eng.iszero(st, val) is False else "adding nothing changes the queue"
            if eng.iszero(st, val) is not True:
                if n != cap:
                    return "an element is refused although the queue is not full"
                return None if self.untouched(st, env, s) else "refusing an element changes the queue"
            if n == cap:
                return "an element is added to a full queue"
            puts = self.all(st, "put")
            if len(puts) != 1 or puts[0][4] != ("a", 1):
                return "the element is not stored once"
            o = self.value(puts[0][3], env)
            if o is None or not 0 <= o < 8 * cap or o % 8:
                return "the element is not stored in a slot of the queue"
            self.acc["in"].setdefault((cap, q), set()).add(o)
            if self.changed(st, env, s, "queue_index", 32) != (q + 1) & m32 or self.changed(st, env, s, "dequeue_index", 32) != d:
                return "the position of the writer does not move on by one"
        else:
            if eng.iszero(st, val) is True:
                if n:
                    return "nothing is taken although the queue is not empty"
                return None if self.untouched(st, env, s) else "taking from an empty queue changes it"
            got = [f for f in st.ps if f[0] == "got" and f[1] == strip(val)]
            if not n:
                return "an element is taken from an empty queue"
            if len(got) != 1:
                return "what is returned is not an element of the queue"
            o = self.value(got[0][3], env)
            if o is None:
                return "what is returned is not an element of the queue"
            self.acc["out"].setdefault((cap, d), set()).add(o)
            if self.changed(st, env, s, "dequeue_index", 32) != (d + 1) & m32 or self.changed(st, env, s, "queue_index", 32) != q:
                return "the position of the reader does not move on by one"
        if self.changed(st, env, s, "capacity", 32) != cap:
            return "the capacity of the queue changes"
        return None

    def construct(self, eng, st, x, val):
        if eng.iszero(st, val) is not True:
            return
        self.bump("queue set up")
        f = {t[1]: t[2] for t in self.all(st, "new")}
        g = [t for t in st.ps if t[0] == "grown" and t[1] == strip(f.get("elements", ("u",)))]
        for cap, _ in self.acc["caps"]:
            env = {("a", 1): cap}
            if not g or self.value(g[0][2], env) != 8 * cap or self.value(f.get("capacity", ("u",)), env) != cap:
                return self.report(eng, st, x, "construct", "the queue does not have as many slots as its capacity")
            a, b = (self.value(f.get(k, ("u",)), env) for k in ("queue_index", "dequeue_index"))
            if a is None or a != b:
                return self.report(eng, st, x, "construct", "a new queue is not empty")


class Stack(Box):
    STRUCT = "stack"

    def states(self):
        for count in (1, 2, 3, 8, 13, 64):
            for i in range(count + 1):
                yield {"index": i, "count": count}

    def outcome(self, eng, st, val, s, env):
        i, n = s["index"], s["count"]
        if self.fn == "stack_push":
            puts = self.all(st, "put")
            if eng.iszero(st, ("a", 1)) is True:
                return None if self.untouched(st, env, s) else "adding nothing changes the stack"
            g = [f for f in st.ps if f[0] == "grown"]
            cap = n
            if g:
                size = self.value(g[0][2], env)
                new = {f[1]: f[2] for f in self.all(st, "new")}
                c = self.changed(st, env, s, "count", 64)
                keeps = g[0][3] or any(f[0] == "copied" and f[1] == g[0][1] and (self.value(f[2], env) or 0) >= 8 * i for f in st.ps)
                if not keeps or size is None or strip(new.get("elements", ("u",))) != g[0][1] or c is None or 8 * c > size or c < i:
                    return "growing the stack does not keep its elements"
                cap = c
            elif self.changed(st, env, s, "count", 64) != n or any(f[:2] == ("new", "elements") for f in st.ps):
                return "the room of the stack changes although it did not grow"
            if not puts:
                if not self.all(st, "nomem") or i != n:
                    return "an element is not kept although there is room"
                if self.changed(st, env, s, "index", 64) != i:
                    return "the number of elements changes without an element"
                return None
            if len(puts) != 1 or puts[0][4] != ("a", 1) or self.value(puts[0][3], env) != 8 * i:
                return "the element is not stored above the others"
            if i >= cap:
                return "an element is stored behind the end of a full stack"
            base = puts[0][2]
            if base != (g[0][1] if g else next((f[1] for f in st.ps if f[0] == "sym" and f[2] == "elements"), None)):
                return "the element is stored in memory that is not the stack's any more"
            if self.changed(st, env, s, "index", 64) != i + 1:
                return "the number of elements is not counted up by one"
        else:
            if eng.iszero(st, val) is True:
                if i:
                    return "nothing is taken although the stack is not empty"
                return None if self.untouched(st, env, s) else "taking from an empty stack changes it"
            if not i:
                return "an element is taken from an empty stack"
            got = [f for f in st.ps if f[0] == "got" and f[1] == strip(val)]
            if len(got) != 1 or self.value(got[0][3], env) != 8 * (i - 1):
                return "what is taken is not the element that was added last"
            if self.changed(st, env, s, "index", 64) != i - 1 or self.changed(st, env, s, "count", 64) != n:
                return "the number of elements is not counted down by one"
        return None

    def construct(self, eng, st, x, val):
        if eng.iszero(st, val) is not True:
            return
        self.bump("stack set up")
        f = {t[1]: t[2] for t in self.all(st, "new")}
        g = [t for t in st.ps if t[0] == "grown" and t[1] == strip(f.get("elements", ("u",)))]
        for n in (1, 3, 8):
            env = {("a", 1): n}
            c = self.value(f.get("count", ("u",)), env)
            if not g or c is None or not 0 < c or 8 * c > (self.value(g[0][2], env) or 0):
                return self.report(eng, st, x, "construct", "the stack has less room than it counts on")
            if self.value(f.get("index", ("u",)), env) != 0:
                return self.report(eng, st, x, "construct", "a new stack is not empty")


def check(ctx):
    mod = ctx.mod
    counts = ctx.stats["rules"]
    real = set()
    for f in mod.fn.values():
        for x in f.calls():
            if x.d["callee"][:2] == ["g", "gr_queue_construct"] and x.d["args"][1][0] == "c":
                real.add(x.d["args"][1][1])
    ctx.extra["capacities in use"] = sorted(real)
    acc = {"caps": [(c, True) for c in sorted(real) if c <= 256] + [(c, False) for c in (1, 2, 3, 7, 32) if c not in real], "in": {}, "out": {}}
    ctx.run(lambda f: Queue(mod, counts, f.base, acc), [mod.get(n) for n in ("gr_queue_construct", "gr_queue_enqueue", "gr_queue_dequeue")])
    ctx.run(lambda f: Stack(mod, counts, f.base, acc), [mod.get(n) for n in ("stack_construct", "stack_push", "stack_pop")])
    f = mod.get("gr_queue_enqueue")
    bad = set()
    for (cap, p), o in acc["out"].items():
        if (cap, p) in acc["in"]:
            ctx.oblige("slot of a position", 1)
            if len(o | acc["in"][cap, p]) != 1:
                bad.add("an element is read from another slot than it was written to")
    for (cap, p), o in acc["in"].items():
        for k in range(1, cap):
            q = acc["in"].get((cap, (p + k) % (1 << 32)))
            if q and q & o:
                bad.add("two elements of a queue share a slot")
        ctx.oblige("slots of a queue kept apart", 1)
    for m in sorted(bad):
        ctx.report(f.base, f.file, f.base, "slots", m)
    loops.check(ctx, ("runtime/queue.c", "runtime/stack.c"))
