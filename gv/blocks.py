"""Abstract interpretation of an allocator that keeps its blocks behind headers in one area of memory.

A state describes the area as a sequence of items that follow each other without gaps: single blocks (header and content) and
segments (any number of blocks nobody looked at yet, or any number of free ones). Positions, lengths and other integers are
linear forms over symbols, restricted by linear inequalities (gv/lin.py). Reading a header materialises a block out of the
segment it begins; writing headers is remembered until the chain is walked again, which yields the new sequence and shows what
happened to every byte. At the head of a loop blocks nobody points to are folded back into segments and only inequalities of
a fixed form that hold on every arrival are kept, so that every number of iterations is covered."""
import time
from .lin import Lin, feasible, tight

HEAD = 4            # bytes of a header
LENBITS = 24        # the length is in the low bits, the allocated flag is the bit above them
AREA = "area"


class Split(Exception):
    def __init__(self, cases):
        self.cases = cases          # list of lists of Lin >= 0


class Fault(Exception):
    def __init__(self, rule, msg):
        self.rule, self.msg = rule, msg


class Lost(Exception):
    """the interpretation can not follow the code"""


def num(n):
    return Lin(n)


def sym(s):
    return Lin(0, {s: 1})


def key(l):
    return (l.k, frozenset(l.c.items()))


def is0(l):
    return not l.c and l.k == 0


def subst(l, m):
    r = Lin(l.k)
    for a, n in l.c.items():
        r = r + (m[a].scale(n) if a in m else Lin(0, {a: n}))
    return r


class Item:
    """kind: B block, S any blocks, F free blocks; attr of B: allocated; of S: no run of free memory in it is large enough"""
    __slots__ = ("kind", "lo", "hi", "attr", "lost")

    def __init__(self, kind, lo, hi, attr=0, lost=False):
        self.kind, self.lo, self.hi, self.attr, self.lost = kind, lo, hi, attr, lost

    def free(self):
        return self.kind == "F" or (self.kind == "B" and not self.attr)


class State:
    def __init__(self):
        self.cons = []
        self.items = []
        self.raw = []           # (position, value) in the order of writing
        self.cells = {}         # (object, offset) -> value
        self.env = {}
        self.loops = ()
        self.ghost = {}
        self.copies = ()        # (destination, source, length)
        self.events = ()

    def copy(self):
        s = State()
        s.cons, s.items, s.raw = list(self.cons), list(self.items), list(self.raw)
        s.cells, s.env, s.loops = dict(self.cells), dict(self.env), self.loops
        s.ghost, s.copies, s.events = dict(self.ghost), self.copies, self.events
        return s


class Entry:
    """one way of entering a loop"""
    n = 0

    def __init__(self, st, marks):
        Entry.n += 1
        self.id = Entry.n
        self.cons = list(st.cons)
        self.marks = marks
        self.cells = dict(st.cells)
        self.blocks = [(i.lo, i.hi) for i in st.items if i.kind == "B"]
        self.known = {}         # shape -> list of candidate inequalities


class Late(Lost):
    pass


class Machine:
    BUDGET = 400.0

    def __init__(self, mod, interpret):
        self.mod = mod
        self.interpret = interpret      # functions whose bodies are followed
        self.found = {}
        self.ids = 0
        self.steps = 0
        self.reads = self.writes = self.walks = 0
        self.cache = {}
        self.deadline = None
        self.bodies = {}
        self.constants = {}

    # integers -------------------------------------------------------------------------------------------------------
    def new(self, st, name, lo=None, hi=None):
        self.ids += 1
        s = sym("%s%d" % (name, self.ids))
        if lo is not None:
            st.cons.append(s - num(lo))
        if hi is not None:
            st.cons.append(num(hi) - s)
        return s

    def sat(self, cons, goal=None):
        """with a goal only what is connected to it matters, the rest is known to have a solution"""
        if goal is not None:
            seen = set(goal.c)
            rest, use = cons, [goal]
            while True:
                nxt = []
                n = len(use)
                for l in rest:
                    if seen.isdisjoint(l.c):
                        nxt.append(l)
                    else:
                        use.append(l)
                        seen.update(l.c)
                if len(use) == n:
                    break
                rest = nxt
            cons = use
        k = frozenset(key(l) for l in cons)
        if k not in self.cache:
            self.cache[k] = feasible(cons)
        return self.cache[k]

    def holds(self, st, l):
        """l >= 0 in every case"""
        if not l.c:
            return l.k >= 0
        for c in st.cons:
            if c.k <= l.k and c.c == l.c:
                return True
        return not self.sat(st.cons, l.scale(-1) - num(1))

    def never(self, st, l):
        if not l.c:
            return l.k < 0
        return not self.sat(st.cons, l)

    def ge(self, st, l):
        """decides l >= 0, distinguishing cases if necessary"""
        if self.holds(st, l):
            return True
        if self.never(st, l):
            return False
        raise Split([[l], [l.scale(-1) - num(1)]])

    def same(self, st, a, b):
        d = a - b
        return is0(d) or (self.holds(st, d) and self.holds(st, d.scale(-1)))

    def eq(self, st, a, b):
        d = a - b
        if not d.c:
            return d.k == 0
        if not self.ge(st, d):
            return False
        return self.ge(st, d.scale(-1))

    def unsigned(self, st, l, w):
        m = 1 << w
        if not self.ge(st, l):
            return self.unsigned(st, l + num(m), w) if self.ge(st, l + num(m)) else self.fuzzy(st, w)
        if self.ge(st, num(m - 1) - l):
            return l
        l = l - num(m)
        return l if self.ge(st, num(m - 1) - l) else self.fuzzy(st, w)

    def fuzzy(self, st, w):
        return self.new(st, "v", 0, (1 << w) - 1)

    def signed(self, st, l, w):
        l = self.unsigned(st, l, w)
        return l if self.ge(st, num((1 << (w - 1)) - 1) - l) else l - num(1 << w)

    def parts(self, st, l, k):
        """(high, low) with l = high * 2^k + low; l is unsigned"""
        m = 1 << k
        hi, lo = Lin(l.k // m), Lin(l.k % m)
        for a, n in l.c.items():
            if n % m == 0:
                hi = hi + Lin(0, {a: n // m})
            else:
                lo = lo + Lin(0, {a: n})
        if not lo.c:
            return hi, lo
        if not self.ge(st, lo):
            if not self.ge(st, lo + num(m)):
                q = self.new(st, "q")
                r = self.fuzzy(st, k)
                return q, r
            return hi - num(1), lo + num(m)
        if self.ge(st, num(m - 1) - lo):
            return hi, lo
        if self.ge(st, num(2 * m - 1) - lo):
            return hi + num(1), lo - num(m)
        q = self.new(st, "q", 0)
        r = self.fuzzy(st, k)
        st.cons += [l - q.scale(m) - r, (l - q.scale(m) - r).scale(-1)]
        return q, r

    def masked(self, st, l, mask, w):
        l = self.unsigned(st, l, w)
        out = num(0)
        k = 0
        while k < w:
            if mask >> k & 1:
                e = k
                while e < w and mask >> e & 1:
                    e += 1
                low = l if e == w else self.parts(st, l, e)[1]
                if k:
                    low = self.parts(st, low, k)[0].scale(1 << k)
                out = out + low
                k = e
            else:
                k += 1
        return out

    def disjoint(self, st, a, b):
        """a is a multiple of a power of two that b is smaller than"""
        from math import gcd
        g = abs(a.k)
        for n in a.c.values():
            g = gcd(g, n)
        if g == 0:
            return True
        return self.holds(st, b) and self.holds(st, num((g & -g) - 1) - b)

    # values ---------------------------------------------------------------------------------------------------------
    def val(self, st, o):
        k = o[0]
        if k == "i":
            return st.env[("i", o[1])]
        if k == "a":
            return st.env[("a", o[1])]
        if k == "c":
            return ("n", num(o[1] & ((1 << o[2]) - 1)), o[2])
        if k == "n":
            return ("p", None, num(0))
        if k == "g":
            return ("p", ("g", o[1]), num(0))
        if k == "gep":
            return self.gep(st, o)
        return ("u",)

    def gep(self, st, g):
        v = self.val(st, g[1])
        if v[0] == "n":
            v = self.pointer(st, v)
        if v[0] != "p":
            return ("u",)
        off = v[2]
        for e in g[2]:
            if e[0] == "f":
                off = off + num(e[3])
            else:
                x = self.val(st, e[1])
                if x[0] != "n":
                    return ("u",)
                l = x[1] if x[2] == 64 else self.signed(st, x[1], x[2])
                if not l.c and l.k >= 1 << 63:
                    l = num(l.k - (1 << 64))
                off = off + l.scale(e[2])
        return ("p", v[1], off)

    def address(self, v):
        """a pointer as a number"""
        if v[1] is None:
            return v[2]
        return v[2] + sym(("addr", v[1]))

    def pointer(self, st, v):
        if v[0] == "n":
            for a in v[1].c:
                if isinstance(a, tuple) and a[0] == "addr" and v[1].c[a] == 1:
                    return ("p", a[1], v[1] - sym(a))
            if self.same(st, v[1], num(0)):
                return ("p", None, num(0))
        return ("u",)

    def compare(self, st, pred, a, b, w):
        if a[0] == "p" and b[0] == "p":
            if a[1] != b[1]:
                if pred in ("eq", "ne"):
                    if a[1] is None or b[1] is None or (a[1] != b[1]):
                        return pred == "ne"
                return None
            x, y = a[2], b[2]
        elif a[0] in "np" and b[0] in "np":
            x = self.address(a) if a[0] == "p" else a[1]
            y = self.address(b) if b[0] == "p" else b[1]
            if not any(isinstance(s, tuple) for s in (x - y).c):
                if not any(isinstance(s, tuple) for s in x.c):
                    f = self.signed if pred[0] == "s" else self.unsigned
                    x, y = f(st, x, w), f(st, y, w)
            else:
                return None
        else:
            return None
        if pred in ("eq", "ne"):
            return self.eq(st, x, y) == (pred == "eq")
        p = pred[1:]
        if p == "lt":
            return self.ge(st, y - x - num(1))
        if p == "le":
            return self.ge(st, y - x)
        if p == "gt":
            return self.ge(st, x - y - num(1))
        return self.ge(st, x - y)

    def binop(self, st, op, a, b, w):
        if op in ("add", "sub") and (a[0] == "p" or b[0] == "p"):
            a, b = [("n", self.address(v), w) if v[0] == "p" else v for v in (a, b)]
        if a[0] != "n" or b[0] != "n":
            return ("u",) if w > 1 else ("n", num(self.pick(st)), 1)
        x, y = a[1], b[1]
        if op == "add":
            if not y.c and y.k >= 1 << (w - 1):
                y = num(y.k - (1 << w))
            if not x.c and x.k >= 1 << (w - 1):
                x = num(x.k - (1 << w))
            return ("n", x + y, w)
        if op == "sub":
            return ("n", x - y, w)
        if op in ("and", "or", "xor"):
            if x.c and not y.c:
                pass
            elif y.c and not x.c:
                x, y = y, x
            if not x.c and not y.c:
                m = (1 << w) - 1
                p, q = x.k & m, y.k & m
                return ("n", num({"and": p & q, "or": p | q, "xor": p ^ q}[op]), w)
            if not y.c:
                m = y.k & ((1 << w) - 1)
                if op == "and":
                    return ("n", self.masked(st, x, m, w), w)
                if op == "or":
                    return ("n", self.unsigned(st, x, w) - self.masked(st, x, m, w) + num(m), w)
                return ("n", self.unsigned(st, x, w) - self.masked(st, x, m, w).scale(2) + num(m), w)
            x, y = self.unsigned(st, x, w), self.unsigned(st, y, w)
            if op != "and" and (self.disjoint(st, x, y) or self.disjoint(st, y, x)):
                return ("n", x + y, w)
            return ("n", self.fuzzy(st, w), w)
        if op in ("shl", "lshr", "ashr") and not y.c:
            if op == "shl":
                x = self.unsigned(st, x, w)
                low = self.parts(st, x, w - y.k)[1] if y.k else x
                return ("n", low.scale(1 << y.k), w)
            x = self.unsigned(st, x, w) if op == "lshr" else self.signed(st, x, w)
            return ("n", self.parts(st, x, y.k)[0] if y.k else x, w)
        if op == "mul":
            x, y = self.unsigned(st, x, w), self.unsigned(st, y, w)
            if not x.c:
                x, y = y, x
            if not y.c:
                return ("n", x.scale(y.k), w)
        if op in ("udiv", "urem") and not y.c and y.k:
            x = self.unsigned(st, x, w)
            q, r = self.new(st, "q", 0), self.new(st, "r", 0, y.k - 1)
            st.cons += [x - q.scale(y.k) - r, (x - q.scale(y.k) - r).scale(-1)]
            return ("n", q if op == "udiv" else r, w)
        return ("n", self.fuzzy(st, w), w)

    def pick(self, st):
        """a condition nothing is known about"""
        raise Lost("a condition can not be followed")

    # the area -------------------------------------------------------------------------------------------------------
    def locate(self, st, o):
        """index of the item that begins at o; None: o is the end; raises Split or Fault"""
        S = st.ghost["size"]
        st.items = [i for i in st.items if not (i.kind != "B" and is0(i.hi - i.lo))]
        for k, it in enumerate(st.items):
            if is0(it.lo - o):
                break
        else:
            for k, it in enumerate(st.items):
                if self.same(st, it.lo, o):
                    break
            else:
                if self.same(st, o, S):
                    return None
                for b in [i.lo for i in st.items] + [S]:
                    d = o - b
                    if not self.never(st, d) and not self.never(st, d.scale(-1)):
                        raise Split([[d, d.scale(-1)], [d - num(1)], [d.scale(-1) - num(1)]])
                raise Fault("header", "something that is not the header of a block is used as one")
        it = st.items[k]
        if it.kind != "B":
            if not self.settle(st, it):
                del st.items[k]
                return self.locate(st, o)
            raise Split([("open", it, a) for a in ((0, 1) if it.kind == "S" else (0,))])
        return k

    def settle(self, st, it):
        """False if the item is an empty segment"""
        d = it.hi - it.lo
        if it.kind == "B" or self.holds(st, d - num(HEAD)):
            return True
        if self.holds(st, d.scale(-1)):
            return False
        raise Split([[d - num(HEAD)], [d.scale(-1)]])

    def open(self, st, it, alloc):
        k = next(n for n, i in enumerate(st.items) if i is it)
        e = self.new(st, "b")
        st.cons += [e - it.lo - num(HEAD), it.hi - e]
        st.items[k:k + 1] = [Item("B", it.lo, e, alloc), Item(it.kind, e, it.hi, it.attr if it.kind == "S" else 0)]

    def word(self, st, it):
        f = self.new(st, "f", 0, (1 << (31 - LENBITS)) - 1)
        return it.hi - it.lo - num(HEAD) + num(it.attr << LENBITS) + f.scale(1 << (LENBITS + 1))

    def garbage(self, st):
        """a word nothing is known about"""
        return (self.new(st, "g", 0, (1 << LENBITS) - 1) + self.new(st, "g", 0, 1).scale(1 << LENBITS) +
                self.new(st, "g", 0, (1 << (31 - LENBITS)) - 1).scale(1 << (LENBITS + 1)))

    def written(self, st, o):
        """what was written at o, None if nothing was"""
        for n in range(len(st.raw) - 1, -1, -1):
            p, v = st.raw[n]
            d = o - p
            if self.same(st, o, p):
                return v
            if self.holds(st, d - num(HEAD)) or self.holds(st, d.scale(-1) - num(HEAD)):
                continue
            e = d.scale(-1)
            if (self.holds(st, d - num(1)) and self.holds(st, num(HEAD - 1) - d)) or (self.holds(st, e - num(1)) and self.holds(st, num(HEAD - 1) - e)):
                return None
            raise Split([[d, e], [d - num(HEAD)], [e - num(HEAD)], [d - num(1), num(HEAD - 1) - d], [e - num(1), num(HEAD - 1) - e]])
        return None

    def area_load(self, st, o, w):
        self.reads += 1
        if w != 32:
            raise Lost("part of a header is read")
        S = st.ghost["size"]
        if not self.holds(st, o):
            raise Fault("bounds", "a header is read in front of the arena")
        if not self.holds(st, S - o - num(1)):
            if self.same(st, o, S) or self.never(st, S - o - num(1)):
                raise Fault("bounds", "a header is read behind the end of the arena")
            raise Split([[S - o - num(1)], [o - S]])
        v = self.written(st, o)
        if v is None:
            try:
                k = self.locate(st, o)
                if k is None:
                    raise Fault("bounds", "a header is read behind the end of the arena")
                if st.items[k].lost:
                    raise Fault("header", "a header is read that was overwritten")
                v = self.word(st, st.items[k])
            except Fault as f:
                if f.rule != "header" or not self.holds(st, S - o - num(HEAD)):
                    raise
                # setting a part of a word reads all of it first
                v = self.garbage(st)
        return ("n", v, w)

    def area_store(self, st, o, v, w):
        self.writes += 1
        if v[0] != "n":
            v = ("n", self.fuzzy(st, w), w)
        if w != 32:
            raise Lost("part of a header is written")
        self.touch(st, o, num(HEAD), True)
        st.raw = [p for p in st.raw if not self.same(st, p[0], o)]
        kept = []
        for p in st.raw:
            d = o - p[0]
            if self.holds(st, d - num(HEAD)) or self.holds(st, d.scale(-1) - num(HEAD)):
                kept.append(p)
        st.raw = kept + [(o, self.unsigned(st, v[1], 32))]

    def touch(self, st, o, n, header):
        """n bytes at o are overwritten"""
        S = st.ghost["size"]
        if not (self.holds(st, o) and self.holds(st, S - o - n)):
            raise Fault("bounds", "memory outside of the arena is written")
        if header:
            for it in st.items:
                if it.kind == "B" and self.same(st, it.lo, o):
                    return
        done = False
        for i, a in enumerate(st.items):
            if not self.holds(st, o - a.lo):
                continue
            for j in range(i, len(st.items)):
                if not self.mine(st, st.items[j]):
                    break
                if self.holds(st, st.items[j].hi - o - n):
                    done = True
                    break
            if done:
                break
        if not done:
            # perhaps the place is not determined well enough yet
            for it in st.items:
                for e in (o - it.lo, o + n - it.hi):
                    if e.c and not self.holds(st, e) and not self.never(st, e):
                        raise Split([[e], [e.scale(-1) - num(1)]])
            raise Fault("in-use", "memory is overwritten that is in use")
        for k, it in enumerate(st.items):
            if it.kind == "B" and not it.lost:
                if not (self.holds(st, o - it.lo - num(HEAD)) or self.holds(st, it.lo - o - n)):
                    st.items[k] = Item(it.kind, it.lo, it.hi, it.attr, True)

    def mine(self, st, it):
        """the operation may write to the content of the item"""
        if it.free():
            return True
        t = st.ghost.get("target")
        return it.kind == "B" and t is not None and self.same(st, it.lo, t)

    # the chain ------------------------------------------------------------------------------------------------------
    def walk(self, st):
        """follows the headers from the start of the area to its end: the new items, each with how it came about"""
        self.walks += 1
        S = st.ghost["size"]
        out = []
        p = num(0)
        i = 0
        inside = False
        st.items = [x for x in st.items if not (x.kind != "B" and is0(x.hi - x.lo))]
        for _ in range(60):
            if self.same(st, p, S):
                return out
            if i >= len(st.items):
                raise Fault("chain", "the blocks do not end where the arena ends")
            it = st.items[i]
            if not inside and not self.settle(st, it):
                i += 1
                continue
            v = self.written(st, p)
            if v is None:
                if inside:
                    raise Fault("chain", "a block is followed by something that is not a header")
                if it.kind != "B":
                    out.append((it, "same", it))
                    p = it.hi
                    i += 1
                    continue
                if it.lost:
                    raise Fault("chain", "the header of a block was overwritten")
                out.append((it, "same", it))
                p = it.hi
                i += 1
                continue
            if not inside and it.kind != "B":
                raise Lost("header of a segment")
            hi, ln = self.parts(st, self.unsigned(st, v, 32), LENBITS)
            al = self.parts(st, hi, 1)[1]
            if al.c:
                al = num(1) if self.ge(st, al - num(1)) else num(0)
            al = al.k
            q = p + num(HEAD) + ln
            if not self.ge(st, S - q):
                raise Fault("chain", "a block reaches beyond the end of the arena")
            # what does it cover
            cov = []
            j = i
            first = True
            nin = False
            while True:
                if j >= len(st.items):
                    break
                x = st.items[j]
                lo = p if first and inside else x.lo
                if not first or inside:
                    if self.same(st, q, lo) and not first:
                        break
                if self.same(st, q, x.hi):
                    cov.append((x, "whole" if not (first and inside) else "part"))
                    j += 1
                    break
                if self.ge(st, q - x.hi):
                    cov.append((x, "whole" if not (first and inside) else "part"))
                    j += 1
                    first = False
                    continue
                cov.append((x, "part"))
                nin = True
                break
            new = Item("B", p, q, al)
            old = it if not inside else None
            if al and old is not None and old.kind == "B" and old.attr:
                how = "same" if self.same(st, q, old.hi) else "resized"
                rest = cov[1:]
            elif al:
                how, rest = "fresh", cov
            else:
                how, rest = "free", cov
            for x, _ in rest:
                if x.free():
                    continue
                if self.target(st, x):
                    if how == "free" or (how == "fresh"):
                        continue
                raise Fault("in-use", "memory that is in use becomes part of another block")
            if how == "resized" and not self.target(st, old):
                raise Fault("in-use", "the size of a block changes that is in use")
            out.append((new, how, old))
            p, i, inside = q, j, nin
        raise Lost("chain too long")

    def target(self, st, it):
        t = st.ghost.get("target")
        return it.kind == "B" and t is not None and self.same(st, it.lo, t)

    def nofit(self, st, run, after):
        """no block in the run is free and large enough, and free ones end where memory in use begins"""
        need = st.ghost.get("need")
        if need is None:
            return False
        for k, it in enumerate(run):
            if it.kind == "B" and it.attr:
                continue
            if it.kind == "B":
                if not self.never(st, it.hi - it.lo - num(HEAD) - need):
                    return False
                nxt = run[k + 1] if k + 1 < len(run) else after
                if nxt is None:
                    continue
                if not (nxt.kind == "B" and nxt.attr):
                    return False
            elif it.kind == "S" and it.attr:
                continue
            else:
                return False
        return True

    def commit(self, st):
        w = self.walk(st)
        for it, how, old in w:
            if how in ("resized", "fresh"):
                raise Lost("blocks change their owner before a loop")
        t = st.ghost.get("target")
        if t is not None and not any(i.kind == "B" and i.attr and self.same(st, i.lo, t) for i, _, _ in w):
            st.ghost["target"] = None
            st.ghost["released"] = True
        st.items = [x[0] for x in w]
        st.raw = []

    def used(self, st):
        """the symbols the state refers to"""
        out = set(st.ghost["scalars"])

        def lin(l):
            out.update(l.c)
        for i in st.items:
            lin(i.lo)
            lin(i.hi)
        for v in list(st.env.values()) + list(st.cells.values()):
            if v[0] == "p":
                lin(v[2])
            elif v[0] == "n":
                lin(v[1])
        for p, v in st.raw:
            lin(p)
            lin(v)
        for c in st.copies:
            for l in c:
                if l is not None:
                    lin(l)
        for k in ("size", "target", "need"):
            if st.ghost.get(k) is not None:
                lin(st.ghost[k])
        return out

    def everything(self, cons):
        out = set()
        for c in cons:
            out |= set(c.c)
        return out

    def reduce(self, cons, keep):
        """the same restrictions on the symbols in keep with fewer inequalities"""
        dead = set()
        for c in cons:
            dead |= set(c.c)
        dead -= keep
        while dead:
            cnt = {a: [0, 0] for a in dead}
            for c in cons:
                for a, n in c.c.items():
                    if a in cnt:
                        cnt[a][n < 0] += 1
            a = min(sorted(dead, key=str), key=lambda x: cnt[x][0] * cnt[x][1] - sum(cnt[x]))
            if cnt[a][0] * cnt[a][1] > sum(cnt[a]) + 6:
                break
            dead.discard(a)
            pos = [c for c in cons if c.c.get(a, 0) > 0]
            neg = [c for c in cons if c.c.get(a, 0) < 0]
            cons = [c for c in cons if a not in c.c]
            for p in pos:
                for n in neg:
                    q = p.scale(-n.c[a]) + n.scale(p.c[a])
                    q.c.pop(a, None)
                    if q.c:
                        cons.append(tight(q))
        best = {}
        for c in cons:
            k = frozenset(c.c.items())
            if k not in best or c.k < best[k].k:
                best[k] = c
        out = list(best.values())
        n = len(out) - 1
        while n >= 0:
            rest = out[:n] + out[n + 1:]
            if not self.sat(rest, out[n].scale(-1) - num(1)):
                out = rest
            n -= 1
        return out

    # loops ----------------------------------------------------------------------------------------------------------
    def body(self, fn, h):
        k = (fn.name, h)
        if k not in self.bodies:
            b = {h}
            w = [s for s, t in fn.backedges if t == h]
            while w:
                x = w.pop()
                if x not in b:
                    b.add(x)
                    w += fn.pred[x]
            self.bodies[k] = b
        return self.bodies[k]

    def arrive(self, fn, h, pred, st):
        """state at the head of a loop -> states to go on with"""
        phis = [x for x in fn.blocks[h] if x.op == "phi"]
        vals = {}
        for x in phis:
            o = [v for p, v in x.d["in"] if p == pred][0]
            vals[("i", x.i)] = self.val(st, o)
        back = bool(st.loops) and st.loops[-1][0] == (fn.name, h)
        self.commit(st)
        live = {("i", n) for n in fn.livein[h]} | set(vals)
        env = {k: v for k, v in st.env.items() if k[0] == "a" or k in live}
        env.update(vals)
        st.env = env
        if not back:
            st.cons = self.reduce(st.cons, self.used(st))
            e = Entry(st, [i.lo for i in st.items] + [st.ghost["size"]])
            st.loops = st.loops + (((fn.name, h), e),)
            return [st]
        e = st.loops[-1][1]
        # boundaries that are kept
        ptrs = [v[2] for k, v in env.items() if v[0] == "p" and v[1] == AREA]
        bounds = [i.lo for i in st.items] + [st.ghost["size"]]
        keep = []
        for n, b in enumerate(bounds):
            m = next((x for x in e.marks if self.same(st, b, x)), None)
            at = any(self.same(st, b, x) for x in ptrs)
            if m is not None or at or (n and st.items[n - 1].kind == "B" and any(self.same(st, st.items[n - 1].lo, x) for x in ptrs)):
                keep.append((n, m))
        items = []
        for (a, _), (b, _) in zip(keep, keep[1:]):
            run = st.items[a:b]
            run = [x for x in run if x.kind == "B" or not is0(x.hi - x.lo)]
            if not run:
                continue
            if len(run) == 1 and (run[0].kind != "B" or any(self.same(st, bounds[a], x) and self.same(st, bounds[b], y) for x, y in e.blocks) or any(self.same(st, bounds[a], x) for x in ptrs)):
                items.append(Item(run[0].kind, bounds[a], bounds[b], run[0].attr))
            else:
                fit = self.nofit(st, run, st.items[b] if b < len(st.items) else None)
                if all(x.free() for x in run) and not fit:
                    items.append(Item("F", bounds[a], bounds[b]))
                else:
                    items.append(Item("S", bounds[a], bounds[b], int(fit)))
        # canonical names of what is not known from before the loop
        ren = []

        def name(l, tag):
            for x in e.marks:
                if self.same(st, l, x):
                    return x
            for y, x in ren:
                if self.same(st, l, y):
                    return x
            x = sym("L%d.%s%d" % (e.id, tag, len(ren)))
            ren.append((l, x))
            return x
        nit = [Item(i.kind, name(i.lo, "b"), name(i.hi, "b"), i.attr) for i in items]
        nenv = {}
        for k in sorted(env, key=str):
            v = env[k]
            if k in vals and v[0] == "p" and v[1] == AREA:
                v = ("p", AREA, name(v[2], "b"))
            elif k in vals and v[0] == "n" and v[2] > 1 and v[1].c:
                v = ("n", name(v[1], "n"), v[2])
            elif k in vals and v[0] == "n" and v[2] > 1:
                v = ("n", name(v[1], "n"), v[2])
            nenv[k] = v
        shape = (tuple((i.kind, key(i.lo), key(i.hi), i.attr) for i in nit), tuple(sorted((str(k), v[0], str(v[1]) if v[0] == "p" else key(v[1]) if v[0] == "n" else "") for k, v in nenv.items() if k in vals)),
                 str(st.ghost.get("target")), st.ghost.get("released"), len(st.copies))
        back = {list(x.c)[0]: l for l, x in ren}
        if shape not in e.known:
            cand = []
            names = [x for _, x in ren]
            others = names + e.marks + [num(0)] + [sym(s) for s in st.ghost["scalars"]]
            diffs = [b - a for k, a in enumerate(e.marks + names) for b in (e.marks + names)[k + 1:]]
            for x in names:
                for y in others:
                    if y is x:
                        continue
                    for d in (x - y, y - x):
                        for c in (HEAD, 1, 0, -HEAD):
                            cand.append(d - num(c))
                if ".n" in list(x.c)[0]:
                    for d in diffs:
                        for c in (0, HEAD, -HEAD):
                            cand += [x - d + num(c), d - x - num(c)]
            need = st.ghost.get("need")
            for i in nit:
                if i.kind == "B" and need is not None and (i.lo.c or i.hi.c):
                    d = i.hi - i.lo - num(HEAD) - need
                    cand += [d, d.scale(-1) - num(1)]
            old = None
        else:
            cand = old = e.known[shape]
        keepc = [c for c in cand if self.holds(st, subst(c, back))]
        if old is not None and len(keepc) == len(old):
            return []
        e.known[shape] = keepc
        n = State()
        best = {}
        for c in keepc:
            k = frozenset(c.c.items())
            if k not in best or c.k < best[k].k:
                best[k] = c
        n.cons = list(e.cons) + list(best.values())
        for i in nit:
            n.cons.append(i.hi - i.lo - num(HEAD if i.kind == "B" else 0))
        n.cons = self.reduce(n.cons, self.everything(n.cons))
        n.items, n.env, n.loops = nit, nenv, st.loops
        n.cells = {k: v for k, v in st.cells.items() if k in e.cells and e.cells[k] == v}
        e.cells = dict(n.cells)
        n.ghost, n.copies, n.events = dict(st.ghost), st.copies, st.events
        return [n]

    # execution ------------------------------------------------------------------------------------------------------
    def fault(self, fn, x, f):
        k = (f.rule, f.msg, fn.base)
        if k not in self.found:
            self.found[k] = x
        self.hurry()

    def hurry(self):
        """something was found: the rest need not be complete"""
        self.deadline = min(self.deadline or 1e18, time.time() + 20)

    def run(self, fn, st, args, depth=0):
        """[(state, returned value)]"""
        if self.deadline is None:
            self.deadline = time.time() + self.BUDGET
        if depth > 4:
            raise Lost("recursion")
        saved, loops = st.env, st.loops
        st = st.copy()
        st.env = {("a", k): a for k, a in enumerate(args)}
        st.loops = ()
        done = []
        work = [(0, 0, st)]
        while work:
            if time.time() > self.deadline:
                raise Late("time is up")
            b, k, st = work.pop()
            self.steps += 1
            x = fn.blocks[b][k]
            s = st.copy()
            try:
                r = self.step(fn, x, s, depth)
            except Split as e:
                for c in e.cases:
                    n = st.copy()
                    if c[0] == "open":
                        self.open(n, c[1], c[2])
                    else:
                        n.cons += c
                        if not self.sat(n.cons):
                            continue
                    work.append((b, k, n))
                continue
            except Fault as f:
                self.fault(fn, x, f)
                continue
            if r[0] == "next":
                for n in r[1]:
                    work.append((b, k + 1, n))
            elif r[0] == "ret":
                s.env, s.loops = saved, loops
                done.append((s, r[1]))
            elif r[0] == "go":
                work += self.enter(fn, b, r[1], s, x)
        return done

    def enter(self, fn, b, t, s, x):
        """[(block, index, state)] after following the edge from b to t"""
        out = []
        while s.loops and t not in self.body(fn, s.loops[-1][0][1]):
            s.loops = s.loops[:-1]
        if t in fn.headers:
            todo = [s]
            states = []
            while todo:
                c = todo.pop()
                w = c.copy()
                try:
                    states += self.arrive(fn, t, b, w)
                except Split as e:
                    for cs in e.cases:
                        n = c.copy()
                        if cs[0] == "open":
                            self.open(n, cs[1], cs[2])
                        else:
                            n.cons += cs
                            if not self.sat(n.cons):
                                continue
                        todo.append(n)
                except Fault as f:
                    self.fault(fn, x, f)
        else:
            v = {}
            for p in fn.blocks[t]:
                if p.op == "phi":
                    v[("i", p.i)] = self.val(s, [o for q, o in p.d["in"] if q == b][0])
            s.env.update(v)
            states = [s]
        n = sum(1 for p in fn.blocks[t] if p.op == "phi")
        return [(t, n, q) for q in states]

    def bits(self, ty):
        return int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else 64

    def step(self, fn, x, st, depth):
        op, d = x.op, x.d
        if op == "br":
            if not d["ops"]:
                return "go", d["succ"][0]
            c = self.val(st, d["ops"][0])
            if c[0] != "n" or c[1].c:
                raise Lost("a condition can not be followed")
            return "go", d["succ"][0 if c[1].k & 1 else 1]
        if op == "switch":
            c = self.val(st, d["ops"][0])
            if c[0] != "n":
                raise Lost("a switch can not be followed")
            for v, t in d["cases"]:
                if self.eq(st, c[1], num(v)):
                    return "go", t
            return "go", d["default"]
        if op == "ret":
            return "ret", self.val(st, d["ops"][0]) if d.get("ops") else None
        if op == "unreachable":
            return "next", []
        if op == "call":
            return "next", self.call(fn, x, st, depth)
        r = None
        if op == "icmp":
            a, b = (self.val(st, o) for o in d["ops"])
            c = self.compare(st, d["pred"], a, b, self.bits(d["cty"]) if d["cty"] != "ptr" else 64)
            if c is None:
                raise Lost("a comparison can not be followed")
            r = ("n", num(int(c)), 1)
        elif op == "getelementptr":
            r = self.gep(st, d["gep"])
        elif op == "load":
            r = self.load(st, self.val(st, d["ops"][0]), x.ty)
        elif op == "store":
            self.store(st, self.val(st, d["ops"][1]), self.val(st, d["ops"][0]), d["vty"])
        elif op == "alloca":
            r = ("p", ("alloca", fn.name, x.i), num(0))
        elif op == "select":
            c = self.val(st, d["ops"][0])
            if c[0] != "n" or c[1].c:
                raise Lost("a condition can not be followed")
            r = self.val(st, d["ops"][1 if c[1].k & 1 else 2])
        elif op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            v = self.val(st, d["ops"][0])
            w = self.bits(x.ty)
            if op == "ptrtoint":
                r = ("n", self.address(v), w) if v[0] == "p" else v
            elif op == "inttoptr":
                r = self.pointer(st, v)
            elif op in ("bitcast", "freeze") or v[0] != "n":
                r = v
            elif op == "trunc":
                l = v[1]
                r = ("n", l if self.holds(st, l) and self.holds(st, num((1 << w) - 1) - l) else self.parts(st, self.unsigned(st, l, v[2]), w)[1], w)
            elif op == "zext":
                r = ("n", self.unsigned(st, v[1], v[2]), w)
            else:
                r = ("n", self.signed(st, v[1], v[2]), w)
        elif len(d.get("ops", ())) == 2:
            a, b = (self.val(st, o) for o in d["ops"])
            r = self.binop(st, op, a, b, self.bits(x.ty))
        else:
            raise Lost("instruction %s" % op)
        if r is not None:
            st.env[("i", x.i)] = r
        return "next", [st]

    def load(self, st, p, ty):
        w = self.bits(ty)
        if p[0] != "p":
            raise Lost("an address can not be followed")
        if p[1] is None:
            raise Fault("null", "memory is read through a null pointer")
        if p[1] == AREA and ty != "ptr":
            return self.area_load(st, p[2], w)
        k = (p[1], key(p[2]))
        if k not in st.cells:
            if ty == "ptr":
                st.cells[k] = ("u",)
            else:
                st.cells[k] = ("n", self.garbage(st) if w == 32 else self.fuzzy(st, w), w)
        return st.cells[k]

    def store(self, st, p, v, ty):
        if p[0] != "p":
            raise Lost("an address can not be followed")
        if p[1] is None:
            raise Fault("null", "memory is written through a null pointer")
        if p[1] == AREA:
            return self.area_store(st, p[2], v, self.bits(ty))
        st.cells[(p[1], key(p[2]))] = v

    def call(self, fn, x, st, depth):
        c = x.d["callee"]
        name = c[1] if c[0] == "g" else None
        args = [self.val(st, a) for a in x.d["args"]]
        i = ("i", x.i)
        if name and name.startswith("llvm."):
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                name = name.split(".")[1]
            elif name.startswith("llvm.memset"):
                name = "memset"
            elif name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
                w = self.bits(x.ty)
                g = self.compare(st, name[5] + "ge", args[0], args[1], w)
                if g is None:
                    raise Lost("a comparison can not be followed")
                st.env[i] = args[0] if g == name.startswith(("llvm.umax", "llvm.smax")) else args[1]
                return [st]
            else:
                if x.ty != "void":
                    st.env[i] = ("n", self.fuzzy(st, self.bits(x.ty)), self.bits(x.ty))
                return [st]
        target = self.mod.bybase.get(name, [None])[0] if name else None
        if name in self.interpret and target is not None:
            out = []
            for s, r in self.run(target, st, args, depth + 1):
                s = s.copy()
                s.env = dict(st.env)
                s.loops = st.loops
                if r is not None:
                    s.env[i] = r
                out.append(s)
            return out
        if name == "malloc" or name == "calloc":
            n = args[0][1] if name == "malloc" else self.binop(st, "mul", args[0], args[1], 64)[1]
            good = st.copy()
            self.ids += 1
            good.env[i] = ("p", ("heap", self.ids, key(n)), num(0))
            good.events += (("heap", self.ids, n),)
            st.env[i] = ("p", None, num(0))
            return [good, st]
        if name in ("memcpy", "memmove"):
            st.env[i] = args[0]
            dst, src, n = args[0], args[1], self.unsigned(st, args[2][1], 64)
            if dst[0] == "p" and dst[1] == AREA:
                if src[0] == "p" and src[1] == AREA and not n.c and n.k == HEAD:
                    self.area_store(st, dst[2], self.area_load(st, src[2], 32), 32)
                    return [st]
                if self.holds(st, n.scale(-1)):
                    return [st]
                self.touch(st, dst[2], n, False)
                for p, _ in st.raw:
                    if not (self.holds(st, p - dst[2] - n) or self.holds(st, dst[2] - p - num(HEAD))):
                        raise Fault("header", "a header is overwritten by what is copied")
                st.copies += ((dst[2], src[2] if src[0] == "p" and src[1] == AREA else None, n),)
            elif src[0] == "p" and src[1] == AREA and not n.c and n.k == HEAD and dst[0] == "p":
                st.cells[(dst[1], key(dst[2]))] = self.area_load(st, src[2], 32)
            return [st]
        if name == "memset":
            st.env[i] = args[0]
            if args[0][0] == "p" and args[0][1] == AREA:
                n = self.unsigned(st, args[2][1], 64)
                if not self.holds(st, n.scale(-1)):
                    self.touch(st, args[0][2], n, False)
            return [st]
        if name == "__errno_location":
            st.env[i] = ("p", ("errno",), num(0))
            return [st]
        if name is None or target is not None:
            raise Lost("call of %s" % name)
        if x.ty != "void":
            st.env[i] = ("n", num(0), self.bits(x.ty)) if name.startswith("mtx_") else ("u",) if x.ty == "ptr" else ("n", self.fuzzy(st, self.bits(x.ty)), self.bits(x.ty))
        if name.startswith(("mtx_", "free", "printf", "puts", "fprintf", "vfprintf", "putchar", "fflush")):
            return [st]
        raise Lost("call of %s" % name)
