"""Linear inequalities over the integers a state's registers stand for.

A term becomes a linear form over atoms when no operation in it can wrap (which is itself derived from the inequalities that
hold in the state); anything else becomes an atom with the range of its type. Entailment is decided by eliminating the atoms
from the inequalities of the state together with the negated goal (Fourier-Motzkin)."""
from math import gcd
from .engine import C0, contains, subst, syms, width


class Lin:
    __slots__ = ("k", "c")

    def __init__(self, k=0, c=None):
        self.k, self.c = k, c or {}

    def __add__(self, o):
        c = dict(self.c)
        for a, n in o.c.items():
            c[a] = c.get(a, 0) + n
            if not c[a]:
                del c[a]
        return Lin(self.k + o.k, c)

    def scale(self, n):
        return Lin(self.k * n, {a: x * n for a, x in self.c.items()}) if n else Lin(0)

    def __sub__(self, o):
        return self + o.scale(-1)

    def __repr__(self):
        return " + ".join(["%d" % self.k] + ["%d*%s" % (n, a) for a, n in self.c.items()])


def tight(l):
    """the strongest inequality over the integers that l >= 0 implies with the same left side"""
    g = 0
    for n in l.c.values():
        g = gcd(g, n)
    if g <= 1:
        return l
    return Lin(l.k // g, {a: n // g for a, n in l.c.items()})


def feasible(cons):
    """cons: list of Lin, each >= 0; False if certainly no integer solution"""
    cons = list({(l.k, frozenset(l.c.items())): l for l in cons}.values())
    while True:
        for l in cons:
            if not l.c and l.k < 0:
                return False
        cons = [l for l in cons if l.c]
        if not cons:
            return True
        # eliminate the atom that creates the fewest combinations
        occ = {}
        for l in cons:
            for a, n in l.c.items():
                p = occ.setdefault(a, [0, 0])
                p[0 if n > 0 else 1] += 1
        a = min(occ, key=lambda x: occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1])
        pos = [l for l in cons if l.c.get(a, 0) > 0]
        neg = [l for l in cons if l.c.get(a, 0) < 0]
        rest = [l for l in cons if a not in l.c]
        if len(pos) * len(neg) + len(rest) > 600:
            return True
        for p in pos:
            for n in neg:
                q = p.scale(-n.c[a]) + n.scale(p.c[a])
                q.c.pop(a, None)
                rest.append(tight(q))
        best = {}
        for l in rest:
            k = frozenset(l.c.items())
            if k not in best or l.k < best[k].k:
                best[k] = l
        cons = list(best.values())


class Space:
    """the inequalities of one abstract state"""

    def __init__(self, eng, st, extra=()):
        self.eng, self.st = eng, st
        self.cons = list(extra)
        self.atoms = {}
        self.memo = {}
        self.wd = {}
        self.linked = set()
        self.building = True
        # simple facts first, those that need them afterwards
        fs = sorted(st.facts.items(), key=lambda f: len(repr(f[0])))
        for (p, a, b), v in fs:
            self.fact(p, a, b, v)
        self.link()
        # now that ranges are known, fewer operations can wrap
        for (p, a, b), v in fs:
            if a[0] in ("cast", "op") or b[0] in ("cast", "op"):
                self.fact(p, a, b, v)
        self.link()
        self.building = False

    def link(self):
        """the two readings of a value agree when it is not negative"""
        ch = True
        while ch:
            ch = False
            for (sg, t) in list(self.atoms):
                if sg != "u" or ("s", t) not in self.atoms or t in self.linked:
                    continue
                w = self.wd[t]
                if self.holds(Lin(0, {("s", t): 1})) or self.holds(Lin((1 << (w - 1)) - 1, {("u", t): -1})):
                    self.linked.add(t)
                    self.cons += [Lin(0, {("u", t): 1, ("s", t): -1}), Lin(0, {("u", t): -1, ("s", t): 1})]
                    ch = True

    def width_of(self, t):
        if t[0] in ("v", "old"):
            x = self.eng.fn.ins.get(t[1])
            return width(x.ty) if x is not None else 64
        if t[0] == "a":
            return width(self.eng.fn.args[t[1]])
        if t[0] == "cast":
            return width(t[3])
        if t[0] == "op":
            return t[4]
        if t[0] == "k":
            return self.eng.kwidth.get(t[1], 32) if hasattr(self.eng, "kwidth") else 32
        return 64

    def fact(self, p, a, b, v):
        sg = "s" if p[0] == "s" else "u"
        w = None
        for t in (a, b):
            if t[0] != "c":
                w = self.width_of(t)
        if w is None or a[0] in ("b", "g", "al", "f", "x") or b[0] in ("b", "g", "al", "f", "x"):
            return
        if p == "eq":
            if v:
                for s in "us":
                    d = self.lin(a, s, w) - self.lin(b, s, w)
                    self.cons += [d, d.scale(-1)]
            elif b == ("c", 0):
                # an unsigned value that is not zero is positive
                self.cons.append(self.lin(a, "u", w) + Lin(-1))
                # a signed one that is not negative either
                l = self.lin(a, "s", w)
                if self.holds(l):
                    self.cons.append(l + Lin(-1))
            elif b[0] == "c":
                for s in "us":
                    l = self.lin(a, s, w) - self.lin(b, s, w)
                    if self.holds(l):
                        self.cons.append(l + Lin(-1))
                    elif self.holds(l.scale(-1)):
                        self.cons.append(l.scale(-1) + Lin(-1))
            return
        x, y = self.lin(a, sg, w), self.lin(b, sg, w)
        if v:
            self.cons.append(y - x + Lin(-1))
        else:
            self.cons.append(x - y)

    def atom(self, t, sg, w):
        k = (sg, t)
        if k not in self.atoms:
            self.atoms[k] = True
            l = Lin(0, {k: 1})
            if sg == "u":
                self.cons += [l, Lin((1 << w) - 1, {k: -1})]
            else:
                self.cons += [Lin(1 << (w - 1), {k: 1}), Lin((1 << (w - 1)) - 1, {k: -1})]
            self.wd[t] = w
            if ("s" if sg == "u" else "u", t) in self.atoms:
                if not self.building and t not in self.linked:
                    self.link()
        return Lin(0, {k: 1})

    def within(self, l, sg, w):
        lo, hi = (0, (1 << w) - 1) if sg == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return self.holds(l + Lin(-lo)) and self.holds(Lin(hi) - l)

    def lin(self, t, sg, w=None):
        if w is None:
            w = self.width_of(t)
        if self.building:
            return self.lin0(t, sg, w)
        k = (t, sg, w)
        if k not in self.memo:
            self.memo[k] = self.lin0(t, sg, w)
        return self.memo[k]

    def lin0(self, t, sg, w):
        if t[0] == "c":
            n = t[1]
            if sg == "u" and n < 0:
                n += 1 << w
            elif sg == "s" and n >= 1 << (w - 1):
                n -= 1 << w
            return Lin(n)
        if t[0] == "cast":
            op, sty, ty, v = t[1:]
            if op == "zext":
                return self.lin(v, "u", width(sty))
            if op == "sext":
                l = self.lin(v, "s", width(sty))
                if sg == "s" or self.holds(l):
                    return l
                return self.atom(t, sg, w)
            for s in (sg, "u", "s"):
                l = self.lin(v, s, width(sty))
                if self.within(l, sg, width(ty)):
                    return l
            r = self.atom(t, sg, w)
            if sg == "u":
                self.cons.append(self.lin(v, "u", width(sty)) - r)
            return r
        if t[0] == "op":
            op, a, b, ww = t[1:]
            if op in ("add", "sub"):
                for s in (sg, "s" if sg == "u" else "u"):
                    x = self.lin(a, s, ww)
                    # constants are added in the reading that keeps the result in range
                    for y in ([Lin(b[1]), self.lin(b, s, ww)] if b[0] == "c" else [self.lin(b, s, ww)]):
                        l = x + y if op == "add" else x - y
                        if self.within(l, sg, ww):
                            return l
            elif op == "mul" and b[0] == "c":
                l = self.lin(a, sg, ww).scale(b[1])
                if self.within(l, sg, ww):
                    return l
            elif op == "and" and b[0] == "c" and b[1] >= 0:
                l = self.atom(t, sg, ww)
                self.cons.append(Lin(b[1]) - l)
                self.cons.append(l)
                u = self.lin(a, "u", ww)
                self.cons.append(u - l)
                return l
            elif op in ("udiv", "sdiv", "lshr", "ashr") and b[0] == "c" and b[1] > 0:
                n = b[1] if op.endswith("div") else 1 << b[1]
                s = "u" if op in ("udiv", "lshr") else "s"
                x = self.lin(a, s, ww)
                l = self.atom(t, sg, ww)
                if s == "u" or self.holds(x):
                    # n*q <= x < n*q + n
                    self.cons += [x - l.scale(n), l.scale(n) + Lin(n - 1) - x, l]
                return l
            elif op in ("urem", "srem") and b[0] == "c" and b[1] > 0:
                l = self.atom(t, sg, ww)
                if op == "urem" or self.holds(self.lin(a, "s", ww)):
                    self.cons += [l, Lin(b[1] - 1) - l]
                return l
            elif op == "urem":
                l = self.atom(t, sg, ww)
                self.cons += [l, self.lin(b, "u", ww) - l + Lin(-1)]
                return l
        l = self.atom(t, sg, w)
        o = "s" if sg == "u" else "u"
        if (o, t) not in self.atoms and t[0] in ("v", "old", "a", "k"):
            self.atom(t, o, w)
        return l

    def holds(self, l):
        """l >= 0 follows"""
        if not l.c:
            return l.k >= 0
        return not feasible(self.cons + [Lin(-1) - l])

    def le(self, a, b):
        return self.holds(b - a)


def space(eng, st):
    """the inequalities of a state; states that know the same share them"""
    c = eng.__dict__.setdefault("_spaces", {})
    k = frozenset(st.facts.items())
    if k not in c:
        if len(c) > 400:
            c.clear()
        c[k] = Space(eng, st, eng.mon.extra())
    return c[k]


NUM = ("v", "old", "a", "c", "op", "cast", "k")


def numeric(t):
    return t[0] in NUM


def decide(eng, st, at):
    """truth of a comparison that the inequalities imply, None if open"""
    p, a, b = at
    if not numeric(a) or not numeric(b):
        return None
    sp = space(eng, st)
    w = None
    for t in (a, b):
        if t[0] != "c":
            w = sp.width_of(t)
    if w is None or w == 1:
        return None
    memo = eng.__dict__.setdefault("_decided", {})
    k = (id(sp), at)
    if k in memo and memo[k][0] is sp:
        return memo[k][1]
    r = None
    for sg in ("u", "s") if p == "eq" else (p[0],):
        d = sp.lin(a, sg, w) - sp.lin(b, sg, w)
        if p == "eq":
            if sp.holds(d) and sp.holds(d.scale(-1)):
                r = True
            elif sp.holds(d + Lin(-1)) or sp.holds(d.scale(-1) + Lin(-1)):
                r = False
        else:
            if sp.holds(d.scale(-1) + Lin(-1)):
                r = True
            elif sp.holds(d):
                r = False
        if r is not None:
            break
    memo[k] = (sp, r)
    return r


def offset(addr):
    """(base, [(index, scale)]) of an address inside an array"""
    parts = []
    while addr[0] == "x":
        parts.append((addr[2], addr[3]))
        addr = addr[1]
    return addr, parts


def offterm(eng, parts):
    t = C0
    for ix, sc in parts:
        t = eng.binop("add", t, eng.binop("mul", ix, ("c", sc), 64), 64)
    return t


def consts(eng):
    """zero and the constants that comparisons inside loops use"""
    c = eng.__dict__.get("_consts")
    if c is None:
        c = {0}
        for x in eng.fn.all():
            if x.op == "icmp" and eng.inloop[x.blk]:
                for o in x.d["ops"]:
                    if o[0] == "c" and abs(o[1]) < 1 << 31:
                        c.add(o[1])
        c |= set(eng.mon.numbers)
        c = eng._consts = [("c", n) for n in sorted(c)]
    return c


def rounds(fn, hb):
    """the blocks a round of the loop with this header passes through"""
    memo = fn.__dict__.setdefault("_rounds", {})
    if hb not in memo:
        seen = {hb}
        work = [p for p, h in fn.backedges if h == hb]
        while work:
            b = work.pop()
            if b not in seen:
                seen.add(b)
                work.extend(fn.pred[b])
        memo[hb] = seen
    return memo[hb]


def widen(eng, st, new, hb):
    """values recomputed in a loop get a new symbol; what the inequalities imply about them, their sums and differences and
    the terms of the automaton is kept"""
    sp = space(eng, st)
    items = []          # (symbol, term it stands for, width)
    for i, (x, v, wide) in sorted(new.items()):
        if not wide:
            continue
        if x.ty == "ptr":
            b, parts = offset(v)
            if parts and b[0] in ("f", "k", "a", "al"):
                items.append((i, offterm(eng, parts), 64, b))
            else:
                items.append((i, None, 64, None))
        elif x.ty == "i1":
            items.append((i, None, 1, None))
        else:
            items.append((i, v, width(x.ty), None))
    # terms the values are compared with
    cand = list(eng.mon.bounds(eng, st))
    for (p, a, b) in st.facts:
        for t in (a, b):
            if t not in cand and numeric(t) and t[0] != "c":
                cand.append(t)
    dead = [("v", i) for i, _, _, _ in items]
    stale = [("old", i) for i, _, _, _ in items]
    inner = set()
    body = rounds(eng.fn, hb)

    def passing(t):
        """mentions a value of this round that the next one computes again"""
        ss = set()
        syms(t, ss)
        for s in ss:
            if s not in inner:
                x = eng.fn.ins[s[1]]
                if x.op != "load" and (x.blk != hb or x.op != "phi") and x.blk in body:
                    inner.add(s)
        return bool(ss & inner)
    cand = [t for t in cand if not any(contains(t, s) for s in dead + stale) and not passing(t)][:14]
    facts = {}
    track = list(eng.mon.tracked(st))
    repl = {}
    for i, v, w, b in items:
        if v is None:
            continue
        s = ("v", i)
        for sg in ("u", "s") if w > 1 else ():
            l = sp.lin(v, sg, w)
            for t in cand + consts(eng):
                tw = w if t[0] == "c" else sp.width_of(t)
                if tw != w:
                    continue
                m = sp.lin(t, sg, w)
                if t == C0 and sg == "u":
                    if sp.holds(l + Lin(-1)):
                        facts[("eq", s, C0)] = False
                    continue
                if sp.holds(m - l + Lin(-1)):
                    facts[(sg + "lt", s, t)] = True
                elif sp.holds(m - l):
                    facts[(sg + "lt", t, s)] = False
                if sp.holds(l - m + Lin(-1)):
                    facts[(sg + "lt", t, s)] = True
                elif sp.holds(l - m):
                    facts[(sg + "lt", s, t)] = False
        # constants the value has been compared with
        for (p, a, c) in list(st.facts):
            for y, k in ((a, c), (c, a)):
                if k[0] == "c" and y == v and p != "eq":
                    facts[(p, s if a == v else a, s if c == v else c)] = st.facts[(p, a, c)]

    def wide64(s, w):
        return s if w == 64 else ("cast", "zext", "i%d" % w, "i64", s)
    for t in track:
        if not any(contains(t, d) for d in dead) and t[0] == "c":
            pass
        lt = sp.lin(t, "u", 64)
        for i, v, w, b in items:
            if v is None or w == 1:
                continue
            l = sp.lin(v, "u", w)
            s = wide64(("v", i), w)
            if same(sp, l, lt):
                repl[t] = s
                break
            done = False
            for c in cand + [C0]:
                if c == C0:
                    # a constant distance
                    d = l - lt
                    if not d.c and abs(d.k) < 4096:
                        repl[t] = eng.binop("add", s, ("c", -d.k), 64)
                        done = True
                        break
                    continue
                if sp.width_of(c) not in (32, 64):
                    continue
                m = sp.lin(c, "u")
                cc = wide64(c, sp.width_of(c))
                if same(sp, m - l, lt):
                    repl[t] = ("op", "sub", cc, s, 64)
                    done = True
                elif same(sp, l + m, lt):
                    repl[t] = ("op", "add", s, cc, 64)
                    done = True
                if done:
                    break
            if done:
                break
    # two values that move together
    for k, (i, v, w, b) in enumerate(items):
        if v is None or w == 1:
            continue
        for j, u, z, c in items[k + 1:]:
            if u is None or z == 1:
                continue
            a, e = sp.lin(v, "u", w), sp.lin(u, "u", z)
            si, sj = wide64(("v", i), w), wide64(("v", j), z)
            for t in [("c", n) for n in eng.mon.numbers] + cand:
                tw = 64 if t[0] == "c" else sp.width_of(t)
                if tw not in (32, 64):
                    continue
                m = sp.lin(t, "u", tw)
                if same(sp, a + e, m):
                    facts[("eq", ("op", "add", si, sj, 64), wide64(t, tw))] = True
                    break
            if same(sp, a, e):
                facts[("eq", si, sj)] = True
    for t in track:
        if t not in repl and (any(contains(t, d) for d in dead + stale) or passing(t)):
            repl[t] = ("k", "lost")
    for t, r in repl.items():
        st.ps = subst(st.ps, t, r)
    keep = {}
    for f, v in st.facts.items():
        if not any(contains(f, d) for d in dead + stale) and not passing(f):
            keep[f] = v
    lost = [s for s in dead + stale]
    # what still mentions the previous round is renamed as usual
    mark = {s: ("new", s[1]) for s in dead}
    for t, r in repl.items():
        q = r
        for s in dead:
            q = subst(q, s, mark[s])
        st.ps = subst(st.ps, r, q)
    for i, v, w, b in items:
        eng.age(st, ("v", i))
        new = {k: (y, subst(x, ("v", i), ("old", i)), z) for k, (y, x, z) in new.items()}
    for s in dead:
        st.ps = subst(st.ps, mark[s], s)
    st.facts = dict(keep)
    st.facts.update(facts)
    for i, v, w, b in items:
        st.env[i] = ("x", b, ("v", i), 1) if b is not None else ("v", i)
    for i, (x, v, wide) in new.items():
        if not wide:
            st.env[i] = v
    return st


def same(sp, a, b):
    d = a - b
    return sp.holds(d) and sp.holds(d.scale(-1))
