"""C18: the tables behave like maps."""
from gv import bits, loops
from gv.engine import C0, flat, label, root, subst
from gv.facts import Facts, plus, strip

LEVEL = "other"
RULE = ("symbolic check of the inductive step of the hash table: every search starts at the slot of the hash of the key, visits the slots one after another and ends only at an empty "
        "slot or at one whose hash and key match; inserting, displacing, replacing and removing move whole elements and keep the probe counts and the number of elements right; "
        "resizing moves every element and leaves an empty slot, and a table is only made smaller when its elements fit; no loop repeats itself unchanged; enumeration visits every element once; hash and comparison functions agree on the key")
T, E = "gr_hashtable", "hashtable_element"
LIMITS = [1 << n for n in range(4, 28)]


KIND = {"element_size": "size"}
COPIED = ("copied",)


class Table(Facts):
    widen = True

    formula = {}

    def __init__(self, mod, counts, fn, limits):
        super().__init__(mod, counts)
        self.fn, self.limits = fn, limits

    # terms --------------------------------------------------------------------------------------------------------
    def is_(self, st, what, t):
        t = strip(t)
        return any(f[0] == what and f[1] == t for f in st.ps)

    def masked(self, st, t):
        """t reduced to the range of slots: what is reduced"""
        t = strip(t)
        if t[0] != "op":
            return None
        if t[1] == "and":
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                s, n = minus(b)
                if s is not None and n == -1 and self.is_(st, "capacity", s):
                    return a
        if t[1] == "urem" and self.is_(st, "capacity", t[3]):
            return t[2]
        return None

    def element(self, st, a):
        """place of an element: ("slot", index), ("swap",), ("iter",) or None"""
        while a[0] == "f" and a[2] == E:
            a = a[1]
        b, parts = flat(a)
        while b[0] == "f" and b[2] == E:
            b, more = flat(b[1])
            parts = more + parts
        parts = [(i, s) for i, s in parts if i != C0]
        for f in st.ps:
            if f[0] == "alias" and f[1] == b and not parts:
                return (f[2],)
        if b[0] == "al" or b[0] == "v" and False:
            return ("iter",) if not parts else None
        if self.is_(st, "swap", b) and not parts:
            return ("swap",)
        if self.is_(st, "elements", b):
            if not parts:
                return ("slot", C0)
            if len(parts) != 1:
                return None
            t, sc = strip(parts[0][0]), parts[0][1]
            if t[0] == "op" and t[1] == "mul" and sc == 1:
                for i, n in ((t[2], t[3]), (t[3], t[2])):
                    if self.is_(st, "size", n):
                        return ("slot", strip(i))
        return None

    def role(self, st, a):
        """cur / prev / swap / iter"""
        p = self.element(st, a)
        if p is None:
            return None
        if p[0] == "slot":
            for k in ("cur", "prev"):
                if self.one(st, k) is not None and self.same(st, self.one(st, k), p[1]):
                    return k
            return p
        return p[0]

    def same(self, st, i, j):
        return i == j or ("eqv", i, repr(j)) in st.ps or ("eqv", j, repr(i)) in st.ps

    # ----------------------------------------------------------------------------------------------------------------
    def load(self, eng, st, x, addr, val):
        l = label(addr)
        v = strip(val)
        if l is not None and l[0] == T and addr[0] == "f" and addr[1] == ("a", 0) and v[0] != "c":
            n = KIND.get(l[1], l[1])
            st.ps = frozenset(f for f in st.ps if f[:2] != (n, v)) | {(n, v)}
        if l is not None and l[0] == T and addr[0] == "f" and addr[1][0] == "al":
            st.ps = frozenset(f for f in st.ps if not (f[0] == "tempval" and f[2] == v)) | {("tempval", l[1], v)}
        if l is not None and l[0] == E:
            r = self.role(st, addr)
            if isinstance(r, tuple):
                r = self.enter(eng, st, x, r[1])
            if v[0] == "c":
                if l[1] == "probeCount" and r is not None:
                    self.note(st, r, "empty", v[1] == 0)
                    self.note(st, r, "last", v[1] <= 1)
                return
            st.ps = frozenset(f for f in st.ps if not (f[0] == "val" and f[1] == v)) | {("val", v, l[1], r)}

    def known(self, st, k):
        return any(f[0] == "is" and f[1] == k for f in st.ps)

    def forget(self, st, *ks):
        st.ps = frozenset(f for f in st.ps if not (f[0] == "is" and f[1] in ks))

    def enter(self, eng, st, x, i):
        """a slot is looked at that is neither the current nor the previous one"""
        self.bump("slot visited")
        if self.all(st, "cur"):
            # a step within the same iteration
            if not self.follows(st, i):
                self.report(eng, st, x, "probe", "the slots are not searched one after another")
                return None
            self.advance(eng, st, x, i)
            return "cur"
        if self.all(st, "hashed"):
            m = self.masked(st, i)
            if not self.is_(st, "start", i) and (m is None or not self.is_(st, "hashed", m) and not self.hash_of_iter(st, m)):
                self.report(eng, st, x, "probe", "the search does not start at the slot of the hash of the key")
            self.begin(eng, st, x)
            self.set(st, "cur", i)
            return "cur"
        # a scan of all slots
        seen = self.one(st, "seen")
        p = plus(i)
        if seen is None:
            if p != (None, 0):
                return None
            self.set(st, "seen", None, 0)
            seen = (None, 0)
        return "scan" if p == seen else None

    def hash_of_iter(self, st, m):
        return any(f[0] == "val" and f[1] == strip(m) and f[2] == "hash" and f[3] == "iter" for f in st.ps) and self.all(st, "iterhash")

    def begin(self, eng, st, x):
        if self.fn == "gr_hashtable_set":
            self.bump("room checked")
            if not self.all(st, "room"):
                self.report(eng, st, x, "full", "an element may be added although the table is full")

    def follows(self, st, i):
        m = self.masked(st, i)
        cur = self.one(st, "cur")
        if m is None or cur is None:
            return False
        b, n = plus(m)
        return (b, n) == (plus(cur)[0], plus(cur)[1] + 1) or n == 1 and b is not None and self.same(st, b, cur)

    def rename(self, eng, st, v, s):
        v = strip(v)
        cur = self.one(st, "cur")
        if cur is not None and self.follows(st, v):
            self.advance(eng, st, None, s, v)
            self.add(st, "eqv", s, repr(v))
            return
        if cur is not None and self.same(st, v, cur):
            self.set(st, "cur", s)
            self.add(st, "eqv", s, repr(v))
            return
        if plus(v) == (self.one(st, "seen") or (None, 0)) and cur is None:
            self.set(st, "seen", s, 0)
            return
        if cur is None and self.all(st, "hashed"):
            m = self.masked(st, v)
            if m is not None and (self.is_(st, "hashed", m) or self.hash_of_iter(st, m)):
                self.add(st, "start", s)
                self.add(st, "eqv", s, repr(v))
                return
        if self.fn == "gr_hashtable_construct" and self.power(st, v):
            self.add(st, "pow2", s)
        if v[0] in ("x", "f"):
            r = self.role(st, v)
            if isinstance(r, tuple):
                if cur is not None and self.follows(st, r[1]):
                    r = "next"
                elif cur is None and self.all(st, "hashed"):
                    r = self.enter(eng, st, self.last, r[1])
            if isinstance(r, str):
                st.ps = frozenset(f for f in st.ps if f[:2] != ("alias", s)) | {("alias", s, r)}
        for f in list(st.ps):
            if f[0] == "alias" and f[1] == v:
                self.add(st, "alias", s, f[2])

    def advance(self, eng, st, x, i, at=None):
        self.bump("step of a search")
        x = x or self.last
        if self.all(st, "chain"):
            self.chain_step(eng, st, x)
        else:
            self.search_step(eng, st, x)
        cur = self.one(st, "cur")
        ps = set()
        for f in st.ps:
            if f[0] == "alias":
                if f[2] == "prev":
                    continue
                f = ("alias", f[1], {"cur": "prev", "next": "cur"}.get(f[2], f[2]))
            elif f[0] in ("is", "done", "prev", "bumped", "eqv", "start"):
                continue
            elif f[0] == "val" and f[3] in ("cur", "prev"):
                continue
            elif f[0] == "holds" and f[1] in ("cur", "prev"):
                continue
            ps.add(f)
        st.ps = frozenset(ps)
        if self.all(st, "chain"):
            self.add(st, "holds", "prev", "stale")
        self.set(st, "prev", cur)
        self.set(st, "cur", i)

    def content(self, st, loc):
        for f in st.ps:
            if f[0] == "holds" and f[1] == loc:
                return f[2]
        return {"cur": "slot", "iter": "iter"}.get(loc, "?")

    def put(self, st, loc, c):
        st.ps = frozenset(f for f in st.ps if f[:2] != ("holds", loc)) | {("holds", loc, c)}

    # the outcome of one step ------------------------------------------------------------------------------------------
    def cond(self, st, k):
        return next((f[2] for f in st.ps if f[0] == "is" and f[1] == k), None)

    def match(self, st):
        return self.cond(st, "hash") is True and self.cond(st, "cmp") is True

    def nomatch(self, st):
        return self.cond(st, "hash") is False or self.cond(st, "cmp") is False

    def search_step(self, eng, st, x):
        """the search goes on with the next slot"""
        if self.cond(st, "empty") is not False:
            self.report(eng, st, x, "search", "the search goes on behind an empty slot")
        if not self.nomatch(st):
            self.report(eng, st, x, "search", "the search goes on behind a slot that may hold the key")
        if self.fn == "gr_hashtable_set":
            c, i = self.content(st, "cur"), self.content(st, "iter")
            poor = self.cond(st, "poor")
            if poor is None:
                self.report(eng, st, x, "insert", "an element may be left in front of one that is further away from its slot")
            elif poor and (c, i) != ("iter", "slot"):
                self.report(eng, st, x, "insert", "the element that makes room is not the one that is inserted next")
            elif not poor and (c, i) != ("slot", "iter"):
                self.report(eng, st, x, "insert", "an element is moved that need not be moved")
            if len(self.all(st, "bumped")) != 1:
                self.report(eng, st, x, "insert", "the distance of the element from its slot is not counted")
            # the element carried on takes the place of the one that is inserted
            st.ps = frozenset(f for f in st.ps if f[0] != "holds")

    def chain_step(self, eng, st, x):
        """behind a removed element: the current element was moved up"""
        if self.cond(st, "last") is not False:
            self.report(eng, st, x, "remove", "an element that is at its own slot is moved")
        if self.content(st, "prev") != "slot" or not self.all(st, "lowered"):
            self.report(eng, st, x, "remove", "an element behind a removed one is not moved up")
        st.ps = frozenset(f for f in st.ps if f[0] != "lowered")

    # ----------------------------------------------------------------------------------------------------------------
    def report(self, eng, st, x, *a):
        if not self.all(st, "dead"):
            super().report(eng, st, x, *a)

    def caps(self, st):
        """the capacities the path is possible with"""
        out = LIMITS
        for (p, a, b), v in st.facts.items():
            va, vb = [[self.number(st, t, c) for c in LIMITS] for t in (a, b)]
            if None in va or None in vb or p not in ("eq", "ult", "slt"):
                continue
            out = [c for c, m, n in zip(LIMITS, va, vb) if c in out and ((m == n) if p == "eq" else (m < n)) == v]
        return out

    def number(self, st, t, c):
        """t in a table with c slots"""
        t = strip(t)
        if t[0] == "c":
            return t[1]
        if self.is_(st, "capacity", t):
            return c
        if self.is_(st, "grow_count", t) or self.is_(st, "shrink_count", t):
            f = self.formula.get("grow_count" if self.is_(st, "grow_count", t) else "shrink_count")
            return None if f is None else f(c)
        if t[0] == "op":
            return calc(t, lambda u: self.number(st, u, c) if u[0] != "op" or self.is_(st, "capacity", u) else None)
        return None

    def edge(self, eng, st, x, succ):
        self.last = x
        if not self.all(st, "dead") and not self.caps(st):
            self.add(st, "dead")
        for (p, a, b), v in list(st.facts.items()):
            if p == "eq" and v and b == C0 and (a[0] in ("x", "f") and self.element(st, a) is not None or any(f[0] == "alias" and f[1] == a for f in st.ps)):
                self.add(st, "dead")        # an element of the table has an address
            va, vb = self.value(st, a), self.value(st, b)
            if p == "eq":
                for l, r, lv in ((a, b, va), (b, a, vb)):
                    if lv is not None and lv[0] == "probeCount" and r[0] == "c":
                        if r[1] == 0:
                            self.note(st, lv[1], "empty", v)
                            if v:
                                self.note(st, lv[1], "last", True)
                        elif v:
                            self.note(st, lv[1], "empty", False)
                            if r[1] == 1:
                                self.note(st, lv[1], "last", True)
                if va is not None and vb is not None and va[0] == vb[0] == "hash" and {va[1], vb[1]} == {"cur", "iter"}:
                    self.note(st, "cur", "hash", v)
                for l, lv, r in ((a, va, b), (b, vb, a)):
                    if lv is not None and lv == ("hash", "cur") and self.is_(st, "hashed", r):
                        self.note(st, "cur", "hash", v)
                    if self.is_(st, "compared", l) and r == C0:
                        self.note(st, "cur", "cmp", v)
                self.full(eng, st, a, b, v, True)
            else:
                if va == ("probeCount", "cur") and vb == ("probeCount", "iter"):
                    self.note(st, "cur", "poor", v)
                if va == ("probeCount", "iter") and vb == ("probeCount", "cur"):
                    # iter < cur: not poor; otherwise cur <= iter, which is not the same as cur < iter
                    if v:
                        self.note(st, "cur", "poor", False)
                if va is not None and va[0] == "probeCount" and b[0] == "c":
                    if b[1] == 2:
                        self.note(st, va[1], "last", v)
                    if b[1] == 1 and v:
                        self.note(st, va[1], "last", True)
                        self.note(st, va[1], "empty", True)
                    if b[1] == 1 and not v:
                        self.note(st, va[1], "empty", False)
                if vb is not None and vb[0] == "probeCount" and a[0] == "c":
                    if a[1] == 1:
                        self.note(st, vb[1], "last", not v)
                    if a[1] == 0:
                        self.note(st, vb[1], "empty", not v)
                self.full(eng, st, a, b, v, False)
            # the end of a scan
            for l, r in ((a, b), (b, a)):
                if self.is_(st, "capacity", l) and (self.one(st, "seen") or (None, 0)) == plus(r):
                    if p == "eq" and v or p != "eq" and l == b and not v:
                        self.add(st, "scanned")
        if self.one(st, "seen") is not None and self.cond(st, "empty-scan") is True:
            self.seen(st)

    def full(self, eng, st, a, b, v, eq):
        """number of elements compared with the limit"""
        for l, r in ((a, b), (b, a)):
            if self.is_(st, "element_count", l) and self.is_(st, "grow_count", r):
                if eq and not v or not eq and (l == a and v or l == b and not v and False):
                    self.add(st, "room")
                if not eq and l == a and v:
                    self.add(st, "room")

    def value(self, st, t):
        t = strip(t)
        for f in st.ps:
            if f[0] == "val" and f[1] == t:
                return (f[2], f[3])
        return None

    def note(self, st, role, k, v):
        if role == "cur":
            self.forget(st, k)
            self.add(st, "is", k, v)
        elif role == "scan":
            self.forget(st, k + "-scan")
            self.add(st, "is", k + "-scan", v)

    def seen(self, st):
        """the scanned slot was dealt with"""
        s, n = self.one(st, "seen")
        self.set(st, "seen", s, n + 1)
        self.forget(st, "empty-scan")
        st.ps = frozenset(f for f in st.ps if not (f[0] == "val" and f[3] == "scan"))

    def store(self, eng, st, x, addr, val):
        l = label(addr)
        v = strip(val)
        if l is not None and l[0] == E:
            r = self.role(st, addr)
            if l[1] == "hash" and r == "iter" and self.is_(st, "hashed", v):
                self.add(st, "iterhash")
            if l[1] == "probeCount":
                s, n = plus(v)
                sv = self.value(st, s) if s is not None else None
                if r == "iter":
                    if v == ("c", 1) and not self.all(st, "cur"):
                        self.add(st, "first")
                    elif sv == ("probeCount", "iter") and n == 1 and not self.all(st, "bumped"):
                        self.add(st, "bumped")
                    else:
                        self.report(eng, st, x, "insert", "the distance of an element from its slot is set wrongly")
                elif self.all(st, "chain"):
                    if sv is not None and sv[0] == "probeCount" and sv[1] in ("cur", "prev") and n == -1 and r in ("cur", "prev") and (r == "cur" or self.content(st, "prev") == "slot"):
                        if self.all(st, "lowered"):
                            self.report(eng, st, x, "remove", "the distance of a moved element is changed twice")
                        self.add(st, "lowered")
                    elif v == C0 and r == "prev":
                        if self.cond(st, "last") is not True:
                            self.report(eng, st, x, "remove", "elements behind a removed one are not moved up")
                        self.put(st, "prev", "empty")
                    else:
                        self.report(eng, st, x, "remove", "the distance of a moved element from its slot is set wrongly")
                elif r in ("cur", "prev"):
                    self.report(eng, st, x, "move", "the distance of an element from its slot is changed although it is not moved")
        if l is not None and l[0] == T and addr[0] == "f" and addr[1][0] in ("al", "a"):
            self.field(eng, st, x, addr[1], l[1], v)
        if l == (T, "element_count") and root(addr) == ("a", 0):
            s, n = plus(v)
            if s is not None and self.is_(st, "element_count", s) and n in (1, -1):
                self.add(st, "counted", n)
            elif ("tempval", "element_count", v) in st.ps and self.all(st, "scanned"):
                self.add(st, *(("none moved",) if v == C0 else ("element_count", v)))
            elif s is None and n == 1 and self.all(st, "none moved"):
                self.add(st, "counted", n)
            elif not self.constructs(l, v):
                self.report(eng, st, x, "count", "the number of elements is set wrongly")

    def field(self, eng, st, x, obj, name, v):
        if obj[0] == "al" or self.fn == "gr_hashtable_construct":
            st.ps = frozenset(f for f in st.ps if f[:2] != ("field", name)) | {("field", name, v)}
            return
        if name == "element_count":
            return
        self.bump("field of a resized table")
        if name not in ("elements", "capacity", "grow_count", "shrink_count") and ("tempval", name, v) in st.ps and self.all(st, "resizing"):
            return                  # what the temporary table has taken over
        if name not in ("elements", "capacity", "grow_count", "shrink_count") or not self.all(st, "resizing"):
            return self.report(eng, st, x, "resize", "%s of the table is changed" % name)
        taken = {f[1] for f in st.ps if f[0] == "tempval" and f[2] == v}
        mine = {f[1] for f in st.ps if f[0] == "field" and f[2] == v}
        if name not in taken | mine:
            self.report(eng, st, x, "resize", "%s of the resized table is not the one of the new slots" % name)
        k = KIND.get(name, name)
        if name == "elements":
            self.moved(eng, st, x)
            st.ps |= {("formerly", f[1]) for f in st.ps if f[0] == "elements"}
        st.ps = frozenset(f for f in st.ps if f[0] != k) | {(k, v), ("new", name)}

    def moved(self, eng, st, x):
        self.bump("resize checked")
        if not self.all(st, "scanned"):
            self.report(eng, st, x, "resize", "not every element is moved to the new slots")
        self.set(st, "room")
        self.add(st, "moved")

    def power(self, st, v):
        v = strip(v)
        if v[0] == "c":
            return v[1] in LIMITS
        if self.is_(st, "pow2", v):
            return True
        if v[0] == "op":
            a, b = v[2], v[3]
            if v[1] == "shl" and b == ("c", 1) or v[1] == "mul" and b == ("c", 2):
                return self.power(st, a)
            if v[1] == "mul" and a == ("c", 2):
                return self.power(st, b)
            if v[1] == "add" and a == b:
                return self.power(st, a)
        return False

    def fields(self, eng, st, x, what):
        """the table that was set up: its slots are empty and as many as its capacity"""
        f = {t[1]: t[2] for t in self.all(st, "field")}
        self.bump("table set up")
        cap, size = f.get("capacity"), f.get("element_size")
        bad = []
        if what == "construct":
            if size is None or plus(size) != (("a", 2), 16):
                bad.append("element_size")
            if cap is None or not self.power(st, cap):
                bad.append("capacity")
            for n, a in (("hash", 3), ("cmp", 4)):
                if f.get(n) != ("a", a):
                    bad.append(n)
            if not self.block(st, f.get("swap"), size, None):
                bad.append("swap")
        else:
            for n in ("element_size", "swap", "hash", "cmp"):
                if f.get(n) != COPIED and not self.is_(st, KIND.get(n, n), f.get(n, ("u",))):
                    bad.append(n)
            cs = self.caps(st)
            ns = [self.number(st, cap, c) if cap is not None else None for c in cs]
            if None in ns or any(n not in LIMITS and n < LIMITS[-1] for n in ns):
                bad.append("capacity")
        if f.get("element_count") != C0:
            bad.append("element_count")
        sizes = [size] if size != COPIED else [t[1] for t in self.all(st, "size")]
        if not any(self.block(st, f.get("elements"), cap, s) for s in sizes) or not self.is_(st, "zeroed", f["elements"]):
            bad.append("elements")
        for n in ("grow_count", "shrink_count"):
            if f.get(n) is None or cap is None:
                bad.append(n)
                continue
            g = lambda c: calc(f[n], lambda u: c if strip(u) == strip(cap) else None)
            for c in LIMITS:
                if strip(cap)[0] == "c" and strip(cap)[1] != c:
                    continue
                v = g(c)
                if v is None:
                    bad.append(n)
                    break
                self.limits.setdefault((n, c), set()).add(v)
        for n in bad:
            self.report(eng, st, x, what, "%s of the new slots is not set as it has to be" % n)
        if what == "resize" and not bad:
            self.fits(eng, st, x, cap, f)

    def fits(self, eng, st, x, cap, f):
        """all elements have room in the new slots, and the next one as well"""
        limit = {n: (lambda c, n=n: calc(f[n], lambda u: c if strip(u) == strip(cap) else None)) for n in ("grow_count", "shrink_count")}

        def value(t, c):
            t = strip(t)
            for n in limit:
                if self.is_(st, n, t):
                    return limit[n](c)
            return self.number(st, t, c)
        for c in self.caps(st):
            most = limit["grow_count"](c)
            for (p, a, b), v in st.facts.items():
                ea, eb = (self.is_(st, "element_count", t) for t in (a, b))
                if ea == eb:
                    continue
                n = value(b if ea else a, c)
                if n is None:
                    continue
                if p == "eq" and v:
                    most = min(most, n)
                elif p in ("ult", "slt") and v == ea:
                    most = min(most, n - 1 if ea else n)
            n = self.number(st, cap, c)
            if n is not None and most is not None and (limit["grow_count"](n) is None or most >= limit["grow_count"](n)):
                return self.report(eng, st, x, "resize", "the elements of a table with %d slots may not fit into the %d it is resized to" % (c, n))
        self.bump("room in the new slots")

    def block(self, st, p, a, b):
        if p is None or a is None:
            return False
        want = sorted([repr(strip(t)) for t in (a, b) if t is not None])
        return any(f[0] == "block" and f[1] == strip(p) and [repr(t) for t in f[2]] == want for f in st.ps)

    def constructs(self, l, v):
        return self.fn == "gr_hashtable_construct" and v == C0

    def call(self, eng, st, x, name, args):
        self.last = x
        if name == "slot:gr_hashtable.hash":
            self.bump("key hashed")
            if strip(args[0]) != ("a", 1):
                self.report(eng, st, x, "hash", "something else than the key is hashed")
            return eng.fork(st, x, name, args, [(None, st.ps | {("hashed", ("result",))})])
        if name == "slot:gr_hashtable.cmp":
            self.bump("keys compared")
            a = [self.payload(st, t) for t in args[:2]]
            want = {"cur", "iter"} if self.fn == "gr_hashtable_set" else {"cur", "key"}
            if set(a) != want:
                self.report(eng, st, x, "compare", "the element of the slot is not compared with the key")
            return eng.fork(st, x, name, args, [(None, frozenset(f for f in st.ps if f[0] != "compared") | {("compared", ("result",))})])
        if name in ("memcpy", "memmove"):
            self.copy(eng, st, x, args)
            return eng.default_call(st, x, name, args)
        if name in ("malloc", "calloc"):
            self.add(st, "resizing")
            n = strip(args[0])
            if name == "malloc":
                parts = [n[2], n[3]] if n[0] == "op" and n[1] == "mul" and not self.is_(st, "size", n) else [n]
                if n[0] == "op" and n[1] == "shl" and n[3][0] == "c":
                    parts = [n]
            else:
                parts = [t for t in args[:2] if strip(t) != ("c", 1)]
            ok = st.ps | {("block", ("result",), tuple(sorted((strip(t) for t in parts), key=repr)))}
            if name == "calloc":
                ok |= {("zeroed", ("result",))}
            return eng.fork(st, x, name, args, [("nonzero", ok), ("zero", st.ps)])
        if name == "memset":
            p, n = strip(args[0]), strip(args[2])
            parts = tuple(sorted((strip(t) for t in ([n[2], n[3]] if n[0] == "op" and n[1] == "mul" else [n])), key=repr))
            if args[1] == C0 and ("block", p, parts) in st.ps:
                self.add(st, "zeroed", p)
            return eng.default_call(st, x, name, args)
        if name == "gr_hashtable_set":
            self.bump("element moved to the new slots")
            t = args[0]
            p = self.payload(st, args[1])
            self.fields(eng, st, x, "resize")
            if p != "scan" or t[0] != "al":
                self.report(eng, st, x, "resize", "what is moved to the new slots is not the scanned element")
            elif self.cond(st, "empty-scan") is not False:
                self.report(eng, st, x, "resize", "an empty slot is moved as if it was an element")
            else:
                self.seen(st)
            return None
        if name == "free" and self.all(st, "resizing"):
            if self.is_(st, "elements", args[0]) and not self.is_(st, "formerly", args[0]):
                self.moved(eng, st, x)
                self.add(st, "released")
            elif self.is_(st, "formerly", args[0]):
                self.add(st, "released")
            return None
        if name.startswith("slot:") and self.fn == "gr_hashtable_enumerate" or name == "slot:?":
            self.bump("element enumerated")
            if self.payload(st, args[1]) != "scan" or self.cond(st, "empty-scan") is not False:
                self.report(eng, st, x, "enumerate", "what is enumerated is not the element of an occupied slot")
            elif args[2] != ("a", 2):
                self.report(eng, st, x, "enumerate", "the context is not passed on")
            else:
                self.seen(st)
        return None

    def payload(self, st, a):
        a = strip(a)
        if a == ("a", 1):
            return "key"
        b, parts = flat(a)
        if b[0] == "f" and (b[2], b[3]) == (E, "payload") and all(i == C0 for i, _ in parts):
            r = self.role(st, b)
            if isinstance(r, tuple) and self.one(st, "seen") is not None and plus(r[1]) == self.one(st, "seen"):
                return "scan"
            return r
        return None

    def copy(self, eng, st, x, args):
        n = strip(args[2])
        if strip(args[0])[0] == "al" and strip(args[1]) == ("a", 0):
            # the whole table
            st.ps = frozenset(f for f in st.ps if f[0] != "field") | {("field", k, COPIED) for k in ("element_size", "swap", "hash", "cmp")}
            return
        whole = self.is_(st, "size", n)
        d, s = self.role(st, args[0]), self.role(st, args[1]) if strip(args[1]) != ("a", 1) else "key"
        pd = self.payload(st, args[0])
        if s == "key" and pd == "iter":
            self.bump("key copied")
            m, k = minus(n)
            if m is None or not self.is_(st, "size", m) or k != -16:
                self.report(eng, st, x, "insert", "not the whole element is stored")
            return
        if isinstance(d, tuple) or isinstance(s, tuple):
            return self.report(eng, st, x, "move", "an element is copied from or to a slot that is not being looked at")
        if d is None or s is None:
            if d in ("cur", "prev"):
                self.report(eng, st, x, "move", "something else than an element is copied to a slot")
            return
        self.bump("element copied")
        if not whole:
            self.report(eng, st, x, "move", "not the whole element is copied")
        self.put(st, d, self.content(st, s))
        if d == "swap" and s == "cur" and self.fn == "gr_hashtable_remove" and self.content(st, "cur") == "slot" and not self.all(st, "chain"):
            if not self.match(st):
                self.report(eng, st, x, "remove", "an element is removed that may not be the one asked for")
            self.put(st, "swap", "removed")
            self.add(st, "chain")
            # the slot of the removed element is what is filled next
            st.ps = frozenset(f for f in st.ps if not (f[0] == "is"))
            self.add(st, "is", "last", False)
            self.add(st, "lowered")
            self.put(st, "prev", "slot")
        if d == "iter" and s == "swap":
            # the distance goes with the element
            st.ps = frozenset(f for f in st.ps if not (f[0] == "val" and f[3] == "iter"))

    # results --------------------------------------------------------------------------------------------------------
    def ret(self, eng, st, x, val):
        if eng.iszero(st, ("a", 0)) is True:
            return
        self.bump("result checked")
        fn = self.fn
        if fn == "gr_hashtable_enumerate":
            if eng.iszero(st, ("a", 1)) is not True and not self.all(st, "scanned"):
                self.report(eng, st, x, "enumerate", "not every element is enumerated")
            return
        if fn == "gr_hashtable_construct":
            if eng.iszero(st, val) is True:
                self.fields(eng, st, x, "construct")
            return
        if self.all(st, "moved") and len(self.all(st, "new")) != 4:
            self.report(eng, st, x, "resize", "the table does not get all of the new slots")
        if not self.all(st, "cur"):
            if fn != "gr_hashtable_construct" and eng.iszero(st, val) is not True:
                self.report(eng, st, x, "result", "a result is returned without a search")
            if fn != "gr_hashtable_construct" and not self.all(st, "resizing"):
                self.report(eng, st, x, "result", "the call ends without a search")
            return
        null = eng.iszero(st, val) is True
        p = self.payload(st, val) if not null else None
        counted = [f[1] for f in self.all(st, "counted")]
        if fn == "gr_hashtable_get":
            if null and self.cond(st, "empty") is not True:
                self.report(eng, st, x, "search", "the search ends before an empty slot is reached")
            if not null and not (p == "cur" and self.cond(st, "empty") is False and self.match(st)):
                self.report(eng, st, x, "result", "what is returned is not known to be the element with the key")
            if counted:
                self.report(eng, st, x, "count", "the number of elements is changed by a search")
        elif fn == "gr_hashtable_set":
            c, sw = self.content(st, "cur"), self.content(st, "swap")
            if not self.all(st, "first") or not self.all(st, "iterhash"):
                self.report(eng, st, x, "insert", "the distance or the hash of the new element is not set")
            if null:
                if self.cond(st, "empty") is not True or c != "iter":
                    self.report(eng, st, x, "insert", "the element is not stored, or over another one")
                if counted != [1]:
                    self.report(eng, st, x, "count", "the new element is not counted once")
            else:
                if not (self.cond(st, "empty") is False and self.match(st) and c == "iter" and sw == "slot" and p == "swap"):
                    self.report(eng, st, x, "replace", "the element with the same key is not replaced, or not what is returned")
                if counted:
                    self.report(eng, st, x, "count", "a replaced element is counted again")
        elif fn == "gr_hashtable_remove":
            if null:
                if self.all(st, "chain") or self.cond(st, "empty") is not True or counted:
                    self.report(eng, st, x, "search", "the search ends before an empty slot is reached")
            else:
                if p != "swap" or self.content(st, "swap") != "removed":
                    self.report(eng, st, x, "result", "what is returned is not the removed element")
                if self.content(st, "prev") != "empty":
                    self.report(eng, st, x, "remove", "the last slot that was moved up stays occupied")
                if counted != [-1]:
                    self.report(eng, st, x, "count", "the removed element is not counted off once")


def minus(t):
    """t as (symbol, constant), with subtractions"""
    n = 0
    while True:
        t = strip(t)
        if t[0] == "c":
            return None, n + t[1]
        if t[0] == "op" and t[1] in ("add", "sub") and t[3][0] == "c":
            n += t[3][1] if t[1] == "add" else -t[3][1]
            t = t[2]
            continue
        return t, n


def calc(t, f):
    """value of a term whose leaves f knows"""
    t = strip(t)
    v = f(t)
    if v is not None:
        return v
    if t[0] == "c":
        return t[1]
    if t[0] != "op":
        return None
    a, b = calc(t[2], f), calc(t[3], f)
    if a is None or b is None:
        return None
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "shl": lambda: a << b, "lshr": lambda: a >> b, "and": lambda: a & b,
            "or": lambda: a | b, "udiv": lambda: a // b if b else None, "urem": lambda: a % b if b else None}.get(t[1], lambda: None)()


class Key(Facts):
    """what of an element a hash function reads"""

    def __init__(self, mod, counts):
        super().__init__(mod, counts)
        self.read = set()
        self.out = []

    def load(self, eng, st, x, addr, val):
        r = root(addr)
        if r[0] == "a":
            self.read.add(subst(addr, r, ("key",)))
        st.ps = frozenset(f for f in st.ps if not (f[0] == "of" and f[1] == strip(val))) | {("of", strip(val), r, subst(addr, r, ("key",)))}

    def ret(self, eng, st, x, val):
        self.bump("result of a hash or comparison")
        self.out.append((eng, st, x, val))


def wide(t):
    """t without casts that keep every value apart"""
    while t[0] == "cast" and t[1] != "trunc":
        t = t[4]
    return t


class Same(Key):
    """the comparison finds two elements equal exactly when what is hashed is equal"""

    def __init__(self, mod, counts, keys):
        super().__init__(mod, counts)
        self.keys = keys

    def pair(self, st, a, b):
        a, b = wide(a), wide(b)
        fa = {(f[2], f[3]) for f in st.ps if f[0] == "of" and f[1] == a}
        fb = {(f[2], f[3]) for f in st.ps if f[0] == "of" and f[1] == b}
        for r, k in fa:
            for q, j in fb:
                if k == j and {r, q} == {("a", 0), ("a", 1)}:
                    return k
        return None

    def edge(self, eng, st, x, succ):
        self.learn(st)

    def learn(self, st):
        for (p, a, b), v in st.facts.items():
            k = self.pair(st, a, b)
            if k is not None:
                if p == "eq":
                    self.add(st, "same" if v else "differs", k)
                elif v:
                    self.add(st, "differs", k)
                else:
                    self.add(st, "notless", k, [f[2] for f in st.ps if f[0] == "of" and f[1] == strip(a)][0])
                    if len({f[2] for f in st.ps if f[0] == "notless" and f[1] == k}) == 2:
                        self.add(st, "same", k)

    def ret(self, eng, st, x, val):
        self.bump("result of a hash or comparison")
        c = wide(val)
        if c[0] == "b" and eng.truth(st, c) is None:
            for t in (True, False):
                s2 = st.copy()
                if eng.assume(s2, c, t):
                    self.ret(eng, s2, x, ("c", int(t)))
            return
        self.learn(st)
        same = {f[1] for f in self.all(st, "same")}
        differs = {f[1] for f in self.all(st, "differs")}
        v = strip(val)
        z = eng.iszero(st, val)
        if z is True:
            if not self.keys <= same:
                self.report(eng, st, x, "key", "elements with different keys may be taken for the same")
        elif z is False:
            if not differs & self.keys:
                self.report(eng, st, x, "key", "elements with the same key may be taken for different ones")
        else:
            k = self.pair(st, v[2], v[3]) if v[0] == "op" and v[1] in ("sub", "xor") else None
            if k is None or self.keys - same != {k} or wide(val) != v:
                self.report(eng, st, x, "key", "the result does not tell whether the keys are equal")


def pairs(ctx):
    mod, counts = ctx.mod, ctx.stats["rules"]
    done = set()
    for f in mod.fn.values():
        for x in f.calls():
            if x.d["callee"][:2] != ["g", "gr_hashtable_construct"]:
                continue
            h, c = x.d["args"][3], x.d["args"][4]
            if h[0] != "g" or c[0] != "g":
                ctx.report(f.base, f.file, x.where(), "key", "the hash and comparison functions are not known")
                continue
            if (h[1], c[1]) in done:
                continue
            done.add((h[1], c[1]))
            hf, cf = mod.fn[h[1]], mod.fn[c[1]]
            k = Key(mod, counts)
            ctx.run(lambda _: k, [hf])
            if not k.read:
                ctx.report(hf.base, hf.file, hf.base, "key", "the hash does not depend on the element")
            ctx.run(lambda _: Same(mod, counts, frozenset(k.read)), [cf])
            ctx.oblige("table with its own key", 1)


def wrap(f):
    """an index that starts over at the end: n == limit ? 0 : n is n modulo the limit"""
    done = 0

    def over(c, truth):
        """(number, limit) if the condition being so means that the number has reached the limit"""
        x = f.ins[c[1]] if c[0] == "i" else None
        if x is None or x.op != "icmp":
            return None
        a, b = x.d["ops"]
        p = x.d["pred"]
        if p == ("eq" if truth else "ne") or p == ("uge" if truth else "ult"):
            return a, b
        if p == ("ule" if truth else "ugt"):
            return b, a
        return None

    def next_(o, n):
        """the operand is the number that was compared"""
        if o == n:
            return True
        x, y = (f.ins[q[1]] if q[0] == "i" else None for q in (o, n))
        return x is not None and y is not None and x.op == y.op == "add" and x.d["ops"] == y.d["ops"] and x.d["ops"][1] == ["c", 1, 64]

    def entered(p, m):
        """(condition, truth) of entering m by way of p"""
        b = p if len(f.succ[p]) > 1 else f.pred[p][0] if len(f.pred[p]) == 1 else None
        if b is None or f.blocks[b][-1].op != "br" or len(f.blocks[b][-1].d["succ"]) != 2:
            return None
        t = f.blocks[b][-1]
        return b, t.d["ops"][0], t.d["succ"].index(m if b == p else p) == 0

    for m, bl in enumerate(f.blocks):
        for k, x in enumerate(bl):
            q = None
            if x.op == "phi" and len(x.d["in"]) == 2 and x.ty == "i64":
                for (p0, o0), (p1, o1) in (x.d["in"], x.d["in"][::-1]):
                    e0, e1 = entered(p0, m), entered(p1, m)
                    if o0[:2] == ["c", 0] and e0 and e1 and e0[0] == e1[0]:
                        q = over(e0[1], e0[2])
                        q = q if q and next_(o1, q[0]) else None
            elif x.op == "select" and x.ty == "i64":
                c, a, b = x.d["ops"]
                for o0, o1, t in ((a, b, True), (b, a, False)):
                    if o0[:2] == ["c", 0]:
                        q = over(c, t)
                        q = q if q and next_(o1, q[0]) else None
            if q:
                x.op = "urem"
                x.d = {k: v for k, v in x.d.items() if k != "in"}
                x.d.update(op="urem", ops=[q[0], q[1]])
                done += 1
        f.blocks[m] = [x for x in bl if x.op == "phi"] + [x for x in bl if x.op != "phi"]
    if done:
        f._cfg()


def check(ctx):
    for f in ctx.mod.fn.values():
        if not f.decl and f.file.endswith("runtime/hashtable.c"):
            wrap(f)
    mod = ctx.mod
    counts = ctx.stats["rules"]
    limits = {}
    names = ("gr_hashtable_construct", "gr_hashtable_get", "gr_hashtable_set", "gr_hashtable_remove", "gr_hashtable_enumerate")
    ctx.run(lambda f: Table(mod, counts, f.base, limits), [mod.get(n) for n in names])
    f = mod.get("gr_hashtable_set")
    bad = None
    if any(len(v) != 1 for v in limits.values()):
        bad = "the limits for resizing differ from place to place"
    elif len(limits) == 2 * len(LIMITS):
        grow, shrink = ([list(limits[n, c])[0] for c in LIMITS] for n in ("grow_count", "shrink_count"))
        for i, c in enumerate(LIMITS):
            ctx.oblige("limits of a capacity", 1)
            if not 0 < grow[i] < c:
                bad = "a table with %d slots is not resized before it is full" % c
            elif i and not (grow[i - 1] < grow[i] and shrink[i] < grow[i - 1]):
                bad = "a table that is resized to %d slots is not large enough" % c
            if bad:
                break
    if bad:
        ctx.report(f.base, f.file, f.base, "limits", bad)
    pairs(ctx)
    loops.check(ctx, ("runtime/hashtable.c",))
