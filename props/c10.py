"""C10: generated code owns the memory of what it handles."""
import os
from gv import gen
from gv.engine import C0, flat
from gv.facts import Facts, strip
from props import c09
from props.c09 import Spec, equal, leaves, lin, lossless

LEVEL = "other"
RULE = ("ownership analysis of every generated function that deals with structures or payloads, along every path and by induction over its loops, against the description it was generated from: initialising leaves nothing behind that could be mistaken for memory, "
        "destroying releases every string, every array with all its elements, every structure and the entry that is set of each variant, exactly once and nothing else; copying gives every one of them memory of its own that holds all of the original; "
        "arrays grow without losing elements and new elements are initialised; reading a message fills structures with memory of their own, and what a handler or a result function had to obtain for its arguments is released exactly once after it was used")


MINUS = ("c", -1)


class Mem(Facts):
    """common to all automata of this check: objects of the caller (arguments), blocks, progress in arrays"""
    widen = True
    OBJ, OUT = 0, None          # the argument that is looked at, the argument that is filled

    def __init__(self, mod, counts, S, items, acc):
        super().__init__(mod, counts)
        self.S, self.items, self.acc = S, items, acc

    # addresses ---------------------------------------------------------------------------------------------------
    def member(self, addr, k):
        n = None
        while addr[0] in ("f", "x"):
            if addr[0] == "x" and addr[2] != C0:
                return None
            if addr[0] == "f" and addr[1] == ("a", k):
                n = addr[3]
            addr = addr[1]
        return n if addr == ("a", k) else None

    def place_of(self, addr, k):
        if addr == ("a", k):
            return self.acc["first"].get(self.S)
        return self.member(addr, k)

    def load(self, eng, st, x, addr, val):
        if self.OUT is not None:
            n = self.member(addr, self.OUT)
            for t in self.all(st, "out"):
                if t[1] == n:
                    st.env[x.i] = t[2]
                    return
        n = self.member(addr, self.OBJ)
        if n is None and addr == ("a", self.OBJ):
            n = self.acc["first"].get(self.S)
        if n is not None:
            st.env[x.i] = ("val", n)
            return
        b, parts = flat(addr)
        if b[0] == "val":
            st.env[x.i] = ("elt", b, eng.offterm(parts))

    def store(self, eng, st, x, addr, val):
        if self.OUT is None:
            return
        n = self.place_of(addr, self.OUT)
        if n is not None:
            self.put(st, n, val)

    def put(self, st, n, val):
        st.ps = frozenset(t for t in st.ps if t[:2] != ("out", n)) | {("out", n, val)}

    def outs(self, st):
        return {t[1]: t[2] for t in self.all(st, "out")}

    # elements ----------------------------------------------------------------------------------------------------
    def at(self, eng, st, addr):
        """base and offset; a pointer that walks over an array is the array at an index"""
        b, parts = flat(addr)
        off = eng.offterm(parts)
        for _, s, base, esz, first in self.all(st, "walk"):
            if s == b:
                return base, lin((esz, first), (esz, ("idx", s)), (1, off))
        return b, off

    def rename(self, eng, st, v, s):
        if v == C0:
            self.add(st, "start", s)
        at = self.at(eng, st, v) if v[0] in ("x", "f", "v", "val", "old") else None
        if at:
            for key, base, esz, first in self.arrays(st):
                if at[0] == base and equal(at[1], lin((esz, first))) and not any(t[1] == key for t in self.all(st, "el") + self.all(st, "dn")):
                    self.add(st, "start", ("idx", s))
                    self.add(st, "walk", s, base, esz, first)
        for t in self.all(st, "el") + self.all(st, "dn"):
            k, i = t[0], t[2]
            n, walk = None, None
            if at:
                for _, key, base, esz, first in self.all(st, "by"):
                    if key == t[1] and at[0] == base and equal(at[1], lin((esz, first), (esz, i))):
                        n, walk = ("idx", s), ("walk", s, base, esz, first)
            elif i == v or k == "dn" and strip(v)[0] in ("op", "c") and equal(v, i, 32):
                n = s
            elif k == "dn" and strip(v)[0] in ("op", "c") and equal(v, eng.binop("add", i, MINUS, 32), 32):
                n = eng.binop("add", s, ("c", 1), 32)
            if n is not None:
                if not (i == ("c", 1) and k == "el"):
                    st.ps = st.ps - {t}
                st.ps = st.ps | {(k, t[1], n)} | ({walk} if walk else set())
        st.ps = frozenset(t for t in st.ps if not (t[0] == "el" and t[2][0] == "c" and t[2][1] > 1) and not (t[0] == "walk" and t[1][0] == "old"))

    def arrays(self, st):
        """(key, base, size of an element, first element) of the arrays that may be walked over"""
        return [(i["out"], ("val", i["out"]), self.acc["size"][i["S"]], C0) for i in self.items if i["kind"] == "arr" and i.get("S")]

    def step(self, eng, st, key, place, esz, cnt, first=C0, bound=True):
        """the element at a place (base, offset) is dealt with; None or what is wrong"""
        base, off = place
        cur = [t[2] for t in self.all(st, "el") if t[1] == key]
        down = [t[2] for t in self.all(st, "dn") if t[1] == key]
        self.add(st, "by", key, base, esz, first)
        for i in cur or (() if down else [C0] + [t[1] for t in self.all(st, "start")]):
            if equal(off, lin((esz, first), (esz, i))):
                if bound and not any(self.below(eng, st, j, cnt) for j in cur or [i]):
                    return "beyond the elements there are"
                st.ps = frozenset(t for t in st.ps if t[:2] != ("el", key)) | {("el", key, eng.binop("add", j, ("c", 1), 32)) for j in (cur or [i])}
                self.bump("element")
                return None
        for u in down or (() if cur else [cnt]):
            n = eng.binop("add", u, MINUS, 32)
            if equal(off, lin((esz, first), (esz, u), (-esz, ("c", 1)))) or equal(off, lin((esz, first), (esz, n))):
                if bound and self.none(eng, st, u) is not False:
                    return "beyond the elements there are"
                st.ps = frozenset(t for t in st.ps if t[:2] != ("dn", key)) | {("dn", key, n)}
                self.bump("element")
                return None
        return "not one after the other"

    def none(self, eng, st, u):
        """whether no elements are left below u"""
        if eng.iszero(st, u) is not None:
            return eng.iszero(st, u)
        last = eng.binop("add", u, MINUS, 32)
        for (p, a, b), v in st.facts.items():
            a, b = strip(a), strip(b)
            if p == "slt" and b == C0 and a[0] != "c" and equal(a, last, 32):
                return v
            if p == "slt" and a in (C0, MINUS) and b[0] != "c" and equal(b, u if a == C0 else last, 32):
                return not v
            if p == "eq" and MINUS in (a, b) and equal(b if a == MINUS else a, last, 32):
                return v
        w = self.less(eng, st, C0, u)
        return None if w is None else not w

    def below(self, eng, st, i, cnt):
        return self.less(eng, st, i, cnt) is True

    def complete(self, eng, st, key, cnt, base, esz, first=C0):
        self.add(st, "by", key, base, esz, first)
        if eng.iszero(st, cnt) is True:
            return True
        cur = [t[2] for t in self.all(st, "el") if t[1] == key]
        down = [t[2] for t in self.all(st, "dn") if t[1] == key]
        if any(self.none(eng, st, u) is True for u in down or (() if cur else [cnt])):
            return True
        for i in cur or (() if down else [C0] + [t[1] for t in self.all(st, "start")]):
            if self.less(eng, st, i, cnt) is False and not (i[0] == "c" and cnt[0] == "c" and i[1] < cnt[1]):
                return True
            for (p, a, b), v in st.facts.items():
                if p == "eq" and v and {strip(a), strip(b)} == {i, cnt}:
                    return True
        return False

    def less(self, eng, st, a, b):
        for _, key, base, esz, first in self.all(st, "by"):
            for (p, x, y), v in st.facts.items():
                if p in ("ult", "eq") and x[0] != "c" and y[0] != "c":
                    (bx, ox), (by, oy) = self.at(eng, st, x), self.at(eng, st, y)
                    if bx == by == base:
                        for s, t, o in ((ox, oy, 1), (oy, ox, 0)):
                            if equal(s, lin((esz, first), (esz, a))) and equal(t, lin((esz, first), (esz, b))):
                                if p == "eq":
                                    return not v
                                if o or v:
                                    return v if o else False
        return c09.order(eng, st, a, b)

    def bad(self, eng, st, x, msg):
        if not self.all(st, "dead"):
            self.report(eng, st, x, "ownership", msg)
        self.add(st, "dead")

    # blocks ------------------------------------------------------------------------------------------------------
    def obtain(self, eng, st, x, name, args):
        """allocations succeed; what happens when they do not is not decided here"""
        if name in ("malloc", "calloc", "realloc"):
            size = eng.binop("mul", args[0], args[1], 64) if name == "calloc" else args[-1]
            fs = st.ps | {("mal", ("result",), size)}
            if name == "realloc":
                fs |= {("moved", ("result",), strip(args[0]))}
            if name == "calloc":
                fs |= {("zero", ("result",))}
            return eng.fork(st, x, name, args, [("nonzero", fs), ("zero", st.ps | {("nomem",)})])
        if name == "strdup":
            return eng.fork(st, x, name, args, [("nonzero", st.ps | {("dup", ("result",), strip(args[0]))}), ("zero", st.ps | {("nomem",)})])
        if name == "strlen" and strip(args[0])[0] == "val":
            out = []
            for s in eng.default_call(st, x, name, args):
                s.env[x.i] = ("len", strip(args[0]))
                out.append(s)
            return out
        return None

    def call(self, eng, st, x, name, args):
        if self.all(st, "dead") or self.all(st, "nomem"):
            return None
        if name in ("malloc", "calloc", "realloc", "strdup", "strlen"):
            return self.obtain(eng, st, x, name, args)
        return self.other(eng, st, x, name, args)

    def other(self, eng, st, x, name, args):
        return None

    def entry(self, eng, st, it, tag):
        """the entry a variant holds on this path: (known, entry or None)"""
        codes = self.acc["codes"].get((it["S"] if "S" in it else self.S, it["name"]), {})
        c = eng.const(st, tag)
        if c is not None:
            return True, codes.get(c)
        left = [n for n in codes if eng.decide(st, ("eq", tag, ("c", n))) is not False]
        return (not left), None


class Init(Mem):
    OUT, OBJ = 0, None

    def member(self, addr, k):
        return None if k is None else Mem.member(self, addr, k)

    def load(self, eng, st, x, addr, val):
        pass

    def other(self, eng, st, x, name, args):
        if name == "memset" and args[0] == ("a", 0):
            if args[1] == C0 and args[2][0] == "c" and args[2][1] >= self.acc["size"][self.S]:
                self.add(st, "zeroed")
            else:
                self.bad(eng, st, x, "not all of the structure is initialised")
        elif name.endswith("_init"):
            self.add(st, "inited", self.place_of(args[0], 0))
        return None

    def ret(self, eng, st, x, val):
        self.bump("structure initialised")
        if self.all(st, "zeroed") or self.all(st, "dead"):
            return
        o = self.outs(st)
        for it in self.items:
            ns = {"tag": ["tag"], "arr": ["out", "cnt"]}.get(it["kind"], ["out"])
            for n in ns:
                k = it["out"] + "_count" if n == "cnt" else it[n]
                if it["kind"] == "struct":
                    if ("inited", k) not in st.ps:
                        return self.bad(eng, st, x, "'%s' is not initialised" % it["name"])
                elif o.get(k) != C0 and it["kind"] != "val":
                    return self.bad(eng, st, x, "'%s' is not initialised" % it["name"])


class Destroy(Mem):
    """only: the name of the variant that is cleared"""

    def __init__(self, mod, counts, S, items, acc, only=None):
        super().__init__(mod, counts, S, items, acc)
        self.only = only
        self.OUT = 0 if only else None

    def load(self, eng, st, x, addr, val):
        Mem.load(self, eng, st, x, addr, val)

    def other(self, eng, st, x, name, args):
        if name == "free":
            v = strip(args[0])
            if v == C0 or eng.iszero(st, v) is True:
                return None
            if v[0] != "val":
                return self.bad(eng, st, x, "memory is released that does not belong to the structure")
            if ("freed", v[1]) in st.ps:
                return self.bad(eng, st, x, "'%s' is released twice" % v[1])
            for it in self.items:
                if it["kind"] == "arr" and it["out"] == v[1] and it.get("S") and not self.complete(eng, st, v[1], ("val", v[1] + "_count"), v, self.acc["size"][it["S"]]):
                    return self.bad(eng, st, x, "not all elements of '%s' are destroyed before it is released" % v[1])
            self.bump("memory released")
            self.add(st, "freed", v[1])
        elif name.endswith("_destroy"):
            b, off = self.at(eng, st, args[0])
            if b[0] == "val":
                it = [i for i in self.items if i["kind"] == "arr" and i["out"] == b[1] and i.get("S")]
                if not it or name != it[0]["S"] + "_destroy" or ("freed", b[1]) in st.ps:
                    return self.bad(eng, st, x, "what is destroyed is not an element of the structure")
                m = self.step(eng, st, b[1], (b, off), self.acc["size"][it[0]["S"]], ("val", b[1] + "_count"))
                if m:
                    return self.bad(eng, st, x, "elements of '%s' are destroyed %s" % (b[1], m))
                return None
            n = self.place_of(args[0], 0)
            if ("destroyed", n) in st.ps:
                return self.bad(eng, st, x, "'%s' is destroyed twice" % n)
            self.bump("member destroyed")
            self.add(st, "destroyed", n)
            self.add(st, "as", n, name)
        elif name.endswith("_clear"):
            for it in self.items:
                if it["kind"] == "tag" and name == "%s_%s_clear" % (self.S, it["name"]) and args[0] == ("a", 0):
                    self.add(st, "cleared", it["name"])
        return None

    def released(self, eng, st, it, n):
        v = ("val", n)
        if it["kind"] in ("str", "arr"):
            return ("freed", n) in st.ps or eng.iszero(st, v) is True
        if it["kind"] == "struct":
            return ("as", n, it["S"] + "_destroy") in st.ps
        return True

    def ret(self, eng, st, x, val):
        if self.all(st, "dead"):
            return
        self.bump("structure destroyed")
        for it in self.items:
            if self.only and it["name"] != self.only:
                continue
            if it["kind"] == "tag":
                if ("cleared", it["name"]) in st.ps:
                    continue
                known, n = self.entry(eng, st, it, ("val", it["tag"]))
                if not known and any(e["kind"] != "val" for e in it["entries"]):
                    return self.bad(eng, st, x, "variant '%s' is released without looking at what it holds" % it["name"])
                if n is None:
                    if any(t[1] == it["cell"] for t in self.all(st, "freed") + self.all(st, "destroyed")):
                        return self.bad(eng, st, x, "variant '%s' is released although it holds nothing" % it["name"])
                elif not self.released(eng, st, it["entries"][n], it["cell"]):
                    return self.bad(eng, st, x, "'%s' of variant '%s' is not released" % (it["entries"][n]["name"], it["name"]))
                elif it["entries"][n]["kind"] == "val" and any(t[1] == it["cell"] for t in self.all(st, "freed") + self.all(st, "destroyed")):
                    return self.bad(eng, st, x, "the value '%s' of variant '%s' is released" % (it["entries"][n]["name"], it["name"]))
                if self.only and self.outs(st).get(it["tag"]) != C0:
                    return self.bad(eng, st, x, "the variant '%s' still says that it holds something" % it["name"])
            elif not self.released(eng, st, it, it["out"]):
                return self.bad(eng, st, x, "'%s' is not released" % it["name"])


class Copy(Mem):
    OUT = 1

    def other(self, eng, st, x, name, args):
        if name in ("memcpy", "memmove") and args[0] == ("a", 1) and args[1] == ("a", 0):
            for it in self.items:
                for n in ("out", "tag", "cell"):
                    if n in it:
                        self.put(st, it[n], ("val", it[n]))
                if it["kind"] == "arr":
                    self.put(st, it["out"] + "_count", ("val", it["out"] + "_count"))
        elif name in ("memcpy", "memmove", "strcpy"):
            d, s = strip(args[0]), strip(args[1])
            size = [t[2] for t in self.all(st, "mal") if t[1] == d]
            if not size or s[0] != "val":
                return self.bad(eng, st, x, "memory is copied that is not the structure's own")
            ln = lin((1, ("len", s)), (1, ("c", 1)))
            if name == "strcpy" or equal(args[2], ln):
                if not equal(size[0], ln):
                    return self.bad(eng, st, x, "the copy of '%s' has not the size of the original" % s[1])
                self.add(st, "dup", d, s)
            else:
                self.add(st, "full", d, s, args[2])
                if not equal(size[0], args[2]):
                    return self.bad(eng, st, x, "the copy of '%s' has not the size of the original" % s[1])
        elif name.endswith("_copy"):
            (b, off), (d, doff) = self.at(eng, st, args[0]), self.at(eng, st, args[1])
            if b[0] == "val":
                it = [i for i in self.items if i["kind"] == "arr" and i["out"] == b[1] and i.get("S")]
                size = [t[2] for t in self.all(st, "mal") if t[1] == d]
                if not it or name != it[0]["S"] + "_copy" or not size:
                    return self.bad(eng, st, x, "what is copied is not an element of the structure")
                esz, cnt = self.acc["size"][it[0]["S"]], ("val", b[1] + "_count")
                m = self.step(eng, st, b[1], (b, off), esz, cnt) or self.step(eng, st, d, (d, doff), esz, cnt, bound=False)
                if m is None and not equal(off, doff) and self.all(st, "dn") or not equal(size[0], lin((esz, cnt))):
                    return self.bad(eng, st, x, "an element of '%s' is copied to another place" % b[1])
                if m:
                    return self.bad(eng, st, x, "elements of '%s' are copied %s" % (b[1], m))
                self.add(st, "elements", b[1], d)
                return None
            n = self.place_of(args[0], 0)
            if n is None or n != self.place_of(args[1], 1):
                return self.bad(eng, st, x, "a member is copied to another place")
            self.add(st, "copied", n, name)
        return None

    def same(self, eng, st, it, n, o):
        v = ("val", n)
        got = strip(o.get(n, ("u",)))
        if it["kind"] == "val":
            return lossless(o.get(n, ("u",)), it["w"]) == v
        if it["kind"] == "str":
            if eng.iszero(st, v) is True:
                return got == C0 or got == v
            return ("dup", got, v) in st.ps
        if it["kind"] == "struct":
            return ("copied", n, it["S"] + "_copy") in st.ps
        cnt = ("val", n + "_count")
        if strip(o.get(n + "_count", ("u",))) != cnt:
            return False
        if eng.iszero(st, cnt) is True or self.less(eng, st, C0, cnt) is False:
            return got == C0 or any(t[1] == got for t in self.all(st, "mal"))
        if it.get("S"):
            self.add(st, "by", n, v, self.acc["size"][it["S"]], C0)
            if self.less(eng, st, C0, cnt) is False:
                return any(t[1] == got for t in self.all(st, "mal"))
            return ("elements", n, got) in st.ps and self.complete(eng, st, n, cnt, v, self.acc["size"][it["S"]])
        return any(t[1:3] == (got, v) and equal(t[3], lin((it["w"], cnt))) for t in self.all(st, "full"))

    def ret(self, eng, st, x, val):
        if self.all(st, "dead") or self.all(st, "nomem"):
            return
        self.bump("structure copied")
        o = self.outs(st)
        for it in self.items:
            if it["kind"] == "tag":
                t = ("val", it["tag"])
                if strip(o.get(it["tag"], ("u",))) != t and not (eng.const(st, t) is not None and o.get(it["tag"]) == ("c", eng.const(st, t))):
                    return self.bad(eng, st, x, "the copy of variant '%s' does not say what it holds" % it["name"])
                known, n = self.entry(eng, st, it, t)
                if not known:
                    return self.bad(eng, st, x, "variant '%s' is copied without looking at what it holds" % it["name"])
                if n is not None and not self.same(eng, st, it["entries"][n], it["cell"], o):
                    return self.bad(eng, st, x, "'%s' of variant '%s' is not copied completely" % (it["entries"][n]["name"], it["name"]))
            elif not self.same(eng, st, it, it["out"], o):
                return self.bad(eng, st, x, "'%s' is not copied completely" % it["name"])


class Add(Mem):
    """an array grows by a number of elements"""
    OUT = 0

    def __init__(self, mod, counts, S, it, acc):
        super().__init__(mod, counts, S, [it], acc)
        self.it = it

    def arrays(self, st):
        n = self.it["out"]
        return [(n, t[1], self.acc["size"][self.it["S"]], ("val", n + "_count")) for t in self.all(st, "mal")]

    def other(self, eng, st, x, name, args):
        n = self.it["out"]
        esz, cnt = self.acc["size"][self.it["S"]], ("val", n + "_count")
        if name in ("memcpy", "memmove"):
            d, s = strip(args[0]), strip(args[1])
            if s == ("val", n) and equal(args[2], lin((esz, cnt))):
                self.add(st, "moved", d, s)
                return None
        if name == "free" and strip(args[0]) == ("val", n) and any(t[2] == ("val", n) for t in self.all(st, "moved")):
            return None
        if name == self.it["S"] + "_init":
            b, off = self.at(eng, st, args[0])
            if not any(t[1] == b for t in self.all(st, "mal")):
                return self.bad(eng, st, x, "an element that does not exist is initialised")
            m = self.step(eng, st, n, (b, off), esz, ("a", 1), cnt)
            if m:
                return self.bad(eng, st, x, "new elements are initialised %s" % m)
            return None
        if name == "memset" and args[1] == C0:
            b, parts = flat(args[0])
            if any(t[1] == b for t in self.all(st, "mal")) and equal(eng.offterm(parts), lin((esz, cnt))) and equal(args[2], lin((esz, ("a", 1)))):
                self.add(st, "inited")
                return None
        if name in ("free", "memset", "memcpy", "memmove") or name.endswith("_destroy"):
            return self.bad(eng, st, x, "%s is applied to something else than the array" % name)
        return None

    def ret(self, eng, st, x, val):
        if self.all(st, "dead") or self.all(st, "nomem"):
            return
        n = self.it["out"]
        esz, cnt = self.acc["size"][self.it["S"]], ("val", n + "_count")
        o = self.outs(st)
        if eng.iszero(st, ("a", 1)) is True and not self.all(st, "mal"):
            return
        self.bump("array grown")
        v = strip(o.get(n, ("u",)))
        size = [t[2] for t in self.all(st, "mal") if t[1] == v]
        old = eng.iszero(st, ("val", n)) is True
        whole = lin((esz, cnt), (esz, ("a", 1)))
        if not size or not (equal(size[0], whole) or old and equal(size[0], lin((esz, ("a", 1))))):
            return self.bad(eng, st, x, "the array has no room for all its elements")
        if not old and ("moved", v, ("val", n)) not in st.ps and eng.iszero(st, cnt) is not True:
            return self.bad(eng, st, x, "the array loses its elements")
        if not equal(o.get(n + "_count", ("u",)), lin((1, cnt), (1, ("a", 1))), 32):
            return self.bad(eng, st, x, "the number of elements is not what it was plus what was added")
        if not self.all(st, "inited") and not self.complete(eng, st, n, ("a", 1), v, esz, cnt) and not (("zero", v) in st.ps and old):
            return self.bad(eng, st, x, "not all new elements are initialised")


class Get(Mem):
    """the element at an index, which is created if it is not there"""

    def __init__(self, mod, counts, S, it, acc):
        super().__init__(mod, counts, S, [it], acc)
        self.it = it

    def load(self, eng, st, x, addr, val):
        n = self.member(addr, 0)
        if n is None and addr == ("a", 0):
            n = self.acc["first"].get(self.S)
        if n is not None:
            st.env[x.i] = ("new" if self.all(st, "grown") else "val", n)

    def other(self, eng, st, x, name, args):
        n = self.it["out"]
        if name == "%s_%s_add" % (self.S, n):
            if args[0] != ("a", 0) or not equal(args[1], lin((1, ("a", 1)), (1, ("c", 1)), (-1, ("val", n + "_count"))), 32):
                return self.bad(eng, st, x, "the array does not grow to just hold the element")
            if self.less(eng, st, ("a", 1), ("val", n + "_count")) is not False:
                return self.bad(eng, st, x, "the array grows although the element exists")
            self.add(st, "grown")
        return None

    def ret(self, eng, st, x, val):
        n = self.it["out"]
        if self.all(st, "dead"):
            return
        self.bump("element looked up")
        b, parts = flat(val)
        if b != (("new" if self.all(st, "grown") else "val"), n) or not equal(eng.offterm(parts), lin((self.acc["size"][self.it["S"]], ("a", 1)))):
            return self.bad(eng, st, x, "what is returned is not the element")
        if not self.all(st, "grown") and self.less(eng, st, ("a", 1), ("val", n + "_count")) is not True:
            self.bad(eng, st, x, "an element is returned that does not exist")


class Set(Mem):
    """sets a variant; its value must have memory of its own"""
    OUT = 0
    OBJ = None

    def __init__(self, mod, counts, S, it, e, acc):
        super().__init__(mod, counts, S, [it], acc)
        self.it, self.e = it, e

    def member(self, addr, k):
        return None if k is None else Mem.member(self, addr, k)

    def load(self, eng, st, x, addr, val):
        pass

    def obtain(self, eng, st, x, name, args):
        if name == "strlen" and strip(args[0]) == ("a", 1):
            out = []
            for s in eng.default_call(st, x, name, args):
                s.env[x.i] = ("len", ("a", 1))
                out.append(s)
            return out
        return Mem.obtain(self, eng, st, x, name, args)

    def other(self, eng, st, x, name, args):
        if name in ("memcpy", "strcpy"):
            d, s = strip(args[0]), strip(args[1])
            size = [t[2] for t in self.all(st, "mal") if t[1] == d]
            ln = lin((1, ("len", s)), (1, ("c", 1)))
            if size and s == ("a", 1) and equal(size[0], ln) and (name == "strcpy" or equal(args[2], ln)):
                self.add(st, "dup", d, s)
        elif name.endswith("_copy"):
            self.add(st, "copied", args[0], self.place_of(args[1], 0), name)
        return None

    def ret(self, eng, st, x, val):
        if self.all(st, "dead") or self.all(st, "nomem"):
            return
        self.bump("variant set")
        o = self.outs(st)
        got = strip(o.get(self.it["cell"], ("u",)))
        k = self.e["kind"]
        if k == "str":
            ok = got == C0 and eng.iszero(st, ("a", 1)) is True or ("dup", got, ("a", 1)) in st.ps
        elif k == "struct":
            ok = ("copied", ("a", 1), self.it["cell"], self.e["S"] + "_copy") in st.ps
        else:
            ok = lossless(o.get(self.it["cell"], ("u",)), self.e["w"]) == ("a", 1)
        if not ok:
            self.bad(eng, st, x, "the variant does not get a value of its own")


class Fill(Mem):
    """a structure is read from a message"""
    OUT = 1
    OBJ = None

    def member(self, addr, k):
        return None if k is None else Mem.member(self, addr, k)

    def load(self, eng, st, x, addr, val):
        n = self.member(addr, 1)
        for t in self.all(st, "out"):
            if t[1] == n:
                st.env[x.i] = t[2]

    def ret(self, eng, st, x, val):
        if self.all(st, "dead") or self.all(st, "nomem"):
            return
        self.bump("structure filled")
        o = self.outs(st)
        for it in self.items:
            e, n = it, it.get("out")
            if it["kind"] == "tag":
                known, k = self.entry(eng, st, it, strip(o.get(it["tag"], ("u",))))
                if not known:
                    if any(e["kind"] != "val" for e in it["entries"]):
                        return self.bad(eng, st, x, "variant '%s' is filled without looking at what it holds" % it["name"])
                    continue
                if k is None:
                    continue
                e, n = it["entries"][k], it["cell"]
            if e["kind"] in ("str", "arr"):
                v = strip(o.get(n, ("u",)))
                if v != C0 and not any(t[1] == v for t in self.all(st, "mal") + self.all(st, "dup")):
                    return self.bad(eng, st, x, "'%s' does not get memory of its own" % e["name"])


class Release(Mem):
    """a function that reads a message: everything it obtained for the time of the call is released"""

    def __init__(self, mod, counts, acc, handler=None):
        super().__init__(mod, counts, None, [], acc)
        self.handler = handler

    def load(self, eng, st, x, addr, val):
        pass

    def arrays(self, st):
        return [(t[1], t[1], self.acc["size"][t[2]], C0) for t in self.all(st, "array")]

    def number(self, st, v):
        """the number of elements of a block"""
        for t in self.all(st, "mal"):
            if t[1] == v:
                ls = set()
                leaves(t[2], ls)
                if len(ls) == 1:
                    return ls.pop()
        return None

    def other(self, eng, st, x, name, args):
        if name.startswith("deserialize_") and len(args) == 2 and name[12:] in self.acc["size"]:
            b, parts = flat(args[1])
            S = name[12:]
            if any(t[1] == b for t in self.all(st, "mal")):
                self.add(st, "array", b, S)
            elif b[0] == "al":
                if ("live", args[1], S) in st.ps:
                    return self.bad(eng, st, x, "a structure is read over another one that was not destroyed")
                self.add(st, "live", args[1], S)
        elif name.endswith("_destroy"):
            S = name[:-8]
            b, off = self.at(eng, st, args[0])
            if ("array", b, S) in st.ps:
                n = self.number(st, b)
                m = self.step(eng, st, b, (b, off), self.acc["size"][S], n) if n is not None else "in unknown number"
                if m:
                    return self.bad(eng, st, x, "elements are destroyed %s" % m)
            elif ("live", args[0], S) in st.ps:
                st.ps = st.ps - {("live", args[0], S)}
                self.bump("structure destroyed")
            elif any(t[1] == b for t in self.all(st, "mal")):
                return self.bad(eng, st, x, "elements are destroyed that were not read")
            else:
                return self.bad(eng, st, x, "a structure is destroyed that is not in use")
            self.early(eng, st, x)
        elif name == "free":
            v = strip(args[0])
            if v == C0 or eng.iszero(st, v) is True:
                return None
            if not any(t[1] == v for t in self.all(st, "mal")):
                return self.bad(eng, st, x, "memory is released that was not obtained here, or twice")
            for t in self.all(st, "array"):
                if t[1] == v:
                    n = self.number(st, v)
                    if n is None or not self.complete(eng, st, v, n, v, self.acc["size"][t[2]]):
                        return self.bad(eng, st, x, "not all elements are destroyed before their memory is released")
            self.early(eng, st, x)
            st.ps = frozenset(t for t in st.ps if t[0] not in ("mal", "array", "el", "dn", "by") or t[1] != v)
            self.bump("memory released")
        elif name.endswith("_invocation"):
            self.add(st, "called")
        return None

    def early(self, eng, st, x):
        if self.handler and not self.all(st, "called") and not self.all(st, "nomem"):
            self.bad(eng, st, x, "arguments are released before the handler was called")

    def ret(self, eng, st, x, val):
        if self.all(st, "dead") or self.all(st, "nomem"):
            return
        self.bump("function left")
        if self.all(st, "live"):
            self.bad(eng, st, x, "a structure that was read is not destroyed")
        elif any(eng.iszero(st, t[1]) is not True for t in self.all(st, "mal")):
            self.bad(eng, st, x, "memory that was obtained is not released")


def codes(ctx, sp, mod, eff, counts, acc):
    """tag -> entry of every variant, as the set functions assign them"""
    a = {"tags": {}}
    for s in sp.structs.values():
        S = "%s_%s" % (s.ns, s.name)
        for m in s.members:
            if isinstance(m, gen.Variant):
                for k, e in enumerate(m.entries):
                    if ("%s_%s_set_%s" % (S, m.name, e.ty)) in mod.bybase:
                        mon = ctx_run(ctx, c09.Accessor(mod, counts, (S, m.name), "set", k, a), mod, eff, "%s_%s_set_%s" % (S, m.name, e.ty))
                acc["codes"][(S, m.name)] = {c: min(es) for c, es in a["tags"].get((S, m.name), {}).get("set", {}).items()}
    for s in sp.structs.values():       # inherited variants
        for m in sp.members(s):
            if isinstance(m, gen.Variant):
                S = "%s_%s" % (s.ns, s.name)
                for b in bases(sp, s):
                    if ("%s_%s" % (b.ns, b.name), m.name) in acc["codes"] and (S, m.name) not in acc["codes"]:
                        acc["codes"][(S, m.name)] = acc["codes"][("%s_%s" % (b.ns, b.name), m.name)]


def bases(sp, s):
    out = []
    for e in s.extends:
        out += [sp.structs[e]] + bases(sp, sp.structs[e])
    return out


def ctx_run(ctx, mon, mod, eff, name):
    return ctx.run(lambda f: mon, [mod.get(name)], mod=mod, eff=eff)


def check(ctx):
    counts = ctx.stats["rules"]
    us = gen.units(ctx, lambda c, s, side: gen.codec_names(c), ("client", "server"), "own")
    accs = {}
    for u in us:
        sp = Spec(u.corpus)
        d = os.path.join(ctx.scratch, "gen-" + u.corpus.tag)
        key = u.corpus.tag
        if key not in accs:
            acc = accs[key] = {"structs": sp.structs, "first": {}, "size": {}, "codes": {}}
            mod, eff = c09.shared(ctx, u.corpus, d, u.service, gen.codec_names(u.corpus), "own-%s" % key)
            acc["size"] = c09.sizes(mod, sp)
            codes(ctx, sp, mod, eff, counts, acc)
            for s in sp.structs.values():
                S = "%s_%s" % (s.ns, s.name)
                acc["first"][S] = sp.members(s)[0].name
                if "serialize_" + S not in mod.bybase and s.ns != u.corpus.ns:
                    continue
                items = sp.struct(s, True)
                go = lambda mon, name: ctx_run(ctx, mon, mod, eff, name)
                go(Init(mod, counts, S, items, acc), S + "_init")
                go(Destroy(mod, counts, S, items, acc), S + "_destroy")
                go(Copy(mod, counts, S, items, acc), S + "_copy")
                go(Fill(mod, counts, S, items, acc), "deserialize_" + S)
                for it in items:
                    if it["kind"] == "arr" and it.get("S") and "%s_%s_add" % (S, it["name"]) in mod.bybase:
                        go(Add(mod, counts, S, it, acc), "%s_%s_add" % (S, it["name"]))
                        go(Get(mod, counts, S, it, acc), "%s_%s_get" % (S, it["name"]))
                    elif it["kind"] == "tag" and "%s_%s_clear" % (S, it["name"]) in mod.bybase:
                        go(Destroy(mod, counts, S, items, acc, it["name"]), "%s_%s_clear" % (S, it["name"]))
                        v = [m for m in sp.members(s) if m.name == it["name"]][0]
                        for e, t in zip(it["entries"], v.entries):
                            go(Set(mod, counts, S, it, e, acc), "%s_%s_set_%s" % (S, it["name"], t.ty))
        acc = accs[key]
        for f in u.mod.fn.values():
            if not f.decl and not f.internal:
                h = any(x.d["callee"][0] == "g" and x.d["callee"][1].endswith("_invocation") for x in f.calls())
                ctx.run(lambda f: Release(u.mod, counts, acc, h), [f], mod=u.mod, eff=u.eff)
    for k in ("structure initialised", "structure destroyed", "structure copied", "array grown", "element looked up", "variant set", "structure filled", "memory released",
              "member destroyed", "element", "function left"):
        ctx.need(counts.get(k), "no instance of: " + k)
