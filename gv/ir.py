"""In-memory form of the exported program."""
import os
from . import build


class Ins:
    __slots__ = ("i", "op", "ty", "loc", "d", "fn", "blk", "used")

    def __init__(self, d, fn, blk):
        self.i = d["i"]
        self.op = d["op"]
        self.ty = d["ty"]
        self.loc = d.get("loc")
        self.d = d
        self.fn = fn
        self.blk = blk
        self.used = False

    def where(self):
        """file:line (function) of the construct, innermost frame first"""
        if not self.loc:
            return "%s (%s)" % (self.fn.file, self.fn.base)
        return loc_text(self.loc[0])

    def chain(self):
        return [loc_text(x) for x in self.loc] if self.loc else []


def rel(f):
    r = os.path.realpath(build.REPO)
    if f.startswith(r + "/"):
        return f[len(r) + 1:]
    return f


def loc_text(l):
    return "%s:%d (%s)" % (rel(l[0]), l[1], l[2])


class Fn:
    def __init__(self, name, d, mod):
        self.name = name
        self.base = d["base"]
        self.decl = d["decl"]
        self.taken = d["taken"]
        self.internal = d["internal"]
        self.ret = d["ret"]
        self.args = d["args"]
        self.file = rel(d.get("file", ""))
        self.line = d.get("line", 0)
        self.argnames = d.get("argnames", [])
        self.mod = mod
        self.blocks = []
        self.ins = {}
        for bi, b in enumerate(d.get("blocks", [])):
            bl = [Ins(x, self, bi) for x in b]
            self.blocks.append(bl)
            for x in bl:
                self.ins[x.i] = x
        if not self.decl:
            self._cfg()

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            t = b[-1]
            if t.op == "br":
                s = list(t.d["succ"])
            elif t.op == "switch":
                s = [t.d["default"]] + [c[1] for c in t.d["cases"]]
            else:
                s = []
            for x in s:
                if x not in self.succ[bi]:
                    self.succ[bi].append(x)
                    self.pred[x].append(bi)
        # liveness of registers
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]  # block -> pred -> set
        for bi, b in enumerate(self.blocks):
            for x in b:
                if x.op == "phi":
                    for p, o in x.d["in"]:
                        s = phiuse[bi].setdefault(p, set())
                        collect(o, s)
                else:
                    for o in operands(x):
                        s = set()
                        collect(o, s)
                        use[bi] |= (s - dfn[bi])
                dfn[bi].add(x.i)
        self.livein = [set() for _ in range(n)]
        self.liveedge = {}
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[bi]:
                    phis = {x.i for x in self.blocks[s] if x.op == "phi"}
                    out |= (self.livein[s] - phis) | phiuse[s].get(bi, set())
                li = use[bi] | (out - dfn[bi])
                li = {x for x in li}
                if li != self.livein[bi]:
                    self.livein[bi] = li
                    ch = True
        for bi, b in enumerate(self.blocks):
            for x in b:
                for o in (operands(x) if x.op != "phi" else [v for _, v in x.d["in"]]):
                    s = set()
                    collect(o, s)
                    for k in s:
                        self.ins[k].used = True
        # loop headers: targets of back edges in a depth first search
        self.headers = set()
        color = {}
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        self.backedges = set()
        while stack:
            v, it = stack[-1]
            for w in it:
                if color.get(w, 0) == 0:
                    color[w] = 1
                    stack.append((w, iter(self.succ[w])))
                    break
                if color.get(w) == 1:
                    self.headers.add(w)
                    self.backedges.add((v, w))
            else:
                color[v] = 2
                stack.pop()
        # blocks reachable from each block
        self.reach = []
        for b in range(n):
            seen = {b}
            w = [b]
            while w:
                x = w.pop()
                for y in self.succ[x]:
                    if y not in seen:
                        seen.add(y)
                        w.append(y)
            self.reach.append(seen)
        # dominators (simple sets; functions are small)
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                ps = [dom[p] for p in self.pred[b]]
                nd = (set.intersection(*ps) if ps else set()) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.dom = dom

    def calls(self):
        for b in self.blocks:
            for x in b:
                if x.op == "call":
                    yield x

    def all(self):
        for b in self.blocks:
            for x in b:
                yield x


def operands(x):
    d = x.d
    if x.op == "phi":
        return [v for _, v in d["in"]]
    r = list(d.get("ops", []))
    if "args" in d:
        r += d["args"]
    if "callee" in d:
        r.append(d["callee"])
    if "gep" in d:
        r.append(d["gep"])
    return r


def collect(o, s):
    if o[0] == "i":
        s.add(o[1])
    elif o[0] == "gep":
        collect(o[1], s)
        for p in o[2]:
            if p[0] == "x":
                collect(p[1], s)


class Module:
    def __init__(self, j):
        self.j = j
        self.structs = j["structs"]
        self.globals = j["globals"]
        self.units = j.get("units", [])
        self.fn = {n: Fn(n, d, self) for n, d in j["functions"].items()}
        self.bybase = {}
        for n, f in self.fn.items():
            if not f.decl:
                self.bybase.setdefault(f.base, []).append(f)
        self._slots()

    def fieldname(self, struct, idx):
        """(short struct name, field name) of the idx'th element of a struct type"""
        s = self.structs.get(struct)
        short = struct.split(".", 1)[1] if "." in struct else struct
        if short.split(".")[-1].isdigit():
            short = short.rsplit(".", 1)[0]
        if s and "members" in s:
            off = s["fields"][idx][0] * 8
            best = None
            for m in s["members"]:
                if m[1] == off or (m[3] and m[1] >= off and m[1] < off + s["fields"][idx][1] * 8 and best is None):
                    if best is None or m[1] == off:
                        best = m[0]
            if best:
                return (short, best)
        return (short, "#%d" % idx)

    def embeds(self, struct, idx):
        """the member is a structure the enclosing one extends"""
        t = self.structs[struct]["fields"][idx][2]
        return t.startswith("struct.") and t[7:].split(".")[0] not in ("rwlock", "gr_hashtable", "stack", "gr_queue")

    def _slots(self):
        """slot (struct.field holding a function pointer) -> functions stored there anywhere in the program"""
        self.slots = {}
        self.slot_sites = []
        self.taken_by = {}

        def init(v, ty):
            if v[0] == "S":
                for k, e in enumerate(v[2]):
                    if e[0] == "g" and len(e) > 2 and e[2] == 1:
                        self.slots.setdefault(self.fieldname(v[1], k), set()).add(e[1])
                    else:
                        init(e, None)
            elif v[0] == "A":
                for e in v[1]:
                    init(e, None)
        for n, g in self.globals.items():
            if "init" in g:
                init(g["init"], g["ty"])
        for f in self.fn.values():
            if f.decl:
                continue
            for x in f.all():
                if x.op == "store":
                    v, p = x.d["ops"]
                    if v[0] == "g" and v[2] == 1:
                        lab = self.static_label(f, p)
                        if lab:
                            self.slots.setdefault(lab, set()).add(v[1])
                            self.slot_sites.append((lab, v[1], x))
                elif x.op == "call":
                    for k, a in enumerate(x.d["args"]):
                        if a[0] == "g" and a[2] == 1:
                            self.taken_by.setdefault(a[1], []).append((x, k))

    def static_label(self, f, p):
        if p[0] == "i":
            y = f.ins[p[1]]
            if y.op == "getelementptr":
                p = y.d["gep"]
            else:
                return None
        if p[0] == "gep":
            for e in reversed(p[2]):
                if e[0] == "f":
                    return self.fieldname(e[1], e[2])
            if p[1][0] in ("i", "gep"):
                return self.static_label(f, p[1])
        return None

    def roots(self, anchors):
        """functions analysed on their own: the anchors and everything reachable through a pointer"""
        a = set(anchors)
        return [f for f in self.fn.values() if not f.decl and (f.base in a or f.taken)]

    def get(self, base):
        l = self.bybase.get(base)
        if not l:
            raise build.Broken("anchor function %s is not defined in the tree" % base)
        return l[0]
