"""Loops that can not end once they are repeated: nothing in them changes what they depend on."""

import operator

PURE = ("hash", "cmp", "memcmp", "strcmp", "strlen")


def slot(x):
    """the field a function pointer was read from"""
    c = x.d["callee"]
    y = x.fn.ins[c[1]] if c[0] == "i" else None
    l = x.fn.mod.static_label(x.fn, y.d["ops"][0]) if y is not None and y.op == "load" else None
    return l[1] if l else "?"


def quiet(x):
    """the instruction neither changes memory nor gives anybody else the chance to do so"""
    if x.op in ("store", "atomicrmw", "cmpxchg", "fence"):
        return False
    if x.op == "load":
        return not x.d.get("volatile")
    if x.op == "call":
        c = x.d["callee"]
        n = c[1] if c[0] == "g" else slot(x)
        return n.startswith("llvm.") or n in PURE
    return True


def natural(f, v, h):
    """the blocks of the loop that is repeated by the edge v -> h"""
    body, todo = {h, v}, [v]
    while todo:
        b = todo.pop()
        if b == h:
            continue
        for p in f.pred[b]:
            if p not in body:
                body.add(p)
                todo.append(p)
    return body


INVERSE = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
MIRROR = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
COMPARE = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}
STEPS = 20000


class Walk:
    """the ways through the body of a loop on which nothing is stored and nobody is called"""

    def __init__(self, f, v, h, calm):
        self.f, self.v, self.h, self.calm, self.steps = f, v, h, calm, 0

    def term(self, o, sel):
        """what an operand is, in terms of what the header of the loop starts out with"""
        if isinstance(o, dict):
            return tuple((k, self.term(o[k], sel)) for k in sorted(o) if k not in ("i", "loc"))
        if not isinstance(o, (list, tuple)):
            return o
        if len(o) == 2 and o[0] == "i":
            if o[1] in sel:
                return sel[o[1]]
            x = self.f.ins[o[1]]
            if x.op in ("phi", "alloca", "call") or x.blk not in self.calm:
                return ("i", o[1])
            return self.term(x.d, sel)
        if len(o) == 3 and o[0] == "c":
            return ("c", o[1])
        return tuple(self.term(c, sel) for c in o)

    def cond(self, o, sel):
        """(condition, how it is meant), the condition being True or False when that is known"""
        if o[0] == "c":
            return bool(o[1]), True
        x = self.f.ins[o[1]]
        if x.op == "phi" and x.i in sel:
            t = sel[x.i]
            return (bool(t[1]), True) if t[0] == "c" else (t, True)
        if x.op == "xor" and x.d["ops"][1][0] == "c" and x.blk in self.calm:
            c, w = self.cond(x.d["ops"][0], sel)
            return c, not w
        if x.op == "icmp" and x.blk in self.calm:
            a, b = (self.term(c, sel) for c in x.d["ops"])
            p = x.d["pred"]
            if a == b:
                return p in ("eq", "sle", "sge", "ule", "uge"), True
            if a[0] == "c" and b[0] == "c" and (p in ("eq", "ne") or a[1] >= 0 and b[1] >= 0):
                return COMPARE[p.lstrip("su")](a[1], b[1]), True
            if repr(a) > repr(b):
                a, b, p = b, a, MIRROR.get(p, p)
            w = p in ("eq", "slt", "ult", "sle", "ule")
            return (p if w else INVERSE[p], a, b), w
        return self.term(o, sel), True

    def run(self, b, came, sel, known, seen):
        """whether the loop can be repeated from here without a change of what led here"""
        self.steps += 1
        if self.steps > STEPS:
            return False
        if b == self.h and came is not None:
            if came != self.v:
                return False
            moved = set()
            for x in self.f.blocks[b]:
                if x.op == "phi":
                    o = next(o for p, o in x.d["in"] if p == came)
                    if self.term(o, sel) != ("i", x.i):
                        moved.add(x.i)
            need = set()
            depends(list(known), need)
            return not need & moved
        if b not in self.calm or b in seen or b != self.h and b in self.f.headers:
            return False                # how often an inner loop runs is not decided here
        sel = dict(sel)
        if came is not None:
            new = {}
            for x in self.f.blocks[b]:
                if x.op == "phi":
                    new[x.i] = self.term(next(o for p, o in x.d["in"] if p == came), sel)
            sel.update(new)
        t = self.f.blocks[b][-1]
        seen = seen | {b}
        if t.op == "br" and len(t.d["succ"]) == 1:
            return self.run(t.d["succ"][0], b, sel, known, seen)
        if t.op == "br":
            c, w = self.cond(t.d["ops"][0], sel)
            for k, truth in ((0, True), (1, False)):
                if isinstance(c, bool):
                    if (c == w) != truth:
                        continue
                    k2 = known
                elif known.get(c, truth == w) != (truth == w):
                    continue
                else:
                    k2 = dict(known)
                    k2[c] = truth == w
                if self.run(t.d["succ"][k], b, sel, k2, seen):
                    return True
            return False
        if t.op == "switch":
            c = self.term(t.d["ops"][0], sel)
            done = {n for n, _ in t.d["cases"]}
            for n, d in list(t.d["cases"]) + [(None, t.d["default"])]:
                if c[0] == "c" and (c[1] != n if n is not None else c[1] in done):
                    continue
                e = ("switch", c)
                if known.get(e, n) != n:
                    continue
                k2 = dict(known)
                k2[e] = n
                if self.run(d, b, sel, k2, seen):
                    return True
            return False
        return False


def depends(e, out):
    """the values an expression starts out with"""
    if isinstance(e, (tuple, list)):
        if len(e) == 2 and e[0] == "i" and isinstance(e[1], int):
            out.add(e[1])
            return
        for c in e:
            depends(c, out)


def endless(f):
    """the back edges of f that lead back to what decided to take them"""
    out = []
    for v, h in sorted(f.backedges):
        calm = {b for b in natural(f, v, h) if all(quiet(x) for x in f.blocks[b])}
        if h in calm and v in calm and Walk(f, v, h, calm).run(h, None, {}, {}, frozenset()):
            out.append(f.blocks[v][-1])
    return out


def source(f, o):
    """(operand, width) of a number before it is widened"""
    while o[0] == "i" and f.ins[o[1]].op in ("zext", "sext"):
        o = f.ins[o[1]].d["ops"][0]
    if o[0] == "c":
        return o, max(1, o[1].bit_length())
    t = f.ins[o[1]].ty if o[0] == "i" else f.args[o[1]] if o[0] == "a" else ""
    return o, int(t[1:]) if t[:1] == "i" and t[1:].isdigit() else 64


def narrow(f):
    """comparisons that end a loop when a counter reaches a number it may be too narrow for"""
    out = []
    for v, h in sorted(f.backedges):
        phis = {x.i: [o for p, o in x.d["in"] if p == v] for x in f.blocks[h] if x.op == "phi" and x.ty in ("i8", "i16")}
        if not phis:
            continue
        for x in f.all():
            if x.op != "icmp" or x.blk != h and x.blk != v:
                continue
            (a, w), (b, z) = (source(f, o) for o in x.d["ops"])
            for c, n, m in ((a, w, z), (b, z, w)):
                if c[0] == "i" and (c[1] in phis or any(c in p for p in phis.values())) and m > n:
                    out.append(x)
    return out


def fits(f, o, n):
    """an operand is known to have at most n significant bits"""
    if o[0] == "c":
        return -(1 << n - 1) <= o[1] < 1 << n
    if o[0] != "i":
        return False
    x = f.ins[o[1]]
    w = lambda t: int(t[1:]) if t[:1] == "i" and t[1:].isdigit() else 64
    if x.op == "zext":
        return w(x.d["sty"]) <= n or fits(f, x.d["ops"][0], n)
    if x.op == "and":
        return any(fits(f, c, n) for c in x.d["ops"])
    if x.op in ("or", "xor"):
        return all(fits(f, c, n) for c in x.d["ops"])
    if x.op == "lshr":
        c = x.d["ops"][1]
        return c[0] == "c" and w(x.ty) - c[1] <= n
    if x.op == "select":
        return all(fits(f, c, n) for c in x.d["ops"][1:])
    return x.op == "load" and w(x.ty) <= n


def cut(f):
    """numbers that are narrowed to 8 or 16 bits although they may need more"""
    out = []
    for x in f.all():
        n = int(x.ty[1:]) if x.op == "trunc" and x.ty in ("i8", "i16") else None
        if x.op == "and" and x.d["ops"][1][0] == "c" and x.ty in ("i16", "i32", "i64"):
            n = {0xff: 8, 0xffff: 16}.get(x.d["ops"][1][1])
        if n and not fits(f, x.d["ops"][0], n):
            out.append((x, n))
    return out


def check(ctx, files=None):
    """every repetition of a loop changes something it depends on"""
    for f in ctx.mod.fn.values():
        if f.decl or files is not None and not f.file.endswith(files):
            continue
        if f.backedges:
            ctx.oblige("loop makes progress", len(f.backedges))
        for x in endless(f):
            ctx.report(f.base, f.file, x.where(), "endless", "the loop is repeated although nothing has changed that could end it")
        for x in narrow(f):
            ctx.report(f.base, f.file, x.where(), "endless", "the counter of the loop is too narrow to reach what ends it")
        for x, n in cut(f) if files is not None else ():
            ctx.report(f.base, f.file, x.where(), "narrow", "a number is cut to %d bits although it may need more" % n)
