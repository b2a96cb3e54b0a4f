"""C20: the arena hands out memory that belongs to nobody else and takes it back."""
import time
from gv import loops
from gv.blocks import AREA, HEAD, LENBITS, Fault, Item, Late, Lost, Machine, Split, State, is0, key, num, sym
from gv.build import Broken

LEVEL = "other"
RULE = ("the arena is described as a gapless sequence of blocks and unexplored segments with positions as linear forms; the code of creating, allocating, extending and freeing is interpreted over it, "
        "blocks are materialised when their header is read, loops are covered by folding and by inequalities that hold on every arrival; at every return the headers form a gapless chain "
        "again, no memory in use changed its owner, size or content, and the caller got exactly what it asked for; no loop repeats itself unchanged")


def entry(size, fields):
    st = State()
    S = sym("S")
    st.cons = [S - num(HEAD + 1), num((1 << LENBITS) - 1 + HEAD) - S]
    st.ghost = {"size": S, "scalars": ["size"], "target": None}
    for off, pat in fields.items():
        if pat[0] == "p":
            v = ("p", AREA, num(pat[2]) if pat[1] == "lo" else S + num(pat[2]))
        else:
            v = ("n", S + num(pat[2]) if pat[1] == "hi" else num(pat[2]), 64)
        st.cells[("arena", key(num(off)))] = v
    st.items = [Item("S", num(0), S)]
    s = sym("size")
    st.cons += [s, num((1 << size) - 1) - s]
    return st


def with_block(st):
    """an allocation somewhere in the arena"""
    S = st.ghost["size"]
    h, e = sym("h"), sym("e")
    st.cons += [h, e - h - num(HEAD), S - e]
    st.items = [Item("S", num(0), h), Item("B", h, e, 1), Item("S", e, S)]
    st.ghost["target"] = h
    return h, e


class Arena:
    def __init__(self, ctx):
        self.ctx, self.mod = ctx, ctx.mod
        self.m = Machine(ctx.mod, {"gracht_arena_allocate", "gracht_arena_free"})
        if ctx.tier == "thorough":
            self.m.BUDGET *= 3
        self.outcomes = 0

    def report(self, fn, rule, msg):
        self.m.hurry()
        self.ctx.report(fn.base, fn.file, "%s:%d (%s)" % (fn.file, fn.line, fn.base), rule, msg)

    def results(self, fn, st, args, judge):
        """every way the function returns is judged; distinctions the judgement needs are made here"""
        for s, r in self.m.run(fn, st, args):
            todo = [s]
            while todo:
                if time.time() > self.m.deadline:
                    raise Late("time is up")
                c = todo.pop()
                w = c.copy()
                try:
                    for k, v in st.cells.items():
                        if k[0] == "arena" and w.cells.get(k) != v and not (v[0] == w.cells[k][0] and self.m.same(w, v[-1] if v[0] == "p" else v[1], w.cells[k][2] if v[0] == "p" else w.cells[k][1])):
                            raise Fault("fields", "the place or size of an arena changes")
                    judge(w, r)
                    self.outcomes += 1
                    self.ctx.oblige("%s: way to return" % fn.base)
                except Split as e:
                    for cs in e.cases:
                        n = c.copy()
                        if cs[0] == "open":
                            self.m.open(n, cs[1], cs[2])
                        else:
                            n.cons += cs
                            if not self.m.sat(n.cons):
                                continue
                        todo.append(n)
                except Fault as f:
                    self.report(fn, f.rule, f.msg)

    # --------------------------------------------------------------------------------------------------------------
    def create(self):
        fn, m = self.mod.get("gracht_arena_create"), self.m
        st = State()
        s = sym("size")
        st.cons = [s, num((1 << 64) - 1) - s]
        pats = []

        def judge(st, r):
            if not m.same(st, r[1], num(0)):
                return
            a = st.cells.get((("out",), key(num(0))))
            if a is None or a[0] != "p" or a[1] is None:
                raise Fault("create", "no arena is returned although it was created")
            area = [v[1] for (o, _), v in st.cells.items() if o == a[1] and v[0] == "p" and v[1] and v[1][0] == "heap" and is0(v[2])]
            if len(area) != 1:
                raise Fault("create", "the arena has no memory")
            area = area[0]
            S = next(e[2] for e in st.events if e[0] == "heap" and e[1] == area[1])
            w = st.cells.get((area, key(num(0))))
            if w is None or w[0] != "n":
                raise Fault("create", "a new arena does not begin with a block")
            hi, ln = m.parts(st, m.unsigned(st, w[1], 32), LENBITS)
            al = m.parts(st, hi, 1)[1]
            if not m.same(st, al, num(0)):
                raise Fault("create", "the memory of a new arena is not free")
            if not m.same(st, ln + num(HEAD), S):
                raise Fault("create", "the first block of a new arena is not as large as its memory")
            if not m.holds(st, S - num(HEAD + 1)):
                raise Fault("create", "an arena without room is created")
            f = {}
            for (o, k), v in st.cells.items():
                if o != a[1] or k[1]:
                    continue
                if v[0] == "p" and v[1] == area:
                    for n, l in (("lo", v[2]), ("hi", v[2] - S)):
                        if m.same(st, l, num(l.k)):
                            f.setdefault(k[0], set()).add(("p", n, l.k))
                elif v[0] == "n":
                    for n, l in (("hi", v[1] - S), ("lo", v[1])):
                        if m.same(st, l, num(l.k)):
                            f.setdefault(k[0], set()).add(("n", n, l.k))
            pats.append(f)
        self.results(fn, st, [("n", s, 64), ("p", ("out",), num(0))], judge)
        if not pats:
            raise Broken("gracht_arena_create never succeeds")
        f = {k: set.intersection(*[p.get(k, set()) for p in pats]) for k in pats[0]}
        return {k: sorted(v)[0] for k, v in f.items() if v}

    def others(self, st, walked, allowed):
        for it, how, old in walked:
            if how in ("fresh", "resized") and not allowed(it, how):
                raise Fault("owner", "a block is marked as in use that was not asked for" if how == "fresh" else "the size of a block changes although nothing was asked for")

    def alive(self, st, walked, t):
        return next((x for x in walked if x[0].kind == "B" and x[0].attr and self.m.same(st, x[0].lo, t)), None)

    def intact(self, st, walked, lo, n):
        """nothing was written into n bytes at lo"""
        for p, _ in st.raw:
            if not (self.m.holds(st, lo - p - num(HEAD)) or self.m.holds(st, p - lo - n)):
                raise Fault("content", "the content of memory in use is overwritten with a header")

    def refused(self, st, walked):
        items = [x[0] for x in walked]
        if not self.m.nofit(st, items, None):
            raise Fault("refused", "an allocation is refused although there may be enough free memory in one piece")

    def free(self, fields):
        fn, m = self.mod.get("gracht_arena_free"), self.m

        def quiet(st, r):
            if st.raw:
                raise Fault("null", "freeing nothing changes the arena")
        for null in (0, 1):
            st = entry(32, fields)
            if null:
                self.results(fn, st, [("p", "arena", num(0)), ("p", None, num(0)), ("n", sym("size"), 64)], quiet)
            else:
                self.results(fn, st, [("p", None, num(0)), ("p", AREA, num(HEAD)), ("n", sym("size"), 64)], quiet)
        st = entry(32, fields)
        h, e = with_block(st)
        size, ln = sym("size"), e - h - num(HEAD)

        def judge(st, r):
            w = m.walk(st)
            self.others(st, w, lambda it, how: how == "resized" and m.same(st, it.lo, h))
            b = self.alive(st, w, h)
            part = m.ge(st, size - num(1)) and m.ge(st, ln - size - num(1))
            if not part:
                if b is not None:
                    raise Fault("free", "memory is still in use after all of it was freed")
                return
            if b is None:
                raise Fault("free", "memory of which only a part was freed is not in use any more")
            left = b[0].hi - b[0].lo - num(HEAD)
            if not m.holds(st, left - ln + size):
                raise Fault("free", "more memory is taken away than was freed")
            if not m.holds(st, ln - left):
                raise Fault("free", "a block grows by freeing a part of it")
            if not m.same(st, left, ln - size) and not m.holds(st, num(15) - size):
                raise Fault("free", "a part of a block that was freed is not free afterwards")
            self.intact(st, w, h + num(HEAD), left)
        self.results(fn, st, [("p", "arena", num(0)), ("p", AREA, h + num(HEAD)), ("n", size, 64)], judge)

    def allocate(self, fields):
        fn, m = self.mod.get("gracht_arena_allocate"), self.m
        size = sym("size")

        def nothing(st, r):
            if r[0] != "p" or r[1] is not None or st.raw:
                raise Fault("null", "memory is allocated without an arena")
        self.results(fn, entry(64, fields), [("p", None, num(0)), ("p", None, num(0)), ("n", size, 64)], nothing)

        st = entry(64, fields)
        st.ghost["need"] = size

        def judge(st, r):
            w = m.walk(st)
            if r[0] != "p" or (r[1] is not None and r[1] != AREA):
                raise Fault("result", "what is returned is not memory of the arena")
            if r[1] is None:
                self.others(st, w, lambda it, how: False)
                if m.ge(st, size - num(1)) and m.ge(st, num((1 << LENBITS) - 1) - size):
                    self.refused(st, w)
                return
            at = r[2] - num(HEAD)
            self.others(st, w, lambda it, how: how == "fresh" and m.same(st, it.lo, at))
            b = self.alive(st, w, at)
            if b is None or b[1] != "fresh":
                raise Fault("result", "what is returned is not a block that was free before and is in use now")
            if not m.ge(st, b[0].hi - r[2] - size):
                raise Fault("result", "the block that is returned is smaller than what was asked for")
        self.results(fn, st, [("p", "arena", num(0)), ("p", None, num(0)), ("n", size, 64)], judge)

        st = entry(64, fields)
        h, e = with_block(st)
        ln = e - h - num(HEAD)
        st.ghost["need"] = ln + size

        def extend(st, r):
            w = m.walk(st)
            if r[0] != "p" or (r[1] is not None and r[1] != AREA):
                raise Fault("result", "what is returned is not memory of the arena")
            if r[1] is None:
                self.others(st, w, lambda it, how: False)
                b = self.alive(st, w, h)
                if b is None or not m.same(st, b[0].hi, e):
                    raise Fault("extend", "an allocation that can not be extended is not kept as it was")
                if m.ge(st, size - num(1)) and m.ge(st, num((1 << LENBITS) - 1) - size):
                    self.refused(st, w)
                return
            at = r[2] - num(HEAD)
            moved = not m.eq(st, at, h)
            self.others(st, w, lambda it, how: m.same(st, it.lo, at))
            b = self.alive(st, w, at)
            if b is None or b[1] != ("fresh" if moved else "resized"):
                raise Fault("extend", "what is returned is not a block in use")
            if not m.ge(st, b[0].hi - r[2] - ln - size):
                raise Fault("extend", "the extended block is smaller than what was asked for")
            if moved:
                if self.alive(st, w, h):
                    raise Fault("extend", "the old block is still in use after the allocation moved")
                if not any(m.same(st, c[0], r[2]) and c[1] is not None and m.same(st, c[1], h + num(HEAD)) and m.holds(st, c[2] - ln) for c in st.copies):
                    raise Fault("extend", "the content of an allocation is lost when it moves")
            self.intact(st, w, r[2], ln)
        self.results(fn, st, [("p", "arena", num(0)), ("p", AREA, h + num(HEAD)), ("n", size, 64)], extend)


def check(ctx):
    loops.check(ctx, ("runtime/arena.c",))
    a = Arena(ctx)
    try:
        f = a.create()
        ctx.extra["fields of an arena"] = {str(k): " ".join(map(str, v)) for k, v in f.items()}
        a.free(f)
        a.allocate(f)
    except Late:
        ctx.extra.setdefault("unfinished", []).append("the arena was not explored completely when the time was up")
        print("note: the arena was not explored completely")
    except Lost as e:
        if not a.m.found and not ctx.found:
            raise Broken("the code of the arena can not be followed: %s" % e)
    for (rule, msg, fn), x in a.m.found.items():
        ctx.report(fn, x.fn.file, x.where(), rule, msg)
    ctx.stats["steps"] += a.m.steps
    ctx.stats["functions"] |= {"gracht_arena_create", "gracht_arena_allocate", "gracht_arena_free"}
    ctx.oblige("header read", a.m.reads)
    ctx.oblige("header written", a.m.writes)
    ctx.oblige("chain walked", a.m.walks)
