"""Automata whose state is a set of facts about the objects of one call."""
from . import engine
from .engine import C0, contains, flat, label, root, subst


def strip(t):
    while t[0] == "cast":
        t = t[4]
    return t


def plus(t):
    """t as (symbol or None, constant)"""
    n = 0
    while True:
        t = strip(t)
        if t[0] == "c":
            return None, n + t[1]
        if t[0] == "op" and t[1] == "add" and t[3][0] == "c":
            n += t[3][1]
            t = t[2]
            continue
        return t, n


class Facts(engine.Monitor):
    """ps = frozenset of tuples, the first element names the kind"""

    def __init__(self, mod, counts):
        super().__init__()
        self.mod, self.counts = mod, counts

    def bump(self, what):
        self.instances += 1
        self.counts[what] = self.counts.get(what, 0) + 1

    def start(self, eng):
        return frozenset()

    def add(self, st, *t):
        st.ps = st.ps | {t}

    def drop(self, st, kind):
        st.ps = frozenset(t for t in st.ps if t[0] != kind)

    def set(self, st, kind, *t):
        st.ps = frozenset(f for f in st.ps if f[0] != kind) | {(kind,) + t}

    def all(self, st, kind):
        return [t for t in st.ps if t[0] == kind]

    def one(self, st, kind):
        for t in st.ps:
            if t[0] == kind:
                return t[1] if len(t) == 2 else t[1:]
        return None

    def origin(self, eng, v):
        """the address a value was loaded from"""
        v = strip(v)
        o = eng.origin.get(v)
        if o is None and v[0] == "old":
            o = eng.origin.get(("v", v[1]))
            if o is not None:
                s = set()
                engine.syms(o, s)
                if any(eng.inloop[eng.fn.ins[i].blk] for _, i in s):
                    return None
        return o

    def field(self, eng, v, obj, struct, name):
        """v was read from obj->name"""
        return self.origin(eng, v) == ("f", obj, struct, name)

    def place(self, eng, addr):
        """(base, symbol, constant) of an address: base[symbol + constant] in bytes"""
        base, parts = flat(addr)
        s, n = plus(eng.offterm(parts))
        return base, s, n

    def width(self, eng, v):
        v = strip(v)
        if v[0] in ("v", "old"):
            return eng.fn.ins[v[1]].ty
        return None

    def cell(self, eng, st, addr):
        v = eng.read(st, addr)
        return v if v is not None else ("u",)

    def slot_object(self, eng, st, x):
        """the object whose function table the called pointer was taken from"""
        c = x.d["callee"]
        if c[0] == "g":
            return None
        o = self.origin(eng, eng.val(st, c))
        return root(o) if o is not None else None

    def persist(self, states, cells):
        """cells that nobody changes behind the back of the analysed function"""
        for s in states:
            for a, v in cells.items():
                s.mem[a] = v
        return states
