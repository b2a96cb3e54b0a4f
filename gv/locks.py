"""Lock automaton: which locks are held on every path."""
from . import engine
from .engine import C0, label, root, within

LOCKERS = {"mtx_lock": "x", "mtx_trylock": "x", "mtx_timedlock": "x", "rwlock_r_lock": "r", "rwlock_w_lock": "w"}
UNLOCKERS = {"mtx_unlock": "x", "rwlock_r_unlock": "r", "rwlock_w_unlock": "w"}


def base_of(addr):
    return addr[1] if addr[0] == "f" else None


def cname(addr):
    l = label(addr)
    return "%s.%s" % l if l else "a lock"


def cls(addr):
    return label(addr) or ("?", "?")


def index_delta(a, b):
    """b - a for index terms that differ by a constant, else None"""
    def lin(t):
        k = 0
        while True:
            if t[0] == "c":
                return None, k + t[1]
            if t[0] == "cast":
                t = t[4]
                continue
            if t[0] == "op" and t[1] == "add" and t[3][0] == "c":
                k += t[3][1]
                t = t[2]
                continue
            return t, k
    (x, m), (y, n) = lin(a), lin(b)
    return n - m if x == y else None


def different(a, b):
    """two addresses that certainly designate different objects"""
    if a == b:
        return False
    if a[0] == "f" and b[0] == "f":
        if (a[2], a[3]) != (b[2], b[3]):
            return True
        return different(a[1], b[1])
    if a[0] == "x" or b[0] == "x":
        A, i = (a[1], a[2]) if a[0] == "x" else (a, C0)
        B, j = (b[1], b[2]) if b[0] == "x" else (b, C0)
        if A == B:
            d = index_delta(i, j)
            return d is not None and d != 0
        return False
    if a[0] in ("a", "al", "g") and b[0] in ("a", "al", "g"):
        return True
    return False


def recursive_classes(mod):
    """mutexes that are initialised as recursive everywhere"""
    rec, plain = set(), set()
    for f in mod.fn.values():
        if f.decl:
            continue
        for x in f.calls():
            c = x.d["callee"]
            if c[0] == "g" and c[1] == "mtx_init":
                l = mod.static_label(f, x.d["args"][0])
                k = x.d["args"][1]
                (rec if k[0] == "c" and k[1] & 1 else plain).add(l)
    return rec - plain


class LockMonitor(engine.Monitor):
    """ps = (held, more); held is a tuple of (address, mode) in the order of acquisition"""

    recursive = None

    def __init__(self, mod, initial=()):
        super().__init__()
        self.mod = mod
        self.initial = initial
        self.sites = set()

    def start(self, eng):
        return (tuple(self.initial), self.start_more(eng))

    def start_more(self, eng):
        return ()

    # hooks
    def on_acquire(self, eng, st, x, addr, mode):
        pass

    def on_again(self, eng, st, x, addr):
        pass

    def once(self, c):
        """locks that their owner can not take again"""
        if self.recursive is None:
            self.recursive = recursive_classes(self.mod)
        return c not in self.recursive and c != ("?", "?")

    def on_release(self, eng, st, x, addr, mode, found):
        pass

    def on_call(self, eng, st, x, name, args):
        return None

    def held(self, st):
        return st.ps[0]

    def find(self, st, addr, mode=None):
        """index of the held lock an address designates, None if it is not held"""
        h = st.ps[0]
        for k in range(len(h) - 1, -1, -1):
            if h[k][0] == addr and (mode is None or h[k][1] == mode):
                return k
        for k in range(len(h) - 1, -1, -1):
            if cls(h[k][0]) == cls(addr) and cls(addr) != ("?", "?") and (mode is None or h[k][1] == mode) and not different(h[k][0], addr):
                return k
        return None

    def holds_class(self, st, c, modes=("x", "r", "w")):
        return any(cls(a) == c and m in modes for a, m in st.ps[0])

    def push(self, st, addr, mode):
        st.ps = (st.ps[0] + ((addr, mode),), st.ps[1])

    def call(self, eng, st, x, name, args):
        if name in LOCKERS:
            mode = LOCKERS[name]
            addr = args[0]
            self.sites.add(x.i)
            self.instances += 1
            self.on_acquire(eng, st, x, addr, mode)
            if name == "mtx_lock" and (addr, mode) in st.ps[0] and self.once(cls(addr)):
                # the thread waits for itself, nothing follows
                self.on_again(eng, st, x, addr)
                return []
            held = (st.ps[0] + ((addr, mode),), st.ps[1])
            if x.ty == "void":
                return eng.fork(st, x, name, args, [(None, held)])
            if name == "mtx_lock" and not x.used:
                return eng.fork(st, x, name, args, [("zero", held)])
            return eng.fork(st, x, name, args, [("zero", held), ("nonzero", st.ps)])
        if name in UNLOCKERS:
            mode = UNLOCKERS[name]
            k = self.find(st, args[0], mode)
            self.sites.add(x.i)
            self.instances += 1
            self.on_release(eng, st, x, args[0], mode, k)
            if k is not None:
                h = st.ps[0]
                st.ps = (h[:k] + h[k + 1:], st.ps[1])
            return eng.default_call(st, x, name, args)
        return self.on_call(eng, st, x, name, args)
