"""Ownership automaton: objects that are obtained, used, and given back or handed on exactly once.

ps = frozenset of (object, state, flags): state is "own" (ours), "rel" (given back) or "gone" (handed to someone else)."""
from . import engine
from .engine import C0, contains, label, root


class Own(engine.Monitor):
    what = "the message"

    def __init__(self, mod, counts):
        super().__init__()
        self.mod, self.counts = mod, counts

    def bump(self, what):
        self.instances += 1
        self.counts[what] = self.counts.get(what, 0) + 1

    def start(self, eng):
        return frozenset()

    def get(self, st, o):
        for e in st.ps:
            if e[0] == o:
                return e
        return None

    def put(self, ps, o, state, flags):
        return frozenset(e for e in ps if e[0] != o) | {(o, state, frozenset(flags))}

    def trim(self, eng, ps, live):
        """an object that was given back and that nothing refers to any more no longer matters"""
        return frozenset(e for e in ps if e[1] == "own" or e[0][0] == "a" or e[0] in live)

    # hooks ------------------------------------------------------------------------------------------------------
    def done(self, eng, st, x, e):
        """what has to be true of an object when the function ends or loses it"""

    # ------------------------------------------------------------------------------------------------------------
    def settle(self, eng, st, x, o=None):
        for e in st.ps:
            if o is None or e[0] == o:
                self.done(eng, st, x, e)

    def acquire(self, eng, st, x, name, args, flags=(), maybe=True):
        """the call returns an object that is ours from now on, or nothing"""
        o = ("v", x.i)
        for e in st.ps:
            if e[0] in (o, ("old", x.i)) and e[1] == "own":
                self.done(eng, st, x, e)
        ps = frozenset(e for e in st.ps if e[0] not in (o, ("old", x.i)))
        st.ps = ps
        out = [("nonzero", ps | {(("result",), "own", frozenset(flags))})]
        if maybe:
            out.append(("zero", ps))
        return eng.fork(st, x, name, args, out)

    def touch(self, eng, st, x, addr):
        r = root(addr)
        e = self.get(st, r)
        if e is not None and e[1] != "own":
            self.bump("use checked")
            self.report(eng, st, x, "used-after-" + ("release" if e[1] == "rel" else "hand-over"),
                        "%s is used after it was %s" % (self.what, "given back" if e[1] == "rel" else "handed on"))

    def load(self, eng, st, x, addr, val):
        self.touch(eng, st, x, addr)

    def store(self, eng, st, x, addr, val):
        self.touch(eng, st, x, addr)

    def passed(self, eng, st, x, args, skip=()):
        for a in args:
            e = self.get(st, root(a))
            if e is not None and e[1] != "own" and a[0] in ("v", "old", "a", "f", "x"):
                self.report(eng, st, x, "used-after-" + ("release" if e[1] == "rel" else "hand-over"),
                            "%s is passed on after it was %s" % (self.what, "given back" if e[1] == "rel" else "handed on"))

    def give(self, eng, st, x, o, state, how):
        """o is given back ("rel") or handed on ("gone")"""
        e = self.get(st, o)
        if e is None:
            return
        self.bump(how)
        if e[1] != "own":
            self.report(eng, st, x, "twice", "%s is %s although it was already %s" %
                        (self.what, how, "given back" if e[1] == "rel" else "handed on"))
        st.ps = self.put(st.ps, o, state, e[2])

    def flag(self, st, o, f):
        e = self.get(st, o)
        if e is not None:
            st.ps = self.put(st.ps, o, e[1], e[2] | {f})

    def ret(self, eng, st, x, val):
        self.settle(eng, st, x)
