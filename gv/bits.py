"""Meaning of the expressions the engine collects, for all values of a byte."""
from .engine import width, wrap


class Open(Exception):
    pass


def ev(t, env):
    """value (as a signed number of its width) of a term, given the values of its symbols"""
    if t in env:
        return env[t]
    k = t[0]
    if k == "c":
        return t[1]
    if k == "cast":
        v = ev(t[4], env)
        if t[1] == "zext":
            return v & ((1 << width(t[2])) - 1)
        return wrap(v, width(t[3])) if t[1] == "trunc" else wrap(v, width(t[2]))
    if k == "b":
        return int(truth(t[1], env) == t[2])
    if k == "op":
        a, b, w = ev(t[2], env), ev(t[3], env), t[4]
        m = (1 << w) - 1
        ux, uy = a & m, b & m
        op = t[1]
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op == "and":
            r = ux & uy
        elif op == "or":
            r = ux | uy
        elif op == "xor":
            r = ux ^ uy
        elif op in ("shl", "lshr", "ashr") and uy >= w:
            raise Open()
        elif op == "shl":
            r = ux << uy
        elif op == "lshr":
            r = ux >> uy
        elif op == "ashr":
            r = wrap(a, w) >> uy
        elif op in ("urem", "udiv", "srem", "sdiv"):
            if b == 0:
                raise Open()
            if op == "urem":
                r = ux % uy
            elif op == "udiv":
                r = ux // uy
            else:
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                r = q if op == "sdiv" else a - q * b
        else:
            raise Open()
        return wrap(r, w)
    raise Open()


def truth(at, env):
    p, a, b = at
    x, y = ev(a, env), ev(b, env)
    if p == "eq":
        return x == y
    if p == "slt":
        return x < y
    m = (1 << 64) - 1
    return (x & m) < (y & m)


def allowed(st, sym, n):
    """the facts of the state about the symbol alone do not exclude the value"""
    for at, v in st.facts.items():
        try:
            if truth(at, {sym: n}) != v:
                return False
        except Open:
            pass
    return True
