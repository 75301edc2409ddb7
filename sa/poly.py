"""Polynomials over the operands of an operation, for comparing what different implementations compute.

The content of an operand known to be a tagged integer is 2*u+1; arithmetic shifts right by one of even forms are exact."""


def pc(n): return {(): n} if n else {}
def pv(a): return {(a,): 1}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]: del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            x = tuple(sorted(m + n, key=str))
            r[x] = r.get(x, 0) + c * d
            if not r[x]: del r[x]
    return r


def fz(p): return tuple(sorted(p.items(), key=str))
def const(p): return p.get((), 0) if set(p) <= {()} else None
def tagged(u): return padd(pmul(pc(2), u), pc(1))


def op2(op, a, b, w=64):
    """a binary operation on polynomials; operations without a closed form become atoms"""
    if op == "add": return padd(a, b)
    if op == "sub": return padd(a, b, -1)
    if op == "mul": return pmul(a, b)
    cb = const(b)
    if op == "shl" and cb is not None and 0 <= cb < 32: return pmul(a, pc(1 << cb))
    if op == "ashr" and cb == 1:
        k = a.get((), 0)
        if all(c % 2 == 0 for m, c in a.items() if m != ()): return {m: (c // 2 if m != () else k >> 1) for m, c in a.items() if m != () or k >> 1}
    if op == "or" and cb == 1 and all(c % 2 == 0 for c in a.values()): return padd(a, pc(1))
    if op == "or" and cb == 1 and all(c % 2 == 0 for m, c in a.items() if m != ()) and a.get((), 0) % 2: return a
    if op == "xor" and cb == -1: return padd(padd({}, a, -1), pc(1), -1)
    if op == "xor" and cb == 1 and all(c % 2 == 0 for c in a.values()): return padd(a, pc(1))
    if op == "and" and cb == -2 and all(c % 2 == 0 for m, c in a.items() if m != ()): return padd(a, pc(a.get((), 0) & 1), -1)
    return {((op, fz(a), fz(b)),): 1}
