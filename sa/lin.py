"""Linear forms over opaque atoms: {atom: coeff, 1: const}."""
from .ir import strip_ids


def lin(e, depth=0):
    k = e[0]
    if k == "c": return {1: e[1]} if e[1] else {}
    if k == "bin" and depth < 40:
        if e[1] in ("add", "sub"):
            a, b = lin(e[2], depth + 1), lin(e[3], depth + 1)
            s = 1 if e[1] == "add" else -1
            r = dict(a)
            for x, c in b.items():
                r[x] = r.get(x, 0) + s * c
            return {x: c for x, c in r.items() if c}
        if e[1] in ("mul", "shl"):
            a, b = lin(e[2], depth + 1), lin(e[3], depth + 1)
            if e[1] == "shl":
                if list(b) in ([1], []): b = {1: 1 << b.get(1, 0)}
                else: return {strip_ids(e): 1}
            if set(b) <= {1}: return {x: c * b.get(1, 0) for x, c in a.items() if c * b.get(1, 0)}
            if set(a) <= {1}: return {x: c * a.get(1, 0) for x, c in b.items() if c * a.get(1, 0)}
    return {strip_ids(e): 1}


def atoms(l): return [x for x in l if x != 1]
