"""Facts about the object heap shared by several rules: who may collect, who returns a fresh object, what an address is rooted in."""
from .core import *
from .core import callgraph
from .ir import strip_ids, show

GC = "potion_garbagecollect"
TOUCH = "potion_gc_update"
FWD = "potion_fwd"
HASH_ACCESS = re.compile(r"^kh_(key|val)_\w+$")
COPYFN = ("llvm.memcpy", "llvm.memmove")


def maygc(P):
    """functions a call to which may run a collection (directly, through user code, or through an unknown function pointer)"""
    return closure_to(P, {GC}, indirect_counts=True)


def is_maygc_call(I, P, F, mg):
    if I.op not in ("call", "invoke", "callbr") or "asm" in I.d: return False
    if I.callee is None: return True
    c = P.resolve(F, I.callee)
    return (c.name if c else I.callee) in mg


class Roots:
    """roots of an address or object expression: the set of expressions denoting the object(s) it lies in"""

    def __init__(s, ctx, F, alias=None):
        s.alias = alias if alias is not None else {"potion_gc_realloc": 2}
        s.ctx, s.F, s.E, s.P = ctx, F, ctx.ex(F), ctx.prog_of(F) if F not in ctx.P.funcs.values() else ctx.P
        s.memo = {}

    def obj(s, e, seen=None):
        """leaves of an object-valued expression: forwarding, phi and select looked through"""
        seen = set() if seen is None else seen
        if e in seen: return frozenset()
        seen.add(e)
        k = e[0]
        if k == "call" and e[1] == FWD:
            return s.obj(s.E.o(s.F.val[e[2]].args[0]), seen)
        if k == "call" and isinstance(e[1], str):
            j = s.alias.get(e[1])
            if j is not None:
                r = s.obj(s.E.o(s.F.val[e[2]].args[j]), seen)
                if all(x[0] != "c" for x in r): return r
            return frozenset([e])
        if k == "phi":
            r = frozenset()
            for _, o in s.F.val[e[1]]["in"]: r |= s.obj(s.E.o(o), seen)
            return r
        if k == "select": return s.obj(e[2], seen) | s.obj(e[3], seen)
        if k == "load":
            if e[1][0] == "fld" and e[1][2:] == ("PNFwd", "ptr"): return s.obj(e[1][1], seen)
            return frozenset([strip_ids(e)])
        if k in ("fld", "idx"): return s.addr(e, seen)
        return frozenset([e])

    def addr(s, e, seen=None):
        """(roots of the object an address lies in)"""
        while e[0] in ("fld", "idx"): e = e[1]
        if e[0] == "call" and isinstance(e[1], str) and HASH_ACCESS.match(e[1]):
            return s.obj(s.E.o(s.F.val[e[2]].args[0]), seen)
        return s.obj(e, seen)

    def path(s, e):
        """does the address go through a field of a heap record or a hash accessor; -> list of (struct, field)"""
        out = []
        seen = set()

        def go(e):
            if e in seen: return
            seen.add(e)
            while e[0] in ("fld", "idx"):
                if e[0] == "fld": out.append((e[2], e[3]))
                e = e[1]
            if e[0] == "call" and isinstance(e[1], str) and HASH_ACCESS.match(e[1]): out.append(("PNTable", e[1]))
            if e[0] == "phi":
                for _, o in s.F.val[e[1]]["in"]: go(s.E.o(o))
            if e[0] == "select": go(e[2]); go(e[3])
        go(e)
        return out


def value_leaves(F, E, e, seen=None):
    seen = set() if seen is None else seen
    if e in seen: return set()
    seen.add(e)
    if e[0] == "phi":
        r = set()
        for _, o in F.val[e[1]]["in"]: r |= value_leaves(F, E, E.o(o), seen)
        return r
    if e[0] == "select": return value_leaves(F, E, e[2], seen) | value_leaves(F, E, e[3], seen)
    if e[0] == "bin" and e[1] == "xor": return value_leaves(F, E, e[2], seen) | value_leaves(F, E, e[3], seen)
    return {e}


def immediate(F, E, e, seen=None):
    """is the stored value certainly not a pointer to a heap object"""
    seen = set() if seen is None else seen
    if e in seen: return True
    seen.add(e)
    k = e[0]
    if k in ("c", "fn", "str", "undef", "fp", "icmp"): return True
    if k == "bin":
        if e[1] in ("or", "add") and e[3] == ("c", 1) and e[2][0] == "bin" and e[2][1] in ("shl", "mul", "and"): return True
        if e[1] == "or" and e[3][0] == "c" and e[3][1] & 1: return True
        if e[1] in ("and",) and e[3][0] == "c" and 0 <= e[3][1] < 4096: return True
        if e[1] == "add" and e[3][0] == "c" and e[3][1] & 1:
            l = e[2]
            return l[0] == "bin" and l[1] in ("shl", "mul")
        return False
    if k == "phi": return all(immediate(F, E, E.o(o), seen) for _, o in F.val[e[1]]["in"])
    if k == "select": return immediate(F, E, e[2], seen) and immediate(F, E, e[3], seen)
    return False


def registrations(ctx):
    """[(C function name, signature string or None, Instr, enclosing function)] for every native method made callable"""
    out = []
    for F in ctx.P:
        E = ctx.ex(F)
        for I in F.calls("potion_closure_new"):
            a = E.o(I.args[1])
            if a[0] != "fn": continue
            sg = E.o(I.args[2])
            s = None
            if sg[0] == "call" and sg[1] == "potion_sig":
                x = E.o(F.val[sg[2]].args[1])
                s = x[1] if x[0] == "str" else (None if x == ("c", 0) else "?")
            elif sg == ("c", 0): s = None
            else: s = "?"
            out.append((a[1], s, I, F))
    return out


def strings_of_globals(P, ctx):
    """global variable -> the string it is initialised with (PN_add -> "+")"""
    if hasattr(ctx, "_gstr"): return ctx._gstr
    out = {}
    for F in P:
        X = ctx.ex(F)
        for I in F.instrs():
            if I.op != "store": continue
            a = X.o(I["ops"][1])
            if a[0] != "g": continue
            t = string_of(ctx, F, X.o(I["ops"][0]))
            if t is not None: out.setdefault(a[1], t)
    ctx._gstr = out
    return out


def string_of(ctx, F, e):
    """the constant string a value is, or None"""
    if e[0] == "call" and e[1] in ("potion_str", "potion_str2"):
        x = ctx.ex(F).o(F.val[e[2]].args[1])
        if x[0] == "str":
            if e[1] == "potion_str2":
                n = ctx.ex(F).o(F.val[e[2]].args[2])
                if n[0] == "c": return x[1][:n[1]] if n[1] <= len(x[1]) else x[1]
            return x[1]
    if e[0] == "load" and e[1][0] == "g" and hasattr(ctx, "_gstr"): return ctx._gstr.get(e[1][1])
    return None


def vtable_of(P, F, X, e):
    """the type id whose class an expression is: an element of the class table, or ('lobby',) / None"""
    for _ in range(6):
        if e[0] == "load" and e[1][0] == "idx":
            i = e[1][2]
            b = e[1][1]
            if i[0] == "c" and b[0] == "fld" and b[3] in ("ptr",): return i[1]
            return None
        if e[0] == "load" and e[1][0] == "fld" and e[1][2] == "Potion_State": return e[1][3]
        if e[0] == "load" and e[1][0] == "fld" and e[1][2:] == ("PNVtable", "meta"):
            r = vtable_of(P, F, X, e[1][1])
            return None if r is None else ("meta", r)
        return ("var", e) if e[0] in ("call", "phi", "arg") else None
    return None


def methods(ctx):
    """every native method given a name: dicts of receiver, name, function, signature, call, enclosing function"""
    if hasattr(ctx, "_methods"): return ctx._methods
    P = ctx.P
    strings_of_globals(P, ctx)
    out = []
    byclo = {}
    for fn, sg, I, F in registrations(ctx): byclo.setdefault(F.name, {})[I.id] = (fn, sg, I)
    for F in P:
        m = byclo.get(F.name)
        if not m: continue
        X = ctx.ex(F)
        for I in F.instrs():
            if I.op != "call" or I.id in m: continue
            args = [X.o(a) for a in I.args]
            for k, a in enumerate(args):
                if a[0] == "call" and a[2] in m:
                    fn, sg, C = m[a[2]]
                    nm = string_of(ctx, F, args[k - 1]) if k else None
                    rcv = vtable_of(P, F, X, args[k - 2]) if k > 1 else vtable_of(P, F, X, args[0]) if k == 1 and nm is None else None
                    out.append(dict(rcv=rcv, name=nm, fn=fn, sig=sg, I=I, F=F, clo=C))
    ctx._methods = out
    return out
