"""P13: what native code hands to programs is a value of the language."""
from ..core import *
from ..heap import *
from ..ir import show
from ..layout import TAGS
from ..facts import Query, lin, ladd

RULE = """Every result of a native method, every word stored into a field or element of an object that holds values, and every argument of a call to a program's closure is followed back to where it comes from, through
merges, casts, parameters (to the arguments of every caller) and helper functions (to their results).  Each source must be a value: nil, true, false or a tagged integer computed as such; the start of a new
object; a value parameter of a native method; a value read from a field, element or global that holds values; what a closure returned.  A truth value or number of C, a length, the address of C memory or of
the inside of an object, and what a C library function returns are not values."""
ASSUME = ("the declared types of fields tell which hold values (PN and pointers to heap records); syntax nodes may hold marks and are not followed",
          "a constant is a value when it is odd or nil, true or false",
          "the operand of the load-immediate instruction is a value: it is checked where the compiler emits it")
OBJ = {"potion_gc_alloc", "potion_gc_realloc", "potion_gc_calloc"}
SAME = {"potion_fwd": 0, "potion_gc_update": 1}
VALUES = ("PN", "_PN")
SKIP = ("core/gc.c",)


class Values:
    def __init__(s, ctx):
        s.ctx, s.P = ctx, ctx.P
        s.hs = heap_structs(ctx.P)
        s.regs = {fn for fn, *_ in registrations(ctx)}
        s.retmemo = {}
        s.hot = {}
        s.flow = {}

    def valtype(s, t):
        t = str(t or "").replace("volatile ", "").replace("const ", "").replace("struct ", "").strip()
        return t in VALUES or t in ("pn_file", "pn_ffile") or (t.endswith("*") and t[:-1].strip() in s.hs)

    def cell(s, F, a):
        """the memory holds values: True / False / None when unknown"""
        i = 0
        while a[0] == "idx": a = a[1]; i += 1
        if a[0] != "fld": return None
        if a[2] == "PNSource" or a[2] not in s.hs: return None
        for f in s.P.structs[a[2]]["fields"]:
            if f["n"] == a[3]:
                t = str(f["ty"])
                if a[2] == "PNFlex": return None
                t = re.sub(r"\[\d*\]$", "", t)
                return s.valtype(t)
        return None

    def leaves(s, F, e, seen=None):
        X = s.ctx.ex(F)
        seen = set() if seen is None else seen
        for l in value_leaves(F, X, e):
            if l in seen: continue
            seen.add(l)
            if l[0] == "call" and l[1] in SAME:
                yield from s.leaves(F, X.o(F.val[l[2]].args[SAME[l[1]]]), seen)
            else: yield l

    def bad(s, F, e, I, params=None):
        """None, or what the expression is that is no value; parameters are collected in params"""
        P, X = s.P, s.ctx.ex(F)
        for l in s.leaves(F, e):
            r = s.leaf(F, X, l, I, params)
            if r: return r

    def leaf(s, F, X, e, I, params):
        P = s.P
        k = e[0]
        if k == "c":
            v = e[1]
            return None if v in (0, 2, 6) or v & 1 else "the constant %d" % v
        if k in ("undef", "fp"): return None
        if k == "arg":
            if params is not None: params.add(e[1])
            t = F.param_type(e[1])
            return None if s.valtype(t) or str(t) in ("ptr", "void*", "None") else "its parameter %s, a %s" % (F.param_name(e[1]), t)
        if k == "icmp": return "a truth value of C"
        if k == "bin":
            if e[1] in ("or", "add") and e[3][0] == "c" and e[3][1] & 1 and tagged(e[2]): return None
            if e[1] == "add" and e[3][0] == "c" and not e[3][1] & 1 and s.leaf(F, X, e[2], I, params) is None and e[2][0] != "load": return None
            if operand(e): return None
            if e[1] == "sub" or e[1] == "add":
                return "an untagged number"
            return "an untagged number"
        if k == "call":
            if not isinstance(e[1], str): return None          # a closure's code
            T = P.resolve(F, e[1])
            if e[1] in OBJ: return None
            if T is None: return "what %s returns" % e[1]
            return s.result(T)
        if k == "load":
            c = s.cell(F, e[1])
            if c is False:
                a = e[1]
                while a[0] == "idx": a = a[1]
                return "the %s of a %s" % (a[3], a[2])
            return None
        if k == "fld": return "an address inside an object"
        if k == "idx": 
            if e[2][0] == "c" and e[2][1] < 0: return None       # the object that carries C data
            return "an address inside an object or C memory"
        if k in ("str", "fn", "alloca", "g"): return "the address of C memory"
        if k == "op": return "a number of C"
        return None

    def result(s, T):
        if T.name in s.retmemo: return s.retmemo[T.name]
        s.retmemo[T.name] = None
        X = s.ctx.ex(T)
        if T.file in SKIP: return None
        t = T.ditypes[0] if T.ditypes else None
        if not s.valtype(t) and not str(t).endswith("*"): 
            s.retmemo[T.name] = "what %s returns, a %s" % (T.name, t)
            return s.retmemo[T.name]
        r = None
        ps = set()
        for I in T.instrs():
            if I.op == "ret" and I["ops"]:
                r = r or s.bad(T, X.o(I["ops"][0]), I, ps)
        s.retmemo[T.name] = None         # reported at T itself (functions that yield values)
        if r and not s.valtype(t): s.retmemo[T.name] = r + " (by %s)" % T.name
        s.flow[T.name] = ps
        return s.retmemo[T.name]

    def sinks(s, F):
        """(Instr, operand, what) that must be values"""
        X = s.ctx.ex(F)
        for I in F.instrs():
            if I.op == "store":
                a = X.o(I["ops"][1])
                if s.cell(F, a):
                    while a[0] == "idx": a = a[1]
                    yield I, I["ops"][0], "stores %s into the %s of a " + a[2] if False else "stores %%s into %s of a %s" % (a[3], a[2])
            elif I.op == "call" and "asm" not in I.d:
                if I.callee is None:
                    c = X.o(I["callee"])
                    if c[0] == "load" and c[1][0] == "fld" and c[1][2:] == ("PNClosure", "method"):
                        for k, o in enumerate(I.args):
                            if k: yield I, o, "passes %%s to a closure as argument %d" % k
                else:
                    T = s.P.resolve(F, I.callee)
                    for k in sorted(s.hot.get(T.name, ())) if T else ():
                        if k < len(I.args): yield I, I.args[k], "passes %%s for %s to %s" % (T.param_name(k), T.name)
            elif I.op == "ret" and I["ops"] and F.ditypes and s.valtype(F.ditypes[0]) and (F.name in s.regs or s.valtype(F.ditypes[0])):
                yield I, I["ops"][0], "returns %s"


def operand(e):
    """an operand field of an instruction word"""
    while e[0] == "bin" and e[1] in ("ashr", "shl", "lshr", "and") and e[3][0] == "c": e = e[2]
    if e[0] != "load": return False
    a = e[1]
    while a[0] in ("idx", "load", "fld"):
        if a[0] == "fld" and a[2:] in (("PNProto", "asmb"), ("PNFlex", "ptr"), ("PNAsm", "ptr")): return True
        a = a[1]
    return False


def tagged(e):
    return e[0] == "bin" and e[1] in ("shl", "mul", "and") and e[3][0] == "c"


def run(ctx):
    P = ctx.P
    V = Values(ctx)
    fs = [F for F in P if F.file not in SKIP]
    # which parameters are handed on as values
    ch = True
    while ch:
        ch = False
        for F in fs:
            X = ctx.ex(F)
            for I, o, what in V.sinks(F):
                ps = set()
                V.bad(F, X.o(o), I, ps)
                n = {k for k in ps} - V.hot.get(F.name, set())
                if n: V.hot.setdefault(F.name, set()).update(n); ch = True
    for F in fs:
        X = ctx.ex(F)
        for I, o, what in V.sinks(F):
            ctx.count("results" if I.op == "ret" else "stores" if I.op == "store" else "arguments")
            r = V.bad(F, X.o(o), I)
            if r: ctx.report("%s|%s" % (F.name, what % "..."), I.where, "%s %s, which is no value" % (F.name, what % r))
    # what compares answers an integer, never nil, true or false
    for fn in sorted({m["fn"] for m in methods(ctx) if m["name"] == "cmp" and m["fn"]}):
        T = P.fns.get(fn) if hasattr(P, "fns") else None
        T = T or next((F for F in fs if F.name == fn), None)
        if T is None: continue
        ctx.count("comparison methods")
        X = ctx.ex(T)
        for I in T.instrs():
            if I.op != "ret" or not I["ops"]: continue
            w = {0: "nil", 2: "false", 6: "true"}
            for v in sorted({w[l[1]] for l in V.leaves(T, X.o(I["ops"][0])) if l[0] == "c" and l[1] in w}):
                ctx.report("%s|answers %s" % (fn, v), I.where, "%s compares, and answers %s instead of an integer" % (fn, v))
    ctx.floor("comparison methods", 5)
    ctx.count("parameters that are values", sum(map(len, V.hot.values())))
    ctx.floor("results", 200); ctx.floor("stores", 60); ctx.floor("arguments", 300)
