"""P09: lists, strings and byte strings are accessed within their length."""
from ..core import *
from ..facts import *
from ..facts import WRITES
from ..bounds import *

RULE = ("every read of an element of a list, string or byte string has an index at least 0 and below the length (a string's closing zero byte included), every "
        "write one below the capacity, every copied range lies within, and every length and capacity stored stays within what was allocated: each is a linear "
        "inequality that must follow on every path from the branches taken, from loop induction and from the functions that made the object")
ASSUME = ("linear arithmetic is not checked for wrap-around", "a string is followed by a zero byte (kept by its makers, decided here)",
          "objects of the compiler, parser and code generators are out of scope")
# the compiler and code generators work on trees, protos and signatures of fixed shape
SKIP = ("core/gc.c", "core/compile.c", "core/syntax.c", "core/vm.c", "core/vm-x86.c")
OPS = {"memcpy": ((0, 2, "w"), (1, 2, "r")), "memmove": ((0, 2, "w"), (1, 2, "r")), "memset": ((0, 2, "w"),), "memcmp": ((0, 2, "r"), (1, 2, "r")),
       "read": ((1, 2, "w"),), "write": ((1, 2, "r"),), "vsnprintf": ((0, 1, "w"),), "snprintf": ((0, 1, "w"),), "strncpy": ((0, 2, "w"),),
       "strcpy": ((0, None, "w"),), "strcat": ((0, None, "w"),), "sprintf": ((0, None, "w"),), "fwrite": ((0, (1, 2), "r"),),
       "fread": ((0, (1, 2), "w"),), "pwrite": ((1, 2, "r"),), "pread": ((1, 2, "w"),), "uv_buf_init": ((0, 1, "w"),), "fmemopen": ((0, 1, "r"),),
       "send": ((1, 2, "r"),), "recv": ((1, 2, "w"),), "strncat": ((0, None, "w"),), "memchr": ((0, 2, "r"),)}


def place(a):
    """(array expression, offset in elements) of an address"""
    off = {}
    while a[0] == "idx": off = ladd(off, lin(a[2])); a = a[1]
    return a, off


def array(a): return a[0] == "fld" and a[2:] in (("PNTuple", "set"), ("STR", "chars"))


class Check:
    def __init__(s, ctx):
        s.ctx, s.P, s.B = ctx, ctx.P, Bounds(ctx)
        s.needs = {}
        s.todo = []

    def goals(s, F, I, x, R, end, write):
        """alternatives for `end` (elements) not beyond the object; a string's zero byte may be touched"""
        slack = 1 if R == "STR" else 0
        L = lambda f, r=R: {("load", ("fld", x, r, f), "cur"): 1}
        g = [("ge", ladd(lsub(L("len"), end), {1: slack}))]
        if write:
            g.append(("ge", lsub(L("alloc") if R == "PNTuple" else L("siz", "PNBytes"), end)))
            g += s.fresh(F, x, end)
        return g

    def fresh(s, F, x, end):
        """the size an object was allocated with"""
        if x[0] != "call" or x[1] not in ALLOC or x[2] not in F.val: return []
        X = s.B.norm(F)
        J = F.val[x[2]]
        R = s.recof(J)
        if R is None: return []
        st = s.P.structs[R]
        off = next(f["off"] for f in st["fields"] if f["n"] == DATA[R][0])
        S = lin(X.o(J.args[ALLOC[x[1]]]))
        return [("ge", ladd(ladd(S, {1: -off}), {y: c * DATA[R][1] for y, c in end.items()}, -1))]

    def recof(s, J):
        v = J.args[1].get("c") if isinstance(J.args[1], dict) else None
        from ..layout import TAGS
        return {TAGS["TTUPLE"]: "PNTuple", TAGS["TSTRING"]: "PNString", TAGS["TBYTES"]: "PNBytes"}.get(v)

    def prove(s, F, I, goals, what, key, where=None):
        Q = s.B.q(F)
        goals = [(k, fz2(Q, l)) for k, l in goals]
        s.ctx.count("inequalities")
        need = None
        if F.name not in s.B.taken or F.name in s.B.direct_only: pass
        got = []

        def absorb(gs, facts):
            for k, l in gs:
                if k == "ge" and any(a != 1 for a, c in l) and all(a == 1 or argonly(a) for a, c in l):
                    got.append(dict(l)); return True
            return False
        if Q.holds(I, goals) is None: return True
        if F.name not in s.B.taken and Q.holds(I, goals, need=absorb) is None:
            for l in got: s.need(F, l, what, key, where or I.where)
            return True
        s.ctx.report(key, where or I.where, what)
        return False

    def need(s, F, l, what, key, where):
        k = (F.name, fz(l))
        if k in s.needs: return
        s.needs[k] = (what, key, where)
        s.todo.append((F, l, what, key, where))

    def callers(s):
        while s.todo:
            F, l, what, key, where = s.todo.pop()
            for C, I in s.sites.get(F.name, ()):
                if C.unit in s.skip: continue
                X = s.B.norm(C)
                m = {("arg", k): X.o(a) for k, a in enumerate(I.args)}
                g = {}
                for a, c in l.items():
                    if a == 1: g = ladd(g, {1: c}); continue
                    y = sub(a, m)
                    g = ladd(g, lin(X.n(y)), c)
                s.prove(C, I, [("ge", g)], what + ", as %s calls it" % C.name, key + "<" + C.name, where)

    def run(s, skip=SKIP):
        ctx, P = s.ctx, s.P
        s.skip = skip
        s.sites = {}
        s.B.direct_only = ()
        for F in P:
            for I in F.instrs():
                if I.op == "call" and I.callee:
                    T = P.resolve(F, I.callee)
                    if T is not None: s.sites.setdefault(T.name, []).append((F, I))
        for F in P:
            if F.unit in skip: continue
            s.function(F)
        s.sizes()
        s.callers()

    def sizes(s):
        """a number of bytes or elements handed to a function that allocates or copies that many is not negative"""
        par = {}
        ch = True
        while ch:
            ch = False
            for F in s.P:
                if F.unit == "core/gc.c": continue
                un = [k for k in range(F.nparams) if unsigned(F.param_type(k))]
                if not un: continue
                X = s.B.norm(F)
                for I in F.instrs():
                    if I.op != "call" or not I.callee: continue
                    nm = I.callee.split(".p0")[0].replace("llvm.", "")
                    T = s.P.resolve(F, I.callee)
                    ks = {ALLOC[nm]} if nm in ALLOC else {x[1] for x in OPS.get(nm, ()) if isinstance(x[1], int)} if nm in OPS else par.get(T.name, ()) if T is not None else ()
                    for k in ks:
                        if k >= len(I.args): continue
                        l = lin(X.o(I.args[k]))
                        for u in un:
                            if l.get(("arg", u), 0) > 0 and u not in par.get(F.name, ()): par.setdefault(F.name, set()).add(u); ch = True
        for F in s.P:
            if F.unit in SKIP: continue
            X = s.B.norm(F)
            for I in F.instrs():
                if I.op != "call" or not I.callee: continue
                T = s.P.resolve(F, I.callee)
                for k in sorted(par.get(T.name, ())) if T is not None else ():
                    l = lin(X.o(I.args[k]))
                    if not any(c < 0 for c in l.values()): continue
                    if any(a != 1 and (a[0] in ("idx", "fld") or a[0] == "phi" and F.val[a[1]].get("ty") == "ptr") for a in l): continue      # a distance between pointers
                    s.ctx.count("sizes computed for calls")
                    s.prove(F, I, [("ge", l)], "the size %s handed to %s may be negative" % (shown(s, F, l), T.name), "%s|size of %s" % (F.name, T.name))

    def function(s, F):
        ctx, X = s.ctx, s.B.norm(F)
        n = 0
        for I in F.instrs():
            if I.op in ("load", "store"):
                a, off = place(X.o(I["ops"][0 if I.op == "load" else 1]))
                if array(a):
                    n += 1
                    ctx.count("element accesses")
                    w = I.op == "store"
                    txt = "%s of element %s of the %s %s" % ("write" if w else "read", shown(s, F, off), "list" if a[2] == "PNTuple" else "string", show(a[1], F, s.P))
                    key = "%s|%s %s" % (F.name, "write" if w else "read", a[2])
                    s.prove(F, I, [("ge", off)], txt + ": the index may be negative", key + "|low")
                    if s.usedbuckets(F, I, a[1], off): ctx.count("accesses per used bucket of a table"); continue
                    s.prove(F, I, s.goals(F, I, a[1], a[2], ladd(off, {1: 1}), w), txt + ": the index may lie beyond the %s" % ("capacity" if w else "length"), key + "|high")
                if I.op == "store": s.field(F, I)
            elif I.op in ("call", "invoke") and I.callee:
                nm = I.callee.split(".p0")[0].replace("llvm.", "")
                for p, ln, rw in OPS.get(nm, ()):
                    if p >= len(I.args): continue
                    lns = () if ln is None else ln if isinstance(ln, tuple) else (ln,)
                    for J, pe, le in s.ways(F, I, X.o(I.args[p]), [X.o(I.args[j]) for j in lns]):
                        a, off = place(pe)
                        if not array(a): continue
                        ctx.count("block accesses")
                        key = "%s|%s %s" % (F.name, nm, a[2])
                        txt = "%s %s the %s %s from %s on" % (nm, "writes to" if rw == "w" else "reads", "list" if a[2] == "PNTuple" else "string", show(a[1], F, s.P), shown(s, F, off))
                        if ln is None:
                            ctx.report(key + "|unbounded", I.where, txt + " without a bound"); continue
                        k = 8 if a[2] == "PNTuple" else 1
                        l = [lin(e) for e in le]
                        var = [q for q in l if set(q) - {1}]
                        c = 1
                        for q in l:
                            if not set(q) - {1}: c *= q.get(1, 0)
                        low, high, size = (x % txt for x in ("%s: the start may be negative", "%s: it may run beyond the " + ("capacity" if rw == "w" else "length"), "%s: the number of bytes may be negative"))
                        s.prove(F, J, [("ge", off)], low, key + "|low")
                        if len(var) > 1:
                            # so many items of such a size: none negative, and no more items than the length divided by the size
                            for q in var: s.prove(F, J, [("ge", q)], size, key + "|size")
                            g = []
                            for R in {a[2]} | ({"PNBytes"} if a[2] == "STR" and rw == "w" else set()):
                                L = ("load", ("fld", a[1], R, "siz" if R == "PNBytes" else "alloc" if rw == "w" and R == "PNTuple" else "len"), "cur")
                                for q, o in ((0, 1), (1, 0)):
                                    e = [y for y in le if lin(y) == var[o]][0]
                                    for op in ("sdiv", "udiv"): g.append(("ge", lsub({("bin", op, L, e): 1}, var[q])))
                            if c != 1 or off: g = []
                            s.prove(F, J, g, high, key + "|high")
                            continue
                        N = divl({y: v * c for y, v in var[0].items()} if var else {1: c}, k)
                        if N is None: continue
                        s.prove(F, J, [("ge", N)], size, key + "|size")
                        s.prove(F, J, s.goals(F, J, a[1], a[2], ladd(off, N), rw == "w"), high, key + "|high")
        return n

    def ways(s, F, I, e, le, deep=0):
        """the address and lengths a call is given, one for each way to it that chooses the address"""
        if e[0] != "phi" or deep > 4: return [(I, e, le)]
        X = s.B.norm(F)
        p = F.val[e[1]]
        at = {q.id: q for q in F.blocks[p.bb].ins if q.op == "phi"}
        out = []
        for b, o in p["in"]:
            v = X.o(o)
            if v[0] != "phi" and not array(place(v)[0]): continue
            if v == e: continue
            T = F.blocks[b].ins[-1]
            m = []
            for y in le:
                q = at.get(y[1]) if y[0] == "phi" else None
                m.append(X.o(next(w for c, w in q["in"] if c == b)) if q is not None else s.sooner(F, p, y))
            out += s.ways(F, T, v, m, deep + 1)
        return out

    def sooner(s, F, p, e):
        """the expression as of the start of phi p's block: what is read there later, with nothing written meanwhile, is what memory holds now"""
        if not isinstance(e, tuple): return e
        if e[0] == "load" and len(e) == 3 and e[2] in F.val and F.val[e[2]].bb == p.bb:
            Q = s.B.q(F)
            c = ("load", e[1], "cur")
            for J in F.blocks[p.bb].ins:
                if J.id == e[2] and J.op == "load": return c
                if J.op in ("store", "call", "invoke") and Q.killed(c, J): break
            return e
        return tuple(s.sooner(F, p, x) for x in e)

    def field(s, F, I):
        """stores of lengths and capacities"""
        X, E = s.B.norm(F), s.ctx.ex(F)
        raw = E.o(I["ops"][1])
        if raw[0] != "fld" or raw[2] not in DATA: return
        R, f = raw[2], raw[3]
        a = X.o(I["ops"][1]); x = a[1]
        v = lin(X.o(I["ops"][0]))
        rx = raw[1]
        key = "%s|%s.%s" % (F.name, R, f)
        if f == "len":
            s.ctx.count("lengths stored")
            txt = "the length %s stored in %s" % (shown(s, F, v), show(x, F, s.P))
            s.prove(F, I, [("ge", v)], txt + " may be negative", key + "|low")
            end = v if R == "PNTuple" else ladd(v, {1: 1})
            g = s.fresh(F, x, end)
            if R == "PNTuple": g += [("ge", lsub({("load", ("fld", x, R, "alloc"), "cur"): 1}, v)), ("ge", lsub({("load", ("fld", x, R, "len"), "cur"): 1}, v))]
            elif R == "PNBytes": g += [("ge", lsub({("load", ("fld", x, R, "siz"), "cur"): 1}, end)), ("ge", lsub({("load", ("fld", x, "STR", "len"), "cur"): 1}, v))]
            else: g += [("ge", lsub({("load", ("fld", x, "STR", "len"), "cur"): 1}, v))]
            s.prove(F, I, g, txt + " may exceed the capacity", key + "|high")
        elif f == CAP.get(R):
            s.ctx.count("capacities stored")
            g = s.fresh(F, x, v) + [("ge", lsub({("load", ("fld", x, R, f), "cur"): 1}, v))]
            # after a reallocation of the same object
            for J in F.instrs():
                if J.op == "call" and J.callee == "potion_gc_realloc" and F.dominates(J, I) and X.o(J.args[2]) in s.leaves(F, x):
                    off = next(y["off"] for y in s.P.structs[R]["fields"] if y["n"] == DATA[R][0])
                    S = lin(X.o(J.args[3]))
                    g.append(("ge", ladd(ladd(S, {1: -off}), {y: c * DATA[R][1] for y, c in v.items()}, -1)))
            s.prove(F, I, g, "the capacity %s stored in %s may exceed what was allocated" % (shown(s, F, v), show(x, F, s.P)), key + "|cap")

    def leaves(s, F, x):
        X = s.B.norm(F)
        return X.leaf(x, set()) | {x} if x[0] == "phi" else {x}

    def usedbuckets(s, F, I, x, off):
        """one element per used bucket of a table, in a list made as long as the table has entries"""
        if x[0] != "call" or len(off) != 1: return False
        (i, c), = off.items()
        if i == 1 or i[0] != "phi" or c != 1: return False
        X = s.B.norm(F)
        J = F.val[x[2]]
        sz = [a for a in J.args if has(X.o(a), lambda y: y[0] == "load" and len(y) == 3 and y[1][0] == "fld" and y[1][3] == "size")]
        if not sz: return False
        for b, blk in F.blocks.items():
            T = blk.ins[-1]
            if T.op != "br" or "cond" not in T.d or T["succ"][0] == T["succ"][1]: continue
            if not has(X.o(T["cond"]), lambda y: y[0] == "call" and isinstance(y[1], str) and y[1].startswith(("kh_exist", "kh_flag"))): continue
            if any(d == I.bb or d in F.dom().get(I.bb, ()) for d in T["succ"] if len(F.blocks[d].preds) == 1): return True
        return False


def divl(l, k):
    if k == 1: return l
    if any(c % k for c in l.values()): return None
    return {a: c // k for a, c in l.items()}


def fz2(Q, l):
    r = {}
    for a, c in l.items():
        if a == 1: r = ladd(r, {1: c})
        else: r = ladd(r, lin(Q.canon(a)), c)
    return r


def argonly(e):
    if not isinstance(e, tuple): return True
    if e[0] in ("arg", "c"): return True
    if e[0] == "load": return e[-1] == "cur" and argonly(e[1])
    if e[0] in ("fld", "bin", "idx", "strlen"): return all(argonly(x) for x in e[1:] if isinstance(x, tuple))
    return False


def shown(s, F, l):
    out = []
    for a, c in sorted(l.items(), key=str):
        t = str(c) if a == 1 else ("" if c == 1 else "-" if c == -1 else "%d*" % c) + show(a, F, s.P)
        out.append(t)
    return " + ".join(out) or "0"


def run(ctx):
    C = Check(ctx)
    C.run()
    ctx.floor("element accesses", 60)
