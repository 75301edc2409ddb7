"""P12: strings with the same characters are one object, and its characters never change."""
from ..core import *
from ..heap import *
from ..ir import show
from ..facts import Query, lin, ladd
from ..layout import TAGS

RULE = """(1) Every allocation of a string is followed: before the new object leaves the function (returned, stored, merged with another value, passed on) it must have been entered into the table of all strings,
behind a lookup there that returned nothing; the lookup must be of the new object's own characters, complete, or of the characters that are copied into it; nothing that may enter a string may be called between
lookup and entry, and the object is not written after the entry.  (2) The lookup answers nil only where the probe reached the end, and otherwise the key found; only the entry adds to the table, only the
collector removes from it.  (3) No store, block copy or library call writes through an address inside a string: the target of every write to characters is a byte string (by type, allocation or test) or a string
not yet entered."""
ASSUME = ("library functions write only through the parameters the C library documents",
          "a record accessed as a byte string is one (P08 decides that for arguments)")
ADD, LOOKUP = "potion_add_str", "potion_lookup_str"
# library functions that write through their first argument (or the given ones)
WRITERS = {"strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "sprintf": (0,), "snprintf": (0,), "vsnprintf": (0,), "vsprintf": (0,), "memcpy": (0,), "memmove": (0,), "memset": (0,), "bzero": (0,),
           "read": (1,), "fread": (0,), "fgets": (0,), "strtok": (0,), "recv": (1,), "realpath": (1,), "getcwd": (0,), "readlink": (1,), "scanf": (), "stpcpy": (0,), "gets": (0,), "strtok_r": (0,), "qsort": (0,),
           "dirname": (0,), "basename": (0,), "free": (0,), "realloc": (0,)}


def memwrite(I):
    c = I.callee or ""
    if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): return (0,)
    c = c.replace("__", "").replace("_chk", "")
    return WRITERS.get(c, ())


class Chars:
    """in one function: values that are addresses of characters -> the objects (expressions) they lie in, or parameters"""
    def __init__(s, A, F):
        s.A, s.F, s.X = A, F, A.ctx.ex(F)
        s.m = {}
        ch = True
        for k in range(F.nparams):
            if "*" in str(F.param_type(k) or "") or str(F.param_type(k) or "") == "ptr": s.m[s.pid(k)] = {("param", k)}
        s.slots = {}
        while ch:
            ch = False
            for b in F.rpo():
                for I in F.blocks[b].ins:
                    if I.op == "store":
                        k = s.slot(I["ops"][1])
                        o = s.of(I["ops"][0])
                        if k is not None and o - s.slots.get(k, set()): s.slots[k] = s.slots.get(k, set()) | o; ch = True
                        continue
                    o = s.origin(I)
                    if o - s.m.get(I.id, set()): s.m[I.id] = s.m.get(I.id, set()) | o; ch = True

    def pid(s, k): return s.F.params[k]["i"] if isinstance(s.F.params[k], dict) else s.F.params[k]

    def slot(s, op):
        J = s.F.val.get(op.get("v")) if isinstance(op, dict) else None
        return J.id if J is not None and J.op == "alloca" else None

    def of(s, op): return s.m.get(op.get("v"), set()) if isinstance(op, dict) else set()

    def origin(s, I):
        if I.op == "call" and I.callee == "potion_str_ptr": return {("obj", s.X.o(I.args[1] if len(I.args) > 1 else I.args[0]), I.id)}
        if I.op == "call" and I.callee:
            T = s.A.P.resolve(s.F, I.callee)
            r = set()
            if T is None:
                if I.callee in ("strchr", "strrchr", "strstr", "memchr", "strpbrk") and I.args: r |= s.of(I.args[0])
                return r
            for k in s.A.rets.get(T.name, ()):
                if isinstance(k, int):
                    if k < len(I.args): r |= s.of(I.args[k])
                else: r.add(("obj", ("call", T.name, I.id), I.id))
            return r
        if I.op == "load": return set(s.slots.get(s.slot(I["ops"][0]), ()))
        if I.op == "getelementptr":
            r = set()
            e = s.X.o({"v": I.id})
            while e[0] == "idx": e = e[1]
            if e[0] == "fld" and e[2:] == ("PNString", "chars"): r.add(("obj", e[1], I.id))
            else: r |= s.of(I["base"])
            return r
        if I.op == "phi": return set().union(*[s.of(o) for _, o in I["in"]])
        if I.op == "select": return set().union(*[s.of(o) for o in I["ops"][1:]])
        if I.op in ("bitcast", "freeze"): return set(s.of(I["ops"][0]))
        return set()


class All:
    def __init__(s, ctx):
        s.ctx, s.P = ctx, ctx.P
        s.rets, s.writes = {}, {}
        s.chars = {}

    def bytes(s, F, X, I, e, Q):
        """the object is a byte string (or a string this function has just made)"""
        for e in value_leaves(F, X, e):
            while e[0] == "call" and e[1] == FWD: e = X.o(F.val[e[2]].args[0])
            if e[0] == "fld": e = e[1]
            if e[0] == "call" and isinstance(e[1], str):
                J = F.val[e[2]]
                if e[1] == "potion_gc_alloc":
                    t = X.o(J.args[1])
                    if t[0] == "c" and t[1] in (TAGS["TBYTES"], TAGS["TSTRING"]): continue
                T = s.P.resolve(F, e[1])
                if T is not None and s.makesbytes(T): continue
            if e[0] == "c" and e[1] == 0: continue
            g = [("eq", ladd({("typeof", Q.canon(e)): 1}, {1: -TAGS["TBYTES"]}))]
            if Q.holds(I, g) is None: continue
            return False
        return True

    def makesbytes(s, T):
        if not hasattr(s, "_mb"): s._mb = {}
        if T.name in s._mb: return s._mb[T.name]
        s._mb[T.name] = False
        X = s.ctx.ex(T)
        ok, n = True, 0
        for J in T.instrs():
            if J.op == "ret" and J["ops"]:
                for e in value_leaves(T, X, X.o(J["ops"][0])):
                    n += 1
                    if e[0] == "call" and e[1] == "potion_gc_alloc":
                        t = X.o(T.val[e[2]].args[1])
                        if t[0] == "c" and t[1] == TAGS["TBYTES"]: continue
                    if e[0] == "call" and isinstance(e[1], str):
                        U = s.P.resolve(T, e[1])
                        if U is not None and s.makesbytes(U): continue
                    ok = False
        s._mb[T.name] = ok and n > 0
        return s._mb[T.name]

    def run(s):
        P, ctx = s.P, s.ctx
        fs = [F for F in P if F.file not in ("core/gc.c",)]
        ch = True
        while ch:
            ch = False
            for F in fs:
                C = s.chars[F.name] = Chars(s, F)
                for I in F.instrs():
                    if I.op == "ret" and I["ops"]:
                        for o in C.of(I["ops"][0]):
                            k = o[1] if o[0] == "param" else "obj"
                            if k not in s.rets.setdefault(F.name, set()): s.rets[F.name].add(k); ch = True
                    for op, _ in s.written(C, F, I):
                        for o in C.of(op):
                            if o[0] == "param" and o[1] not in s.writes.setdefault(F.name, set()): s.writes[F.name].add(o[1]); ch = True
        for F in fs:
            C = s.chars[F.name]
            Q = None
            for I in F.instrs():
                for op, what in s.written(C, F, I):
                    for o in C.of(op):
                        if o[0] != "obj": continue
                        ctx.count("writes to characters")
                        Q = Q or Query(ctx, F)
                        if s.bytes(F, C.X, I, o[1], Q): continue
                        ctx.report("%s|%s" % (F.name, what), I.where, "%s may change the characters of a string that programs already hold (%s of %s)" % (F.name, what, show(o[1], F, P)))

    def written(s, C, F, I):
        if I.op == "store": return [(I["ops"][1], "store")]
        if I.op != "call": return []
        out = [(I.args[k], I.callee) for k in memwrite(I) if k < len(I.args)]
        if I.callee:
            T = s.P.resolve(F, I.callee)
            if T is not None: out += [(I.args[k], I.callee) for k in s.writes.get(T.name, ()) if k < len(I.args)]
        return out


def entering(ctx):
    """(1)"""
    P = ctx.P
    adders = closure_to(P, {ADD}, indirect_counts=True)
    for F in P:
        X = ctx.ex(F)
        for I in F.instrs():
            if I.op != "call" or I.callee not in ("potion_gc_alloc", "potion_gc_realloc"): continue
            if F.name in ("potion_gc_alloc", "potion_gc_realloc"): continue
            t = X.o(I.args[1])
            if ("c", TAGS["TSTRING"]) not in value_leaves(F, X, t): continue
            ctx.count("string allocations")
            entered(ctx, F, X, I, adders)
    ctx.floor("string allocations", 3)


def uses(F, I):
    """(instruction, operand index) pairs that use the value, through casts"""
    out, todo = [], [I.id]
    seen = set()
    while todo:
        v = todo.pop()
        if v in seen: continue
        seen.add(v)
        for J in F.instrs():
            if J.op == "phi":
                for p, o in J["in"]:
                    if o.get("v") == v: out.append((J, ("in", p)))
                continue
            if J.op == "getelementptr":
                if J["base"].get("v") == v: out.append((J, "gep"))
                continue
            ops = J.args if J.op in ("call", "invoke") else J.get("ops", ()) or ()
            for k, o in enumerate(ops):
                if isinstance(o, dict) and o.get("v") == v:
                    if J.op in ("ptrtoint", "inttoptr", "bitcast", "freeze"): todo.append(J.id)
                    elif J.op == "call" and J.callee == FWD: todo.append(J.id)
                    else: out.append((J, k))
    return out, seen


def before(F, A, B):
    """A is executed on every path to B"""
    if A.bb == B.bb: return pos(F, A) < pos(F, B)
    return A.bb in F.dom()[B.bb]


def pos(F, I): return I.pos


def between(F, A, B):
    """instructions on paths from A to B"""
    a, b = pos(F, A), pos(F, B)
    if A.bb == B.bb and a < b: return F.blocks[A.bb].ins[a + 1:b]
    out = list(F.blocks[A.bb].ins[a + 1:]) + list(F.blocks[B.bb].ins[:b])
    fwd = F.reach_from(A.bb)
    for c in fwd:
        if c in (A.bb, B.bb): continue
        if B.bb in F.reach_from(c): out += F.blocks[c].ins
    return out


def entered(ctx, F, X, I, adders):
    us, same = uses(F, I)
    Q = Query(ctx, F)
    me = X.o({"v": I.id})
    def chars(e):
        while e[0] == "idx": e = e[1]
        if e[0] == "call" and e[1] == "potion_str_ptr": e = X.o(F.val[e[2]].args[-1]); return own(e)
        return e[0] == "fld" and e[2:] == ("PNString", "chars") and own(e[1])
    def own(e):
        while e[0] == "call" and e[1] == FWD: e = X.o(F.val[e[2]].args[0])
        return e == me
    good = []
    writes = [J for J in F.instrs() if (J.op == "store" and isown(X.o(J["ops"][1]), chars, own)) or (J.op == "call" and any(k < len(J.args) and chars(X.o(J.args[k])) for k in memwrite(J)))]
    cwrites = [J for J in writes if chars(X.o(J["ops"][1] if J.op == "store" else J.args[memwrite(J)[0]]))]
    for J, k in us:
        if not (J.op == "call" and J.callee == ADD and k == 1): continue
        why = "without a lookup"
        for L in F.calls(LOOKUP):
            if not before(F, L, J): continue
            if Q.holds(J, [("eq", lin(Q.canon(X.o({"v": L.id}))))]) is not None:
                why = "though the lookup may have found one"; continue
            a = X.o(L.args[1])
            mid = between(F, L, J)
            if chars(a):
                late = [W for W in cwrites if W in mid]
                if late or not cwrites: why = "after a lookup before its characters were complete"; continue
            else:
                src = [W for W in cwrites if W.op == "call" and len(W.args) > 1 and text(Q, F, X, X.o(W.args[1])) == text(Q, F, X, a) and before(F, W, J)]
                if not src: why = "after a lookup of other characters than are copied into it"; continue
            if any(M.op == "call" and "asm" not in M.d and (M.callee is None or (P_name(ctx, F, M.callee) in adders)) and M.callee not in ("potion_gc_alloc",) for M in mid):
                why = "after a call that may enter a string since the lookup"; continue
            why = None; break
        if why: ctx.report("%s|entered %s" % (F.name, why), J.where, "%s enters a new string into the table of all strings %s" % (F.name, why))
        good.append(J)
    for W in writes:
        for J in good:
            if W in after(F, J): ctx.report("%s|written" % F.name, W.where, "%s writes a string after entering it into the table of all strings" % F.name)
    for J, k in us:
        if k == "gep" or (J.op == "call" and J.callee == ADD): continue
        if J.op == "icmp" or J.op == "load": continue
        if J.op == "store" and k == 1: continue
        if J.op == "call" and J.callee in ("potion_str_ptr", "potion_gc_update"): continue
        if J.op == "phi":
            p = k[1]
            ok = any(g.bb == p or g.bb in F.dom()[p] for g in good)
        else: ok = any(before(F, g, J) for g in good)
        if not ok:
            ctx.report("%s|not entered" % F.name, J.where, "a string made by %s leaves it without having been entered into the table of all strings, so a second object may have the same characters" % F.name)


def text(Q, F, X, e):
    """an address of characters, by the object it is asked of"""
    if e[0] == "call" and e[1] == "potion_str_ptr":
        e = X.o(F.val[e[2]].args[-1])
        while e[0] == "call" and e[1] == FWD: e = X.o(F.val[e[2]].args[0])
        return ("text", Q.canon(e))
    return Q.canon(e)


def P_name(ctx, F, c):
    T = ctx.P.resolve(F, c)
    return T.name if T else c


def isown(a, chars, own):
    if chars(a): return True
    e = a
    while e[0] == "idx": e = e[1]
    return e[0] == "fld" and own(e[1])


def after(F, J):
    p = pos(F, J)
    out = list(F.blocks[J.bb].ins[p + 1:])
    for c in F.reach_from(J.bb):
        if c != J.bb: out += F.blocks[c].ins
    return out


def table(ctx):
    """(2)"""
    P = ctx.P
    F = P.f(LOOKUP); X = ctx.ex(F)
    Q = Query(ctx, F)
    gets = list(F.calls("kh_get_str"))
    if len(gets) != 1: ctx.report("lookup|probe", F.file, "the lookup of a string does not probe the table of all strings once")
    else:
        G = gets[0]
        ctx.count("table accesses")
        def strings(e): return e[0] == "load" and e[1][0] == "fld" and e[1][2:] == ("Potion_State", "strings")
        if not strings(X.o(G.args[1])): ctx.report("lookup|table", G.where, "the lookup of a string probes another table than that of all strings")
        a = X.o(G.args[2])
        if a != ("arg", 1): ctx.report("lookup|key", G.where, "the lookup of a string probes for other characters than asked for")
        k = X.o({"v": G.id})
        n = end(F, X, G)
        for I in F.instrs():
            if I.op != "ret": continue
            for e in value_leaves(F, X, X.o(I["ops"][0])):
                ctx.count("table accesses")
                if e != ("c", 0) and not foundkey(F, X, e, k):
                    ctx.report("lookup|key found", I.where, "the lookup of a string answers something else than the key that the probe found")
            g = [("eq", ladd(lin(Q.canon(k)), lin(Q.canon(n)), -1)), ("ne", lin(Q.canon(X.o(I["ops"][0]))))]
            keys = lambda g: g[0] == "ne" and any(a != 1 and a[0] == "load" for a, c in g[1])
            if Q.holds(I, g, accept=keys) is not None: ctx.report("lookup|nil", I.where, "the lookup of a string answers that there is none without having reached the end of the probe")
    for F in P:
        X = ctx.ex(F)
        for I in F.instrs():
            if I.op != "call" or not I.callee: continue
            if I.callee == "kh_put_str":
                ctx.count("table accesses")
                if F.name != ADD: ctx.report("%s|put" % F.name, I.where, "%s adds to a table of strings, which only %s may" % (F.name, ADD))
                else:
                    if X.o(I.args[2]) != ("arg", 1): ctx.report("add|key", I.where, "the string entered into the table of all strings is not the one given")
            if I.callee in ("kh_del_str", "kh_clear_str"):
                ctx.count("table accesses")
                if F.file != "core/gc.c": ctx.report("%s|del" % F.name, I.where, "%s removes from the table of all strings, which only the collector may" % F.name)
    G = P.f("kh_get_str")
    if G is not None:
        X = ctx.ex(G)
        cmp = [I for I in G.instrs() if I.op == "call" and I.callee in ("strcmp", "strncmp", "memcmp", "bcmp")]
        if not cmp: ctx.report("kh_get_str|compare", G.file, "the probe does not compare the characters")
        for I in cmp:
            ctx.count("table accesses")
            if I.callee != "memcmp": ctx.report("kh_get_str|%s" % I.callee, I.where, "the probe compares characters only up to the first zero byte")


def end(F, X, G):
    """n_buckets of the table probed"""
    for I in F.instrs():
        if I.op == "load":
            e = X.o({"v": I.id})
            if e[0] == "load" and e[1][0] == "fld" and e[1][3] == "n_buckets": return e
    return ("c", -1)


def foundkey(F, X, e, k):
    return e[0] == "load" and e[1][0] == "call" and e[1][1] == "kh_key_str" and X.o(F.val[e[1][2]].args[-1]) == k


def run(ctx):
    entering(ctx)
    table(ctx)
    A = All(ctx)
    A.run()
    for f, k in sorted(A.writes.items()): ctx.sample("%s writes through its argument %s" % (f, sorted(k)))
    ctx.floor("writes to characters", 10); ctx.floor("table accesses", 5)
