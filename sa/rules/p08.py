"""P08: native methods read an argument or receiver as a kind of object only when it is known to be one."""
from ..core import *
from ..facts import *
from ..heap import *
from ..layout import *

RULE = ("for every native method a program can call and every path to a read or write of a field of the record of some kind through one of its "
        "arguments (in it or in a function it passes the argument on to), a branch on the way must have established that the argument is of that kind; "
        "the receiver counts as established when the method is registered on the class of that kind")
ASSUME = ("messages reach a method only through the class it is registered on or one derived from it",
          "the collector's own functions (core/gc.c), which work on any kind by its header, are decided by P01",
          "records of extension modules are accepted when any test of the argument's type has been made")

HEADER = ("vt", "uniq")


def inward(F, v):
    """where an address that is carried on, to be read or written elsewhere, leaves for there"""
    for U in F.uses().get(v, ()):
        if U.op == "phi":
            for p, o in U["in"]:
                if o.get("v") == v: yield F.blocks[p].ins[-1]
        elif U.op == "getelementptr" or U.op in CASTS: yield from inward(F, U.id)
        elif U.op in ("select", "ret") or U.op == "store" and U["ops"][0].get("v") == v: yield U
        elif U.op == "call" and any(a.get("v") == v for a in U.args) and not (U.callee or "").startswith("llvm.dbg"): yield U


class Kinds:
    def __init__(s, ctx):
        s.ctx, s.P = ctx, ctx.P
        s.HS = heap_structs(s.P)
        s.rec = {}
        for t, r in RECORD.items(): s.rec.setdefault(r, set()).add(TAGS[t])
        s.memo, s.tst, s.needs, s.calls, s.notnil, sites = {}, {}, {}, {}, {}, {}
        for F in s.P:
            X = ctx.ex(F)
            for I in F.instrs():
                if I.op in ("load", "store", "getelementptr"):
                    gep = I.op == "getelementptr"
                    r = s.record(X.v(I.id) if gep else X.o(I["ops"][0 if I.op == "load" else 1]))
                    if r and r[1] not in HEADER and r[0] in s.rec and r[0] != "PNDouble":
                        b = s.unfwd(F, X, r[2])
                        ks = s.argleaves(F, X, b)
                        if not gep: ctx.count("field accesses of heap records")
                        for U in (dict.fromkeys(inward(F, I.id)) if gep and ks else () if gep else (I,)):
                            if gep: ctx.count("addresses in heap records carried on")
                            for k in ks: sites.setdefault(F.name, []).append((U, k, b, r[0], r[1], gep))
                elif I.op == "call" and I.callee:
                    C = s.P.resolve(F, I.callee)
                    if C is None: continue
                    for j, a in enumerate(I.args):
                        b = s.unfwd(F, X, X.o(a))
                        if j < len(C.params):
                            for k in s.argleaves(F, X, b): s.calls.setdefault(C.name, []).append((F, I, k, b, j))
        work = []
        for fn, ss in sites.items():
            F = s.P.funcs[fn]
            if s.generic(F): continue
            for I, k, b, S, f, gep in ss:
                tags = s.same(S, f)
                if gep and f == "chars": tags = tuple(sorted({TAGS["TSTRING"], TAGS["TBYTES"]}))
                elif gep: tags = tuple(sorted(s.rec[S]))
                key = (fn, k, tags)
                if key in s.notnil and not s.notnil[key]: continue
                if not s.established(F, I, k, b, tags):
                    nil = b[0] == "arg" and Query(s.ctx, F).holds(I, [("ne", {b: 1})]) is None
                    if key not in s.notnil:
                        s.needs.setdefault((fn, k), {})[tags] = ((F.name, I.where), S, f)
                        work.append(key)
                    s.notnil[key] = s.notnil.get(key, True) and nil
        while work:
            fn, k, tags = work.pop()
            nil = s.notnil[fn, k, tags]
            for F, I, ak, b, j in s.calls.get(fn, ()):
                key = (F.name, ak, tags)
                if j != k or key in s.notnil and s.notnil[key] <= nil or s.generic(F): continue
                if not s.established(F, I, ak, b, tags, nil):
                    s.needs.setdefault((F.name, ak), {})[tags] = s.needs[fn, k][tags]
                    s.notnil[key] = nil
                    work.append(key)

    def generic(s, F): return F.file == "core/gc.c"

    def record(s, a):
        """(record, field, object) an address lies in"""
        while a[0] == "idx": a = a[1]
        if a[0] != "fld": return None
        if a[2] in s.HS: return a[2], a[3], a[1]
        return s.record(a[1])

    def unfwd(s, F, X, e):
        while e[0] == "call" and e[1] == "potion_fwd": e = X.o(F.val[e[2]].args[0])
        return e

    def same(s, S, f):
        """the kinds whose record has this field in this place"""
        st = s.P.structs
        o = next((x for x in st[S]["fields"] if x["n"] == f), None)
        out = set(s.rec[S])
        for R, ts in s.rec.items():
            if o and R in st and any(x["n"] == f and x["off"] == o["off"] and x["sz"] == o["sz"] for x in st[R]["fields"]): out |= ts
        return tuple(sorted(out))

    def tests(s, F):
        """arguments of which some condition of F looks at the type"""
        r = s.tst.get(F.name)
        if r is None:
            r = s.tst[F.name] = set()
            Q, X = Query(s.ctx, F), s.ctx.ex(F)

            def go(x):
                if not isinstance(x, tuple): return
                if x[0] == "typeof":
                    if x[1][0] == "arg": r.add(x[1][1])
                    elif x[1][0] != "load": r.update(range(F.nparams))
                for y in x: go(y)
            for I in F.instrs():
                for o in (I["ops"] if I.op == "icmp" else [I["cond"]] if I.op == "switch" else []): go(Q.canon(X.o(o)))
        return r

    def argleaves(s, F, X, b):
        """the arguments an object expression can be"""
        if b[0] == "arg": return (b[1],)
        if b[0] not in ("phi", "select"): return ()
        return tuple(sorted(x[1] for x in s.leaf(F, X, b, set()) if x[0] == "arg"))

    def leaf(s, F, X, b, seen):
        b = s.unfwd(F, X, b)
        if b in seen: return set()
        seen.add(b)
        if b[0] == "phi": return set().union(*[s.leaf(F, X, X.o(o), seen) for _, o in F.val[b[1]]["in"]])
        if b[0] == "select": return s.leaf(F, X, b[2], seen) | s.leaf(F, X, b[3], seen)
        return {b}

    def established(s, F, I, k, b, tags, nil=False):
        """on every path to I the object b is of one of these kinds (or nil)"""
        if b[0] == "arg" and k not in s.tests(F): return False
        key = (F.name, I.id if I.id is not None else I.bb, b, tags, nil)
        if key not in s.memo:
            s.ctx.count("path queries")
            Q = Query(s.ctx, F)
            ty = ("typeof", Q.canon(b))
            goals = [("eq", ladd({ty: 1}, {1: -t})) for t in tags]
            if nil: goals.append(("eq", {Q.canon(b): 1}))
            if tags == (TAGS["TUSER"],):
                # a class of an extension: any type the argument has been compared with
                X = s.ctx.ex(F)
                for J in F.instrs():
                    if J.op == "icmp":
                        a, b = (Q.canon(X.o(o)) for o in J["ops"])
                        for x, y in ((a, b), (b, a)):
                            if x == ty and y[0] == "load": goals.append(("eq", lsub({ty: 1}, lin(y))))
            # where the object is something else than the argument, that is not this method's caller's doing
            def other(g):
                for x, c in g[1]:
                    if x != 1 and x[0] == "typeof": return x[1][0] not in ("arg", "phi", "select")
                return False
            s.memo[key] = Q.holds(I, goals, accept=other if b[0] != "arg" else None) is None
        return s.memo[key]


def receivers(ctx, ms):
    """the kinds a method's receiver can be of, or None for any"""
    onobject = {m["name"] for m in ms if m["rcv"] == TAGS["TOBJECT"] - TNIL}

    def go(m):
        r = m["rcv"]
        if isinstance(r, tuple) and r[0] == "meta": return {TAGS["TVTABLE"]}
        if isinstance(r, tuple): return {TAGS["TVTABLE"]} if r[1][:2] == ("call", "potion_type_new") else {TAGS["TUSER"]}
        if r == "lobby" and m["name"] in onobject: return {TAGS["TVTABLE"]}
        if r in (None, "lobby") or not isinstance(r, int): return None
        t = TNIL + r
        if t == TAGS["TOBJECT"]: return None
        return {t}
    return go


def run(ctx):
    P = ctx.P
    K = Kinds(ctx)
    ms = methods(ctx)
    rk = receivers(ctx, ms)
    byfn = {}
    for m in ms: byfn.setdefault(m["fn"], []).append(m)
    done = set()
    for fn, sg, I, F in registrations(ctx):
        T = P.resolve(F, fn)
        if T is None or fn in done: continue
        done.add(fn)
        ctx.count("native methods")
        for k in range(3, len(T.params)):
            ctx.count("arguments")
            for tags, ((g, at), S, f) in K.needs.get((T.name, k), {}).items():
                ctx.report("%s|argument %d read as %s" % (fn, k - 2, S), at,
                           "the native method %s (registered at %s) reads its argument %d (%s) as a %s%s without having established that it is one" % (
                               fn, I.where, k - 2, T.param_name(k), S, "" if g == T.name else " in %s" % g))
        for m in byfn.get(fn, ()):
            kinds = rk(m)
            if kinds is None and m["name"] is None: continue        # constructors: called on classes
            ctx.count("receivers")
            for tags, ((g, at), S, f) in K.needs.get((T.name, 2), {}).items():
                if kinds is None or not kinds <= set(tags):
                    ctx.report("%s|receiver read as %s" % (fn, S), at,
                               "the native method %s, registered as %r on %s, reads its receiver as a %s%s without having established that it is one" % (
                                   fn, m["name"], "the class of " + "/".join(TAGNAME.get(t, str(t)) for t in kinds) if kinds else "a class of any object", S,
                                   "" if g == T.name else " in %s" % g))
    ctx.floor("native methods", 150); ctx.floor("arguments", 150); ctx.floor("receivers", 150); ctx.floor("field accesses of heap records", 500)
