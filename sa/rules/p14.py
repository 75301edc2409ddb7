"""P14: native code calls functions as themselves, and sends messages with what they require."""
from ..core import *
from ..heap import *
from ..ir import strip_ids
from ..facts import Query, ladd, leaves
from ..layout import TAGS
from .p07 import sig_args

RULE = ("(1) At every call through the code address of a function object: the first argument is the interpreter state, the second the very "
        "object the address was read from (followed to its replacement or not), and on every path to the call that object has been tested or "
        "made to be a function; what is kept in a field of an extension is a function when every store to the field stores one or nil and the "
        "path has excluded nil.  (2) Where the function was found by looking up a message, the receiver it is called with is the object the "
        "message was looked up for, and the message is a message name.  (3) A message sent by name passes at least the arguments that every "
        "native method of that name requires and reads, and not more than it names.  (4) Every function object made around native code that reads "
        "what the function carries is given room for it and has it stored right away; compiled code is entered only with a function object that "
        "carries the function it was compiled from.")
ASSUME = ("methods that a program defines under a name native code sends read at most the arguments it passes",)
CLO = TAGS["TCLOSURE"]
KEPT = ("PNVtable", "Potion_State")       # filled when made


class Calls:
    def __init__(s, ctx):
        s.ctx, s.P = ctx, ctx.P
        s.memo = {}
        strings_of_globals(s.P, ctx)

    def unfwd(s, F, X, e):
        while e[0] == "call" and e[1] == "potion_fwd": e = X.o(F.val[e[2]].args[0])
        return e

    def closure_of(s, c):
        """the object a code address was read from"""
        if c[0] == "load" and c[1][0] == "fld" and c[1][2:] == ("PNClosure", "method"): return c[1][1]
        return None

    def state(s, F, X, e):
        """is an expression the interpreter state?"""
        if e[0] == "arg": return "Potion" in (F.param_type(e[1]) or "") or F.param_name(e[1]) in ("P", "p", "mem") or s.ctyped(F, e)
        if e[0] == "load":
            a = e[1]
            if a[0] == "fld":
                st = s.P.structs.get(a[2])
                f = next((x for x in st["fields"] if x["n"] == a[3]), None) if st else None
                return f is not None and "Potion" in f["ty"]
            return a[0] == "g"
        if e[0] == "call": return e[1] in ("potion_create", "potion_gc_boot")
        if e[0] in ("phi", "select"): return all(s.state(F, X, x) for x in value_leaves(F, X, e))
        return False

    def ctyped(s, F, e): return False

    def field_ok(s, S, f, up=()):
        """is every store to a field of an extension's record a function or nil?"""
        key = (S, f)
        if key in s.memo: return s.memo[key]
        s.memo[key] = True
        for F in s.P:
            X = s.ctx.ex(F)
            for I in F.instrs():
                if I.op != "store": continue
                a = X.o(I["ops"][1])
                if a[0] != "fld" or a[3] != f or not (a[2] == S or s.alias(a[2], S, f)): continue
                v = X.o(I["ops"][0])
                if v[0] == "c" and v[1] in (0,): continue
                Q = Query(s.ctx, F)
                w = Q.canon(Q.unfwd(v))

                def inherits(g):
                    return any(x != 1 and isinstance(x, tuple) and x[0] == "typeof" and x[1][0] == "load" and x[1][1][0] == "fld" and x[1][1][2:] in up + (key,)
                               for x, c in g[1])
                if len(F.blocks) < 300 and Q.holds(I, [("eq", ladd({("typeof", w): 1}, {1: -CLO})), ("eq", {w: 1})], accept=inherits) is None: continue
                vs = list(value_leaves(F, X, v))
                bad = [x for x in vs if not (x[0] == "c" and x[1] == 0) and not s.traced(F, x) and
                       Q.holds(I, [("eq", ladd({("typeof", Q.canon(x)): 1}, {1: -CLO})), ("eq", {Q.canon(x): 1})]) is not None and
                       s.established(F, I, x, Q, up + (key,)) is not None and not s.callers(F, x, up + (key,))]
                if bad: s.memo[key] = (F, I); return s.memo[key]
        return s.memo[key]

    def established(s, F, I, e, Q, seen=()):
        """is a value a function on every path to I?  None, or why not"""
        P, X = s.P, s.ctx.ex(F)
        e = Q.unfwd(e)
        obj = Q.canon(e)
        if obj[0] == "call" and obj[1] == "potion_closure_new": return None
        s.ctx.count("path queries")
        if len(F.blocks) < 300 and Q.holds(I, [("eq", ladd({("typeof", obj): 1}, {1: -CLO}))]) is None: return None
        if e[0] == "load" and e[1][0] == "fld":
            S, f = e[1][2:]
            if (S, f) in seen: return None
            ok = s.field_ok(S, f, seen)
            if ok is True:
                # what is kept for ever is there from the beginning; what an extension keeps may still be nil
                if S in KEPT or Q.holds(I, [("ne", {obj: 1})]) is None: s.ctx.count("functions kept in a field"); return None
                return "the field may be nil"
            return "%s stores anything there (%s)" % (ok[0].name, ok[1].where)
        if len(F.blocks) >= 300: return s.register(F, I, e, Q)
        return ""

    def register(s, F, I, e, Q):
        """in the interpreter: every way back from I meets a test of the same register, or a store of a function into it"""
        X = s.ctx.ex(F)
        norm = lambda x: parts(F, X, strip_ids(x))
        want = norm(e)
        phis = set(); find_phis(want, phis)
        stop = {F.val[i].bb for i in phis if i in F.val}
        put = {J.id if J.id is not None else (J.bb, J.pos): X.o(J["ops"][0]) for J in F.instrs() if J.op == "store" and X.o(J["ops"][1])[0] == want[1][0] and norm(X.o(J["ops"][1])) == want[1]}
        wants = {want} | {strip_ids(Q.canon(Q.unfwd(v))) for v in put.values()}

        def tested(p, b):
            alts = Q.edge(p, b)
            return bool(alts) and all(any(k == "eq" and a != 1 and a[0] == "typeof" and norm(a[1]) in wants and dict(l).get(1) == -c * CLO
                                          for k, l in alt if k == "eq" for a, c in l) for alt in alts)
        seen, todo = set(), [(I.bb, F.blocks[I.bb].ins.index(I))]
        while todo:
            b, k = todo.pop()
            hit = False
            for J in reversed(F.blocks[b].ins[:k]):
                if J.op == "store" and (J.id if J.id is not None else (J.bb, J.pos)) in put:
                    why = s.established(F, J, X.o(J["ops"][0]), Q)
                    if why is not None: return why or "something else is put there"
                    hit = True; break
            if hit: continue
            if b in stop or b == F.entry: return ""
            for p in F.blocks[b].preds:
                if p in seen or tested(p, b): continue
                seen.add(p); todo.append((p, None))
        return None

    def traced(s, F, x):
        """the collector replacing an object by its copy"""
        return F.file.endswith("gc.c")

    def callers(s, F, x, up):
        """a parameter that every caller gives a function for"""
        if x[0] != "arg" or registered(s.ctx, F): return False
        n = 0
        for G in s.P:
            for J in G.calls(F.name):
                n += 1
                if s.established(G, J, s.ctx.ex(G).o(J.args[x[1]]), Query(s.ctx, G), up) is not None: return False
        return n > 0

    def alias(s, A, B, f):
        """records of extensions with the same head"""
        a, b = s.P.structs.get(A), s.P.structs.get(B)
        if not a or not b: return False
        fa, fb = ([x for x in st["fields"] if x["n"] == f] for st in (a, b))
        return bool(fa and fb and fa[0]["off"] == fb[0]["off"] and f in ("cb",) and A.startswith("aio_") and B.startswith("aio_"))


def parts(F, X, e, depth=0):
    """bits 8 to 19 of an instruction word stay what they are when the bits above are changed"""
    if not isinstance(e, tuple): return e
    if e[0] == "bin" and e[1] == "ashr" and e[3] == ("c", 20) and e[2][0] == "bin" and e[2][1] == "shl" and e[2][3] == ("c", 12):
        w = word(F, X, e[2][2], set())
        if w is not None: return ("bin", "ashr", ("bin", "shl", strip_ids(w), ("c", 12)), ("c", 20))
    return tuple(parts(F, X, x, depth + 1) for x in e)


def word(F, X, e, seen):
    if e in seen: return "self"
    if e[0] == "phi" and e[1] in F.val:
        seen.add(e)
        rs = {strip_ids(r) for r in (word(F, X, X.o(o), seen) for _, o in F.val[e[1]]["in"]) if r != "self"}
        return rs.pop() if len(rs) == 1 else e
    if e[0] == "bin" and e[1] == "or" and e[2][0] == "bin" and e[2][1] == "and" and e[2][3] == ("c", 0xFFFFF) and e[3][0] == "bin" and e[3][1] == "shl" and e[3][3] == ("c", 20):
        return word(F, X, e[2][2], seen)
    return e


def find_phis(e, out):
    if isinstance(e, tuple):
        if e[0] == "phi": out.add(e[1])
        for x in e: find_phis(x, out)


def key_of(F, I): return "%s|%s" % (F.name, I["callee"] if isinstance(I["callee"], str) else "")


def run(ctx):
    P, K = ctx.P, Calls(ctx)
    meth, given = {}, set()
    for m in methods(ctx):
        if m["name"] is not None: meth.setdefault(m["name"], []).append(m)
    for F in P:
        if "linenoise" in F.file: continue
        X, Q = ctx.ex(F), None
        for I in F.instrs():
            if I.op != "call" or I.callee or "asm" in I.d: continue
            o = K.closure_of(X.o(I["callee"]))
            if o is None: continue
            Q = Q or Query(ctx, F)
            ctx.count("calls of function objects")
            args = [X.o(a) for a in I.args]
            obj = Q.canon(Q.unfwd(o))
            src = K.unfwd(F, X, o)
            bind = src if src[0] == "call" and src[1] == "potion_bind" else None
            msg = rcv = None
            if bind:
                b = F.val[bind[2]]
                rcv, msg = X.o(b.args[1]), X.o(b.args[2])
            name = string_of(ctx, F, msg) if msg is not None else None
            tag = "%s|%s" % (F.name, "send of %s" % (name or "a message") if bind else "call of " + show_obj(F, obj))
            if len(args) < 2 or Q.canon(Q.unfwd(args[1])) != obj:
                ctx.report(tag + "|itself", I.where, "%s calls a function with another object than the function itself as its closure" % F.name)
            if args and not K.state(F, X, args[0]):
                ctx.report(tag + "|state", I.where, "%s calls a function without the interpreter state" % F.name)
            # established to be a function
            bad = K.established(F, I, o, Q)
            if bad is not None:
                why = bad
                if bad is not None and obj[0] == "arg" and not registered(ctx, F):
                    ctx.count("functions a native is given"); given.add((F.name, obj[1])); bad = None
                if bad is not None:
                    ctx.report(tag + "|function", I.where, "%s calls %s as a function without having established that it is one%s" % (
                        F.name, show_obj(F, obj), ": " + why if why else ""))
            if not bind: continue
            ctx.count("messages sent by native code")
            if len(args) < 3 or Q.canon(Q.unfwd(args[2])) != Q.canon(Q.unfwd(rcv)):
                ctx.report(tag + "|receiver", I.where, "%s looks the message up for one object and calls the method with another as its receiver" % F.name)
            if not message(ctx, F, X, msg):
                ctx.report(tag + "|message", I.where, "%s sends something that is not a message name" % F.name)
            if name is None: ctx.count("messages whose name the program gives"); continue
            n = len(args) - 3
            for m in meth.get(name, ()):
                names = sig_args(m["sig"]) if m["sig"] != "?" else None
                if names is None: continue
                need = required(m["sig"])
                ctx.count("message x native method of that name")
                if n < need:
                    ctx.report(tag + "|%s|few" % m["fn"], I.where, "%s sends %r with %d arguments, but the native method %s of that name (%s) requires %d" % (
                        F.name, name, n, m["fn"], m["I"].where, need))
    done = set()
    while given - done:
        g, k = min(given - done); done.add((g, k))
        for F in P:
            X = ctx.ex(F)
            for I in F.calls(g):
                a = X.o(I.args[k])
                Q = Query(ctx, F)
                obj = Q.canon(Q.unfwd(a))
                if K.established(F, I, a, Q) is None: continue
                if obj[0] == "arg" and not registered(ctx, F): given.add((F.name, obj[1])); continue
                ctx.report("%s|gives %s to %s" % (F.name, show_obj(F, obj), g), I.where, "%s has %s call %s as a function without having established that it is one" % (
                    F.name, g, show_obj(F, obj)))
    carriers(ctx, K)
    ctx.floor("calls of function objects", 300); ctx.floor("messages sent by native code", 200)


def registered(ctx, F):
    """is F called by programs?"""
    if not hasattr(ctx, "_regs"): ctx._regs = {fn for fn, sg, I, G in registrations(ctx)}
    return F.name in ctx._regs or F.name in ADDRESS(ctx)


def ADDRESS(ctx):
    """functions whose address is taken: anything may call them"""
    if not hasattr(ctx, "_addr"):
        out = set()
        for F in ctx.P:
            X = ctx.ex(F)
            for I in F.instrs():
                for a in I.args if I.op == "call" else I["ops"] if I.op == "store" else ():
                    e = X.o(a)
                    if e[0] == "fn": out.add(e[1])
        ctx._addr = out
    return ctx._addr


def required(sig):
    """how many arguments a signature requires"""
    return len(sig_args((sig or "").split("|")[0]))


def message(ctx, F, X, e, seen=None):
    seen = set() if seen is None else seen
    if e in seen: return True
    seen.add(e)
    if string_of(ctx, F, e) is not None: return True
    if e[0] == "load" and e[1][0] == "g": return e[1][1].startswith("PN_")
    if e[0] == "arg": return True      # what the caller gives (value parameters, see P08)
    if e[0] in ("phi", "select"): return all(message(ctx, F, X, x, seen) for x in value_leaves(F, X, e))
    if e[0] == "call":
        T = ctx.P.funcs.get(e[1])
        return e[1] in ("potion_str", "potion_str2", "potion_strcat", "potion_str_add", "potion_str_format", "potion_byte_str", "potion_str_of")
    return False


def show_obj(F, e):
    from ..ir import show
    if e[0] == "arg": return F.param_name(e[1]) or "argument"
    if e[0] == "load" and e[1][0] == "fld": return "its " + e[1][3]
    if e[0] == "phi": return "a value"
    return "the result of " + e[1] if e[0] == "call" else "a value"


RUN = {("PNProto", "jit")}


def carriers(ctx, K):
    """natives that read what their own function object carries, and the places that make such objects"""
    P = ctx.P
    values = ctx.vt = typed_args(P)
    reads = {}
    for F in P:
        if len(F.params) < 3 or not values(F): continue
        X = ctx.ex(F)
        for I in F.instrs():
            if I.op != "load": continue
            b = X.o(I["ops"][0])
            n = 0
            while b[0] == "idx":
                if b[2][0] == "c": n += b[2][1]
                b = b[1]
            if b[0] == "fld" and b[2:] == ("PNClosure", "data") and K.unfwd(F, X, b[1]) == ("arg", 1): reads[F.name] = max(n, reads.get(F.name, 0))
    for F in sorted(reads): ctx.count("natives that read what their function object carries")
    for F in P:
        X, Q = ctx.ex(F), None
        for I in F.instrs():
            if I.op != "call" or I.callee != "potion_closure_new": continue
            fn = X.o(I.args[1])
            stored = [J for J in F.instrs() if J.op == "store" and X.o(J["ops"][1])[0] == "fld" and X.o(J["ops"][1])[2:] == ("PNClosure", "method")
                      and ("call", "potion_closure_new", I.id) in value_leaves(F, X, X.o(J["ops"][1])[1])]
            if fn == ("c", 0) and len(stored) == 1: fn = X.o(stored[0]["ops"][0])
            kind = None
            if fn[0] == "fn":
                if fn[1] in reads: kind = "proto" if runs(P, fn[1]) else "value"
                last = reads.get(fn[1], 0)
            else:
                src = compiled(F, X, fn)
                if src is None:
                    if fn[0] == "arg" or fn[0] == "load" and fn[1][0] == "arg": continue
                    ctx.report("%s|code" % F.name, I.where, "%s makes a function object whose code is neither a native function nor the compiled code of a function" % F.name)
                    continue
                kind, last = "compiled", 0
            if kind is None: continue
            ctx.count("function objects that carry what they run")
            tag = "%s|carrier of %s" % (F.name, fn[1] if fn[0] == "fn" else "compiled code")
            from ..facts import lin
            room = lin(X.o(I.args[3]))
            if not (room.get(1, 0) >= last + 1 and all(c > 0 for c in room.values())):
                ctx.report(tag + "|room", I.where, "%s makes a function object for %s without room for what it carries" % (F.name, fn[1] if fn[0] == "fn" else "compiled code"))
                continue
            al = aliases(F, X, ("call", "potion_closure_new", I.id))
            first = [J for J in F.instrs() if J.op == "store" and data0(X.o(J["ops"][1])) in al]
            bad = None
            for J in F.instrs():
                if J is I or J in first: continue
                if escapes(F, X, J, al) and not any(before(F, S, J) for S in first) and reaches(F, I, J, first): bad = J; break
            if not first or bad is not None:
                ctx.report(tag + "|stored", (bad or I).where, "%s hands out a function object for %s before what it carries is stored in it" % (
                    F.name, fn[1] if fn[0] == "fn" else "compiled code"))
                continue
            if kind == "value": continue
            Q = Q or Query(ctx, F)
            for S in first:
                v = X.o(S["ops"][0])
                if kind == "compiled":
                    if Q.canon(Q.unfwd(v)) != Q.canon(Q.unfwd(src)):
                        ctx.report(tag + "|of another", S.where, "%s gives a function object the compiled code of one function and lets it carry another" % F.name)
                elif not proto(ctx, F, X, Q, I, v):
                    ctx.report(tag + "|no function", S.where, "%s lets a function object carry something that is not established to be code of the program" % F.name)
    # compiled code is entered with the function it is the code of
    for F in P:
        X, Q = ctx.ex(F), None
        for I in F.instrs():
            if I.op != "call" or I.callee or "asm" in I.d: continue
            c = X.o(I["callee"])
            src = compiled(F, X, c)
            if src is None: continue
            ctx.count("entries into compiled code")
            Q = Q or Query(ctx, F)
            a = X.o(I.args[1])
            al = aliases(F, X, a)
            st = [J for J in F.instrs() if J.op == "store" and data0(X.o(J["ops"][1])) in al and before(F, J, I)]
            if not any(Q.canon(Q.unfwd(X.o(J["ops"][0]))) == Q.canon(Q.unfwd(src)) for J in st):
                ctx.report("%s|enters compiled code" % F.name, I.where, "%s enters the compiled code of a function with a function object that does not carry that function" % F.name)
    ctx.floor("function objects that carry what they run", 5); ctx.floor("entries into compiled code", 2)


def typed_args(P):
    def values(F): return "potion" in F.name.lower() or F.param_name(1) in ("cl", "closure")
    return values


def runs(P, name):
    """does a native run the code of the function its object carries?"""
    F = P.funcs.get(name)
    return F is not None and any(I.op == "call" and I.callee == "potion_vm" for I in F.instrs())


def compiled(F, X, e):
    """the function whose compiled code an expression is"""
    while e[0] == "call" and e[1] == "potion_fwd": e = X.o(F.val[e[2]].args[0])
    if e[0] == "call" and e[1] == "potion_jit_proto": return X.o(F.val[e[2]].args[1])
    if e[0] == "load" and e[1][0] == "fld" and e[1][2:] == ("PNProto", "jit"): return e[1][1]
    return None


def data0(a):
    """the object whose first carried value an address is"""
    if a[0] == "fld" and a[2:] == ("PNClosure", "data"): return a[1]
    if a[0] == "idx" and a[2] == ("c", 0): return data0(a[1])
    return None


def aliases(F, X, e):
    al = {e}
    while True:
        n = len(al)
        for I in F.instrs():
            if I.op == "phi" and any(X.o(o) in al for _, o in I["in"]): al.add(("phi", I.id))
            if I.op == "select" and any(X.o(o) in al for o in I["ops"][1:]): al.add(X.o({"v": I.id}))
            if I.op == "call" and I.callee == "potion_fwd" and X.o(I.args[0]) in al: al.add(("call", "potion_fwd", I.id))
        if len(al) == n: return al


def escapes(F, X, J, al):
    if J.op == "ret": return bool(J["ops"]) and X.o(J["ops"][0]) in al
    if J.op == "store": return X.o(J["ops"][0]) in al
    if J.op == "call": return J.callee != "potion_fwd" and not (J.callee or "").startswith("potion_gc") and any(X.o(a) in al for a in J.args)
    return False


def before(F, S, J):
    if S.bb == J.bb: return F.blocks[S.bb].ins.index(S) < F.blocks[J.bb].ins.index(J)
    return S.bb in F.dom()[J.bb]


def reaches(F, I, J, stops):
    """can J be reached from I without passing one of the stores?"""
    sb = {S.bb for S in stops}
    if J.bb == I.bb and F.blocks[I.bb].ins.index(I) < F.blocks[J.bb].ins.index(J):
        return not any(S.bb == I.bb and F.blocks[I.bb].ins.index(I) < F.blocks[S.bb].ins.index(S) < F.blocks[J.bb].ins.index(J) for S in stops)
    if any(S.bb == I.bb and F.blocks[I.bb].ins.index(S) > F.blocks[I.bb].ins.index(I) for S in stops): return False
    seen, todo = set(), list(F.blocks[I.bb].succs)
    while todo:
        b = todo.pop()
        if b in seen: continue
        seen.add(b)
        if b == J.bb:
            if not any(S.bb == b and F.blocks[b].ins.index(S) < F.blocks[b].ins.index(J) for S in stops): return True
        if b in sb: continue
        todo += F.blocks[b].succs
    return False


def proto(ctx, F, X, Q, I, v):
    """is a value established to be code?"""
    v = Q.unfwd(v)
    if v[0] == "load":
        a = v[1]
        while a[0] == "idx": a = a[1]
        if a[0] == "fld" and a[2:] == ("PNTuple", "set"):
            t = Q.unfwd(a[1])
            if t[0] == "load" and t[1][0] == "fld" and t[1][2:] == ("PNProto", "protos"): return True
    if v[0] == "call" and v[1] == "potion_gc_alloc": return True
    return Q.holds(I, [("eq", ladd({("typeof", Q.canon(v)): 1}, {1: -TAGS["TPROTO"]}))]) is None
