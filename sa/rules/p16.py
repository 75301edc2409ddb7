"""P16: what is acquired from the system is released exactly once and not used afterwards."""
from ..core import *
from ..core import NORETURN
from ..heap import value_leaves
from ..facts import Query
from ..ir import strip_ids
from .p15 import base, local, NULLOK

RULE = ("every call that acquires something the program must give back (memory, a stream, a descriptor, a library, a mapping, a text of the C or "
        "database library) is followed forward through copies and local slots: on every path on which the call succeeded it is released, returned, "
        "stored in memory that outlives the function or passed to a function that does so before the function returns or runs the same acquisition into the same place again; from every release the walk goes on: "
        "the value is not used, released again, stored or returned, and the field or global variable it was taken from is overwritten before the function returns")
ASSUME = ("functions of the C, event loop and database libraries neither keep nor release what they are given except those listed in the rule",
          "a resource stored in memory that outlives the function is released by whoever finds it there")

# acquiring calls: what tells that nothing was acquired (value is that; result is nonzero / zero / -1), argument the result is left in
ACQ = {f: (None, "null") for f in ("malloc", "calloc", "realloc", "strdup", "strndup", "fopen", "fdopen", "tmpfile", "dlopen", "opendir", "popen")}
ACQ.update({f: (None, "neg") for f in ("open", "dup", "socket", "creat")})
ACQ.update({"mmap": (None, "neg"), "asprintf": (0, "neg"), "vasprintf": (0, "neg"), "sqlite3_get_table": (2, "nz"), "sqlite3_open": (1, "never")})
ACQ2 = {"sqlite3_exec": (4, "z"), "sqlite3_get_table": (5, "z")}
REL = {"free": 0, "realloc": 0, "fclose": 0, "close": 0, "dlclose": 0, "closedir": 0, "pclose": 0, "sqlite3_close": 0, "sqlite3_free": 0,
       "sqlite3_free_table": 0, "munmap": 0}
# the first argument that is merely printed
PRINTS = {"printf": 1, "asprintf": 2, "fprintf": 2, "sprintf": 2, "snprintf": 3}
# the release has not happened when the result is this
UNDONE = {"sqlite3_close": "nz", "realloc": "null"}
# library functions that take over what they are given
KEEP = {"fdopen": 0, "dlsym": 0,      # a symbol in use keeps its library
         "setvbuf": 1, "uv_pipe_open": 1, "uv_tcp_open": 1, "uv_udp_open": 1, "uv_tty_init": 2, "uv_poll_init": 2}


class Own:
    def __init__(s, ctx):
        s.ctx, s.P = ctx, ctx.P
        s.qs = {}
        s.rel, s.may, s.keep, s.src = set(), set(), set(), {}

    def q(s, F):
        if F.name not in s.qs: s.qs[F.name] = Query(s.ctx, F)
        return s.qs[F.name]

    def releases(s, F, J, k):
        """does call J release its argument k: 'all', 'may' or None"""
        if not J.callee: return None
        T = s.P.resolve(F, J.callee)
        if T is None: return "all" if REL.get(J.callee) == k else None
        return "all" if (T.name, k) in s.rel else "may" if (T.name, k) in s.may else None

    def keeps(s, F, J, k):
        if not J.callee: return True            # through a pointer: it may
        T = s.P.resolve(F, J.callee)
        return KEEP.get(J.callee) == k if T is None else (T.name, k) in s.keep

    def failed(s, Q, alts, vals, res, test):
        """does the edge imply that nothing was acquired"""
        forms = {Q.canon(v) for v in (vals if res is None else [res])}

        def says(f):
            k, l = f[0], dict(f[1])
            c = l.pop(1, 0)
            if len(l) != 1: return False
            (x, m), = l.items()
            if x not in forms or m not in (1, -1): return False
            if test in ("null", "z"): return k == "eq" and c == 0
            if test == "neg": return k == "eq" and -c * m == -1 or k == "ge" and m == -1 and c <= -1
            if test == "never": return False
            return k == "ne" and c == 0 or k == "ge" and c <= -1 or k == "eq" and c != 0
        return bool(alts) and all(any(says(f) for f in alt) for alt in alts)

    def walk(s, F, b, k, vals, slots, res, test, owned, origin=None, undone=None):
        """forward from position (b, k); yields (what, instruction, detail)"""
        X = s.ctx.ex(F)
        Q = s.q(F)
        work, seen = [(b, k, frozenset(vals), frozenset(slots), owned, frozenset())], set()
        while work:
            st = work.pop()
            if st in seen: continue
            seen.add(st)
            b, k, vals, slots, own, pins = st
            dead = False
            for J in F.blocks[b].ins[k:]:
                if J.op == "phi": continue
                if J is origin:
                    if own and (not set(slots) or J.op == "store"): yield "again", J, ""
                    dead = True; break
                if J.get("noret") or J.op == "call" and J.callee in NORETURN: dead = True; break
                if J.op == "load":
                    x = ("load", X.o(J["ops"][0]), J.id)
                    if strip_ids(("load", x[1], 0)) in slots: vals = vals | {x}
                if not own and J.op in ("load", "store"):
                    a = X.o(J["ops"][0 if J.op == "load" else 1])
                    if base(a) in vals: yield "used", J, "is read or written through"
                if J.op == "store":
                    a = X.o(J["ops"][1])
                    v = X.o(J["ops"][0])
                    sl = strip_ids(("load", a, 0))
                    if v in vals:
                        if local(F, a): slots = slots | {sl}
                        elif own: yield "kept", J, a; dead = True; break
                        else: yield "used", J, "is stored"
                    else: slots = slots - {sl}
                elif J.op == "call":
                    for i, o in enumerate(J.args):
                        v = X.o(o)
                        bv = base(v)
                        if v in vals:
                            r = s.releases(F, J, i)
                            if r:
                                if not own: yield "twice", J, ""
                                yield "released", J, r
                                if own: own = False if r == "all" else own
                                if r == "may": yield "kept", J, v; dead = True
                            elif not own: yield "used", J, "is passed to %s" % (J.callee or "a function")
                            elif s.keeps(F, J, i): yield "kept", J, v; dead = True
                        elif bv in vals and not own and (J.callee or "") not in ("llvm.lifetime.end.p0", "llvm.lifetime.start.p0"):
                            yield "used", J, "is passed to %s" % (J.callee or "a function")
                        # the place is handed to a function that may overwrite it
                        if strip_ids(("load", v, 0)) in slots and not (J.callee or "").startswith("llvm.lifetime"):
                            slots = slots - {strip_ids(("load", v, 0))}
                        if not own and s.releases(F, J, i):
                            slots = frozenset(x for x in slots if base(x[1]) != strip_ids(v) and base(x[1]) != v)
                    if dead or not own and owned: break
                elif J.op == "ret":
                    v = X.o(J["ops"][0]) if J["ops"] else None
                    if v is not None and made(v, vals):
                        if own: yield "returned", J, ""
                        else: yield "used", J, "is returned"
                        if own: continue
                    yield ("leaked" if own else "left"), J, slots
            if dead or not own and owned: continue
            for c in F.blocks[b].succs:
                alts = [a for a in Q.edge(b, c) if possible(a, pins)]
                if not alts: continue
                if own and s.failed(Q, alts, vals, res, test): continue
                if undone and s.failed(Q, alts, (), *undone): continue
                v2, p2 = set(vals), set()
                for J in F.blocks[c].ins:
                    if J.op != "phi": break
                    for p, o in J["in"]:
                        if p != b: continue
                        if X.o(o)[0] == "c": p2.add((("phi", J.id), X.o(o)[1]))
                        if made(X.o(o), vals): v2.add(("phi", J.id))
                        else: v2.discard(("phi", J.id))
                work.append((c, 0, frozenset(v2), slots, own, frozenset(p2)))


def run(ctx):
    P = ctx.P
    K = Own(ctx)
    cand = []
    for F in P:
        for k in range(F.nparams):
            if "*" in (F.param_type(k) or "*") or F.param_type(k) in ("int",): cand.append((F, k))
    ch = True
    while ch:
        ch = False
        for F, k in cand:
            if (F.name, k) in K.keep and (F.name, k) in K.may: continue
            kinds = set()
            b0 = next(iter(F.blocks))
            for what, J, d in K.walk(F, b0, 0, {("arg", k)}, (), None, "null" if F.param_type(k) != "int" else "neg", True):
                kinds.add(what if what != "released" else "released " + d)
            new = set()
            if any(x.startswith("released") for x in kinds):
                new.add("may" if kinds - {"released all"} else "rel")
            if kinds & {"kept", "returned"}: new.add("keep")
            for n in new:
                st = getattr(K, n)
                if (F.name, k) not in st: st.add((F.name, k)); ch = True
    ctx.count("parameters that functions release", len(K.rel | K.may))
    # functions that return what they acquire
    ch = True
    while ch:
        ch = False
        for F in P:
            if F.name in K.src: continue
            for I, out, test in acquisitions(K, F):
                if any(w == "returned" for w, J, d in go(K, F, I, out, test)):
                    K.src[F.name] = "neg" if (F.ditypes[0] or "").strip() == "int" else "null"; ch = True; break
    for F in P:
        for I, out, test in acquisitions(K, F):
            ctx.count("acquisitions")
            if F.name == "main": continue           # the program ends with it
            for what, J, d in go(K, F, I, out, test):
                if what == "leaked":
                    ctx.report("%s|%s leaked" % (F.name, I.callee), I.where, "what %s acquires with %s is not released on a path to %s" % (F.name, I.callee, J.where)); break
                if what == "again":
                    ctx.report("%s|%s leaked" % (F.name, I.callee), I.where, "what %s acquires with %s is lost when %s runs again" % (F.name, I.callee, I.callee)); break
        for J in F.instrs():
            if J.op != "call" or not J.callee: continue
            for i in range(len(J.args)):
                if K.releases(F, J, i): released(ctx, K, F, J, i)
    marks(ctx, K)
    ctx.floor("acquisitions", 15); ctx.floor("releases", 15)


def made(v, vals):
    """is the value computed from one of vals (not merely found with its help)"""
    if v in vals: return True
    if v[0] in ("bin", "select", "idx", "fld"): return any(made(y, vals) for y in v[1:] if isinstance(y, tuple))
    return False


def possible(facts, pins):
    """are the facts of an edge compatible with the constants that merged values have on the way"""
    pins = dict(pins)
    for k, l in facts:
        t = 0
        for x, m in dict(l).items():
            if x == 1: t += m
            elif x in pins: t += m * pins[x]
            else: break
        else:
            if not {"eq": t == 0, "ne": t != 0, "ge": t >= 0}.get(k, True): return False
    return True


def acquisitions(K, F):
    for I in F.instrs():
        if I.op != "call" or not I.callee: continue
        T = K.P.resolve(F, I.callee)
        if T is not None:
            if T.name in K.src: yield I, None, K.src[T.name]
            continue
        for A in (ACQ, ACQ2):
            if I.callee in A:
                out, test = A[I.callee]
                if out is not None and K.ctx.ex(F).o(I.args[out])[0] == "c": continue
                yield I, out, test


def go(K, F, I, out, test):
    X = K.ctx.ex(F)
    e = ("call", I.callee, I.id)
    k = F.blocks[I.bb].ins.index(I) + 1
    if out is None: return K.walk(F, I.bb, k, {e}, (), None, test, True, I)
    return K.walk(F, I.bb, k, (), {strip_ids(("load", X.o(I.args[out]), 0))}, e, test, True, I)


def released(ctx, K, F, J, i):
    ctx.count("releases")
    X = ctx.ex(F)
    v = X.o(J.args[i])
    if v[0] == "c": return
    slots = set()
    vals = {v}
    if v[0] == "load":
        L = F.val.get(v[2])
        if L is None or still(F, X, L, J, v[1]): slots.add(strip_ids(("load", v[1], 0)))
    for I in F.instrs():            # other places this value was put before
        if I.op == "store" and X.o(I["ops"][0]) == v and still(F, X, I, J): slots.add(strip_ids(("load", X.o(I["ops"][1]), 0)))
    k = F.blocks[J.bb].ins.index(J) + 1
    said = set()
    for what, L, d in K.walk(F, J.bb, k, vals, slots, None, "null", False, J, (("call", J.callee, J.id), UNDONE[J.callee]) if J.callee in UNDONE else None):
        key = None
        if what == "used": key = "%s|used after %s" % (F.name, J.callee); msg = "in %s what %s has released %s at %s" % (F.name, J.callee, d, L.where)
        elif what == "twice": key = "%s|released again" % F.name; msg = "in %s what %s has released is released again at %s" % (F.name, J.callee, L.where)
        elif what == "left":
            for sl in d:
                a = sl[1]
                if lasting(K, F, X, a) and not inside(K, F, X, J, a): key = "%s|%s left" % (F.name, J.callee); msg = "%s returns with what %s has released still in place (%s)" % (F.name, J.callee, show(a))
        if key and key not in said: said.add(key); ctx.report(key, J.where, msg)


def still(F, X, I, J, a=None):
    """does what store I put in its place (or load I found there) still lie there at J on some path"""
    a = strip_ids(X.o(I["ops"][1]) if a is None else a)
    work, seen = [(I.bb, F.blocks[I.bb].ins.index(I) + 1)], set()
    while work:
        b, k = work.pop()
        if (b, k) in seen: continue
        seen.add((b, k))
        for L in F.blocks[b].ins[k:]:
            if L is J: return True
            if L.op == "store" and strip_ids(X.o(L["ops"][1])) == a: break
        else: work += [(c, 0) for c in F.blocks[b].succs]
    return False


def lasting(K, F, X, a):
    """a field or global variable that outlives the function"""
    if a[0] not in ("fld", "g"): return False
    if a[0] == "fld" and a[2:] == ("Potion_State", "mem"): return False      # the interpreter lies in the memory it releases
    if local(F, a): return False
    b = base(a)
    if b[0] == "arg":       # an object of the callers' own frames
        n = 0
        for G in K.P:
            for C in G.calls(F.name):
                if K.P.resolve(G, C.callee) is F:
                    n += 1
                    o = base(K.ctx.ex(G).o(C.args[b[1]]))
                    if not local(G, o) and not gone(K, G, C, o): return True
        if n: return False
    return not atexit(K, F)


def gone(K, G, C, o):
    """does the caller release the object itself after the call"""
    X = K.ctx.ex(G)
    return any(J.op == "call" and J.callee and any(K.releases(G, J, i) and X.o(v) == o for i, v in enumerate(J.args))
               and (J.bb in G.reach_from(C.bb) or J.bb == C.bb) for J in G.instrs())


def inside(K, F, X, J, a):
    """is the object that holds the place released as well"""
    o = strip_ids(base(a))
    return any(L.op == "call" and L.callee and L is not J and any(K.releases(F, L, i) and strip_ids(X.o(v)) == o for i, v in enumerate(L.args))
               for L in F.instrs())


def atexit(K, F):
    """runs only when the program ends"""
    uses = 0
    for G in K.P:
        X = K.ctx.ex(G)
        for C in G.instrs():
            if C.op != "call": continue
            if C.callee == F.name and K.P.resolve(G, C.callee) is F and not (G.name != F.name and atexit(K, G)): return False
            if any(X.o(o) == ("fn", F.name) for o in C.args):
                if C.callee != "atexit": return False
                uses += 1
            if C.callee == F.name: uses += 1
    return uses > 0


def show(a):
    return a[3] if a[0] == "fld" else a[1] if a[0] == "g" else a[0]


def marks(ctx, K):
    """a field that a release leaves null is tested before what it holds is handed to the library again"""
    P = K.P
    fields = set()
    for F in P:
        X = ctx.ex(F)
        for J in F.instrs():
            if J.op != "call" or not J.callee: continue
            for i, o in enumerate(J.args):
                if not K.releases(F, J, i): continue
                for v in value_leaves(F, X, X.o(o)):
                    if v[0] == "load" and v[1][0] == "fld" and v[1][1][0] != "alloca": fields.add(v[1][2:])
    overwritten(ctx, K, fields)
    null = set()
    for F in P:
        X = ctx.ex(F)
        for I in F.instrs():
            if I.op == "store" and X.o(I["ops"][0]) == ("c", 0):
                a = X.o(I["ops"][1])
                if a[0] == "fld" and a[2:] in fields: null.add(a[2:])
    for F in P:
        X = ctx.ex(F)
        for J in F.instrs():
            if J.op != "call" or not J.callee or P.resolve(F, J.callee) is not None or J.callee.startswith("llvm."): continue
            for i, o in enumerate(J.args):
                if i in NULLOK.get(J.callee, ()) or i >= PRINTS.get(J.callee, 99): continue
                for v in value_leaves(F, X, X.o(o)):
                    if v[0] == "load" and v[1][0] == "fld" and v[1][2:] in null:
                        ctx.count("uses of what a field may no longer hold")
                        if K.q(F).holds(J, [("ne", {K.q(F).canon(v): 1})]) is not None:
                            ctx.report("%s|%s of %s" % (F.name, J.callee, v[1][3]), J.where, "%s passes %s to %s without knowing that it was not released before" % (F.name, v[1][3], J.callee))


def overwritten(ctx, K, fields):
    """what a field holds that is released elsewhere is not lost by storing something else in it"""
    for F in K.P:
        X = ctx.ex(F)
        for I in F.instrs():
            if I.op != "store": continue
            a = X.o(I["ops"][1])
            v = X.o(I["ops"][0])
            if a[0] != "fld" or a[2:] not in fields or v[0] == "c" or a[2:] == ("Potion_State", "mem"): continue
            if F.file.endswith("syntax.c"): continue        # the parser generator's own buffers
            if all(y[0] in ("call", "alloca") for y in value_leaves(F, X, base(a))): continue       # a new object
            ctx.count("stores over what may have to be released")
            sl = strip_ids(("load", a, 0))
            for what, J, d in K.walk(F, next(iter(F.blocks)), 0, (), {sl}, None, "null", True, I):
                if what == "again":
                    ctx.report("%s|%s overwritten" % (F.name, a[3]), I.where, "%s stores over %s, which may still hold something to release" % (F.name, a[3])); break
