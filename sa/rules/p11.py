"""P11: objects that have been replaced by a bigger copy are read and written through the copy."""
from ..core import *
from ..heap import *
from ..ir import show, strip_ids
from ..facts import Query, ladd
from ..layout import TAGS

RULE = """Lists, byte strings, instruction buffers, class tables and hash tables grow by replacement: the old object becomes a record that names the new one.  Forward dataflow over every function: a handle is
current for a growable kind when it is a new object, the result of following the replacement, the result of the growing call itself or of a function that returns a current handle, or when it is read from an
owner field (one that every growing call writes back); every call that can grow that kind (directly, through program code or through an unknown pointer) makes it out of date.  Every access to a field of a
growable record must go through a handle that is current for that kind; a function that accesses its parameter so passes the requirement to its callers, and a native method, whose arguments come from
programs, may not have the requirement at all."""
ASSUME = ("the collector's own functions (core/gc.c) work on any record by its header and are decided by P01",)
REALLOC = "potion_gc_realloc"
KINDS = ("PNTuple", "PNBytes", "PNAsm", "PNFlex", "PNTable")
SKIP = ("core/gc.c",)


VTKIND = {"TTUPLE": "PNTuple", "TFLEX": "PNFlex", "TUSER": "PNTable"}
FRESH = ("potion_gc_alloc",)
NOLEAK = {"potion_gc_update", "potion_fwd", REALLOC, "potion_str_ptr", "potion_type_size"}
CASTS = ("bitcast", "inttoptr", "ptrtoint", "freeze")
FWDTAG = (0xFFFFFFFE, -2)


def field(a):
    """(record, field, object) of an address"""
    while a[0] == "idx": a = a[1]
    if a[0] != "fld": return None
    if a[2] in KINDS or a[2] in ("PNFwd", "PNString"): return a[2], a[3], a[1]
    return field(a[1]) or (a[2], a[3], a[1])


def follows(G, F, I):
    """a load of the address of an object's replacement (also when the compiler has shared the field's address with that of a smaller field)"""
    e = G.ctx.ex(F).o(I["ops"][0])
    f = field(e)
    if f is None or e[0] != "fld": return False
    if f[:2] == ("PNFwd", "ptr"): return True
    if f[0] not in KINDS or I.get("ty") not in ("i64", "ptr"): return False
    return any(x["n"] == f[1] and x["off"] == 8 and x["sz"] < 8 for x in G.P.structs[f[0]]["fields"])


class Groups:
    """values of a function that denote the same object (through merges, casts, following and growing)"""

    def __init__(s, G, F):
        s.up = {}
        s.F = F
        X = G.ctx.ex(F)
        for I in F.instrs():
            if I.op == "phi":
                for _, o in I["in"]: s.join(I.id, o)
            elif I.op == "select":
                for o in I["ops"][1:]: s.join(I.id, o)
            elif I.op in CASTS: s.join(I.id, I["ops"][0])
            elif I.op == "call" and I.callee == "potion_fwd": s.join(I.id, I.args[0])
            elif I.op == "call" and I.callee == REALLOC: s.join(I.id, I.args[2])
            elif I.op == "call" and I.callee:
                T = G.P.resolve(F, I.callee)
                for j in G.retarg.get(T.name if T else None, ()): s.join(I.id, I.args[j])
            elif I.op == "load":
                if follows(G, F, I): s.join(I.id, base(F, I["ops"][0]))

    def root(s, v):
        while v in s.up: v = s.up[v]
        return v

    def join(s, v, o):
        w = o.get("v") if isinstance(o, dict) else None
        if w is None: return
        a, b = s.root(v), s.root(w)
        if a != b: s.up[a] = b


def base(F, op):
    """the operand an address is computed from"""
    while True:
        J = F.val.get(op.get("v")) if isinstance(op, dict) else None
        if J is None: return op
        if J.op == "getelementptr": op = J["base"]
        elif J.op in CASTS: op = J["ops"][0]
        else: return op


class Grow:
    def __init__(s, ctx):
        s.ctx, s.P = ctx, ctx.P
        s.fs = [F for F in s.P if F.file not in SKIP]
        s.ret, s.needs = {}, {}
        s.retarg, s.groups = {}, {}
        vt = {TAGS[t]: k for t, k in VTKIND.items()}
        direct = {k: set() for k in KINDS}
        s.site = {}           # growing call -> kind
        for F in s.fs:
            s.grp(F)
            X = ctx.ex(F)
            for I in F.instrs():
                if I.op == "store":
                    f = field(X.o(I["ops"][1]))
                    if f and f[:2] == ("PNFwd", "fwd"): direct["PNTuple"].add(F.name)
                if I.op == "call" and I.callee == REALLOC:
                    t = X.o(I.args[1])
                    k = {vt[t[1]]} if t[0] == "c" and t[1] in vt else s.accessed(F, I.id) or set(KINDS)
                    s.site[F.name, I.id] = k
                    ctx.count("growing calls")
                    for x in k: direct[x].add(F.name)
        # functions that return the object (or its replacement) they are given
        ch = True
        while ch:
            ch = False
            for F in s.fs:
                g = s.grp(F)
                rs = {g.root(o["v"]) for I in F.rets() for o in I["ops"] if "v" in o}
                n = {j for j, v in enumerate(F.params) if g.root(v) in rs}
                if n != s.retarg.get(F.name, set()): s.retarg[F.name] = n; s.groups.clear(); ch = True
        s.direct = direct
        s.grows = {k: s.closure(direct[k]) for k in KINDS}
        s.leaks()
        s.growsarg()
        s.onlyargs()
        s.counts()
        s.strings()

    def strings(s):
        """strs: functions that return nothing but strings (which are never replaced)"""
        s.strs, s.grpstr = {"potion_lookup_str"}, {}
        ch = True
        while ch:
            ch = False
            for F in s.fs:
                if F.name in s.strs: continue
                rs = [o for I in F.rets() for o in I["ops"]]
                if rs and all(s.isstring(F, o) for o in rs): s.strs.add(F.name); ch = True

    def isstring(s, F, op):
        X = s.ctx.ex(F)
        ls = value_leaves(F, X, X.o(op))
        for e in ls:
            if e == ("c", 0): continue
            if e[0] == "load" and e[1][0] == "g" and e[1][1] in strings_of_globals(s.P, s.ctx): continue
            if e[0] != "call" or not isinstance(e[1], str): return False
            if e[1] == "potion_gc_alloc":
                if X.o(F.val[e[2]].args[1]) != ("c", TAGS["TSTRING"]): return False
            elif e[1] not in s.strs: return False
        return bool(ls)

    def emitters(s, F, I):
        """the functions an indirect call through the JIT's target table may run; None for any other indirect call"""
        e = s.ctx.ex(F).o(I["callee"]) if isinstance(I["callee"], dict) else ("?",)
        while isinstance(e, tuple) and e[0] in ("load", "fld", "idx"):
            if e[0] == "fld" and e[2:4] == ("Potion_State", "target"): return s.hooks()
            e = e[1]
        return None

    def hooks(s):
        if not hasattr(s, "_hooks"):
            s._hooks = set()

            def go(x):
                if isinstance(x, dict):
                    if isinstance(x.get("fn"), str): s._hooks.add(x["fn"])
                    for y in x.values(): go(y)
                elif isinstance(x, list):
                    for y in x: go(y)
            for n, g in s.P.globals.items():
                if g.get("init") and n.startswith("potion_target"): go(g["init"])
            if not s._hooks: raise Broken("the JIT target table is gone")
        return s._hooks

    def closure(s, targets):
        """functions a call to which may reach one of targets, or program code"""
        rev, res = {}, set(targets)
        for F in s.P:
            for I in F.calls():
                if "asm" in I.d: continue
                if I.callee:
                    T = s.P.resolve(F, I.callee)
                    cs = {T.name if T else I.callee}
                else:
                    cs = s.emitters(F, I)
                    if cs is None: res.add(F.name); continue
                for c in cs: rev.setdefault(c, set()).add(F.name)
        st = list(res)
        while st:
            for c in rev.get(st.pop(), ()):
                if c not in res: res.add(c); st.append(c)
        return res

    def again(s, k):
        """the functions that still reach a growing call"""
        res = {n for n in s.grows[k] if n in s.direct[k]}
        ch = True
        while ch:
            ch = False
            for F in s.P:
                if F.name in res or F.name not in s.grows[k]: continue
                for I in F.calls():
                    if "asm" in I.d: continue
                    if I.callee is None:
                        h = s.emitters(F, I)
                        hit = h is None or bool(h & res)
                    else:
                        T = s.P.resolve(F, I.callee)
                        hit = (T.name if T else I.callee) in res
                    if hit: res.add(F.name); ch = True; break
        return res

    def onlyargs(s):
        """only[k]: functions that replace objects of kind k only through their arguments"""
        s.only = {k: set() for k in KINDS}
        ch = True
        while ch:
            ch = False
            for k in KINDS:
                for F in s.fs:
                    if F.name not in s.grows[k] or F.name in s.only[k] or (F.name in s.direct[k] and k == "PNTuple" and not any(n == F.name for n, _ in s.site)): continue
                    g = s.grp(F)
                    ok = {g.root(v) for v in F.params} | s.priv[F.name]
                    for I in F.calls():
                        if k not in s.kinds_grown(F, I): continue
                        T = s.P.resolve(F, I.callee) if I.callee else None
                        if I.callee != REALLOC and (T is None or T.name not in s.only[k]): break
                        if any(x == k and g.root(v) not in ok for v, x in s.grown(F, I)): break
                    else: s.only[k].add(F.name); ch = True
            # a function that replaces nothing but objects of its own
            for k in KINDS:
                for n in sorted(s.only[k] & s.grows[k]):
                    if not any(x == k for _, x in s.ga.get(n, ())): s.grows[k].discard(n); ch = True
                if ch: s.grows[k] &= s.again(k)

    def grp(s, F):
        g = s.groups.get(F.name)
        if g is None: g = s.groups[F.name] = Groups(s, F)
        return g

    def accessed(s, F, v):
        X, g, out = s.ctx.ex(F), s.grp(F), set()
        for I in F.instrs():
            if I.op in ("load", "store"):
                op = I["ops"][0 if I.op == "load" else 1]
                f = field(X.o(op))
                b = base(F, op)
                if f and f[0] in KINDS and "v" in b and g.root(b["v"]) == g.root(v): out.add(f[0])
        return out

    def leaks(s):
        """leak[T]: parameters whose object others may get hold of; fresh: functions that return a new object nobody else has; private(F): groups of values nobody else has"""
        s.noleak, s.fresh = {}, set()
        ch = True
        while ch:
            ch = False
            for F in s.fs:
                g = s.grp(F)
                leaky, foreign = s.leaky(F, g)
                n = {j for j, v in enumerate(F.params) if g.root(v) not in leaky}
                if n != s.noleak.get(F.name): s.noleak[F.name] = n; ch = True
                rs = [g.root(o["v"]) for I in F.rets() for o in I["ops"] if "v" in o]
                pr = {g.root(v) for v in F.params}
                if rs and F.name not in s.fresh and all(r not in leaky and r not in foreign and r not in pr for r in rs):
                    s.fresh.add(F.name); ch = True
        s.priv = {}
        for F in s.fs:
            g = s.grp(F)
            leaky, foreign = s.leaky(F, g)
            pr = {g.root(v) for v in F.params}
            s.priv[F.name] = {g.root(I.id) for I in F.calls() if I.id is not None} - leaky - foreign - pr

    def leaky(s, F, g):
        leaky, foreign = set(), set()
        for I in F.instrs():
            if I.op in ("phi", "select", "icmp", "ret", "br", "switch", "load", "getelementptr") or I.op in CASTS:
                if I.op == "load":
                    if not follows(s, F, I): foreign.add(g.root(I.id))
                continue
            if I.op in ("call", "invoke"):
                T = s.P.resolve(F, I.callee) if I.callee else None
                n = T.name if T else I.callee
                for j, a in enumerate(I.args):
                    if "v" in a and not (n in NOLEAK or j in s.noleak.get(n, ()) or (T is None and n and n.startswith("llvm."))): leaky.add(g.root(a["v"]))
                if I.id is not None and not (n in FRESH or n in s.fresh or n in ("potion_fwd", REALLOC) or s.retarg.get(n)): foreign.add(g.root(I.id))
                continue
            if I.op == "store":
                v = I["ops"][0]
                if "v" in v: leaky.add(g.root(v["v"]))
                continue
            for o in I.operands():
                if "v" in o: leaky.add(g.root(o["v"]))
            if I.id is not None: foreign.add(g.root(I.id))
        return leaky, foreign

    def growsarg(s):
        """ga[T]: (parameter, kind) that T may replace"""
        s.ga = {}
        ch = True
        while ch:
            ch = False
            for F in s.fs:
                g = s.grp(F)
                n = set(s.ga.get(F.name, ()))
                for I in F.calls():
                    for v, k in s.grown(F, I):
                        for j, p in enumerate(F.params):
                            if g.root(p) == g.root(v): n.add((j, k))
                if n != s.ga.get(F.name, set()): s.ga[F.name] = n; ch = True

    def grown(s, F, I):
        """[(value, kind)] a call replaces through its arguments"""
        if I.callee == REALLOC:
            v = I.args[2].get("v")
            return [(v, k) for k in s.site.get((F.name, I.id), ())] if v is not None else []
        T = s.P.resolve(F, I.callee) if I.callee else None
        return [(I.args[j]["v"], k) for j, k in s.ga.get(T.name if T else None, ()) if j < len(I.args) and "v" in I.args[j]]

    def counts(s):
        """once[k]: functions that replace any object of that kind at most once"""
        s.once = {k: set() for k in KINDS}
        ch = True
        while ch:
            ch = False
            for F in s.fs:
                for k in KINDS:
                    if F.name in s.once[k] or F.name not in s.grows[k]: continue
                    if s.atmost1(F, k): s.once[k].add(F.name); ch = True

    def atmost1(s, F, k):
        X, by = s.ctx.ex(F), {}
        for I in F.calls():
            if I.callee == REALLOC:
                if k in s.site[F.name, I.id]: by.setdefault(("size", s.spell(F, X, X.o(I.args[3]))), []).append(I)
            elif k in s.kinds_grown(F, I):
                T = s.P.resolve(F, I.callee) if I.callee else None
                if T is None or T.name not in s.once[k]: return False
                by[I.id, I.bb, I.pos] = [I]
        if k == "PNTuple" and F.name in s.direct[k] and not any(x[0] == "size" for x in by): return False
        for I in [x for y in by.values() for x in y]:
            if any(I.bb in F.reach_from(t) for t in F.blocks[I.bb].succs): return False
        ks = list(by)
        for a in ks:
            for b in ks:
                if a != b and any(any(J.bb in F.reach_from(t) for t in F.blocks[I.bb].succs) or (I.bb == J.bb and I.pos < J.pos) for I in by[a] for J in by[b]): return False
        return True

    def spell(s, F, X, e):
        """an expression with calls spelled out"""
        if not isinstance(e, tuple): return e
        if e[0] == "call" and isinstance(e[1], str): return ("call", e[1]) + tuple(s.spell(F, X, X.o(a)) for a in F.val[e[2]].args)
        if e[0] == "load": return ("load", s.spell(F, X, e[1]))
        return tuple(s.spell(F, X, x) for x in e)

    def kinds_grown(s, F, I):
        if "asm" in I.d: return ()
        if I.callee == REALLOC: return tuple(s.site.get((F.name, I.id), KINDS))
        if I.callee is None:
            h = s.emitters(F, I)
            return KINDS if h is None else tuple(k for k in KINDS if h & s.grows[k])
        T = s.P.resolve(F, I.callee)
        n = T.name if T else I.callee
        return tuple(k for k in KINDS if n in s.grows[k])


OWNERS = {("PNProto", "asmb"), ("Potion_State", "vts"), ("Potion_State", "strings"), ("Potion_State", "pbuf"), ("PNVtable", "methods")}


class Flow:
    """state: (value or owner, kind) -> (parameters its being current rests on, 0 current / 1 replaced at most once since)"""

    def __init__(s, G, F):
        s.G, s.F, s.X, s.g = G, F, G.ctx.ex(F), G.grp(F)
        s.need, s.bad, s.rets = {}, [], None
        s.n = 0
        s.owned = {}
        s.Q = None

    def cur(s, st, op, k):
        v = op.get("v") if isinstance(op, dict) else None
        if v is None: return (frozenset(), 0)
        return st.get((v, k))

    @staticmethod
    def meet(a, b):
        if a is None or b is None: return None
        return (a[0] | b[0], max(a[1], b[1]))

    def run(s):
        F = s.F
        entry = {(v, k): (frozenset([j]), 0) for j, v in enumerate(F.params) for k in KINDS}
        ins = {F.entry: entry}
        order = {b: i for i, b in enumerate(F.rpo())}
        work = {F.entry}
        while work:
            b = min(work, key=order.get); work.discard(b)
            st = s.block(b, dict(ins[b]), False)
            for t in F.blocks[b].succs:
                n = s.edge(b, t, st)
                o = ins.get(t)
                if o is None: ins[t] = n; work.add(t)
                else:
                    m = {}
                    for x in set(o) | set(n):
                        if isinstance(x[0], tuple): y = s.meet(o.get(x, (frozenset(), 0)), n.get(x, (frozenset(), 0)))
                        else: y = s.meet(o.get(x), n.get(x))
                        if y is not None: m[x] = y
                    if m != o: ins[t] = m; work.add(t)
        for b in F.rpo():
            if b in ins: s.block(b, dict(ins[b]), True)

    def edge(s, b, t, st):
        F = s.F
        n = dict(st)
        B = F.blocks[b].ins
        I = B[-1] if B else None
        if I is not None and I.op == "br" and I.get("cond") and F.blocks[b].succs[0] != F.blocks[b].succs[-1]:
            J = F.val.get(I["cond"].get("v"))
            if J is not None and J.op == "icmp" and J["pred"] in ("eq", "ne"):
                for x, y in (J["ops"], J["ops"][::-1]):
                    c = s.X.o(y)
                    L = F.val.get(x.get("v"))
                    while L is not None and L.op in ("zext", "sext", "trunc", "freeze"): L = F.val.get(L["ops"][0].get("v"))
                    if c[0] != "c" or L is None or L.op != "load": continue
                    e = s.X.o(L["ops"][0])
                    f = field(e)
                    if not (f is not None and e[0] == "fld" and f[1] in ("fwd", "vt")) and not (f is None and L.get("ty") == "i32" and e[0] in ("load", "call", "phi", "arg", "select", "op")): continue
                    fwdc = c[1] in FWDTAG
                    true = F.blocks[b].succs[0] == t
                    if (J["pred"] == "eq") == true and fwdc: continue
                    if (J["pred"] == "ne") == true and not fwdc: continue
                    # the record is not one that names a replacement
                    v = base(F, L["ops"][0])
                    if "v" in v and not s.between(L, I):
                        for k in KINDS:
                            n[v["v"], k] = (frozenset(), 0)
                            O = s.owner_load(v)
                            if O is not None and (O, k) in n: n.pop((O, k))
        for I in F.blocks[t].ins:
            if I.op != "phi": break
            for p, o in I["in"]:
                if p == b:
                    for k in KINDS:
                        c = s.cur(n, o, k)
                        if c is None: n.pop((I.id, k), None)
                        else: n[I.id, k] = c
        return n

    def between(s, L, I):
        """may something grow between the load and the branch"""
        if L.bb != I.bb: return True
        return any(s.G.kinds_grown(s.F, J) for J in s.F.blocks[L.bb].ins[L.pos:I.pos] if J.op == "call")

    def owner_load(s, op):
        """the owner field (or slot) a handle is loaded from"""
        J = s.F.val.get(op.get("v")) if isinstance(op, dict) else None
        while J is not None and J.op in CASTS: J = s.F.val.get(J["ops"][0].get("v"))
        if J is None or J.op != "load": return None
        return s.owner(J["ops"][0])

    def owner(s, op):
        e = strip_ids(s.X.o(op))
        f = field(e)
        if f is not None and e[0] == "fld": return e if f[:2] in OWNERS else None
        if e[0] == "arg" and re.sub(r"\b(volatile|const|struct)\b|\s", "", str(s.F.param_type(e[1]) or "")).endswith("**") and "Asm" in str(s.F.param_type(e[1])): return e
        J = s.F.val.get(op.get("v")) if isinstance(op, dict) else None
        if J is not None and J.op == "alloca": return ("slot", J.id)
        return None

    def string(s, st, I, op, what):
        """an access to the length or characters of something that is a string or a byte string"""
        c = s.cur(st, op, "PNBytes")
        if c is not None and not c[1] and not c[0]: return
        v = op.get("v") if isinstance(op, dict) else None
        if s.G.isstring(s.F, op): return
        if s.Q is None: s.Q = Query(s.G.ctx, s.F)
        s.G.ctx.count("path queries")
        e = s.Q.canon(s.Q.unfwd(s.X.o(op)))
        if s.Q.holds(I, [("eq", ladd({("typeof", e): 1}, {1: -TAGS["TSTRING"]}))]) is None: return
        s.use(st, op, "PNBytes", I, what)

    def use(s, st, op, k, I, what):
        c = s.cur(st, op, k)
        if c is None or c[1]: s.bad.append((I, k, what))
        else:
            for j in c[0]: s.need.setdefault((j, k), (I, what))

    def result(s, I, T, st, k):
        """what a call's result is known to be, by the state before it"""
        if I.callee in FRESH or I.callee in ("potion_fwd", REALLOC): return (frozenset(), 0)
        if T is None or T.name not in s.G.ret: return None
        c = s.G.ret[T.name].get(k)
        if c is None: return None
        r = (frozenset(), 0)
        for j in c:
            x = s.cur(st, I.args[j], k)
            if x is None or x[1]: return None
            r = s.meet(r, x)
        return r

    def block(s, b, st, rep):
        F, G = s.F, s.G
        for I in F.blocks[b].ins:
            if I.op == "phi": continue
            if I.op in ("load", "store") and rep:
                op = I["ops"][0 if I.op == "load" else 1]
                f = field(s.X.o(op))
                if f and f[0] == "PNString" and f[1] not in ("vt", "uniq"):
                    s.n += 1
                    if F.name != "potion_str_ptr": s.string(st, I, base(F, op), f[1])
                elif f and f[0] in KINDS and f[1] not in ("vt", "uniq") and not (I.op == "load" and follows(G, F, I)):
                    s.n += 1
                    s.use(st, base(F, op), f[0], I, f[1])
            if I.op in ("call", "invoke"):
                T = G.P.resolve(F, I.callee) if I.callee else None
                if rep and T is not None:
                    for j, a in enumerate(I.args):
                        for k in KINDS:
                            if (j, k) in G.needs.get(T.name, ()): s.use(st, a, k, I, "passed to " + T.name)
                res = {k: s.result(I, T, st, k) for k in KINDS} if I.id is not None else {}
                ks = G.kinds_grown(F, I)
                gv = G.grown(F, I)
                if ks:
                    priv = G.priv[F.name]
                    given = {s.g.root(a["v"]) for a in I.args if "v" in a}
                    for k in ks:
                        one = I.callee == REALLOC or (T is not None and T.name in G.once[k])
                        own = T is not None and T.name in G.only[k] or I.callee == REALLOC
                        hit = {s.g.root(v) for v, y in gv if y == k}
                        if own and hit <= priv:
                            for x in [x for x in st if x[1] == k and not isinstance(x[0], tuple) and s.g.root(x[0]) in hit]:
                                if one and st[x][1] == 0: st[x] = (st[x][0], 1)
                                else: del st[x]
                            continue
                        for x in [x for x in st if x[1] == k and not isinstance(x[0], tuple)]:
                            r = s.g.root(x[0])
                            if r in priv and r not in given: continue
                            if one and st[x][1] == 0: st[x] = (st[x][0], 1)
                            else: del st[x]
                for v, k in gv:
                    O = s.owner_load({"v": v})
                    if O is not None:
                        one = I.callee == REALLOC or (T is not None and T.name in G.once[k])
                        st[O, k] = (frozenset(), 1 if one and (O, k) not in st else 2)
                        s.owned.setdefault((O, k), I)
                for k, r in res.items():
                    if r is None: st.pop((I.id, k), None)
                    else: st[I.id, k] = r
            elif I.op == "load":
                O = s.owner(I["ops"][0])
                f = field(s.X.o(I["ops"][0]))
                for k in KINDS:
                    if O is not None:
                        c = st.get((O, k), (frozenset(), 0))
                        if c[1] == 2: st.pop((I.id, k), None)
                        else: st[I.id, k] = c
                    elif follows(G, F, I) and s.cur(st, base(F, I["ops"][0]), k) is not None:
                        st[I.id, k] = (s.cur(st, base(F, I["ops"][0]), k)[0], 0)
                    else: st.pop((I.id, k), None)
            elif I.op == "store":
                O = s.owner(I["ops"][1])
                if O is not None:
                    for k in KINDS:
                        c = s.cur(st, I["ops"][0], k)
                        if c is not None and c[1] == 0: st.pop((O, k), None)
                        elif (O, k) in st or c is not None: st[O, k] = (frozenset(), 2 if c is None else c[1])
            elif I.op in CASTS or I.op == "select":
                os = I["ops"][1:] if I.op == "select" else I["ops"][:1]
                for k in KINDS:
                    c = (frozenset(), 0)
                    for o in os: c = s.meet(c, s.cur(st, o, k))
                    if c is None: st.pop((I.id, k), None)
                    else: st[I.id, k] = c
            elif I.op == "ret" and rep:
                for (O, k), c in [(x, y) for x, y in st.items() if isinstance(x[0], tuple)]:
                    if O[0] != "slot" and (O, k) in s.owned: s.bad.append((s.owned[O, k], k, "owner " + show(O)))
                if I["ops"]:
                    for k in KINDS:
                        c = s.cur(st, I["ops"][0], k)
                        s.rets = s.rets or {}
                        o = s.rets.get(k, frozenset())
                        s.rets[k] = None if c is None or c[1] or o is None else o | c[0]
        return st


def run(ctx):
    P = ctx.P
    G = Grow(ctx)
    for F in G.fs: G.ret[F.name] = {k: frozenset() for k in KINDS}
    flows = {}
    ch = True
    while ch:
        ch = False
        for F in G.fs:
            W = Flow(G, F); W.run()
            flows[F.name] = W
            if W.rets and W.rets != G.ret[F.name]: G.ret[F.name] = W.rets; ch = True
            n = set(W.need)
            if n != G.needs.get(F.name, set()): G.needs[F.name] = n; ch = True
    for F in G.fs:
        W = flows[F.name]
        if W.n: ctx.count("functions that access growable objects"); ctx.count("accesses", W.n)
        for I, k, what in W.bad:
            if what.startswith("owner "): m = "%s, a %s that may be replaced here, is not brought up to date on some path to the end of the function" % (what[6:], k)
            elif what.startswith("passed "): m = "a handle that may be out of date is %s, which accesses it as a %s" % (what, k)
            else: m = "%s.%s is accessed through a handle that may be out of date" % (k, what)
            ctx.report("%s|%s %s" % (F.name, k, what), I.where, m)
    from .p08 import receivers
    rk = receivers(ctx, methods(ctx))
    on = {}
    for m in methods(ctx): on.setdefault(m["fn"], []).append(rk(m))
    for fn, sg, I, F in registrations(ctx):
        T = P.resolve(F, fn)
        for (j, k) in sorted(G.needs.get(T.name if T else None, ())):
            if j == 2 and on.get(fn) and all(x is not None and x <= {TAGS["TSTRING"]} for x in on[fn]): continue       # its receiver is a string
            J, what = flows[T.name].need[j, k]
            ctx.report("%s|argument %d %s" % (fn, j, k), J.where, "the native method %s accesses its argument %d (%s) as a %s (%s) without following its replacement" % (fn, j - 2, T.param_name(j), k, what))
    ctx.floor("accesses", 400); ctx.floor("growing calls", 12); ctx.floor("functions that access growable objects", 80)
